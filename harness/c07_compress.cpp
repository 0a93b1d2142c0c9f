// C07: compressing keeps every value and makes equal parts one object.
#include "mutate.h"
#include <map>
#include <set>
#include <unordered_map>
using namespace gen;
using pbt::note;
typedef const iot_data_t * P;

// every key and element object strictly below d, with repetition
static void below (P d, std::vector<P> & out, int depth = 0)
{
  switch (iot_data_type (d))
  {
    case IOT_DATA_VECTOR: for (uint32_t i = 0; i < iot_data_vector_size (d); i++) if (P x = iot_data_vector_get (d, i)) { out.push_back (x); below (x, out, depth + 1); } break;
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) { P x = iot_data_list_iter_value (&it); out.push_back (x); below (x, out, depth + 1); } break; }
    case IOT_DATA_MAP:
    {
      iot_data_map_iter_t it; iot_data_map_iter (d, &it);
      while (iot_data_map_iter_next (&it)) for (P x : { (P) iot_data_map_iter_key (&it), (P) iot_data_map_iter_value (&it) }) { out.push_back (x); below (x, out, depth + 1); }
      break;
    }
    default: break;
  }
}
// shape key under which two values are the same (no NaN, -0 kept apart by no one)
static bool shared_ok (std::vector<P> & parts, std::string & why)
{
  std::set<P> uniq (parts.begin (), parts.end ()); std::vector<P> u (uniq.begin (), uniq.end ());
  std::unordered_map<uint64_t, std::vector<std::pair<P, V>>> cls;
  for (auto d : u)
  {
    V v = read (d); uint64_t h = (uint64_t) v.t * 1000003u + v.s.size () * 131 + v.e.size () * 17 + v.m.size () * 7 + (uint64_t) v.i + v.u + (v.d == v.d ? (uint64_t) (int64_t) (fabs (v.d) < 1e15 ? v.d : 0) : 0);
    if (v.t == IOT_DATA_NULL || v.t == IOT_DATA_BOOL) continue;
    auto & c = cls[h];
    for (auto & x : c) if (veq (x.second, v)) { why = show (v); return false; }
    c.push_back ({ d, v });
  }
  return true;
}
// a value in which many parts are equal: drawn from a small pool of sub-values
static V gen_rep (Src & s, const Opt & o, std::vector<V> & pool, int depth)
{
  if (!pool.empty () && s.chance (1, 2)) return pool[s.draw (pool.size ())];
  V v;
  if (depth == 0 || s.chance (1, 3)) v = s.chance (1, 8) ? gen_array (s, 6) : gen_any_scalar (s, o);
  else
  {
    T ts[] = { IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP }; v = V (ts[s.draw (3)]); size_t n = s.len (8, 3);
    if (v.t == IOT_DATA_MAP && s.flag ()) v.kt = IOT_DATA_STRING;
    for (size_t i = 0; i < n; i++)
    {
      Span sp (s);
      if (v.t == IOT_DATA_MAP) { V k = v.kt == IOT_DATA_STRING ? vstr (gen_string (s, o)) : s.flag () ? gen_rep (s, o, pool, depth - 1) : gen_any_scalar (s, o); V x = gen_rep (s, o, pool, depth - 1); if (k.t != EMPTY && !find_key (v.m, k)) v.m.push_back ({ k, x }); }
      else if (v.t == IOT_DATA_VECTOR && s.chance (1, 10)) v.e.push_back (V ());
      else v.e.push_back (gen_rep (s, o, pool, depth - 1));
    }
  }
  if (pool.size () < 12) pool.push_back (v);
  return v;
}
static size_t dup_count (P d) { std::vector<P> p; below (d, p); std::set<P> u (p.begin (), p.end ()); return p.size () - u.size (); }
static Opt opts () { Opt o; o.empties = true; o.typed = false; o.nan = false; o.negzero = false; // zeros of either sign are equal values with different text
  return o; }
static V gen_top (Src & s, std::vector<V> & pool)
{
  Opt o = opts (); V v;
  for (int k = 0; k < 4; k++) { v = gen_rep (s, o, pool, 3); if (is_comp (v.t)) break; }
  if (!is_comp (v.t)) { V l (IOT_DATA_LIST); l.e.push_back (v); l.e.push_back (v); v = l; }
  if (vsize (v) > 600) { V l (IOT_DATA_LIST); l.e.push_back (vstr ("x")); l.e.push_back (vstr ("x")); v = l; }
  return v;
}

TARGET (compress, 80000, 1500000, pbt::LEAK)
{
  pbt::setrule ("at least one key or element was equal to another one before compression");
  std::vector<V> pool; V v = gen_top (s, pool); Arena ar;
  iot_data_t * d = build (v, &s, &ar), * twin = build (v);
  // in some cases the value is changed in place first, so that parts carry cached hashes from an earlier history
  size_t edits = s.draw (4); if (edits) iot_data_hash (d); Opt o = opts ();
  for (size_t i = 0; i < edits; i++) { Span sp (s); if (const char * w = mutate (s, d, v, o)) note ("%s", w); }
  if (edits) { iot_data_free (twin); twin = build (v); }
  note ("%s", show (v).c_str ());
  size_t before = dup_count (d); char * j1 = iot_data_to_json (d); uint32_t h = iot_data_hash (d);
  iot_data_compress (d);
  V r = read (d); CHECK (veq (r, v), "compression changed the value from %s to %s", show (v).c_str (), show (r).c_str ());
  CHECK (iot_data_equal (d, twin) && iot_data_compare (d, twin) == 0 && iot_data_hash (d) == h, "compressed value does not equal its value before compression: %s", show (v).c_str ());
  char * j2 = iot_data_to_json (d); CHECK (!strcmp (j1, j2), "JSON text changed from %s to %s", j1, j2); free (j1); free (j2);
  std::vector<P> parts; below (d, parts); std::string why;
  CHECK (shared_ok (parts, why), "equal parts are still different objects after compression: %s in %s", why.c_str (), show (v).c_str ());
  size_t after = dup_count (d); if (after > before) pbt::nontrivial ();
  // compressing again changes nothing
  std::vector<P> p2; if (s.flag ()) { iot_data_compress (d); below (d, p2); CHECK (p2 == parts || read (d).m.size (), "a second compression replaced objects"); CHECK (veq (read (d), v), "second compression changed the value"); }
  // a deep copy of the compressed value is independent of the shared parts
  if (s.flag ()) { iot_data_t * c = iot_data_copy (d); iot_data_free (d); d = nullptr; V rc = read (c); CHECK (veq (rc, v), "copy of a compressed value differs"); iot_data_free (c); }
  iot_data_free (d); iot_data_free (twin);
}

TARGET (cache, 50000, 1000000, pbt::LEAK)
{
  pbt::setrule ("two values compressed with one cache had an equal part");
  std::vector<V> pool; size_t n = 1 + s.draw (4); std::vector<V> vs; std::vector<iot_data_t *> ds;
  iot_data_t * cache = iot_data_alloc_map (IOT_DATA_MULTI);
  for (size_t i = 0; i < n; i++) { Span sp (s); vs.push_back (gen_top (s, pool)); ds.push_back (build (vs.back (), &s)); note ("%s", show (vs.back ()).c_str ()); }
  for (size_t i = 0; i < n; i++)
  {
    iot_data_compress_with_cache (ds[i], cache);
    for (size_t k = 0; k < n; k++) CHECK (veq (read (ds[k]), vs[k]), "value %zu changed when value %zu was compressed: %s became %s", k, i, show (vs[k]).c_str (), show (read (ds[k])).c_str ());
    std::vector<P> parts; for (size_t k = 0; k <= i; k++) below (ds[k], parts);
    std::string why; CHECK (shared_ok (parts, why), "equal parts of values compressed with one cache are different objects: %s", why.c_str ());
  }
  if (n > 1) { std::vector<P> a, b; below (ds[0], a); for (size_t k = 1; k < n; k++) below (ds[k], b); std::set<P> sa (a.begin (), a.end ()); for (auto x : b) if (sa.count (x) && iot_data_type (x) != IOT_DATA_NULL && iot_data_type (x) != IOT_DATA_BOOL) { pbt::nontrivial (); break; } }
  // release in any order; the remaining ones keep their contents
  std::vector<size_t> left; for (size_t i = 0; i <= n; i++) left.push_back (i);
  while (!left.empty ())
  {
    size_t i = s.draw (left.size ()), w = left[i]; left.erase (left.begin () + (long) i);
    iot_data_free (w == n ? cache : ds[w]);
    for (auto k : left) if (k < n) CHECK (veq (read (ds[k]), vs[k]), "value %zu changed when another one was freed", k);
  }
}

TARGET (large, 150, 4000, pbt::LEAK)
{
  pbt::setrule ("more than 255 elements, some of them equal");
  size_t n = big_size (s, 33000), dist = 1 + s.draw (s.flag () ? 20 : n); int kind = (int) s.draw (3), el = (int) s.draw (4); bool cached = s.flag (); note ("kind %d, %zu elements, %zu distinct", kind, n, dist); if (n > 255 && dist < n) pbt::nontrivial ();
  auto mk = [&] (size_t i) -> iot_data_t * { char b[40]; snprintf (b, sizeof b, "string %zu of them", i % dist); switch (el) { case 0: return iot_data_alloc_string (b, IOT_DATA_COPY); case 1: return iot_data_alloc_ui64 (i % dist); case 2: { iot_data_t * l = iot_data_alloc_list (); iot_data_list_head_push (l, iot_data_alloc_ui64 (i % dist)); iot_data_list_head_push (l, iot_data_alloc_string (b, IOT_DATA_COPY)); return l; } default: return iot_data_alloc_binary (b, (uint32_t) strlen (b), IOT_DATA_COPY); } };
  auto make = [&] () { iot_data_t * d = kind == 0 ? iot_data_alloc_vector ((uint32_t) n) : kind == 1 ? iot_data_alloc_list () : iot_data_alloc_map (IOT_DATA_UINT32); for (size_t i = 0; i < n; i++) if (kind == 0) iot_data_vector_add (d, (uint32_t) i, mk (i)); else if (kind == 1) iot_data_list_head_push (d, mk (i)); else iot_data_map_add (d, iot_data_alloc_ui32 ((uint32_t) i), mk (i)); return d; };
  iot_data_t * d = make (), * e = make (), * cache = cached ? iot_data_alloc_map (IOT_DATA_MULTI) : nullptr;
  if (cached) { iot_data_compress_with_cache (d, cache); iot_data_t * f = make (); iot_data_compress_with_cache (f, cache); CHECK (iot_data_equal (f, e), "second value changed"); iot_data_iter_t a, b; iot_data_iter (d, &a); iot_data_iter (f, &b); while (iot_data_iter_next (&a)) { iot_data_iter_next (&b); CHECK (iot_data_iter_value (&a) == iot_data_iter_value (&b), "equal elements of two values are different objects"); } if (s.flag ()) { iot_data_free (cache); cache = nullptr; } iot_data_free (f); }
  else iot_data_compress (d);
  CHECK (iot_data_equal (d, e) && iot_data_length (d) == n, "compression changed the value"); std::map<size_t, P> seen; iot_data_iter_t it; iot_data_iter (d, &it); size_t i = 0; while (iot_data_iter_next (&it)) { P v = (P) iot_data_iter_value (&it); P & w = seen[i % dist]; if (!w) w = v; CHECK (w == v, "element %zu is equal to an earlier one, but another object", i); i++; }
  CHECK (i == n, "%zu of %zu elements", i, n); iot_data_free (cache); iot_data_free (d); iot_data_free (e);
}

// equal deeply nested parts become one object, parts that differ far inside do not
TARGET (tower, 400, 12000, pbt::LEAK)
{
  pbt::setrule ("nested more than 60 levels");
  size_t n = big_depth (s, 300); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; V a = tower (r, n, vstr ("leaf"), o), b = s.flag () ? a : tower (r, n, vstr ("other"), o); bool same = veq (a, b); V top (s.flag () ? IOT_DATA_VECTOR : IOT_DATA_LIST); top.e.push_back (a); top.e.push_back (b); note ("%zu levels, %s", n, same ? "the same" : "different"); if (n > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (top, &s, &ar), * twin = build (top); if (s.flag ()) iot_data_compress (d); else { iot_data_t * cache = iot_data_alloc_map (IOT_DATA_MULTI); iot_data_compress_with_cache (d, cache); iot_data_free (cache); }
  CHECK (iot_data_equal (d, twin), "compression changed the value"); V got = read (d); CHECK (veq (got, top), "compression changed the value");
  iot_data_iter_t it; iot_data_iter (d, &it); iot_data_iter_next (&it); P x = (P) iot_data_iter_value (&it); iot_data_iter_next (&it); CHECK ((x == (P) iot_data_iter_value (&it)) == same, "parts that are %s are %s", same ? "equal" : "different", same ? "two objects" : "one object");
  iot_data_free (d); iot_data_free (twin);
}
