// C05: deep copies are equal and independent, shallow copies share elements.
#include "mutate.h"
#include <set>
#include <map>
using namespace gen;
using pbt::note;

// all non-shareable objects of a value (keys too)
static void objects (const iot_data_t * d, std::vector<const iot_data_t *> & out)
{
  if (!d || iot_data_is_static (d) || iot_data_type (d) == IOT_DATA_POINTER) return;
  out.push_back (d);
  switch (iot_data_type (d))
  {
    case IOT_DATA_VECTOR: for (uint32_t i = 0; i < iot_data_vector_size (d); i++) objects (iot_data_vector_get (d, i), out); break;
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) objects (iot_data_list_iter_value (&it), out); break; }
    case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) { objects (iot_data_map_iter_key (&it), out); objects (iot_data_map_iter_value (&it), out); } break; }
    default: break;
  }
}

static void same_types (const iot_data_t * a, const iot_data_t * b)
{
  iot_typecode_t t1, t2; iot_data_typecode (a, &t1); iot_data_typecode (b, &t2);
  CHECK (t1.type == t2.type && t1.element_type == t2.element_type && t1.key_type == t2.key_type, "copy has typecode %d/%d/%d, original %d/%d/%d", t2.type, t2.element_type, t2.key_type, t1.type, t1.element_type, t1.key_type);
}

typedef std::map<int, V> Meta;
static void set_meta (Src & s, iot_data_t * d, Meta & m, const Opt & o)
{
  int k = (int) s.draw (3); V x = gen_value (s, o, 1); iot_data_t * key = iot_data_alloc_i32 (k);
  iot_data_set_metadata (d, build (x, &s), key); iot_data_free (key); m[k] = x;
}
static void check_meta (const iot_data_t * d, const Meta & m, const char * who)
{
  for (int k = 0; k < 3; k++)
  {
    iot_data_t * key = iot_data_alloc_i32 (k); const iot_data_t * x = iot_data_get_metadata (d, key); iot_data_free (key);
    auto p = m.find (k); CHECK (p == m.end () ? !x : x && veq (read (x), p->second), "%s: metadata %d is %s, should be %s", who, k, x ? show (read (x)).c_str () : "absent", p == m.end () ? "absent" : show (p->second).c_str ());
  }
}

TARGET (deep, 90000, 3000000, pbt::LEAK)
{
  pbt::setrule ("deep: the value is a container and at least two later mutations were applied, one nested or to metadata; shallow: a container with at least one element object was copied");
  Opt o; o.depth = 3; o.elems = 3; o.pointers = true; o.container_keys = true;
  iot_data_alloc_heap (s.flag ());
  Arena ar; bool ref = s.flag ();
  V m = s.draw (5) ? gen_container (s, o, 3) : gen_value (s, o, 2);
  iot_data_t * d = build (m, &s, ref ? &ar : nullptr); note ("value %s", show (m).c_str ());
  if (s.chance (1, 8) && !has_nan (m))
  { // shared parts inside the value are copied too
    iot_data_compress (d); iot_data_t * c = iot_data_copy (d); CHECK (veq (read (c), m) && iot_data_equal (c, d), "copy of a compressed value");
    iot_data_free (d); CHECK (veq (read (c), m), "copy changed when the compressed original was freed"); iot_data_free (c); iot_data_alloc_heap (false); return;
  }
  Meta meta; bool stat = iot_data_is_static (d) || m.t == IOT_DATA_POINTER;
  if (!stat) for (size_t k = s.draw (3); k--; ) set_meta (s, d, meta, o);
  uint32_t rc = iot_data_ref_count (d);
  iot_data_t * c = iot_data_copy (d);
  CHECK (veq_typed (read (d), m), "copying changed the original to %s", show (read (d)).c_str ());
  CHECK (veq_typed (read (c), m), "copy is %s", show (read (c)).c_str ());
  if (!has_nan (m)) CHECK (iot_data_equal (d, c) && iot_data_compare (d, c) == 0 && iot_data_hash (d) == iot_data_hash (c), "copy does not equal the original");
  same_types (d, c);
  if (stat) { CHECK (c == d, "constant or pointer not shared by a copy"); if (m.t == IOT_DATA_POINTER) CHECK (iot_data_ref_count (d) == rc + 1, "pointer reference count"); iot_data_free (c); iot_data_free (d); iot_data_alloc_heap (false); return; }
  CHECK (iot_data_ref_count (d) == rc && iot_data_ref_count (c) == 1, "copy changes reference counts to %u and %u", iot_data_ref_count (d), iot_data_ref_count (c));
  check_meta (c, meta, "copy");
  {
    std::vector<const iot_data_t *> a, b; objects (d, a); objects (c, b); std::set<const iot_data_t *> sa (a.begin (), a.end ());
    for (auto x : b) CHECK (!sa.count (x), "copy shares an object of type %s with the original", iot_data_type_name (x));
  }
  iot_data_t * side[2] = { d, c }; V model[2] = { m, m }; Meta mm[2] = { meta, meta };
  size_t n = s.len (20, 5), nested = 0, done = 0;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    int k = (int) s.draw (2);
    if (s.chance (1, 6)) { set_meta (s, side[k], mm[k], o); nested++; done++; }
    else
    {
      std::vector<Part> ps; parts (side[k], model[k], ps); if (ps.empty ()) break;
      Part p = ps[s.draw (ps.size ())];
      if ((p.m->t == IOT_DATA_ARRAY) && !ref && !p.m->s.empty () && s.flag ())
      { // owned buffers are written in place
        uint32_t z = type_bytes (p.m->et), idx = (uint32_t) s.draw (p.m->s.size () / z); uint8_t * x = (uint8_t *) iot_data_array_get (p.d, idx); *x ^= 1; p.m->s[idx * z] = (char) (p.m->s[idx * z] ^ 1); done++; if (p.depth) nested++; note ("%s: array element write", k ? "copy" : "original");
      }
      else { const char * w = mutate (s, p.d, *p.m, o); if (!w) continue; done++; if (p.depth) nested++; note ("%s: %s at depth %zu", k ? "copy" : "original", w, p.depth); }
    }
    for (int j = 0; j < 2; j++)
    {
      V r = read (side[j]); CHECK (veq (r, model[j]), "%s is %s after a change of the %s, should be %s", j ? "copy" : "original", show (r).c_str (), k ? "copy" : "original", show (model[j]).c_str ());
      check_meta (side[j], mm[j], j ? "copy" : "original");
    }
  }
  if (is_comp (m.t) && done >= 2 && nested) pbt::nontrivial ();
  pbt::label_if (nested > 0, "nested changes"); pbt::label_if (!meta.empty (), "with metadata");
  int first = (int) s.draw (2); iot_data_free (side[first]);
  CHECK (veq (read (side[!first]), model[!first]), "value changed when its %s was freed", first ? "copy" : "original");
  check_meta (side[!first], mm[!first], "survivor");
  iot_data_free (side[!first]); iot_data_alloc_heap (false);
}

TARGET (shallow, 90000, 3000000, pbt::LEAK)
{
  Opt o; o.depth = 3; o.elems = 3; o.pointers = true;
  iot_data_alloc_heap (s.flag ());
  V m = s.draw (5) ? gen_container (s, o, 2) : gen_value (s, o, 1);
  Arena ar; iot_data_t * d = build (m, &s, &ar); note ("value %s", show (m).c_str ());
  uint32_t rc = iot_data_ref_count (d);
  iot_data_t * c = iot_data_shallow_copy (d);
  if (!is_comp (m.t))
  {
    CHECK (c == d && iot_data_ref_count (d) == rc + 1, "shallow copy of a plain value is not the value with one more reference");
    iot_data_free (c); CHECK (veq (read (d), m), "value changed"); iot_data_free (d); iot_data_alloc_heap (false); return;
  }
  CHECK (c != d && iot_data_ref_count (d) == rc && iot_data_ref_count (c) == 1, "shallow copy of a container is not a new container");
  same_types (d, c); CHECK (veq_typed (read (c), m) && veq_typed (read (d), m), "shallow copy is %s", show (read (c)).c_str ());
  CHECK (iot_data_equal (c, d), "shallow copy does not equal the original");
  size_t elems = 0;
  auto shared = [&] (const iot_data_t * x, const iot_data_t * y) { CHECK (x == y, "shallow copy does not hold the same element object"); if (x && !iot_data_is_static (x)) { elems++; CHECK (iot_data_ref_count (x) == 2, "element has %u references", iot_data_ref_count (x)); } };
  if (m.t == IOT_DATA_VECTOR) for (uint32_t i = 0; i < m.e.size (); i++) shared (iot_data_vector_get (d, i), iot_data_vector_get (c, i));
  else if (m.t == IOT_DATA_LIST) { iot_data_list_iter_t i, j; iot_data_list_iter (d, &i); iot_data_list_iter (c, &j); while (iot_data_list_iter_next (&i)) { CHECK (iot_data_list_iter_next (&j), "shorter"); shared (iot_data_list_iter_value (&i), iot_data_list_iter_value (&j)); } }
  else { iot_data_map_iter_t i, j; iot_data_map_iter (d, &i); iot_data_map_iter (c, &j); while (iot_data_map_iter_next (&i)) { CHECK (iot_data_map_iter_next (&j), "shorter"); shared (iot_data_map_iter_value (&i), iot_data_map_iter_value (&j)); shared (iot_data_map_iter_key (&i), iot_data_map_iter_key (&j)); } }
  if (elems) pbt::nontrivial ();
  iot_data_t * side[2] = { d, c }; V model[2] = { m, m };
  for (size_t n = s.len (12, 4); n--; )
  {
    Span sp (s); int k = (int) s.draw (2); const char * w = mutate (s, side[k], model[k], o); if (!w) continue; note ("%s: %s", k ? "copy" : "original", w);
    for (int j = 0; j < 2; j++) CHECK (veq (read (side[j]), model[j]), "%s is %s, should be %s", j ? "copy" : "original", show (read (side[j])).c_str (), show (model[j]).c_str ());
  }
  int first = (int) s.draw (2); iot_data_free (side[first]); CHECK (veq (read (side[!first]), model[!first]), "value changed when the other was freed"); iot_data_free (side[!first]);
  iot_data_alloc_heap (false);
}

// a pointer value keeps one identity and one metadata through copies
TARGET (pointers, 20000, 300000, pbt::LEAK)
{
  pbt::nontrivial ();
  Opt o; iot_data_t * p = iot_data_alloc_pointer ((void *) 0x1000, nullptr); Meta m;
  for (size_t k = s.draw (3); k--; ) set_meta (s, p, m, o);
  size_t n = s.draw (5) + 1; std::vector<iot_data_t *> cs { p };
  for (size_t i = 0; i < n; i++) { iot_data_t * c = s.flag () ? iot_data_copy (p) : iot_data_shallow_copy (p); CHECK (c == p && iot_data_ref_count (p) == i + 2, "pointer copy"); cs.push_back (c); }
  while (!cs.empty ()) { check_meta (p, m, "pointer"); CHECK (iot_data_pointer (p) == (void *) 0x1000, "pointer"); iot_data_free (p); cs.pop_back (); }
}

TARGET (large, 200, 5000, pbt::LEAK)
{
  pbt::setrule ("more than 255 parts");
  int kind = (int) s.draw (6); size_t n = big_size (s, kind == 2 ? 2100 : 72000), at = s.draw (n); bool shallow = s.chance (1, 3), ofcopy = s.flag (); note ("kind %d, %zu parts, %s copy", kind, n, shallow ? "shallow" : "deep"); if (n > 255) pbt::nontrivial ();
  iot_data_t * d = nullptr; std::string t; for (size_t i = 0; i < n; i++) t += (char) (1 + (i * 31 + n) % 127); std::vector<uint16_t> a; for (size_t i = 0; i < n; i++) a.push_back ((uint16_t) (i * 7));
  switch (kind)
  {
    case 0: d = iot_data_alloc_vector ((uint32_t) n); for (size_t i = 0; i < n; i++) if (i % 5) iot_data_vector_add (d, (uint32_t) i, iot_data_alloc_ui32 ((uint32_t) i)); break;
    case 1: d = iot_data_alloc_typed_list (IOT_DATA_UINT32); for (size_t i = 0; i < n; i++) iot_data_list_head_push (d, iot_data_alloc_ui32 ((uint32_t) i)); break;
    case 2: d = iot_data_alloc_typed_map (IOT_DATA_UINT32, IOT_DATA_UINT32); for (size_t i = 0; i < n; i++) iot_data_map_add (d, iot_data_alloc_ui32 ((uint32_t) i), iot_data_alloc_ui32 ((uint32_t) i)); break;
    case 3: d = iot_data_alloc_string (t.c_str (), IOT_DATA_COPY); break;
    case 4: d = iot_data_alloc_array (a.data (), (uint32_t) n, IOT_DATA_UINT16, IOT_DATA_COPY); break;
    default: d = iot_data_alloc_binary ((void *) t.data (), (uint32_t) n, IOT_DATA_COPY); break;
  }
  V before = read (d); iot_data_t * c = shallow ? iot_data_shallow_copy (d) : iot_data_copy (d); CHECK (iot_data_equal (c, d) && iot_data_type (c) == iot_data_type (d), "copy differs"); { V r = read (c); CHECK (veq_typed (r, before), "copy differs from the original"); }
  if (kind < 3)
  {
    CHECK (c != d, "the same container"); iot_data_t * x = ofcopy ? c : d, * y = ofcopy ? d : c;
    if (kind == 0) { iot_data_vector_add (x, (uint32_t) at, iot_data_alloc_string ("z", IOT_DATA_REF)); iot_data_vector_resize (x, (uint32_t) (at + 1)); }
    else if (kind == 1) { iot_data_free (iot_data_list_tail_pop (x)); iot_data_list_head_push (x, iot_data_alloc_ui32 (9)); }
    else { iot_data_t * k = iot_data_alloc_ui32 ((uint32_t) at); iot_data_map_remove (x, k); iot_data_free (k); }
    V r = read (y); CHECK (veq_typed (r, before), "a change to one is visible in the other"); iot_data_free (x); r = read (y); CHECK (veq_typed (r, before), "freeing one is visible in the other"); iot_data_free (y);
  }
  else { iot_data_free (d); V r = read (c); CHECK (veq_typed (r, before), "copy changed when the original was freed"); iot_data_free (c); }
}

// deep copies of deeply nested values share nothing at any level
TARGET (tower, 700, 30000, pbt::LEAK)
{
  pbt::setrule ("nested more than 60 levels");
  size_t n = big_depth (s); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; V v = tower (r, n, s.flag () ? vstr ("leaf") : V (IOT_DATA_VECTOR), o); note ("%zu levels", n); if (n > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (v, &s, &ar), * c = iot_data_copy (d); CHECK (iot_data_equal (c, d), "copy differs"); V got = read (c); CHECK (veq_typed (got, v), "copy differs from the original");
  std::vector<const iot_data_t *> a, b; objects (d, a); objects (c, b); std::set<const iot_data_t *> u (a.begin (), a.end ()); for (auto x : b) CHECK (!u.count (x), "a part of the deep copy is the object of the original");
  iot_data_t * first = s.flag () ? d : c, * last = first == d ? c : d; iot_data_free (first); got = read (last); CHECK (veq_typed (got, v), "freeing one changed the other"); iot_data_free (last);
}
