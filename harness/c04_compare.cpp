// C04: comparison laws, agreement with equality and hashing, value-based comparison, and comparison after mutation.
#include "mutate.h"
using namespace gen;
using pbt::note;

static void pair_check (const V & a, const V & b, const iot_data_t * da, const iot_data_t * db)
{
  int c = sgn (iot_data_compare (da, db)), r = sgn (iot_data_compare (db, da)), k = vcmp (a, b);
  bool same = veq (a, b);
  CHECK (c == -r, "compare is not antisymmetric: %d and %d", c, r);
  CHECK ((c == 0) == same, "compare gives %d, values are %s", c, same ? "the same" : "different");
  if (k != 2) CHECK (c == k, "compare gives %d, the order of the values is %d", c, k);
  CHECK (iot_data_equal (da, db) == same && iot_data_equal (db, da) == same, "equal does not say %d", same);
  if (same) CHECK (iot_data_hash (da) == iot_data_hash (db), "equal values hash to %u and %u", iot_data_hash (da), iot_data_hash (db));
  int cv = sgn (iot_data_compare_value (da, db)), rv = sgn (iot_data_compare_value (db, da)), kv = vcmp (a, b, true);
  CHECK (cv == -rv, "value comparison is not antisymmetric: %d and %d", cv, rv);
  CHECK ((cv == 0) == (kv == 0), "value comparison gives %d, values are %s by value", cv, kv == 0 ? "the same" : "different");
  if (kv != 2) CHECK (cv == kv, "value comparison gives %d, the order of the values is %d", cv, kv);
  CHECK (iot_data_equal_value (da, db) == (kv == 0) && iot_data_equal_value (db, da) == (kv == 0), "equal_value does not say %d", kv == 0);
  if (kv == 0) CHECK (iot_data_hash (da) == iot_data_hash (db), "values equal by value hash to %u and %u", iot_data_hash (da), iot_data_hash (db));
}

static V gen_any (Src & s, const Opt & o) { return s.chance (1, 40) ? V () : s.draw (3) ? gen_value (s, o, 3) : s.flag () ? gen_any_scalar (s, o) : gen_container (s, o, 3); }

TARGET (laws, 150000, 5000000, 0)
{
  pbt::setrule ("laws: two of the three values are related (one derived from another) or of the same type; mutate: at least two mutations applied after the hash was read");
  Opt o; o.depth = 3; o.elems = 3; o.pointers = true; o.container_keys = true; o.nan = false;
  iot_data_alloc_heap (s.flag ());
  V v[3]; Arena ar;
  v[0] = gen_any (s, o);
  for (int i = 1; i < 3; i++)
    switch (s.weighted ({ 2, 4, 1 }))
    {
      case 0: v[i] = gen_any (s, o); break;
      case 1: v[i] = v[s.draw ((uint64_t) i)]; for (size_t n = s.draw (3) + 1; n--; ) v[i] = vary (s, v[i], o, true); break;
      default: v[i] = v[s.draw ((uint64_t) i)]; break;
    }
  for (auto & x : v) if (has_nan (x)) x = vnull ();
  iot_data_t * d[3];
  for (int i = 0; i < 3; i++) { note ("value %d: %s", i, show (v[i]).c_str ()); d[i] = build (v[i], &s, &ar); if (v[i].t != EMPTY && s.flag ()) iot_data_hash (d[i]); }
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) pair_check (v[i], v[j], d[i], d[j]);
  { iot_data_t * twin = build (v[0], &s, &ar); pair_check (v[0], v[0], d[0], twin); iot_data_free (twin); }
  for (int val = 0; val < 2; val++)
  {
    auto cmp = [&] (int i, int j) { return val ? iot_data_compare_value (d[i], d[j]) : iot_data_compare (d[i], d[j]); };
    static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    for (auto & p : perm) if (cmp (p[0], p[1]) <= 0 && cmp (p[1], p[2]) <= 0)
    {
      CHECK (cmp (p[0], p[2]) <= 0, "%scomparison not transitive: %d <= %d <= %d", val ? "value " : "", p[0], p[1], p[2]);
      if (cmp (p[0], p[1]) < 0 || cmp (p[1], p[2]) < 0) CHECK (cmp (p[0], p[2]) < 0, "%scomparison not transitive: %d < %d < %d", val ? "value " : "", p[0], p[1], p[2]);
    }
  }
  if (v[0].t == v[1].t || v[1].t == v[2].t || v[0].t == v[2].t || vcmp (v[0], v[1], true) == 0) pbt::nontrivial ();
  pbt::label_if (is_comp (v[0].t), "containers"); pbt::label_if (v[0].t != v[1].t && vcmp (v[0], v[1], true) == 0, "equal by value across types");
  for (auto x : d) iot_data_free (x);
  iot_data_alloc_heap (false);
}

TARGET (mutated, 120000, 4000000, 0)
{
  Opt o; o.depth = 2; o.elems = 3; o.pointers = true;
  iot_data_alloc_heap (s.flag ());
  V m = s.draw (4) ? gen_container (s, o, 2) : gen_value (s, o, 1);
  Arena ar; iot_data_t * d = build (m, &s, &ar);
  if (iot_data_is_static (d)) { iot_data_free (d); m = vint (IOT_DATA_INT32, 4); d = build (m); }
  note ("start %s", show (m).c_str ());
  size_t n = s.len (30, 6) + 1, done = 0; bool read_hash = false;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    if (s.draw (3)) { iot_data_hash (d); read_hash = true; }
    const char * what = mutate (s, d, m, o);
    if (!what) continue;
    if (has_nan (m)) break;
    done++;
    note ("%s -> %s", what, show (m).c_str ());
    if (s.flag () && is_comp (m.t)) iot_data_compress (d);
    if (s.flag ())
    {
      iot_data_t * twin = build (m, &s, &ar); pair_check (m, m, d, twin);
      V w = vary (s, m, o, true); if (!has_nan (w)) { iot_data_t * dw = build (w, &s); pair_check (m, w, d, dw); iot_data_free (dw); }
      iot_data_free (twin);
    }
  }
  if (!has_nan (m)) { iot_data_t * twin = build (m, &s, &ar); pair_check (m, m, d, twin); iot_data_free (twin); }
  if (read_hash && done >= 2) pbt::nontrivial ();
  iot_data_free (d); iot_data_alloc_heap (false);
}

// buffers of the same bytes held and obtained in different ways are the same value
TARGET (buffers, 30000, 500000, 0)
{
  std::string b; size_t n = s.len (40, 3); for (size_t i = 0; i < n; i++) b += (char) s.draw (256);
  if (n) pbt::nontrivial ();
  V m (IOT_DATA_ARRAY); m.et = IOT_DATA_UINT8; m.s = b;
  std::string txt (iot_b64_encodesize (n) + 1, 0); iot_b64_encode (b.data (), n, &txt[0], txt.size ());
  iot_data_t * d[4]; char * buf = (char *) malloc (n + 1); memcpy (buf, b.data (), n);
  d[0] = build (m); d[1] = iot_data_alloc_array_from_base64 (txt.c_str ()); d[2] = iot_data_alloc_array (buf, (uint32_t) n, IOT_DATA_UINT8, IOT_DATA_TAKE);
  d[3] = iot_data_alloc_array ((void *) b.data (), (uint32_t) n, IOT_DATA_UINT8, IOT_DATA_REF);
  CHECK (d[1], "base64 text refused");
  for (auto x : d) for (auto y : d) pair_check (m, m, x, y);
  for (auto x : d)
  {
    uint32_t len = 0; void * p = iot_data_binary_take (x, &len); CHECK (len == n && (!n || !memcmp (p, b.data (), n)), "take"); free (p);
    V after = read (x); iot_data_t * tw = build (after); pair_check (after, after, x, tw); iot_data_free (tw);
  }
  for (auto x : d) iot_data_free (x);
}

PROBE (nested_hash, "the hash of a container that was already computed is not updated when a container nested in it is changed in place, so it no longer equals a freshly built equal value")
{
  iot_data_t * v = iot_data_alloc_vector (1), * m = iot_data_alloc_map (IOT_DATA_STRING), * v2 = iot_data_alloc_vector (1), * m2 = iot_data_alloc_map (IOT_DATA_STRING);
  iot_data_vector_add (v, 0, m); iot_data_hash (v);
  iot_data_string_map_add (m, "a", iot_data_alloc_i32 (1));
  iot_data_string_map_add (m2, "a", iot_data_alloc_i32 (1)); iot_data_vector_add (v2, 0, m2);
  CHECK (iot_data_equal (v, v2) && iot_data_hash (v) == iot_data_hash (v2), "vectors with equal contents compare as different");
}

// large values that differ in at most one place
TARGET (large, 300, 8000, pbt::LEAK)
{
  pbt::setrule ("the values differ in one place");
  size_t n = big_size (s, 72000), at = (size_t) s.draw (4) == 0 ? n - 1 : s.draw (n); int kind = (int) s.draw (6), diff = (int) s.draw (4); bool hash_first = s.flag (); uint32_t base = (uint32_t) s.draw (50); note ("kind %d, %zu parts, difference %d at %zu", kind, n, diff, at); if (diff) pbt::nontrivial ();
  // diff 0: none, 1: smaller, 2: larger, 3: shorter by one
  auto make = [&] (int d) -> iot_data_t *
  {
    size_t len = d == 3 ? n - 1 : n; auto val = [&] (size_t i) { return (uint32_t) (100 + (i * 7 + base) % 100 + (i == at && d == 2 ? 1 : 0) - (i == at && d == 1 ? 1 : 0)); };
    switch (kind)
    {
      case 0: { iot_data_t * r = iot_data_alloc_vector ((uint32_t) len); for (size_t i = 0; i < len; i++) iot_data_vector_add (r, (uint32_t) i, iot_data_alloc_ui32 (val (i))); return r; }
      case 1: { iot_data_t * r = iot_data_alloc_list (); for (size_t i = 0; i < len; i++) iot_data_list_head_push (r, iot_data_alloc_ui32 (val (i))); return r; }
      case 2: { iot_data_t * r = iot_data_alloc_map (IOT_DATA_UINT32); for (size_t i = 0; i < len; i++) { size_t k = d ? len - 1 - i : i; iot_data_map_add (r, iot_data_alloc_ui32 ((uint32_t) k), iot_data_alloc_ui32 (val (k))); } return r; }
      case 3: { std::string t; for (size_t i = 0; i < len; i++) t += (char) (val (i) - 90); return iot_data_alloc_string (t.c_str (), IOT_DATA_COPY); }
      case 4: { std::vector<uint32_t> a; for (size_t i = 0; i < len; i++) a.push_back (val (i)); return iot_data_alloc_array (a.data (), (uint32_t) len, IOT_DATA_UINT32, IOT_DATA_COPY); }
      default: { std::string t; for (size_t i = 0; i < len; i++) t += (char) val (i); return iot_data_alloc_binary ((void *) t.data (), (uint32_t) len, IOT_DATA_COPY); }
    }
  };
  iot_data_t * a = make (0), * b = make (diff); uint32_t ha = 0, hb = 0; if (hash_first) { ha = iot_data_hash (a); hb = iot_data_hash (b); }
  int c = iot_data_compare (a, b), r = iot_data_compare (b, a); bool e = iot_data_equal (a, b);
  CHECK (e == (diff == 0) && (c == 0) == e && (r == 0) == e, "values %s, yet equal %d, compare %d and %d", diff ? "differ" : "are the same", e, c, r); if (!e) CHECK ((c < 0) != (r < 0), "compare is not antisymmetric: %d and %d", c, r);
  if (kind == 3 && diff) CHECK ((c < 0) == (diff == 2), "strings ordered %d, difference %d", c, diff);
  if (!hash_first) { ha = iot_data_hash (a); hb = iot_data_hash (b); } if (e) CHECK (ha == hb, "equal values with hashes %u and %u", ha, hb);
  iot_data_t * k = iot_data_copy (a); CHECK (iot_data_equal (k, a) && iot_data_hash (k) == iot_data_hash (a) && iot_data_compare (k, a) == 0, "copy differs"); iot_data_free (k);
  iot_data_free (a); iot_data_free (b);
}

// values nested deeply that differ at most far inside
TARGET (tower, 1500, 60000, pbt::LEAK)
{
  pbt::setrule ("nested more than 60 levels, differing in one place");
  size_t n = big_depth (s), at = s.flag () ? s.draw (3) : s.draw (n); uint32_t r = (uint32_t) s.draw (1u << 20); int diff = (int) s.draw (3); bool leafd = s.flag (), first = s.flag (); Tower o; V l1 = vint (IOT_DATA_INT32, 5), l2 = leafd && diff ? vint (IOT_DATA_INT32, diff == 1 ? 4 : 6) : l1;
  V a = tower (r, n, l1, o), b = tower (r, n, l2, o, !leafd && diff ? at : SIZE_MAX, 9); bool same = veq (a, b); note ("%zu levels, %s", n, same ? "the same" : leafd ? "other leaf" : ("other neighbour at " + std::to_string (at)).c_str ()); if (n > 60 && !same) pbt::nontrivial ();
  Arena ar; iot_data_t * x = build (a, &s, &ar), * y = build (b); if (first) { iot_data_hash (x); iot_data_hash (y); }
  bool e = iot_data_equal (x, y); int c = iot_data_compare (x, y), d = iot_data_compare (y, x);
  CHECK (e == same && iot_data_equal (y, x) == same && (c == 0) == same && (d == 0) == same, "values %s at depth %zu, yet equal %d, compare %d and %d", same ? "are the same" : "differ", n, e, c, d); if (!same) CHECK ((c < 0) != (d < 0), "compare is not antisymmetric: %d and %d", c, d);
  if (same) CHECK (iot_data_hash (x) == iot_data_hash (y), "equal values with hashes %u and %u", iot_data_hash (x), iot_data_hash (y));
  iot_data_free (x); iot_data_free (y);
}
