// C19: vector flattening, counting and dimensions against recursive references.
#include "gen.h"
#include <float.h>
using namespace gen; using pbt::note;
typedef __int128 I;

static bool conv (const V & v, T t, V & r, bool & skip)   // exact conversion as in C14; skip: infinity to 32 bit float
{
  r = V (t); if (v.t == t) { r = v; return true; } if (!is_num (v.t) || !is_num (t)) return false;
  if (is_flt (v.t))
  {
    double d = v.d;
    if (t == IOT_DATA_BOOL) r.u = !(d == 0); else if (t == IOT_DATA_FLOAT64) r.d = d;
    else if (t == IOT_DATA_FLOAT32) { if (std::isinf (d)) { skip = true; return false; } if (fabs (d) > (double) FLT_MAX) return false; r.d = (float) d; }
    else { if (d != d) return false; long double x = d, l = is_sgn (t) ? (long double) smin (t) : 0, h = is_sgn (t) ? (long double) smax (t) : (long double) umax (t); if (x < l || x > h) return false; I n = (I) x; if (is_sgn (t)) r.i = (int64_t) n; else r.u = (uint64_t) n; }
  }
  else
  {
    I n = is_sgn (v.t) ? (I) v.i : (I) v.u;
    if (t == IOT_DATA_BOOL) r.u = n != 0; else if (is_flt (t)) r.d = t == IOT_DATA_FLOAT32 ? (double) (float) (long double) n : (double) (long double) n;
    else { I l = is_sgn (t) ? (I) smin (t) : 0, h = is_sgn (t) ? (I) smax (t) : (I) umax (t); if (n < l || n > h) return false; if (is_sgn (t)) r.i = (int64_t) n; else r.u = (uint64_t) n; }
  }
  return true;
}
static void flat (const V & v, bool rec, std::vector<const V *> & out) { for (auto & x : v.e) { if (x.t == EMPTY) continue; if (rec && x.t == IOT_DATA_VECTOR) flat (x, rec, out); else out.push_back (&x); } }
static bool shape (const V & v, std::vector<uint32_t> & r)
{
  r.assign (1, (uint32_t) v.e.size ()); if (v.e.empty ()) return true; for (auto & x : v.e) if (x.t != IOT_DATA_VECTOR) return true;
  std::vector<uint32_t> f, g; if (!shape (v.e[0], f)) return false; for (size_t i = 1; i < v.e.size (); i++) if (!shape (v.e[i], g) || g != f) return false;
  r.insert (r.end (), f.begin (), f.end ()); return true;
}
static V rect (Src & s, const std::vector<size_t> & dims, size_t i, const Opt & o, bool nums)
{
  V v (IOT_DATA_VECTOR); for (size_t k = 0; k < dims[i]; k++) { Span sp (s); v.e.push_back (i + 1 < dims.size () ? rect (s, dims, i + 1, o, nums) : nums ? gen_int (s, IOT_DATA_INT16) : gen_any_scalar (s, o)); } return v;
}
static void vecs (V & v, std::vector<V *> & out) { out.push_back (&v); for (auto & x : v.e) if (x.t == IOT_DATA_VECTOR) vecs (x, out); }
static V gen_nest (Src & s, const Opt & o)
{
  if (s.chance (1, 4)) { V v = gen_of_type (s, o, 3, IOT_DATA_VECTOR); if (v.et == IOT_DATA_MULTI) return v; }
  std::vector<size_t> dims; size_t nd = 1 + s.draw (4); for (size_t i = 0; i < nd; i++) dims.push_back (s.draw (nd > 2 ? 4 : 7)); V v = rect (s, dims, 0, o, s.flag ());
  size_t n = s.draw (3);
  for (size_t i = 0; i < n; i++)
  {
    std::vector<V *> all; vecs (v, all); V & w = *all[s.draw (all.size ())]; Span sp (s);
    switch (s.draw (6))
    {
      case 0: w.e.insert (w.e.begin () + (long) s.draw (w.e.size () + 1), gen_any_scalar (s, o)); break;
      case 1: if (!w.e.empty ()) w.e.erase (w.e.begin () + (long) s.draw (w.e.size ())); break;
      case 2: if (!w.e.empty ()) { V x = w.e[s.draw (w.e.size ())]; w.e.push_back (x); } break;
      case 3: if (!w.e.empty ()) w.e[s.draw (w.e.size ())] = V (); break;
      case 4: if (!w.e.empty ()) { V x (IOT_DATA_VECTOR); V & y = w.e[s.draw (w.e.size ())]; if (y.t != EMPTY) { x.e.push_back (y); y = x; } } break;
      default: w.e.insert (w.e.begin () + (long) s.draw (w.e.size () + 1), V (IOT_DATA_VECTOR)); break;
    }
  }
  return v;
}

TARGET (dimensions, 400000, 10000000, pbt::LEAK)
{
  pbt::setrule ("a vector inside the vector");
  Opt o; V v = gen_nest (s, o); note ("%s", show (v).c_str ()); Arena ar; iot_data_t * d = build (v, &s, &ar); std::vector<uint32_t> want; bool ok = shape (v, want);
  if (vdepth (v) > 2) pbt::nontrivial (); pbt::label_if (ok && want.size () > 1, "rectangular"); pbt::label_if (!ok, "not rectangular");
  uint32_t total = 12345; iot_data_t * r = iot_data_vector_dimensions (d, &total);
  CHECK ((r != NULL) == ok, "%s", r ? "dimensions reported for a nest that is not rectangular" : "no dimensions reported for a rectangular nest");
  if (ok)
  {
    CHECK (iot_data_type (r) == IOT_DATA_ARRAY && iot_data_array_type (r) == IOT_DATA_UINT32 && iot_data_array_length (r) == want.size (), "%u dimensions, expected %zu", iot_data_array_length (r), want.size ()); const uint32_t * p = (const uint32_t *) iot_data_address (r); uint32_t prod = 1;
    for (size_t i = 0; i < want.size (); i++) { CHECK (p[i] == want[i], "dimension %zu is %u, expected %u", i, p[i], want[i]); prod *= want[i]; } CHECK (total == prod, "total is %u, expected %u", total, prod); iot_data_free (r);
  }
  else CHECK (total == 0, "total is %u for an invalid nest", total);
  V back = read (d); CHECK (veq (back, v), "vector changed"); iot_data_free (d);
}

TARGET (flatten, 400000, 10000000, pbt::LEAK)
{
  pbt::setrule ("a vector inside the vector and at least two numbers");
  Opt o; o.nan = true; o.inf = true; o.pointers = true; V v = gen_nest (s, o); static const T nums[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_BOOL };
  bool rec = s.flag (); T t = nums[s.draw (11)]; note ("%s to %s%s", show (v).c_str (), iot_data_type_string ((iot_data_type_t) t), rec ? ", recursive" : ""); Arena ar; iot_data_t * d = build (v, &s, &ar);
  std::vector<const V *> all; flat (v, rec, all); bool skip = false; std::vector<V> want; V x; size_t n = 0; for (auto e : all) { if (is_num (e->t)) n++; if (conv (*e, t, x, skip)) want.push_back (x); } if (vdepth (v) > 2 && n > 1) pbt::nontrivial (); pbt::label_if (want.size () < n, "numbers out of range"); pbt::label_if (n < all.size (), "non-numbers");
  iot_data_t * a = iot_data_vector_to_array (d, (iot_data_type_t) t, rec); CHECK (a && iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == t, "not an array of the type");
  if (!skip)
  {
    CHECK (iot_data_array_length (a) == want.size (), "array of %u elements, expected %zu", iot_data_array_length (a), want.size ()); iot_data_array_iter_t it; iot_data_array_iter (a, &it); size_t i = 0;
    while (iot_data_array_iter_next (&it)) { const void * p = iot_data_array_iter_value (&it); V g (t); if (t == IOT_DATA_FLOAT32) { float f; memcpy (&f, p, 4); g.d = f; } else if (t == IOT_DATA_FLOAT64) memcpy (&g.d, p, 8); else { uint64_t u = 0; memcpy (&u, p, type_bytes (t)); if (is_sgn (t)) g.i = (int64_t) (u << (64 - bits (t))) >> (64 - bits (t)); else g.u = u; } CHECK (i < want.size () && veq (g, want[i]), "array element %zu is %s, expected %s", i, show (g).c_str (), show (want[i]).c_str ()); i++; }
  }
  iot_data_free (a);
  // to vector: also of types that are not numeric (elements of that type only)
  T vt = s.chance (1, 5) ? (s.flag () ? (T) IOT_DATA_STRING : (T) IOT_DATA_BINARY) : t; std::vector<V> vw; bool sk = false; for (auto e : all) if (conv (*e, vt, x, sk)) vw.push_back (x);
  iot_data_t * w = iot_data_vector_to_vector (d, (iot_data_type_t) vt, rec); CHECK (w && iot_data_type (w) == IOT_DATA_VECTOR && iot_data_vector_type (w) == vt, "not a vector of the type");
  if (!sk) { CHECK (iot_data_vector_size (w) == vw.size (), "vector of %u elements, expected %zu", iot_data_vector_size (w), vw.size ()); for (uint32_t i = 0; i < vw.size (); i++) { V g = read (iot_data_vector_get (w, i)); CHECK (veq (g, vw[i]), "vector element %u is %s, expected %s", i, show (g).c_str (), show (vw[i]).c_str ()); } }
  V back = read (d); CHECK (veq (back, v), "vector changed"); iot_data_free (d); back = read (w); if (!sk) CHECK (back.e.size () == vw.size (), "result depends on the source"); iot_data_free (w);
}

TARGET (counts, 200000, 5000000, pbt::LEAK)
{
  pbt::setrule ("a vector inside the vector");
  Opt o; o.pointers = true; V v = gen_nest (s, o); note ("%s", show (v).c_str ()); Arena ar; iot_data_t * d = build (v, &s, &ar); if (vdepth (v) > 2) pbt::nontrivial ();
  for (int rec = 0; rec < 2; rec++)
  {
    std::vector<const V *> all; flat (v, rec, all); size_t cnt[256] = {}; for (auto e : all) cnt[e->t]++;
    for (unsigned t = 0; t <= IOT_DATA_MAP; t++) CHECK (iot_data_vector_element_count (d, (iot_data_type_t) t, rec) == cnt[t], "%u elements of type %s%s, expected %zu", iot_data_vector_element_count (d, (iot_data_type_t) t, rec), iot_data_type_string ((iot_data_type_t) t), rec ? " (recursive)" : "", cnt[t]);
    CHECK (iot_data_vector_element_count (d, IOT_DATA_MULTI, rec) == all.size (), "%u elements of any type, expected %zu", iot_data_vector_element_count (d, IOT_DATA_MULTI, rec), all.size ());
  }
  iot_data_free (d);
}

TARGET (large, 200, 5000, pbt::LEAK)
{
  pbt::setrule ("more than 255 elements");
  size_t a = 1 + s.draw (4), b = big_size (s, 72000) / (a > 2 ? 2 : 1), extra = s.draw (3); bool rag = s.flag (); note ("%zu rows of %zu%s, %zu strings", a, b, rag ? ", the last one shorter" : "", extra); if (b > 255) pbt::nontrivial ();
  iot_data_t * v = iot_data_alloc_vector ((uint32_t) a); size_t total = 0; for (size_t i = 0; i < a; i++) { size_t w = rag && i + 1 == a ? b - 1 : b; iot_data_t * r = iot_data_alloc_vector ((uint32_t) w); for (size_t k = 0; k < w; k++) iot_data_vector_add (r, (uint32_t) k, k < extra ? iot_data_alloc_string ("x", IOT_DATA_REF) : iot_data_alloc_ui32 ((uint32_t) (i * 1000 + k))); total += w; iot_data_vector_add (v, (uint32_t) i, r); }
  uint32_t n = 0; iot_data_t * d = iot_data_vector_dimensions (v, &n); bool rect = !rag || a == 1; CHECK ((d != NULL) == rect && n == (rect ? total : 0), "dimensions %d, total %u of %zu", d != NULL, n, total); if (d) CHECK (((const uint32_t *) iot_data_address (d))[0] == a && ((const uint32_t *) iot_data_address (d))[1] == total / a, "dimensions differ"); iot_data_free (d);
  CHECK (iot_data_vector_element_count (v, IOT_DATA_UINT32, true) == total - extra * a && iot_data_vector_element_count (v, IOT_DATA_MULTI, true) == total, "element counts differ");
  iot_data_t * f = iot_data_vector_to_array (v, IOT_DATA_UINT32, true), * g = iot_data_vector_to_vector (v, IOT_DATA_UINT32, true); CHECK (iot_data_array_length (f) == total - extra * a && iot_data_vector_size (g) == total - extra * a, "%u and %u elements of %zu", iot_data_array_length (f), iot_data_vector_size (g), total - extra * a);
  size_t at = 0; const uint32_t * x = (const uint32_t *) iot_data_address (f); for (size_t i = 0; i < a; i++) for (size_t k = extra; k < (rag && i + 1 == a ? b - 1 : b); k++, at++) CHECK (x[at] == i * 1000 + k && iot_data_ui32 (iot_data_vector_get (g, (uint32_t) at)) == i * 1000 + k, "element %zu differs", at);
  iot_data_free (f); iot_data_free (g); iot_data_free (v);
}

// as many rows as large has columns
TARGET (tall, 60, 1500, pbt::LEAK)
{
  pbt::setrule ("more than 255 rows");
  size_t rows = big_size (s, 72000), w = 1 + s.draw (2); bool rag = s.draw (3) == 2; size_t bad = s.draw (rows ? rows : 1); note ("%zu rows of %zu%s", rows, w, rag ? ", one longer" : ""); if (rows > 255) pbt::nontrivial ();
  iot_data_t * v = iot_data_alloc_vector ((uint32_t) rows), * val = iot_data_alloc_i32 (7); size_t total = 0;
  for (size_t i = 0; i < rows; i++) { size_t n = w + (rag && i == bad); iot_data_t * r = iot_data_alloc_vector ((uint32_t) n); for (size_t k = 0; k < n; k++) { iot_data_add_ref (val); iot_data_vector_add (r, (uint32_t) k, val); } iot_data_vector_add (v, (uint32_t) i, r); total += n; }
  iot_data_free (val); uint32_t n = 0; iot_data_t * d = iot_data_vector_dimensions (v, &n); bool rect = !rag || rows < 2 || (rows == 1); CHECK ((d != nullptr) == rect && n == (rect ? total : 0), "dimensions %d, total %u of %zu", d != nullptr, n, total);
  if (d) { const uint32_t * x = (const uint32_t *) iot_data_address (d); size_t dims = iot_data_array_length (d); CHECK (dims == (rows ? 2u : 1u) && x[0] == rows && (!rows || x[1] == total / rows), "%zu dimensions, the first %u", dims, x[0]); } iot_data_free (d);
  CHECK (iot_data_vector_element_count (v, IOT_DATA_VECTOR, false) == rows && iot_data_vector_element_count (v, IOT_DATA_INT32, true) == total && iot_data_vector_element_count (v, IOT_DATA_INT32, false) == 0, "element counts differ");
  iot_data_t * f = iot_data_vector_to_array (v, IOT_DATA_INT8, true); CHECK (iot_data_array_length (f) == total, "%u elements of %zu", iot_data_array_length (f), total); for (size_t i = 0; i < total; i++) CHECK (((const int8_t *) iot_data_address (f))[i] == 7, "element %zu differs", i);
  iot_data_free (f); iot_data_free (v);
}

// deeply nested vectors
TARGET (deep, 1500, 60000, pbt::LEAK)
{
  pbt::setrule ("more than 60 levels");
  size_t n = big_depth (s), k = s.draw (5); bool one = s.flag (); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; o.lists = o.maps = false; o.sib = one ? 0 : 2; V leaf (IOT_DATA_VECTOR); for (size_t i = 0; i < k; i++) leaf.e.push_back (vuns (IOT_DATA_UINT32, i)); V v = tower (r, n, leaf, o); note ("%zu levels, %zu elements inside%s", n + 1, k, one ? "" : ", with neighbours"); if (n > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (v, &s, &ar); uint32_t total = 77; iot_data_t * q = iot_data_vector_dimensions (d, &total); std::vector<uint32_t> want; bool ok = shape (v, want); CHECK ((q != NULL) == ok, "%s", q ? "dimensions of a ragged nest" : "no dimensions");
  if (ok) { CHECK (iot_data_array_length (q) == want.size (), "%u dimensions, expected %zu", iot_data_array_length (q), want.size ()); uint32_t prod = 1; for (size_t i = 0; i < want.size (); i++) { CHECK (((const uint32_t *) iot_data_address (q))[i] == want[i], "dimension %zu differs", i); prod *= want[i]; } CHECK (total == prod, "total %u, expected %u", total, prod); iot_data_free (q); }
  std::vector<const V *> all; flat (v, true, all); CHECK (iot_data_vector_element_count (d, IOT_DATA_UINT32, true) == all.size (), "%u elements, expected %zu", iot_data_vector_element_count (d, IOT_DATA_UINT32, true), all.size ());
  iot_data_t * f = iot_data_vector_to_array (d, IOT_DATA_UINT32, true), * g = iot_data_vector_to_vector (d, IOT_DATA_UINT32, true); CHECK (iot_data_array_length (f) == all.size () && iot_data_vector_size (g) == all.size (), "%u and %u elements of %zu", iot_data_array_length (f), iot_data_vector_size (g), all.size ());
  for (size_t i = 0; i < all.size (); i++) CHECK (((const uint32_t *) iot_data_address (f))[i] == all[i]->u && iot_data_ui32 (iot_data_vector_get (g, (uint32_t) i)) == all[i]->u, "element %zu differs", i);
  iot_data_free (f); iot_data_free (g); iot_data_free (d);
}
