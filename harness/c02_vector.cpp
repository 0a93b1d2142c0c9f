// C02: vectors against a sequence-of-optional-elements model.
#include "gen.h"
#include <algorithm>
using namespace gen;
using pbt::note;
typedef std::vector<V> Model;   // EMPTY elements are empty slots

static bool cmp_is (const iot_data_t * d, const void * arg)   // documented comparison function: called for elements
{
  return d && veq (read (d), *(const V *) arg);
}

static void check_full (const iot_data_t * vec, const Model & m, const char * when)
{
  CHECK (iot_data_vector_size (vec) == m.size (), "%s: size %u, model %zu", when, iot_data_vector_size (vec), m.size ());
  CHECK (iot_data_length (vec) == m.size (), "%s: length %u, model %zu", when, iot_data_length (vec), m.size ());
  for (size_t i = 0; i < m.size (); i++)
  {
    const iot_data_t * e = iot_data_vector_get (vec, (uint32_t) i);
    CHECK ((e == nullptr) == (m[i].t == EMPTY), "%s: slot %zu is %s, model %s", when, i, e ? "occupied" : "empty", show (m[i]).c_str ());
    if (e) { V r = read (e); CHECK (veq (r, m[i]), "%s: slot %zu holds %s, model %s", when, i, show (r).c_str (), show (m[i]).c_str ()); }
    CHECK (iot_data_vector_get_pointer (vec, (uint32_t) i) == (m[i].t == IOT_DATA_POINTER ? m[i].p : nullptr), "%s: get_pointer %zu", when, i);
  }
  CHECK (iot_data_vector_get_pointer (vec, (uint32_t) m.size ()) == nullptr, "%s: get_pointer past the end", when);
  iot_data_vector_iter_t it; iot_data_vector_iter (vec, &it); size_t n = 0;
  CHECK (iot_data_vector_iter_has_next (&it) == !m.empty (), "%s: has_next on a fresh iterator of %zu elements", when, m.size ());
  while (iot_data_vector_iter_next (&it))
  {
    CHECK (n < m.size (), "%s: iteration runs past the end", when);
    CHECK (iot_data_vector_iter_index (&it) == n, "%s: iterator index %u, expected %zu", when, iot_data_vector_iter_index (&it), n);
    CHECK (iot_data_vector_iter_value (&it) == iot_data_vector_get (vec, (uint32_t) n), "%s: iterator value at %zu", when, n);
    n++;
    CHECK (iot_data_vector_iter_has_next (&it) == (n < m.size ()), "%s: has_next after %zu of %zu", when, n, m.size ());
  }
  CHECK (n == m.size (), "%s: iteration yields %zu of %zu", when, n, m.size ());
  CHECK (iot_data_vector_iter_value (&it) == nullptr, "%s: finished iterator has a value", when);
  iot_data_vector_iter (vec, &it);
  while (iot_data_vector_iter_prev (&it))
  {
    CHECK (n > 0, "%s: backward iteration runs past the start", when);
    n--;
    CHECK (iot_data_vector_iter_index (&it) == n && iot_data_vector_iter_value (&it) == iot_data_vector_get (vec, (uint32_t) n), "%s: backward iteration at %zu", when, n);
  }
  CHECK (n == 0, "%s: backward iteration stopped at %zu", when, n);
}

static void check_walk (Src & s, const iot_data_t * vec, const Model & m)
{
  long n = (long) m.size (), pos = -1; bool generic = s.flag ();
  iot_data_vector_iter_t it; iot_data_vector_iter (vec, &it); iot_data_iter_t gi; iot_data_iter (vec, &gi);
  size_t steps = s.draw (20) + 1;
  for (size_t k = 0; k < steps; k++)
  {
    bool fwd = s.draw (3) != 2, hn = generic ? iot_data_iter_has_next (&gi) : iot_data_vector_iter_has_next (&it), exp = pos < 0 ? n > 0 : pos + 1 < n, r;
    CHECK (hn == exp, "walk: has_next %d at position %ld of %ld", hn, pos, n);
    if (fwd) { r = generic ? iot_data_iter_next (&gi) : iot_data_vector_iter_next (&it); pos = pos < 0 ? (n ? 0 : -1) : pos + 1 < n ? pos + 1 : -1; }
    else { r = generic ? iot_data_iter_prev (&gi) : iot_data_vector_iter_prev (&it); pos = pos < 0 ? n - 1 : pos - 1; }
    CHECK (r == (pos >= 0), "walk: step returned %d, model position %ld of %ld", r, pos, n);
    const iot_data_t * v = generic ? iot_data_iter_value (&gi) : iot_data_vector_iter_value (&it);
    CHECK (v == (pos >= 0 ? iot_data_vector_get (vec, (uint32_t) pos) : nullptr), "walk: wrong value at %ld", pos);
    if (!generic)
    {
      const V * e = pos >= 0 ? &m[(size_t) pos] : nullptr;
      const char * sv = iot_data_vector_iter_string_value (&it);
      CHECK (e && e->t == IOT_DATA_STRING ? sv && e->s == sv : !sv, "walk: string value at %ld", pos);
      if (!e || e->t != EMPTY) { sv = iot_data_vector_iter_string (&it); CHECK (e && e->t == IOT_DATA_STRING ? sv && e->s == sv : !sv, "walk: string at %ld", pos); }
      CHECK (iot_data_vector_iter_pointer_value (&it) == (e && e->t == IOT_DATA_POINTER ? e->p : nullptr), "walk: pointer value at %ld", pos);
    }
  }
}

TARGET (vector_history, 150000, 4000000, 0)
{
  pbt::setrule ("history reaches 2+ occupied and 1+ empty slots and performs a resize, compact or replacement");
  Opt o; o.depth = 2; o.elems = 3; o.pointers = true;
  int et = s.chance (1, 4) ? (int) s.draw (IOT_DATA_NULL) : IOT_DATA_MULTI;
  iot_data_alloc_heap (s.flag ());
  size_t n0 = s.len (80, 6);
  iot_data_t * vec = et == IOT_DATA_MULTI ? iot_data_alloc_vector ((uint32_t) n0) : iot_data_alloc_typed_vector ((uint32_t) n0, (iot_data_type_t) et);
  CHECK (iot_data_vector_type (vec) == et, "vector type");
  Model m (n0); bool mixed = false, restructured = false;
  note ("vector of %zu, element type %d", n0, et);
  auto value = [&] () { return et == IOT_DATA_MULTI ? gen_value (s, o, 1) : gen_scalar (s, o, (T) et); };
  size_t nops = s.len (60, 12) + 1;
  for (size_t op = 0; op < nops; op++)
  {
    Span sp (s);
    switch (s.weighted ({ 10, 2, 3, 2, 3, 2, 2 }))
    {
      case 0: { if (m.empty ()) break; size_t i = s.draw (m.size ()); V v = value (); note ("set %zu = %s", i, show (v).c_str ()); if (m[i].t != EMPTY) restructured = true; iot_data_vector_add (vec, (uint32_t) i, build (v, &s)); m[i] = v; break; }
      case 1: { if (m.empty ()) break; size_t i = s.draw (m.size ()); note ("clear %zu", i); iot_data_vector_add (vec, (uint32_t) i, nullptr); m[i] = V (); break; }
      case 2: { size_t n = s.chance (1, 3) ? m.size () + s.draw (4) : s.len (120, 6); note ("resize %zu", n); iot_data_vector_resize (vec, (uint32_t) n); m.resize (n); restructured = true; break; }
      case 3: { note ("compact"); Model c; for (auto & x : m) if (x.t != EMPTY) c.push_back (x); uint32_t r = iot_data_vector_compact (vec); CHECK (r == c.size (), "compact returned %u, model %zu", r, c.size ()); m = c; restructured = true; break; }
      case 4: { // replace through an iterator
        iot_data_vector_iter_t it; iot_data_vector_iter (vec, &it); size_t k = m.empty () ? 0 : s.draw (m.size ()) + 1; for (size_t i = 0; i < k; i++) iot_data_vector_iter_next (&it);
        V v = value (); iot_data_t * nv = build (v), * old = iot_data_vector_iter_replace_value (&it, nv);
        note ("replace at %ld by %s", (long) k - 1, show (v).c_str ());
        if (k == 0) { CHECK (!old, "replace off the end returned a value"); iot_data_free (nv); break; }
        CHECK ((old == nullptr) == (m[k - 1].t == EMPTY) && veq (read (old), m[k - 1]), "replaced value at %zu is %s, expected %s", k - 1, show (read (old)).c_str (), show (m[k - 1]).c_str ());
        iot_data_free (old); m[k - 1] = v; restructured = true; break; }
      case 5: { // find
        V w = s.flag () && !m.empty () ? m[s.draw (m.size ())] : value (); if (w.t == EMPTY) break;
        note ("find %s", show (w).c_str ()); size_t i = 0; while (i < m.size () && !veq (m[i], w)) i++;
        const iot_data_t * f = iot_data_vector_find (vec, cmp_is, &w);
        CHECK (i == m.size () ? !f : f == iot_data_vector_get (vec, (uint32_t) i), "find %s: %s, model index %zu of %zu", show (w).c_str (), f ? "found" : "nothing", i, m.size ());
        if (w.t == IOT_DATA_STRING && std::none_of (m.begin (), m.end (), [] (const V & x) { return x.t == EMPTY; })) CHECK (iot_data_vector_find (vec, iot_data_string_cmp, w.s.c_str ()) == f, "find by string");
        break; }
      default: check_walk (s, vec, m); break;
    }
    size_t occ = 0; for (auto & x : m) occ += x.t != EMPTY; if (occ >= 2 && occ < m.size ()) mixed = true;
    check_full (vec, m, "after operation");
    if (s.chance (1, 6)) { V w (IOT_DATA_VECTOR); w.et = IOT_DATA_MULTI; w.e.assign (m.begin (), m.end ()); fresh_check (s, vec, w, "after operation"); }
  }
  check_walk (s, vec, m); { V w (IOT_DATA_VECTOR); w.et = IOT_DATA_MULTI; w.e.assign (m.begin (), m.end ()); fresh_check (s, vec, w, "end"); }
  if (mixed && restructured) pbt::nontrivial ();
  pbt::label_if (m.size () > 50, "50+ slots"); pbt::label_if (et != IOT_DATA_MULTI, "typed elements");
  iot_data_free (vec); iot_data_alloc_heap (false);
}

TARGET (large, 200, 5000, pbt::LEAK)
{
  pbt::setrule ("more than 255 slots");
  size_t n = big_size (s), n2 = s.flag () ? big_size (s) : n; uint32_t mul = (uint32_t) s.draw (1u << 20), mod = 1 + (uint32_t) s.draw (5), few = s.flag () ? 1 + (uint32_t) s.draw (5) : 0, start = s.flag () ? (uint32_t) s.draw (300) : 0; note ("%u, then %zu slots, one in %u set, then %zu", start, n, mod, n2); if (n > 255) pbt::nontrivial ();
  std::vector<int64_t> m (start, -1); iot_data_t * v = iot_data_alloc_vector (start); iot_data_vector_resize (v, (uint32_t) n); m.resize (n, -1);
  auto check = [&] (const char * when)
  {
    CHECK (iot_data_vector_size (v) == m.size () && iot_data_length (v) == m.size (), "%s: size is %u, expected %zu", when, iot_data_vector_size (v), m.size ());
    for (size_t i = 0; i < m.size (); i++) { const iot_data_t * e = iot_data_vector_get (v, (uint32_t) i); CHECK ((e == NULL) == (m[i] < 0) && (!e || iot_data_ui32 (e) == (uint32_t) m[i]), "%s: slot %zu differs", when, i); }
    iot_data_vector_iter_t it; iot_data_vector_iter (v, &it); size_t c = 0; while (iot_data_vector_iter_next (&it)) { CHECK (c < m.size () && iot_data_vector_iter_index (&it) == c && iot_data_vector_iter_value (&it) == iot_data_vector_get (v, (uint32_t) c), "%s: iteration differs at %zu", when, c); c++; } CHECK (c == m.size (), "%s: iteration ends after %zu of %zu", when, c, m.size ());
    while (iot_data_vector_iter_prev (&it)) { CHECK (c > 0 && iot_data_vector_iter_index (&it) == c - 1, "%s: backward iteration differs at %zu", when, c); c--; } CHECK (c == 0, "%s: backward iteration ends at %zu", when, c);
  };
  for (size_t k = 0; k < n; k += mod) { size_t i = scramble ((uint32_t) k, mul) % n; iot_data_vector_add (v, (uint32_t) i, iot_data_alloc_ui32 ((uint32_t) k)); m[i] = (int64_t) k; }
  check ("after setting");
  iot_data_vector_resize (v, (uint32_t) n2); m.resize (n2, -1); check ("after resizing");
  if (few) { note ("all but %u filled", few); for (size_t i = 0; i < n2; i++) if (m[i] < 0) { iot_data_vector_add (v, (uint32_t) i, iot_data_alloc_ui32 ((uint32_t) i)); m[i] = (int64_t) i; } for (uint32_t k = 0; k < few && n2; k++) { size_t i = s.flag () ? n2 - 1 - s.draw (std::min<size_t> (n2, 8)) : s.draw ((uint32_t) n2); iot_data_vector_add (v, (uint32_t) i, NULL); m[i] = -1; } check ("with few empty slots"); }
  size_t holes = (size_t) std::count (m.begin (), m.end (), (int64_t) -1);
  if (holes * m.size () <= 200000000) { CHECK (iot_data_vector_compact (v) == m.size () - holes, "compacting reports another size"); m.erase (std::remove (m.begin (), m.end (), (int64_t) -1), m.end ()); check ("after compacting"); }   // its cost is the product
  iot_data_free (v);
}
