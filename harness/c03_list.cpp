// C03: lists against a double-ended-queue model with iterator edits. Model index 0 is the tail (first in forward order).
#include "gen.h"
#include <deque>
#include <algorithm>
using namespace gen;
using pbt::note;
typedef std::deque<V> Model;

static bool cmp_is (const iot_data_t * d, const void * arg) { return veq (read (d), *(const V *) arg); }

static void check_full (const iot_data_t * list, const Model & m, const char * when)
{
  CHECK (iot_data_list_length (list) == m.size (), "%s: length %u, model %zu", when, iot_data_list_length (list), m.size ());
  CHECK (iot_data_length (list) == m.size (), "%s: generic length %u, model %zu", when, iot_data_length (list), m.size ());
  iot_data_list_iter_t it; iot_data_list_iter (list, &it); size_t n = 0;
  std::vector<const iot_data_t *> vals;
  CHECK (iot_data_list_iter_has_next (&it) == !m.empty (), "%s: has_next on a fresh iterator of %zu elements", when, m.size ());
  while (iot_data_list_iter_next (&it))
  {
    CHECK (n < m.size (), "%s: iteration runs past the end", when);
    const iot_data_t * v = iot_data_list_iter_value (&it); vals.push_back (v);
    V r = read (v); CHECK (veq (r, m[n]), "%s: element %zu from the tail is %s, model %s", when, n, show (r).c_str (), show (m[n]).c_str ());
    n++;
    CHECK (iot_data_list_iter_has_next (&it) == (n < m.size ()), "%s: has_next after %zu of %zu", when, n, m.size ());
  }
  CHECK (n == m.size (), "%s: iteration yields %zu of %zu", when, n, m.size ());
  CHECK (iot_data_list_iter_value (&it) == nullptr, "%s: finished iterator has a value", when);
  iot_data_list_iter (list, &it);
  while (iot_data_list_iter_prev (&it)) { CHECK (n > 0, "%s: backward iteration runs past the tail", when); n--; CHECK (iot_data_list_iter_value (&it) == vals[n], "%s: backward iteration at %zu", when, n); }
  CHECK (n == 0, "%s: backward iteration stopped at %zu", when, n);
}

// walk with edits: forward and backward steps, removes and replacements at the position
static void walk (Src & s, iot_data_t * list, Model & m, const std::function<V ()> & value, bool edit, bool & changed)
{
  bool generic = !edit && s.flag (); long pos = -1;
  iot_data_list_iter_t it; iot_data_list_iter (list, &it); iot_data_iter_t gi; iot_data_iter (list, &gi);
  size_t steps = s.draw (16) + 1;
  for (size_t k = 0; k < steps; k++)
  {
    Span sp (s);
    long n = (long) m.size ();
    bool hn = generic ? iot_data_iter_has_next (&gi) : iot_data_list_iter_has_next (&it), exp = pos < 0 ? n > 0 : pos + 1 < n, r;
    CHECK (hn == exp, "walk: has_next %d at position %ld of %ld", hn, pos, n);
    switch (s.weighted ({ 5, 2, (unsigned) (edit ? 3 : 0), (unsigned) (edit ? 2 : 0) }))
    {
      case 0:
        r = generic ? iot_data_iter_next (&gi) : iot_data_list_iter_next (&it); pos = pos < 0 ? (n ? 0 : -1) : pos + 1 < n ? pos + 1 : -1;
        CHECK (r == (pos >= 0), "walk: next returned %d, model position %ld of %ld", r, pos, n); break;
      case 1:
        r = generic ? iot_data_iter_prev (&gi) : iot_data_list_iter_prev (&it); pos = pos < 0 ? n - 1 : pos - 1;
        CHECK (r == (pos >= 0), "walk: prev returned %d, model position %ld of %ld", r, pos, n); break;
      case 2:
        note ("iter remove at %ld of %ld", pos, n);
        r = iot_data_list_iter_remove (&it); CHECK (r == (pos >= 0), "iter_remove returned %d at position %ld of %ld", r, pos, n);
        if (pos >= 0) { m.erase (m.begin () + pos); pos--; changed = true; }
        check_full (list, m, "after iterator remove"); break;
      default:
      {
        V v = value (); iot_data_t * nv = build (v), * old = iot_data_list_iter_replace (&it, nv);
        note ("iter replace at %ld of %ld by %s", pos, n, show (v).c_str ());
        if (pos < 0) { CHECK (!old, "replace off the end returned a value"); iot_data_free (nv); }
        else { CHECK (old && veq (read (old), m[(size_t) pos]), "replaced value is not the old one"); iot_data_free (old); m[(size_t) pos] = v; changed = true; }
        check_full (list, m, "after iterator replace"); break;
      }
    }
    const iot_data_t * v = generic ? iot_data_iter_value (&gi) : iot_data_list_iter_value (&it);
    CHECK (pos < 0 ? !v : v && veq (read (v), m[(size_t) pos]), "walk: wrong value at %ld", pos);
    if (!generic)
    {
      const V * e = pos >= 0 ? &m[(size_t) pos] : nullptr; const char * sv = iot_data_list_iter_string_value (&it);
      CHECK (e && e->t == IOT_DATA_STRING ? sv && e->s == sv : !sv, "walk: string value at %ld", pos);
      CHECK (iot_data_list_iter_pointer_value (&it) == (e && e->t == IOT_DATA_POINTER ? e->p : nullptr), "walk: pointer value at %ld", pos);
    }
  }
}

TARGET (list_history, 150000, 4000000, 0)
{
  pbt::setrule ("history reaches 3+ elements and removes or replaces at least one through an iterator or by match");
  Opt o; o.depth = 2; o.elems = 3; o.pointers = true;
  int et = s.chance (1, 4) ? (int) s.draw (IOT_DATA_NULL) : IOT_DATA_MULTI;
  bool heap = s.flag (), cst = et == IOT_DATA_MULTI && s.chance (1, 8); iot_data_alloc_heap (heap);
  iot_data_list_static_t st;
  iot_data_t * list = cst ? iot_data_alloc_const_list (&st) : et == IOT_DATA_MULTI ? iot_data_alloc_list () : iot_data_alloc_typed_list ((iot_data_type_t) et);
  CHECK (iot_data_list_type (list) == et && iot_data_is_static (list) == cst, "list type");
  Model m; bool changed = false; size_t peak = 0;
  note ("list element type %d%s", et, cst ? " static" : "");
  std::function<V ()> value = [&] () { return et == IOT_DATA_MULTI ? gen_value (s, o, 1) : gen_scalar (s, o, (T) et); };
  size_t nops = s.len (80, 14) + 1;
  for (size_t op = 0; op < nops; op++)
  {
    Span sp (s);
    switch (s.weighted ({ 5, 5, 3, 3, 2, 3, 1, 3, 1 }))
    {
      case 0: { V v = value (); note ("head_push %s", show (v).c_str ()); iot_data_list_head_push (list, build (v, &s)); m.push_back (v); break; }
      case 1: { V v = value (); note ("tail_push %s", show (v).c_str ()); iot_data_list_tail_push (list, build (v, &s)); m.push_front (v); break; }
      case 2: { note ("head_pop"); iot_data_t * v = iot_data_list_head_pop (list); CHECK (m.empty () ? !v : v && veq (read (v), m.back ()), "head_pop returned %s", show (read (v)).c_str ()); if (!m.empty ()) m.pop_back (); iot_data_free (v); break; }
      case 3: { note ("tail_pop"); iot_data_t * v = iot_data_list_tail_pop (list); CHECK (m.empty () ? !v : v && veq (read (v), m.front ()), "tail_pop returned %s", show (read (v)).c_str ()); if (!m.empty ()) m.pop_front (); iot_data_free (v); break; }
      case 4: { V w = s.flag () && !m.empty () ? m[s.draw (m.size ())] : value (); note ("find %s", show (w).c_str ());
        size_t i = 0; while (i < m.size () && !veq (m[i], w)) i++;
        const iot_data_t * f = iot_data_list_find (list, cmp_is, &w); iot_data_list_iter_t it; iot_data_list_iter (list, &it); for (size_t k = 0; k <= i; k++) iot_data_list_iter_next (&it);
        CHECK (i == m.size () ? !f : f == iot_data_list_iter_value (&it), "find %s does not return the match nearest the tail", show (w).c_str ());
        if (w.t == IOT_DATA_STRING) CHECK (iot_data_list_find (list, iot_data_string_cmp, w.s.c_str ()) == f, "find by string");
        break; }
      case 5: { V w = s.draw (4) != 3 && !m.empty () ? m[s.draw (m.size ())] : value (); note ("remove %s", show (w).c_str ());
        size_t i = 0; while (i < m.size () && !veq (m[i], w)) i++;
        bool r = iot_data_list_remove (list, cmp_is, &w); CHECK (r == (i < m.size ()), "remove %s returned %d", show (w).c_str (), r);
        if (i < m.size ()) { m.erase (m.begin () + (long) i); changed = true; } break; }
      case 6: { note ("empty"); iot_data_list_empty (list); m.clear (); break; }
      case 7: walk (s, list, m, value, true, changed); break;
      default: walk (s, list, m, value, false, changed); break;
    }
    peak = std::max (peak, m.size ());
    check_full (list, m, "after operation");
    if (s.chance (1, 6)) { V w (IOT_DATA_LIST); w.et = IOT_DATA_MULTI; w.e.assign (m.begin (), m.end ()); fresh_check (s, list, w, "after operation"); }
  }
  { V w (IOT_DATA_LIST); w.et = IOT_DATA_MULTI; w.e.assign (m.begin (), m.end ()); fresh_check (s, list, w, "end"); }
  if (peak >= 3 && changed) pbt::nontrivial ();
  pbt::label_if (peak >= 20, "20+ elements"); pbt::label_if (et != IOT_DATA_MULTI, "typed elements");
  iot_data_list_empty (list); CHECK (iot_data_list_length (list) == 0, "emptied list has length %u", iot_data_list_length (list));
  iot_data_free (list); iot_data_alloc_heap (false);
}

TARGET (large, 200, 5000, pbt::LEAK)
{
  pbt::setrule ("more than 255 elements");
  size_t n = big_size (s); uint32_t p = (uint32_t) s.draw (5), q = 2 + (uint32_t) s.draw (6), pops = (uint32_t) s.draw (3); note ("%zu elements, pushes at head 1 in %u, one in %u removed", n, p + 1, q); if (n > 255) pbt::nontrivial ();
  std::deque<uint32_t> m; iot_data_t * l = iot_data_alloc_list ();
  auto check = [&] (const char * when)
  {
    CHECK (iot_data_list_length (l) == m.size () && iot_data_length (l) == m.size (), "%s: length is %u, expected %zu", when, iot_data_list_length (l), m.size ());
    iot_data_list_iter_t it; iot_data_list_iter (l, &it); size_t c = 0; while (iot_data_list_iter_next (&it)) { CHECK (c < m.size () && iot_data_ui32 (iot_data_list_iter_value (&it)) == m[c], "%s: element %zu differs", when, c); c++; } CHECK (c == m.size (), "%s: iteration ends after %zu of %zu", when, c, m.size ());
    while (iot_data_list_iter_prev (&it)) { CHECK (c > 0 && iot_data_ui32 (iot_data_list_iter_value (&it)) == m[c - 1], "%s: backward iteration differs at %zu", when, c); c--; } CHECK (c == 0, "%s: backward iteration ends at %zu", when, c);
  };
  for (uint32_t i = 0; i < n; i++) if (i % (p + 1) == 0) { iot_data_list_head_push (l, iot_data_alloc_ui32 (i)); m.push_back (i); } else { iot_data_list_tail_push (l, iot_data_alloc_ui32 (i)); m.push_front (i); }
  check ("after pushing");
  iot_data_list_iter_t it; iot_data_list_iter (l, &it); uint32_t k = 0; std::deque<uint32_t> w; while (iot_data_list_iter_next (&it)) { CHECK (k < m.size (), "iteration with removal goes on"); if (k % q == 1) iot_data_list_iter_remove (&it); else w.push_back (m[k]); k++; } m = w;
  check ("after removing");
  for (size_t i = 0; i < n / 2 && !m.empty (); i++) { bool head = pops == 0 || (pops == 2 && i % 3); iot_data_t * e = head ? iot_data_list_head_pop (l) : iot_data_list_tail_pop (l); CHECK (e && iot_data_ui32 (e) == (head ? m.back () : m.front ()), "element popped differs"); iot_data_free (e); if (head) m.pop_back (); else m.pop_front (); }
  check ("after popping"); iot_data_list_empty (l); m.clear (); check ("after emptying"); iot_data_free (l);
}
