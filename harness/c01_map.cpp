// C01: maps against an ordered-dictionary model.
#include "gen.h"
#include <map>
#include <algorithm>
using namespace gen;
using pbt::note;

static std::string canon (const V & v)
{
  V w = v;
  if (is_flt (w.t) && w.d == 0) w.d = 0.0;
  if (!is_comp (w.t)) { if (w.t == IOT_DATA_STRING || w.t == IOT_DATA_BINARY) return std::to_string (w.t) + ":" + std::to_string (w.s.size ()) + ":" + w.s; if (w.t == IOT_DATA_ARRAY) return "a" + std::to_string (w.et) + ":" + std::to_string (w.s.size ()) + ":" + w.s; return show (w); }
  std::vector<std::string> p; std::string r = std::to_string (w.t) + "(";
  for (auto & x : w.e) p.push_back (canon (x));
  for (auto & x : w.m) p.push_back (canon (x.first) + "=" + canon (x.second));
  if (w.t == IOT_DATA_MAP) std::sort (p.begin (), p.end ());
  for (auto & x : p) r += x + ",";
  return r + ")";
}
struct Less { bool operator() (const V & a, const V & b) const { if (a.t != b.t) return a.t < b.t; if (a.t <= IOT_DATA_NULL) return vcmp (a, b) < 0; return canon (a) < canon (b); } };
typedef std::map<V, V, Less> Model;

static Opt kopt, vopt;
static V fresh_key (Src & s, int kt, int mode)
{
  if (kt != IOT_DATA_MULTI) { if (kt == IOT_DATA_STRING && mode == 0) return vstr (std::string (1, (char) ('a' + s.draw (8)))); if (kt == IOT_DATA_INT32) return vint (IOT_DATA_INT32, s.range (0, mode ? 200 : 12)); return gen_of_type (s, kopt, 1, (T) kt); }
  if (mode == 0) { int64_t x = s.range (0, 5); switch (s.draw (5)) { case 0: return vint (IOT_DATA_INT32, x); case 1: return vuns (IOT_DATA_UINT8, (uint64_t) x); case 2: return vstr (std::string (1, (char) ('a' + x))); case 3: return vf64 ((double) x); default: return vint (IOT_DATA_INT64, x); } }
  return gen_key (s, kopt);
}

static void check_full (iot_data_t * map, const Model & m, const char * when)
{
  CHECK (iot_data_map_size (map) == m.size (), "%s: map size %u, model %zu", when, iot_data_map_size (map), m.size ());
  CHECK (iot_data_length (map) == m.size (), "%s: length %u, model %zu", when, iot_data_length (map), m.size ());
  iot_data_map_iter_t it; iot_data_map_iter (map, &it);
  std::vector<const iot_data_t *> keys; size_t n = 0; const iot_data_t * last = nullptr; V lastk;
  CHECK (iot_data_map_iter_has_next (&it) == !m.empty (), "%s: has_next on fresh iterator of %zu entries", when, m.size ());
  while (iot_data_map_iter_next (&it))
  {
    CHECK (++n <= m.size (), "%s: forward iteration yields more entries than the map holds", when);
    const iot_data_t * k = iot_data_map_iter_key (&it), * v = iot_data_map_iter_value (&it);
    V mk = read (k); auto f = m.find (mk);
    CHECK (f != m.end (), "%s: iteration yields key %s which is not in the map", when, show (mk).c_str ());
    V mv = read (v);
    CHECK (veq (mv, f->second), "%s: key %s iterates with value %s, expected %s", when, show (mk).c_str (), show (mv).c_str (), show (f->second).c_str ());
    CHECK (iot_data_map_iter_has_next (&it) == (n < m.size ()), "%s: has_next %d after %zu of %zu entries", when, iot_data_map_iter_has_next (&it), n, m.size ());
    if (last)
    {
      int c = iot_data_compare (last, k); CHECK (c < 0, "%s: keys out of order: %s then %s", when, show (lastk).c_str (), show (mk).c_str ());
      int r = vcmp (lastk, mk); CHECK (r == 2 || r < 0, "%s: keys out of reference order: %s then %s", when, show (lastk).c_str (), show (mk).c_str ());
    }
    last = k; lastk = mk; keys.push_back (k);
  }
  CHECK (n == m.size (), "%s: forward iteration yields %zu of %zu entries", when, n, m.size ());
  CHECK (iot_data_map_iter_key (&it) == nullptr && iot_data_map_iter_value (&it) == nullptr, "%s: finished iterator still has an entry", when);
  iot_data_map_iter (map, &it); n = 0;
  while (iot_data_map_iter_prev (&it))
  {
    CHECK (++n <= m.size (), "%s: backward iteration yields more entries than the map holds", when);
    CHECK (iot_data_map_iter_key (&it) == keys[m.size () - n], "%s: backward iteration visits another order", when);
    CHECK (iot_data_map_iter_has_next (&it) == (n > 1), "%s: has_next %d at position %zu from the end of %zu (moving backwards)", when, iot_data_map_iter_has_next (&it), n, m.size ());
  }
  CHECK (n == m.size (), "%s: backward iteration yields %zu of %zu entries", when, n, m.size ());
  const iot_data_t * st = iot_data_map_start (map), * en = iot_data_map_end (map);
  if (m.empty ()) CHECK (!st && !en, "%s: empty map has a first or last entry", when);
  else
  {
    CHECK (st == iot_data_map_get (map, keys.front ()), "%s: start is not the first entry's value", when);
    CHECK (en == iot_data_map_get (map, keys.back ()), "%s: end is not the last entry's value", when);
    CHECK (iot_data_map_start_pointer (map) == (iot_data_type (st) == IOT_DATA_POINTER ? iot_data_pointer (st) : nullptr), "%s: start_pointer", when);
    CHECK (iot_data_map_end_pointer (map) == (iot_data_type (en) == IOT_DATA_POINTER ? iot_data_pointer (en) : nullptr), "%s: end_pointer", when);
  }
}

// a walk of mixed forward and backward steps; position -1 is "off the end", where next goes to the first and prev to the last
static void check_walk (Src & s, iot_data_t * map, const Model & m)
{
  std::vector<const iot_data_t *> keys; iot_data_map_iter_t it; iot_data_map_iter (map, &it);
  while (iot_data_map_iter_next (&it)) keys.push_back (iot_data_map_iter_key (&it));
  long n = (long) keys.size (), pos = -1; bool generic = s.flag ();
  iot_data_map_iter (map, &it); iot_data_iter_t gi; iot_data_iter (map, &gi);
  size_t steps = s.draw (20) + 1;
  for (size_t k = 0; k < steps; k++)
  {
    bool fwd = s.draw (3) != 2, hn = generic ? iot_data_iter_has_next (&gi) : iot_data_map_iter_has_next (&it);
    bool exp = pos < 0 ? n > 0 : pos + 1 < n;
    CHECK (hn == exp, "walk: has_next is %d at position %ld of %ld", hn, pos, n);
    bool r;
    if (fwd) { r = generic ? iot_data_iter_next (&gi) : iot_data_map_iter_next (&it); pos = pos < 0 ? (n ? 0 : -1) : pos + 1 < n ? pos + 1 : -1; }
    else { r = generic ? iot_data_iter_prev (&gi) : iot_data_map_iter_prev (&it); pos = pos < 0 ? n - 1 : pos - 1; }
    CHECK (r == (pos >= 0), "walk: step returned %d, model position %ld of %ld", r, pos, n);
    const iot_data_t * v = generic ? iot_data_iter_value (&gi) : iot_data_map_iter_value (&it);
    CHECK (v == (pos >= 0 ? iot_data_map_get (map, keys[(size_t) pos]) : nullptr), "walk: wrong value at position %ld of %ld", pos, n);
    if (!generic && pos >= 0)
    {
      V kk = read (keys[(size_t) pos]), vv = m.at (kk);
      const char * ks = iot_data_map_iter_string_key (&it), * vs = iot_data_map_iter_string_value (&it);
      CHECK (kk.t == IOT_DATA_STRING ? ks && kk.s == ks : !ks, "walk: string key");
      CHECK (vv.t == IOT_DATA_STRING ? vs && vv.s == vs : !vs, "walk: string value");
      if (vv.t == IOT_DATA_BOOL) CHECK (iot_data_map_iter_bool_value (&it) == (vv.u != 0), "walk: bool value");
      CHECK (iot_data_map_iter_pointer_value (&it) == (vv.t == IOT_DATA_POINTER ? vv.p : nullptr), "walk: pointer value");
    }
  }
}

// integer value of a numeric model value, exact, if it is in the range of the type (double arithmetic only below 2^53)
static bool conv_i64 (const V & v, T t, __int128 & out)
{
  if (is_sgn (v.t)) out = v.i; else if (is_uns (v.t) || v.t == IOT_DATA_BOOL) out = v.u;
  else { if (v.d != v.d || fabs (v.d) > 1e18) return false; out = (__int128) v.d; if ((double) out != v.d) return false; }
  if (is_sgn (t)) return out >= smin (t) && out <= smax (t);
  return out >= 0 && out <= (__int128) umax (t);
}

static void check_get (Src & s, iot_data_t * map, const Model & m, const V & k)
{
  auto f = m.find (k); const V * v = f == m.end () ? nullptr : &f->second;
  iot_data_t * key = build (k);
  bool str = k.t == IOT_DATA_STRING && s.flag ();   // use the C string entry points
  const char * sk = str ? iot_data_string (key) : nullptr;
  const iot_data_t * g = str ? iot_data_string_map_get (map, sk) : iot_data_map_get (map, key);
  CHECK ((g != nullptr) == (v != nullptr), "get %s: %s, model %s", show (k).c_str (), g ? "found" : "absent", v ? "present" : "absent");
  if (v) { V r = read (g); CHECK (veq (r, *v), "get %s: %s, expected %s", show (k).c_str (), show (r).c_str (), show (*v).c_str ()); }
  T t = (T) s.draw (IOT_DATA_MULTI);
  if (v && s.flag ()) t = v->t;
  CHECK (iot_data_map_get_typed (map, key, (iot_data_type_t) t) == (v && v->t == t ? g : nullptr), "get_typed %s", show (k).c_str ());
  const char * st = str ? iot_data_string_map_get_string (map, sk) : iot_data_map_get_string (map, key);
  CHECK (v && v->t == IOT_DATA_STRING ? st && v->s == st : !st, "get_string %s", show (k).c_str ());
  int64_t di = s.range (-9, 9);
  int64_t i64 = str ? iot_data_string_map_get_i64 (map, sk, di) : iot_data_map_get_i64 (map, key, di);
  CHECK (i64 == (v && v->t == IOT_DATA_INT64 ? v->i : di), "get_i64 %s: %lld", show (k).c_str (), (long long) i64);
  uint64_t u64 = str ? iot_data_string_map_get_ui64 (map, sk, (uint64_t) di) : iot_data_map_get_ui64 (map, key, (uint64_t) di);
  CHECK (u64 == (v && v->t == IOT_DATA_UINT64 ? v->u : (uint64_t) di), "get_ui64 %s", show (k).c_str ());
  bool db = s.flag (), b = str ? iot_data_string_map_get_bool (map, sk, db) : iot_data_map_get_bool (map, key, db);
  CHECK (b == (v && v->t == IOT_DATA_BOOL ? v->u != 0 : db), "get_bool %s", show (k).c_str ());
  double dd = (double) di / 2, d = str ? iot_data_string_map_get_f64 (map, sk, dd) : iot_data_map_get_f64 (map, key, dd);
  CHECK (d == (v && v->t == IOT_DATA_FLOAT64 ? v->d : dd), "get_f64 %s", show (k).c_str ());
  CHECK ((str ? iot_data_string_map_get_vector (map, sk) : iot_data_map_get_vector (map, key)) == (v && v->t == IOT_DATA_VECTOR ? g : nullptr), "get_vector %s", show (k).c_str ());
  CHECK ((str ? iot_data_string_map_get_map (map, sk) : iot_data_map_get_map (map, key)) == (v && v->t == IOT_DATA_MAP ? g : nullptr), "get_map %s", show (k).c_str ());
  CHECK ((str ? iot_data_string_map_get_list (map, sk) : iot_data_map_get_list (map, key)) == (v && v->t == IOT_DATA_LIST ? g : nullptr), "get_list %s", show (k).c_str ());
  CHECK (iot_data_map_get_array (map, key) == (v && v->t == IOT_DATA_ARRAY ? g : nullptr), "get_array %s", show (k).c_str ());
  CHECK ((str ? iot_data_string_map_get_pointer (map, sk) : iot_data_map_get_pointer (map, key)) == (v && v->t == IOT_DATA_POINTER ? v->p : nullptr), "get_pointer %s", show (k).c_str ());
  // number getters
  int gi = 12345; bool ok = str ? iot_data_string_map_get_int (map, sk, &gi) : iot_data_map_get_int (map, key, &gi); __int128 x;
  if (!v || !is_num (v->t)) CHECK (!ok && gi == 12345, "get_int %s succeeds on nothing or on a non-number", show (k).c_str ());
  else if (!is_flt (v->t)) { bool e = conv_i64 (*v, IOT_DATA_INT32, x); CHECK (ok == e && gi == (e ? (int) x : 12345), "get_int %s of %s: %d %d", show (k).c_str (), show (*v).c_str (), ok, gi); }
  T nt = (T) s.draw (IOT_DATA_UINT64 + 1); union { int64_t i; uint64_t u; unsigned char c[16]; } nb; memset (&nb, 0, sizeof nb);
  ok = str ? iot_data_string_map_get_number (map, sk, (iot_data_type_t) nt, &nb) : iot_data_map_get_number (map, key, (iot_data_type_t) nt, &nb);
  if (!v || !is_num (v->t)) CHECK (!ok, "get_number %s succeeds on nothing or on a non-number", show (k).c_str ());
  else if (!is_flt (v->t))
  {
    bool e = conv_i64 (*v, nt, x);
    CHECK (ok == e, "get_number %s of %s as type %u: %d", show (k).c_str (), show (*v).c_str (), nt, ok);
    if (e) { uint64_t mask = umax (nt); CHECK ((nb.u & mask) == ((uint64_t) x & mask), "get_number %s of %s as type %u gives another value", show (k).c_str (), show (*v).c_str (), nt); }
  }
  iot_data_free (key);
}

static void history (Src & s, bool big)
{
  pbt::setrule ("history has at least 3 entries live at once and at least one removal or replacement of a present key");
  kopt.depth = 1; kopt.elems = 3; kopt.container_keys = true; kopt.typed = false; kopt.pointers = true;
  vopt.depth = 2; vopt.elems = 3; vopt.pointers = true;
  static const int kts[] = { IOT_DATA_MULTI, IOT_DATA_INT32, IOT_DATA_STRING, IOT_DATA_MULTI, IOT_DATA_UINT8, IOT_DATA_FLOAT64, IOT_DATA_INT64, IOT_DATA_BOOL, IOT_DATA_UINT64, IOT_DATA_BINARY };
  int kt = big ? (s.flag () ? IOT_DATA_INT32 : IOT_DATA_MULTI) : kts[s.draw (10)], mode = (int) s.draw (2);
  int et = s.chance (1, 5) ? (int) s.draw (IOT_DATA_NULL) : IOT_DATA_MULTI;
  iot_data_alloc_heap (s.flag ());
  iot_data_t * map = et == IOT_DATA_MULTI ? iot_data_alloc_map ((iot_data_type_t) kt) : iot_data_alloc_typed_map ((iot_data_type_t) kt, (iot_data_type_t) et);
  CHECK (iot_data_map_key_type (map) == kt && iot_data_map_type (map) == et && iot_data_map_key_is_of_type (map, (iot_data_type_t) kt), "map types");
  Model m; std::vector<V> used; bool changed = false; size_t peak = 0;
  note ("map key type %d element type %d", kt, et);
  auto key = [&] () { if (!used.empty () && s.chance (1, 2)) return used[s.draw (used.size ())]; V k = fresh_key (s, kt, mode); used.push_back (k); return k; };
  auto value = [&] () { return et == IOT_DATA_MULTI ? gen_value (s, vopt, 2) : gen_scalar (s, vopt, (T) et); };
  size_t nops = s.len (big ? 30 : 60, 12) + 1;
  for (size_t op = 0; op < nops; op++)
  {
    Span sp (s);
    switch (s.weighted ({ 8, 3, 5, 4, 1, 1, 2, 2, 2, (unsigned) (big ? 8 : 1) }))
    {
      case 0: { V k = key (), v = value (); note ("add %s = %s", show (k).c_str (), show (v).c_str ());
        bool was = m.count (k); changed |= was;
        if (k.t == IOT_DATA_STRING && s.chance (1, 4)) { static std::list<std::string> keep; keep.push_back (k.s); iot_data_string_map_add (map, keep.back ().c_str (), build (v, &s)); }
        else iot_data_map_add (map, build (k, &s), build (v, &s));
        m[k] = v; break; }
      case 1: { V k = key (), v = value (); note ("add_unused %s = %s", show (k).c_str (), show (v).c_str ());
        iot_data_t * dk = build (k), * dv = build (v); bool r = iot_data_map_add_unused (map, dk, dv);
        CHECK (r == !m.count (k), "add_unused %s returned %d", show (k).c_str (), r);
        if (r) m[k] = v; else { iot_data_free (dk); iot_data_free (dv); } break; }
      case 2: { V k = key (); note ("remove %s", show (k).c_str ());
        iot_data_t * dk = build (k);
        // removing with the entry's own key object is also valid
        bool r = k.t == IOT_DATA_STRING && s.flag () ? iot_data_string_map_remove (map, k.s.c_str ()) : iot_data_map_remove (map, dk);
        CHECK (r == (m.count (k) > 0), "remove %s returned %d", show (k).c_str (), r); changed |= r; m.erase (k); iot_data_free (dk); break; }
      case 3: { V k = key (); note ("get %s", show (k).c_str ()); check_get (s, map, m, k); break; }
      case 4: { note ("empty"); if (!m.empty ()) changed = true; iot_data_map_empty (map); m.clear (); break; }
      case 5: { // merge
        size_t n = s.draw (6); iot_data_t * o = iot_data_alloc_typed_map ((iot_data_type_t) kt, (iot_data_type_t) et); Model om;
        for (size_t i = 0; i < n; i++) { V k = key (), v = value (); iot_data_map_add (o, build (k), build (v)); om[k] = v; }
        note ("merge %zu entries", om.size ());
        iot_data_map_merge (map, o); for (auto & x : om) { if (m.count (x.first)) changed = true; m[x.first] = x.second; }
        check_full (o, om, "merged map"); iot_data_free (o); iot_data_map_merge (map, nullptr); break; }
      case 6: { // replace through an iterator
        iot_data_map_iter_t it; iot_data_map_iter (map, &it); size_t k = m.empty () ? 0 : s.draw (m.size ()) + 1; for (size_t i = 0; i < k; i++) iot_data_map_iter_next (&it);
        V v = value (); iot_data_t * nv = build (v), * old = iot_data_map_iter_replace_value (&it, nv);
        if (m.empty ()) { CHECK (!old, "replace off the end returned a value"); iot_data_free (nv); }
        else { V kk = read (iot_data_map_iter_key (&it)); note ("replace at %s by %s", show (kk).c_str (), show (v).c_str ()); CHECK (old && veq (read (old), m[kk]), "replaced value is not the old one"); iot_data_free (old); m[kk] = v; changed = true; }
        break; }
      case 7: { // base64 entry to array
        if (et != IOT_DATA_MULTI) break;
        V k = key (); std::string raw = s.bytes (20, 5), enc; bool valid = s.draw (4) != 3;
        std::vector<char> b (iot_b64_encodesize (raw.size ()) + 1); iot_b64_encode (raw.data (), raw.size (), b.data (), b.size ()); enc = b.data ();
        if (!valid) enc += "*!";
        if (s.flag ()) { iot_data_map_add (map, build (k), build (vstr (enc))); m[k] = vstr (enc); }
        iot_data_t * dk = build (k); bool r = iot_data_map_base64_to_array (map, dk); iot_data_free (dk);
        auto f = m.find (k); note ("base64_to_array %s (%s)", show (k).c_str (), f == m.end () ? "absent" : show (f->second).c_str ());
        if (f == m.end () || f->second.t != IOT_DATA_STRING) CHECK (!r, "base64_to_array converted an absent or non-string entry");
        else if (f->second.s == enc && valid) { CHECK (r, "base64_to_array refused valid base64 %s", pbt::quoted (enc).c_str ()); V a (IOT_DATA_ARRAY); a.et = IOT_DATA_UINT8; a.s = raw; f->second = a; changed = true; }
        else if (r) { f->second = read (iot_data_map_get (map, build (k))); }
        break; }
      case 8: check_walk (s, map, m); break;
      default: { // burst: a run of keys added or removed in a pattern
        size_t n = s.draw (big ? 150 : 24) + 1; int64_t base = s.range (0, 100), step = s.range (-3, 3); bool add = s.draw (3) != 2; uint64_t stride = s.draw (7) + 1;
        note ("burst %s %zu from %lld step %lld stride %llu", add ? "add" : "remove", n, (long long) base, (long long) step, (unsigned long long) stride);
        if ((kt != IOT_DATA_MULTI && kt != IOT_DATA_INT32)) break;
        for (size_t i = 0; i < n; i++)
        {
          int64_t x = step ? base + step * (int64_t) i : base + (int64_t) ((i * stride * 37) % 211); V k = vint (IOT_DATA_INT32, x);
          if (add) { V v = et == IOT_DATA_MULTI ? vint (IOT_DATA_INT32, (int64_t) i) : gen_scalar (s, vopt, (T) et); iot_data_map_add (map, build (k), build (v)); changed |= m.count (k) > 0; m[k] = v; }
          else { iot_data_t * dk = build (k); bool r = iot_data_map_remove (map, dk); iot_data_free (dk); CHECK (r == (m.count (k) > 0), "burst remove %lld returned %d", (long long) x, r); changed |= r; m.erase (k); }
          CHECK (iot_data_map_size (map) == m.size (), "burst: size %u, model %zu", iot_data_map_size (map), m.size ());
          if (big && (i % 16) == 0) check_full (map, m, "burst");
        }
        break; }
    }
    peak = std::max (peak, m.size ());
    if (m.size () < 40 || op % 8 == 0) check_full (map, m, "after operation");
    if (m.size () < 40 && s.chance (1, 6)) { V w (IOT_DATA_MAP); w.kt = IOT_DATA_MULTI; w.et = IOT_DATA_MULTI; for (auto & x : m) w.m.push_back (x); fresh_check (s, map, w, "after operation"); }
  }
  check_full (map, m, "end"); check_walk (s, map, m); if (m.size () < 100) { V w (IOT_DATA_MAP); w.kt = IOT_DATA_MULTI; w.et = IOT_DATA_MULTI; for (auto & x : m) w.m.push_back (x); fresh_check (s, map, w, "end"); }
  for (auto & k : used) { iot_data_t * dk = build (k); const iot_data_t * g = iot_data_map_get (map, dk); CHECK ((g != nullptr) == (m.count (k) > 0), "final get %s", show (k).c_str ()); iot_data_free (dk); }
  if (peak >= 3 && changed) pbt::nontrivial ();
  pbt::label_if (peak >= 50, "50+ entries"); pbt::label_if (kt == IOT_DATA_MULTI, "mixed key types"); pbt::label_if (et != IOT_DATA_MULTI, "typed elements");
  iot_data_free (map); iot_data_alloc_heap (false);
}

TARGET (map_history, 140000, 4000000, 0) { history (s, false); }
TARGET (map_big, 10000, 400000, 0) { history (s, true); }

// sizes at which narrow counters and recursion limits would show
TARGET (large, 80, 2500, pbt::LEAK)
{
  pbt::setrule ("more than 255 entries");
  size_t n = big_size (s, 72000); unsigned kind = (unsigned) s.draw (4), order = (unsigned) s.draw (3); uint32_t mul = (uint32_t) s.draw (1u << 20), mod = 2 + (uint32_t) s.draw (7), res = (uint32_t) s.draw (mod); bool readd = s.flag ();
  static const T KT[] = { IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_STRING, IOT_DATA_FLOAT64 };
  auto key = [&] (uint32_t x) { switch (kind) { case 0: return iot_data_alloc_ui32 (x); case 1: return iot_data_alloc_i64 ((int64_t) x - 0x80000000ll); case 2: { char b[12]; snprintf (b, sizeof b, "%08x", x); return iot_data_alloc_string (b, IOT_DATA_COPY); } default: return iot_data_alloc_f64 (x); } };
  auto id = [&] (size_t i) { return order == 0 ? (uint32_t) i : order == 1 ? (uint32_t) (n - i) : scramble ((uint32_t) i, mul); };
  note ("%zu %s keys in order %u, remove %u mod %u", n, iot_data_type_string ((iot_data_type_t) KT[kind]), order, res, mod); if (n > 255) pbt::nontrivial ();
  iot_data_t * map = iot_data_alloc_map ((iot_data_type_t) (s.flag () ? KT[kind] : (T) IOT_DATA_MULTI)); std::map<uint32_t, uint32_t> m;
  auto check = [&] (const char * when)
  {
    CHECK (iot_data_map_size (map) == m.size () && iot_data_length (map) == m.size (), "%s: size is %u, expected %zu", when, iot_data_map_size (map), m.size ());
    iot_data_map_iter_t it; iot_data_map_iter (map, &it); auto r = m.begin (); size_t c = 0;
    while (iot_data_map_iter_next (&it)) { CHECK (r != m.end (), "%s: iteration goes on after %zu entries", when, c); iot_data_t * k = key (r->first); bool ok = iot_data_equal (k, iot_data_map_iter_key (&it)); iot_data_free (k); CHECK (ok && iot_data_ui32 (iot_data_map_iter_value (&it)) == r->second, "%s: entry %zu differs", when, c); ++r; c++; }
    CHECK (r == m.end (), "%s: iteration ends after %zu of %zu entries", when, c, m.size ());
    auto q = m.rbegin (); while (iot_data_map_iter_prev (&it)) { CHECK (q != m.rend () && iot_data_ui32 (iot_data_map_iter_value (&it)) == q->second, "%s: backward iteration differs", when); ++q; } CHECK (q == m.rend (), "%s: backward iteration ends early", when);
    for (size_t i = 0; i < n; i++) { iot_data_t * k = key (id (i)); const iot_data_t * v = iot_data_map_get (map, k); iot_data_free (k); auto f = m.find (id (i)); CHECK ((v != NULL) == (f != m.end ()) && (!v || iot_data_ui32 (v) == f->second), "%s: look-up %zu differs", when, i); }
  };
  for (size_t i = 0; i < n; i++) { iot_data_map_add (map, key (id (i)), iot_data_alloc_ui32 ((uint32_t) i)); m[id (i)] = (uint32_t) i; }
  check ("after adding");
  for (size_t i = 0; i < n; i++) if (i % mod == res) { iot_data_t * k = key (id (i)); bool r = iot_data_map_remove (map, k), e = m.erase (id (i)) > 0; iot_data_free (k); CHECK (r == e, "removal %zu reports %d", i, r); }
  check ("after removing");
  if (readd) { for (size_t i = 0; i < n; i += 2) { iot_data_map_add (map, key (id (i)), iot_data_alloc_ui32 ((uint32_t) (i + 7))); m[id (i)] = (uint32_t) (i + 7); } check ("after adding again"); }
  else { iot_data_map_empty (map); m.clear (); check ("after emptying"); }
  iot_data_free (map);
}
