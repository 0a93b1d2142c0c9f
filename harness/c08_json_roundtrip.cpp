// C08: a value written as JSON and read back.
#include "mutate.h"
#include "jsonref.h"
using namespace gen;
using namespace jref;
using pbt::note;

// what the reader must give for a value written
static V expect (const V & v)
{
  switch (v.t)
  {
    case IOT_DATA_FLOAT32: case IOT_DATA_FLOAT64:
    {
      char b[64]; if (std::isinf (v.d)) return vf64 (v.d);
      snprintf (b, sizeof b, v.t == IOT_DATA_FLOAT32 ? "%.8e" : "%.16e", v.d); return vf64 (strtod (b, nullptr));
    }
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: { V r (IOT_DATA_VECTOR); for (auto & x : v.e) r.e.push_back (expect (x)); return r; }
    case IOT_DATA_MAP: { V r (IOT_DATA_MAP); r.kt = IOT_DATA_STRING; for (auto & x : v.m) r.m.push_back ({ x.first, expect (x.second) }); return r; }
    default:
      if (is_sgn (v.t)) return vint (IOT_DATA_INT64, v.i);
      if (is_uns (v.t)) return v.u <= INT64_MAX ? vint (IOT_DATA_INT64, (int64_t) v.u) : vuns (IOT_DATA_UINT64, v.u);
      return v;
  }
}
static bool has_f32 (const V & v) { if (v.t == IOT_DATA_FLOAT32) return true; for (auto & x : v.e) if (has_f32 (x)) return true; for (auto & x : v.m) if (has_f32 (x.second)) return true; return false; }
static bool esc (const V & v) { if (v.t == IOT_DATA_STRING) { for (unsigned char c : v.s) if (c < 32 || c > 126 || c == '"' || c == '\\') return true; } for (auto & x : v.e) if (esc (x)) return true; for (auto & x : v.m) if (esc (x.first) || esc (x.second)) return true; return false; }
static Opt jopt () { Opt o; o.arrays = false; o.str_keys = true; o.utf8 = true; o.empties = false; o.nan = false; o.depth = 4; return o; }
// gen_string mixes in raw bytes only when utf8 is unset

TARGET (value, 60000, 2500000, pbt::LEAK)
{
  pbt::setrule ("the value is a container and has a string needing escapes or a number");
  Opt o = jopt (); V v = s.chance (1, 8) ? gen_any_scalar (s, o) : gen_container (s, o, 4); Arena ar; iot_data_t * d = build (v, &s, &ar);
  note ("%s", show (v).c_str ()); if (v.m.size () + v.e.size () > 1 && esc (v)) pbt::nontrivial (); pbt::label_if (esc (v), "escapes"); pbt::label_if (is_comp (v.t), "container");
  char * t = iot_data_to_json (d); std::string text = t;
  iot_data_t * r = iot_data_from_json (t); V got = read (r), want = expect (v);
  CHECK (veq (got, want), "%s written as %s reads back as %s", show (v).c_str (), pbt::quoted (text).c_str (), show (got).c_str ());
  for (auto * p : { &got }) if (p->t == IOT_DATA_MAP) CHECK (iot_data_map_key_is_of_type (r, IOT_DATA_STRING), "object is not a string-keyed map");
  char * t2 = iot_data_to_json (r);
  if (!has_f32 (v)) CHECK (text == t2, "written again as %s, was %s", pbt::quoted (t2).c_str (), pbt::quoted (text).c_str ());
  iot_data_t * r2 = iot_data_from_json (t2); char * t3 = iot_data_to_json (r2); CHECK (!strcmp (t2, t3), "text not stable: %s then %s", pbt::quoted (t2).c_str (), pbt::quoted (t3).c_str ());
  CHECK (has_f32 (v) || iot_data_equal (r, r2), "two readings of one text differ");
  // the same through an intermediate cache of strings and with ordering
  bool ordered = s.flag (); iot_data_t * cache = s.flag () ? iot_data_alloc_map (IOT_DATA_STRING) : nullptr;
  iot_data_t * r3 = iot_data_from_json_with_cache (t, ordered, cache), * r4 = iot_data_from_json_with_cache (t, ordered, cache);
  CHECK (veq (read (r3), want) && veq (read (r4), want), "with ordering %d and a cache %s reads back as %s", ordered, pbt::quoted (text).c_str (), show (read (r3)).c_str ());
  char * t4 = iot_data_to_json (r3); if (!has_f32 (v)) CHECK (text == t4, "ordered text %s, source %s", pbt::quoted (t4).c_str (), pbt::quoted (text).c_str ());
  iot_data_free (r3); iot_data_free (r); iot_data_free (r2); if (s.flag ()) { iot_data_free (cache); cache = nullptr; } CHECK (veq (read (r4), want), "value changed after another one and the cache were freed"); iot_data_free (r4); iot_data_free (cache);
  free (t); free (t2); free (t3); free (t4); iot_data_free (d);
}

// member order of a document kept in writing
static bool same_order (const J & a, const J & b, std::string & why)
{
  if (a.k != b.k) { why = "kind"; return false; }
  if (a.k == J::ARR) { if (a.a.size () != b.a.size ()) { why = "array size"; return false; } for (size_t i = 0; i < a.a.size (); i++) if (!same_order (a.a[i], b.a[i], why)) return false; return true; }
  if (a.k == J::OBJ)
  {
    if (a.o.size () != b.o.size ()) { why = "member count"; return false; }
    for (size_t i = 0; i < a.o.size (); i++) { if (a.o[i].first != b.o[i].first) { why = "member " + pbt::quoted (a.o[i].first) + " became " + pbt::quoted (b.o[i].first); return false; } if (!same_order (a.o[i].second, b.o[i].second, why)) return false; }
    return true;
  }
  if (!veq (denote (a), denote (b))) { why = "value " + show (denote (a)) + " became " + show (denote (b)); return false; }
  return true;
}
static bool unsorted (const J & j) { for (auto & x : j.a) if (unsorted (x)) return true; for (size_t i = 0; i < j.o.size (); i++) { if (i && j.o[i].first < j.o[i - 1].first) return true; if (unsorted (j.o[i].second)) return true; } return false; }

TARGET (ordering, 40000, 1500000, pbt::LEAK)
{
  pbt::setrule ("some object has members that are not in sorted order");
  std::string t; J j; for (int k = 0; k < 4; k++) { t.clear (); j = gen_doc (s, t, 4, 5); if (j.k == J::OBJ || j.k == J::ARR) break; }
  note ("%s", pbt::quoted (t, 2000).c_str ()); if (unsorted (j)) pbt::nontrivial ();
  iot_data_t * cache = s.flag () ? iot_data_alloc_map (IOT_DATA_STRING) : nullptr;
  iot_data_t * d = cache ? iot_data_from_json_with_cache (t.c_str (), true, cache) : iot_data_from_json_with_ordering (t.c_str (), true); iot_data_free (cache);
  V want = denote (j); CHECK (veq (read (d), want), "reads as %s", show (read (d)).c_str ());
  iot_data_t * use = d; // copies keep the ordering
  if (s.flag ()) { use = iot_data_copy (d); iot_data_free (d); d = use; }
  char * w = iot_data_to_json (d); J k; std::string err, why;
  CHECK (jref::parse (w, k, err), "output %s is not valid JSON: %s", pbt::quoted (w).c_str (), err.c_str ());
  CHECK (same_order (j, k, why), "source order lost (%s): %s", why.c_str (), pbt::quoted (w, 1000).c_str ());
  iot_data_t * d2 = iot_data_from_json_with_ordering (w, true); char * w2 = iot_data_to_json (d2); CHECK (!strcmp (w, w2), "ordered text not stable: %s then %s", pbt::quoted (w).c_str (), pbt::quoted (w2).c_str ());
  iot_data_t * d3 = iot_data_from_json_with_ordering (w, false); CHECK (veq (read (d3), want) && iot_data_equal (d2, d3), "differs with ordering off");
  free (w); free (w2); iot_data_free (d); iot_data_free (d2); iot_data_free (d3);
}

TARGET (large, 60, 1500, pbt::LEAK)
{
  pbt::setrule ("more than 255 parts");
  size_t n = big_size (s, 72000); int kind = (int) s.draw (4); bool ordered = s.flag (), cached = s.flag (); note ("kind %d, %zu parts", kind, n); if (n > 255) pbt::nontrivial (); uint32_t mul = (uint32_t) s.draw (1u << 16); std::vector<std::string> keys;
  std::string t; auto num = [&] (size_t i) { return std::to_string ((long) (i * 7) - 1000); }; for (size_t i = 0; i < n && kind == 1; i++) { char b[16]; snprintf (b, sizeof b, "k%07u", scramble ((uint32_t) i, mul) & 0x1ffff); keys.push_back (b); }
  switch (kind)
  {
    case 0: t = "["; for (size_t i = 0; i < n; i++) t += (i ? "," : "") + num (i); t += "]"; break;
    case 1: t = "{"; for (size_t i = 0; i < n; i++) t += (i ? ",\"" : "\"") + keys[i] + "\":" + num (i); t += "}"; break;
    case 2: t = "["; for (size_t i = 0; i < n; i++) t += i ? ",{}" : "{}"; t += "]"; break;
    default: t = "\"" + std::string (n, 'x') + "\""; break;
  }
  iot_data_t * cache = cached ? iot_data_alloc_map (IOT_DATA_STRING) : nullptr, * d = cached ? iot_data_from_json_with_cache (t.c_str (), ordered, cache) : iot_data_from_json_with_ordering (t.c_str (), ordered); iot_data_free (cache); CHECK (d, "rejected");
  if (kind == 3) CHECK (iot_data_type (d) == IOT_DATA_STRING && strlen (iot_data_string (d)) == n, "string differs");
  else CHECK (iot_data_length (d) == n, "%u parts read of %zu", iot_data_length (d), n);
  if (kind == 0) for (size_t i = 0; i < n; i++) { int64_t x = -1; CHECK (iot_data_cast (iot_data_vector_get (d, (uint32_t) i), IOT_DATA_INT64, &x) && x == (int64_t) (i * 7) - 1000, "element %zu is %lld", i, (long long) x); }
  if (kind == 1) for (size_t i = 0; i < n; i++) { int64_t x = -1; const iot_data_t * v = iot_data_string_map_get (d, keys[i].c_str ()); CHECK (v && iot_data_cast (v, IOT_DATA_INT64, &x) && x == (int64_t) (i * 7) - 1000, "member %zu is %lld", i, (long long) x); }
  char * w = iot_data_to_json (d); iot_data_t * e = iot_data_from_json_with_ordering (w, ordered); CHECK (iot_data_equal (d, e), "differs when written and read again"); if (kind != 1 || ordered) CHECK (t == w, "written differently");
  iot_data_free (d); iot_data_free (e); free (w);
}

// deeply nested values
TARGET (tower, 1500, 60000, pbt::LEAK)
{
  pbt::setrule ("nested more than 60 levels");
  size_t n = big_depth (s); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; V v = tower (r, n, vstr ("a\"b"), o), want = expect (v); bool ordered = s.flag (); note ("%zu levels", n); if (n > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (v, &s, &ar); char * t = iot_data_to_json (d); iot_data_t * e = iot_data_from_json_with_ordering (t, ordered); CHECK (e, "rejected"); V got = read (e); CHECK (veq (got, want), "a value of %zu levels reads back differently", n);
  char * t2 = iot_data_to_json (e); CHECK (!strcmp (t, t2), "written differently"); free (t); free (t2); iot_data_free (d); iot_data_free (e);
}
