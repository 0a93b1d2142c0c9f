// C10: JSON text written for any value, into any buffer.
#include "mutate.h"
#include "jsonref.h"
using namespace gen;
using namespace jref;
using pbt::note;

static std::string b64 (const std::string & x)
{
  static const char * al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
  for (size_t i = 0; i < x.size (); i += 3)
  {
    uint32_t v = 0; size_t n = std::min<size_t> (3, x.size () - i); for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? (unsigned char) x[i + k] : 0);
    for (size_t k = 0; k < 4; k++) r += k <= n ? al[v >> (18 - 6 * k) & 63] : '=';
  }
  return r;
}
static bool num_ok (const J & j, const V & v)
{
  if (is_flt (v.t) && v.d != v.d) return j.k == J::NUL;
  if (v.t == IOT_DATA_BOOL) return j.k == J::BOOL && j.b == (v.u != 0);
  if (j.k != J::NUM) return false;
  if (is_flt (v.t)) { double x = strtod (j.s.c_str (), nullptr); if (v.t == IOT_DATA_FLOAT32) x = (float) x; return x == v.d && std::signbit (x) == std::signbit (v.d); }
  if (j.s.find_first_of (".eE") != std::string::npos) return false;
  V y = num_val (j.s); return num_cmp (y, v) == 0 && is_int (y.t);
}
static V array_elem (const V & a, size_t i)
{
  V x (a.et); unsigned z = type_bytes (a.et); const char * p = a.s.data () + i * z; uint64_t u = 0; memcpy (&u, p, z);
  if (is_sgn (a.et)) x.i = (int64_t) (u << (64 - 8 * z)) >> (64 - 8 * z); else if (a.et == IOT_DATA_FLOAT32) { float f; memcpy (&f, p, 4); x.d = f; } else if (a.et == IOT_DATA_FLOAT64) memcpy (&x.d, p, 8); else x.u = u;
  return x;
}
// null when the document is the one documented for the value, else what is wrong. The model lists map entries in iteration order.
static std::string wrong (const J & j, const V & v)
{
  std::string at;
  switch (v.t)
  {
    case EMPTY: case IOT_DATA_NULL: case IOT_DATA_POINTER: return j.k == J::NUL ? "" : "null expected";
    case IOT_DATA_STRING: return j.k == J::STR && j.s == v.s ? "" : "string " + show (v) + " is " + pbt::quoted (j.s);
    case IOT_DATA_BINARY: return j.k == J::STR && j.s == b64 (v.s) ? "" : "binary is " + pbt::quoted (j.s);
    case IOT_DATA_ARRAY:
    {
      size_t n = v.s.size () / type_bytes (v.et); if (j.k != J::ARR || j.a.size () != n) return "array length";
      for (size_t i = 0; i < n; i++) if (!num_ok (j.a[i], array_elem (v, i))) return "array element " + show (array_elem (v, i)) + " is " + j.a[i].s;
      return "";
    }
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
      if (j.k != J::ARR || j.a.size () != v.e.size ()) return "sequence length";
      for (size_t i = 0; i < v.e.size (); i++) if (!(at = wrong (j.a[i], v.e[i])).empty ()) return at;
      return "";
    case IOT_DATA_MAP:
      if (j.k != J::OBJ || j.o.size () != v.m.size ()) return "member count";
      for (size_t i = 0; i < v.m.size (); i++)
      {
        const V & k = v.m[i].first; const std::string & n = j.o[i].first;
        if (k.t == IOT_DATA_STRING) { if (n != k.s) return "key " + show (k) + " is " + pbt::quoted (n); }
        else if (k.t == IOT_DATA_BINARY) { if (n != b64 (k.s)) return "binary key is " + pbt::quoted (n); }
        else { J kj; std::string err; if (!jref::parse (n, kj, err)) return "key " + show (k) + " is " + pbt::quoted (n) + ": " + err; if (!(at = wrong (kj, k)).empty ()) return "key: " + at; }
        if (!(at = wrong (j.o[i].second, v.m[i].second)).empty ()) return at;
      }
      return "";
    default: return num_ok (j, v) ? "" : "number " + show (v) + " is " + j.s;
  }
}
static void check_text (const char * t, const V & v) { J j; std::string err; CHECK (jref::parse (t, j, err), "%s written as %s is not valid JSON: %s", show (v).c_str (), pbt::quoted (t, 2000).c_str (), err.c_str ()); err = wrong (j, v); CHECK (err.empty (), "%s written as %s: %s", show (v).c_str (), pbt::quoted (t, 2000).c_str (), err.c_str ()); }

// the text for a value at every kind of buffer
static void buffers (Src & s, const iot_data_t * d, const std::string & text)
{
  size_t L = text.size (); std::vector<size_t> sizes = { 1 + s.draw (L + 40), L + 1, L ? L : 1, L + 2, 1 + s.draw (32), s.flag () ? L / 2 + 1 : L / 4 + 1 };
  for (size_t z : sizes)
  {
    char * a = iot_data_to_json_with_size (d, (uint32_t) z); CHECK (text == a, "initial size %zu gives %s, default gives %s", z, pbt::quoted (a).c_str (), pbt::quoted (text).c_str ()); free (a);
    if (z >= L + 1 && z >= 32)
    { // not a heap block: it must neither be moved nor written outside
      static char room[1 << 16]; if (z + 64 > sizeof room) continue; memset (room, 0x5a, z + 64); char * r = iot_data_to_json_with_buffer (d, room + 32, (uint32_t) z);
      CHECK (r == room + 32, "buffer of %zu bytes was large enough for %zu and not used", z, L + 1); CHECK (text == r, "in a buffer of %zu: %s", z, pbt::quoted (r).c_str ());
      for (size_t i = 0; i < 32; i++) CHECK (room[i] == 0x5a && room[32 + z + i] == 0x5a, "buffer of %zu bytes written outside", z);
    }
    else
    {
      char * b = (char *) malloc (z); char * r = iot_data_to_json_with_buffer (d, b, (uint32_t) z); CHECK (text == r, "in a heap buffer of %zu: %s", z, pbt::quoted (r).c_str ());
      free (r);
    }
  }
}

TARGET (value, 50000, 2000000, pbt::LEAK)
{
  pbt::setrule ("the value is a container with an element or an array");
  Opt o; o.pointers = true; o.nan = true; o.container_keys = s.chance (1, 4); o.utf8 = s.flag (); o.depth = 4; if (s.chance (1, 3)) o.str_keys = true;
  V v = s.chance (1, 4) ? gen_value (s, o, 1) : gen_container (s, o, 4); Arena ar; iot_data_t * d = build (v, &s, &ar); V v2 = read (d); note ("%s", show (v).c_str ());
  if (v.e.size () + v.m.size () + (v.t == IOT_DATA_ARRAY)) pbt::nontrivial ();
  char * t = iot_data_to_json (d); std::string text = t; free (t); check_text (text.c_str (), v2); buffers (s, d, text);
  V v3 = read (d); CHECK (veq_typed (v2, v3), "writing changed the value"); iot_data_free (d);
  pbt::label_if (text.size () > 512, "over 512 characters"); pbt::label_if (text.size () > 4096, "over 4096 characters");
}

// long texts: growth past the doubling limit
TARGET (large, 1500, 40000, pbt::LEAK)
{
  pbt::setrule ("the text is longer than 4096 characters");
  Opt o; o.utf8 = true; o.elems = 60; o.maxelems = 400; o.depth = 2; V v (s.flag () ? IOT_DATA_VECTOR : IOT_DATA_LIST); size_t n = 1 + s.draw (500); if (s.chance (1, 80)) { size_t k = big_size (s); if (s.flag ()) v.e.push_back (vstr (std::string (k, "ab\n"[s.draw (3)]))); else for (size_t i = 0; i < k; i++) v.e.push_back (vuns (IOT_DATA_UINT32, i)); n = s.draw (3); pbt::label ("very long"); }
  for (size_t i = 0; i < n; i++) { Span sp (s); switch (s.draw (5)) { case 0: v.e.push_back (vstr (std::string (s.draw (3000), "a\"\n\x01"[s.draw (4)]))); break; case 1: v.e.push_back (gen_array (s, 300)); break; case 2: v.e.push_back (vstr (gen_utf8 (s, 200, 50))); break; default: v.e.push_back (gen_any_scalar (s, o)); } }
  iot_data_t * d = build (v); char * t = iot_data_to_json (d); std::string text = t; free (t); note ("%zu elements, %zu characters", n, text.size ()); if (text.size () > 4096) pbt::nontrivial ();
  check_text (text.c_str (), v); buffers (s, d, text); iot_data_free (d);
}

// ordering metadata after the map was edited
TARGET (ordered, 30000, 1200000, pbt::LEAK)
{
  pbt::setrule ("an ordered map was edited before writing");
  std::string t; J j; for (int k = 0; k < 6; k++) { t.clear (); j = gen_doc (s, t, 2, 5); if (j.k == J::OBJ) break; } if (j.k != J::OBJ) { t = "{\"b\":1,\"a\":2}"; std::string e; j = J (); jref::parse (t, j, e); }
  note ("%s", pbt::quoted (t, 1500).c_str ());
  iot_data_t * d = iot_data_from_json_with_ordering (t.c_str (), true); V v = denote (j); std::vector<std::string> order; for (auto & x : j.o) order.push_back (x.first);
  std::vector<std::pair<V, J>> cur; // written value of each key: unedited parts keep their own ordering
  size_t n = s.draw (6); Opt o; o.utf8 = true;
  std::vector<std::pair<std::string, V>> edits; std::vector<std::string> gone;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); std::string k = !order.empty () && s.chance (3, 4) ? s.pick (order) : gen_utf8 (s); V kv = vstr (k);
    if (s.flag ()) { V x = gen_any_scalar (s, o); iot_data_map_add (d, build (kv), build (x)); V * p = find_key (v.m, kv); if (p) *p = x; else v.m.push_back ({ kv, x }); edits.push_back ({ k, x }); }
    else { iot_data_t * b = build (kv); bool was = find_key (v.m, kv); CHECK (iot_data_map_remove (d, b) == was, "remove result"); iot_data_free (b); for (size_t q = 0; q < v.m.size (); q++) if (veq (v.m[q].first, kv)) { v.m.erase (v.m.begin () + (long) q); break; } }
    pbt::nontrivial ();
  }
  iot_data_t * c = nullptr; if (s.flag ()) c = iot_data_copy (d);
  char * w = iot_data_to_json (c ? c : d); std::string text = w; free (w); J r; std::string err; CHECK (jref::parse (text, r, err), "not valid JSON: %s: %s", pbt::quoted (text).c_str (), err.c_str ());
  std::vector<std::string> want; for (auto & k : order) if (find_key (v.m, vstr (k))) want.push_back (k);
  CHECK (r.k == J::OBJ && r.o.size () == want.size (), "%zu members written, %zu ordered keys exist: %s", r.o.size (), want.size (), pbt::quoted (text).c_str ());
  for (size_t i = 0; i < want.size (); i++) { CHECK (r.o[i].first == want[i], "member %zu is %s, should be %s", i, pbt::quoted (r.o[i].first).c_str (), pbt::quoted (want[i]).c_str ());
    const V * x = find_key (v.m, vstr (want[i])); bool edited = false; for (auto & e : edits) if (e.first == want[i]) edited = true;
    if (edited) { std::string e = wrong (r.o[i].second, *x); CHECK (e.empty (), "member %s: %s", want[i].c_str (), e.c_str ()); } else CHECK (veq (denote (r.o[i].second), *x), "member %s has value %s", want[i].c_str (), show (denote (r.o[i].second)).c_str ()); }
  buffers (s, c ? c : d, text); iot_data_free (c); iot_data_free (d);
}

// deeply nested values
TARGET (tower, 1000, 40000, pbt::LEAK)
{
  pbt::setrule ("nested more than 60 levels");
  size_t n = big_depth (s); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; V v = tower (r, n, vf64 (0.5), o); note ("%zu levels", n); if (n > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (v, &s, &ar); V v2 = read (d); char * t = iot_data_to_json (d); std::string text = t; free (t); check_text (text.c_str (), v2); buffers (s, d, text); iot_data_free (d);
}
