// C11: CBOR written for any value, read by an independent decoder.
#include "mutate.h"
#include "iot/iot.h"
using namespace gen;
using pbt::note;

struct Rd
{
  const uint8_t * p, * e; std::string err; bool known = false;   // known: negative integers carry the known finding
  bool bad (const std::string & m) { if (err.empty ()) err = m; return false; }
  // head with the shortest argument
  bool head (int & major, uint64_t & arg, int & info)
  {
    if (p >= e) return bad ("output ends inside an item");
    major = *p >> 5; info = *p & 31; p++;
    if (info < 24) { arg = (uint64_t) info; return true; }
    if (info > 27) return bad ("reserved or indefinite length");
    int n = 1 << (info - 24); if (e - p < n) return bad ("output ends inside a head");
    arg = 0; for (int i = 0; i < n; i++) arg = arg << 8 | *p++;
    if (major == 7) return true;
    uint64_t lim = n == 1 ? 24 : n == 2 ? 0x100 : n == 4 ? 0x10000 : 0x100000000ull;
    return arg < lim ? bad ("argument not in its shortest form") : true;
  }
  bool number (const V & v)
  {
    int m, i; uint64_t a; if (!head (m, a, i)) return false;
    if (v.t == IOT_DATA_BOOL) return m == 7 && i == (v.u ? 21 : 20) ? true : bad ("boolean expected");
    if (v.t == IOT_DATA_FLOAT32) { if (m != 7 || i != 26) return bad ("single float expected for " + show (v)); uint32_t u = (uint32_t) a; float f; memcpy (&f, &u, 4); return ((double) f == v.d && std::signbit (f) == std::signbit (v.d)) || (f != f && v.d != v.d) ? true : bad ("float " + show (v) + " differs"); }
    if (v.t == IOT_DATA_FLOAT64) { if (m != 7 || i != 27) return bad ("double float expected for " + show (v)); double f; memcpy (&f, &a, 8); return (f == v.d && std::signbit (f) == std::signbit (v.d)) || (f != f && v.d != v.d) ? true : bad ("double " + show (v) + " differs"); }
    if (is_uns (v.t) || v.i >= 0) { uint64_t w = is_uns (v.t) ? v.u : (uint64_t) v.i; return m == 0 && a == w ? true : bad ("integer " + show (v) + " differs"); }
    if (m != 1) return bad ("negative integer expected");
    if (a == (uint64_t) - (v.i + 1)) return true;
    if (a == 0 - (uint64_t) v.i) { known = true; return true; }
    return bad ("negative integer " + show (v) + " differs");
  }
  bool item (const V & v)
  {
    int m, i; uint64_t a;
    switch (v.t)
    {
      case EMPTY: case IOT_DATA_NULL: case IOT_DATA_POINTER: if (!head (m, a, i)) return false; return m == 7 && i == 22 ? true : bad ("null expected");
      case IOT_DATA_STRING: case IOT_DATA_BINARY:
        if (!head (m, a, i)) return false; if (m != (v.t == IOT_DATA_STRING ? 3 : 2)) return bad ("string type"); if ((uint64_t) (e - p) < a) return bad ("output ends inside a string");
        if (a != v.s.size () || memcmp (p, v.s.data (), a)) return bad ("bytes of " + show (v) + " differ"); p += a; return true;
      case IOT_DATA_ARRAY:
      {
        size_t n = v.s.size () / type_bytes (v.et); if (!head (m, a, i)) return false; if (m != 4 || a != n) return bad ("array length");
        for (size_t k = 0; k < n; k++)
        {
          V x (v.et); unsigned z = type_bytes (v.et); const char * q = v.s.data () + k * z; uint64_t u = 0; memcpy (&u, q, z);
          if (is_sgn (v.et)) x.i = (int64_t) (u << (64 - 8 * z)) >> (64 - 8 * z); else if (v.et == IOT_DATA_FLOAT32) { float f; memcpy (&f, q, 4); x.d = f; } else if (v.et == IOT_DATA_FLOAT64) memcpy (&x.d, q, 8); else x.u = u;
          if (!number (x)) return false;
        }
        return true;
      }
      case IOT_DATA_VECTOR: case IOT_DATA_LIST:
        if (!head (m, a, i)) return false; if (m != 4 || a != v.e.size ()) return bad ("sequence length");
        for (auto & x : v.e) if (!item (x)) return false;
        return true;
      case IOT_DATA_MAP:
        if (!head (m, a, i)) return false; if (m != 5 || a != v.m.size ()) return bad ("map size");
        for (auto & x : v.m) if (!item (x.first) || !item (x.second)) return false;
        return true;
      default: return number (v);
    }
  }
};
static std::string bytes_of (iot_data_t * b) { CHECK (b && iot_data_type (b) == IOT_DATA_BINARY, "CBOR is not a binary"); std::string r ((const char *) iot_data_address (b), iot_data_array_size (b)); iot_data_free (b); return r; }
static void check_one (Src & s, const iot_data_t * d, const V & model)
{
  std::string c = bytes_of (iot_data_to_cbor (d)); V v = read (d); CHECK (veq (v, model), "writing changed the value"); // read lists map entries in iteration order
  Rd r { (const uint8_t *) c.data (), (const uint8_t *) c.data () + c.size (), "", false }; bool ok = r.item (v);
  CHECK (ok, "%s written as CBOR: %s at byte %zu of %zu", show (v).c_str (), r.err.c_str (), (size_t) (r.p - (const uint8_t *) c.data ()), c.size ());
  CHECK (r.p == r.e, "%zu bytes follow the item of %s", (size_t) (r.e - r.p), show (v).c_str ()); pbt::label_if (r.known, "negative integers");
  std::vector<size_t> sz = { 1 + s.draw (c.size () + 20), c.size (), c.size () + 1, 1, 1 + s.draw (16), c.size () / 2 + 1 };
  for (auto z : sz) CHECK (bytes_of (iot_data_to_cbor_with_size (d, (uint32_t) z)) == c, "initial size %zu gives different CBOR for %s", z, show (v).c_str ());
  pbt::label_if (c.size () > 512, "over 512 bytes"); pbt::label_if (c.size () > 4096, "over 4096 bytes");
}

TARGET (value, 60000, 2500000, pbt::LEAK)
{
  pbt::setrule ("the value is a container with an element, or an array");
  Opt o; o.pointers = true; o.nan = true; o.container_keys = s.chance (1, 4); o.depth = 4; V v = s.chance (1, 4) ? gen_value (s, o, 1) : gen_container (s, o, 4);
  Arena ar; iot_data_t * d = build (v, &s, &ar); note ("%s", show (v).c_str ()); if (v.e.size () + v.m.size () + (v.t == IOT_DATA_ARRAY)) pbt::nontrivial ();
  check_one (s, d, v); iot_data_free (d);
}

TARGET (large, 2000, 60000, pbt::LEAK)
{
  pbt::setrule ("more than 255 elements or a string longer than 255");
  V v (s.flag () ? IOT_DATA_VECTOR : IOT_DATA_LIST); size_t n = s.flag () ? s.draw (40) : 250 + s.draw (40); if (s.chance (1, 40)) n = 65530 + s.draw (12); bool big = n > 255; Opt o;
  if (n > 1000) for (size_t i = 0; i < n; i++) v.e.push_back (vbool (i & 1));
  else for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    switch (s.weighted ({ 6, 2, 1 })) { case 0: v.e.push_back (gen_int (s, (T) s.draw (8))); break; case 1: { size_t k = s.flag () ? s.draw (300) : 250 + s.draw (12); if (s.chance (1, 30)) k = 65530 + s.draw (12); big |= k > 255; v.e.push_back (vstr (std::string (k, 'x'))); break; } default: v.e.push_back (gen_array (s, 300)); break; }
  }
  if (big) pbt::nontrivial (); iot_data_t * d = build (v); note ("%zu elements", n); check_one (s, d, v); iot_data_free (d);
}

PROBE (cbor_negative, "a negative integer n is written as CBOR -1-|n| (argument |n| in place of |n|-1)")
{
  iot_data_t * d = iot_data_alloc_i32 (-5); std::string c = bytes_of (iot_data_to_cbor (d)); iot_data_free (d); CHECK (c == "\x24", "-5 is written as a byte %02x, CBOR of -5 is 24", (unsigned char) c[0]);
}

// deeply nested values
TARGET (tower, 1500, 60000, pbt::LEAK)
{
  pbt::setrule ("nested more than 60 levels");
  size_t n = big_depth (s); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; V v = tower (r, n, vstr ("leaf"), o); note ("%zu levels", n); if (n > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (v, &s, &ar); check_one (s, d, v); iot_data_free (d);
}
