// C16: arrays and binaries against a byte vector model.
#include "gen.h"
#include <float.h>
#include <algorithm>
using namespace gen; using pbt::note;
typedef __int128 I;

static std::string raw_of (const V & v) { std::string r (type_bytes (v.t), 0); switch (v.t) { case IOT_DATA_FLOAT32: { float f = (float) v.d; memcpy (&r[0], &f, 4); break; } case IOT_DATA_FLOAT64: memcpy (&r[0], &v.d, 8); break; default: if (is_sgn (v.t)) memcpy (&r[0], &v.i, r.size ()); else memcpy (&r[0], &v.u, r.size ()); } return r; }
static V elem (T t, const char * p)
{
  V v (t); uint64_t x = 0; memcpy (&x, p, type_bytes (t));
  if (t == IOT_DATA_FLOAT32) { float f; memcpy (&f, p, 4); v.d = f; } else if (t == IOT_DATA_FLOAT64) memcpy (&v.d, p, 8);
  else if (is_sgn (t)) { unsigned b = bits (t); v.i = (int64_t) (x << (64 - b)) >> (64 - b); } else v.u = x;
  return v;
}
// exact conversion, as C14
static bool conv (const V & v, T t, std::string & out)
{
  V r (t);
  if (t == v.t) { out = raw_of (v); return true; }
  if (is_flt (v.t))
  {
    double d = v.d;
    if (t == IOT_DATA_BOOL) r.u = !(d == 0); else if (t == IOT_DATA_FLOAT64) r.d = d;
    else if (t == IOT_DATA_FLOAT32) { if (fabs (d) > (double) FLT_MAX) return false; r.d = (float) d; }
    else { if (d != d) return false; long double x = d, l = is_sgn (t) ? (long double) smin (t) : 0, h = is_sgn (t) ? (long double) smax (t) : (long double) umax (t); if (x < l || x > h) return false; I n = (I) x; if (is_sgn (t)) r.i = (int64_t) n; else r.u = (uint64_t) n; }
  }
  else
  {
    I n = is_sgn (v.t) ? (I) v.i : (I) v.u;
    if (t == IOT_DATA_BOOL) r.u = n != 0; else if (is_flt (t)) r.d = t == IOT_DATA_FLOAT32 ? (double) (float) (long double) n : (double) (long double) n;
    else { I l = is_sgn (t) ? (I) smin (t) : 0, h = is_sgn (t) ? (I) smax (t) : (I) umax (t); if (n < l || n > h) return false; if (is_sgn (t)) r.i = (int64_t) n; else r.u = (uint64_t) n; }
  }
  out = raw_of (r); return true;
}

struct A { iot_data_t * d; T et; std::string b; bool bin; int own; unsigned refs; char * borrowed; std::string borrowed_copy; };

static std::string bytes_for (Src & s, T et, size_t n)
{
  std::string r; Opt o; o.nan = true; o.inf = true; o.negzero = true; bool rnd = s.flag () && n > 8;
  if (rnd && et != IOT_DATA_BOOL) { uint64_t x = s.raw64 () | 1; r.resize (n * type_bytes (et)); for (auto & c : r) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char) (x >> 56); } return r; }
  for (size_t i = 0; i < n; i++) { r += raw_of (gen_scalar (s, o, et)); if (n > 60 && i > 40) { size_t k = r.size (); r.resize (n * type_bytes (et)); for (size_t j = k; j < r.size (); j++) r[j] = r[j - k]; break; } }
  return r;
}
static void verify (const A & a)
{
  const iot_data_t * d = a.d; uint32_t es = type_bytes (a.et), n = (uint32_t) (a.b.size () / es);
  CHECK (iot_data_type (d) == (a.bin ? IOT_DATA_BINARY : IOT_DATA_ARRAY), "type changed");
  CHECK (iot_data_array_type (d) == a.et && iot_data_array_is_of_type (d, (iot_data_type_t) a.et) && !iot_data_array_is_of_type (d, (iot_data_type_t) (a.et + 1)), "element type is %u, expected %u", iot_data_array_type (d), a.et);
  CHECK (iot_data_length (d) == n, "generic length is %u, expected %u", iot_data_length (d), n); CHECK (iot_data_array_length (d) == n, "length is %u, expected %u", iot_data_array_length (d), n); CHECK (iot_data_array_size (d) == a.b.size (), "size is %u, expected %zu", iot_data_array_size (d), a.b.size ());
  if (n) CHECK (!memcmp (iot_data_address (d), a.b.data (), a.b.size ()), "contents differ");
  CHECK (iot_data_ref_count (d) == a.refs, "reference count is %u, expected %u", iot_data_ref_count (d), a.refs);
  if (a.borrowed) CHECK (!memcmp (a.borrowed, a.borrowed_copy.data (), a.borrowed_copy.size ()), "borrowed buffer written");
  if (a.own == IOT_DATA_REF && n && a.borrowed) CHECK (iot_data_address (d) == a.borrowed, "referenced buffer was not referenced");
}
static A create (Src & s, int depth = 0)
{
  A a; a.bin = s.chance (1, 3); a.et = a.bin ? (T) IOT_DATA_UINT8 : (T) s.draw (IOT_DATA_BOOL + 1); a.own = (int) s.draw (3); a.refs = 1; a.borrowed = nullptr;
  size_t n = s.chance (1, 3000) ? big_size (s) : s.len (s.chance (1, 10) ? 3000 : 60, 6); a.b = bytes_for (s, a.et, n); pbt::label_if (n > 60000, "over 60000 elements");
  char * p = a.b.empty () ? (s.flag () ? NULL : (char *) malloc (1)) : (char *) malloc (a.b.size ()); if (p) memcpy (p, a.b.data (), a.b.size ());
  a.d = a.bin ? iot_data_alloc_binary (p, (uint32_t) n, (iot_data_ownership_t) a.own) : iot_data_alloc_array (p, (uint32_t) n, (iot_data_type_t) a.et, (iot_data_ownership_t) a.own);
  if (a.own == IOT_DATA_COPY) { if (p) { memset (p, 0xdd, a.b.size ()); free (p); } } else if (a.own == IOT_DATA_REF) { a.borrowed = p; a.borrowed_copy = a.b; }
  note ("create %s of %zu %s, ownership %d", a.bin ? "binary" : "array", n, iot_data_type_string ((iot_data_type_t) a.et), a.own);
  return a;
}
static void walk (Src & s, const A & a)
{
  iot_data_array_iter_t it; iot_data_array_iter (a.d, &it); size_t es = type_bytes (a.et); long n = (long) (a.b.size () / es), pos = n, steps = (long) s.len (40, 8) + 1; bool drift = s.flag ();
  if (s.chance (1, 4)) steps = n + 2;
  for (long i = 0; i < steps; i++)
  {
    bool fwd = drift ? !s.chance (1, 5) : s.chance (1, 5);
    bool hn = iot_data_array_iter_has_next (&it), want_hn = pos == n ? n > 0 : pos + 1 < n; CHECK (hn == want_hn, "has_next is %d at position %ld of %ld", hn, pos, n);
    bool r = fwd ? iot_data_array_iter_next (&it) : iot_data_array_iter_prev (&it);
    if (fwd) pos = pos == n ? 0 : pos + 1; else pos = pos == 0 ? n : pos - 1; if (n == 0) pos = 0;
    CHECK (r == (pos < n), "iteration step returned %d at position %ld of %ld", r, pos, n);
    const void * v = iot_data_array_iter_value (&it);
    if (pos < n) { CHECK (iot_data_array_iter_index (&it) == (uint32_t) pos, "index is %u, expected %ld", iot_data_array_iter_index (&it), pos); CHECK (v && !memcmp (v, a.b.data () + (size_t) pos * es, es), "element %ld differs", pos); } else CHECK (!v, "value beyond the end");
  }
}

TARGET (history, 800000, 5000000, pbt::LEAK)
{
  pbt::setrule ("the value has elements and at least three operations ran");
  A a = create (s); verify (a); std::vector<A> others; size_t ops = s.len (12, 5) + 1, ran = 0; bool had = !a.b.empty ();
  for (size_t i = 0; i < ops; i++)
  {
    Span sp (s); ran++; size_t es = type_bytes (a.et);
    switch (s.draw (11))
    {
      case 0: note ("walk"); walk (s, a); break;
      case 1: note ("add reference"); iot_data_add_ref (a.d); a.refs++; break;
      case 2: if (a.refs > 1) { note ("drop reference"); iot_data_free (a.d); a.refs--; } break;
      case 3:
      {
        uint32_t len = 77; void * p = iot_data_binary_take (a.d, &len); bool sole = a.refs == 1 && a.own != IOT_DATA_REF && !a.b.empty ();
        note ("take%s", sole ? "" : " of a shared or borrowed buffer"); pbt::label_if (!sole && !a.b.empty (), "take shared"); pbt::label_if (sole, "take owned");
        CHECK (len == a.b.size (), "take reports %u bytes, expected %zu", len, a.b.size ()); if (len) CHECK (p && !memcmp (p, a.b.data (), len), "taken buffer differs");
        if (len) memset (p, 0x77, len); free (p); if (sole) a.b.clear (); break;
      }
      case 4: if (a.et == IOT_DATA_UINT8) { note ("to binary"); iot_data_array_to_binary (a.d); a.bin = true; } break;
      case 5: if (a.et == IOT_DATA_UINT8) { note ("to array"); iot_data_binary_to_array (a.d); a.bin = false; } break;
      case 6:
        if (!a.bin)
        {
          T t = (T) s.draw (IOT_DATA_BOOL + 1); note ("transform to %s", iot_data_type_string ((iot_data_type_t) t)); std::string want, x; bool inf32 = false;
          for (size_t k = 0; k < a.b.size (); k += es) { V e = elem (a.et, a.b.data () + k); if (t == IOT_DATA_FLOAT32 && a.et == IOT_DATA_FLOAT64 && std::isinf (e.d)) inf32 = true; if (conv (e, t, x)) want += x; }
          iot_data_t * r = iot_data_array_transform (a.d, (iot_data_type_t) t); CHECK (r, "transform returned nothing");
          CHECK (iot_data_type (r) == IOT_DATA_ARRAY && iot_data_array_type (r) == t, "transform gives another type");
          if (!inf32)
          {
            CHECK (iot_data_array_size (r) == want.size (), "transform gives %u bytes, expected %zu", iot_data_array_size (r), want.size ()); const char * p = (const char *) iot_data_address (r);
            for (size_t k = 0; k < want.size (); k += type_bytes (t)) { V g = elem (t, p + k), w = elem (t, want.data () + k); CHECK (veq (g, w), "element %zu transforms to %s, expected %s", k / type_bytes (t), show (g).c_str (), show (w).c_str ()); }
            pbt::label_if (want.size () / type_bytes (t) != a.b.size () / es, "transform drops elements");
          }
          iot_data_free (r);
        }
        break;
      case 7:
        if (a.bin)
        {
          note ("string from binary and back"); iot_data_t * str = iot_data_string_from_binary (a.d); std::string want = a.b.c_str (); CHECK (want == iot_data_string (str), "string from binary differs");
          if (a.b.find ('\0') == std::string::npos) pbt::label ("string without zero bytes");
          iot_data_t * b = iot_data_binary_from_string (str); CHECK (iot_data_type (b) == IOT_DATA_BINARY && iot_data_array_size (b) == want.size () && (want.empty () || !memcmp (iot_data_address (b), want.data (), want.size ())), "binary from string differs"); iot_data_free (str); iot_data_free (b);
        }
        break;
      case 8:
      {
        note ("copy"); A c = a; c.refs = 1; if (a.own != IOT_DATA_REF || a.b.empty ()) { c.own = IOT_DATA_COPY; c.borrowed = nullptr; } // a copy of a borrowed buffer borrows it too
        c.d = iot_data_copy (a.d); CHECK (iot_data_equal (a.d, c.d) && iot_data_hash (a.d) == iot_data_hash (c.d), "copy differs"); if (others.size () < 3) others.push_back (c); else { verify (c); iot_data_free (c.d); } break;
      }
      case 9:
      {
        note ("compare with a fresh twin"); iot_data_t * t = a.bin ? iot_data_alloc_binary (&a.b[0], (uint32_t) a.b.size (), IOT_DATA_COPY) : iot_data_alloc_array (&a.b[0], (uint32_t) (a.b.size () / es), (iot_data_type_t) a.et, IOT_DATA_COPY);
        CHECK (iot_data_equal (a.d, t) && iot_data_compare (t, a.d) == 0 && iot_data_hash (t) == iot_data_hash (a.d), "not equal to a fresh value with the same contents"); iot_data_free (t); break;
      }
      default: if (!others.empty ()) { note ("swap with the copy"); std::swap (a, others[s.draw (others.size ())]); } break;
    }
    verify (a); for (auto & x : others) verify (x);
  }
  if (had && ran >= 3) pbt::nontrivial ();
  others.push_back (a);
  for (auto & x : others) { for (; x.refs > 1; x.refs--) { iot_data_free (x.d); x.refs--; verify (x); x.refs++; } iot_data_free (x.d); }
  std::vector<char *> gone; for (auto & x : others) if (x.borrowed && std::find (gone.begin (), gone.end (), x.borrowed) == gone.end ()) { gone.push_back (x.borrowed); CHECK (!memcmp (x.borrowed, x.borrowed_copy.data (), x.borrowed_copy.size ()), "borrowed buffer written when freed"); free (x.borrowed); }
}

TARGET (strings, 300000, 2000000, pbt::LEAK)
{
  pbt::setrule ("at least one character");
  Opt o; std::string t = s.chance (1, 1500) ? std::string (big_size (s), 'b') : s.chance (1, 4) ? s.bytes (3000, 300) : gen_string (s, o); for (auto & c : t) if (!c) c = 1;
  note ("%s", pbt::quoted (t).c_str ()); if (!t.empty ()) pbt::nontrivial (); iot_data_t * str = iot_data_alloc_string (t.c_str (), s.flag () ? IOT_DATA_COPY : IOT_DATA_REF);
  iot_data_t * bin = iot_data_binary_from_string (str); CHECK (iot_data_type (bin) == IOT_DATA_BINARY && iot_data_array_type (bin) == IOT_DATA_UINT8 && iot_data_array_length (bin) == t.size () && (t.empty () || !memcmp (iot_data_address (bin), t.data (), t.size ())), "binary from string differs");
  CHECK (t == iot_data_string (str) && iot_data_ref_count (str) == 1 && iot_data_ref_count (bin) == 1, "string changed or shared"); iot_data_free (str);
  if (s.flag ()) { iot_data_binary_to_array (bin); CHECK (iot_data_type (bin) == IOT_DATA_ARRAY, "not an array"); iot_data_array_to_binary (bin); CHECK (iot_data_type (bin) == IOT_DATA_BINARY, "not a binary"); }
  iot_data_t * back = iot_data_string_from_binary (bin); CHECK (iot_data_type (back) == IOT_DATA_STRING && t == iot_data_string (back), "string did not survive"); iot_data_t * twin = iot_data_alloc_string (t.c_str (), IOT_DATA_REF); CHECK (iot_data_equal (back, twin) && iot_data_hash (back) == iot_data_hash (twin), "string from binary not equal to the string");
  iot_data_free (bin); CHECK (t == iot_data_string (back), "string depends on the binary"); iot_data_free (back); iot_data_free (twin);
}
