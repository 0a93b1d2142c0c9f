// Exact reference of numeric conversion.
#pragma once
#include "gen.h"
#include <float.h>
#include <fenv.h>
namespace castref {
using namespace gen;
typedef __int128 I;
static const T NUMS[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_BOOL };

static I lo (T t) { return is_sgn (t) ? (I) smin (t) : (I) 0; }
static I hi (T t) { return is_sgn (t) ? (I) smax (t) : (I) umax (t); }

// reference: what converting v to t yields. out.t == EMPTY: refused. either: infinity to 32 bit float is not specified
static V ref (const V & v, T t, bool & either)
{
  either = false; V r; if (!is_num (v.t) || !is_num (t)) return r; if (v.t == t) return v;
  if (is_flt (v.t))
  {
    double d = v.d;
    if (t == IOT_DATA_BOOL) return vbool (!(d == 0));
    if (t == IOT_DATA_FLOAT64) return vf64 (d);
    if (t == IOT_DATA_FLOAT32)
    {
      if (d != d) return vf32 (NAN);
      if (std::isinf (d)) { either = true; return r; }
      if (fabs (d) > (double) FLT_MAX) return r;
      return vf32 ((float) d);
    }
    if (d != d || std::isinf (d)) return r;
    long double x = d;
    if (x < (long double) lo (t) || x > (long double) hi (t)) return r;   // all 64 bit integers are exact in long double
    I n = (I) x; r.t = t; if (is_sgn (t)) r.i = (int64_t) n; else r.u = (uint64_t) n; return r;
  }
  I n = is_sgn (v.t) ? (I) v.i : (I) v.u;
  if (t == IOT_DATA_BOOL) return vbool (n != 0);
  if (t == IOT_DATA_FLOAT64) return vf64 ((double) (long double) n);
  if (t == IOT_DATA_FLOAT32) return vf32 ((float) (long double) n);
  if (n < lo (t) || n > hi (t)) return r;
  r.t = t; if (is_sgn (t)) r.i = (int64_t) n; else r.u = (uint64_t) n; return r;
}

static V unpack (T t, const void * p)
{
  V v (t);
  switch (t)
  {
    case IOT_DATA_INT8: v.i = *(const int8_t *) p; break;
    case IOT_DATA_INT16: { int16_t x; memcpy (&x, p, 2); v.i = x; break; }
    case IOT_DATA_INT32: { int32_t x; memcpy (&x, p, 4); v.i = x; break; }
    case IOT_DATA_INT64: { int64_t x; memcpy (&x, p, 8); v.i = x; break; }
    case IOT_DATA_UINT8: v.u = *(const uint8_t *) p; break;
    case IOT_DATA_UINT16: { uint16_t x; memcpy (&x, p, 2); v.u = x; break; }
    case IOT_DATA_UINT32: { uint32_t x; memcpy (&x, p, 4); v.u = x; break; }
    case IOT_DATA_UINT64: { uint64_t x; memcpy (&x, p, 8); v.u = x; break; }
    case IOT_DATA_FLOAT32: { float x; memcpy (&x, p, 4); v.d = x; break; }
    case IOT_DATA_FLOAT64: { double x; memcpy (&x, p, 8); v.d = x; break; }
    default: v.u = *(const uint8_t *) p; break;
  }
  return v;
}
static bool same (const V & a, const V & b) { return veq (a, b) && !(is_flt (a.t) && a.d == 0 && std::signbit (a.d) != std::signbit (b.d)); }

// a source value near the limits of target type t (when it can be represented in st)
static V near (Src & s, T st, T t)
{
  V v (st);
  long double b = 0;
  if (is_int (t)) b = s.flag () ? (long double) lo (t) : (long double) hi (t);
  else if (t == IOT_DATA_FLOAT32) b = s.draw (3) == 0 ? (long double) FLT_MAX : s.flag () ? (long double) FLT_MIN : ldexpl (1, 24 + (int) s.draw (40));
  else if (t == IOT_DATA_FLOAT64) b = ldexpl (1, 53 + (int) s.draw (12));
  else b = 0;
  if (s.flag ()) b = -b;
  if (is_flt (st))
  {
    double d = (double) b; int k = (int) s.range (-3, 3);
    if (st == IOT_DATA_FLOAT32) { float f = (float) d; for (; k > 0; k--) f = nextafterf (f, INFINITY); for (; k < 0; k++) f = nextafterf (f, -INFINITY); v.d = f; if (s.chance (1, 3)) v.d = (float) (f + (s.flag () ? 0.5f : -0.5f)); }
    else { for (; k > 0; k--) d = nextafter (d, INFINITY); for (; k < 0; k++) d = nextafter (d, -INFINITY); v.d = d; if (s.chance (1, 3)) v.d = d + (s.flag () ? 0.5 : -0.5); else if (s.chance (1, 3)) v.d = d + (double) s.range (-2, 2); }
    return v;
  }
  if (st == IOT_DATA_BOOL) { v.u = s.draw (2); return v; }
  I n = fabsl (b) >= 0x1p64L ? (b < 0 ? lo (st) : hi (st)) : (I) b; n += s.range (-3, 3);
  if (s.chance (1, 4)) n += s.range (-2000, 2000);
  if (n < lo (st)) n = lo (st) + (I) s.draw (3); if (n > hi (st)) n = hi (st) - (I) s.draw (3);
  if (is_sgn (st)) v.i = (int64_t) n; else v.u = (uint64_t) n; return v;
}

}
