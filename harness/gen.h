// Model values: a plain tree mirroring iot_data values, generated from the choice stream, built through the public API
// and read back through the public API.
#pragma once
#include "pbt.h"
#include "iot/data.h"
#include "iot/base64.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string>
#include <vector>
#include <list>
#include <utility>
#include <functional>

namespace gen {
using pbt::Src; using pbt::Span;
typedef uint8_t T;
static const T EMPTY = IOT_DATA_INVALID;   // an empty vector slot

struct V
{
  T t = EMPTY, et = IOT_DATA_MULTI, kt = IOT_DATA_MULTI;
  int64_t i = 0; uint64_t u = 0; double d = 0;   // d holds FLOAT32 exactly too
  const void * p = nullptr;
  std::string s;                        // string, binary or array bytes
  std::vector<V> e;                     // vector elements by index; list elements tail to head
  std::vector<std::pair<V, V>> m;       // map entries, unordered model (insertion order), unique keys
  V () {}
  explicit V (T type) : t (type) {}
};

inline bool is_sgn (T t) { return t == IOT_DATA_INT8 || t == IOT_DATA_INT16 || t == IOT_DATA_INT32 || t == IOT_DATA_INT64; }
inline bool is_uns (T t) { return t == IOT_DATA_UINT8 || t == IOT_DATA_UINT16 || t == IOT_DATA_UINT32 || t == IOT_DATA_UINT64; }
inline bool is_int (T t) { return t <= IOT_DATA_UINT64; }
inline bool is_flt (T t) { return t == IOT_DATA_FLOAT32 || t == IOT_DATA_FLOAT64; }
inline bool is_num (T t) { return t <= IOT_DATA_BOOL; }
inline bool is_comp (T t) { return t >= IOT_DATA_VECTOR && t <= IOT_DATA_MAP; }
inline unsigned type_bytes (T t) { static const unsigned z[] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1, 8, 8, 0, 1 }; return t <= IOT_DATA_BINARY ? z[t] : 0; }
inline unsigned bits (T t) { return type_bytes (t) * 8; }
inline int64_t smin (T t) { unsigned b = bits (t); return b == 64 ? INT64_MIN : -(1ll << (b - 1)); }
inline int64_t smax (T t) { unsigned b = bits (t); return b == 64 ? INT64_MAX : (1ll << (b - 1)) - 1; }
inline uint64_t umax (T t) { unsigned b = bits (t); return b == 64 ? UINT64_MAX : (1ull << b) - 1; }

inline V vint (T t, int64_t x) { V v (t); v.i = x; return v; }
inline V vuns (T t, uint64_t x) { V v (t); v.u = x; return v; }
inline V vf64 (double x) { V v (IOT_DATA_FLOAT64); v.d = x; return v; }
inline V vf32 (float x) { V v (IOT_DATA_FLOAT32); v.d = x; return v; }
inline V vbool (bool x) { V v (IOT_DATA_BOOL); v.u = x; return v; }
inline V vstr (const std::string & x) { V v (IOT_DATA_STRING); v.s = x; return v; }
inline V vnull () { return V (IOT_DATA_NULL); }

inline bool veq (const V & a, const V & b);
inline V * find_key (std::vector<std::pair<V, V>> & m, const V & k) { for (auto & x : m) if (veq (x.first, k)) return &x.second; return nullptr; }
inline const V * find_key (const std::vector<std::pair<V, V>> & m, const V & k) { for (auto & x : m) if (veq (x.first, k)) return &x.second; return nullptr; }

// same type and same contents
inline bool veq (const V & a, const V & b)
{
  if (a.t != b.t) return false;
  switch (a.t)
  {
    case IOT_DATA_INT8: case IOT_DATA_INT16: case IOT_DATA_INT32: case IOT_DATA_INT64: return a.i == b.i;
    case IOT_DATA_UINT8: case IOT_DATA_UINT16: case IOT_DATA_UINT32: case IOT_DATA_UINT64: case IOT_DATA_BOOL: return a.u == b.u;
    case IOT_DATA_FLOAT32: case IOT_DATA_FLOAT64: return a.d == b.d || (a.d != a.d && b.d != b.d);
    case IOT_DATA_POINTER: return a.p == b.p;
    case IOT_DATA_STRING: case IOT_DATA_BINARY: return a.s == b.s;
    case IOT_DATA_ARRAY: return a.et == b.et && a.s == b.s;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
      if (a.e.size () != b.e.size ()) return false;
      for (size_t i = 0; i < a.e.size (); i++) if (!veq (a.e[i], b.e[i])) return false;
      return true;
    case IOT_DATA_MAP:
      if (a.m.size () != b.m.size ()) return false;
      for (auto & x : a.m) { const V * o = find_key (b.m, x.first); if (!o || !veq (x.second, *o)) return false; }
      return true;
    default: return true;
  }
}

// as veq, plus element and key types of containers
inline bool veq_typed (const V & a, const V & b)
{
  if (!veq (a, b)) return false;
  if (is_comp (a.t) && a.et != b.et) return false;
  if (a.t == IOT_DATA_MAP && a.kt != b.kt) return false;
  if (a.t == IOT_DATA_MAP) { for (auto & x : a.m) if (!veq_typed (x.second, *find_key (b.m, x.first))) return false; }
  else for (size_t i = 0; i < a.e.size (); i++) if (!veq_typed (a.e[i], b.e[i])) return false;
  return true;
}

// numeric value comparison of two ints or two floats
inline int num_cmp (const V & a, const V & b)
{
  if (is_int (a.t) && is_int (b.t))
  {
    __int128 x = is_sgn (a.t) ? (__int128) a.i : (__int128) a.u, y = is_sgn (b.t) ? (__int128) b.i : (__int128) b.u;
    return x < y ? -1 : x > y;
  }
  return a.d < b.d ? -1 : a.d > b.d;
}
inline int sgn (int x) { return x < 0 ? -1 : x > 0; }
// reference order of scalars, strings, binaries and arrays; containers of either kind have no documented order (0 when equal, 2 when unknown)
inline int vcmp (const V & a, const V & b, bool by_value = false)
{
  if (a.t == EMPTY || b.t == EMPTY) return a.t == b.t ? 0 : a.t == EMPTY ? -1 : 1;
  if (a.t != b.t)
  {
    if (by_value && ((is_int (a.t) && is_int (b.t)) || (is_flt (a.t) && is_flt (b.t)))) return num_cmp (a, b);
    return a.t < b.t ? -1 : 1;
  }
  if (is_int (a.t) || is_flt (a.t)) return num_cmp (a, b);
  switch (a.t)
  {
    case IOT_DATA_BOOL: return a.u < b.u ? -1 : a.u > b.u;
    case IOT_DATA_POINTER: return a.p < b.p ? -1 : a.p > b.p;
    case IOT_DATA_STRING: return sgn (a.s.compare (b.s));   // char_traits<char> compares as unsigned bytes
    case IOT_DATA_NULL: return 0;
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY: return a.et == b.et && a.s == b.s ? 0 : 2;
    default: break;
  }
  if (a.t == IOT_DATA_MAP)
  {
    if (a.m.size () != b.m.size ()) return 2;
    for (auto & x : a.m) { const V * o = find_key (b.m, x.first); if (!o || vcmp (x.second, *o, by_value)) return 2; }
    return 0;
  }
  if (a.e.size () != b.e.size ()) return 2;
  for (size_t i = 0; i < a.e.size (); i++) if (vcmp (a.e[i], b.e[i], by_value)) return 2;
  return 0;
}

inline std::string show (const V & v, int depth = 0)
{
  char b[64]; static const char * nm[] = { "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bool", "ptr", "str", "null", "bin", "arr", "vec", "list", "map", "multi", "-" };
  if (v.t == EMPTY) return "-";
  if (is_sgn (v.t)) { snprintf (b, sizeof b, "%s:%lld", nm[v.t], (long long) v.i); return b; }
  if (is_uns (v.t) || v.t == IOT_DATA_BOOL) { snprintf (b, sizeof b, "%s:%llu", nm[v.t], (unsigned long long) v.u); return b; }
  if (is_flt (v.t)) { snprintf (b, sizeof b, "%s:%.17g", nm[v.t], v.d); return b; }
  if (v.t == IOT_DATA_POINTER) { snprintf (b, sizeof b, "ptr:%p", v.p); return b; }
  if (v.t == IOT_DATA_STRING) return pbt::quoted (v.s, 60);
  if (v.t == IOT_DATA_NULL) return "null";
  if (v.t == IOT_DATA_BINARY) return "bin" + pbt::quoted (v.s, 40);
  if (v.t == IOT_DATA_ARRAY) return std::string ("arr<") + nm[v.et] + ">" + pbt::quoted (v.s, 40);
  if (depth > 6) return "...";
  std::string r = nm[v.t];
  if (v.et != IOT_DATA_MULTI) r += std::string ("<") + nm[v.et] + ">";
  r += v.t == IOT_DATA_MAP ? "{" : "[";
  size_t n = 0;
  for (auto & x : v.e) { if (n++) r += ","; if (n > 40 || r.size () > 1500) { r += "..."; break; } r += show (x, depth + 1); }
  for (auto & x : v.m) { if (n++) r += ","; if (n > 40 || r.size () > 1500) { r += "..."; break; } r += show (x.first, depth + 1) + "=" + show (x.second, depth + 1); }
  return r + (v.t == IOT_DATA_MAP ? "}" : "]");
}

struct Opt
{
  int depth = 3, key_levels = 4;
  size_t elems = 5;          // typical container size
  size_t maxelems = 12;
  bool pointers = false, empties = true, nan = false, inf = true, utf8 = false, typed = true, container_keys = false, maps = true, lists = true, vectors = true;
  bool str_keys = false;     // only string keys
  bool arrays = true;        // binary and array values
  bool negzero = true;
  uint32_t scalars = 0xffffffffu;   // mask of scalar types
};

// valid UTF-8 without NUL
inline void put_utf8 (std::string & r, uint32_t c)
{
  if (c < 0x80) r += (char) c;
  else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
  else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); }
}
inline uint32_t gen_cp (Src & s)
{
  switch (s.weighted ({ 6, 3, 2, 1, 1, 1 }))
  {
    case 0: return 'a' + (uint32_t) s.draw (26);
    case 1: return 1 + (uint32_t) s.draw (127);
    case 2: return "\"\\/\b\f\n\r\t\x7f "[s.draw (10)];
    case 3: return 0x80 + (uint32_t) s.draw (0x780);
    case 4: { uint32_t c = 0x800 + (uint32_t) s.draw (0xf800); return c >= 0xd800 && c < 0xe000 ? c - 0x1000 : c; }
    default: return 0x10000 + (uint32_t) s.draw (0x100000);
  }
}
inline std::string gen_utf8 (Src & s, size_t max = 60, size_t typ = 6)
{
  std::string r; size_t n = s.len (max, typ);
  for (size_t i = 0; i < n; i++) put_utf8 (r, gen_cp (s));
  return r;
}
inline std::string gen_string (Src & s, const Opt & o)
{
  switch (s.weighted ({ 6, 3, 3, 1 }))
  {
    case 0: { std::string r; size_t n = s.draw (3); for (size_t i = 0; i < n; i++) r += (char) ('a' + s.draw (3)); return r; }
    case 1: if (o.utf8) return gen_utf8 (s); { std::string r; size_t n = s.len (60, 8); for (size_t i = 0; i < n; i++) r += (char) (1 + s.draw (255)); return r; }
    case 2: { // lengths around the inline / block / heap storage limits
        size_t n = 18 + s.draw (36); char c = (char) ('a' + s.draw (26)); std::string r (n, c); if (n) r[s.draw (n)] = 'Q'; return r; }
    default: { size_t n = s.draw (400); return std::string (n, (char) ('A' + s.draw (26))); }
  }
}

inline V gen_int (Src & s, T t)
{
  V v (t);
  if (s.chance (1, 3)) { int64_t k = s.range (-4, 4); if (is_sgn (t)) v.i = k; else v.u = (uint64_t) (k < 0 ? -k : k); return v; }
  uint64_t x = s.u64 ();
  if (is_sgn (t)) { unsigned b = bits (t); v.i = b == 64 ? (int64_t) x : (int64_t) (x << (64 - b)) >> (64 - b); if (s.chance (1, 10)) v.i = s.flag () ? smin (t) : smax (t); }
  else { v.u = x & umax (t); if (s.chance (1, 10)) v.u = umax (t); }
  return v;
}
inline double gen_f64 (Src & s, const Opt & o)
{
  double d = s.dbl ();
  if (!o.inf && std::isinf (d)) d = 1.5;
  if (o.nan && s.chance (1, 12)) d = NAN;
  return d;
}
inline V gen_scalar (Src & s, const Opt & o, T t)
{
  if (is_int (t)) return gen_int (s, t);
  V v (t);
  switch (t)
  {
    case IOT_DATA_FLOAT32:
    {
      if (s.chance (1, 4)) { uint32_t u = (uint32_t) s.draw (1ull << 32); float f; memcpy (&f, &u, 4); v.d = f; } else v.d = (float) gen_f64 (s, o);
      if (v.d != v.d && !o.nan) v.d = 0.25; if (std::isinf (v.d) && !o.inf) v.d = 1.5; if (v.d == 0 && !o.negzero) v.d = 0; break;
    }
    case IOT_DATA_FLOAT64: v.d = gen_f64 (s, o); if (v.d == 0 && !o.negzero) v.d = 0; break;
    case IOT_DATA_BOOL: v.u = s.draw (2); break;
    case IOT_DATA_STRING: v.s = gen_string (s, o); break;
    case IOT_DATA_POINTER: v.p = (const void *) ((uintptr_t) (0x1000 + 16 * s.draw (8)) + ((uintptr_t) (s.chance (1, 3) ? s.pick<uint64_t> ({ 1, 2, 0x80000000u, 0xffffffffu }) : 0u) << 32)); break;
    default: break;
  }
  return v;
}
inline T gen_elem_type (Src & s) { return (T) s.draw (IOT_DATA_BOOL + 1); }
inline V gen_array (Src & s, size_t maxn = 40)
{
  V v (s.chance (1, 3) ? IOT_DATA_BINARY : IOT_DATA_ARRAY);
  v.et = v.t == IOT_DATA_BINARY ? IOT_DATA_UINT8 : gen_elem_type (s);
  size_t n = s.len (maxn, 4); unsigned z = type_bytes (v.et);
  for (size_t i = 0; i < n; i++)
  {
    char b[8];
    if (is_int (v.et)) { V x = gen_int (s, v.et); uint64_t u = is_sgn (v.et) ? (uint64_t) x.i : x.u; memcpy (b, &u, 8); }
    else if (v.et == IOT_DATA_FLOAT32) { Opt o; float f = (float) gen_scalar (s, o, IOT_DATA_FLOAT32).d; memcpy (b, &f, 4); }
    else if (v.et == IOT_DATA_FLOAT64) { double d = s.dbl (); memcpy (b, &d, 8); }
    else b[0] = (char) s.draw (2);
    v.s.append (b, z);
  }
  return v;
}
inline V gen_any_scalar (Src & s, const Opt & o)
{
  static const T ts[] = { IOT_DATA_INT32, IOT_DATA_STRING, IOT_DATA_BOOL, IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_NULL, IOT_DATA_STRING, IOT_DATA_INT64 };
  for (int k = 0; k < 8; k++)
  {
    if (o.pointers && s.chance (1, 16)) return gen_scalar (s, o, IOT_DATA_POINTER);
    T t = ts[s.draw (sizeof ts)];
    if (o.scalars >> t & 1) return gen_scalar (s, o, t);
  }
  for (T t = 0; t <= IOT_DATA_NULL; t++) if (t != IOT_DATA_POINTER && (o.scalars >> t & 1)) return gen_scalar (s, o, t);
  return vbool (false);
}
inline V gen_value (Src & s, const Opt & o, int depth);
inline V gen_key (Src & s, const Opt & o)
{
  if (o.str_keys) { V v (IOT_DATA_STRING); v.s = gen_string (s, o); return v; }
  for (int k = 0; k < 10; k++)
  {
    Opt ko = o; if (o.container_keys) ko.container_keys = --ko.key_levels > 0;   // keys of keys: each level doubles the length of its text
    V v = o.container_keys && s.chance (1, 8) ? gen_value (s, ko, 1) : o.arrays && s.chance (1, 10) ? gen_array (s, 4) : gen_any_scalar (s, o);
    if (v.t != EMPTY) return v;   // NaN excluded by opt unless asked for
  }
  return vint (IOT_DATA_INT32, 1);
}
inline V gen_of_type (Src & s, const Opt & o, int depth, T t)
{
  if (t <= IOT_DATA_NULL) return gen_scalar (s, o, t);
  if (t == IOT_DATA_ARRAY || t == IOT_DATA_BINARY) { V v = gen_array (s); if (t == IOT_DATA_BINARY) { v.t = t; v.et = IOT_DATA_UINT8; } else v.t = t; return v; }
  V v (t);
  size_t n = s.len (o.maxelems, o.elems);
  if (o.typed && s.chance (1, 5)) v.et = (T) s.weighted ({ 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 });
  if (o.typed && v.et == IOT_DATA_MULTI && s.chance (1, 12)) v.et = IOT_DATA_STRING;
  if (v.et != IOT_DATA_MULTI && !(o.scalars >> v.et & 1)) v.et = IOT_DATA_MULTI;
  if (t == IOT_DATA_MAP && o.typed && s.chance (1, 3)) v.kt = IOT_DATA_STRING;
  if (o.str_keys && t == IOT_DATA_MAP) v.kt = IOT_DATA_STRING;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    if (t == IOT_DATA_MAP)
    {
      Opt ko = o; if (v.kt == IOT_DATA_STRING) ko.str_keys = true;
      V k = gen_key (s, ko);
      V x = v.et == IOT_DATA_MULTI ? gen_value (s, o, depth - 1) : gen_scalar (s, o, v.et);
      if (!find_key (v.m, k)) v.m.push_back ({ k, x });
    }
    else if (t == IOT_DATA_VECTOR && o.empties && s.chance (1, 8)) v.e.push_back (V ());
    else v.e.push_back (v.et == IOT_DATA_MULTI ? gen_value (s, o, depth - 1) : gen_scalar (s, o, v.et));
  }
  return v;
}
inline V gen_container (Src & s, const Opt & o, int depth)
{
  for (int k = 0; k < 8; k++)
    switch (s.weighted ({ 2, 2, 3 }))
    {
      case 0: if (o.vectors) return gen_of_type (s, o, depth, IOT_DATA_VECTOR); break;
      case 1: if (o.lists) return gen_of_type (s, o, depth, IOT_DATA_LIST); break;
      default: if (o.maps) return gen_of_type (s, o, depth, IOT_DATA_MAP); break;
    }
  return gen_any_scalar (s, o);
}
inline V gen_value (Src & s, const Opt & o, int depth)
{
  switch (s.weighted ({ 5, (unsigned) (o.arrays ? 1 : 0), (unsigned) (depth > 0 ? 3 : 0) }))
  {
    case 0: return gen_any_scalar (s, o);
    case 1: return gen_array (s);
    default: return gen_container (s, o, depth);
  }
}

// buffers that outlive the values of a case (for referenced strings and arrays)
struct Arena { std::list<std::string> keep; const char * str (const std::string & x) { keep.push_back (x); return keep.back ().c_str (); } };

enum { OWN_COPY, OWN_MIX };
// build the value through the public API; with a source, ownership modes and build orders are varied
inline iot_data_t * build (const V & v, Src * s = nullptr, Arena * ar = nullptr)
{
  switch (v.t)
  {
    case IOT_DATA_INT8: return iot_data_alloc_i8 ((int8_t) v.i);
    case IOT_DATA_UINT8: return iot_data_alloc_ui8 ((uint8_t) v.u);
    case IOT_DATA_INT16: return iot_data_alloc_i16 ((int16_t) v.i);
    case IOT_DATA_UINT16: return iot_data_alloc_ui16 ((uint16_t) v.u);
    case IOT_DATA_INT32: return iot_data_alloc_i32 ((int32_t) v.i);
    case IOT_DATA_UINT32: return iot_data_alloc_ui32 ((uint32_t) v.u);
    case IOT_DATA_INT64: return iot_data_alloc_i64 (v.i);
    case IOT_DATA_UINT64: return iot_data_alloc_ui64 (v.u);
    case IOT_DATA_FLOAT32: return iot_data_alloc_f32 ((float) v.d);
    case IOT_DATA_FLOAT64: return iot_data_alloc_f64 (v.d);
    case IOT_DATA_BOOL: return iot_data_alloc_bool (v.u != 0);
    case IOT_DATA_NULL: return iot_data_alloc_null ();
    case IOT_DATA_POINTER: return iot_data_alloc_pointer ((void *) v.p, nullptr);
    case IOT_DATA_STRING:
    {
      unsigned own = s ? (unsigned) s->draw (ar ? 3 : 2) : 0;
      if (own == 1) return iot_data_alloc_string (strdup (v.s.c_str ()), IOT_DATA_TAKE);
      if (own == 2) return iot_data_alloc_string (ar->str (v.s), IOT_DATA_REF);
      return iot_data_alloc_string (v.s.c_str (), IOT_DATA_COPY);
    }
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
    {
      uint32_t len = (uint32_t) (v.s.size () / type_bytes (v.et));
      unsigned own = s ? (unsigned) s->draw (ar ? 3 : 2) : 0;
      void * p = nullptr; iot_data_ownership_t o = IOT_DATA_COPY;
      if (len == 0) p = nullptr;
      else if (own == 1) { p = malloc (v.s.size ()); memcpy (p, v.s.data (), v.s.size ()); o = IOT_DATA_TAKE; }
      else if (own == 2) { p = (void *) ar->str (v.s); o = IOT_DATA_REF; }
      else p = (void *) v.s.data ();
      return v.t == IOT_DATA_BINARY ? iot_data_alloc_binary (p, len, o) : iot_data_alloc_array (p, len, (iot_data_type_t) v.et, o);
    }
    case IOT_DATA_VECTOR:
    {
      iot_data_t * r = v.et == IOT_DATA_MULTI ? iot_data_alloc_vector ((uint32_t) v.e.size ()) : iot_data_alloc_typed_vector ((uint32_t) v.e.size (), (iot_data_type_t) v.et);
      for (size_t i = 0; i < v.e.size (); i++) if (v.e[i].t != EMPTY) iot_data_vector_add (r, (uint32_t) i, build (v.e[i], s, ar));
      return r;
    }
    case IOT_DATA_LIST:
    {
      iot_data_t * r = v.et == IOT_DATA_MULTI ? iot_data_alloc_list () : iot_data_alloc_typed_list ((iot_data_type_t) v.et);
      bool rev = s && s->flag ();
      if (rev) for (size_t i = v.e.size (); i-- > 0; ) iot_data_list_tail_push (r, build (v.e[i], s, ar));
      else for (auto & x : v.e) iot_data_list_head_push (r, build (x, s, ar));
      return r;
    }
    case IOT_DATA_MAP:
    {
      iot_data_t * r = v.et == IOT_DATA_MULTI ? iot_data_alloc_map ((iot_data_type_t) v.kt) : iot_data_alloc_typed_map ((iot_data_type_t) v.kt, (iot_data_type_t) v.et);
      bool rev = s && s->flag ();
      if (rev) for (size_t i = v.m.size (); i-- > 0; ) iot_data_map_add (r, build (v.m[i].first, s, ar), build (v.m[i].second, s, ar));
      else for (auto & x : v.m) iot_data_map_add (r, build (x.first, s, ar), build (x.second, s, ar));
      return r;
    }
    default: return nullptr;
  }
}

inline V read (const iot_data_t * d)
{
  V v; if (!d) return v;
  v.t = iot_data_type (d);
  iot_typecode_t tc; iot_data_typecode (d, &tc);
  switch (v.t)
  {
    case IOT_DATA_INT8: v.i = iot_data_i8 (d); break;
    case IOT_DATA_UINT8: v.u = iot_data_ui8 (d); break;
    case IOT_DATA_INT16: v.i = iot_data_i16 (d); break;
    case IOT_DATA_UINT16: v.u = iot_data_ui16 (d); break;
    case IOT_DATA_INT32: v.i = iot_data_i32 (d); break;
    case IOT_DATA_UINT32: v.u = iot_data_ui32 (d); break;
    case IOT_DATA_INT64: v.i = iot_data_i64 (d); break;
    case IOT_DATA_UINT64: v.u = iot_data_ui64 (d); break;
    case IOT_DATA_FLOAT32: v.d = iot_data_f32 (d); break;
    case IOT_DATA_FLOAT64: v.d = iot_data_f64 (d); break;
    case IOT_DATA_BOOL: v.u = iot_data_bool (d); break;
    case IOT_DATA_POINTER: v.p = iot_data_pointer (d); break;
    case IOT_DATA_STRING: v.s = iot_data_string (d); break;
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
      v.et = iot_data_array_type (d);
      if (iot_data_array_size (d)) v.s.assign ((const char *) iot_data_address (d), iot_data_array_size (d));
      break;
    case IOT_DATA_VECTOR:
      v.et = tc.element_type;
      for (uint32_t i = 0; i < iot_data_vector_size (d); i++) v.e.push_back (read (iot_data_vector_get (d, i)));
      break;
    case IOT_DATA_LIST:
    {
      v.et = tc.element_type; iot_data_list_iter_t it; iot_data_list_iter (d, &it);
      while (iot_data_list_iter_next (&it)) v.e.push_back (read (iot_data_list_iter_value (&it)));
      break;
    }
    case IOT_DATA_MAP:
    {
      v.et = tc.element_type; v.kt = tc.key_type; iot_data_map_iter_t it; iot_data_map_iter (d, &it);
      while (iot_data_map_iter_next (&it)) v.m.push_back ({ read (iot_data_map_iter_key (&it)), read (iot_data_map_iter_value (&it)) });
      break;
    }
    default: break;
  }
  return v;
}

inline bool has_nan (const V & v)
{
  if (is_flt (v.t)) return v.d != v.d;
  for (auto & x : v.e) if (has_nan (x)) return true;
  for (auto & x : v.m) if (has_nan (x.first) || has_nan (x.second)) return true;
  return false;
}
// a value reached by operations equals one built directly from the same contents
inline void fresh_check (Src & s, const iot_data_t * d, const V & m, const char * when)
{
  if (has_nan (m)) return;
  Arena ar; iot_data_t * twin = build (m, &s, &ar); bool first = s.flag ();
  if (first) CHECK (iot_data_hash (d) == iot_data_hash (twin), "%s: hashes to %u, a value built with the same contents to %u", when, iot_data_hash (d), iot_data_hash (twin));
  CHECK (iot_data_compare (d, twin) == 0 && iot_data_compare (twin, d) == 0, "%s: compares different from a value built with the same contents", when);
  CHECK (iot_data_equal (d, twin) && iot_data_equal (twin, d), "%s: not equal to a value built with the same contents", when);
  iot_data_free (twin);
}
inline size_t vsize (const V & v) { size_t n = 1; for (auto & x : v.e) n += vsize (x); for (auto & x : v.m) n += vsize (x.first) + vsize (x.second); return n; }
// sizes around the powers of two at which narrower counters and fixed buffers give way
inline size_t big_size (Src & s, size_t cap = 140000)
{
  static const size_t P[] = { 250, 510, 1020, 2044, 4092, 8188, 32764, 65530, 65530, 65536, 131068 };
  size_t k = 0; while (k < 11 && P[k] + 10 <= cap) k++; return P[s.draw (k)] + s.draw (10);
}
// nesting depths around the same powers, and a value nested that deep with a few neighbours at every level
inline size_t big_depth (Src & s, size_t cap = 1030)
{
  static const size_t P[] = { 4, 12, 28, 60, 124, 252, 508, 1018 };
  size_t k = 0; while (k < 8 && P[k] + 10 <= cap) k++; return P[s.draw (k)] + s.draw (10);
}
struct Tower { bool maps = true, lists = true, vectors = true; size_t sib = 2; };
inline V tower (uint32_t r, size_t n, V leaf, const Tower & o, size_t from = SIZE_MAX, uint32_t shift = 0)   // numbers above level `from` are shifted
{
  for (size_t i = 0; i < n; i++)
  {
    auto nx = [&] () { r = r * 1664525u + 1013904223u; return r >> 12; };
    T ts[3]; size_t k = 0; if (o.vectors) ts[k++] = IOT_DATA_VECTOR; if (o.maps) ts[k++] = IOT_DATA_MAP; if (o.lists) ts[k++] = IOT_DATA_LIST;
    V v (ts[nx () % k]); size_t m = nx () % (o.sib + 1), at = nx () % (m + 1); if (v.t == IOT_DATA_MAP) v.kt = IOT_DATA_STRING;
    for (size_t j = 0; j <= m; j++)
    {
      V x = j == at ? std::move (leaf) : vuns (IOT_DATA_UINT32, 10 + nx () % 7 + (i == from ? shift : 0));
      if (v.t == IOT_DATA_MAP) v.m.push_back ({ vstr (std::string (1, (char) ('a' + j))), std::move (x) }); else v.e.push_back (std::move (x));
    }
    leaf = std::move (v);
  }
  return leaf;
}
inline uint32_t scramble (uint32_t i, uint32_t mul) { return i * (mul | 1); }     // a bijection
inline int vdepth (const V & v) { int n = 0; for (auto & x : v.e) n = std::max (n, vdepth (x)); for (auto & x : v.m) n = std::max (n, vdepth (x.second)); return n + 1; }

}
