// One random in-place mutation of a value through the public API, mirrored in the model.
#pragma once
#include "gen.h"
#include <algorithm>
namespace gen {

inline V elem_for (Src & s, const Opt & o, const V & c) { return c.et == IOT_DATA_MULTI ? gen_value (s, o, 1) : gen_scalar (s, o, c.et); }
inline bool match_fn (const iot_data_t * d, const void * arg) { return d && veq (read (d), *(const V *) arg); }

// the scalar types that can be incremented without overflow in the model
inline bool can_inc (const V & v, bool inc)
{
  if (is_sgn (v.t)) return inc ? v.i < smax (v.t) : v.i > smin (v.t);
  if (is_uns (v.t)) return inc ? v.u < umax (v.t) : v.u > 0;
  return is_flt (v.t);
}
inline void model_inc (V & v, bool inc)
{
  if (is_sgn (v.t)) v.i += inc ? 1 : -1;
  else if (is_uns (v.t)) v.u += inc ? 1 : (uint64_t) -1;
  else if (v.t == IOT_DATA_FLOAT32) v.d = (float) v.d + (inc ? 1.0f : -1.0f);
  else v.d += inc ? 1 : -1;
}

// returns a short description, or null when nothing was done
inline const char * mutate (Src & s, iot_data_t * d, V & m, const Opt & o)
{
  switch (m.t)
  {
    case IOT_DATA_MAP:
    {
      Opt ko = o; if (m.kt == IOT_DATA_STRING) ko.str_keys = true;
      switch (s.weighted ({ 4, 3, 3, 2, 1, 1, 1 }))
      {
        case 0: { V k = !m.m.empty () && s.flag () ? s.pick (m.m).first : gen_key (s, ko), x = elem_for (s, o, m);
          iot_data_map_add (d, build (k, &s), build (x, &s)); V * p = find_key (m.m, k); if (p) *p = x; else m.m.push_back ({ k, x }); return "map add"; }
        case 1: { if (m.m.empty ()) return nullptr; size_t i = s.draw (m.m.size ()); iot_data_t * k = build (m.m[i].first); bool r = iot_data_map_remove (d, k); iot_data_free (k); CHECK (r, "remove of a present key reports nothing"); m.m.erase (m.m.begin () + (long) i); return "map remove"; }
        case 2: { if (m.m.empty ()) return nullptr; size_t i = s.draw (m.m.size ()) + 1; iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (i--) iot_data_map_iter_next (&it);
          V k = read (iot_data_map_iter_key (&it)), x = elem_for (s, o, m); iot_data_free (iot_data_map_iter_replace_value (&it, build (x, &s))); V * p = find_key (m.m, k); CHECK (p, "key not in the model"); *p = x; return "map iterator replace"; }
        case 3: { V k = gen_key (s, ko), x = elem_for (s, o, m); V * p = find_key (m.m, k); iot_data_t * dk = build (k, &s), * dx = build (x, &s); if (!iot_data_map_add_unused (d, dk, dx)) { iot_data_free (dk); iot_data_free (dx); } if (!p) m.m.push_back ({ k, x }); return "map add unused"; }
        case 4: { V a = gen_of_type (s, o, 1, IOT_DATA_MAP); if (a.et != m.et || a.kt != m.kt) return nullptr; iot_data_t * ad = build (a, &s); iot_data_map_merge (d, ad); iot_data_free (ad);
          for (auto & x : a.m) { V * p = find_key (m.m, x.first); if (p) *p = x.second; else m.m.push_back (x); } return "map merge"; }
        case 5: iot_data_map_empty (d); m.m.clear (); return "map empty";
        default: { if (m.m.empty ()) return nullptr; if (m.m.size () < 2) { iot_data_map_empty (d); m.m.clear (); } return "map small empty"; }
      }
    }
    case IOT_DATA_VECTOR:
      switch (s.weighted ({ 4, 3, 3, 2 }))
      {
        case 0: { if (m.e.empty ()) return nullptr; size_t i = s.draw (m.e.size ()); bool none = s.chance (1, 4); V x = none ? V () : elem_for (s, o, m); iot_data_vector_add (d, (uint32_t) i, none ? nullptr : build (x, &s)); m.e[i] = x; return "vector add"; }
        case 1: { size_t n = s.draw (m.e.size () + 4); iot_data_vector_resize (d, (uint32_t) n); m.e.resize (n); return "vector resize"; }
        case 2: { if (m.e.empty ()) return nullptr; size_t i = s.draw (m.e.size ()); iot_data_vector_iter_t it; iot_data_vector_iter (d, &it); for (size_t k = 0; k <= i; k++) iot_data_vector_iter_next (&it);
          V x = elem_for (s, o, m); iot_data_free (iot_data_vector_iter_replace_value (&it, build (x, &s))); m.e[i] = x; return "vector iterator replace"; }
        default: { iot_data_vector_compact (d); m.e.erase (std::remove_if (m.e.begin (), m.e.end (), [] (const V & v) { return v.t == EMPTY; }), m.e.end ()); return "vector compact"; }
      }
    case IOT_DATA_LIST:
      switch (s.weighted ({ 3, 3, 1, 1, 2, 2, 2, 1 }))
      {
        case 0: { V x = elem_for (s, o, m); iot_data_list_head_push (d, build (x, &s)); m.e.push_back (x); return "list head push"; }
        case 1: { V x = elem_for (s, o, m); iot_data_list_tail_push (d, build (x, &s)); m.e.insert (m.e.begin (), x); return "list tail push"; }
        case 2: iot_data_free (iot_data_list_head_pop (d)); if (!m.e.empty ()) m.e.pop_back (); return "list head pop";
        case 3: iot_data_free (iot_data_list_tail_pop (d)); if (!m.e.empty ()) m.e.erase (m.e.begin ()); return "list tail pop";
        case 4: { if (m.e.empty ()) return nullptr; size_t i = s.draw (m.e.size ()); V w = m.e[i]; i = 0; while (!veq (m.e[i], w)) i++; iot_data_list_remove (d, match_fn, &w); m.e.erase (m.e.begin () + (long) i); return "list remove"; }
        case 5: { if (m.e.empty ()) return nullptr; size_t i = s.draw (m.e.size ()); iot_data_list_iter_t it; iot_data_list_iter (d, &it); for (size_t k = 0; k <= i; k++) iot_data_list_iter_next (&it);
          V x = elem_for (s, o, m); iot_data_free (iot_data_list_iter_replace (&it, build (x, &s))); m.e[i] = x; return "list iterator replace"; }
        case 6: { if (m.e.empty ()) return nullptr; size_t i = s.draw (m.e.size ()); iot_data_list_iter_t it; iot_data_list_iter (d, &it); for (size_t k = 0; k <= i; k++) iot_data_list_iter_next (&it);
          iot_data_list_iter_remove (&it); m.e.erase (m.e.begin () + (long) i); return "list iterator remove"; }
        default: iot_data_list_empty (d); m.e.clear (); return "list empty";
      }
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
      if (m.et == IOT_DATA_UINT8 && s.flag ())
      {
        if (m.t == IOT_DATA_BINARY) { iot_data_binary_to_array (d); m.t = IOT_DATA_ARRAY; return "binary to array"; }
        iot_data_array_to_binary (d); m.t = IOT_DATA_BINARY; return "array to binary";
      }
      return nullptr;
    default:
    {
      bool inc = s.flag (); if (!can_inc (m, inc)) return nullptr;
      if (inc) iot_data_increment (d); else iot_data_decrement (d);
      model_inc (m, inc); return inc ? "increment" : "decrement";
    }
  }
}

// pick a mutable part of the value: the value itself or something nested in it
struct Part { iot_data_t * d; V * m; size_t depth; };
inline void parts (iot_data_t * d, V & m, std::vector<Part> & out, size_t depth = 0)
{
  if (!d) return;
  if (is_comp (m.t) || m.t == IOT_DATA_ARRAY || m.t == IOT_DATA_BINARY || is_int (m.t) || is_flt (m.t)) out.push_back ({ d, &m, depth });
  switch (m.t)
  {
    case IOT_DATA_VECTOR: for (uint32_t i = 0; i < m.e.size (); i++) parts ((iot_data_t *) iot_data_vector_get (d, i), m.e[i], out, depth + 1); break;
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); for (auto & x : m.e) { iot_data_list_iter_next (&it); parts ((iot_data_t *) iot_data_list_iter_value (&it), x, out, depth + 1); } break; }
    case IOT_DATA_MAP: for (auto & x : m.m) { iot_data_t * k = build (x.first); const iot_data_t * v = iot_data_map_get (d, k); iot_data_free (k); parts ((iot_data_t *) v, x.second, out, depth + 1); } break;
    default: break;
  }
}

// a value related to v: same contents in another guise, or with one small difference
// change two neighbouring characters so that the hash stays the same
inline bool collide (Src & s, std::string & t, bool binary)
{
  if (t.size () < 2) return false;
  size_t i = s.draw (t.size () - 1); uint32_t h = 538u;
  for (size_t k = 0; k < i; k++) h = h * 33u ^ (uint8_t) t[k];
  uint32_t x = h * 33u ^ (uint8_t) t[i], d0 = (uint32_t) s.draw (8);
  for (uint32_t k = 1; k < 8; k++)
  {
    uint32_t flip = 1 + (d0 + k) % 7, c = (uint8_t) t[i + 1] ^ x * 33u ^ (x ^ flip) * 33u, b = (uint8_t) t[i] ^ flip;
    if (c < 256 && (binary || (c && b))) { t[i] = (char) b; t[i + 1] = (char) c; return true; }
  }
  return false;
}

inline V vary (Src & s, const V & v, const Opt & o, bool retype)
{
  V r = v;
  switch (r.t)
  {
    case IOT_DATA_VECTOR: case IOT_DATA_LIST:
      switch (s.weighted ({ 4, 1, 1, 1 }))
      {
        case 0: if (!r.e.empty ()) { size_t i = s.draw (r.e.size ()); if (r.e[i].t != EMPTY) { V x = vary (s, r.e[i], o, retype); if (r.et == IOT_DATA_MULTI || r.et == x.t) r.e[i] = x; } } break;
        case 1: if (r.e.size () > 1) { size_t i = s.draw (r.e.size ()), j = s.draw (r.e.size ()); std::swap (r.e[i], r.e[j]); } break;
        case 2: r.e.push_back (elem_for (s, o, r)); break;
        default: if (!r.e.empty ()) r.e.pop_back (); break;
      }
      return r;
    case IOT_DATA_MAP:
      switch (s.weighted ({ 4, 1, 1, 2 }))
      {
        case 0: if (!r.m.empty ()) { size_t i = s.draw (r.m.size ()); V x = vary (s, r.m[i].second, o, retype); if (r.et == IOT_DATA_MULTI || r.et == x.t) r.m[i].second = x; } break;
        case 1: if (r.m.size () > 1) { size_t i = s.draw (r.m.size ()), j = s.draw (r.m.size ()); std::swap (r.m[i].second, r.m[j].second); } break;
        case 2: if (!r.m.empty ()) r.m.pop_back (); break;
        default: if (!r.m.empty ()) { size_t i = s.draw (r.m.size ()); V k = vary (s, r.m[i].first, o, false); if ((r.kt == IOT_DATA_MULTI || r.kt == k.t) && !find_key (r.m, k)) r.m[i].first = k; } break;
      }
      return r;
    case IOT_DATA_STRING: if (s.chance (1, 4) && !o.utf8 && collide (s, r.s, false)) return r; if (r.s.empty () || s.flag ()) r.s += (char) (1 + s.draw (255)); else { size_t i = s.draw (r.s.size ()); r.s[i] = (char) (1 + s.draw (255)); } return r;
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY:
      if (type_bytes (r.et) == 1 && r.et != IOT_DATA_BOOL && s.chance (1, 4) && collide (s, r.s, true)) return r;
      if (!r.s.empty () && s.flag ()) r.s[s.draw (r.s.size ())] ^= (char) (1u << s.draw (8));
      else r.s += std::string (type_bytes (r.et), (char) s.draw (2));
      if (r.et == IOT_DATA_BOOL) for (auto & c : r.s) c &= 1;
      return r;
    case IOT_DATA_BOOL: r.u ^= 1; return r;
    case IOT_DATA_POINTER: r.p = (const void *) ((uintptr_t) r.p ^ (1ull << (s.flag () ? 32 + s.draw (32) : 4 + s.draw (3)))); return r;
    case IOT_DATA_NULL: return r;
    default: break;
  }
  if (retype && is_int (r.t) && s.draw (3))
  {
    __int128 x = is_sgn (r.t) ? (__int128) r.i : (__int128) r.u; T t = (T) s.draw (8); V n (t);
    // the same value in another type where it fits, else the same bits
    if (is_sgn (t)) { n.i = x >= smin (t) && x <= smax (t) ? (int64_t) x : bits (t) == 64 ? (int64_t) (uint64_t) x : (int64_t) ((uint64_t) x << (64 - bits (t))) >> (64 - bits (t)); }
    else n.u = (uint64_t) x & umax (t);
    return n;
  }
  if (retype && is_flt (r.t) && s.draw (3)) return r.t == IOT_DATA_FLOAT32 ? vf64 (r.d) : vf32 ((float) r.d);
  if (is_flt (r.t)) { double n = r.t == IOT_DATA_FLOAT32 ? (double) nextafterf ((float) r.d, s.flag () ? 1e30f : -1e30f) : nextafter (r.d, s.flag () ? 1e300 : -1e300); r.d = s.chance (1, 4) ? -r.d : n; return r; }
  if (is_int (r.t) && bits (r.t) == 64 && s.chance (1, 4)) { uint64_t f = 1ull << (32 + s.draw (32)); if (is_sgn (r.t)) r.i ^= (int64_t) f; else r.u ^= f; return r; }
  bool inc = s.flag (); if (can_inc (r, inc)) model_inc (r, inc);
  return r;
}
}
