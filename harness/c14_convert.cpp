// C14: numeric conversion against an exact reference (128 bit integers, long double).
#include "castref.h"
using namespace gen; using namespace castref; using pbt::note;

static V gen_src (Src & s, T t)
{
  Opt o; o.nan = true; o.inf = true; o.negzero = true;
  if (s.chance (1, 40)) return gen_value (s, o, 2);      // not necessarily numeric
  T st = NUMS[s.draw (11)];
  return s.flag () ? near (s, st, t) : gen_scalar (s, o, st);
}

static void judge (const iot_data_t * d, const V & v, T t)
{
  bool either; V want = ref (v, t, either);
  uint8_t buf[24], before[24]; memset (buf, 0xA5, sizeof buf); memcpy (before, buf, sizeof buf);
  bool ok = iot_data_cast (d, (iot_data_type_t) t, buf + 8);
  size_t w = is_num (t) ? type_bytes (t) : 0;
  if (!ok) w = 0;
  CHECK (!memcmp (buf, before, 8) && !memcmp (buf + 8 + w, before + 8 + w, 16 - w), "cast of %s to type %u %s wrote outside the target", show (v).c_str (), t, ok ? "succeeded but" : "failed but");
  if (either) { if (ok) CHECK (same (unpack (t, buf + 8), vf32 ((float) v.d)), "infinity cast to something else"); }
  else
  {
    CHECK (ok == (want.t != EMPTY), "cast of %s to %s %s", show (v).c_str (), iot_data_type_string ((iot_data_type_t) t), ok ? "accepted although out of range" : "refused although in range");
    if (ok) { V got = unpack (t, buf + 8); CHECK (same (got, want), "cast of %s gives %s, expected %s", show (v).c_str (), show (got).c_str (), show (want).c_str ()); }
    if (ok && t == IOT_DATA_BOOL) CHECK (buf[8] <= 1, "bool with representation %u", buf[8]);
  }
  uint32_t refs = iot_data_ref_count (d);
  iot_data_t * x = iot_data_transform (d, (iot_data_type_t) t);
  if (v.t == t) { CHECK (x == d && (iot_data_is_static (d) || iot_data_ref_count (d) == refs + 1), "transform to its own type is not the same object with one more reference"); iot_data_free (x); return; }
  if (!is_num (v.t) || !is_num (t)) { CHECK (!x, "non-numeric %s transformed to type %u", show (v).c_str (), t); return; }
  if (either) { if (x) iot_data_free (x); return; }
  CHECK ((x != NULL) == (want.t != EMPTY), "transform of %s to %s %s", show (v).c_str (), iot_data_type_string ((iot_data_type_t) t), x ? "accepted although out of range" : "refused although in range");
  CHECK (iot_data_ref_count (d) == refs, "reference count of the source changed");
  if (x)
  {
    V got = read (x); CHECK (same (got, want), "transform of %s gives %s, expected %s", show (v).c_str (), show (got).c_str (), show (want).c_str ());
    CHECK (iot_data_is_static (x) || iot_data_ref_count (x) == 1, "transformed value has %u references", iot_data_ref_count (x));
    iot_data_free (x);
  }
}

TARGET (convert, 3000000, 20000000, pbt::LEAK)
{
  pbt::setrule ("source and target types differ and the source is numeric and neither 0 nor 1");
  T t = s.chance (1, 60) ? (T) s.draw (IOT_DATA_INVALID) : NUMS[s.draw (11)];
  V v = gen_src (s, t);
  note ("%s to %s", show (v).c_str (), iot_data_type_string ((iot_data_type_t) t));
  if (is_num (v.t) && v.t != t && v.i != 0 && v.i != 1 || v.u > 1 || (is_flt (v.t) && v.d != 0 && v.d != 1)) pbt::nontrivial ();
  bool either; pbt::label_if (is_num (v.t) && ref (v, t, either).t == EMPTY, "out of range"); pbt::label_if (is_flt (v.t) && is_int (t), "float to integer"); pbt::label_if (is_int (v.t) && is_flt (t), "integer to float"); pbt::label_if (!is_num (v.t), "not numeric");
  Arena ar; iot_data_t * d = build (v, &s, &ar);
  judge (d, v, t);
  if (v.t != IOT_DATA_INVALID) { V back = read (d); CHECK (v.t == IOT_DATA_MAP || is_comp (v.t) || veq (back, v), "source changed by conversion"); }
  iot_data_free (d);
}

// the getters of maps convert in the same way
TARGET (getters, 300000, 2000000, pbt::LEAK)
{
  pbt::setrule ("the key is present with a numeric value");
  T t = NUMS[s.draw (11)]; V v = gen_src (s, t); if (!is_num (v.t)) v = vint (IOT_DATA_INT16, -300);
  bool str = s.flag (), present = !s.chance (1, 6); Arena ar;
  note ("%s map get %s of %s%s", str ? "string" : "int", iot_data_type_string ((iot_data_type_t) t), show (v).c_str (), present ? "" : " (absent key)");
  iot_data_t * map = iot_data_alloc_map (str ? IOT_DATA_STRING : IOT_DATA_INT32); iot_data_t * key = str ? iot_data_alloc_string ("k", IOT_DATA_REF) : iot_data_alloc_i32 (4);
  iot_data_map_add (map, str ? iot_data_alloc_string (present ? "k" : "l", IOT_DATA_REF) : iot_data_alloc_i32 (present ? 4 : 5), build (v, &s, &ar));
  if (present) pbt::nontrivial ();
  for (int w = 0; w < (str ? 4 : 2); w++)
  {
    uint64_t a = 0x5a5a5a5a5a5a5a5a, b = a; T tt = (w & 1) ? IOT_DATA_INT32 : t; bool ok;
    switch (w) { case 0: ok = iot_data_map_get_number (map, key, (iot_data_type_t) t, &a); break; case 1: ok = iot_data_map_get_int (map, key, (int *) &a); break; case 2: ok = iot_data_string_map_get_number (map, "k", (iot_data_type_t) t, &a); break; default: ok = iot_data_string_map_get_int (map, "k", (int *) &a); break; }
    bool either; V want = present ? ref (v, tt, either) : V (); if (!present) either = false; if (either) continue;
    CHECK (ok == (want.t != EMPTY), "getter %d %s", w, ok ? "succeeded" : "failed"); if (!ok) { CHECK (a == b, "getter %d failed but wrote the variable", w); continue; }
    V got = unpack (tt, &a); CHECK (same (got, want), "getter %d gives %s, expected %s", w, show (got).c_str (), show (want).c_str ());
  }
  iot_data_free (map); iot_data_free (key);
}

// chains: what is exact converts back to itself
TARGET (there_and_back, 500000, 3000000, pbt::LEAK)
{
  pbt::setrule ("the first conversion succeeds between different types");
  T t = NUMS[s.draw (11)]; V v = gen_src (s, t); if (!is_num (v.t)) v = vint (IOT_DATA_INT16, -300);
  note ("%s to %s and back", show (v).c_str (), iot_data_type_string ((iot_data_type_t) t)); Arena ar;
  iot_data_t * a = build (v, &s, &ar), * b = iot_data_transform (a, (iot_data_type_t) t);
  if (b)
  {
    V vb = read (b); if (v.t != t) pbt::nontrivial ();
    iot_data_t * c = iot_data_transform (b, (iot_data_type_t) v.t);
    bool exact = is_flt (v.t) || is_flt (vb.t) ? (v.d == v.d && (is_flt (v.t) ? (long double) v.d : is_sgn (v.t) ? (long double) v.i : (long double) v.u) == (is_flt (vb.t) ? (long double) vb.d : is_sgn (vb.t) ? (long double) vb.i : (long double) vb.u)) : t != IOT_DATA_BOOL;
    if (exact && !std::isinf (vb.d) && !(v.t == IOT_DATA_BOOL)) { CHECK (c, "%s converted exactly to %s does not convert back", show (v).c_str (), show (vb).c_str ()); V vc = read (c); CHECK (veq (vc, v), "%s became %s and then %s", show (v).c_str (), show (vb).c_str (), show (vc).c_str ()); }
    iot_data_free (c);
  }
  iot_data_free (b); iot_data_free (a);
}
