// C15: text to scalars, type names, typecodes.
#include "gen.h"
#include <float.h>
#include <strings.h>
using namespace gen; using pbt::note;
typedef __int128 I;
static I lo (T t) { return is_sgn (t) ? (I) smin (t) : (I) 0; }
static I hi (T t) { return is_sgn (t) ? (I) smax (t) : (I) umax (t); }
static std::string dec (I n) { bool neg = n < 0; unsigned __int128 u = neg ? -(unsigned __int128) n : (unsigned __int128) n; std::string r; do { r.insert (r.begin (), (char) ('0' + (int) (u % 10))); u /= 10; } while (u); return neg ? "-" + r : r; }
static const T INTS[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64 };

static iot_data_t * from (Src & s, T t, const std::string & text)
{
  // exact size copy on the heap: reading past the terminator is caught
  char * c = (char *) malloc (text.size () + 1); memcpy (c, text.c_str (), text.size () + 1); iot_data_t * d;
  if (s.chance (1, 4)) { std::string n = iot_data_type_string ((iot_data_type_t) t); for (auto & x : n) if (s.flag ()) x = (char) (isupper (x) ? tolower (x) : toupper (x)); d = iot_data_alloc_from_strings (n.c_str (), c); }
  else d = iot_data_alloc_from_string ((iot_data_type_t) t, c);
  CHECK (text == c, "the text was changed"); free (c); return d;
}

TARGET (integers, 600000, 20000000, pbt::LEAK)
{
  pbt::setrule ("the number is within 1000 of a limit of the type or outside it");
  T t = INTS[s.draw (8)]; I n;
  switch (s.draw (5))
  {
    case 0: n = s.range (-20, 20); break;
    case 1: { V v = gen_int (s, t); n = is_sgn (t) ? (I) v.i : (I) v.u; break; }
    case 2: n = (s.flag () ? lo (t) : hi (t)) + s.range (-3, 3); break;
    case 3: { T o = INTS[s.draw (8)]; n = (s.flag () ? lo (o) : hi (o)) + s.range (-300, 300); break; }
    default: n = ((I) s.i64 () << 62) ^ (I) s.u64 (); break;
  }
  std::string x = dec (n < 0 ? -n : n), text; bool neg = n < 0;
  if (s.chance (1, 5)) x.insert (0, s.len (60, 3), '0');
  if (s.chance (1, 30)) { x += std::string (1 + s.draw (60), '7'); n = neg ? -((I) 1 << 120) : (I) 1 << 120; if (x.find_first_not_of ("0") == std::string::npos) n = 0; }
  if (s.chance (1, 30)) n = 0, x = "0", neg = s.flag ();
  text = (neg ? "-" : s.chance (1, 8) ? "+" : "") + x; if (s.chance (1, 8)) text.insert (0, s.flag () ? " " : "\t ");
  // (a long run of sevens after leading zeros only is still huge only when it has enough digits)
  { std::string digits = x.substr (std::min (x.find_first_not_of ('0'), x.size ())); if (digits.size () > 38) n = neg ? lo (IOT_DATA_INT64) * 4 : hi (IOT_DATA_UINT64) * 4; else { I m = 0; for (char c : digits) m = m * 10 + (c - '0'); n = neg ? -m : m; } }
  bool in = n >= lo (t) && n <= hi (t);
  I dl = n > lo (t) ? n - lo (t) : lo (t) - n, dh = n > hi (t) ? n - hi (t) : hi (t) - n;
  if (!in || dl <= 1000 && is_sgn (t) || dh <= 1000) pbt::nontrivial (); pbt::label_if (!in, "out of range"); pbt::label_if (x[0] == '0' && x.size () > 1, "leading zeros");
  note ("%s from %s", iot_data_type_string ((iot_data_type_t) t), pbt::quoted (text).c_str ());
  iot_data_t * d = from (s, t, text);
  CHECK ((d != NULL) == in, "%s from '%s' %s", iot_data_type_string ((iot_data_type_t) t), text.c_str (), d ? ("is accepted as " + show (read (d))).c_str () : "is refused");
  if (d) { V v = read (d); CHECK (v.t == t && (is_sgn (t) ? (I) v.i : (I) v.u) == n, "%s from '%s' gives %s", iot_data_type_string ((iot_data_type_t) t), text.c_str (), show (v).c_str ()); iot_data_free (d); }
}

TARGET (floats, 300000, 10000000, pbt::LEAK)
{
  pbt::setrule ("the value is neither 0 nor an integer below 1000");
  T t = s.flag () ? IOT_DATA_FLOAT32 : IOT_DATA_FLOAT64; Opt o; o.inf = false; char buf[800]; std::string text; V want (t); bool exact = true;
  if (s.chance (2, 3))
  {
    V v = gen_scalar (s, o, t); want = v; int k = (int) s.draw (3);
    if (k == 0 || fabs (v.d) > 1e60) snprintf (buf, sizeof buf, "%.*g", t == IOT_DATA_FLOAT32 ? 9 : 17, v.d); else if (k == 1 || fabs (v.d) < 1e-3) snprintf (buf, sizeof buf, "%.*e", t == IOT_DATA_FLOAT32 ? 8 + (int) s.draw (5) : 16 + (int) s.draw (8), v.d); else snprintf (buf, sizeof buf, "%.*f", 40, v.d);
    text = buf; if (v.d > 0 && s.chance (1, 8)) text.insert (0, "+");
  }
  else
  {
    // free decimal text: compare with the C library's correctly rounded conversion
    size_t n = 1 + s.len (25, 5); for (size_t i = 0; i < n; i++) text += (char) ('0' + s.draw (10));
    if (s.flag ()) { text += '.'; n = s.len (30, 5); for (size_t i = 0; i < n; i++) text += (char) ('0' + s.draw (10)); }
    if (s.flag ()) { int lim = t == IOT_DATA_FLOAT32 ? 50 : 340; text += s.flag () ? "e" : "E"; text += std::to_string (s.range (-lim, lim)); }
    if (s.flag ()) text.insert (0, "-");
    want.d = t == IOT_DATA_FLOAT32 ? (double) strtof (text.c_str (), NULL) : strtod (text.c_str (), NULL);
  }
  if (s.chance (1, 8)) text.insert (0, " ");
  note ("%s from %s", iot_data_type_string ((iot_data_type_t) t), text.c_str ()); if (want.d != 0 && !(fabs (want.d) < 1000 && want.d == trunc (want.d))) pbt::nontrivial (); pbt::label_if (std::isinf (want.d), "overflow"); pbt::label_if (want.d != 0 && fabs (want.d) < (t == IOT_DATA_FLOAT32 ? FLT_MIN : DBL_MIN), "subnormal");
  iot_data_t * d = from (s, t, text); CHECK (d, "float text '%s' is refused", text.c_str ());
  V v = read (d); CHECK (v.t == t && v.d == want.d && std::signbit (v.d) == std::signbit (want.d), "'%s' gives %s, expected %s", text.c_str (), show (v).c_str (), show (want).c_str ()); iot_data_free (d);
}

TARGET (not_numbers, 200000, 5000000, pbt::LEAK)
{
  pbt::setrule ("the target type is numeric");
  T t = (T) s.draw (IOT_DATA_INVALID + 1); std::string text;
  static const char * bad[] = { "x", "-", "+", "--1", "+-2", ".", "-.", "e5", "abc", " ", "\t\n", "#1", "/2", ":3", "$", "true", "False", "t", "T", "f", "X", "\"1\"", "(1)", "[1]", "- 1", "+ 5", "\xc2\xa0" "1", "yes", "1" };
  text = bad[s.draw (sizeof bad / sizeof *bad)]; if (s.chance (1, 3)) { Opt o; text = gen_string (s, o); } else if (s.chance (1, 4)) text += gen_utf8 (s, 8, 3);
  text = text.c_str (); if (text.empty () && t != IOT_DATA_STRING) text = "x";
  const char * p = text.c_str (); while (isspace ((unsigned char) *p)) p++;
  const char * q = p; if (*q == '-' || *q == '+') q++;
  bool number = isdigit ((unsigned char) *q) || (is_flt (t) && ((*q == '.' && isdigit ((unsigned char) q[1])) || !strncasecmp (q, "inf", 3) || !strncasecmp (q, "nan", 3)));
  note ("%s from %s", iot_data_type_string ((iot_data_type_t) t), pbt::quoted (text).c_str ());
  if (t < IOT_DATA_BOOL) pbt::nontrivial ();
  if (t == IOT_DATA_INVALID || number && t < IOT_DATA_BOOL) return;
  iot_data_t * d = from (s, t, text);
  if (t < IOT_DATA_BOOL) CHECK (!d, "%s is accepted as %s", pbt::quoted (text).c_str (), show (read (d)).c_str ());
  else if (t == IOT_DATA_STRING) CHECK (d && read (d).t == t && read (d).s == text, "string not kept");
  else if (t == IOT_DATA_BOOL) CHECK (d && read (d).t == t && read (d).u == (text[0] == 't' || text[0] == 'T'), "%s gives wrong boolean", pbt::quoted (text).c_str ());
  else CHECK (!d, "text accepted for type %s", iot_data_type_string ((iot_data_type_t) t));
  iot_data_free (d);
}

TARGET (names, 200000, 5000000, pbt::LEAK)
{
  pbt::setrule ("the name is a type's name up to case or one edit away from one");
  static const char * known[] = { "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Bool", "Pointer", "String", "Null", "Binary", "Array", "Vector", "List", "Map" };
  unsigned k = (unsigned) s.draw (IOT_DATA_MAP + 1); std::string n = iot_data_type_string ((iot_data_type_t) k);
  CHECK (n == known[k], "type %u is named %s", k, n.c_str ());
  std::string all = iot_data_type_string ((iot_data_type_t) (IOT_DATA_INVALID + 1 + s.draw (255 - IOT_DATA_INVALID))); CHECK (all == iot_data_type_string (IOT_DATA_INVALID), "out of range type named %s", all.c_str ());
  for (auto & c : n) if (s.chance (1, 3)) c = (char) (isupper (c) ? tolower (c) : toupper (c));
  if (s.flag ()) switch (s.draw (4)) { case 0: n.erase (s.draw (n.size ()), 1); break; case 1: n.insert (s.draw (n.size () + 1), 1, (char) (1 + s.draw (127))); break; case 2: n[s.draw (n.size ())] = (char) (1 + s.draw (255)); break; default: { Opt o; n = std::string (gen_string (s, o).c_str ()); } }
  pbt::nontrivial (); note ("%s", pbt::quoted (n).c_str ());
  iot_data_type_t want = IOT_DATA_INVALID; for (unsigned i = 0; i <= IOT_DATA_MAP; i++) if (!strcasecmp (known[i], n.c_str ())) want = (iot_data_type_t) i;
  if (!strcasecmp (n.c_str (), "Multi")) want = IOT_DATA_MULTI;
  iot_data_type_t got = iot_data_name_type (n.c_str ());
  CHECK (got == want, "name %s maps to %u, expected %u", pbt::quoted (n).c_str (), got, want);
}

TARGET (typecodes, 200000, 5000000, pbt::LEAK)
{
  pbt::setrule ("both values have the same container type");
  Opt o; o.typed = true; o.arrays = true; o.pointers = true; o.container_keys = true; Arena ar;
  V a, b; for (int i = 0; i < 4; i++) { a = gen_value (s, o, 1); if (a.t >= IOT_DATA_ARRAY || s.flag ()) break; }
  for (int i = 0; i < 4; i++) { b = s.flag () ? gen_of_type (s, o, 1, a.t) : gen_value (s, o, 1); if (b.t == a.t) break; }
  if (s.flag () && is_comp (a.t)) b = V (a.t), b.et = a.et, b.kt = s.flag () ? a.kt : (T) s.draw (IOT_DATA_MULTI + 1), b.kt = b.kt == IOT_DATA_NULL ? IOT_DATA_STRING : b.kt;
  note ("%s / %s", show (a).c_str (), show (b).c_str ()); if (a.t == b.t && a.t >= IOT_DATA_ARRAY) pbt::nontrivial ();
  iot_data_t * da = build (a, &s, &ar), * db = build (b, &s, &ar); iot_typecode_t ta, tb; memset (&ta, 0xee, sizeof ta); memset (&tb, 0x11, sizeof tb);
  iot_data_typecode (da, &ta); iot_data_typecode (db, &tb);
  CHECK (ta.type == a.t && tb.type == b.t, "typecode has another type"); CHECK (iot_data_type (da) == a.t && iot_data_is_of_type (da, (iot_data_type_t) a.t) && !iot_data_is_of_type (da, (iot_data_type_t) (a.t + 1)), "type wrong"); CHECK (!strcmp (iot_data_type_name (da), iot_data_type_string ((iot_data_type_t) a.t)), "type name wrong");
  if (a.t >= IOT_DATA_ARRAY && a.t <= IOT_DATA_MAP) CHECK (ta.element_type == a.et, "element type of %s is %u", show (a).c_str (), ta.element_type);
  if (a.t == IOT_DATA_MAP) CHECK (ta.key_type == a.kt, "key type of %s is %u", show (a).c_str (), ta.key_type);
  bool eq = a.t == b.t && (a.t < IOT_DATA_ARRAY || a.et == b.et) && (a.t != IOT_DATA_MAP || a.kt == b.kt);
  CHECK (iot_typecode_equal (&ta, &tb) == eq && iot_typecode_equal (&tb, &ta) == eq, "typecodes %s", eq ? "differ" : "are equal"); CHECK (iot_typecode_equal (&ta, &ta) && !iot_typecode_equal (&ta, NULL) && !iot_typecode_equal (NULL, &ta) && iot_typecode_equal (NULL, NULL), "typecode equality with itself or nothing");
  CHECK (iot_data_matches (da, &tb) == eq && iot_data_matches (db, &ta) == eq && iot_data_matches (da, &ta), "matching is wrong: %s against the typecode of %s, expected %d", show (a).c_str (), show (b).c_str (), eq);
  iot_typecode_t t2 = ta; t2.type = (iot_data_type_t) s.draw (IOT_DATA_INVALID); if (t2.type != ta.type) CHECK (!iot_data_matches (da, &t2), "matches a typecode of another type");
  iot_data_free (da); iot_data_free (db);
}
