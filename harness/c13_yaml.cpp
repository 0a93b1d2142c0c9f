// C13: YAML documents to data.
#include "mutate.h"
#include "iot/iot.h"
#include <yaml.h>
using namespace gen;
using pbt::note;

static char * exact (const std::string & t) { char * p = (char *) malloc (t.size () + 1); memcpy (p, t.c_str (), t.size () + 1); return p; }
// ---- rendering
static std::string plain_word (Src & s)
{
  static const char * w[] = { "Switch", "sensor one", "a-b", "True-ish", "falsey", "nullable", "x/y", "path_1", "Infinity", "nan", "inf", "NAN", "e5", "v1.2", "Null", "yes", "a#b", "a:b", "truefalse", "~x" };
  if (s.chance (1, 3)) return w[s.draw (20)];
  std::string r (1, (char) ((s.flag () ? 'a' : 'A') + s.draw (26))); size_t n = s.len (30, 5); static const char al[] = "abcxyz0189_-/.+ "; for (size_t i = 0; i < n; i++) r += al[s.draw (sizeof al - 1)];
  while (r.back () == ' ') r.pop_back (); for (size_t p; (p = r.find ("  ")) != std::string::npos; ) r.erase (p, 1); if (r == "true" || r == "false" || r == "null") r += "x"; return r;
}
static std::string dquote (Src & s, const std::string & x)
{
  std::string r = "\""; char b[16];
  for (size_t i = 0; i < x.size (); )
  {
    unsigned char c = (unsigned char) x[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (size_t k = 1; k < n; k++) cp = cp << 6 | ((unsigned char) x[i + k] & 63);
    bool raw = (cp >= 0x20 && cp < 0x7f && cp != '"' && cp != '\\') || (cp >= 0xa0 && cp < 0xd800 && cp != 0x2028 && cp != 0x2029) || (cp >= 0xe000 && cp < 0xfffe && cp != 0xfeff) || cp >= 0x10000;
    if (raw && cp != ' ' && !s.chance (1, 12)) r.append (x, i, n);
    else if (cp == ' ' && i && i + 1 < x.size ()) r += ' ';
    else if (cp == '\n' && s.flag ()) r += "\\n"; else if (cp == '\t' && s.flag ()) r += "\\t"; else if (cp == '"') r += "\\\""; else if (cp == '\\') r += "\\\\"; else if (cp == '\r' && s.flag ()) r += "\\r"; else if (cp == 7) r += "\\a"; else if (cp == 0x1b) r += "\\e";
    else { snprintf (b, sizeof b, cp < 0x100 && s.flag () ? "\\x%02x" : cp < 0x10000 ? "\\u%04x" : "\\U%08x", cp); r += b; }
    i += n;
  }
  return r + "\"";
}
static bool squotable (const std::string & x) { for (unsigned char c : x) if (c < 0x20 || c > 0x7e) return false; return x.empty () || (x[0] != ' ' && x.back () != ' '); }
static std::string squote (const std::string & x) { std::string r = "'"; for (char c : x) { r += c; if (c == '\'') r += c; } return r + "'"; }
static std::string gstr (Src & s) { std::string x = gen_utf8 (s, 40, 6), r; for (size_t i = 0; i < x.size (); i++) r += x[i]; return r; }
// a scalar as text on one line, with its value
static V gscalar (Src & s, std::string & o)
{
  char b[64];
  switch (s.weighted ({ 4, 2, 3, 2, 2, 3, 2 }))
  {
    case 0: { std::string w = plain_word (s); o += w; return vstr (w); }
    case 1: { std::string x = gstr (s); o += dquote (s, x); return vstr (x); }
    case 2: { std::string x = s.chance (1, 3) ? (const char *[]) { "true", "12", "null", "1.5", "", "0x1f", "-3" }[s.draw (7)] : gstr (s); if (squotable (x)) o += squote (x); else o += dquote (s, x); return vstr (x); }
    case 3: { switch (s.draw (3)) { case 0: o += "true"; return vbool (true); case 1: o += "false"; return vbool (false); default: o += "null"; return vnull (); } }
    case 4: { snprintf (b, sizeof b, "%d", (int) s.range (-99, 999)); o += b; return vint (IOT_DATA_INT64, atoi (b)); }
    case 5:
    {
      if (s.chance (1, 5)) { static const char * e[] = { "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-99999999999999999999999", "0", "-0", "+7" };
        int k = (int) s.draw (11); o += e[k]; return k == 0 ? vint (IOT_DATA_INT64, INT64_MAX) : k == 1 ? vuns (IOT_DATA_UINT64, 1ull << 63) : k == 2 ? vuns (IOT_DATA_UINT64, UINT64_MAX) : k == 4 ? vint (IOT_DATA_INT64, INT64_MIN) : k == 8 || k == 9 ? vint (IOT_DATA_INT64, 0) : k == 10 ? vint (IOT_DATA_INT64, 7) : vf64 (strtod (e[k], nullptr)); }
      uint64_t u = s.u64 (); bool neg = u <= INT64_MAX && u && s.chance (1, 3); if (!neg && s.chance (1, 4)) snprintf (b, sizeof b, s.flag () ? "0x%llx" : "0x%llX", (unsigned long long) u); else snprintf (b, sizeof b, "%s%llu", neg ? "-" : "", (unsigned long long) u);
      o += b; return neg ? vint (IOT_DATA_INT64, -(int64_t) u) : u <= INT64_MAX ? vint (IOT_DATA_INT64, (int64_t) u) : vuns (IOT_DATA_UINT64, u);
    }
    default: { double d = s.dbl (); if (!isfinite (d)) d = -2.5; static const char * f[] = { "%.17e", "%.3f", "%.16E", "%.1f" }; size_t k = s.draw (4); if ((k & 1) && fabs (d) > 1e15) k = 0; snprintf (b, sizeof b, f[k], d); o += b; return vf64 (strtod (b, nullptr)); }
  }
}
static std::string gkey (Src & s, std::string & o)
{
  switch (s.draw (4)) { case 0: { std::string x = gen_utf8 (s, 20, 4); o += dquote (s, x); return x; } case 1: { std::string x (1 + s.draw (3), (char) ('a' + s.draw (26))); o += squote (x); return x; } case 2: { char b[16]; snprintf (b, sizeof b, "%d", (int) s.draw (50)); o += b; return b; }
    default: { std::string w; for (size_t n = 1 + s.draw (4); n--; ) w += (char) ('a' + s.draw (26)); o += w; return w; } }
}
static std::string fws (Src & s, bool nl) { std::string r; if (s.chance (1, 4)) r = " "; if (nl && s.chance (1, 12)) r += "\n          "; return r; }
static V gflow (Src & s, std::string & o, int depth)
{
  Span sp (s);
  switch (depth > 0 ? s.weighted ({ 3, 2, 2 }) : 0)
  {
    case 1:
    {
      V v (IOT_DATA_VECTOR); size_t n = s.len (6, 2); o += "[" + fws (s, true);
      for (size_t i = 0; i < n; i++) { if (i) o += ", " + fws (s, true); if (s.chance (1, 8)) { std::string x; V y = gscalar (s, x); // flow scalars hold no indicators when plain
          bool q = x[0] == '"' || x[0] == '\''; if (q || x.find_first_of (",[]{}#:") == std::string::npos) { o += x; v.e.push_back (y); continue; } }
        v.e.push_back (gflow (s, o, depth - 1)); o += fws (s, false); }
      if (n && s.chance (1, 8)) o += ",";
      o += "]"; return v;
    }
    case 2:
    {
      V v (IOT_DATA_MAP); v.kt = IOT_DATA_STRING; size_t n = s.len (6, 2); o += "{" + fws (s, true); bool first = true;
      for (size_t i = 0; i < n; i++) { std::string kt, k = gkey (s, kt); if (find_key (v.m, vstr (k))) continue; if (!first) o += ", " + fws (s, true); first = false; o += kt + ": "; V y = gflow (s, o, depth - 1); v.m.push_back ({ vstr (k), y }); o += fws (s, false); }
      o += "}"; return v;
    }
    default:
    {
      for (int k = 0; k < 6; k++) { std::string x; V y = gscalar (s, x); if (x[0] == '"' || x[0] == '\'' || x.find_first_of (",[]{}#:") == std::string::npos) { o += x; return y; } }
      o += "plain"; return vstr ("plain");
    }
  }
}
static std::string eol (Src & s) { std::string r; if (s.chance (1, 10)) r += " # comment: [x"; r += "\n"; if (s.chance (1, 12)) r += "\n"; if (s.chance (1, 20)) r += "# whole line\n"; return r; }
static V gblock (Src & s, std::string & o, int ind, int depth);
// what follows "key:" or "-", up to and including the end of its last line
static V gchild (Src & s, std::string & o, int ind, int depth, bool item)
{
  switch (depth > 0 ? s.weighted ({ 5, 2, 1, 3 }) : s.weighted ({ 5, 2, 1 }))
  {
    case 0: { o += " "; V v = gscalar (s, o); o += eol (s); return v; }
    case 1: { o += " "; V v = gflow (s, o, 2); o += eol (s); return v; }
    case 2:
    { // literal block scalar
      std::string body, val; size_t n = 1 + s.draw (3); for (size_t i = 0; i < n; i++) { std::string l (1, (char) ('a' + s.draw (26))); for (size_t k = s.draw (12); k--; ) l += "ab :#-[{\"'1"[s.draw (11)]; while (l.back () == ' ') l.pop_back (); body += std::string ((size_t) ind + 2, ' ') + l + "\n"; val += (i ? "\n" : "") + l; }
      bool keep = s.flag (); o += keep ? " |\n" : " |-\n"; o += body; return vstr (keep ? val + "\n" : val);
    }
    default:
    {
      int in = ind + 1 + (int) s.draw (4);
      if (item && s.flag ()) { std::string b; in = ind + 2; V v = gblock (s, b, in, depth - 1); if (b[0] == ' ' && b.size () > (size_t) in) { o += " " + b.substr ((size_t) in); return v; } o += "\n" + b; return v; }
      o += eol (s); return gblock (s, o, in, depth - 1);
    }
  }
}
static V gblock (Src & s, std::string & o, int ind, int depth)
{
  Span sp (s); std::string pad ((size_t) ind, ' '); size_t n = 1 + s.len (6, 2);
  if (s.flag ())
  {
    V v (IOT_DATA_VECTOR); for (size_t i = 0; i < n; i++) { o += pad + "-"; v.e.push_back (gchild (s, o, ind, depth, true)); } return v;
  }
  V v (IOT_DATA_MAP); v.kt = IOT_DATA_STRING;
  for (size_t i = 0; i < n; i++) { std::string kt, k = gkey (s, kt); if (find_key (v.m, vstr (k))) continue; o += pad + kt + ":"; V y = gchild (s, o, ind, depth, false); v.m.push_back ({ vstr (k), y }); }
  return v;
}
static V gdoc (Src & s, std::string & t)
{
  if (s.chance (1, 6)) t += s.flag () ? "%YAML 1.1\n---\n" : "---\n"; if (s.chance (1, 8)) t += "# first\n";
  V v; switch (s.weighted ({ 6, 3, 1 })) { case 0: v = gblock (s, t, 0, 4); break; case 1: do { t += s.flag () ? "" : ""; v = gflow (s, t, 4); } while (0); t += "\n"; break; default: v = gscalar (s, t); t += "\n"; break; }
  if (s.chance (1, 8)) t += "...\n"; return v;
}
static V run (const std::string & t, bool & ok, std::string & ex)
{
  char * p = exact (t); iot_data_t * e = (iot_data_t *) 1, * d = iot_data_from_yaml (p, &e); free (p); ok = e == nullptr; V v; if (d) v = read (d);
  CHECK (!(d && e), "a value and an exception"); if (e) { CHECK (iot_data_type (e) == IOT_DATA_STRING && *iot_data_string (e), "exception is not a description"); ex = iot_data_string (e); }
  iot_data_free (d); iot_data_free (e); return v;
}
TARGET (document, 60000, 2500000, pbt::LEAK)
{
  pbt::setrule ("a container of at least three parts");
  std::string t, ex; V want = gdoc (s, t); note ("%s", pbt::quoted (t, 3000).c_str ()); if (vsize (want) > 3) pbt::nontrivial (); bool ok;
  V got = run (t, ok, ex); CHECK (ok, "valid document gives exception %s", ex.c_str ()); CHECK (veq (got, want), "read as %s, denotes %s", show (got).c_str (), show (want).c_str ());
}
// ---- arbitrary text, against the tree the YAML library composes for it
struct Ref { bool error = false, empty = true, unusual = false; V v; };
static V scalar_ref (const yaml_node_t * n, bool & loose)
{
  std::string x ((const char *) n->data.scalar.value, n->data.scalar.length); if (x.find ('\0') != std::string::npos) loose = true;
  if (n->data.scalar.style != YAML_PLAIN_SCALAR_STYLE) return vstr (x);
  if (x == "true" || x == "false") return vbool (x == "true"); if (x == "null") return vnull ();
  size_t i = !x.empty () && (x[0] == '-' || x[0] == '+'); if (i >= x.size () || !strchr ("0123456789.", x[i])) return vstr (x);
  bool dec = true; for (size_t k = i; k < x.size (); k++) if (x[k] < '0' || x[k] > '9') dec = false;
  if (dec && x[i] != '0' && x.size () - i < 19) return vint (IOT_DATA_INT64, strtoll (x.c_str (), nullptr, 10));
  loose = true; return vstr (x);
}
static bool same (yaml_document_t * doc, yaml_node_t * n, const V & v, Ref & r, std::string & why, int depth = 0)
{
  if (depth > 200) { r.unusual = true; return true; }
  switch (n->type)
  {
    case YAML_SCALAR_NODE: { bool loose = false; V w = scalar_ref (n, loose); if (loose) return v.t <= IOT_DATA_NULL; if (veq (v, w)) return true; why = show (w) + " read as " + show (v); return false; }
    case YAML_SEQUENCE_NODE:
    {
      size_t k = (size_t) (n->data.sequence.items.top - n->data.sequence.items.start); if (v.t != IOT_DATA_VECTOR || v.e.size () != k) { why = "sequence of " + std::to_string (k) + " read as " + show (v); return false; }
      for (size_t i = 0; i < k; i++) if (!same (doc, yaml_document_get_node (doc, n->data.sequence.items.start[i]), v.e[i], r, why, depth + 1)) return false;
      return true;
    }
    default:
    {
      if (v.t != IOT_DATA_MAP) { why = "mapping read as " + show (v); return false; }
      std::vector<std::pair<std::string, yaml_node_t *>> want;
      for (auto * p = n->data.mapping.pairs.start; p < n->data.mapping.pairs.top; p++) { yaml_node_t * k = yaml_document_get_node (doc, p->key); std::string ks = (const char *) k->data.scalar.value; bool f = false; for (auto & x : want) if (x.first == ks) { x.second = yaml_document_get_node (doc, p->value); f = true; } if (!f) want.push_back ({ ks, yaml_document_get_node (doc, p->value) }); }
      if (want.size () != v.m.size ()) { why = "mapping of " + std::to_string (want.size ()) + " read as " + show (v); return false; }
      for (auto & x : want) { const V * y = find_key (v.m, vstr (x.first)); if (!y) { why = "key " + x.first + " missing in " + show (v); return false; } if (!same (doc, x.second, *y, r, why, depth + 1)) return false; }
      return true;
    }
  }
}
static bool usual (const std::string & t, bool & error, bool & stream)
{ // event pass: parse errors, aliases, tags and complex keys
  yaml_parser_t p; yaml_event_t e; yaml_parser_initialize (&p); yaml_parser_set_input_string (&p, (const yaml_char_t *) t.data (), t.size ()); bool done = false, plain = true; error = false; stream = false;
  std::vector<int> st; // -1 sequence, 0 key expected, 1 value expected
  while (!done)
  {
    if (!yaml_parser_parse (&p, &e)) { error = true; break; }
    auto item = [&] (bool scalar) { if (!st.empty () && st.back () >= 0) { if (st.back () == 0 && !scalar) plain = false; st.back () ^= 1; } };
    switch (e.type)
    {
      case YAML_DOCUMENT_START_EVENT: stream = true; break;
      case YAML_ALIAS_EVENT: plain = false; break;
      case YAML_SCALAR_EVENT: item (true); if (e.data.scalar.length != strlen ((char *) e.data.scalar.value)) plain = false; break;
      case YAML_SEQUENCE_START_EVENT: item (false); st.push_back (-1); break;
      case YAML_MAPPING_START_EVENT: item (false); st.push_back (0); break;
      case YAML_SEQUENCE_END_EVENT: case YAML_MAPPING_END_EVENT: st.pop_back (); break;
      case YAML_DOCUMENT_END_EVENT: case YAML_STREAM_END_EVENT: done = true; break;
      default: break;
    }
    yaml_event_delete (&e);
  }
  yaml_parser_delete (&p); return plain;
}
static void judge (const std::string & t)
{
  bool error, stream, plain = usual (t, error, stream), ok; std::string ex; V v = run (t, ok, ex);
  pbt::label_if (error, "syntax error"); pbt::label_if (!plain, "alias or complex key"); pbt::label_if (!error && plain && stream, "accepted");
  if (error) { CHECK (!ok, "text with a syntax error is read as %s", show (v).c_str ()); return; }
  if (!plain) return;
  CHECK (ok, "text without an error gives exception %s", ex.c_str ());
  if (!stream) { CHECK (v.t == EMPTY, "empty stream read as %s", show (v).c_str ()); return; }
  yaml_parser_t p; yaml_document_t doc; yaml_parser_initialize (&p); yaml_parser_set_input_string (&p, (const yaml_char_t *) t.data (), t.size ());
  if (yaml_parser_load (&p, &doc)) { Ref r; std::string why; yaml_node_t * root = yaml_document_get_root_node (&doc); bool same_v = root ? same (&doc, root, v, r, why) : v.t == EMPTY; yaml_document_delete (&doc); if (!same_v) { yaml_parser_delete (&p); pbt::fail ("%s", why.c_str ()); } }
  yaml_parser_delete (&p);
}
TARGET (arbitrary, 60000, 3000000, pbt::LEAK)
{
  pbt::setrule ("the text has a container or a syntax error");
  static const char * frag[] = { ":", ": ", "-", "- ", "{", "}", "[", "]", ",", "\"", "'", "#", " #", "\n", "\n  ", "\t", "&a ", "*a", "!t ", "!!str ", "|", ">", "|-\n", "?", "? ", "---\n", "...\n", "%YAML 1.1\n", "null", "true", "1", "-", "\\x", "\x01", "\xff", "\xef\xbb\xbf", "a: b\n", "- c\n", "  " };
  std::string t; if (s.chance (2, 3)) gdoc (s, t); size_t n = 1 + s.len (12, 2);
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); size_t at = s.draw (t.size () + 1);
    switch (s.draw (5)) { case 0: case 1: t.insert (at, frag[s.draw (sizeof frag / sizeof *frag)]); break; case 2: if (at < t.size ()) t.erase (at, 1 + s.draw (4)); break; case 3: if (at < t.size ()) t[at] = (char) (1 + s.draw (255)); else t += (char) (1 + s.draw (127)); break; default: if (at < t.size ()) { std::string c = t.substr (at, 1 + s.draw (20)); t.insert (s.draw (t.size () + 1), c); } break; }
  }
  note ("%s", pbt::quoted (t, 3000).c_str ()); if (t.find_first_of (":-[{") != std::string::npos) pbt::nontrivial (); judge (t);
}
TARGET (unclosed, 30000, 1000000, pbt::LEAK)
{
  pbt::setrule ("a flow collection was cut before its end");
  std::string t; V v; for (int k = 0; k < 6; k++) { t.clear (); v = gflow (s, t, 4); if (is_comp (v.t)) break; } if (!is_comp (v.t)) t = "[a]";
  t.resize (1 + s.draw (t.size () - 1)); pbt::nontrivial (); note ("%s", pbt::quoted (t, 3000).c_str ());
  bool ok; std::string ex; V r = run (t, ok, ex); CHECK (!ok, "incomplete or unbalanced flow collection is read as %s", show (r).c_str ());
}

TARGET (large, 150, 4000, pbt::LEAK)
{
  pbt::setrule ("more than 255 parts");
  int kind = (int) s.draw (4); size_t n = big_size (s, kind == 1 ? 2100 : kind == 0 ? 8200 : 72000); note ("kind %d, %zu parts", kind, n); if (n > 255) pbt::nontrivial (); std::string t, ex; V want; bool ok, flow = s.flag ();
  switch (kind)
  {
    case 0: want = V (IOT_DATA_VECTOR); if (flow) t = "["; for (size_t i = 0; i < n; i++) { t += flow ? (i ? ", v" : "v") + std::to_string (i) : "- v" + std::to_string (i) + "\n"; want.e.push_back (vstr ("v" + std::to_string (i))); } if (flow) t += "]\n"; break;
    case 1: want = V (IOT_DATA_MAP); for (size_t i = 0; i < n; i++) { t += "k" + std::to_string (i) + ": v" + std::to_string (i) + "\n"; want.m.push_back ({ vstr ("k" + std::to_string (i)), vstr ("v" + std::to_string (i)) }); } break;
    case 2: want = vstr (std::string (n, 'w')); t = flow ? "\"" + want.s + "\"\n" : "'" + want.s + "'\n"; break;
    default: want = V (IOT_DATA_MAP); want.m.push_back ({ vstr ("k"), vstr (std::string (n, 'w')) }); t = "k: " + want.m[0].second.s + "\n"; break;
  }
  V got = run (t, ok, ex); CHECK (ok, "valid document gives exception %s", ex.c_str ()); CHECK (veq (got, want), "document read differently: %s", show (got).c_str ());
}
