// An independent, strict RFC 8259 reader and a text generator for the JSON checks.
#pragma once
#include "gen.h"
#include <errno.h>
namespace jref {
using namespace gen;

struct J
{
  enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
  bool b = false; std::string s;                       // number text or decoded string
  std::vector<J> a; std::vector<std::pair<std::string, J>> o;
};
struct Reader
{
  const char * p, * e; std::string err; int depth = 0;
  Reader (const std::string & t) : p (t.data ()), e (t.data () + t.size ()) {}
  bool bad (const char * m) { if (err.empty ()) err = m; return false; }
  void ws () { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  bool lit (const char * l) { size_t n = strlen (l); if ((size_t) (e - p) < n || memcmp (p, l, n)) return bad ("bad literal"); p += n; return true; }
  static int hex (char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  bool u4 (uint32_t & c) { c = 0; if (e - p < 4) return bad ("short unicode escape"); for (int i = 0; i < 4; i++) { int h = hex (*p++); if (h < 0) return bad ("bad unicode escape"); c = c * 16 + (uint32_t) h; } return true; }
  bool str (std::string & r)
  {
    if (p >= e || *p != '"') return bad ("string expected"); p++;
    for (;;)
    {
      if (p >= e) return bad ("unterminated string");
      unsigned char c = (unsigned char) *p++;
      if (c == '"') return true;
      if (c < 0x20) return bad ("control character in string");
      if (c == '\\')
      {
        if (p >= e) return bad ("unterminated escape");
        switch (*p++)
        {
          case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'b': r += '\b'; break;
          case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
          case 'u':
          {
            uint32_t x; if (!u4 (x)) return false;
            if (x >= 0xd800 && x < 0xdc00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') { const char * q = p; p += 2; uint32_t y; if (!u4 (y)) return false; if (y >= 0xdc00 && y < 0xe000) x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00); else p = q; }
            put_utf8 (r, x >= 0xd800 && x < 0xe000 ? 0xfffd : x); break;
          }
          default: return bad ("bad escape");
        }
      }
      else r += (char) c;
    }
  }
  bool num (std::string & r)
  {
    const char * b = p; auto dig = [&] { const char * q = p; while (p < e && *p >= '0' && *p <= '9') p++; return p > q; };
    if (p < e && *p == '-') p++;
    if (p < e && *p == '0') p++; else if (!dig ()) return bad ("digits expected");
    if (p < e && *p == '.') { p++; if (!dig ()) return bad ("fraction digits expected"); }
    if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '+' || *p == '-')) p++; if (!dig ()) return bad ("exponent digits expected"); }
    r.assign (b, p); return true;
  }
  bool value (J & v)
  {
    ws (); if (p >= e) return bad ("value expected"); if (++depth > 2000) return bad ("too deep");
    bool ok = true;
    switch (*p)
    {
      case 'n': v.k = J::NUL; ok = lit ("null"); break;
      case 't': v.k = J::BOOL; v.b = true; ok = lit ("true"); break;
      case 'f': v.k = J::BOOL; v.b = false; ok = lit ("false"); break;
      case '"': v.k = J::STR; ok = str (v.s); break;
      case '[':
        v.k = J::ARR; p++; ws (); if (p < e && *p == ']') { p++; break; }
        for (;;) { v.a.emplace_back (); if (!value (v.a.back ())) return false; ws (); if (p >= e) return bad ("unterminated array"); if (*p == ',') { p++; continue; } if (*p == ']') { p++; break; } return bad ("comma expected"); }
        break;
      case '{':
        v.k = J::OBJ; p++; ws (); if (p < e && *p == '}') { p++; break; }
        for (;;)
        {
          ws (); v.o.emplace_back (); if (!str (v.o.back ().first)) return false; ws (); if (p >= e || *p != ':') return bad ("colon expected"); p++;
          if (!value (v.o.back ().second)) return false; ws (); if (p >= e) return bad ("unterminated object"); if (*p == ',') { p++; continue; } if (*p == '}') { p++; break; } return bad ("comma expected");
        }
        break;
      default: v.k = J::NUM; ok = num (v.s); break;
    }
    depth--; return ok;
  }
  bool doc (J & v) { if (!value (v)) return false; ws (); return p == e ? true : bad ("text after the value"); }
};
inline bool parse (const std::string & t, J & v, std::string & err) { Reader r (t); bool ok = r.doc (v); err = r.err; return ok; }
inline bool utf8_ok (const std::string & s)
{
  for (size_t i = 0; i < s.size (); )
  {
    unsigned char c = (unsigned char) s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1; if (n < 0 || i + (size_t) n >= s.size ()) return false;
    for (int k = 1; k <= n; k++) if (((unsigned char) s[i + (size_t) k] & 0xc0) != 0x80) return false;
    i += (size_t) n + 1;
  }
  return true;
}
// the value a number text denotes, as documented: integers as signed, else unsigned 64 bits, everything else as double
inline V num_val (const std::string & t)
{
  if (t.find_first_of (".eE") == std::string::npos)
  {
    bool neg = t[0] == '-'; unsigned __int128 x = 0; bool big = false;
    for (size_t i = neg; i < t.size (); i++) { x = x * 10 + (unsigned) (t[i] - '0'); if (x > ((unsigned __int128) 1 << 66)) { big = true; break; } }
    if (!big && neg && x <= (unsigned __int128) 1 << 63) return vint (IOT_DATA_INT64, x == (unsigned __int128) 1 << 63 ? INT64_MIN : -(int64_t) x);
    if (!big && !neg && x <= (unsigned __int128) INT64_MAX) return vint (IOT_DATA_INT64, (int64_t) x);
    if (!big && !neg && x <= (unsigned __int128) UINT64_MAX) return vuns (IOT_DATA_UINT64, (uint64_t) x);
  }
  return vf64 (strtod (t.c_str (), nullptr));
}
// the data value a document denotes (duplicate member names: the last one)
inline V denote (const J & j)
{
  switch (j.k)
  {
    case J::NUL: return vnull ();
    case J::BOOL: return vbool (j.b);
    case J::NUM: return num_val (j.s);
    case J::STR: return vstr (j.s);
    case J::ARR: { V v (IOT_DATA_VECTOR); for (auto & x : j.a) v.e.push_back (denote (x)); return v; }
    default: { V v (IOT_DATA_MAP); v.kt = IOT_DATA_STRING; for (auto & x : j.o) { V k = vstr (x.first), y = denote (x.second); V * p = find_key (v.m, k); if (p) *p = y; else v.m.push_back ({ k, y }); } return v; }
  }
}
// rendering choices
inline std::string ws (Src & s) { std::string r; if (s.chance (1, 4)) { size_t n = 1 + s.draw (3); for (size_t i = 0; i < n; i++) r += " \t\n\r"[s.draw (4)]; } return r; }
inline void render_str (Src & s, const std::string & x, std::string & r)
{
  char b[16]; r += '"'; bool high = false;
  for (size_t i = 0; i < x.size (); )
  {
    unsigned char c = (unsigned char) x[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (size_t k = 1; k < n; k++) cp = cp << 6 | ((unsigned char) x[i + k] & 63);
    const char * sh = nullptr; switch (cp) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break; case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break; case '/': if (s.flag ()) sh = "\\/"; break; default: break; }
    bool after = high; high = false;
    if (cp == 0xfffd && s.flag ()) // an unpaired surrogate
    {
      high = after || s.flag (); snprintf (b, sizeof b, s.flag () ? "\\u%04x" : "\\u%04X", (unsigned) ((high ? 0xd800 : 0xdc00) + (s.chance (1, 4) ? (s.flag () ? 0 : 0x3ff) : s.draw (0x400)))); r += b; i += n; continue;
    }
    bool must = cp < 0x20 || cp == '"' || cp == '\\';
    if (sh && !s.chance (1, 4)) r += sh;
    else if (must || sh || s.chance (1, 8))
    {
      const char * f = s.flag () ? "\\u%04x" : "\\u%04X";
      if (cp >= 0x10000) { snprintf (b, sizeof b, f, 0xd800 + ((cp - 0x10000) >> 10)); r += b; snprintf (b, sizeof b, f, 0xdc00 + ((cp - 0x10000) & 0x3ff)); r += b; }
      else { snprintf (b, sizeof b, f, cp); r += b; }
    }
    else r.append (x, i, n);
    i += n;
  }
  r += '"';
}
inline std::string gen_num (Src & s)
{
  char b[64]; std::string r;
  switch (s.weighted ({ 4, 3, 3, 2, 3, 2 }))
  {
    case 0: snprintf (b, sizeof b, "%d", (int) s.range (-20, 20)); return b;
    case 1: snprintf (b, sizeof b, "%lld", (long long) s.i64 ()); return b;
    case 2: snprintf (b, sizeof b, "%llu", (unsigned long long) s.u64 ()); return b;
    case 3: { static const char * edge[] = { "0", "-0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1e400", "-1e400", "1E5", "0.1", "-0.0", "1e-400", "123456789012345678901234567890" }; return edge[s.draw (16)]; }
    case 4: snprintf (b, sizeof b, s.flag () ? "%.17g" : "%.6e", [&] { double d = s.dbl (); return isfinite (d) ? d : 1.0; } ()); return b;
    default:
      if (s.flag ()) r += "-"; if (s.flag ()) r += "0"; else { r += (char) ('1' + s.draw (9)); for (size_t n = s.len (25, 3); n--; ) r += (char) ('0' + s.draw (10)); }
      if (s.flag ()) { r += "."; for (size_t n = 1 + s.len (20, 2); n--; ) r += (char) ('0' + s.draw (10)); }
      if (s.flag ()) { r += "eE"[s.draw (2)]; size_t g = s.draw (3); if (g) r += "+-"[g - 1]; for (size_t n = 1 + s.draw (3); n--; ) r += (char) ('0' + s.draw (10)); }
      return r;
  }
}
// a valid document as text, with the value it denotes; unique member names when asked for
inline J gen_doc (Src & s, std::string & r, int depth, size_t elems = 4, bool dup = false)
{
  Span sp (s); J v; r += ws (s);
  switch (s.weighted ({ 1, 1, 3, 4, (unsigned) (depth > 0 ? 4 : 0), (unsigned) (depth > 0 ? 5 : 0) }))
  {
    case 0: r += "null"; break;
    case 1: v.k = J::BOOL; v.b = s.flag (); r += v.b ? "true" : "false"; break;
    case 2: v.k = J::NUM; v.s = gen_num (s); r += v.s; break;
    case 3: v.k = J::STR; v.s = s.chance (1, 10) ? gen_utf8 (s, 300, 60) : gen_utf8 (s); if (s.chance (1, 12)) { put_utf8 (v.s, 0xfffd); for (size_t q = s.draw (3); q--; ) { put_utf8 (v.s, 0xfffd); if (s.flag ()) put_utf8 (v.s, gen_cp (s)); } } render_str (s, v.s, r); break;
    case 4: { v.k = J::ARR; size_t n = s.len (12, elems); r += "["; for (size_t i = 0; i < n; i++) { if (i) r += ","; v.a.push_back (gen_doc (s, r, depth - 1, elems, dup)); } if (!n) r += ws (s); r += "]"; break; }
    default:
    {
      v.k = J::OBJ; size_t n = s.len (12, elems); r += "{"; bool first = true;
      for (size_t i = 0; i < n; i++)
      {
        std::string k = s.chance (1, 3) ? gen_utf8 (s) : std::string (1, (char) ('a' + s.draw (26)));
        bool seen = false; for (auto & x : v.o) if (x.first == k) seen = true; if (seen && !dup) continue;
        if (!first) r += ","; first = false; r += ws (s); render_str (s, k, r); r += ws (s); r += ":";
        J x = gen_doc (s, r, depth - 1, elems, dup); v.o.push_back ({ k, x });
      }
      if (first) r += ws (s);
      r += "}"; break;
    }
  }
  r += ws (s); return v;
}
// random damage to a text
inline std::string damage (Src & s, std::string t)
{
  static const char * frag[] = { "{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\ud800", "\\u00", "null", "tru", "1", "-", "1e", ".", "{}", "[]", "\"a\"", "\"a\":", " ", "\n", "\x01", "\xff", "e", "{\"a\":", "\\\"", "'", "/*" };
  size_t n = 1 + s.len (8, 2);
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); size_t at = s.draw (t.size () + 1);
    switch (s.draw (5))
    {
      case 0: t.insert (at, frag[s.draw (sizeof frag / sizeof *frag)]); break;
      case 1: if (at < t.size ()) t.erase (at, 1 + s.draw (4)); break;
      case 2: t.resize (at); break;
      case 3: if (at < t.size ()) t[at] = (char) (1 + s.draw (255)); break;
      default: if (at < t.size ()) { std::string c = t.substr (at, 1 + s.draw (12)); t.insert (s.draw (t.size () + 1), c); } break;
    }
  }
  return t;
}
}
