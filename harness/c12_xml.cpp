// C12: XML documents to data.
#include "mutate.h"
#include "iot/iot.h"
using namespace gen;
using pbt::note;

struct El { std::string name; std::vector<std::pair<std::string, std::string>> attrs; std::vector<El> kids; std::string text; }; // text: after the last child
static std::string gname (Src & s)
{
  static const char st[] = "abcxyzABZ_:", re[] = "abz09-._:A"; std::string r; if (s.chance (1, 10)) r = "\xc3\xa9"; else r = std::string (1, st[s.draw (sizeof st - 1)]);
  size_t n = s.len (60, 4); for (size_t i = 0; i < n; i++) if (s.chance (1, 20)) r += "\xe2\x82\xac"; else r += re[s.draw (sizeof re - 1)]; return r;
}
static bool xml_char (uint32_t c) { return c == 9 || c == 10 || (c >= 0x20 && c < 0xd800) || (c >= 0xe000 && c < 0xfffe) || (c >= 0x10000 && c < 0x110000); }
static std::string gcomment (Src & s); static std::string gpi (Src & s);
// rendered text and the characters it stands for
static void gchars (Src & s, std::string & out, std::string & val, bool attr, char quote, size_t max, size_t typ)
{
  size_t n = s.len (max, typ);
  for (size_t i = 0; i < n; i++)
  {
    uint32_t c = s.chance (1, 4) ? (uint32_t) "<>&\"' \n\t"[s.draw (8)] : gen_cp (s); if (!xml_char (c) || c == 13) c = 'q';
    char b[24]; bool must = c == '<' || c == '&' || (attr && c == (uint32_t) (unsigned char) quote) || c == '>' ;
    const char * ent = c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : nullptr;
    if (ent && (must || s.flag ()) && !s.chance (1, 4)) { out += ent; put_utf8 (val, c); }
    else if (must || s.chance (1, 10)) { static const char * f[] = { "&#%u;", "&#x%x;", "&#x%X;", "&#0%u;" }; snprintf (b, sizeof b, f[s.draw (4)], c); if (strlen (b) > 10) snprintf (b, sizeof b, "&#x%x;", c); out += b; put_utf8 (val, c); }
    else if (!attr && s.chance (1, 20)) { std::string cd; size_t m = s.draw (12); for (size_t k = 0; k < m; k++) cd += "a<>&]'\" \n"[s.draw (9)]; size_t p; while ((p = cd.find ("]]>")) != std::string::npos) cd[p] = 'x'; out += "<![CDATA[" + cd + "]]>"; val += cd; }
    else if (!attr && s.chance (1, 30)) out += s.flag () ? gcomment (s) : gpi (s);
    else if (s.chance (1, 20)) { out += "\r\n"; val += attr ? " " : "\n"; }
    else { put_utf8 (out, c); put_utf8 (val, attr && (c == 9 || c == 10) ? ' ' : c); }
  }
}
static std::string gcomment (Src & s)
{
  static const char * w[] = { "a", " ", "-", "<b>", "&", "]]>", "?>", "\n", "\xc3\xa9", "\"", "<?x", "<![CDATA[", ">" }; std::string c;
  for (size_t n = s.len (12, 3); n--; ) { const char * x = w[s.draw (sizeof w / sizeof *w)]; if (*x == '-' && !c.empty () && c.back () == '-') continue; c += x; }
  if (!c.empty () && c.back () == '-') c += " "; return "<!--" + c + "-->";
}
static std::string gpi (Src & s)
{
  static const char * names[] = { "pi", "x", "xm", "xmlx", "XM", "a.b", "target", "xml-stylesheet", "_", "\xc3\xa9" }; static const char * w[] = { "a", " ", "<b>", "&", "-->", "?", ">", "\n", "\"", "'", "=", "]]>" };
  std::string c; for (size_t n = s.len (10, 3); n--; ) { const char * x = w[s.draw (sizeof w / sizeof *w)]; if (*x == '>' && !c.empty () && c.back () == '?') continue; c += x; }
  std::string nm = names[s.draw (sizeof names / sizeof *names)]; while (!c.empty () && c[0] == ' ') c.erase (0, 1);
  return "<?" + nm + (c.empty () ? std::string () : " " + c) + "?>";
}
static std::string sp (Src & s, bool need) { std::string r (need ? 1 : 0, ' '); if (s.chance (1, 6)) r += "\n\t \r\n"[s.draw (3)]; return r; }
static El gel (Src & s, std::string & o, int depth)
{
  Span spn (s); El e; e.name = gname (s); o += "<" + e.name; size_t na = s.len (6, 1);
  for (size_t i = 0; i < na; i++)
  {
    std::string an = gname (s); bool dup = false; for (auto & x : e.attrs) if (x.first == an) dup = true; if (dup) continue;
    char q = s.flag () ? '"' : '\''; std::string val; o += sp (s, true) + an + sp (s, false) + "=" + sp (s, false) + q; gchars (s, o, val, true, q, s.chance (1, 30) ? 1200 : 40, 5); o += q; e.attrs.push_back ({ an, val });
  }
  o += sp (s, false); size_t nk = depth > 0 ? s.len (6, 1) : 0; bool body = nk || s.flag ();
  if (!body) { o += "/>"; return e; }
  o += ">"; std::string scratch;
  for (size_t i = 0; i < nk; i++) { if (s.flag ()) gchars (s, o, scratch, false, 0, 20, 4); e.kids.push_back (gel (s, o, depth - 1)); }
  if (s.chance (2, 3)) gchars (s, o, e.text, false, 0, s.chance (1, 30) ? 2500 : 60, 8);
  o += "</" + e.name + sp (s, false) + ">"; return e;
}
static V val_of (const El & e)
{
  V v (IOT_DATA_MAP); v.m.push_back ({ vstr ("name"), vstr (e.name) }); V a (IOT_DATA_MAP); for (auto & x : e.attrs) a.m.push_back ({ vstr (x.first), vstr (x.second) }); v.m.push_back ({ vstr ("attributes"), a });
  if (!e.kids.empty ()) { V c (IOT_DATA_VECTOR); for (auto & k : e.kids) c.e.push_back (val_of (k)); v.m.push_back ({ vstr ("children"), c }); }
  if (!e.text.empty ()) v.m.push_back ({ vstr ("content"), vstr (e.text) });
  return v;
}
static size_t nodes (const El & e) { size_t n = 1; for (auto & k : e.kids) n += nodes (k); return n; }
static El gdoc (Src & s, std::string & t, size_t & end)
{
  auto misc = [&] (unsigned most) { for (size_t n = s.draw (most + 1); n--; ) switch (s.draw (3)) { case 0: t += " \n\t\r"[s.draw (4)]; break; case 1: t += gcomment (s); break; default: t += gpi (s); } };
  auto q = [&] (const std::string & v) { std::string c (1, s.flag () ? '"' : '\''); return sp (s, false) + "=" + sp (s, false) + c + v + c; };
  if (s.chance (1, 10)) t += "\xef\xbb\xbf";                // byte order mark
  if (s.flag ())
  {
    static const char * enc[] = { "UTF-8", "utf-8", "Utf-8" };      // the only encoding supported
    t += "<?xml" + sp (s, true) + "version" + q ("1.0"); if (s.flag ()) t += sp (s, true) + "encoding" + q (enc[s.draw (3)]);
    if (s.chance (1, 3)) t += sp (s, true) + "standalone" + q (s.flag () ? "yes" : "no"); t += sp (s, false) + "?>";
  }
  if (s.chance (1, 3)) misc (3);
  if (s.chance (1, 5))
  {
    t += "<!DOCTYPE" + sp (s, true) + "doc";
    if (s.flag ()) t += sp (s, true) + (s.flag () ? "SYSTEM 'a>b\".dtd'" : "PUBLIC \"-//x//y]>'\" \"u\"");
    if (s.chance (1, 3))
    {
      static const char * sub[] = { "<!ELEMENT doc (#PCDATA)>", "<!ATTLIST doc a CDATA 'x>]'>", "<!ENTITY e \"<![CDATA[>\">", "<!NOTATION n SYSTEM 'x'>", " ", "\n" };
      t += sp (s, false) + "["; for (size_t n = s.draw (4); n--; ) switch (s.draw (4)) { case 0: t += gcomment (s); break; case 1: t += gpi (s); break; default: t += sub[s.draw (6)]; } t += "]";
    }
    t += sp (s, false) + ">"; if (s.chance (1, 3)) misc (2);
  }
  El e = gel (s, t, 4); end = t.size (); if (s.chance (1, 3)) misc (3); return e;
}
static char * exact (const std::string & t) { char * p = (char *) malloc (t.size () + 1); memcpy (p, t.c_str (), t.size () + 1); return p; }

TARGET (document, 60000, 2500000, pbt::LEAK)
{
  pbt::setrule ("at least three elements");
  std::string t; size_t end; El e = gdoc (s, t, end); if (nodes (e) >= 3) pbt::nontrivial (); note ("%s", pbt::quoted (t, 4000).c_str ());
  char * p = exact (t); iot_data_t * d = iot_data_from_xml (p); free (p); CHECK (d, "a well-formed document is rejected");
  V got = read (d), want = val_of (e); CHECK (veq (got, want), "read as %s, denotes %s", show (got).c_str (), show (want).c_str ()); iot_data_free (d);
}
static bool is_element (const iot_data_t * d)
{
  if (iot_data_type (d) != IOT_DATA_MAP) return false; V v = read (d); const V * n = find_key (v.m, vstr ("name")), * a = find_key (v.m, vstr ("attributes"));
  return n && n->t == IOT_DATA_STRING && !n->s.empty () && a && a->t == IOT_DATA_MAP;
}
TARGET (incomplete, 30000, 1000000, pbt::LEAK)
{
  pbt::setrule ("the text was cut inside the root element after its name");
  std::string t; size_t end; El e = gdoc (s, t, end); end--;      // last character of the root element
  // a root end tag with white space before its '>' counts as complete without the '>' (known finding)
  size_t lim = end; while (lim && strchr (" \t\r\n", t[lim - 1])) lim--; size_t n = s.draw (lim + 1); t.resize (n); note ("%s", pbt::quoted (t, 4000).c_str ()); if (t.find ("<" + e.name) != std::string::npos) pbt::nontrivial ();
  char * p = exact (t); iot_data_t * d = iot_data_from_xml (p); free (p); CHECK (!d, "text cut before the end of its root element is read as %s", show (read (d)).c_str ());
}
TARGET (arbitrary, 60000, 3000000, pbt::LEAK)
{
  pbt::setrule ("text was accepted, or rejected after its first element start");
  static const char * frag[] = { "<", ">", "/>", "</", "<a>", "</a>", "<a/>", "&", "&lt;", "&#", "&#x110000;", "&#0;", "&bogus;", "\"", "'", "=", " ", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "[", "]", "\x01", "\xff", "a", "\n", "<a b='c'>" };
  std::string t; size_t end; if (s.flag ()) gdoc (s, t, end);
  size_t n = 1 + s.len (12, 3);
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); size_t at = s.draw (t.size () + 1);
    switch (s.draw (5)) { case 0: case 1: t.insert (at, frag[s.draw (sizeof frag / sizeof *frag)]); break; case 2: if (at < t.size ()) t.erase (at, 1 + s.draw (4)); break; case 3: if (at < t.size ()) t[at] = (char) (1 + s.draw (255)); else t += (char) (1 + s.draw (255)); break; default: if (at < t.size ()) { std::string c = t.substr (at, 1 + s.draw (20)); t.insert (s.draw (t.size () + 1), c); } break; }
  }
  note ("%s", pbt::quoted (t, 4000).c_str ()); char * p = exact (t); iot_data_t * d = iot_data_from_xml (p); free (p);
  if (t.find ("<a") != std::string::npos || d) pbt::nontrivial (); pbt::label_if (d != nullptr, "accepted");
  if (d) CHECK (is_element (d), "%s is read as %s", pbt::quoted (t).c_str (), show (read (d)).c_str ());
  if (t.find ('<') == std::string::npos || t.find ('>') == std::string::npos) CHECK (!d, "text without an element is accepted");
  iot_data_free (d);
}
TARGET (deep, 400, 6000, pbt::LEAK)
{
  pbt::setrule ("nested over 100 levels or long names");
  size_t n = s.flag () ? s.draw (3000) : s.draw (200); std::string nm = std::string (1 + s.draw (s.flag () ? 5000 : 4), 'n'), t; for (size_t i = 0; i < n; i++) t += "<" + nm + ">"; for (size_t i = 0; i < n; i++) t += "</" + nm + ">";
  note ("%zu levels of %zu characters", n, nm.size ()); if (n > 100 || nm.size () > 100) pbt::nontrivial ();
  if (t.size () > 2000000) return; char * p = exact (t); iot_data_t * d = iot_data_from_xml (p); free (p);
  if (n && n * (nm.size () + 1) < 4000) { CHECK (d, "%zu levels of %zu characters rejected", n, nm.size ()); CHECK (vdepth (read (d)) >= (int) n, "depth %d read of %zu", vdepth (read (d)), n); }
  iot_data_free (d);
}

PROBE (xml_cut_close, "XML cut between white space in the root's end tag and its '>' is accepted")
{
  iot_data_t * d = iot_data_from_xml ("<a></a "); bool got = d; iot_data_free (d); CHECK (!got, "\"<a></a \" is read as a complete element");
}

// long parts and many of them
TARGET (large, 250, 6000, pbt::LEAK)
{
  pbt::setrule ("more than 255 parts");
  int kind = (int) s.draw (4); size_t n = big_size (s, kind == 0 ? 2100 : kind == 2 ? 8200 : 140000); El e; e.name = "r"; std::string t = "<r"; note ("kind %d, %zu parts", kind, n); if (n > 255) pbt::nontrivial ();
  switch (kind)
  {
    case 0: for (size_t i = 0; i < n; i++) { std::string a = "a" + std::to_string (i); t += " " + a + "='" + a + "'"; e.attrs.push_back ({ a, a }); } t += "/>"; break;
    case 1: { std::string v (n, 'v'); t += " a='" + v + "' b='&lt;" + v + "'/>"; e.attrs.push_back ({ "a", v }); e.attrs.push_back ({ "b", "<" + v }); break; }
    case 2: t += ">"; for (size_t i = 0; i < n; i++) { El k; k.name = i % 3 ? "c" : "dd"; t += "<" + k.name + "/>"; e.kids.push_back (k); } t += "</r>"; break;
    default: { t += ">"; for (size_t i = 0; i < n; i++) e.text += (char) ('a' + i % 26); if (s.flag ()) t += e.text; else t += "<![CDATA[" + e.text + "]]>"; t += "</r>"; break; }
  }
  char * p = exact (t); iot_data_t * d = iot_data_from_xml (p); free (p); CHECK (d, "a well-formed document is rejected"); V got = read (d), want = val_of (e); iot_data_free (d); CHECK (veq (got, want), "document read differently: %s", show (got).c_str ());
}
