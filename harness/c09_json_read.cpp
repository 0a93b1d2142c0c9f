// C09: reading JSON text and the tokeniser.
#include "mutate.h"
#include "jsonref.h"
#include "iot/json.h"
using namespace gen;
using namespace jref;
using pbt::note;

static char * exact (const std::string & t) { char * p = (char *) malloc (t.size () + 1); memcpy (p, t.c_str (), t.size () + 1); return p; }
static std::string any_text (Src & s)
{
  switch (s.weighted ({ 5, 2, 2 }))
  {
    case 0: { std::string t; gen_doc (s, t, 3, 4, true); return damage (s, t); }
    case 1: { std::string t; static const char al[] = "{}[]\",:\\u0123abdeEtrufalsn -+.\n\xc3\xa9"; size_t n = s.len (80, 12); for (size_t i = 0; i < n; i++) t += al[s.draw (sizeof al - 1)]; return t; }
    default: { std::string t; size_t n = s.len (60, 10); for (size_t i = 0; i < n; i++) t += (char) (1 + s.draw (255)); return t; }
  }
}

TARGET (document, 60000, 2500000, pbt::LEAK)
{
  pbt::setrule ("the document is a container with at least two parts");
  std::string t; J j = gen_doc (s, t, 4, 4, s.chance (1, 8)); note ("%s", pbt::quoted (t, 3000).c_str ());
  J chk; std::string err; CHECK (jref::parse (t, chk, err), "harness: generated text not valid: %s", err.c_str ());
  V want = denote (j); CHECK (veq (denote (chk), want), "harness: generator and reader disagree");
  bool dup = false; // ordering lists every occurrence of a repeated name: only unique names are read with ordering
  { std::vector<const J *> st { &j }; while (!st.empty ()) { const J * x = st.back (); st.pop_back (); for (auto & y : x->a) st.push_back (&y); for (size_t i = 0; i < x->o.size (); i++) { st.push_back (&x->o[i].second); for (size_t k = 0; k < i; k++) if (x->o[k].first == x->o[i].first) dup = true; } } }
  if (j.a.size () + j.o.size () > 1) pbt::nontrivial (); pbt::label_if (t.find ("\\u") != std::string::npos, "unicode escapes"); pbt::label_if (dup, "repeated names");
  char * p = exact (t); iot_data_t * d;
  switch (s.draw (dup ? 2 : 4))
  {
    case 0: d = iot_data_from_json (p); break;
    case 1: { iot_data_t * c = iot_data_alloc_map (IOT_DATA_STRING); if (s.flag ()) { iot_data_t * k = iot_data_alloc_string ("a", IOT_DATA_COPY); iot_data_map_add (c, k, iot_data_add_ref (k)); } d = iot_data_from_json_with_cache (p, false, c); iot_data_free (c); break; }
    case 2: d = iot_data_from_json_with_ordering (p, s.flag ()); break;
    default: { iot_data_t * c = iot_data_alloc_map (IOT_DATA_STRING); d = iot_data_from_json_with_cache (p, true, c); iot_data_free (c); break; }
  }
  free (p);
  V got = read (d); CHECK (veq (got, want), "%s is read as %s, denotes %s", pbt::quoted (t, 2000).c_str (), show (got).c_str (), show (want).c_str ());
  iot_data_free (d);
}

TARGET (arbitrary, 60000, 3000000, pbt::LEAK)
{
  pbt::setrule ("the text is not valid JSON and yields something other than null");
  std::string t = any_text (s); note ("%s", pbt::quoted (t, 3000).c_str ());
  char * p = exact (t); iot_data_t * d = iot_data_from_json_with_cache (p, s.flag (), nullptr); free (p);
  CHECK (d, "no value returned"); J j; std::string err; bool ok = jref::parse (t, j, err);
  if (!ok && iot_data_type (d) != IOT_DATA_NULL) pbt::nontrivial (); pbt::label_if (ok, "valid");
  char * w = iot_data_to_json (d); free (w); V v = read (d); iot_data_t * c = iot_data_copy (d); CHECK (veq (read (c), v), "copy differs"); iot_data_free (c); iot_data_free (d);
}

struct Toks { iot_json_tok_t * p; size_t n; explicit Toks (size_t k) : p ((iot_json_tok_t *) malloc ((k ? k : 1) * sizeof (iot_json_tok_t))), n (k) {} ~Toks () { free (p); } Toks (const Toks &) = delete; };
static void check_tokens (const std::string & t, const iot_json_tok_t * k, int n)
{
  std::vector<uint32_t> kids ((size_t) n, 0);
  for (int i = 0; i < n; i++)
  {
    CHECK (k[i].type >= IOT_JSON_OBJECT && k[i].type <= IOT_JSON_PRIMITIVE, "token %d has type %d", i, (int) k[i].type);
    CHECK (k[i].start >= 0 && k[i].end >= k[i].start && (size_t) k[i].end <= t.size (), "token %d has range %d to %d of %zu", i, k[i].start, k[i].end, t.size ());
    CHECK (k[i].parent >= -1 && k[i].parent < i, "token %d has parent %d", i, k[i].parent);
    if (k[i].parent >= 0) kids[(size_t) k[i].parent]++;
    char a = t[(size_t) k[i].start], b = k[i].end > k[i].start ? t[(size_t) k[i].end - 1] : 0;
    if (k[i].type == IOT_JSON_OBJECT) CHECK (a == '{' && b == '}', "object token %d covers %c..%c", i, a, b);
    else if (k[i].type == IOT_JSON_ARRAY) CHECK (a == '[' && b == ']', "array token %d covers %c..%c", i, a, b);
    else if (k[i].type != IOT_JSON_PRIMITIVE)
    {
      CHECK (k[i].start > 0 && t[(size_t) k[i].start - 1] == '"' && t[(size_t) k[i].end] == '"', "string token %d is not between quotes", i);
      bool e = false; for (int q = k[i].start; q < k[i].end; q++) if (t[(size_t) q] == '\\') e = true; CHECK (e == (k[i].type == IOT_JSON_STRING_ESC), "string token %d has type %d", i, (int) k[i].type);
    }
  }
  for (int i = 0; i < n; i++) CHECK (kids[(size_t) i] == k[i].size, "token %d has size %u and %u child tokens", i, k[i].size, kids[(size_t) i]);
}
static bool same_toks (const iot_json_tok_t * a, const iot_json_tok_t * b, int n) { for (int i = 0; i < n; i++) if (a[i].type != b[i].type || a[i].start != b[i].start || a[i].end != b[i].end || a[i].size != b[i].size || a[i].parent != b[i].parent) return false; return true; }
// tokens a document must have
static void ref_toks (const J & j, std::vector<std::pair<int, uint32_t>> & o)
{
  switch (j.k)
  {
    case J::ARR: o.push_back ({ IOT_JSON_ARRAY, (uint32_t) j.a.size () }); for (auto & x : j.a) ref_toks (x, o); break;
    case J::OBJ: o.push_back ({ IOT_JSON_OBJECT, (uint32_t) j.o.size () }); for (auto & x : j.o) { o.push_back ({ IOT_JSON_STRING, 1 }); ref_toks (x.second, o); } break;
    case J::STR: o.push_back ({ IOT_JSON_STRING, 0 }); break;
    default: o.push_back ({ IOT_JSON_PRIMITIVE, 0 }); break;
  }
}

TARGET (tokens, 60000, 2500000, pbt::LEAK)
{
  pbt::setrule ("the text has at least three tokens");
  bool valid = s.chance (2, 3); std::string t; J j; if (valid) j = gen_doc (s, t, 4, 4, true); else t = any_text (s);
  note ("%s", pbt::quoted (t, 3000).c_str ()); pbt::label_if (valid, "valid");
  // the text is given by length: nothing follows it
  char * raw = (char *) malloc (t.size () ? t.size () : 1); memcpy (raw, t.data (), t.size ());
  iot_json_parser p; iot_json_init (&p); int count = iot_json_parse (&p, raw, t.size (), nullptr, 0);
  size_t room = t.size () + 2; Toks all (room); iot_json_init (&p); int full = iot_json_parse (&p, raw, t.size (), all.p, (uint32_t) room);
  CHECK (full != IOT_JSON_ERROR_NOMEM, "out of tokens with one per character");
  if (valid)
  {
    std::vector<std::pair<int, uint32_t>> ref; ref_toks (j, ref);
    CHECK (full == (int) ref.size () && count == full, "%zu tokens expected, counted %d, parsed %d", ref.size (), count, full);
    for (int i = 0; i < full; i++) CHECK ((all.p[i].type == IOT_JSON_STRING_ESC ? IOT_JSON_STRING : all.p[i].type) == ref[(size_t) i].first && all.p[i].size == ref[(size_t) i].second, "token %d has type %d and size %u, expected %d and %u", i, (int) all.p[i].type, all.p[i].size, ref[(size_t) i].first, ref[(size_t) i].second);
  }
  if (full >= 0)
  {
    if (full >= 3) pbt::nontrivial ();
    CHECK (count == full, "counted %d tokens, parsed %d", count, full); CHECK (p.toknext == full, "parsed %d tokens, next is %d", full, p.toknext);
    check_tokens (t, all.p, full);
    { Toks ex ((size_t) full); iot_json_init (&p); int r = iot_json_parse (&p, raw, t.size (), ex.p, (uint32_t) full); CHECK (r == full && same_toks (ex.p, all.p, full), "with %d tokens parsing gives %d", full, r); }
  }
  // any smaller array: stops at the end of the array, and continues in a larger one
  int64_t need = full >= 0 ? full : p.toknext; if (full < 0) { iot_json_init (&p); Toks again (room); iot_json_parse (&p, raw, t.size (), again.p, (uint32_t) room); need = p.toknext; }
  if (need > 0)
  {
    size_t have = (size_t) s.draw ((uint64_t) need); Toks cur (have); iot_json_init (&p); int r = iot_json_parse (&p, raw, t.size (), cur.p, (uint32_t) have);
    CHECK (r == IOT_JSON_ERROR_NOMEM, "%zu tokens given, %lld needed: %d returned", have, (long long) need, r); CHECK ((size_t) p.toknext <= have, "%d tokens used of %zu", p.toknext, have);
    pbt::label ("resumed with more tokens");
    iot_json_tok_t * buf = (iot_json_tok_t *) malloc ((have ? have : 1) * sizeof *buf); memcpy (buf, cur.p, have * sizeof *buf); int res = r;
    while (res == IOT_JSON_ERROR_NOMEM)
    {
      size_t more = have + 1 + s.draw (4); buf = (iot_json_tok_t *) realloc (buf, more * sizeof *buf); have = more;
      res = iot_json_parse (&p, raw, t.size (), buf, (uint32_t) have);
    }
    CHECK (res == full, "resumed parse gives %d, one go %d", res, full);
    if (full >= 0) CHECK (same_toks (buf, all.p, full), "tokens differ after resuming");
    free (buf);
  }
  // more text: cut outside a bare primitive
  if (valid && t.size () > 1)
  {
    std::vector<size_t> cuts; bool in = false, escd = false;
    for (size_t i = 1; i < t.size (); i++)
    {
      char c = t[i - 1]; if (in) { if (escd) escd = false; else if (c == '\\') escd = true; else if (c == '"') in = false; } else if (c == '"') in = true;
      auto prim = [] (char x) { return !strchr (" \t\r\n,:[]{}\"", x); }; if (in || !prim (t[i - 1])) cuts.push_back (i);
    }
    if (!cuts.empty ())
    {
      size_t c1 = cuts[s.draw (cuts.size ())]; Toks k (room); iot_json_init (&p); char * head = (char *) malloc (c1); memcpy (head, raw, c1);
      int r = iot_json_parse (&p, head, c1, k.p, (uint32_t) room); free (head);
      bool blank = true; for (size_t i = 0; i < c1; i++) if (!strchr (" \t\r\n", t[i])) blank = false;
      bool done = true; for (size_t i = c1; i < t.size (); i++) if (!strchr (" \t\r\n", t[i])) done = false;
      if (!blank && !done) CHECK (r == IOT_JSON_ERROR_PART, "text cut after %zu bytes: %d returned", c1, r);
      r = iot_json_parse (&p, raw, t.size (), k.p, (uint32_t) room); CHECK (r == full && same_toks (k.p, all.p, full), "after more text the parse gives %d, in one go %d", r, full);
      pbt::label ("resumed with more text");
    }
  }
  free (raw);
}

// a valid document with one escape sequence or one bracket broken is rejected
TARGET (broken, 40000, 1500000, pbt::LEAK)
{
  pbt::setrule ("the document has at least three parts");
  std::string t; J j = gen_doc (s, t, 4, 4, true); std::vector<size_t> in, open, close; bool str = false;
  for (size_t i = 0; i < t.size (); i++)
  {
    char c = t[i];
    if (str) { in.push_back (i); if (c == '\\') { if (t[i + 1] == 'u') i += 5; else i++; } else if (c == '"') str = false; }   // a break can be put before each character
    else if (c == '"') str = true; else if (c == '[' || c == '{') open.push_back (i); else if (c == ']' || c == '}') close.push_back (i);
  }
  unsigned how = (unsigned) s.weighted ({ in.empty () ? 0u : 3u, in.empty () ? 0u : 3u, open.empty () ? 0u : 1u, open.empty () ? 0u : 1u, open.empty () ? 0u : 1u, open.empty () ? 0u : 1u, 1u });
  switch (how)
  {
    case 0: { static const char bad[] = "acdeghijklmopqsvwxyzUNRTBF0123456789'?;:{}[]-\x01\n \x7f"; t.insert (in[s.draw (in.size ())], std::string ("\\") + bad[s.draw (sizeof bad - 1)]); pbt::label ("unknown escape"); break; }
    case 1:
    {
      static const char bad[] = "ghGHxXzZ@`/: \"\\uU-+.\x7f\xc3\x01"; std::string e = "\\u"; for (size_t n = s.draw (4); n--; ) e += "0123456789abcdefABCDEF"[s.draw (22)];
      e += bad[s.draw (sizeof bad - 1)]; t.insert (in[s.draw (in.size ())], e); pbt::label ("bad unicode escape"); break;
    }
    case 2: t.erase (open[s.draw (open.size ())], 1); pbt::label ("opening bracket missing"); break;
    case 3: t.erase (close[s.draw (close.size ())], 1); pbt::label ("closing bracket missing"); break;
    case 4: { size_t i = open[s.draw (open.size ())]; t[i] = t[i] == '[' ? '{' : '['; pbt::label ("other opening bracket"); break; }
    case 5: { size_t i = close[s.draw (close.size ())]; t[i] = t[i] == ']' ? '}' : ']'; pbt::label ("other closing bracket"); break; }
    default: t.insert (close.empty () || s.flag () ? t.size () : close[s.draw (close.size ())] + 1, 1, s.flag () ? ']' : '}'); pbt::label ("closing bracket added"); break;
  }
  if (in.size () + open.size () > 2) pbt::nontrivial (); note ("%s", pbt::quoted (t, 3000).c_str ());
  char * raw = (char *) malloc (t.size () ? t.size () : 1); memcpy (raw, t.data (), t.size ());
  size_t room = t.size () + 2; Toks all (room); iot_json_parser p; iot_json_init (&p); int r = iot_json_parse (&p, raw, t.size (), all.p, (uint32_t) room); free (raw);
  CHECK (r == IOT_JSON_ERROR_INVAL || r == IOT_JSON_ERROR_PART || (t.empty () && r == 0), "tokeniser returns %d", r);
  if (how < 2) CHECK (r == IOT_JSON_ERROR_INVAL, "tokeniser returns %d for a bad escape sequence", r);
  char * x = exact (t); iot_data_t * d = iot_data_from_json_with_cache (x, s.flag (), nullptr); free (x);
  CHECK (d && iot_data_type (d) == IOT_DATA_NULL, "broken text is read as a value"); iot_data_free (d);
}

// large documents: many elements, long strings and names, deep nesting
TARGET (large, 120, 4000, pbt::LEAK)
{
  pbt::setrule ("more than 255 parts");
  int kind = (int) s.draw (5); size_t n = big_size (s, kind == 4 ? 1200 : kind == 3 ? 3000 : 72000); if (n > 255) pbt::nontrivial (); note ("kind %d, %zu parts", kind, n);
  std::string t; J j; std::string leaf; J one = gen_doc (s, leaf, 2, 3);
  switch (kind)
  {
    case 0: { std::string x; for (size_t i = 0; i < n && x.size () < 400000; i++) x += gen_utf8 (s, 200, 20) + std::string (i % 300, 'x'); j.k = J::STR; j.s = x; render_str (s, x, t); break; }
    case 1: case 2:
      j.k = J::ARR; t = "["; for (size_t i = 0; i < n; i++) { if (i) t += i % 7 == 3 ? " ,\n" : ","; if (i % 1000 == 999) { t += leaf; j.a.push_back (one); } else { J e; if (kind == 1) { e.k = J::NUM; e.s = std::to_string ((long) i * 77 - 50000); t += e.s; } else if (i % 3) { e.k = J::STR; e.s = "s" + std::to_string (i); t += "\"" + e.s + "\""; } else { e.k = i % 2 ? J::ARR : J::OBJ; t += i % 2 ? "[]" : "{}"; } j.a.push_back (e); } } t += "]"; break;
    case 3:
      j.k = J::OBJ; t = "{"; for (size_t i = 0; i < n; i++) { if (i) t += ","; std::string k = "k" + std::to_string (i * 7919 % 100003); t += "\"" + k + "\":"; if (i % 100 == 99) { t += leaf; j.o.push_back ({ k, one }); } else { J e; e.k = J::NUM; e.s = std::to_string (i); t += e.s; j.o.push_back ({ k, e }); } } t += "}"; break;
    default:
    {
      t = leaf; j = one; for (size_t i = 0; i < n; i++) { J o; if (s.flag ()) { o.k = J::ARR; t = "[" + t + "]"; o.a.push_back (std::move (j)); } else { o.k = J::OBJ; t = "{\"a\":" + t + "}"; o.o.push_back ({ "a", std::move (j) }); } j = std::move (o); } break;
    }
  }
  { std::vector<std::pair<int, uint32_t>> ref; ref_toks (j, ref); iot_json_parser p; iot_json_init (&p); Toks k (ref.size ()); int r = iot_json_parse (&p, t.c_str (), t.size (), k.p, (uint32_t) ref.size ()); CHECK (r == (int) ref.size (), "%zu tokens, parsed %d", ref.size (), r); iot_json_init (&p); CHECK (iot_json_parse (&p, t.c_str (), t.size (), nullptr, 0) == r, "counted differently");
    for (size_t i = 0; i < ref.size (); i++) CHECK ((k.p[i].type == IOT_JSON_STRING_ESC ? IOT_JSON_STRING : k.p[i].type) == ref[i].first && k.p[i].size == ref[i].second, "token %zu has type %d and size %u", i, (int) k.p[i].type, k.p[i].size); }
  char * p = exact (t); iot_data_t * d = s.flag () ? iot_data_from_json (p) : iot_data_from_json_with_ordering (p, true); free (p); V got = read (d), want = denote (j); CHECK (veq (got, want), "large document is read as another value"); iot_data_free (d);
}

static void * deep (void *)
{
  std::string t (12000, '['); t += std::string (12000, ']'); iot_data_t * d = iot_data_from_json (t.c_str ()); iot_data_free (d); return nullptr;
}
PROBE (json_depth, "JSON text nested 12000 levels deep exhausts a thread stack of 512 kB")
{
  pthread_attr_t a; pthread_t th; pthread_attr_init (&a); pthread_attr_setstacksize (&a, 512 * 1024); pthread_create (&th, &a, deep, nullptr); pthread_join (th, nullptr); pthread_attr_destroy (&a);
}
