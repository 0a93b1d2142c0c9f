// C17: base64 against a reference codec, exactly sized buffers under ASan.
#include "gen.h"
using namespace gen; using pbt::note;

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc (const std::string & b)
{
  std::string r; unsigned acc = 0; int nb = 0;
  for (unsigned char c : b) { acc = acc << 8 | c; nb += 8; while (nb >= 6) { nb -= 6; r += AL[acc >> nb & 63]; } }
  if (nb) r += AL[acc << (6 - nb) & 63]; while (r.size () % 4) r += '='; return r;
}
static std::string dec (const std::string & t)   // symbols up to the first '=', newlines skipped; text is within the alphabet
{
  std::string r; unsigned acc = 0; int nb = 0;
  for (char c : t) { if (c == '=') break; if (c == '\n') continue; acc = acc << 6 | (unsigned) (strchr (AL, c) - AL); nb += 6; if (nb >= 8) { nb -= 8; r += (char) (acc >> nb & 255); } }
  return r;
}
static std::string gen_bytes (Src & s) { size_t n = s.chance (1, 3000) ? big_size (s) : s.len (2000, 20); std::string r; if (n > 60) { uint64_t x = s.raw64 () | 1; for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; r += (char) (x >> 56); } } else for (size_t i = 0; i < n; i++) r += s.chance (1, 4) ? (char) 0xff : (char) s.draw (256); return r; }

TARGET (encode, 300000, 10000000, pbt::LEAK)
{
  pbt::setrule ("at least three bytes");
  std::string b = gen_bytes (s), want = enc (b); size_t need = iot_b64_encodesize (b.size ()); if (b.size () >= 3) pbt::nontrivial ();
  CHECK (need == want.size () + 1, "encoded size of %zu bytes announced as %zu, is %zu", b.size (), need, want.size () + 1);
  size_t room = s.flag () ? need : s.flag () ? need + s.draw (9) : s.draw (need + 4); pbt::label_if (room < need, "output too small"); pbt::label_if (room == need, "exact output size");
  note ("%zu bytes into %zu", b.size (), room);
  char * in = (char *) malloc (b.size () ? b.size () : 1), * out = (char *) malloc (room ? room : 1); memcpy (in, b.data (), b.size ()); memset (out, 0x55, room ? room : 1);
  bool ok = iot_b64_encode (in, b.size (), out, room);
  CHECK (ok == (room >= need), "encode of %zu bytes into %zu %s", b.size (), room, ok ? "succeeds" : "fails");
  if (ok) { CHECK (strlen (out) == want.size () && want == out, "encoded as %s, expected %s", pbt::quoted (out).c_str (), want.c_str ()); for (size_t i = need; i < room; i++) CHECK (out[i] == 0x55, "wrote beyond the announced size"); }
  CHECK (!memcmp (in, b.data (), b.size ()), "input changed");
  if (ok)
  {
    size_t max = iot_b64_maxdecodesize (out); CHECK (max >= b.size () && max <= b.size () + 2, "maximum decoded size %zu for %zu bytes", max, b.size ());
    size_t space = s.flag () ? max : s.flag () ? b.size () : s.draw (max + 3); char * d = (char *) malloc (space ? space : 1); memset (d, 0x33, space ? space : 1); size_t len = space;
    bool dok = iot_b64_decode (out, d, &len); CHECK (dok == (space >= b.size ()), "decode of %zu bytes into %zu %s", b.size (), space, dok ? "succeeds" : "fails");
    if (dok) { CHECK (len == b.size () && !memcmp (d, b.data (), len), "decoding does not give the encoded bytes"); for (size_t i = len; i < space; i++) CHECK (d[i] == 0x33, "decoder wrote beyond its result"); }
    pbt::label_if (space == b.size (), "exact decode size"); pbt::label_if (space < b.size (), "decode space too small"); free (d);
  }
  free (in); free (out);
}

TARGET (decode, 500000, 20000000, pbt::LEAK)
{
  pbt::setrule ("the text has at least four characters");
  std::string t = enc (gen_bytes (s)); size_t n = s.draw (5);
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); size_t at = s.draw (t.size () + 1);
    switch (s.draw (7))
    {
      case 0: t.insert (at, 1, '\n'); break;
      case 1: if (at < t.size ()) t.erase (at, 1 + s.draw (3)); break;
      case 2: t.insert (at, 1, (char) (1 + s.draw (255))); break;
      case 3: if (at < t.size ()) t[at] = (char) (1 + s.draw (255)); break;
      case 4: while (!t.empty () && t.back () == '=') t.pop_back (); break;
      case 5: t.insert (at, 1, '='); break;
      default: t.insert (at, 1, AL[s.draw (64)]); break;
    }
  }
  if (s.chance (1, 10)) { t = s.bytes (60, 10); for (auto & c : t) if (!c) c = '='; }
  if (t.size () >= 4) pbt::nontrivial ();
  size_t eq = t.find ('='); std::string body = t.substr (0, eq); bool bad = false; size_t syms = 0, after = 0; for (char c : body) if (c != '\n') { if (!strchr (AL, c)) bad = true; else syms++; }
  if (eq != std::string::npos) for (size_t i = eq; i < t.size (); i++) if (t[i] != '=' && t[i] != '\n') after++;
  std::string want; if (!bad) want = dec (t);
  char * in = (char *) malloc (t.size () + 1); memcpy (in, t.c_str (), t.size () + 1);
  size_t max = iot_b64_maxdecodesize (in); if (!bad) CHECK (max >= want.size (), "announced maximum %zu is below the decoded size %zu", max, want.size ());
  size_t space = s.chance (1, 2) ? max : s.flag () && !bad ? want.size () : s.draw (max + 3); note ("%s into %zu", pbt::quoted (t).c_str (), space);
  bool room = space >= want.size (), formed = !bad && !after && syms % 4 != 1;
  pbt::label_if (bad, "outside the alphabet"); pbt::label_if (!bad && !room, "space too small"); pbt::label_if (formed && eq == std::string::npos && syms % 4, "unpadded"); pbt::label_if (after, "text after padding"); pbt::label_if (body.find ('\n') != std::string::npos, "newlines");
  char * out = (char *) malloc (space ? space : 1); memset (out, 0x33, space ? space : 1); size_t len = space; bool ok = iot_b64_decode (in, out, &len);
  if (bad) CHECK (!ok, "text with characters outside the alphabet is accepted");
  else if (!room) CHECK (!ok, "%zu bytes accepted into %zu", want.size (), space);
  else if (formed) { CHECK (ok, "well-formed text is rejected"); CHECK (len == want.size () && !memcmp (out, want.data (), len), "decoded bytes differ (%zu, expected %zu)", len, want.size ()); }
  else if (ok) CHECK (len <= space, "length beyond the space given");
  CHECK (t == in, "input changed");
  iot_data_t * d = iot_data_alloc_array_from_base64 (in);
  if (bad) CHECK (!d, "array from text outside the alphabet");
  else if (formed) { CHECK (d && iot_data_type (d) == IOT_DATA_ARRAY && iot_data_array_type (d) == IOT_DATA_UINT8 && iot_data_array_size (d) == want.size () && (want.empty () || !memcmp (iot_data_address (d), want.data (), want.size ())), "array from base64 differs"); }
  if (d) iot_data_free (d); free (in); free (out);
}
