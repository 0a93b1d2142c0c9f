// C25: environment substitution against a reference scanner, in a generated environment.
#include "pbt.h"
#include "iot/config.h"
#include "iot/logger.h"
#include <string.h>
#include <stdlib.h>
#include <map>
using pbt::Src; using pbt::Span; using pbt::note;
extern char ** environ;

static unsigned g_logged;
static void log_count (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void *) { g_logged++; }

static std::string name_of_len (size_t n) { return std::string (n, 'N'); }
static const std::vector<std::string> & names ()
{
  static std::vector<std::string> v = { "VPA", "VPB", "VP_LONGER_NAME_1", "VPx", "V", "VP A", "VP$", "VP{", "${VPA", "VP${V", "$", "{", "\xc3\xa9", name_of_len (62), name_of_len (63), name_of_len (64), name_of_len (65), name_of_len (200), "VPA:-x", " ", "VPAB", "vpa" };
  return v;
}
static std::string gen_val (Src & s)
{
  if (s.chance (1, 2000)) return std::string (70000, 'L');
  switch (s.draw (8))
  {
    case 0: return "";
    case 1: return "${VPA}";
    case 2: return "${";
    case 3: return std::string (s.draw (400), (char) ('a' + s.draw (26)));
    case 4: { std::string r; for (size_t n = s.draw (12); n--; ) r += (char) (1 + s.draw (255)); return r; }
    case 5: return "}$${}";
    default: { std::string r; for (size_t n = s.draw (6); n--; ) r += (char) ('a' + s.draw (3)); return r; }
  }
}
static std::string gen_input (Src & s)
{
  std::string r; size_t n = s.len (14, 4); if (s.chance (1, 1500)) r = std::string (s.flag () ? 65530 + s.draw (10) : 4090 + s.draw (10), 'l');
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    switch (s.weighted ({ 6, 3, 2, 2, 1, 1, 1 }))
    {
      case 0: r += "${" + s.pick (names ()) + "}"; break;
      case 1: for (size_t k = 1 + s.draw (5); k--; ) r += (char) ('a' + s.draw (4)); break;
      case 2: r += std::string (1, "$${}{} \\\"\n=\x80\xff"[s.draw (13)]); break;
      case 3: r += "$"; if (s.flag ()) r += "{"; break;
      case 4: r += "${" + s.pick (names ()); break;
      case 5: r += std::string (1 + s.draw (300), (char) ('p' + s.draw (4))); break;
      default: r += s.flag () ? "${}" : "}"; break;
    }
  }
  std::string z; for (char c : r) if (c) z += c;
  return z;
}

typedef std::map<std::string, std::string> Env;
static void clear_env () { for (auto & n : names ()) unsetenv (n.c_str ()); }

// reference: true and the text, or false when a reference cannot be resolved
static bool ref (const std::string & in, const Env & env, std::string & out, unsigned & subs)
{
  out.clear (); subs = 0;
  for (size_t i = 0; i < in.size (); )
  {
    if (in.compare (i, 2, "${") == 0)
    {
      size_t e = in.find ('}', i + 2);
      if (e != std::string::npos)
      {
        std::string n = in.substr (i + 2, e - i - 2);
        if (n.empty () || n.size () > 63) return false;
        auto it = env.find (n);
        if (it == env.end ()) return false;
        out += it->second; subs++; i = e + 1; continue;
      }
    }
    out += in[i++];
  }
  return true;
}

static void one (Src & s, bool resolvable)
{
  static bool init = false;
  if (!init) { init = true; iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); pbt::setrule ("the input holds at least one terminated reference and something else, or substitution is refused"); }
  clear_env (); Env env;
  for (auto & n : names ()) if (resolvable ? s.draw (8) != 1 : s.flag ()) { env[n] = gen_val (s); setenv (n.c_str (), env[n].c_str (), 1); }
  std::vector<std::string> before; for (char ** e = environ; *e; e++) before.push_back (*e);
  size_t calls = 1 + s.draw (3);
  for (size_t c = 0; c < calls; c++)
  {
    Span sp (s);
    std::string in = gen_input (s);
    if (resolvable)   // replace unresolvable references so that most inputs succeed
    {
      std::string o; unsigned k;
      for (int t = 0; t < 20 && !ref (in, env, o, k); t++)
      {
        size_t p = in.find ("${"), e = p == std::string::npos ? p : in.find ('}', p + 2);
        while (p != std::string::npos && e != std::string::npos) { std::string n = in.substr (p + 2, e - p - 2); if (!(n.size () && n.size () <= 63 && env.count (n))) break; p = in.find ("${", e + 1); e = p == std::string::npos ? p : in.find ('}', p + 2); }
        if (p == std::string::npos || e == std::string::npos) break;
        in.erase (p, e + 1 - p);
      }
    }
    std::string want; unsigned subs; bool ok = ref (in, env, want, subs);
    note ("substitute %s -> %s", pbt::quoted (in).c_str (), ok ? pbt::quoted (want).c_str () : "refused");
    char * buf = (char *) malloc (in.size () + 1); memcpy (buf, in.c_str (), in.size () + 1);
    bool own = s.flag (); iot_logger_t * lg = nullptr; g_logged = 0;
    if (own) { lg = iot_logger_alloc_custom ("vp", IOT_LOG_TRACE, true, nullptr, log_count, nullptr, nullptr); }
    char * got = iot_config_substitute_env (buf, lg);
    CHECK (memcmp (buf, in.c_str (), in.size () + 1) == 0, "input changed");
    CHECK ((got != nullptr) == ok, "%s although %s", got ? "accepted" : "refused", ok ? "every reference resolves" : "a reference does not resolve");
    if (got)
    {
      CHECK (got != buf, "result is the input");
      CHECK (strlen (got) == want.size () && want == got, "got %s, expected %s", pbt::quoted (got).c_str (), pbt::quoted (want).c_str ());
      for (auto & e : env) CHECK (getenv (e.first.c_str ()) != got, "result is the environment's string");
      got[0] = got[0] ? '#' : 0;   // ours to write
      free (got);
    }
    if (own) { CHECK (ok ? g_logged == 0 : g_logged > 0, "%u messages logged", g_logged); iot_logger_free (lg); }
    free (buf);
    if (!ok || (subs && in.size () > 6)) pbt::nontrivial ();
    pbt::label_if (subs >= 1, "substituted"); pbt::label_if (subs >= 3, "several"); pbt::label_if (!ok, "refused"); pbt::label_if (want.size () > in.size (), "grows"); pbt::label_if (in.empty (), "empty");
  }
  size_t k = 0; for (char ** e = environ; *e; e++, k++) CHECK (k < before.size () && before[k] == *e, "environment changed");
  CHECK (k == before.size (), "environment changed");
  for (auto & n : names ()) { const char * v = getenv (n.c_str ()); auto it = env.find (n); CHECK ((v != nullptr) == (it != env.end ()) && (!v || it->second == v), "variable changed"); }
  CHECK (iot_config_substitute_env (nullptr, nullptr) == nullptr, "NULL input");
  clear_env ();
}

TARGET (resolvable, 60000, 3000000, pbt::LEAK) { one (s, true); }
TARGET (any, 40000, 2000000, pbt::LEAK) { one (s, false); }
