// C23: several threads log at shared logger chains under generated schedules: every admitted message arrives exactly once and whole.
#include "vsched.h"
#include "iot/iot.h"
#include "iot/logger.h"
#include <algorithm>
#include <map>
#include <set>
#include <string.h>
#include <sys/prctl.h>
#include <unistd.h>
using pbt::Src; using pbt::Span; using pbt::note;

struct G { iot_logger_t * l; int kind, next; int level; std::vector<std::string> got; std::string path; std::string name; bool dead = false; };     // kind 0 custom, 1 console, 2 file
static void sink (iot_logger_t *, iot_loglevel_t level, uint64_t, const char * m, const void * ctx) { G * g = (G *) ctx; vs::yield (); vs::Atomic a; CHECK (!g->dead, "sink of a freed logger called"); g->got.push_back (std::to_string ((int) level) + m); }
static void gone (void * ctx) { vs::Atomic a; G * g = (G *) ctx; CHECK (!g->dead, "context released twice"); g->dead = true; }
static const char * LNAME[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
static std::vector<std::string> lines (const std::string & t) { std::vector<std::string> r; size_t p = 0; while (p < t.size ()) { size_t e = t.find ('\n', p); e = e == std::string::npos ? t.size () : e + 1; r.push_back (t.substr (p, e - p)); p = e; } return r; }
struct M { int head, level; std::string text; };

TARGET (threads, 60000, 3000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads logged at the same logger, and several context switches happened");
  unsigned nt = 2 + (unsigned) s.draw (2), nl = 1 + (unsigned) s.draw (3); std::vector<G *> L; std::vector<std::vector<M>> prog; char tn[16] = { 0 }; prctl (PR_GET_NAME, tn);
  bool change = s.draw (3) == 2; int lo = 0, hi = 5, which = 0;       // another thread changes the level of one logger between lo and hi
  for (unsigned i = 0; i < nl; i++) { Span sp (s); G * g = new G { nullptr, (int) s.draw (3), i && s.flag () ? (int) s.draw (i) : -1, (int) s.draw (6) }; g->name = "log" + std::to_string (i); L.push_back (g); }
  for (unsigned t = 0; t < nt; t++) { std::vector<M> p; for (size_t i = 0, n = 1 + s.draw (3); i < n; i++) { Span sp (s); M m; m.head = (int) s.draw (nl); m.level = 1 + (int) s.draw (5); m.text = "m" + std::to_string (t) + "." + std::to_string (i) + ":"; m.text += std::string (s.draw (3) == 2 ? s.draw (1100) : s.draw (20), (char) ('a' + t)); p.push_back (m); } prog.push_back (p); }
  if (change) { which = (int) s.draw (nl); lo = (int) s.draw (6); hi = (int) s.draw (6); if (lo > hi) std::swap (lo, hi); if (s.draw (3) == 2) lo = 0; }
  bool shared = false; for (unsigned a = 0; a < nt; a++) for (unsigned b = 0; b < a; b++) for (auto & x : prog[a]) for (auto & y : prog[b]) if (x.head == y.head) shared = true;
  char * mem[2]; size_t len[2]; FILE * real[2] = { stdout, stderr }; std::string out[2]; bool via = s.flag ();
  vs::run (s, 0, [&] ()
  {
    for (unsigned i = 0; i < nl; i++)
    {
      G * g = L[i]; iot_logger_t * nx = g->next >= 0 ? L[(size_t) g->next]->l : nullptr; iot_loglevel_t lv = (iot_loglevel_t) g->level;
      if (g->kind == 0) g->l = iot_logger_alloc_custom (g->name.c_str (), lv, true, nx, sink, g, gone);
      else if (g->kind == 1) { g->l = iot_logger_alloc (g->name.c_str (), lv, true); iot_logger_set_next (g->l, nx); }
      else { g->path = std::string (pbt::scratch ()) + "/tlog" + std::to_string (i); unlink (g->path.c_str ()); g->l = iot_logger_alloc_file (g->name.c_str (), lv, true, nx, g->path.c_str ()); }
    }
    if (change) { iot_logger_set_level (L[(size_t) which]->l, (iot_loglevel_t) lo); }
    for (int i = 0; i < 2; i++) { mem[i] = nullptr; (i ? stderr : stdout) = open_memstream (&mem[i], &len[i]); }
    std::vector<int> t;
    for (unsigned k = 0; k <= nt; k++) for (unsigned i = 0; i < nl; i++) iot_logger_add_ref (L[i]->l);
    for (unsigned k = 0; k < nt; k++) t.push_back (vs::spawn ([&, k] ()
    {
      for (auto & m : prog[k]) { iot_logger_t * l = L[(size_t) m.head]->l; if (via) { iot_log_log (l, (iot_loglevel_t) m.level, "%s", m.text.c_str ()); } else iot_log__log (l, (iot_loglevel_t) m.level, "%s", m.text.c_str ()); }
      for (unsigned i = nl; i-- > 0; ) iot_logger_free (L[i]->l);
    }, "log"));
    if (change) t.push_back (vs::spawn ([&] () { iot_logger_t * l = L[(size_t) which]->l; for (int i = 0; i < 3; i++) { iot_logger_set_level (l, (iot_loglevel_t) hi); vs::yield (); if (lo == 0 && i == 1) { iot_logger_stop (l); vs::yield (); iot_logger_start (l); } else iot_logger_set_level (l, (iot_loglevel_t) lo); vs::yield (); } }, "change"));
    for (unsigned i = nl; i-- > 1; ) if (i % 2) iot_logger_free (L[i]->l);       // the others still hold their references
    for (int x : t) vs::join (x);
    for (unsigned i = nl; i-- > 0; ) { if (i == 0 || i % 2 == 0) iot_logger_free (L[i]->l); iot_logger_free (L[i]->l); }
    for (int i = 0; i < 2; i++) { fclose (i ? stderr : stdout); (i ? stderr : stdout) = real[i]; out[i].assign (mem[i], len[i]); free (mem[i]); }
  });
  // what each logger must have got and may have got
  std::vector<std::map<std::string, int>> must (nl), may (nl);
  for (auto & p : prog) for (auto & m : p)
  {
    auto lohi = [&] (int i) { return change && i == which ? std::make_pair (lo, hi) : std::make_pair (L[(size_t) i]->level, L[(size_t) i]->level); };
    auto h = lohi (m.head); bool sure = !via || h.first >= m.level, poss = !via || h.second >= m.level;
    for (int i = m.head; i >= 0; i = L[(size_t) i]->next) { auto x = lohi (i); std::string k = std::to_string (m.level) + m.text; if (sure && x.first >= m.level) must[(size_t) i][k]++; if (poss && x.second >= m.level) may[(size_t) i][k]++; }
  }
  for (unsigned i = 0; i < nl; i++)
  {
    G * g = L[i]; std::vector<std::string> recs;
    if (g->kind == 0)
    {
      std::map<std::string, int> c; for (auto & x : g->got) { if (x.size () >= 1000) { for (auto & y : may[i]) if (y.first.size () >= IOT_LOG_MSG_MAX && y.first.compare (0, x.size (), x) == 0) { c[y.first]++; break; } } c[x]++; }
      for (auto & x : must[i]) if (x.first.size () < 1000) CHECK (c[x.first] == x.second, "message %s reached %s %d times", x.first.substr (0, 30).c_str (), g->name.c_str (), c[x.first]); else CHECK (c[x.first] >= x.second, "message %s did not reach %s", x.first.substr (0, 30).c_str (), g->name.c_str ());
      for (auto & x : c) if (x.second && x.first.size () < 1000) CHECK (may[i].count (x.first) && x.second <= may[i][x.first], "message %s reached %s although not admitted", x.first.substr (0, 30).c_str (), g->name.c_str ());
      CHECK (g->dead, "context of %s not released", g->name.c_str ());
    }
    else
    {
      if (g->kind == 1) for (auto & o : out) { for (auto & l : lines (o)) recs.push_back (l); }
      else { FILE * f = fopen (g->path.c_str (), "r"); CHECK (f, "no log file"); char b[70000]; size_t r = fread (b, 1, sizeof b, f); fclose (f); unlink (g->path.c_str ()); recs = lines (std::string (b, r)); }
      std::map<std::string, int> c;
      for (auto & l : recs)
      {
        size_t p = l.find (":log"); CHECK (l[0] == '[' && l.compare (1, strlen (tn), tn) == 0 && p != std::string::npos && l.back () == '\n', "record %s is not whole", pbt::quoted (l, 80).c_str ());
        if (l.compare (p + 1, g->name.size () + 1, g->name + ":")) { CHECK (g->kind == 1, "record %s in the file of another logger", pbt::quoted (l, 80).c_str ()); continue; }
        bool ok = false; for (auto & y : may[i]) { std::string full = ":" + g->name + ":" + LNAME[y.first[0] - '0'] + "] " + y.first.substr (1) + "\n"; size_t n = l.size () - p; if (l.compare (p, n, full) == 0 || (l.size () + 8 >= IOT_LOG_MSG_MAX && full.compare (0, n - 1, l, p, n - 1) == 0)) { c[y.first]++; ok = true; break; } }
        CHECK (ok, "record %s is none of the messages admitted", pbt::quoted (l, 120).c_str ());
      }
      for (auto & x : must[i]) CHECK (c[x.first] >= x.second, "message %s not recorded by %s", x.first.substr (0, 30).c_str (), g->name.c_str ());
      for (auto & x : c) CHECK (x.second <= may[i][x.first], "message %s recorded %d times by %s", x.first.substr (0, 30).c_str (), x.second, g->name.c_str ());
    }
    delete g;
  }
  if (shared && vs::switches () > 6) pbt::nontrivial ();
}
