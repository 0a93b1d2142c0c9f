// C23: loggers: levels, chains, texts, life cycle and ownership; custom, console, file and UDP sinks.
#include "pbt.h"
#include "iot/iot.h"
#include "iot/logger.h"
#include "iot/container.h"
#include "iot/time.h"
#include <algorithm>
#include <arpa/inet.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string.h>
#include <stdarg.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::Src; using pbt::Span; using pbt::note;

enum Kind { CUSTOM, CONSOLE, LFILE, UDP, NOFILE, NKIND };
enum State { INITIAL, RUNNING, STOPPED };
struct Got { int logger; int level; uint64_t ts; std::string text; };
struct Want { int level; std::string text; uint64_t t0, t1; };
struct Log
{
  int id; iot_logger_t * l; int kind; std::string name; State state; int level, conf; bool dflt;     // level in force and level to start with
  int next, held, refs, freed; bool alive; std::string path; std::vector<Want> want;
};
static std::vector<Log *> * logs; static std::vector<Got> * got; static int usock = -1; static uint16_t uport;

static void sink (iot_logger_t * logger, iot_loglevel_t level, uint64_t ts, const char * msg, const void * ctx)
{
  Log * g = (Log *) ctx; CHECK (g->l == logger, "sink called with another logger"); CHECK (g->alive, "sink of a freed logger called");
  got->push_back (Got { g->id, (int) level, ts, msg });
}
static void release (void * ctx) { Log * g = (Log *) ctx; g->freed++; CHECK (g->freed == 1, "context released twice"); CHECK (!g->alive, "context of logger %s released while it is referenced", g->name.c_str ()); }

static void open_socket ()
{
  if (usock >= 0) return; usock = socket (AF_INET, SOCK_DGRAM, 0); struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl (INADDR_LOOPBACK); socklen_t l = sizeof a;
  if (usock < 0 || bind (usock, (struct sockaddr *) &a, sizeof a) || getsockname (usock, (struct sockaddr *) &a, &l)) { if (usock >= 0) close (usock); usock = -2; return; } uport = ntohs (a.sin_port);
  int sz = 1 << 20; setsockopt (usock, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
}
// one datagram; waits for it only when one is due
static bool datagram (std::string & out, bool due)
{
  char b[70000]; if (due) { struct pollfd p { usock, POLLIN, 0 }; poll (&p, 1, 2000); }
  ssize_t r = recv (usock, b, sizeof b, MSG_DONTWAIT); if (r < 0) return false; out.assign (b, (size_t) r); return true;
}

static char * mem[2]; static size_t memlen[2]; static FILE * real[2], * fake[2];
static void capture () { real[0] = stdout; real[1] = stderr; for (int i = 0; i < 2; i++) { mem[i] = nullptr; memlen[i] = 0; fake[i] = open_memstream (&mem[i], &memlen[i]); } stdout = fake[0]; stderr = fake[1]; }
static void uncapture (std::string out[2]) { stdout = real[0]; stderr = real[1]; for (int i = 0; i < 2; i++) { fclose (fake[i]); out[i].assign (mem[i], memlen[i]); free (mem[i]); } }
static const char * LNAME[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
// a record of a file, console or UDP logger
static void record (const std::string & rec, const Log & g, int level, const std::string & text, uint64_t t0, uint64_t t1, uint64_t * ts)
{
  char thread[16] = { 0 }; prctl (PR_GET_NAME, thread);
  std::string pre = std::string ("[") + thread + ":"; CHECK (rec.compare (0, pre.size (), pre) == 0, "record %s does not begin with %s", pbt::quoted (rec, 60).c_str (), pre.c_str ());
  size_t p = pre.size (); uint64_t v = 0; while (p < rec.size () && isdigit ((unsigned char) rec[p])) v = v * 10 + (uint64_t) (rec[p++] - '0');
  CHECK (v >= t0 && v <= t1, "record has time %llu, it was logged between %llu and %llu", (unsigned long long) v, (unsigned long long) t0, (unsigned long long) t1); *ts = v;
  std::string name = g.name; if (g.dflt) { size_t e = rec.find (':', p + 1); name = rec.substr (p + 1, e == std::string::npos ? 0 : e - p - 1); }
  std::string full = pre + std::to_string (v) + ":" + name + ":" + LNAME[level] + "] " + text + "\n";
  if (full.size () < IOT_LOG_MSG_MAX) { CHECK (rec == full, "record is %s, not %s", pbt::quoted (rec, 200).c_str (), pbt::quoted (full, 200).c_str ()); return; }
  pbt::label ("cut record");      // as much of the record as fits, and still a line of its own
  CHECK (!rec.empty () && rec.back () == '\n', "cut record does not end its line"); size_t n = rec.size () - 1;
  CHECK (n <= full.size () - 1 && full.compare (0, n, rec, 0, n) == 0, "cut record differs from the message: %s", pbt::quoted (rec.substr (n > 50 ? n - 50 : 0)).c_str ()); CHECK (n + 8 >= IOT_LOG_MSG_MAX, "record of %zu bytes cut to %zu", full.size (), n);
}
static std::vector<std::string> lines (const std::string & t)
{
  std::vector<std::string> r; size_t p = 0; while (p < t.size ()) { size_t e = t.find ('\n', p); e = e == std::string::npos ? t.size () : e + 1; r.push_back (t.substr (p, e - p)); p = e; } return r;
}

struct Msg { std::string fmt, text, str; int i; double d; unsigned long long u; };
static std::string literal (Src & s, int big)
{
  std::string r; size_t n = big ? s.draw (2) ? 930 + s.draw (120) : s.draw (1300) : s.draw (12);
  for (size_t i = 0; i < n; i++) if (big) r.push_back ((char) ('a' + i % 26)); else { unsigned c = (unsigned) s.draw (98); char x = (char) (' ' + c); r += c == 95 ? "\xc3\xa9" : c == 96 ? "\t" : c == 97 ? "[x:1:" : x == '%' ? "%%" : std::string (1, x); }
  return r;
}
static void message (Src & s, Msg & m)
{
  static const char * S[] = { "%s", "%10s", "%-6s|", "%.3s" }, * I[] = { "%d", "%05d", "%x", "%+d", "%c" }, * D[] = { "%g", "%.2f", "%12.4e" }, * U[] = { "%llu", "%#llx", "%20llu" };
  int na = (int) s.draw (5), big = s.draw (3) == 2 ? 1 + (int) s.draw (2) : 0;
  m.str = big == 1 ? literal (s, 1) : s.flag () ? "" : "some % text %s"; m.i = 0; m.d = 0; m.u = 0; m.fmt = literal (s, big == 2);
  if (na > 0) m.fmt += std::string (S[big == 1 ? 0 : s.draw (4)]) + literal (s, 0);
  if (na > 1) { m.i = (int) s.range (-70000, 70000); int k = (int) s.draw (5); if (k == 4) m.i = 'A' + (m.i & 15); m.fmt += std::string (I[k]) + literal (s, 0); }
  if (na > 2) { m.d = (double) s.range (-1000000, 1000000) / 64.0; m.fmt += std::string (D[s.draw (3)]) + literal (s, 0); }
  if (na > 3) { m.u = s.u64 (); m.fmt += std::string (U[s.draw (3)]) + literal (s, 0); }
  char * b = nullptr; int n = asprintf (&b, m.fmt.c_str (), m.str.c_str (), m.i, m.d, m.u); m.text.assign (b, (size_t) n); free (b);
}

static void via_list (iot_logger_t * l, int level, const char * f, ...) { va_list a; va_start (a, f); iot_log__va_log (l, (iot_loglevel_t) level, f, a); va_end (a); }

static unsigned reached;
// one message: exactly the loggers of the chain whose level admits it get it, once, in order
static void send (Src & s, Log & g, int level, Msg & m)
{
  int how = (int) s.draw (5); got->clear (); std::string out[2]; note ("log at %s, level %d: %zu chars%s", g.name.c_str (), level, m.text.size (), how >= 3 ? " (direct)" : "");
  uint64_t t0 = iot_time_usecs (); capture (); iot_logger_t * l = g.l; const char * f = m.fmt.c_str (), * str = m.str.c_str ();
  if (how == 4) via_list (l, level, f, str, m.i, m.d, m.u);
  else if (how == 3) iot_log__log (l, (iot_loglevel_t) level, f, str, m.i, m.d, m.u);
  else if (how == 2) { iot_log_log (l, (iot_loglevel_t) level, f, str, m.i, m.d, m.u); }
  else switch (level)
  {
    case IOT_LOG_ERROR: iot_log_error (l, f, str, m.i, m.d, m.u); break;
    case IOT_LOG_WARN: iot_log_warn (l, f, str, m.i, m.d, m.u); break;
    case IOT_LOG_INFO: iot_log_info (l, f, str, m.i, m.d, m.u); break;
    case IOT_LOG_DEBUG: iot_log_debug (l, f, str, m.i, m.d, m.u); break;
    default: iot_log_trace (l, f, str, m.i, m.d, m.u); break;
  }
  uncapture (out); uint64_t t1 = iot_time_usecs (), ts = 0, when = 0; size_t at = 0, line = 0; reached = 0;
  auto stamp = [&] (uint64_t t) { CHECK (!when || when == t, "the loggers of a chain get different times for the same message"); when = t; };
  bool sent = how >= 3 || g.level >= level; std::string text = m.text.substr (0, IOT_LOG_MSG_MAX - 1);
  CHECK (out[level > IOT_LOG_WARN ? 1 : 0].empty (), "message of level %d on the wrong stream", level); std::vector<std::string> con = lines (out[level > IOT_LOG_WARN ? 0 : 1]);
  for (int i = g.id; i >= 0; i = (*logs)[(size_t) i]->next)
  {
    Log & x = *(*logs)[(size_t) i]; bool due = sent && x.level >= level; static const char * ST[] = { "not started", "running", "stopped" }; if (due) reached++;
    switch (x.kind)
    {
      case CUSTOM:
      {
        size_t k = 0; for (auto & y : *got) if (y.logger == x.id) k++;
        CHECK (k == (due ? 1u : 0u), "message of level %d reached the sink of %s (level %d, %s) %zu times", level, x.name.c_str (), x.level, ST[x.state], k);
        if (!due) break;
        Got & y = (*got)[at++]; CHECK (y.logger == x.id, "the loggers of a chain get a message in another order"); CHECK (y.level == level, "sink gets level %d for a message of level %d", y.level, level); CHECK (y.ts >= t0 && y.ts <= t1, "sink gets another time"); stamp (y.ts);
        CHECK (y.text == m.text || (m.text.size () >= IOT_LOG_MSG_MAX && y.text.size () + 1 >= IOT_LOG_MSG_MAX && m.text.compare (0, y.text.size (), y.text) == 0), "sink gets %s for %s", pbt::quoted (y.text, 100).c_str (), pbt::quoted (m.text, 100).c_str ());
        break;
      }
      case CONSOLE: if (due) { CHECK (line < con.size (), "message of level %d not on the console by %s (level %d)", level, x.name.c_str (), x.level); record (con[line++], x, level, text, t0, t1, &ts); stamp (ts); } break;
      case LFILE: if (due) x.want.push_back (Want { level, text, t0, t1 }); break;       // looked at when the logger is freed
      case UDP: if (due) { std::string r; CHECK (datagram (r, true), "message of level %d not sent by UDP by %s", level, x.name.c_str ()); record (r, x, level, text, t0, t1, &ts); stamp (ts); } break;
      default: break;
    }
  }
  CHECK (at == got->size (), "a logger outside the chain got the message"); CHECK (line == con.size (), "console has more than the message: %s", pbt::quoted (con[line], 80).c_str ());
  std::string r; if (usock >= 0) CHECK (!datagram (r, false), "sent by UDP although not admitted, or twice: %s", pbt::quoted (r, 60).c_str ());
}
static bool slurp (const std::string & p, std::string & out) { out.clear (); int d = open (p.c_str (), O_RDONLY); if (d < 0) return false; char b[4096]; ssize_t r; while ((r = read (d, b, sizeof b)) > 0) out.append (b, (size_t) r); close (d); return true; }
static void check_file (Log & g)
{
  std::string c; CHECK (slurp (g.path, c), "log file is missing"); std::vector<std::string> l = lines (c); CHECK (!l.empty () && l[0] == "before\n", "what the file had before is gone");
  CHECK (l.size () == g.want.size () + 1, "log file has %zu records, not %zu", l.size () - 1, g.want.size ()); uint64_t ts; for (size_t i = 0; i < g.want.size (); i++) record (l[i + 1], g, g.want[i].level, g.want[i].text, g.want[i].t0, g.want[i].t1, &ts);
  unlink (g.path.c_str ());
}
// references: a logger goes when nobody holds it and no living logger has it as its next
static void unref (int i)
{
  Log & g = *(*logs)[(size_t) i]; if (g.dflt || --g.refs > 0) return; g.alive = false; int n = g.next; g.next = -1; if (n >= 0) unref (n);
}
static void check_freed () { for (auto g : *logs) { CHECK (g->kind != CUSTOM || g->freed == (g->alive ? 0 : 1), "context of %s released %d times, the logger is %s", g->name.c_str (), g->freed, g->alive ? "alive" : "freed"); if (!g->alive && g->kind == LFILE && !g->path.empty ()) { check_file (*g); g->path.clear (); } } }
static void expect_level (Log & g, std::initializer_list<int> ok) { int v = (int) g.l->level; CHECK (std::find (ok.begin (), ok.end (), v) != ok.end (), "level of %s is %d, not %d", g.name.c_str (), v, *ok.begin ()); g.level = v; }
static const char * FROM[] = { "", "ERROR", "warn", "Info", "debug", "TRACE" };

TARGET (history, 40000, 2000000, pbt::LEAK)
{
  pbt::setrule ("a chain of at least two loggers had a message reach some of them, after a level change or stop");
  std::vector<Log *> L; std::vector<Got> G; logs = &L; got = &G; open_socket (); bool changed = false, nt = false; std::string d; while (usock >= 0 && datagram (d, false)); std::string tn; for (size_t i = 0, n = s.draw (16); i < n; i++) tn.push_back ((char) ('a' + s.draw (26))); char old[16] = { 0 }; prctl (PR_GET_NAME, old); prctl (PR_SET_NAME, tn.c_str ());
  { Log * g = new Log { 0, iot_logger_default (), CONSOLE, "default", RUNNING, 0, 0, true, -1, 1, 1, 0, true }; L.push_back (g); iot_logger_start (g->l); iot_logger_set_next (g->l, nullptr); iot_logger_set_level (g->l, IOT_LOG_WARN); g->level = g->conf = IOT_LOG_WARN; }
  size_t n = 2 + s.draw (24);
  for (size_t k = 0; k < n; k++)
  {
    Span sp (s); int op = (int) s.draw (16); std::vector<int> held; for (auto g : L) if (g->alive && g->held) held.push_back (g->id); int hi = held[s.draw (held.size ())]; Log & g = *L[(size_t) hi];
    if (L.size () == 1 || (op == 0 && L.size () < 8) || (op == 1 && L.size () < 4))
    {
      Log * x = new Log { (int) L.size (), nullptr, (int) s.draw (NKIND), std::string ("log") + std::to_string (L.size ()), INITIAL, 0, 0, false, -1, 1, 1, 0, true }; if (x->kind == UDP && usock < 0) x->kind = CUSTOM; L.push_back (x); if (s.draw (8) == 7) x->name = s.flag () ? "" : std::string (s.draw (2) ? 990 : 300, 'n');
      x->conf = (int) s.draw (6); bool start = s.flag (); if (s.draw (3) && x->kind != CONSOLE) x->next = hi; iot_logger_t * nx = x->next >= 0 ? L[(size_t) x->next]->l : nullptr; iot_loglevel_t lv = (iot_loglevel_t) x->conf; std::string nm = x->name; const char * np = nm.c_str (); if (x->next >= 0) L[(size_t) x->next]->refs++;
      note ("%s: %s, level %d%s, next %s", np, (const char *[]) { "custom", "console", "file", "udp", "no file" }[x->kind], x->conf, start ? ", started" : "", x->next >= 0 ? L[(size_t) x->next]->name.c_str () : "none");
      switch (x->kind)
      {
        case CUSTOM: x->l = iot_logger_alloc_custom (np, lv, start, nx, sink, x, release); break;
        case CONSOLE: x->l = iot_logger_alloc (np, lv, start); x->next = -1; break;
        case LFILE: { x->path = std::string (pbt::scratch ()) + "/log" + std::to_string (x->id); FILE * f = fopen (x->path.c_str (), "w"); fputs ("before\n", f); fclose (f); x->l = iot_logger_alloc_file (np, lv, start, nx, x->path.c_str ()); break; }
        case UDP: { std::string h = "127.0.0.1"; x->l = iot_logger_alloc_udp (np, lv, start, nx, h.c_str (), uport); break; }
        default: x->l = iot_logger_alloc_file (np, lv, start, nx, (std::string (pbt::scratch ()) + "/none/log").c_str ()); break;
      }
      nm.assign (nm.size (), '#'); x->state = start ? RUNNING : INITIAL; x->level = start ? x->conf : 0; expect_level (*x, { x->level }); continue;
    }
    switch (op)
    {
      case 2: note ("start %s", g.name.c_str ()); iot_logger_start (g.l); g.state = RUNNING; g.level = g.conf; expect_level (g, { g.conf }); break;
      case 3: note ("stop %s", g.name.c_str ()); iot_logger_stop (g.l); g.state = STOPPED; g.level = 0; expect_level (g, { 0 }); changed = true; break;
      case 4: case 5:
      {
        int lv = (int) s.draw (6); bool re = s.draw (3) == 2; note ("%s %s to %d (%s)", re ? "reconfigure" : "set level of", g.name.c_str (), lv, g.state == RUNNING ? "running" : g.state == STOPPED ? "stopped" : "not started"); changed = true;
        if (re) { iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "Level", iot_data_alloc_string (FROM[lv], IOT_DATA_REF)); CHECK (iot_logger_factory ()->reconfig_fn (&g.l->component, nullptr, m), "reconfiguration refused"); iot_data_free (m); } else iot_logger_set_level (g.l, (iot_loglevel_t) lv);
        g.conf = lv; if (g.state == RUNNING) expect_level (g, { lv }); else if (g.state == STOPPED) expect_level (g, { 0 }); else expect_level (g, { lv, 0 }); break;
      }
      case 6: { int t = s.flag () ? held[s.draw (held.size ())] : -1; if (t >= 0 && t >= g.id) t = -1; if (g.dflt) t = -1; note ("next of %s: %s", g.name.c_str (), t >= 0 ? L[(size_t) t]->name.c_str () : "none"); int o = g.next; if (t >= 0) L[(size_t) t]->refs++; g.next = t; if (o >= 0) unref (o); iot_logger_set_next (g.l, t >= 0 ? L[(size_t) t]->l : nullptr); break; }
      case 7: if (!g.dflt) { note ("reference to %s", g.name.c_str ()); iot_logger_add_ref (g.l); g.held++; g.refs++; } break;
      case 8: note ("free %s", g.name.c_str ()); if (!g.dflt) { g.held--; unref (g.id); } iot_logger_free (g.l); break;
      default: { Msg m; message (s, m); send (s, g, 1 + (int) s.draw (5), m); unsigned len = 0; for (int i = g.id; i >= 0; i = L[(size_t) i]->next) len++; if (changed && len > 1 && reached && reached < len) nt = true; break; }
    }
    check_freed ();
    for (auto x : L) if (x->alive) expect_level (*x, { x->level });
  }
  for (auto x : L) while (x->alive && !x->dflt && x->held) { x->held--; unref (x->id); iot_logger_free (x->l); }
  check_freed (); for (auto x : L) { CHECK (x->dflt || !x->alive, "logger %s still referenced", x->name.c_str ()); delete x; }
  prctl (PR_SET_NAME, old); if (nt) pbt::nontrivial ();
}

TARGET (level_names, 20000, 500000, pbt::LEAK)
{
  pbt::setrule ("the text begins with the first letter of a level");
  std::string t = s.flag () ? FROM[s.draw (6)] : s.bytes (12, 5); t = t.c_str (); if (!t.empty () && s.flag ()) t[0] = (char) (s.flag () ? toupper ((unsigned char) t[0]) : tolower ((unsigned char) t[0])); note ("%s", pbt::quoted (t).c_str ());
  for (int i = 0; i < 6; i++) CHECK (iot_logger_level_from_string (iot_logger_level_to_string ((iot_loglevel_t) i)) == (iot_loglevel_t) i, "level %d does not survive its name", i);
  iot_loglevel_t l = iot_logger_level_from_string (t.c_str ()); int c = t.empty () ? 0 : tolower ((unsigned char) t[0]); bool known = false;
  for (int i = 1; i < 6; i++) { std::string n = iot_logger_level_to_string ((iot_loglevel_t) i), a = t; for (auto & x : n) x = (char) tolower (x); for (auto & x : a) x = (char) tolower ((unsigned char) x); if (a == n) CHECK (l == (iot_loglevel_t) i, "%s read as level %d", pbt::quoted (t).c_str (), (int) l); if (c == n[0]) known = true; }
  if (!known && c) CHECK (l == IOT_LOGLEVEL_DEFAULT, "unknown level %s read as %d", pbt::quoted (t).c_str (), (int) l); CHECK (iot_logger_level_from_string (nullptr) == IOT_LOGLEVEL_DEFAULT, "no level is not the default");
  if (known) pbt::nontrivial ();
}

// loggers built from configurations
static std::map<std::string, std::string> * confs;
static char * load (const char * name, const char *) { auto it = confs->find (name); return it == confs->end () ? nullptr : strdup (it->second.c_str ()); }
TARGET (config, 20000, 800000, pbt::LEAK)
{
  pbt::setrule ("at least two loggers, one chained to another");
  static const iot_container_config_t CC = { load, nullptr, nullptr }; std::map<std::string, std::string> C; confs = &C; iot_container_config (&CC); iot_component_factory_add (iot_logger_factory ()); open_socket (); std::string d; while (usock >= 0 && datagram (d, false));
  std::vector<Log *> L; std::vector<Got> G; logs = &L; got = &G; size_t n = 1 + s.draw (4); std::string all = "{"; bool chained = false;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); Log * x = new Log { (int) i, nullptr, CONSOLE, "log" + std::to_string (i), RUNNING, 0, 0, false, -1, 1, 1, 0, true }; L.push_back (x); std::string c = "{\"Name\":\"" + x->name + "\"";
    size_t lv = s.draw (7); x->conf = lv == 6 ? (int) IOT_LOGLEVEL_DEFAULT : (int) lv; if (lv < 6) c += std::string (",\"Level\":\"") + FROM[lv] + "\""; if (lv == 0) { x->conf = 0; }
    size_t st = s.draw (3); if (st) c += st == 1 ? ",\"Start\":true" : ",\"Start\":false"; x->state = st == 2 ? INITIAL : RUNNING;
    if (i && s.flag ()) { x->next = (int) s.draw (i); chained = true; c += ",\"Next\":\"" + L[(size_t) x->next]->name + "\""; } else if (s.draw (6) == 5) c += ",\"Next\":\"nobody\"";
    switch (s.draw (6))
    {
      case 1: { x->kind = LFILE; x->path = std::string (pbt::scratch ()) + "/clog" + std::to_string (i); FILE * f = fopen (x->path.c_str (), "w"); fputs ("before\n", f); fclose (f); c += ",\"To\":\"file:" + x->path + "\""; break; }
      case 2: if (usock >= 0) { x->kind = UDP; c += ",\"To\":\"udp:127.0.0.1:" + std::to_string (uport) + "\""; } break;
      case 3: { static const char * TO[] = { "console", "file:", "udp:", "tcp:127.0.0.1:1", "" }; c += std::string (",\"To\":\"") + TO[s.draw (5)] + "\""; break; }
      case 4: { x->kind = NOFILE; size_t l = s.draw (3) ? s.draw (40) : s.draw (3000); std::string h; for (size_t k = 0; k < l; k++) h.push_back ((char) ('a' + k % 26)); c += ",\"To\":\"udp:" + (s.flag () ? std::string ("127.0.0.1") : std::string ()) + h + ":0\""; break; }       // no such host: nothing can be expected but that it does no harm
      default: break;
    }
    c += "}"; C[x->name] = c; all += (i ? ",\"" : "\"") + x->name + "\":\"IOT::Logger\""; note ("%s", c.c_str ());
  }
  C["main"] = all + "}"; std::string out[2]; capture (); iot_container_t * cont = iot_container_alloc ("main"); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); bool ok = iot_container_init (cont); uncapture (out); CHECK (ok, "container not initialised");
  for (auto x : L) { x->l = (iot_logger_t *) iot_container_find_component (cont, x->name.c_str ()); CHECK (x->l, "logger %s is missing", x->name.c_str ()); x->level = x->state == RUNNING ? x->conf : 0; expect_level (*x, { x->level }); }
  for (size_t k = 0, m = 1 + s.draw (4); k < m; k++) { Span sp (s); Msg msg; message (s, msg); Log & g = *L[s.draw (n)]; send (s, g, 1 + (int) s.draw (5), msg); }
  if (s.flag ()) { iot_container_start (cont); for (auto x : L) { x->state = RUNNING; expect_level (*x, { x->conf }); } Msg msg; message (s, msg); send (s, *L[s.draw (n)], 1 + (int) s.draw (5), msg); iot_container_stop (cont); for (auto x : L) { x->state = STOPPED; expect_level (*x, { 0 }); } if (s.flag ()) iot_container_stop (cont); if (s.flag ()) { iot_container_start (cont); for (auto x : L) expect_level (*x, { x->conf }); } }
  iot_container_free (cont); for (auto x : L) { if (x->kind == LFILE) check_file (*x); delete x; } if (chained) pbt::nontrivial ();
}
