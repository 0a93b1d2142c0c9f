// C32: thread pools and schedulers created by a container from generated configurations behave as configured.
#include "vsched.h"
#include "iot/iot.h"
#include <list>
#include <map>
#include <string.h>
#include <unistd.h>
using pbt::Src; using pbt::Span; using pbt::note;
typedef std::string str;
static const uint64_t MS = 1000000;

struct Lg { str name; int level; bool start; unsigned lines = 0, created = 0, freed = 0; iot_logger_t * l = nullptr; bool used = false; };
struct Pool { str name; int threads = -1; int64_t jobs = -1, prio = -2, aff = -2, delay = -1; str logger; str json; iot_threadpool_t * p = nullptr; bool held = false; };
struct Sch { str name; int64_t prio = -2, aff = -2; str logger; str json; iot_scheduler_t * s = nullptr; bool held = false; };
struct Job { unsigned id; bool release = false; };
struct World { std::list<Lg> lg; std::list<Pool> pools; std::list<Sch> schs; std::map<str, str> types; bool running = false; };
static World * W;
static Lg * lg (const str & n) { for (auto & x : W->lg) if (x.name == n) return &x; return nullptr; }
static void sink (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void * ctx) { vs::Atomic a; ((Lg *) ctx)->lines++; }
static void sunk (void * ctx) { ((Lg *) ctx)->freed++; }
static iot_component_t * lcfg (iot_container_t *, const iot_data_t * map)
{
  Lg * g = lg (iot_data_string_map_get_string (map, "Name")); CHECK (g, "harness: logger"); g->created++;
  g->l = iot_logger_alloc_custom (g->name.c_str (), (iot_loglevel_t) g->level, g->start, nullptr, sink, g, sunk); return &g->l->component;
}
static void lfree (iot_component_t * c) { iot_logger_free ((iot_logger_t *) c); }
static iot_component_factory_t LF = { "SinkLogger", "Test", lcfg, lfree, nullptr, nullptr };
static char * load (const char * name, const char *)
{
  str n = name, j = "{";
  if (n == "cont") { for (auto & t : W->types) j += (j.size () > 1 ? "," : "") + ("\"" + t.first + "\":\"" + t.second + "\""); return strdup ((j + "}").c_str ()); }
  for (auto & x : W->lg) if (x.name == n) return strdup (("{\"Name\":\"" + n + "\"}").c_str ());
  for (auto & x : W->pools) if (x.name == n) return strdup (x.json.c_str ());
  for (auto & x : W->schs) if (x.name == n) return strdup (x.json.c_str ());
  return nullptr;
}
static void put (str & j, Src & s, const char * k, int64_t v) { j += (j.size () > 1 ? "," : "") + ("\"" + str (k) + "\":" + std::to_string (v)); }
static void puts_ (str & j, const char * k, const str & v) { j += (j.size () > 1 ? "," : "") + ("\"" + str (k) + "\":\"" + v + "\""); }
static int want_prio (int64_t p) { return p >= 1 && p <= 99 && geteuid () == 0 ? (int) p : 0; }
static int64_t gen_prio (Src & s) { switch (s.draw (5)) { case 0: return s.range (1, 99); case 1: return -1; case 2: return 0; case 3: return s.range (98, 130); default: return (s.flag () ? 256 : 65536) + s.range (1, 99); } }

// what the jobs and schedules observe
struct Seen { unsigned running = 0, started = 0, done = 0; bool release = false; int prio = -1; bool prio_same = true; };
static void * job (void * p)
{
  Seen & x = *(Seen *) p; { vs::Atomic a; x.running++; x.started++; int pr = iot_thread_current_get_priority (); if (x.prio != -1 && pr != x.prio) x.prio_same = false; x.prio = pr; }
  vs::wait_until ([&] () { return x.release; }, UINT64_MAX); vs::Atomic a; x.running--; x.done++; return nullptr;
}
static void * tick (void * p) { Seen & x = *(Seen *) p; vs::Atomic a; x.started++; x.prio = iot_thread_current_get_priority (); return nullptr; }

// fill a running pool: its threads, then its queue
static void saturate (Src & s, Pool & p)
{
  unsigned T = p.threads < 0 ? 2 : (unsigned) p.threads; int64_t M = p.jobs < 0 ? 0 : p.jobs; Seen x; note ("saturate %s: %u threads, %lld jobs", p.name.c_str (), T, (long long) M);
  Lg * g = p.logger.empty () ? nullptr : lg (p.logger); unsigned lines = g ? g->lines : 0;
  for (unsigned i = 1; i <= T; i++)
  {
    CHECK (iot_threadpool_try_work (p.p, job, &x, IOT_THREAD_NO_PRIORITY), "an idle pool refuses a job");
    CHECK (vs::wait_until ([&] () { return x.started == i; }, 100 * MS), "pool %s of %u threads runs %u jobs at once", p.name.c_str (), T, x.started);
  }
  unsigned queued = 0, limit = M && M < 300 ? (unsigned) M : 12; bool full = M && M < 300;
  while (queued < limit + 3 && iot_threadpool_try_work (p.p, job, &x, IOT_THREAD_NO_PRIORITY)) queued++;
  vs::sleep_ns (5 * MS);
  CHECK (x.started == T, "pool %s of %u threads runs %u jobs at once", p.name.c_str (), T, x.started);
  CHECK (queued == (full ? limit : limit + 3), "pool %s of at most %lld queued jobs accepted %u", p.name.c_str (), (long long) M, queued);
  CHECK (x.prio_same && x.prio == want_prio (p.prio), "jobs of pool %s run at priority %d, configured %lld", p.name.c_str (), x.prio, (long long) p.prio);
  x.release = true; CHECK (vs::wait_until ([&] () { return x.done == T + queued; }, 1000 * MS), "%u of %u jobs done", x.done, T + queued);
  iot_threadpool_wait (p.p);
  if (g) { bool due = g->level >= IOT_LOG_TRACE && g->l->level >= IOT_LOG_TRACE; if (due) { CHECK (g->lines > lines, "pool %s does not log to %s", p.name.c_str (), g->name.c_str ()); pbt::label ("pool logs"); } }
  pbt::label ("pool saturated");
}
static void paused (Pool & p)
{
  Seen x; x.release = true; note ("work for the stopped pool %s", p.name.c_str ()); CHECK (iot_threadpool_try_work (p.p, job, &x, IOT_THREAD_NO_PRIORITY), "a stopped pool refuses a job");
  vs::sleep_ns (20 * MS); CHECK (x.started == 0, "the stopped pool %s runs a job", p.name.c_str ());
  iot_threadpool_start (p.p); CHECK (vs::wait_until ([&] () { return x.done == 1; }, 1000 * MS), "the pool %s does not run its job after a start", p.name.c_str ()); iot_threadpool_wait (p.p); iot_threadpool_stop (p.p);
  pbt::label ("pool paused");
}
static void fire (Src & s, Sch & h, Pool * p, bool running)
{
  uint64_t period = (1 + s.draw (20)) * MS; unsigned n = 1 + (unsigned) s.draw (4); bool sync = !p && s.flag (); Seen x;
  note ("schedule of %u runs every %llu ms on %s (%s, %s)", n, (unsigned long long) (period / MS), h.name.c_str (), p ? p->name.c_str () : sync ? "synchronous" : "thread", running ? "running" : "stopped");
  iot_schedule_t * q = iot_schedule_create (h.s, tick, nullptr, &x, period, 0, n, p ? p->p : nullptr, IOT_THREAD_NO_PRIORITY); if (sync) iot_schedule_set_sync (q, true);
  uint64_t id = iot_schedule_id (q); static uint64_t ids[256]; static unsigned nid; for (unsigned i = 0; i < 256 && i < nid; i++) CHECK (ids[i] != id, "schedule identifier %llu given twice", (unsigned long long) id); ids[nid++ % 256] = id;
  iot_schedule_add (h.s, q); unsigned before = 0;
  vs::sleep_ns (period * (n + 2) + 50 * MS);
  if (!running) { CHECK (x.started == 0, "the stopped scheduler %s runs a schedule", h.name.c_str ()); iot_scheduler_start (h.s); before = x.started; vs::sleep_ns (period * (n + 2) + 50 * MS); }
  (void) before; CHECK (x.started == n, "schedule ran %u times of %u", x.started, n);
  if (sync) { CHECK (x.prio == want_prio (h.prio), "the thread of scheduler %s has priority %d, configured %lld", h.name.c_str (), x.prio, (long long) h.prio); pbt::label ("scheduler priority"); }
  CHECK (iot_schedule_dropped (q) == 0, "events dropped"); iot_schedule_delete (h.s, q); if (!running) iot_scheduler_stop (h.s);
  pbt::label ("schedule ran");
}

TARGET (configured, 40000, 1500000, pbt::LEAK)
{
  pbt::setrule ("a configured pool was filled or a configured scheduler ran a schedule, in a container started at least once");
  World w; W = &w; static const iot_container_config_t CC = { load, nullptr, nullptr }; bool used = false, started = false;
  size_t nl = s.draw (3), np = s.draw (3), ns = s.draw (3);
  for (size_t i = 0; i < nl; i++) { Lg g; g.name = "l" + std::to_string (i); g.level = (int) s.draw (IOT_LOG_TRACE + 1); g.start = s.flag (); w.lg.push_back (g); w.types[g.name] = "SinkLogger"; }
  auto logger = [&] () { size_t k = s.draw (nl + 2); return k < nl ? "l" + std::to_string (k) : k == nl ? str () : str ("nobody"); };
  const char * order = s.flag () ? "a" : "z";        // components created before or after the loggers they name
  for (size_t i = 0; i < np; i++)
  {
    Span sp (s); Pool p; p.name = str (order) + "pool" + std::to_string (i); str j = "{";
    if (s.draw (4)) { p.threads = 1 + (int) s.draw (5); put (j, s, "Threads", p.threads); } if (s.draw (4)) { p.jobs = (int64_t) s.draw (6); if (s.draw (8) == 7) { static const int64_t B[] = { 256, 65536, 1ll << 31, (1ll << 32) - 16 }; p.jobs += B[s.draw (4)]; } put (j, s, "MaxJobs", p.jobs); }
    if (s.flag ()) { p.prio = gen_prio (s); put (j, s, "Priority", p.prio); } if (s.draw (4) == 3) { p.aff = s.range (-1, 3); put (j, s, "Affinity", p.aff); }
    if (s.flag ()) { p.delay = (int64_t) s.draw (2000); put (j, s, "ShutdownDelay", p.delay); } str l = logger (); if (!l.empty ()) { puts_ (j, "Logger", l); if (Lg * g = lg (l)) { p.logger = l; g->used = true; } }
    p.json = j + "}"; w.types[p.name] = IOT_THREADPOOL_TYPE; note ("%s: %s", p.name.c_str (), p.json.c_str ()); w.pools.push_back (p);
  }
  for (size_t i = 0; i < ns; i++)
  {
    Span sp (s); Sch h; h.name = str (order) + "sched" + std::to_string (i); str j = "{";
    if (s.flag ()) { h.prio = gen_prio (s); put (j, s, "Priority", h.prio); } if (s.draw (4) == 3) { h.aff = s.range (-1, 3); put (j, s, "Affinity", h.aff); }
    str l = logger (); if (!l.empty ()) { puts_ (j, "Logger", l); if (Lg * g = lg (l)) { h.logger = l; g->used = true; } }
    h.json = j + "}"; w.types[h.name] = IOT_SCHEDULER_TYPE; note ("%s: %s", h.name.c_str (), h.json.c_str ()); w.schs.push_back (h);
  }
  iot_component_factory_add (iot_threadpool_factory ()); iot_component_factory_add (iot_scheduler_factory ()); iot_component_factory_add (&LF);
  size_t nops = 1 + s.draw (6);
  vs::run (s, vs::NO_LATE | vs::NO_SPURIOUS, [&] ()
  {
    iot_container_config (&CC); iot_container_t * cont = iot_container_alloc ("cont"); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
    if (s.flag () && np) { Pool & p = w.pools.front (); note ("find %s before init", p.name.c_str ()); CHECK (iot_container_find_component (cont, p.name.c_str ()), "pool not found"); }
    CHECK (iot_container_init (cont), "init");
    for (auto & p : w.pools) { p.p = (iot_threadpool_t *) iot_container_find_component (cont, p.name.c_str ()); CHECK (p.p, "pool %s is not created", p.name.c_str ()); }
    for (auto & h : w.schs) { h.s = (iot_scheduler_t *) iot_container_find_component (cont, h.name.c_str ()); CHECK (h.s, "scheduler %s is not created", h.name.c_str ()); }
    for (auto & g : w.lg) CHECK (g.created == 1, "logger %s created %u times", g.name.c_str (), g.created);
    for (size_t op = 0; op < nops; op++)
    {
      Span sp (s); unsigned k = (unsigned) s.weighted ({ 4, 2, 4, 4, 2 }); if (op == 0 && s.draw (4)) k = 0;
      if (k == 0)
      {
        note ("container start"); iot_container_start (cont); w.running = started = true;
        for (auto & t : w.types) { iot_component_t * c = iot_container_find_component (cont, t.first.c_str ()); CHECK (c && c->state == IOT_COMPONENT_RUNNING, "%s does not run after the start of the container", t.first.c_str ()); }
        for (auto & g : w.lg) CHECK (g.l->level == (iot_loglevel_t) g.level, "started logger %s has level %d", g.name.c_str (), (int) g.l->level);
      }
      else if (k == 1)
      {
        note ("container stop"); iot_container_stop (cont); w.running = false; started = true;
        for (auto & t : w.types) { iot_component_t * c = iot_container_find_component (cont, t.first.c_str ()); CHECK (c && c->state == IOT_COMPONENT_STOPPED, "%s is not stopped", t.first.c_str ()); }
      }
      else if (k == 2 && np) { auto it = w.pools.begin (); std::advance (it, s.draw (np)); if (w.running) saturate (s, *it); else paused (*it); used = true; }
      else if (k == 3 && ns) { auto it = w.schs.begin (); std::advance (it, s.draw (ns)); Pool * p = nullptr; if (np && w.running && s.flag ()) { auto pi = w.pools.begin (); std::advance (pi, s.draw (np)); p = &*pi; } fire (s, *it, p, w.running); used = true; }
      else if (k == 4)
      {
        if (np && s.flag ()) { auto & p = w.pools.back (); if (!p.held) { note ("reference to %s", p.name.c_str ()); iot_threadpool_add_ref (p.p); p.held = true; } }
        else if (ns) { auto & h = w.schs.back (); if (!h.held) { note ("reference to %s", h.name.c_str ()); iot_scheduler_add_ref (h.s); h.held = true; } }
      }
    }
    for (auto & g : w.lg) if (!g.used) CHECK (g.lines == 0, "logger %s, which nothing names, received %u messages", g.name.c_str (), g.lines);
    note ("free the container"); uint64_t t = vs::now (), most = 100 * MS; for (auto & p : w.pools) if (!p.held) most += (uint64_t) std::max<int64_t> (p.delay, 500) * MS; for (auto & h : w.schs) { (void) h; most += 500 * MS; }
    iot_container_free (cont); CHECK (vs::now () - t <= most, "freeing idle pools took %llu ms", (unsigned long long) ((vs::now () - t) / MS));
    bool held = false; for (auto & p : w.pools) held |= p.held; for (auto & h : w.schs) held |= h.held;
    for (auto & g : w.lg) if (!held) CHECK (g.freed == 1, "logger %s released %u times", g.name.c_str (), g.freed);
    for (auto & h : w.schs) if (h.held) { note ("%s outlives the container", h.name.c_str ()); fire (s, h, nullptr, false); iot_scheduler_free (h.s); pbt::label ("scheduler outlives container"); }
    for (auto & p : w.pools) if (p.held) { note ("%s outlives the container", p.name.c_str ()); paused (p); iot_threadpool_start (p.p); Lg * g = p.logger.empty () ? nullptr : lg (p.logger); str keep = p.logger; if (g) p.logger.clear (); saturate (s, p); p.logger = keep; iot_threadpool_free (p.p); pbt::label ("pool outlives container"); }
    for (auto & g : w.lg) CHECK (g.freed == 1, "logger %s released %u times", g.name.c_str (), g.freed);
  });
  if (used && started) pbt::nontrivial ();
  W = nullptr;
}

// a configured number of threads no test would create: the platform allows a few of them
TARGET (threads, 4000, 200000, pbt::LEAK)
{
  pbt::setrule ("a pool of more than 255 configured threads was filled");
  World w; W = &w; static const iot_container_config_t CC = { load, nullptr, nullptr }; static const unsigned B[] = { 256, 512, 1024, 4096, 32768, 65280 };
  unsigned k = 1 + (unsigned) s.draw (5), extra = (unsigned) s.draw (5); unsigned want = B[s.draw (6)] + k; Pool p; p.name = "pool"; str j = "{"; put (j, s, "Threads", want);
  if (s.flag ()) { p.jobs = (int64_t) s.draw (6); put (j, s, "MaxJobs", p.jobs); } if (s.flag ()) { p.prio = gen_prio (s); put (j, s, "Priority", p.prio); } if (s.flag ()) { p.delay = (int64_t) s.draw (2000); put (j, s, "ShutdownDelay", p.delay); }
  p.json = j + "}"; p.threads = (int) (k + extra); w.types[p.name] = IOT_THREADPOOL_TYPE; note ("%s, the platform allows %d", p.json.c_str (), p.threads); w.pools.push_back (p);
  iot_component_factory_add (iot_threadpool_factory ());
  vs::run (s, vs::NO_LATE | vs::NO_SPURIOUS, [&] ()
  {
    iot_container_config (&CC); iot_container_t * cont = iot_container_alloc ("cont"); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
    vs::fail_creates (1000000, (unsigned) p.threads); CHECK (iot_container_init (cont), "init"); vs::fail_creates (0);
    Pool & q = w.pools.front (); q.p = (iot_threadpool_t *) iot_container_find_component (cont, "pool"); CHECK (q.p, "the pool is not created");
    iot_container_start (cont); saturate (s, q); if (s.flag ()) { iot_container_stop (cont); iot_container_start (cont); saturate (s, q); } iot_container_free (cont); pbt::nontrivial ();
  });
  W = nullptr;
}
