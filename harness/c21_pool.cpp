// C21: the thread pool under generated schedules.
#include "vsched.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include <algorithm>
#include <string.h>
using pbt::Src; using pbt::Span; using pbt::note;

static uint64_t g_ev; static uint64_t ev () { return ++g_ev; }
static const uint64_t NEVER = UINT64_MAX;

struct Job
{
  int id, prio; bool tr; struct World * w; uint64_t sleep; int child;   // child: index of the job that this one tries to add
  uint64_t s = NEVER, e = NEVER;           // submission began / was accepted
  bool refused = false, submitted = false; uint64_t rs = NEVER, re = NEVER; int runs = 0, th = -1; bool self_free = false;
};
struct Wait { uint64_t s, e; };
struct Gate { uint64_t s, e; bool run; };
struct World
{
  iot_threadpool_t * p; unsigned nt; uint32_t max; std::vector<Job> jobs; std::vector<Wait> waits; std::vector<Gate> gates; unsigned running = 0;
  uint64_t free_s = NEVER, free_e = NEVER; std::vector<std::pair<int, uint64_t>> last_end;   // per pool thread
};

static void submit (World & w, Job & j);
static void * job_fn (void * arg)
{
  Job & j = *(Job *) arg; World & w = *j.w; uint64_t sl; int ch;
  {
    vs::Atomic a; j.runs++; CHECK (j.runs == 1, "job %d runs twice", j.id); CHECK (j.submitted, "job %d runs but was never added", j.id); CHECK (!j.refused, "refused job %d runs", j.id);
    CHECK (w.free_e == NEVER, "job %d starts after the pool was freed", j.id);
    j.rs = ev (); j.th = vs::self (); w.running++; CHECK (w.running <= w.nt, "%u jobs at once on %u threads", w.running, w.nt);
    if (j.prio > 0) CHECK (vs::sched_priority (j.th) == j.prio, "job %d of priority %d runs at priority %d", j.id, j.prio, vs::sched_priority (j.th));
    note ("job %d starts on t%d", j.id, j.th); sl = j.sleep; ch = j.child;
  }
  if (sl) vs::sleep_ns (sl); else vs::yield ();
  if (ch >= 0) submit (w, w.jobs[(size_t) ch]);
  if (j.self_free) { { vs::Atomic a; w.free_s = ev (); note ("job %d frees the pool", j.id); } iot_threadpool_free (w.p); vs::Atomic a; w.free_e = ev (); }
  vs::Atomic a; j.re = ev (); w.running--; note ("job %d ends", j.id);
  return nullptr;
}
static void submit (World & w, Job & j)
{
  { vs::Atomic a; j.submitted = true; j.s = ev (); }
  bool ok = true;
  if (j.tr) ok = iot_threadpool_try_work (w.p, job_fn, &j, j.prio); else iot_threadpool_add_work (w.p, job_fn, &j, j.prio);
  vs::Atomic a; j.refused = !ok; j.e = ev (); note ("t%d %s job %d prio %d -> %d", vs::self (), j.tr ? "try_work" : "add_work", j.id, j.prio, ok);
}
static void gate (World & w, bool run)
{
  size_t k; { vs::Atomic a; k = w.gates.size (); w.gates.push_back ({ ev (), NEVER, run }); note ("t%d %s", vs::self (), run ? "start" : "stop"); }
  if (run) iot_threadpool_start (w.p); else iot_threadpool_stop (w.p);
  vs::Atomic a; w.gates[k].e = ev ();
}
static void wait_all (World & w)
{
  uint64_t b; { vs::Atomic a; b = ev (); }
  iot_threadpool_wait (w.p);
  vs::Atomic a; w.waits.push_back ({ b, ev () }); note ("t%d waited", vs::self ());
  // at some moment since b nothing was queued or running
  for (auto & j : w.jobs) if (j.submitted && !j.refused && j.e < b) CHECK (j.re < w.waits.back ().e, "wait returned although job %d had not ended", j.id);
}
// before: a waits in the queue ahead of b when both are there
static bool ahead (const Job & a, const Job & b)
{
  if (a.prio != b.prio) return a.prio != IOT_THREAD_NO_PRIORITY && (b.prio == IOT_THREAD_NO_PRIORITY || a.prio > b.prio);
  return a.e < b.s;
}
static void judge (World & w, bool discard_ok)
{
  for (auto & j : w.jobs) if (j.submitted && !j.refused)
  {
    CHECK (j.runs == 1 || (discard_ok && j.runs == 0), "job %d was accepted but did not run", j.id);
    if (j.runs) CHECK (j.re != NEVER, "job %d did not end", j.id);
    if (j.runs) CHECK (j.rs > j.s, "job %d ran before it was added", j.id);
  }
  auto took = [&] (const Job & j) { return j.runs ? j.rs : NEVER; };
  for (auto & b : w.jobs) if (b.runs)
  {
    // earliest moment at which b can have left the queue: after the end of the thread's previous job
    uint64_t lo = b.s; for (auto & x : w.jobs) if (x.runs && x.th == b.th && x.re < b.rs) lo = std::max (lo, x.re);
    // stops: a start of a job while the pool was stopped must be explained by a thread that took it before the stop was complete
    for (size_t k = 0; k < w.gates.size (); k++) if (!w.gates[k].run)
    {
      uint64_t on = NEVER; for (auto & g : w.gates) if (g.run && g.e > w.gates[k].s) on = std::min (on, g.s);
      if (w.gates[k].e != NEVER && lo > w.gates[k].e && lo < on && b.rs < on) CHECK (false, "job %d was started by a stopped pool", b.id);
      if (w.gates[k].e != NEVER && b.s > w.gates[k].e && b.rs < on) CHECK (false, "job %d was added to a stopped pool and started", b.id);
      if (w.gates[k].e != NEVER && lo > w.gates[k].e && lo < on) lo = std::max (lo, on);
    }
    if (w.gates.size () && w.gates[0].run) lo = std::max (lo, w.gates[0].s);
    unsigned skipped = 0; int ex = -1; for (auto & a : w.jobs) if (&a != &b && a.submitted && !a.refused && a.e < lo && ahead (a, b) && took (a) > b.rs) { skipped++; ex = a.id; }
    CHECK (skipped <= w.nt - 1, "job %d (prio %d) started while %u jobs ahead of it waited, e.g. %d", b.id, b.prio, skipped, ex);
  }
  // limit
  if (w.max)
  {
    for (auto & x : w.jobs) if (x.submitted && x.e != NEVER)
    {
      uint64_t t = x.e; int64_t held = 0; unsigned run = 0;
      for (auto & y : w.jobs) if (y.submitted && !y.refused && y.e <= t) { if (y.runs && y.rs < t) { if (y.re > t) run++; } else held++; }
      CHECK (held - (int64_t) (w.nt - run) <= (int64_t) w.max, "at least %lld jobs wait with limit %u", (long long) (held - (int64_t) (w.nt - run)), w.max);
      if (x.refused)
      {
        int64_t most = 0; for (auto & y : w.jobs) if (&y != &x && y.submitted && !y.refused && y.s < x.e && !(y.runs && y.rs < x.s)) most++;
        CHECK (most >= (int64_t) w.max, "job %d refused although at most %lld of %u places were taken", x.id, (long long) most, w.max); pbt::label ("refused");
      }
    }
  }
  else for (auto & x : w.jobs) CHECK (!x.refused, "unlimited pool refused job %d", x.id);
}

static void make_jobs (Src & s, World & w, size_t n, bool children)
{
  static const int PR[] = { IOT_THREAD_NO_PRIORITY, 1, 5, 5, 9, 99, 7 };
  w.jobs.reserve (64);
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); Job j; j.id = (int) i; j.w = &w; j.prio = PR[s.draw (7)]; j.tr = s.draw (3) == 2; static const uint64_t SL[] = { 0, 0, 100, 5000, 400000 }; j.sleep = SL[s.draw (5)]; j.child = -1;
    w.jobs.push_back (j);
  }
  if (children) for (size_t i = 0; i < n; i++) if (s.draw (5) == 4)
  {
    Job c; c.id = (int) w.jobs.size (); c.w = &w; c.prio = PR[s.draw (7)]; c.tr = w.max || s.draw (2); c.sleep = 0; c.child = -1; w.jobs[i].child = c.id; w.jobs.push_back (c);
  }
}

// clients submit, wait, and stop/start; at the end the pool runs and everything accepted must be done
TARGET (work, 250000, 12000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads took part, several context switches happened and at least three jobs ran");
  g_ev = 0; World w; w.nt = 1 + (unsigned) s.draw (3); w.max = (uint32_t) (s.draw (3) == 2 ? 0 : 1 + s.draw (3));
  size_t n = 1 + s.draw (8); make_jobs (s, w, n, true);
  unsigned nc = 1 + (unsigned) s.draw (3), nw = (unsigned) s.draw (4); size_t ng = s.draw (3) == 2 ? 1 + s.draw (3) : 0;
  std::vector<uint64_t> gp; for (size_t i = 0; i < ng * 2; i++) gp.push_back (s.draw (3000));
  std::vector<uint64_t> wp; for (unsigned i = 0; i < nw; i++) wp.push_back (s.draw (3) * 2000);
  bool late_start = s.draw (4) == 3 && !ng, extra_ref = s.draw (4) == 3; int end = (int) s.weighted ({ 3, 1 });
  note ("%u threads, limit %u, %zu jobs, %u clients, %u waiters, %zu stops", w.nt, w.max, n, nc, nw, ng);
  vs::run (s, 0, [&] ()
  {
    int defprio = s.draw (3) == 2 ? 7 : IOT_THREAD_NO_PRIORITY;
    w.p = iot_threadpool_alloc ((uint16_t) w.nt, w.max, defprio, IOT_THREAD_NO_AFFINITY, nullptr);
    CHECK (vs::live_threads () == w.nt + 1, "%u threads after creating a pool of %u", vs::live_threads () - 1, w.nt);
    if (extra_ref) iot_threadpool_add_ref (w.p);
    if (!late_start) gate (w, true);
    std::vector<int> t;
    for (unsigned c = 0; c < nc; c++) t.push_back (vs::spawn ([&, c] () { for (size_t i = c; i < n; i += nc) submit (w, w.jobs[i]); }, "client"));
    std::vector<int> wt; for (unsigned k = 0; k < nw; k++) wt.push_back (vs::spawn ([&, k] () { if (wp[k]) vs::sleep_ns (wp[k]); wait_all (w); }, "waiter"));
    if (late_start) gate (w, true);
    for (size_t i = 0; i < ng; i++) { vs::sleep_ns (gp[2 * i]); gate (w, false); vs::sleep_ns (gp[2 * i + 1]); gate (w, true); }
    for (int x : t) vs::join (x);
    for (int x : wt) vs::join (x);
    wait_all (w);
    { vs::Atomic a; for (auto & j : w.jobs) if (j.submitted && !j.refused) CHECK (j.re != NEVER, "wait returned but job %d has not ended", j.id); }
    if (end == 1) gate (w, false);
    if (extra_ref) { iot_threadpool_free (w.p); }
    { vs::Atomic a; w.free_s = ev (); } iot_threadpool_free (w.p); { vs::Atomic a; w.free_e = ev (); }
    CHECK (vs::live_threads () == 1, "pool threads still alive after the pool was freed");
    judge (w, false);
    unsigned ran = 0; for (auto & j : w.jobs) ran += (unsigned) j.runs; if (ran >= 3 && vs::switches () > 8) pbt::nontrivial ();
    if (nw >= 2) pbt::label ("several waiters"); if (ng) pbt::label ("stopped and started");
  });
}

// a pool filled while it is stopped and then started: order and limit are exact
TARGET (order, 120000, 6000000, pbt::LEAK)
{
  pbt::setrule ("at least three jobs waited at once with different priorities");
  g_ev = 0; World w; w.nt = 1 + (unsigned) s.draw (3) / 2; w.max = (uint32_t) (s.draw (3) == 2 ? 1 + s.draw (6) : 0); size_t n = 2 + s.draw (10), rounds = 1 + s.draw (2); make_jobs (s, w, n * rounds, false);
  vs::run (s, 0, [&] ()
  {
    w.p = iot_threadpool_alloc ((uint16_t) w.nt, w.max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr);
    for (size_t r = 0; r < rounds; r++)
    {
      size_t held = 0; std::vector<Job *> in;
      for (size_t i = 0; i < n; i++) { Job & j = w.jobs[r * n + i]; bool full = w.max && held >= w.max; if (full) j.tr = true; submit (w, j); CHECK (j.refused == full, "job %d: refused %d with %zu of %u places taken", j.id, j.refused, held, w.max); if (!full) { held++; in.push_back (&j); } }
      for (auto j : in) CHECK (j->runs == 0, "a stopped pool ran job %d", j->id);
      gate (w, true); wait_all (w); gate (w, false);
      std::stable_sort (in.begin (), in.end (), [] (Job * a, Job * b) { return a->prio > b->prio; });
      if (w.nt == 1) for (size_t i = 1; i < in.size (); i++) CHECK (in[i - 1]->rs < in[i]->rs, "job %d (prio %d) ran before job %d (prio %d)", in[i]->id, in[i]->prio, in[i - 1]->id, in[i - 1]->prio);
      for (size_t i = 1; i < in.size (); i++) if (in[i]->prio != in[0]->prio && in.size () > 2) pbt::nontrivial ();
    }
    { vs::Atomic a; w.free_s = ev (); } iot_threadpool_free (w.p); { vs::Atomic a; w.free_e = ev (); }
    judge (w, false);
  });
}

// freeing with jobs queued or running, also from one of the pool's own jobs
TARGET (release, 120000, 6000000, pbt::LEAK)
{
  pbt::setrule ("jobs were queued or running when the pool was freed");
  g_ev = 0; World w; w.nt = 1 + (unsigned) s.draw (3); w.max = 0; size_t n = 1 + s.draw (6); make_jobs (s, w, n, s.flag ());
  bool self = s.draw (3) == 2, started = s.draw (5) != 4 || self; uint64_t d = s.draw (4) == 3 ? s.draw (1000000) : s.draw (300); if (self) w.jobs[n - 1].self_free = true;
  vs::run (s, 0, [&] ()
  {
    w.p = iot_threadpool_alloc ((uint16_t) w.nt, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr);
    if (started) gate (w, true);
    for (size_t i = 0; i < n; i++) submit (w, w.jobs[i]);      // the others are added by jobs, also while the pool is being freed
    if (self)
    {
      // the last reference is dropped by a job: nobody else uses the pool afterwards
      CHECK (vs::wait_until ([] () { return vs::live_threads () == 1; }, 3600ull * 1000000000ull), "pool freed by one of its jobs: its threads never end");
      CHECK (w.free_e != NEVER, "free did not return"); pbt::label ("freed by a job");
    }
    else
    {
      if (d) vs::sleep_ns (d);
      bool busy = false; { vs::Atomic a; for (auto & j : w.jobs) if (j.re == NEVER) busy = true; w.free_s = ev (); }
      iot_threadpool_free (w.p);
      { vs::Atomic a; w.free_e = ev (); } CHECK (w.running == 0, "free returned while a job runs");
      CHECK (vs::live_threads () == 1, "pool threads still alive after the pool was freed");
      if (busy) pbt::nontrivial ();
    }
    if (self) pbt::nontrivial ();
    judge (w, true);
  });
}

// as many jobs as threads run side by side: each waits until all of its group have started
struct Meet { unsigned want, in = 0, out = 0; };
static void * meet_fn (void * p) { Meet & m = *(Meet *) p; { vs::Atomic a; m.in++; } CHECK (vs::wait_until ([&] () { return m.in == m.want; }, 3600ull * 1000000000ull), "only %u of %u jobs run although threads are free", m.in, m.want); vs::Atomic a; m.out++; return nullptr; }
TARGET (parallel, 100000, 5000000, pbt::LEAK)
{
  pbt::setrule ("at least two jobs had to run side by side");
  unsigned nt = 1 + (unsigned) s.draw (4), rounds = 1 + (unsigned) s.draw (3), nc = 1 + (unsigned) s.draw (3); static const int PR[] = { IOT_THREAD_NO_PRIORITY, 1, 5, 9 }; std::vector<Meet> m (rounds);
  std::vector<int> pr; for (unsigned i = 0; i < nt * rounds; i++) pr.push_back (PR[s.draw (4)]); std::vector<unsigned> want; for (auto & x : m) x.want = nt - (unsigned) s.draw (2) * (nt > 1);
  std::vector<uint64_t> d; for (unsigned i = 0; i < nt * rounds; i++) d.push_back (s.draw (4) == 3 ? s.draw (500000) : 0); bool cycle = s.draw (3) == 2; uint32_t max = s.draw (3) == 2 ? nt : 0;
  vs::run (s, 0, [&] ()
  {
    iot_threadpool_t * p = iot_threadpool_alloc ((uint16_t) nt, max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); iot_threadpool_start (p);
    for (unsigned r = 0; r < rounds; r++)
    {
      std::vector<int> t; for (unsigned c = 0; c < nc; c++) t.push_back (vs::spawn ([&, c] () { for (unsigned i = c; i < m[r].want; i += nc) { if (d[r * nt + i]) vs::sleep_ns (d[r * nt + i]); iot_threadpool_add_work (p, meet_fn, &m[r], pr[r * nt + i]); } }, "client"));
      if (cycle) { iot_threadpool_stop (p); iot_threadpool_start (p); }
      for (int x : t) vs::join (x);
      iot_threadpool_wait (p); { vs::Atomic a; CHECK (m[r].out == m[r].want, "wait returned but only %u of %u jobs ended", m[r].out, m[r].want); note ("%u jobs met", m[r].want); }
    }
    iot_threadpool_free (p); if (nt > 1) pbt::nontrivial ();
  });
}

// the platform refuses some of the pool's threads: the pool works with those it has
TARGET (fewer, 40000, 2000000, pbt::LEAK)
{
  pbt::setrule ("at least one thread was refused and at least three jobs ran");
  g_ev = 0; World w; unsigned want = 2 + (unsigned) s.draw (3); w.nt = 1 + (unsigned) s.draw (want - 1); if (s.draw (8) == 7) want = (s.flag () ? 250 : 65000) + (unsigned) s.draw (500); w.max = (uint32_t) (s.draw (3) == 2 ? 1 + s.draw (3) : 0); size_t n = 1 + s.draw (8); make_jobs (s, w, n, false);
  unsigned nc = 1 + (unsigned) s.draw (2); int prio = s.draw (3) == 2 ? 7 : IOT_THREAD_NO_PRIORITY; bool cycle = s.draw (3) == 2, self = s.draw (4) == 3 && w.max == 0; if (self) { w.jobs.resize (1); n = 1; nc = 1; w.jobs[0].self_free = true; w.jobs[0].tr = false; }
  vs::run (s, 0, [&] ()
  {
    vs::fail_creates (1000000, w.nt);
    w.p = iot_threadpool_alloc ((uint16_t) want, w.max, prio, IOT_THREAD_NO_AFFINITY, nullptr); vs::fail_creates (0);
    note ("pool of %u threads got %u", want, vs::live_threads () - 1);
    CHECK (vs::live_threads () == w.nt + 1, "%u threads of %u the platform allows", vs::live_threads () - 1, w.nt);
    gate (w, true);
    std::vector<int> t; for (unsigned c = 0; c < nc; c++) t.push_back (vs::spawn ([&, c] () { for (size_t i = c; i < n; i += nc) submit (w, w.jobs[i]); }, "client"));
    if (cycle && !self) { gate (w, false); gate (w, true); }
    for (int x : t) vs::join (x);
    if (self) { CHECK (vs::wait_until ([] () { return vs::live_threads () == 1; }, 3600ull * 1000000000ull), "pool freed by its job: its threads never end"); CHECK (w.free_e != NEVER, "free did not return"); pbt::label ("freed by its job"); }
    else
    {
      wait_all (w); { vs::Atomic a; for (auto & j : w.jobs) if (!j.refused) CHECK (j.re != NEVER, "wait returned but job %d has not ended", j.id); }
      { vs::Atomic a; w.free_s = ev (); } iot_threadpool_free (w.p); { vs::Atomic a; w.free_e = ev (); }
      CHECK (vs::live_threads () == 1, "pool threads still alive after the pool was freed");
    }
    judge (w, false);
    unsigned ran = 0; for (auto & j : w.jobs) ran += (unsigned) j.runs; if (ran >= 3) pbt::nontrivial ();
  });
}

// many jobs: no hidden limit, the given limit exactly, and the order of all
struct Big { std::vector<unsigned> order; unsigned now = 0, most = 0; };
struct BigJob { Big * b; unsigned id; };
static void * big_fn (void * p) { BigJob & j = *(BigJob *) p; vs::Atomic a; j.b->order.push_back (j.id); return nullptr; }
TARGET (many, 60, 2000, pbt::LEAK)
{
  pbt::setrule ("at least 500 jobs waited at once");
  unsigned nt = s.draw (3) ? 1 : 1 + (unsigned) s.draw (24); uint32_t max = (uint32_t) (s.flag () ? 0 : 1 + s.draw (1500)); if (max && s.draw (3) == 2) { static const uint32_t W[] = { 256, 65536, 0x80000000u, 0xffff0000u }; max = W[s.draw (4)] + (uint32_t) s.draw (40); } size_t n = s.flag () ? 1 + s.draw (2500) : 1 + s.draw (60); unsigned kinds = 1 + (unsigned) s.draw (3);
  static const int PR[] = { IOT_THREAD_NO_PRIORITY, 7, 3 }; std::vector<BigJob> jobs (n); Big b; b.order.reserve (2 * n + 2); std::vector<int> prio (n); uint32_t r = (uint32_t) s.u64 () | 1;
  for (size_t i = 0; i < n; i++) { r = r * 1664525u + 1013904223u; jobs[i] = BigJob { &b, (unsigned) i }; prio[i] = PR[(r >> 16) % kinds]; }
  note ("%u threads, limit %u, %zu jobs", nt, max, n);
  vs::run (s, 0, [&] ()
  {
    iot_threadpool_t * p = iot_threadpool_alloc ((uint16_t) nt, max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); CHECK (vs::live_threads () == nt + 1, "%u threads of %u", vs::live_threads () - 1, nt);
    std::vector<unsigned> want; size_t held = 0;
    for (size_t i = 0; i < n; i++)
    {
      bool room = !max || held < max, ok = iot_threadpool_try_work (p, big_fn, &jobs[i], prio[i]); CHECK (ok == room, "job %zu %s with %zu of %u waiting", i, ok ? "accepted" : "refused", held, max);
      if (ok) { held++; want.push_back ((unsigned) i); }
    }
    std::stable_sort (want.begin (), want.end (), [&] (unsigned x, unsigned y) { return prio[x] > prio[y]; });
    iot_threadpool_start (p); iot_threadpool_wait (p); CHECK (b.order.size () == want.size (), "%zu jobs ran of %zu", b.order.size (), want.size ());
    if (nt == 1) CHECK (b.order == want, "jobs ran out of order"); else { std::sort (want.begin (), want.end ()); std::sort (b.order.begin (), b.order.end ()); CHECK (b.order == want, "not the jobs that were added"); }
    iot_threadpool_free (p); CHECK (vs::live_threads () == 1, "pool threads still alive"); if (held >= 500) pbt::nontrivial ();
  });
}

// more threads than an eight-bit counter counts: all of them work, wait for all, and all of them end
TARGET (wide, 200, 8000, pbt::LEAK)
{
  pbt::setrule ("more than 255 threads ran jobs at once");
  static const unsigned B[] = { 30, 126, 254 }; unsigned nt = B[std::min<uint64_t> (2, s.draw (5))] + (unsigned) s.draw (60); bool self = s.flag (); unsigned rounds = 1 + (unsigned) s.draw (2); note ("%u threads, %u rounds%s", nt, rounds, self ? ", freed by a job" : "");
  struct W { unsigned started = 0, ended = 0; bool go = false; iot_threadpool_t * p = nullptr; bool freed = false; } w;
  auto fn = [] (void * p) -> void * { W & x = *(W *) p; { vs::Atomic a; x.started++; } vs::wait_until ([&] () { return x.go; }, UINT64_MAX); vs::Atomic a; x.ended++; return nullptr; };
  auto fre = [] (void * p) -> void * { W & x = *(W *) p; iot_threadpool_free (x.p); vs::Atomic a; x.freed = true; return nullptr; };
  vs::run (s, vs::NO_SPURIOUS, [&] ()
  {
    w.p = iot_threadpool_alloc ((uint16_t) nt, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); CHECK (vs::live_threads () == nt + 1, "%u threads of %u", vs::live_threads () - 1, nt); iot_threadpool_start (w.p);
    for (unsigned r = 0; r < rounds; r++)
    {
      { vs::Atomic a; w.started = w.ended = 0; w.go = false; }
      for (unsigned i = 0; i < nt + 3; i++) iot_threadpool_add_work (w.p, fn, &w, IOT_THREAD_NO_PRIORITY);
      CHECK (vs::wait_until ([&] () { return w.started == nt; }, 3600ull * 1000000000ull), "%u threads run %u jobs at once", nt, w.started); vs::sleep_ns (1000000); CHECK (w.started == nt, "%u threads run %u jobs at once", nt, w.started);
      int t = vs::spawn ([&] () { vs::sleep_ns (1000000); vs::Atomic a; w.go = true; }, "release"); iot_threadpool_wait (w.p); CHECK (w.ended == nt + 3, "wait returned after %u jobs of %u", w.ended, nt + 3); vs::join (t);
    }
    if (nt > 255) pbt::nontrivial ();
    if (self) { iot_threadpool_add_work (w.p, fre, &w, IOT_THREAD_NO_PRIORITY); CHECK (vs::wait_until ([&] () { return vs::live_threads () == 1 && w.freed; }, 3600ull * 1000000000ull), "a pool of %u threads freed by its job: its threads never end", nt); }
    else { iot_threadpool_free (w.p); CHECK (vs::live_threads () == 1, "pool threads still alive"); }
  });
}
