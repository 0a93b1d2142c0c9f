// C22: the scheduler on a virtual clock under generated schedules.
#include "vsched.h"
#include "iot/scheduler.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include <algorithm>
#include <string.h>
using pbt::Src; using pbt::Span; using pbt::note;

static const uint64_t MS = 1000000, EPS = 1 * MS, NEVER = UINT64_MAX;
static uint64_t T () { return vs::since_start (); }

struct Item { char k; uint64_t ts, te; bool ret; uint64_t delay; };   // C create A add R remove S reset X delete D dispatch L drop (abort) G start H stop F free Z end
struct Run { uint64_t s, e; int th; };
struct Sch
{
  struct World * w; int id; iot_schedule_t * h = nullptr; uint64_t period, delay, repeat, dur; int pool, prio; bool conc, sync, runcb, abortcb;
  std::vector<Item> items; std::vector<Run> runs; unsigned active = 0, dispatches = 0, aborts = 0, frees = 0; uint64_t deleted = NEVER; uint64_t fn_act = 0, cb_act = 0; unsigned fn_at = 0, cb_at = 0; unsigned acting = 0; uint64_t cbdur = 0; uint64_t dropped = 0, aborted = 0;
};
struct World { iot_scheduler_t * s; iot_schedule_t * aux = nullptr; bool aux_cb = false; std::vector<Sch> sch; std::vector<Item> gates; int sched_thread = -1; bool in_sync = false; uint64_t freed = NEVER; bool exact; bool closing = false; unsigned acting = 0; };

static void op_add (Sch & x) { uint64_t a = T (); bool r = iot_schedule_add (x.w->s, x.h); vs::Atomic q; x.items.push_back ({ 'A', a, T (), r, 0 }); note ("%llu add %d -> %d", (unsigned long long) T (), x.id, r); }
static void op_remove (Sch & x) { uint64_t a = T (); bool r = iot_schedule_remove (x.w->s, x.h); vs::Atomic q; x.items.push_back ({ 'R', a, T (), r, 0 }); note ("%llu remove %d -> %d", (unsigned long long) T (), x.id, r); }
static void op_reset (Sch & x, uint64_t d) { uint64_t a = T (); iot_schedule_reset (x.w->s, x.h, d); vs::Atomic q; x.items.push_back ({ 'S', a, T (), true, d }); note ("%llu reset %d delay %llu", (unsigned long long) T (), x.id, (unsigned long long) d); }
static void op_delete (Sch & x, bool client = false)
{
  if (client) vs::wait_until ([&] () { return x.acting == 0; }, NEVER);
  uint64_t a; iot_schedule_t * h = x.h; { vs::Atomic q; x.h = nullptr; a = T (); x.dropped = iot_schedule_dropped (h); x.aborted = x.aborts; x.deleted = a; note ("%llu delete %d", (unsigned long long) a, x.id); } iot_schedule_delete (x.w->s, h); vs::Atomic q; x.items.push_back ({ 'X', a, T (), true, 0 });
}

static void act (Sch & x, uint64_t what)      // by the schedule's own function or run callback, unless the scheduler is about to go
{
  World & w = *x.w; { vs::Atomic q; if (w.closing || !x.h) return; w.acting++; x.acting++; }
  switch (what) { case 1: op_remove (x); break; case 2: op_reset (x, 7 * MS); break; case 3: op_delete (x); break; case 4: op_remove (x); op_add (x); break; case 5: op_reset (x, 0); break; default: break; }
  vs::Atomic q; w.acting--; x.acting--;
}
static void * fn (void * p)
{
  Sch & x = *(Sch *) p; World & w = *x.w; uint64_t a = T (); unsigned n; size_t k;
  {
    vs::Atomic q; CHECK (!x.frees, "schedule %d runs after it was released", x.id); n = (unsigned) x.runs.size (); k = x.runs.size ();
    CHECK (!x.active || x.conc, "schedule %d overlaps itself", x.id); x.active++;
    if (x.sync) { CHECK (!w.in_sync, "two synchronous schedules at once"); w.in_sync = true; if (w.sched_thread < 0) w.sched_thread = vs::self (); CHECK (vs::self () == w.sched_thread, "synchronous schedule %d runs on thread %d, not on the scheduler's", x.id, vs::self ()); }
    else if (w.sched_thread >= 0) CHECK (vs::self () != w.sched_thread, "schedule %d runs on the scheduler's thread", x.id);
    if (!x.sync && x.prio > 0) CHECK (vs::sched_priority (vs::self ()) == x.prio, "schedule %d of priority %d runs at priority %d", x.id, x.prio, vs::sched_priority (vs::self ()));
    if (!x.runcb) { x.dispatches++; x.items.push_back ({ 'D', a, a, true, 0 }); }
    x.runs.push_back ({ a, NEVER, vs::self () }); note ("%llu run %d (#%u)", (unsigned long long) a, x.id, n + 1);
    if (x.runcb) CHECK (x.runs.size () + x.aborts <= x.dispatches, "schedule %d: a run without its run callback", x.id);
  }
  if (x.dur) vs::sleep_ns (x.dur); else vs::yield ();
  if (!x.sync && x.fn_act && n == x.fn_at) act (x, x.fn_act);
  vs::Atomic q; x.runs[k].e = T (); x.active--; if (x.sync) w.in_sync = false;
  return nullptr;
}
static void aux (World & w);
static void * run_cb (void * p)
{
  Sch & x = *(Sch *) p; World & w = *x.w; bool a; unsigned n;
  {
    vs::Atomic q; CHECK (!x.frees, "run callback of %d after it was released", x.id); if (w.sched_thread < 0) w.sched_thread = vs::self (); CHECK (w.sched_thread == vs::self (), "run callback on another thread"); CHECK (w.freed == NEVER, "run callback after the scheduler was freed");
    n = x.dispatches++; x.items.push_back ({ 'D', T (), T (), true, 0 }); note ("%llu dispatch %d", (unsigned long long) T (), x.id); a = x.cb_act && n == x.cb_at;
  }
  if (x.cbdur) vs::sleep_ns (x.cbdur);
  aux (w);
  if (a) act (x, x.cb_act);
  return nullptr;
}
static void aux (World & w)        // callbacks may use the scheduler: another schedule, that never runs
{
  { vs::Atomic q; if (w.closing || !w.aux || !w.aux_cb) return; w.acting++; }
  iot_schedule_remove (w.s, w.aux); iot_schedule_reset (w.s, w.aux, 100ull * 3600 * 1000 * MS); iot_schedule_add (w.s, w.aux);
  vs::Atomic q; w.acting--;
}
static void * abort_cb (void * p)
{
  aux (*((Sch *) p)->w);
  Sch & x = *(Sch *) p; vs::Atomic q; CHECK (!x.frees, "abort callback of %d after it was released", x.id); CHECK (x.pool >= 0, "abort callback of a schedule without a pool"); x.aborts++;
  if (x.runcb) CHECK (x.runs.size () + x.aborts <= x.dispatches, "schedule %d: an abort without its run callback", x.id);
  if (!x.runcb) x.items.push_back ({ 'L', T (), T (), true, 0 });
  note ("%llu abort %d", (unsigned long long) T (), x.id); return nullptr;
}
static void free_cb (void * p)
{
  Sch & x = *(Sch *) p; vs::Atomic q; CHECK (!x.frees, "schedule %d released twice", x.id); CHECK (!x.active, "schedule %d released while it runs", x.id);
  CHECK (x.deleted != NEVER || x.w->freed != NEVER, "schedule %d released although nobody deleted it", x.id); x.frees++; note ("%llu release %d", (unsigned long long) T (), x.id);
}

// the dispatches of one schedule against its operations
static void judge (World & w, Sch & x)
{
  std::vector<Item> v = x.items; for (auto & g : w.gates) v.push_back (g);
  std::stable_sort (v.begin (), v.end (), [] (const Item & a, const Item & b) { return a.ts < b.ts; });
  // runs of the schedule as the scheduler sees them: from dispatch to the end of the function
  std::vector<std::pair<uint64_t, uint64_t>> busy; for (auto & r : x.runs)
  {
    uint64_t d = r.s; if (x.runcb && !x.conc) { d = 0; for (auto & i : x.items) if (i.k == 'D' && i.ts <= r.s) d = std::max (d, i.ts); }
    busy.push_back ({ d, r.e });
  }
  bool armed = false, running = false, vague = false, known = x.runcb || x.pool < 0; uint64_t due_lo = 0, due_hi = 0, since = 0, off_at = NEVER; uint64_t used = 0, extra = 0, skips = 0; unsigned late_ok = 0; bool gone = false;
  uint64_t last_d = NEVER;
  bool amb = false; for (size_t i = 0; i < v.size (); i++) for (size_t k = i + 1; k < v.size (); k++) if (!strchr ("DL", v[i].k) && !strchr ("DL", v[k].k) && v[k].ts <= v[i].te) amb = true;   // operations that overlap
  if (amb) known = false;
  bool canskip = !x.conc && !x.sync && (x.dur || x.period < 2 * EPS || x.pool >= 0 || !w.exact), cnt = true;   // cnt: the number of repetitions used is known
  for (auto & y : v)
  {
    // overdue?
    if (w.exact && armed && running && known && !vague && !gone && (!x.repeat || (cnt && used + skips < x.repeat)))
    {
      uint64_t due = std::max (due_hi, since), lo = std::max (due_lo, since > EPS ? since - EPS : 0);     // the true due time lies between lo and due
      for (int guard = 0; !x.conc && guard < 2000; guard++)
      {
        bool moved = false;
        for (auto & b : busy) if (b.first <= due + EPS && (b.second == NEVER || b.second + EPS >= lo) && y.ts + EPS > lo) { skips++; if (x.period >= 2 * EPS) { due += x.period + EPS; lo += x.period; } else { skips += 1000000; due = NEVER / 2; } moved = true; break; }
        if (!moved) break;
      }
      if (!(x.repeat && used + skips >= x.repeat)) CHECK (y.ts <= due + EPS, "schedule %d was due at %llu but had not run at %llu", x.id, (unsigned long long) due, (unsigned long long) y.ts);
      due_hi = std::max (due_hi, due);
    }
    auto near_dispatch = [&] (const Item & o) { for (auto & d : x.items) if (d.k == 'D' || d.k == 'L') if (d.ts + EPS >= o.ts && d.ts <= o.te + EPS) return true; for (auto & b : busy) if (x.sync && b.first <= o.te + EPS && b.second + EPS >= o.ts) return true; return false; };
    bool fuzzy = !w.exact || (strchr ("ARS", y.k) && near_dispatch (y));
    switch (y.k)
    {
      case 'C': due_lo = y.ts + x.delay; due_hi = y.te + x.delay; break;
      case 'A': if (y.ret) { armed = true; since = y.te; if (!x.runcb && x.pool >= 0) extra += x.repeat; if (x.repeat && (used + skips >= x.repeat || canskip || !known)) { extra += x.repeat; if (used + skips >= x.repeat || canskip || !known) due_lo = 0; } } else if (!armed && !amb && cnt && !fuzzy && !skips && known) CHECK (false, "schedule %d: add refused although it was not scheduled", x.id); if (fuzzy && y.ret) { if (canskip) cnt = false; extra += 1 + x.repeat; due_lo = 0; vague = true; if (canskip) cnt = false; due_hi = std::max (due_hi, y.te + x.period + EPS); } break;
      case 'R': if (amb) {} else if (y.ret) CHECK (armed || fuzzy || !known, "schedule %d: remove succeeded although it was not scheduled", x.id); else if (armed && known && cnt && !fuzzy && !(x.repeat && used + skips >= x.repeat)) CHECK (false, "schedule %d: remove failed although it was scheduled", x.id);
                if (armed) { armed = false; off_at = y.te; late_ok = 1; } if (fuzzy) { if (canskip) cnt = false; extra++; due_lo = 0; vague = true; } break;
      case 'S': { if (!x.runcb && x.pool >= 0) { due_lo = std::min (due_lo, y.ts + x.period + y.delay); break; } uint64_t lo = y.ts + x.period + y.delay, hi = y.te + x.period + y.delay; if (fuzzy || amb) { due_lo = std::min (due_lo, lo); if (last_d != NEVER) due_lo = std::min (due_lo, last_d); due_hi = std::max (std::max (due_hi, hi), y.te + x.period + EPS); } else { due_lo = lo; due_hi = hi; } break; }
      case 'X': case 'F': armed = false; gone = true; off_at = y.te; late_ok = 1; break;
      case 'G': running = true; since = std::max (since, y.te); break;
      case 'H': running = false; off_at = y.te; late_ok = 1; break;
      case 'D': case 'L':
      {
        CHECK (y.ts >= due_lo, "schedule %d ran at %llu but was not due before %llu", x.id, (unsigned long long) y.ts, (unsigned long long) due_lo);
        bool ok = (armed && running && !gone) || amb; if (amb) extra += 1 + x.repeat;
        if (!ok && off_at == NEVER) CHECK (false, "schedule %d ran at %llu but it was never %s", x.id, (unsigned long long) y.ts, running ? "added" : "started");
        if (!ok && x.runcb && y.ts > off_at) { CHECK (late_ok && (!w.exact || y.ts <= off_at + EPS), "schedule %d ran at %llu after it was removed or stopped at %llu", x.id, (unsigned long long) y.ts, (unsigned long long) off_at); late_ok--; }
        if (!ok && !x.runcb && w.exact && !x.sync && x.pool < 0) CHECK (y.ts <= off_at + EPS, "schedule %d ran at %llu after it was removed or stopped at %llu", x.id, (unsigned long long) y.ts, (unsigned long long) off_at);
        used++; vague = false; if (!ok) extra++;
        if (x.repeat) CHECK (used <= x.repeat + extra, "schedule %d with %llu repeats ran %llu times", x.id, (unsigned long long) x.repeat, (unsigned long long) used);
        last_d = y.ts; uint64_t end = y.ts; if (x.sync) for (auto & b : busy) if (b.first >= y.ts && b.first <= y.ts + EPS) { end = b.second; break; }
        due_lo = (x.sync ? end : y.ts) + x.period; due_hi = (end == NEVER ? NEVER / 2 : end) + x.period + EPS;
        if (!x.runcb && !x.sync) due_lo = due_lo > EPS ? due_lo - EPS : 0;          // the function starts a little after its dispatch
        if (!x.runcb && x.pool >= 0) due_lo = 0;                                     // it may have waited in the pool
        if (!w.exact && !x.runcb && !x.sync) due_lo = 0;
        for (auto & o : x.items) if (o.k == 'S' && o.ts <= y.ts + EPS && y.ts <= o.te + EPS) due_hi = std::max (due_hi, o.te + x.period + o.delay);
        for (auto & o : x.items) if (o.k == 'R' && o.ret && o.ts <= y.ts + EPS && y.ts <= o.te + EPS) { due_lo = 0; vague = true; if (canskip) cnt = false; }
        if (!x.runcb) for (auto & o : x.items) if (o.k == 'A' && o.ts <= y.ts + EPS && y.ts <= o.te + EPS) due_lo = 0;
        for (auto & o : x.items) if (strchr ("AS", o.k) && o.ts <= y.ts && o.te >= y.ts) due_lo = 0;
        break;
      }
      default: break;
    }
    // other slow synchronous functions hold the scheduler back
    for (auto & o : w.sch) if (o.sync && o.dur) known = false;
  }
}

static const uint64_t PER[] = { 10 * MS, 25 * MS, 40 * MS, 100 * MS, 15 * MS, 0 }, DEL[] = { 0, 0, 5 * MS, 30 * MS, 100 * MS };

static void scenario (Src & s, bool exact)
{
  pbt::setrule ("at least two schedules ran, several times in all, and were added, removed, reset or deleted while the scheduler ran");
  World w; w.exact = exact; size_t n = 1 + s.draw (4); w.sch.resize (n);
  unsigned np = (unsigned) s.draw (3), poolt = 1 + (unsigned) s.draw (2), pooln = (unsigned) s.draw (3); bool fails = !exact && s.draw (6) == 5; uint64_t fail_at = s.draw (60 * MS); bool waiter = s.draw (5) == 4;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); Sch & x = w.sch[i]; x.w = &w; x.id = (int) i; x.period = PER[s.draw (6)]; x.delay = DEL[s.draw (5)]; x.repeat = s.draw (4); if (!x.period && !x.repeat) x.repeat = 2;
    static const uint64_t DU[] = { 0, 0, 3 * MS, 33 * MS }; x.dur = DU[s.draw (4)]; x.pool = np ? (int) s.draw (np + 1) - 1 : -1; static const int PR[] = { -1, -1, 5, 40 }; x.prio = PR[s.draw (4)];
    int m = (int) s.weighted ({ 4, 2, 2 }); x.conc = m == 1; x.sync = m == 2; x.runcb = s.draw (3) != 2; x.abortcb = s.draw (3) != 2;
    if (x.sync && s.draw (3)) x.dur = 0;
    x.fn_act = s.draw (3) == 2 && !x.conc ? 1 + s.draw (5) : 0; x.fn_at = (unsigned) s.draw (3); x.cb_act = s.draw (6) == 5 && x.runcb ? 1 + s.draw (5) : 0; x.cb_at = (unsigned) s.draw (3); if (x.fn_act) x.cb_act = 0;
    if (!exact && x.runcb && s.draw (4) == 3) x.cbdur = 2 * MS;
    x.items.reserve (256); x.runs.reserve (256);
  }
  struct P { uint64_t when; int op; uint64_t arg; }; std::vector<std::vector<P>> prog (n);
  for (size_t i = 0; i < n; i++) { size_t k = s.draw (5); bool selfdel = w.sch[i].fn_act == 3 || w.sch[i].cb_act == 3; for (size_t j = 0; j < k; j++) { Span sp (s); P p; p.when = s.draw (3) == 2 ? s.draw (60 * MS) : s.draw (13) * 5 * MS; p.op = selfdel ? 4 : (int) s.weighted ({ 3, 3, 3, 1 }); p.arg = DEL[s.draw (5)]; prog[i].push_back (p); } }
  std::vector<uint64_t> gp; size_t ng = s.draw (3) == 2 ? 1 + s.draw (2) : 0; for (size_t i = 0; i < 2 * ng; i++) gp.push_back (s.draw (80 * MS));
  w.aux_cb = s.draw (4) == 3; std::vector<unsigned> mode; for (size_t i = 0; i < n; i++) mode.push_back ((unsigned) s.draw (3)); uint64_t tail = s.draw (4) * 50 * MS; bool before = s.draw (2), split = s.draw (2);
  for (auto & x : w.sch) note ("schedule %d: period %llu delay %llu repeat %llu dur %llu pool %d prio %d%s%s runcb %d fn_act %llu@%u cb_act %llu@%u", x.id, (unsigned long long) x.period, (unsigned long long) x.delay, (unsigned long long) x.repeat, (unsigned long long) x.dur, x.pool, x.prio, x.conc ? " concurrent" : "", x.sync ? " sync" : "", x.runcb, (unsigned long long) x.fn_act, x.fn_at, (unsigned long long) x.cb_act, x.cb_at);
  note ("pools %u of %u threads, limit %u", np, poolt, pooln);
  vs::run (s, exact ? vs::NO_LATE : 0, [&] ()
  {
    iot_threadpool_t * pool[2] = { nullptr, nullptr };
    for (unsigned i = 0; i < np; i++) { pool[i] = iot_threadpool_alloc ((uint16_t) poolt, pooln, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); iot_threadpool_start (pool[i]); }
    w.s = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr);
    auto gate = [&] (bool run) { uint64_t a = T (); note ("%llu %s", (unsigned long long) a, run ? "start" : "stop"); if (run) iot_scheduler_start (w.s); else iot_scheduler_stop (w.s); vs::Atomic q; w.gates.push_back ({ run ? 'G' : 'H', a, T (), true, 0 }); };
    if (w.aux_cb) { w.aux = iot_schedule_create (w.s, [] (void *) -> void * { CHECK (false, "a schedule due in 100 hours ran"); return nullptr; }, nullptr, nullptr, MS, 100ull * 3600 * 1000 * MS, 0, nullptr, -1); iot_schedule_add (w.s, w.aux); }
    if (before) gate (true);
    std::vector<int> th;
    auto client = [&] (size_t i)
    {
      Sch & x = w.sch[i]; uint64_t a = T ();
      iot_schedule_t * h = iot_schedule_create (w.s, fn, free_cb, &x, x.period, x.delay, x.repeat, x.pool >= 0 ? pool[x.pool] : nullptr, x.prio); CHECK (h, "create");
      { vs::Atomic q; x.h = h; x.items.push_back ({ 'C', a, T (), true, 0 }); note ("%llu create %d", (unsigned long long) T (), x.id); }
      if (x.conc) { iot_schedule_set_concurrent (h, true); if (mode[i] == 1) CHECK (!iot_schedule_set_sync (h, true), "concurrent schedule %d made synchronous", x.id); if (mode[i] == 2) CHECK (iot_schedule_set_sync (h, false), "set_sync refused"); }
      else if (x.sync) { CHECK (iot_schedule_set_sync (h, true), "set_sync refused"); if (mode[i] == 1) iot_schedule_set_concurrent (h, true); }
      else if (mode[i] == 1) { CHECK (iot_schedule_set_sync (h, true), "set_sync refused"); iot_schedule_set_concurrent (h, true); CHECK (iot_schedule_set_sync (h, false), "set_sync refused"); }   // a synchronous schedule is not made concurrent
      else if (mode[i] == 2) { iot_schedule_set_concurrent (h, true); CHECK (!iot_schedule_set_sync (h, true), "concurrent schedule %d made synchronous", x.id); iot_schedule_set_concurrent (h, false); }
      if (x.runcb) iot_schedule_add_run_callback (w.s, h, run_cb);
      if (x.abortcb) iot_schedule_add_abort_callback (w.s, h, abort_cb);
      op_add (x);
      for (auto & p : prog[i]) { vs::sleep_ns (p.when); switch (p.op) { case 0: op_remove (x); break; case 1: if (!x.repeat || x.dispatches + x.aborts < x.repeat) op_add (x); break; case 2: op_reset (x, p.arg); break; case 3: op_delete (x, true); break; default: break; } if (!x.h) break; }
    };
    if (split) for (size_t i = 0; i < n; i++) th.push_back (vs::spawn ([&, i] () { client (i); }, "client"));
    else th.push_back (vs::spawn ([&] () { for (size_t i = 0; i < n; i++) client (i); }, "client"));
    int wt = -1; bool waited = false; if (waiter) wt = vs::spawn ([&] () { iot_component_state_t st = iot_component_wait ((iot_component_t *) w.s, IOT_COMPONENT_STOPPED); waited = true; CHECK (st == IOT_COMPONENT_STOPPED, "waited for the wrong state"); }, "waiter");
    bool failed = false; if (fails) th.push_back (vs::spawn ([&] () { vs::sleep_ns (fail_at); failed = true; vs::fail_creates (2); }, "failer"));
    if (!before) gate (true);
    for (size_t i = 0; i < ng; i++) { vs::sleep_ns (gp[2 * i]); gate (false); vs::sleep_ns (gp[2 * i + 1]); gate (true); }
    for (int t : th) vs::join (t);
    if (tail) vs::sleep_ns (tail);
    if (wt >= 0) { gate (false); vs::join (wt); CHECK (waited, "waiter"); }
    w.closing = true; vs::wait_until ([&] () { return w.acting == 0; }, NEVER);
    { vs::Atomic q; for (auto & x : w.sch) if (x.h) { x.dropped = iot_schedule_dropped (x.h); x.aborted = x.aborts; } w.freed = T (); note ("%llu free", (unsigned long long) T ()); }
    uint64_t a = w.freed; w.freed = NEVER; { vs::Atomic q; for (auto & x : w.sch) if (x.h) x.deleted = a; }
    iot_scheduler_free (w.s);
    { vs::Atomic q; w.freed = T (); w.gates.push_back ({ 'F', a, T (), true, 0 }); for (auto & x : w.sch) x.h = nullptr; }
    vs::sleep_ns (20 * MS);
    for (unsigned i = 0; i < np; i++) { iot_threadpool_wait (pool[i]); iot_threadpool_free (pool[i]); }
    CHECK (vs::wait_until ([] () { return vs::live_threads () == 1; }, 3600ull * 1000000000ull), "a thread of the scheduler or of a schedule never ends");
    bool lost = failed && vs::creates_to_fail () == 0; if (lost) pbt::label ("thread creation failed");
    unsigned total = 0, used = 0;
    for (auto & x : w.sch)
    {
      CHECK (x.frees == 1, "schedule %d was released %u times", x.id, x.frees); CHECK (!x.active, "schedule %d still runs", x.id);
      if (x.runcb) CHECK (x.runs.size () <= x.dispatches, "schedule %d: %zu runs for %u run callbacks", x.id, x.runs.size (), x.dispatches);
      if (x.runcb && x.abortcb && !(failed && x.pool < 0)) CHECK (x.runs.size () + x.aborts == x.dispatches, "schedule %d: %zu runs and %u aborted for %u run callbacks", x.id, x.runs.size (), x.aborts, x.dispatches);
      if (x.abortcb) CHECK (x.dropped <= x.aborted && x.aborted <= x.dropped + 1, "schedule %d: %llu dropped but %llu aborted", x.id, (unsigned long long) x.dropped, (unsigned long long) x.aborted);
      if (x.pool < 0) CHECK (x.dropped == 0, "events dropped without a pool");
      total += (unsigned) x.runs.size (); if (!x.runs.empty ()) used++; if (x.aborts) pbt::label ("dropped run");
      judge (w, x);
    }
    if (used >= 2 && total >= 4) pbt::nontrivial ();
  });
}

TARGET (timing, 250000, 12000000, pbt::LEAK) { scenario (s, true); }
TARGET (chaos, 150000, 7000000, pbt::LEAK) { scenario (s, false); }

// the platform refuses the scheduler's thread: nothing runs, and every call still returns
TARGET (no_thread, 8000, 200000, pbt::LEAK)
{
  pbt::setrule ("a schedule was added to a scheduler without a thread");
  size_t k = 1 + s.draw (8); std::vector<unsigned> ops; for (size_t i = 0; i < k; i++) ops.push_back ((unsigned) s.draw (7)); bool ref = s.draw (3) == 2;
  vs::run (s, 0, [&] ()
  {
    static unsigned runs, freed; runs = freed = 0; unsigned made = 0; bool on = false; iot_schedule_t * h = nullptr;
    vs::fail_creates (2); iot_scheduler_t * d = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); vs::fail_creates (0);
    CHECK (d, "alloc"); CHECK (vs::live_threads () == 1, "thread"); if (ref) iot_scheduler_add_ref (d);
    for (unsigned o : ops) switch (o)
    {
      case 0: iot_scheduler_start (d); break;
      case 1: iot_scheduler_stop (d); break;
      case 2: if (!h) { h = iot_schedule_create (d, [] (void *) -> void * { runs++; return nullptr; }, [] (void *) { freed++; }, nullptr, 1000000, 0, 0, nullptr, -1); CHECK (h, "create"); made++; on = false; } break;
      case 3: if (h) { bool r = iot_schedule_add (d, h); CHECK (r == !on, "add reports %d", r); on = true; pbt::nontrivial (); } break;
      case 4: if (h) { bool r = iot_schedule_remove (d, h); CHECK (r == on, "remove reports %d", r); on = false; } break;
      case 5: if (h) { iot_schedule_delete (d, h); h = nullptr; } break;
      default: vs::sleep_ns (5 * MS); break;
    }
    if (ref) iot_scheduler_free (d);
    iot_scheduler_free (d);
    CHECK (runs == 0, "a schedule ran without a scheduler thread"); CHECK (freed == made, "%u schedules, %u released", made, freed);
  });
}

// long times: delays and periods from a millisecond to months
struct Far { int id; uint64_t period, delay, repeat, due, stop; uint64_t runs; uint64_t made; bool sync; iot_schedule_t * h; };
static void * far_fn (void * p)
{
  Far & f = *(Far *) p; vs::Atomic q; uint64_t t = T (); note ("%llu run %d", (unsigned long long) t, f.id);
  CHECK (t >= f.due, "schedule %d ran at %llu but was not due before %llu", f.id, (unsigned long long) t, (unsigned long long) f.due); CHECK (t <= f.due + 2 * EPS, "schedule %d was due at %llu but ran at %llu", f.id, (unsigned long long) f.due, (unsigned long long) t);
  f.runs++; if (f.repeat) CHECK (f.runs <= f.repeat, "schedule %d runs more than %llu times", f.id, (unsigned long long) f.repeat); f.due = t + f.period - (t - f.due > EPS ? EPS : t - f.due); return nullptr;
}
TARGET (far, 20000, 800000, pbt::LEAK)
{
  pbt::setrule ("a schedule ran more than an hour after it was created");
  size_t n = 1 + s.draw (4); std::vector<Far> fs (n); static const uint64_t U[] = { MS, 1000 * MS, 60000 * MS, 3600000 * MS, 24 * 3600000 * MS }; uint64_t most = 0; const uint64_t nu = vs::now () > 4000000000000000000ull ? 2 : 5;      // the clock goes on from case to case: stay within its range
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); Far & f = fs[i]; f.id = (int) i; f.delay = s.draw (5) == 4 ? 0 : U[s.draw (nu)] * (1 + s.draw (99)); f.period = U[s.draw (nu)] * (1 + s.draw (99)); if (f.period < 10 * MS) f.period += 10 * MS; f.repeat = 1 + s.draw (8); f.stop = 0; f.runs = 0; if (s.draw (8) == 7) { static const uint64_t W[] = { 256, 65536, 1ull << 31, 1ull << 32, 1ull << 63 }; f.repeat = W[s.draw (5)] + s.draw (70); f.stop = 1 + s.draw (10); if (f.repeat < 400 && s.flag ()) { f.stop = 0; f.period = U[s.draw (2)] * (10 + s.draw (9)); } }   // stop: removed after so many periods
     f.sync = s.flag ();
    most = std::max (most, f.delay + f.period * (f.stop ? f.stop : f.repeat)); note ("schedule %zu: delay %llu period %llu repeat %llu%s", i, (unsigned long long) f.delay, (unsigned long long) f.period, (unsigned long long) f.repeat, f.sync ? " sync" : "");
  }
  bool before = s.flag (); bool again = s.draw (3) == 2; uint64_t gap = s.draw (4) == 3 ? U[s.draw (nu)] * (1 + s.draw (50)) : 0;
  vs::run (s, vs::NO_LATE, [&] ()
  {
    iot_scheduler_t * d = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); if (before) iot_scheduler_start (d);
    if (before && gap) vs::sleep_ns (gap);
    for (auto & f : fs) { { vs::Atomic q; f.due = T () + f.delay; } iot_schedule_t * h = f.h = iot_schedule_create (d, far_fn, nullptr, &f, f.period, f.delay, f.repeat, nullptr, -1); CHECK (h, "create"); if (f.sync) CHECK (iot_schedule_set_sync (h, true), "set_sync refused"); CHECK (iot_schedule_add (d, h), "add refused"); }
    if (!before) iot_scheduler_start (d);
    uint64_t base = T (); std::vector<std::pair<uint64_t, Far *>> stops; for (auto & f : fs) if (f.stop) stops.push_back ({ base + f.delay + f.period * f.stop - f.period / 2, &f }); std::sort (stops.begin (), stops.end ());
    for (auto & x : stops) { if (x.first > T ()) vs::sleep_ns (x.first - T ()); Far & f = *x.second; CHECK (f.runs == f.repeat || f.due + 2 * EPS > T (), "schedule %d of %llu runs was due at %llu but has not run at %llu", f.id, (unsigned long long) f.repeat, (unsigned long long) f.due, (unsigned long long) T ()); CHECK (iot_schedule_remove (d, f.h), "schedule %d is not active after %llu runs of %llu", f.id, (unsigned long long) f.runs, (unsigned long long) f.repeat); }
    vs::sleep_ns (most + 100 * MS); uint64_t total = 0;
    for (auto & f : fs) { if (!f.stop) CHECK (f.runs == f.repeat, "schedule %d ran %llu times of %llu", f.id, (unsigned long long) f.runs, (unsigned long long) f.repeat); total += f.delay + (f.stop ? 0 : f.period * (f.repeat - 1)); }
    for (auto & f : fs) if (!f.stop && again) { { vs::Atomic q; f.repeat += f.runs; f.due = T (); } CHECK (iot_schedule_add (d, f.h), "schedule %d not added again", f.id); note ("schedule %d added again", f.id); }
    if (again) { vs::sleep_ns (most + 100 * MS); for (auto & f : fs) if (!f.stop) CHECK (f.runs == f.repeat, "schedule %d added again: %llu runs of %llu", f.id, (unsigned long long) f.runs, (unsigned long long) f.repeat); }
    iot_scheduler_free (d); if (total > 3600000ull * MS) pbt::nontrivial ();
  });
}

// many schedules, many of them due at the same moment
struct Crowd { int id; uint64_t period, delay, repeat, due, runs = 0, freed = 0; bool pooled, removed = false, deleted = false; iot_schedule_t * h = nullptr; };
static std::vector<uint64_t> * crowd_log;
static void * crowd_fn (void * p)
{
  Crowd & c = *(Crowd *) p; vs::Atomic q; uint64_t t = T (); CHECK (!c.deleted, "schedule %d runs after its deletion", c.id); CHECK (!c.removed || c.pooled, "schedule %d runs after its removal", c.id);
  CHECK (t >= c.due, "schedule %d ran at %llu but was not due before %llu", c.id, (unsigned long long) t, (unsigned long long) c.due);
  c.runs++; if (c.repeat) CHECK (c.runs <= c.repeat, "schedule %d runs more than %llu times", c.id, (unsigned long long) c.repeat); if (!c.pooled) crowd_log->push_back (c.due); c.due += c.period - std::min (c.period, t - c.due); return nullptr;
}
static void crowd_free (void * p) { Crowd & c = *(Crowd *) p; vs::Atomic q; c.freed++; CHECK (c.freed == 1, "schedule %d released twice", c.id); }
TARGET (crowd, 4000, 200000, pbt::LEAK)
{
  pbt::setrule ("more than 50 schedules, several of them removed before they were due");
  size_t n = 1 + s.draw (s.draw (8) == 7 ? 600 : 200), steps = 1 + s.draw (8); std::vector<Crowd> cs (n); bool pool = s.draw (3) == 2, before = s.flag (); unsigned gone = 0; std::vector<uint64_t> log; crowd_log = &log; uint64_t most = 0;
  for (size_t i = 0; i < n; i++) { Crowd & c = cs[i]; c.id = (int) i; c.delay = 1000 * MS * (1 + s.draw (steps)); c.period = s.draw (4) == 3 ? 1000 * MS * (1 + s.draw (4)) : 100000 * MS; c.repeat = 1 + s.draw (s.draw (3) == 2 ? 5 : 1); c.pooled = pool && s.flag (); most = std::max (most, c.delay + c.period * (c.repeat - 1)); }
  std::vector<size_t> rm; for (size_t i = 0, k = s.draw (n + 1); i < k; i++) rm.push_back (s.draw (n)); bool del = s.flag (), back = s.flag ();
  note ("%zu schedules, %zu moments, %zu removals%s", n, steps, rm.size (), pool ? ", pool" : "");
  vs::run (s, vs::NO_LATE, [&] ()
  {
    iot_threadpool_t * p = pool ? iot_threadpool_alloc (2, 0, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr) : nullptr; if (p) iot_threadpool_start (p);
    iot_scheduler_t * d = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); if (before) iot_scheduler_start (d);
    for (auto & c : cs) { { vs::Atomic q; c.due = T () + c.delay; } c.h = iot_schedule_create (d, crowd_fn, crowd_free, &c, c.period, c.delay, c.repeat, c.pooled ? p : nullptr, -1); CHECK (c.h, "create"); if (!c.pooled) CHECK (iot_schedule_set_sync (c.h, true), "set_sync refused"); CHECK (iot_schedule_add (d, c.h), "schedule %d not added", c.id); }
    for (size_t i : rm) { Crowd & c = cs[i]; if (c.deleted) continue; if (del && i % 2) { iot_schedule_delete (d, c.h); vs::Atomic q; c.deleted = true; } else if (c.removed && back) { { vs::Atomic q; c.removed = false; } CHECK (iot_schedule_add (d, c.h), "schedule %d not added again", c.id); } else { bool r = iot_schedule_remove (d, c.h); vs::Atomic q; CHECK (r == !c.removed, "removal of schedule %d reports %d", c.id, r); c.removed = true; } gone++; }
    if (!before) iot_scheduler_start (d);
    vs::sleep_ns (most + 200000 * MS);
    for (auto & c : cs) { uint64_t want = c.removed || c.deleted ? 0 : c.repeat; CHECK (c.runs == want, "schedule %d ran %llu times of %llu", c.id, (unsigned long long) c.runs, (unsigned long long) want); }
    for (size_t i = 1; i < log.size (); i++) CHECK (log[i] + 100 * MS >= log[i - 1], "a schedule due at %llu ran after one due at %llu", (unsigned long long) log[i], (unsigned long long) log[i - 1]);
    iot_scheduler_free (d); for (auto & c : cs) CHECK (c.freed == 1, "schedule %d is not released", c.id); iot_threadpool_free (p);
    if (n > 50 && gone > 3) pbt::nontrivial ();
  });
}

// many runs dropped by a full pool: each is counted, reported and used up
struct Drops { unsigned runs = 0, calls = 0, aborts = 0; bool open = false; };
static void * drops_fn (void * p) { Drops & x = *(Drops *) p; vs::Atomic q; x.runs++; return nullptr; }
static void * drops_run (void * p) { Drops & x = *(Drops *) p; vs::Atomic q; x.calls++; return nullptr; }
static void * drops_abort (void * p) { Drops & x = *(Drops *) p; vs::Atomic q; x.aborts++; return nullptr; }
static void * drops_hog (void * p) { Drops & x = *(Drops *) p; vs::wait_until ([&] () { return x.open; }, 1ull << 60); return nullptr; }
TARGET (drops, 1000, 40000, pbt::LEAK)
{
  pbt::setrule ("more than 20 runs were dropped");
  uint32_t max = 1 + (uint32_t) s.draw (4); uint64_t period = MS * (2 + s.draw (50)); uint64_t repeat = s.draw (6) == 5 ? 250 + s.draw (80) : 1 + s.draw (40), ticks = repeat ? s.draw (repeat + 1) : 0; note ("limit %u period %llu repeat %llu, blocked for %llu", max, (unsigned long long) period, (unsigned long long) repeat, (unsigned long long) ticks);
  vs::run (s, vs::NO_LATE, [&] ()
  {
    Drops x; iot_threadpool_t * p = iot_threadpool_alloc (1, max, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); iot_threadpool_start (p); iot_scheduler_t * d = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, nullptr); iot_scheduler_start (d);
    iot_threadpool_add_work (p, drops_hog, &x, -1); vs::sleep_ns (MS / 2); uint64_t t0 = T ();
    iot_schedule_t * h = iot_schedule_create (d, drops_fn, nullptr, &x, period, period, repeat, p, -1); CHECK (h, "create"); iot_schedule_set_concurrent (h, true); iot_schedule_add_run_callback (d, h, drops_run); iot_schedule_add_abort_callback (d, h, drops_abort); CHECK (iot_schedule_add (d, h), "add");
    vs::sleep_ns (period * ticks + period / 2 > T () - t0 ? period * ticks + period / 2 - (T () - t0) : 1); uint64_t drops = iot_schedule_dropped (h); unsigned calls = x.calls;
    CHECK (x.runs == 0, "ran %u times although the pool was blocked", x.runs); CHECK (calls + (calls > 100) >= ticks && calls <= ticks, "%u runs began, not %llu", calls, (unsigned long long) ticks);
    CHECK (drops == (calls > max ? calls - max : 0), "%llu runs dropped of %u by a pool with room for %u", (unsigned long long) drops, calls, max); CHECK (x.aborts == drops, "%u drops reported of %llu", x.aborts, (unsigned long long) drops);
    { vs::Atomic q; x.open = true; } vs::sleep_ns (period * (repeat + 2 - ticks) + 10 * MS); CHECK (x.calls == repeat, "%u runs began of %llu", x.calls, (unsigned long long) repeat); CHECK (x.runs + iot_schedule_dropped (h) == repeat, "%u runs and %llu drops of %llu", x.runs, (unsigned long long) iot_schedule_dropped (h), (unsigned long long) repeat);
    CHECK (x.runs == repeat - drops, "runs dropped by a free pool"); iot_schedule_delete (d, h); iot_scheduler_free (d); iot_threadpool_free (p); if (drops > 20) pbt::nontrivial ();
  });
}
