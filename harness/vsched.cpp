#include "vsched.h"
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <new>
#include <algorithm>

extern "C" void __sanitizer_start_switch_fiber (void ** fake, const void * bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber (void * fake, const void ** bottom, size_t * size);
extern "C" void __asan_unpoison_memory_region (void const volatile * addr, size_t size);
extern "C" void vs_switch_asm (void ** save, void * load);
asm (".text\n.globl vs_switch_asm\n.type vs_switch_asm,@function\nvs_switch_asm:\n"
     "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
     "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
     "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nretq\n.size vs_switch_asm,.-vs_switch_asm\n");

namespace vs {

static const int MAXT = 400;
static const size_t STACK = 256 * 1024;
static const uint64_t BASE = 1700000000000000000ull;

enum St { FREE, READY, BLOCKED, DONE };
struct Fiber
{
  St st; int id; void * sp; char * stack; void * fake;
  void * (*fn) (void *); void * arg; void * ret; std::function<void ()> * body;
  char nm[24]; bool detached;
  // what it waits for
  const void * on; const char * why; bool timed; uint64_t deadline; bool timedout;
  const std::function<bool ()> * pred;
  int prio;          // PCT
  int sprio;         // scheduling parameter
  int offs;
  unsigned tries;    // times it woke for a mutex that was taken again
  unsigned passed;   // times it could run but was not chosen
};
static Fiber fib[MAXT]; static int nfib;
static Fiber * cur;
static void * main_sp; static void * main_fake; static const void * main_bottom; static size_t main_size;
static bool active;
static pbt::Src * src;
static Policy pol;
static uint64_t clk, off_clk;       // virtual time of sleepers; clock offset seen by clock_gettime
static uint64_t nsw, steps, since;
static int64_t mem_left;
static unsigned late_left;
static std::function<void ()> fns[MAXT];
static uint64_t hi, base;            // latest time ever shown; start of this case (the library keeps its last time stamp across cases)
static unsigned fails, fail_skip;   // thread creations that fail from now on
uint64_t since_start () { return now () - base; }
uint64_t start_time () { return base; }
void fail_creates (unsigned n, unsigned skip) { fails = n; fail_skip = skip; }
unsigned creates_to_fail () { return fails; }

const Policy & policy () { return pol; }
int self () { return cur ? cur->id : -1; }
uint64_t now () { return clk + off_clk; }
uint64_t switches () { return nsw; }
const char * name (int id) { return fib[id].nm; }
bool blocked (int id) { return fib[id].st == BLOCKED; }
int sched_priority (int id) { return fib[id].sprio; }
unsigned live_threads () { unsigned n = 0; for (int i = 0; i < nfib; i++) if (fib[i].st == READY || fib[i].st == BLOCKED) n++; return n; }
void off () { if (cur) cur->offs++; }
void on () { if (cur && cur->offs) cur->offs--; }

static void trampoline ();
static void arm_mem () { mem_left = pol.mem_mean ? 1 + (int64_t) src->draw (2 * pol.mem_mean) : INT64_MAX; }

__attribute__ ((no_sanitize ("address"))) static void switch_to (Fiber * f)   // f == null: back to the driver
{
  Fiber * me = cur; void * fake = nullptr; const void * b; size_t z;
  bool dying = me && me->st == DONE;
  cur = f; nsw++; since = 0;
  __sanitizer_start_switch_fiber (dying ? nullptr : &fake, f ? f->stack : (const char *) main_bottom, f ? STACK : main_size);
  vs_switch_asm (me ? &me->sp : &main_sp, f ? f->sp : main_sp);
  __sanitizer_finish_switch_fiber (fake, &b, &z);
  if (!me && !main_bottom) { }
}

static void wake (Fiber * f) { f->st = READY; f->on = nullptr; f->pred = nullptr; f->timed = false; }

[[noreturn]] static void deadlock (const char * what)
{
  std::string r = what;
  for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED || fib[i].st == READY)
  {
    char b[160]; snprintf (b, sizeof b, "; thread %d (%s) %s%s", i, fib[i].nm, fib[i].st == READY ? "ready" : "waits for ", fib[i].st == READY ? "" : fib[i].why); r += b;
  }
  pbt::fail ("%s", r.c_str ());
}

static int pick (bool may_stay)     // choose the next thread to run; -1: none
{
  for (;;)
  {
    int c[MAXT], n = 0;
    if (may_stay && cur && cur->st == READY) c[n++] = cur->id;
    for (int i = 0; i < nfib; i++)
    {
      Fiber & f = fib[i];
      if (f.st == BLOCKED && f.pred && (*f.pred) ()) { wake (&f); f.timedout = false; }
      if (f.st == BLOCKED && f.timed && f.deadline <= clk) { wake (&f); f.timedout = true; }
      if (f.st == READY && !(may_stay && cur == &f)) c[n++] = i;
    }
    if (n)
    {
      for (int i = 0; i < n; i++) if (++fib[c[i]].passed > 1500) { fib[c[i]].passed = 0; return c[i]; }     // weak fairness
      if (pol.pct) { int b = 0; for (int i = 1; i < n; i++) if (fib[c[i]].prio > fib[c[b]].prio) b = i; fib[c[b]].passed = 0; return c[b]; }
      int k = c[src->draw ((uint64_t) n)]; fib[k].passed = 0; return k;
    }
    uint64_t d = UINT64_MAX; bool any = false, alive = false;
    for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED) { alive = true; if (fib[i].timed) { any = true; if (fib[i].deadline < d) d = fib[i].deadline; } }
    if (!alive) return -1;
    if (!any) deadlock ("deadlock: no thread can run");
    if (d > clk) clk = d;
  }
}

static void reschedule (bool may_stay)
{
  if (++steps > 15000000) deadlock ("no progress after 15000000 steps");
  int n = pick (may_stay);
  if (n < 0) { switch_to (nullptr); return; }
  if (cur && n == cur->id) return;
  switch_to (&fib[n]);
}

static void sync_point ()
{
  if (!active || !cur || cur->offs) return;
  clk += 7;
  if (pol.late && late_left && src->draw (64) == 63) { late_left--; static const uint64_t J[] = { 1000, 100000, 600000, 3000000, 250000000, 1000000000ull }; clk += J[src->draw (6)]; }
  if (since++ > 3000) { since = 0; if (pol.pct) cur->prio -= 1000; reschedule (false); return; }
  if (!pol.sync_den) return;
  if (src->draw (pol.sync_den) != pol.sync_den - 1) return;
  if (pol.pct) cur->prio = -(int) src->draw (1000) - 1;
  reschedule (true);
}
void yield () { sync_point (); }

static inline void mem_point ()
{
  if (--mem_left > 0) return;
  if (!active || !cur || cur->offs) { mem_left = 1; return; }
  arm_mem ();
  if (pol.pct) cur->prio = -(int) src->draw (1000) - 1;
  reschedule (true);
}

static void block (const void * what, const char * why, bool timed = false, uint64_t deadline = 0, const std::function<bool ()> * pred = nullptr)
{
  if (cur->offs) { /* harness code must not block while preemption is off */ cur->offs = 0; }
  cur->st = BLOCKED; cur->on = what; cur->why = why; cur->timed = timed; cur->deadline = deadline; cur->timedout = false; cur->pred = pred;
  reschedule (false);
}

static void * run_body (void * p) { (*(std::function<void ()> *) p) (); return nullptr; }

static Fiber * make (void * (*fn) (void *), void * arg, const char * nm)
{
  int i = nfib;
  for (int k = 0; k < nfib; k++) if (fib[k].st == FREE || (fib[k].st == DONE && fib[k].detached)) { i = k; break; }
  if (i >= MAXT) pbt::fail ("more than %d threads alive", MAXT);
  if (i == nfib) nfib++;
  Fiber & f = fib[i];
  if (!f.stack) { f.stack = (char *) mmap (nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  __asan_unpoison_memory_region (f.stack, STACK);
  f.id = i; f.fn = fn; f.arg = arg; f.ret = nullptr; f.body = nullptr; f.detached = false; f.st = READY; f.on = nullptr; f.why = ""; f.timed = false; f.timedout = false; f.pred = nullptr; f.offs = 0; f.passed = 0; f.tries = 0; f.fake = nullptr; f.sprio = 0;
  f.prio = pol.pct ? 1 + (int) src->draw (1000) : 0;
  snprintf (f.nm, sizeof f.nm, "%s", nm);
  void ** sp = (void **) (f.stack + STACK); sp -= 2;
  *--sp = nullptr;                  // alignment: rsp % 16 == 8 on entry
  *--sp = (void *) trampoline;
  for (int k = 0; k < 6; k++) *--sp = nullptr;
  f.sp = sp;
  return &f;
}

static void trampoline ()
{
  const void * b; size_t z;
  __sanitizer_finish_switch_fiber (nullptr, &b, &z);
  if (!main_bottom) { main_bottom = b; main_size = z; }
  Fiber * me = cur;
  me->ret = me->fn (me->arg);
  me->st = DONE;
  for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED && fib[i].on == me) wake (&fib[i]);
  reschedule (false);
  __builtin_trap ();
}

int spawn (const std::function<void ()> & fn, const char * nm)
{
  Fiber * f = make (run_body, nullptr, nm); fns[f->id] = fn; f->arg = &fns[f->id];
  int id = f->id; sync_point (); return id;
}
void join (int id) { while (fib[id].st != DONE && fib[id].st != FREE) block (&fib[id], "a thread to end"); }
void sleep_ns (uint64_t ns) { block (nullptr, "time to pass", true, clk + ns); }
void set_clock (uint64_t ns) { hi = std::max (hi, now ()); off_clk = ns - clk; }
bool wait_until (const std::function<bool ()> & pred, uint64_t timeout)
{
  if (pred ()) return true;
  block (nullptr, "a condition of the test", timeout != UINT64_MAX, clk + timeout, &pred);
  return pred ();
}

void run (pbt::Src & s, unsigned flags, const std::function<void ()> & body)
{
  src = &s; int used = nfib; nfib = 0; for (int i = 0; i < used; i++) fib[i].st = FREE;
  clk = std::max (BASE, hi + 1000000); off_clk = 0; base = clk; fails = 0; fail_skip = 0; nsw = 0; steps = 0; since = 0; late_left = 40;
  static const unsigned SD[] = { 0, 2, 4, 12, 40 }; static const unsigned MM[] = { 0, 0, 12, 60, 400 };
  pol.sync_den = SD[s.draw (5)]; pol.mem_mean = MM[s.draw (5)]; pol.pct = s.draw (3) == 2; pol.spurious = s.draw (4) == 3; pol.late = s.draw (6) == 5;
  if (flags & NO_LATE) pol.late = false; if (flags & NO_SPURIOUS) pol.spurious = false;
  arm_mem ();
  pbt::note ("schedule policy: sync 1/%u mem %u pct %d spurious %d late %d", pol.sync_den, pol.mem_mean, pol.pct, pol.spurious, pol.late);
  std::function<void ()> b = body;
  Fiber * f = make (run_body, &b, "main");
  active = true; cur = nullptr;
  switch_to (f);
  hi = std::max (hi, std::max (clk, now ()));
  active = false; cur = nullptr; mem_left = INT64_MAX;
  for (int i = 0; i < nfib; i++) fns[i] = nullptr;
}

// ---- locks ----
struct M { uint32_t magic; int owner; int type; int waiters; };   // overlays pthread_mutex_t; zero is a valid unlocked default mutex
enum { DEAD = 0xdeadu, ERRCHK = 1, RECUR = 2 };
static_assert (sizeof (M) <= sizeof (pthread_mutex_t), "");
struct C { uint32_t magic; int waiters; bool mono; };
static_assert (sizeof (C) <= sizeof (pthread_cond_t), "");
struct W { uint32_t magic; int writer; int readers; };
static_assert (sizeof (W) <= sizeof (pthread_rwlock_t), "");

static int me () { return cur ? cur->id + 1 : 1000; }
static void wake_on (const void * p) { for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED && fib[i].on == p) wake (&fib[i]); }

static void release (M * m)      // a thread that has tried often enough gets the mutex handed over
{
  m->owner = 0;
  for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED && fib[i].on == m && fib[i].tries > 40) { m->owner = i + 1; wake (&fib[i]); fib[i].timedout = false; return; }
  wake_on (m);
}

static int lock (M * m, bool timed, uint64_t deadline)
{
  if (m->magic == DEAD) pbt::fail ("mutex used after it was destroyed");
  if (m->owner == me ())
  {
    if (m->type == ERRCHK) return EDEADLK;
    if (m->type == RECUR) { m->waiters++; return 0; }
    if (timed) return ETIMEDOUT;
    pbt::fail ("deadlock: thread %d locks a mutex it already holds", self ());
  }
  while (m->owner)
  {
    if (!cur) pbt::fail ("mutex left locked by a thread that ended");
    block (m, "a mutex", timed, deadline);
    if (timed && cur->timedout && m->owner && m->owner != me ()) return ETIMEDOUT;
    if (m->magic == DEAD) pbt::fail ("mutex destroyed while a thread waits for it");
    if (m->owner == me ()) break;
    cur->tries++;
  }
  if (cur) cur->tries = 0;
  m->owner = me (); return 0;
}

}
using namespace vs;

#define TS(t) ((uint64_t) (t)->tv_sec * 1000000000ull + (uint64_t) (t)->tv_nsec)
static uint64_t abs_deadline (const struct timespec * t, bool mono = false) { uint64_t a = TS (t), n = mono ? clk : vs::now (); return a <= n ? clk : clk + (a - n); }

extern "C" {

void vs_atomic_point (const volatile void *) { if (active) sync_point (); }
int vs_spurious_cas (void) { return active && pol.spurious && src->draw (6) == 5; }
ssize_t vs_getrandom (void * p, size_t n, unsigned)
{
  static uint64_t x = 0x9e3779b97f4a7c15ull;
  if (active) { sync_point (); switch (src->draw (8)) { case 6: errno = EINTR; return -1; case 7: if (n > 1) { memset (p, 0, n); return (ssize_t) (n / 2); } break; default: break; } }
  for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((unsigned char *) p)[i] = (unsigned char) (x >> 24); }
  return (ssize_t) n;
}
int vs_mutex_init (pthread_mutex_t * p, const pthread_mutexattr_t * a)
{
  memset (p, 0, sizeof *p); int t = PTHREAD_MUTEX_DEFAULT; if (a) pthread_mutexattr_gettype (a, &t);
  ((M *) p)->type = t == PTHREAD_MUTEX_ERRORCHECK ? ERRCHK : t == PTHREAD_MUTEX_RECURSIVE ? RECUR : 0; return 0;
}
int vs_mutex_destroy (pthread_mutex_t * p)
{
  M * m = (M *) p; sync_point (); if (m->magic == DEAD) pbt::fail ("mutex destroyed twice"); if (m->owner) return EBUSY;
  m->magic = DEAD; return 0;
}
int vs_mutex_lock (pthread_mutex_t * p) { sync_point (); return lock ((M *) p, false, 0); }
int vs_mutex_timedlock (pthread_mutex_t * p, const struct timespec * t) { sync_point (); return lock ((M *) p, true, abs_deadline (t)); }
int vs_mutex_trylock (pthread_mutex_t * p)
{
  sync_point (); M * m = (M *) p; if (m->magic == DEAD) pbt::fail ("mutex used after it was destroyed");
  if (m->owner) { if (m->owner == me () && m->type == RECUR) { m->waiters++; return 0; } return EBUSY; }
  m->owner = me (); return 0;
}
int vs_mutex_unlock (pthread_mutex_t * p)
{
  M * m = (M *) p; if (m->magic == DEAD) pbt::fail ("mutex used after it was destroyed");
  if (m->owner != me ()) { if (m->type) return EPERM; pbt::fail ("thread %d unlocks a mutex it does not hold", self ()); }
  if (m->type == RECUR && m->waiters) { m->waiters--; return 0; }
  release (m); sync_point (); return 0;
}
int vs_cond_init (pthread_cond_t * p, const pthread_condattr_t * a) { memset (p, 0, sizeof *p); clockid_t c = CLOCK_REALTIME; if (a) pthread_condattr_getclock (a, &c); ((C *) p)->mono = c == CLOCK_MONOTONIC; return 0; }
int vs_cond_destroy (pthread_cond_t * p)
{
  C * c = (C *) p; sync_point (); if (c->magic == DEAD) pbt::fail ("condition destroyed twice");
  while (c->waiters) { if (!cur) pbt::fail ("condition destroyed while threads wait"); block (&c->waiters, "the last waiter to leave a condition being destroyed"); }
  c->magic = DEAD; return 0;
}
static int cwait (pthread_cond_t * cp, pthread_mutex_t * mp, bool timed, uint64_t deadline)
{
  C * c = (C *) cp; M * m = (M *) mp;
  if (c->magic == DEAD) pbt::fail ("condition used after it was destroyed");
  if (m->owner != me ()) pbt::fail ("thread %d waits on a condition without holding its mutex", self ());
  sync_point ();
  release (m);
  c->waiters++;
  bool to = false;
  if (timed && deadline <= clk) { to = true; cur->offs = 0; reschedule (true); }
  else if (pol.spurious && src->draw (16) == 15) { reschedule (true); }
  else { block (c, timed ? "a condition (timed)" : "a condition", timed, deadline); to = timed && cur->timedout; }
  c->waiters--; if (!c->waiters) wake_on (&c->waiters);
  int r = lock (m, false, 0); if (r) return r;
  return to ? ETIMEDOUT : 0;
}
int vs_cond_wait (pthread_cond_t * c, pthread_mutex_t * m) { return cwait (c, m, false, 0); }
int vs_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  if (t->tv_nsec < 0 || t->tv_nsec > 999999999) return EINVAL;
  return cwait (c, m, true, abs_deadline (t, ((C *) c)->mono));
}
int vs_cond_clockwait (pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t)
{
  if (t->tv_nsec < 0 || t->tv_nsec > 999999999) return EINVAL;
  return cwait (c, m, true, abs_deadline (t, k == CLOCK_MONOTONIC));
}
int vs_cond_signal (pthread_cond_t * p)
{
  C * c = (C *) p; if (c->magic == DEAD) pbt::fail ("condition signalled after it was destroyed"); sync_point ();
  int w[MAXT], n = 0; for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED && fib[i].on == c) w[n++] = i;
  if (n) { Fiber & f = fib[w[src->draw ((uint64_t) n)]]; wake (&f); f.timedout = false; }
  return 0;
}
int vs_cond_broadcast (pthread_cond_t * p)
{
  C * c = (C *) p; if (c->magic == DEAD) pbt::fail ("condition signalled after it was destroyed"); sync_point ();
  for (int i = 0; i < nfib; i++) if (fib[i].st == BLOCKED && fib[i].on == c) { wake (&fib[i]); fib[i].timedout = false; }
  return 0;
}
int vs_rwlock_init (pthread_rwlock_t * p, const pthread_rwlockattr_t *) { memset (p, 0, sizeof *p); return 0; }
int vs_rwlock_destroy (pthread_rwlock_t * p) { W * w = (W *) p; if (w->magic == DEAD) pbt::fail ("lock destroyed twice"); if (w->writer || w->readers) return EBUSY; w->magic = DEAD; return 0; }
static void wchk (W * w) { if (w->magic == DEAD) pbt::fail ("read-write lock used after it was destroyed"); }
int vs_rwlock_rdlock (pthread_rwlock_t * p)
{
  W * w = (W *) p; wchk (w); sync_point ();
  if (w->writer == me ()) return EDEADLK;
  while (w->writer) { if (!cur) pbt::fail ("read-write lock left locked"); block (w, "a read lock"); }
  w->readers++; return 0;
}
int vs_rwlock_tryrdlock (pthread_rwlock_t * p) { W * w = (W *) p; wchk (w); sync_point (); if (w->writer) return EBUSY; w->readers++; return 0; }
int vs_rwlock_wrlock (pthread_rwlock_t * p)
{
  W * w = (W *) p; wchk (w); sync_point ();
  if (w->writer == me ()) return EDEADLK;
  while (w->writer || w->readers) { if (!cur) pbt::fail ("read-write lock left locked"); block (w, "a write lock"); }
  w->writer = me (); return 0;
}
int vs_rwlock_trywrlock (pthread_rwlock_t * p) { W * w = (W *) p; wchk (w); sync_point (); if (w->writer || w->readers) return EBUSY; w->writer = me (); return 0; }
int vs_rwlock_unlock (pthread_rwlock_t * p)
{
  W * w = (W *) p; wchk (w);
  if (w->writer) { if (w->writer != me ()) pbt::fail ("thread %d unlocks a write lock it does not hold", self ()); w->writer = 0; }
  else if (w->readers) w->readers--;
  else pbt::fail ("read-write lock unlocked but not held");
  wake_on (w); sync_point (); return 0;
}
int vs_spin_init (pthread_spinlock_t * p, int) { *p = 0; return 0; }
int vs_spin_destroy (pthread_spinlock_t *) { return 0; }
int vs_spin_lock (pthread_spinlock_t * p) { sync_point (); while (*p) { if (*p == me ()) pbt::fail ("deadlock: spin lock taken twice"); block ((const void *) p, "a spin lock"); } *p = me (); return 0; }
int vs_spin_trylock (pthread_spinlock_t * p) { sync_point (); if (*p) return EBUSY; *p = me (); return 0; }
int vs_spin_unlock (pthread_spinlock_t * p) { *p = 0; wake_on ((const void *) p); sync_point (); return 0; }

// semaphores: the first int of a sem_t holds the count
int vs_sem_init (sem_t * p, int, unsigned v) { memset (p, 0, sizeof *p); *(unsigned *) p = v; return 0; }
int vs_sem_destroy (sem_t *) { return 0; }
static int sem_down (sem_t * p, bool timed, uint64_t deadline)
{
  sync_point (); unsigned & v = *(unsigned *) p;
  while (!v) { if (!cur) pbt::fail ("semaphore never posted"); block (p, "a semaphore", timed, deadline); if (timed && cur->timedout && !v) { errno = ETIMEDOUT; return -1; } }
  v--; return 0;
}
int vs_sem_wait (sem_t * p) { return sem_down (p, false, 0); }
int vs_sem_timedwait (sem_t * p, const struct timespec * t) { return sem_down (p, true, abs_deadline (t)); }
int vs_sem_trywait (sem_t * p) { sync_point (); unsigned & v = *(unsigned *) p; if (!v) { errno = EAGAIN; return -1; } v--; return 0; }
int vs_sem_post (sem_t * p) { sync_point (); ++*(unsigned *) p; wake_on (p); return 0; }
int vs_sem_getvalue (sem_t * p, int * r) { sync_point (); *r = (int) *(unsigned *) p; return 0; }
int vs_once (pthread_once_t * o, void (*fn) (void))
{
  if (!cur) { if (*o != 2) { *o = 2; fn (); } return 0; }
  sync_point ();
  while (*o == 1) block (o, "the initialisation by another thread");
  if (*o == 0) { *o = 1; fn (); *o = 2; wake_on (o); }
  return 0;
}

int vs_create (pthread_t * t, const pthread_attr_t * a, void * (*fn) (void *), void * arg)
{
  if (!active) pbt::fail ("thread created outside a scheduled case");
  if (fails && fail_skip) fail_skip--; else if (fails) { fails--; sync_point (); return EAGAIN; }
  Fiber * f = make (fn, arg, "lib");
  int d = PTHREAD_CREATE_JOINABLE; if (a) { pthread_attr_getdetachstate (a, &d); struct sched_param p; int pl = 0; pthread_attr_getschedpolicy (a, &pl); if (pl == SCHED_FIFO && pthread_attr_getschedparam (a, &p) == 0) f->sprio = p.sched_priority; }
  f->detached = d == PTHREAD_CREATE_DETACHED;
  *t = (pthread_t) (f->id + 1); sync_point (); return 0;
}
int vs_join (pthread_t t, void ** r) { int id = (int) t - 1; vs::join (id); if (r) *r = fib[id].ret; return 0; }
int vs_detach (pthread_t t) { fib[(int) t - 1].detached = true; return 0; }
pthread_t vs_self (void) { return (pthread_t) me (); }
int vs_equal (pthread_t a, pthread_t b) { return a == b; }
int vs_getschedparam (pthread_t t, int * p, struct sched_param * sp) { *p = SCHED_OTHER; sp->sched_priority = t <= (pthread_t) MAXT ? fib[(int) t - 1].sprio : 0; return 0; }
int vs_setschedparam (pthread_t t, int, const struct sched_param * sp) { if (sp->sched_priority < 1 || sp->sched_priority > 99) return EINVAL; if (t <= (pthread_t) MAXT) fib[(int) t - 1].sprio = sp->sched_priority; return 0; }
int vs_setname (pthread_t, const char *) { return 0; }
int vs_clock_gettime (clockid_t c, struct timespec * t)
{
  if (!active) return clock_gettime (c, t);
  sync_point (); clk += 20; uint64_t n = c == CLOCK_MONOTONIC ? clk : vs::now (); t->tv_sec = (time_t) (n / 1000000000ull); t->tv_nsec = (long) (n % 1000000000ull); return 0;
}
int vs_gettimeofday (struct timeval * tv, void *) { struct timespec t; vs_clock_gettime (CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t vs_time (time_t * p) { struct timespec t; vs_clock_gettime (CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int vs_nanosleep (const struct timespec * t, struct timespec * rem)
{
  if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) { errno = EINVAL; return -1; }
  if (!active) return 0;
  uint64_t ns = TS (t);
  if (pol.spurious && ns > 1 && src->draw (8) == 7)       // interrupted by a signal
  {
    uint64_t part = src->draw (ns); vs::sleep_ns (part); if (rem) { rem->tv_sec = (time_t) ((ns - part) / 1000000000ull); rem->tv_nsec = (long) ((ns - part) % 1000000000ull); }
    errno = EINTR; return -1;
  }
  vs::sleep_ns (ns); return 0;
}
int vs_clock_nanosleep (clockid_t c, int fl, const struct timespec * t, struct timespec *) { if (!active) return 0; if (fl & TIMER_ABSTIME) block (nullptr, "time to pass", true, abs_deadline (t, c == CLOCK_MONOTONIC)); else vs::sleep_ns (TS (t)); return 0; }
int vs_usleep (unsigned u) { if (active) vs::sleep_ns ((uint64_t) u * 1000); return 0; }
unsigned vs_sleep (unsigned s) { if (active) vs::sleep_ns ((uint64_t) s * 1000000000ull); return 0; }
int vs_yield (void) { if (active) { clk += 7; cur->offs = 0; reschedule (true); } return 0; }

#define PT(n) void __sanitizer_cov_load##n (void *) { mem_point (); } void __sanitizer_cov_store##n (void *) { mem_point (); }
PT (1) PT (2) PT (4) PT (8) PT (16)
void __sanitizer_cov_trace_pc_guard (uint32_t *) {}
void __sanitizer_cov_trace_pc_guard_init (uint32_t *, uint32_t *) {}
}
