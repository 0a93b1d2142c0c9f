// C31: thread creation against a model of the platform. Creation, scheduling, identity and CPU calls of the library are
// redirected (--wrap) to a platform with generated privileges, CPUs and refusals; the threads themselves are real.
#include "pbt.h"
#include "iot/thread.h"
#include "iot/logger.h"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <unistd.h>
#include <map>
#include <list>
#include <atomic>
#include <limits.h>
using pbt::Src; using pbt::Span; using pbt::note;

struct Made { bool detached; int policy, prio; bool cpus; cpu_set_t set; pthread_t id; };
static bool on;                       // the model is active (the framework's own calls pass through)
static int euid, ncpu; static unsigned allowed; static bool rt; static std::vector<int> refuse; static size_t calls; static bool noaff, detach_later;
static std::vector<Made> made;
static std::map<pthread_t, std::pair<int, int>> sched;   // thread -> policy, priority

struct Run { void * (*fn) (void *); void * arg; sem_t go; };
static void * runner (void * p) { Run * r = (Run *) p; void * (*fn) (void *) = r->fn; void * a = r->arg; sem_wait (&r->go); sem_destroy (&r->go); delete r; return fn (a); }
extern "C"
{
  int __real_pthread_create (pthread_t *, const pthread_attr_t *, void * (*) (void *), void *);
  int __real_pthread_detach (pthread_t);
  int __real_pthread_setschedparam (pthread_t, int, const struct sched_param *);
  int __real_pthread_getschedparam (pthread_t, int *, struct sched_param *);
  int __real_pthread_setaffinity_np (pthread_t, size_t, const cpu_set_t *);
  int __real_pthread_attr_setaffinity_np (pthread_attr_t *, size_t, const cpu_set_t *);
  uid_t __real_geteuid (void); uid_t __real_getuid (void);
  long __real_sysconf (int);
  int __wrap_pthread_create (pthread_t * t, const pthread_attr_t * a, void * (*fn) (void *), void * arg)
  {
    if (!on) return __real_pthread_create (t, a, fn, arg);
    size_t n = calls++; if (n < refuse.size () && refuse[n]) { note ("  platform: create refused (%d)", refuse[n]); return refuse[n]; }
    Made m = {}; m.policy = SCHED_OTHER; CPU_ZERO (&m.set);
    if (a)
    {
      int d, inh; struct sched_param p; pthread_attr_getdetachstate (a, &d); m.detached = d == PTHREAD_CREATE_DETACHED;
      pthread_attr_getinheritsched (a, &inh);
      if (inh == PTHREAD_EXPLICIT_SCHED) { pthread_attr_getschedpolicy (a, &m.policy); pthread_attr_getschedparam (a, &p); m.prio = p.sched_priority; }
      if (m.policy == SCHED_OTHER) m.prio = 0;
      else if (m.prio < sched_get_priority_min (m.policy) || m.prio > sched_get_priority_max (m.policy)) { note ("  platform: bad priority"); return EINVAL; }
      else if (euid || !rt) { note ("  platform: scheduling not permitted"); return EPERM; }
      cpu_set_t s; CPU_ZERO (&s); pthread_attr_getaffinity_np (a, sizeof s, &s);
      if (CPU_COUNT (&s) && CPU_COUNT (&s) < CPU_SETSIZE)
      {
        unsigned m1 = 0; for (int i = 0; i < 32; i++) if (CPU_ISSET (i, &s)) m1 |= 1u << i;
        if (!(m1 & allowed)) { note ("  platform: CPU not available"); return EINVAL; }
        m.cpus = true; m.set = s;
      }
    }
    Run * r = new Run; r->fn = fn; r->arg = arg; sem_init (&r->go, 0, 0);
    pthread_attr_t x; pthread_attr_init (&x); pthread_attr_setdetachstate (&x, PTHREAD_CREATE_DETACHED); pthread_attr_setstacksize (&x, 256 * 1024);   // the model keeps the detach state
    pthread_t id; int e = __real_pthread_create (&id, &x, runner, r); pthread_attr_destroy (&x);
    if (e) { on = false; pbt::fail ("harness: no thread (%d)", e); }
    m.id = id; *t = id; made.push_back (m); sched[id] = { m.policy, m.prio }; sem_post (&r->go); return 0;
  }
  int __wrap_pthread_detach (pthread_t t)
  {
    if (!on) return __real_pthread_detach (t);
    for (auto & m : made) if (pthread_equal (m.id, t)) { if (m.detached) { on = false; pbt::fail ("a detached thread is detached again"); } m.detached = true; return 0; }
    return ESRCH;
  }
  int __wrap_pthread_setschedparam (pthread_t t, int policy, const struct sched_param * p)
  {
    if (!on) return __real_pthread_setschedparam (t, policy, p);
    if (p->sched_priority < sched_get_priority_min (policy) || p->sched_priority > sched_get_priority_max (policy)) return EINVAL;
    if (policy != SCHED_OTHER && (euid || !rt)) return EPERM;
    sched[t] = { policy, p->sched_priority }; return 0;
  }
  int __wrap_pthread_getschedparam (pthread_t t, int * policy, struct sched_param * p)
  {
    if (!on) return __real_pthread_getschedparam (t, policy, p);
    auto i = sched.find (t); if (i == sched.end ()) { on = false; pbt::fail ("scheduling of an unknown thread read"); }
    *policy = i->second.first; p->sched_priority = i->second.second; return 0;
  }
  int __wrap_pthread_setaffinity_np (pthread_t t, size_t n, const cpu_set_t * s)
  {
    if (!on) return __real_pthread_setaffinity_np (t, n, s);
    unsigned m1 = 0; for (int i = 0; i < 32; i++) if (CPU_ISSET (i, s)) m1 |= 1u << i;
    if (!(m1 & allowed)) return EINVAL;
    for (auto & m : made) if (pthread_equal (m.id, t)) { m.cpus = true; m.set = *s; return 0; }
    return ESRCH;
  }
  int __wrap_pthread_attr_setaffinity_np (pthread_attr_t * a, size_t n, const cpu_set_t * s) { return on && noaff ? ENOMEM : __real_pthread_attr_setaffinity_np (a, n, s); }
  uid_t __wrap_geteuid (void) { return on ? (uid_t) euid : __real_geteuid (); }
  uid_t __wrap_getuid (void) { return on ? (uid_t) euid : __real_getuid (); }
  long __wrap_sysconf (int n) { return on && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) ? ncpu : __real_sysconf (n); }
}

struct Job { sem_t done; std::atomic<int> runs; pthread_t self; void * got; int prio; };
static void * job (void * p) { Job * j = (Job *) p; j->self = pthread_self (); j->got = p; j->runs++; sem_post (&j->done); return p; }

static int gen_prio (Src & s) { switch (s.draw (5)) { case 0: return IOT_THREAD_NO_PRIORITY; case 1: return (int) s.range (1, 99); case 2: return (int) s.range (-2, 2); case 3: return (int) s.range (97, 102); default: return (int) s.u64 (); } }
static bool fifo_prio (int p) { return p >= sched_get_priority_min (SCHED_FIFO) && p <= sched_get_priority_max (SCHED_FIFO); }

TARGET (create, 8000, 100000, 0)
{
  pbt::setrule ("a thread was created with a priority or an affinity, or the platform refused a request, or a mutex was contended");
  struct Off { ~Off () { on = false; } } off;
  made.clear (); sched.clear (); calls = 0; refuse.clear ();
  euid = s.flag () ? 1000 : 0; rt = !s.chance (1, 3); ncpu = 1 + (int) s.draw (8); allowed = s.chance (1, 3) ? (unsigned) s.draw (1u << ncpu) : ~0u; noaff = s.chance (1, 10);
  note ("platform: euid %d, real-time %s, %d CPUs, allowed mask %x%s", euid, rt ? "permitted" : "refused", ncpu, allowed & ((1u << ncpu) - 1), noaff ? ", no affinity attributes" : "");
  sched[pthread_self ()] = { SCHED_OTHER, 0 };
  unsigned n = 1 + (unsigned) s.draw (4); std::list<Job> jobs; bool nt = false;
  iot_logger_t * log = s.flag () ? iot_logger_alloc_custom ("threads", IOT_LOG_TRACE, false, NULL, [] (iot_logger_t *, iot_loglevel_t, uint64_t, const char *, const void *) {}, NULL, NULL) : NULL;
  for (unsigned i = 0; i < n; i++)
  {
    Span sp (s);
    int prio = gen_prio (s), aff = s.flag () ? (int) s.range (-2, ncpu + 1) : IOT_THREAD_NO_AFFINITY; if (s.chance (1, 20)) aff = (int) s.u64 ();
    refuse.clear (); calls = 0; unsigned nr = s.chance (1, 4) ? 1 + (unsigned) s.draw (2) : 0; static const int errs[] = { EAGAIN, EPERM, EINVAL, ENOMEM };
    for (unsigned k = 0; k < nr; k++) refuse.push_back (errs[s.draw (4)]);
    bool want_id = s.flag (); pthread_t id, none; memset (&none, 0x77, sizeof none); id = none; size_t before = made.size ();
    note ("create: priority %d, affinity %d, %u refusals%s", prio, aff, nr, want_id ? ", id wanted" : "");
    jobs.emplace_back (); Job & j = jobs.back (); sem_init (&j.done, 0, 0); j.runs = 0; j.got = NULL; j.prio = prio;
    on = true; bool r = iot_thread_create (want_id ? &id : NULL, job, &j, prio, aff, log); on = false;
    CHECK (made.size () - before == (r ? 1 : 0), "%zu threads were created and %s returned", made.size () - before, r ? "true" : "false");
    if (nr < 2) CHECK (r, "no thread was created although the platform permits a plain thread");
    bool wp = fifo_prio (prio) && euid == 0, wa = aff >= 0 && aff < ncpu; if (nr || wp || wa) nt = true;
    pbt::label_if (!r, "refused"); pbt::label_if (wp && rt, "priority granted"); pbt::label_if (wp && !rt, "priority refused"); pbt::label_if (wa, "affinity");
    if (!r) { jobs.pop_back (); continue; }
    Made & m = made.back (); sem_wait (&j.done);
    CHECK (j.got == &j, "the function was not run with its argument"); CHECK (pthread_equal (j.self, m.id), "the function ran in another thread");
    if (want_id) CHECK (pthread_equal (id, m.id), "the identifier stored is not that of the thread");
    CHECK (m.detached, "the thread is not detached");
    bool granted = !nr && (!wp || rt) && (!wa || noaff || (allowed >> aff & 1));   // the platform refuses nothing that is asked for
    if (!wp) CHECK (m.policy == SCHED_OTHER, "real-time scheduling (priority %d) although priority %d and user %d", m.prio, prio, euid);
    else if (granted || m.policy != SCHED_OTHER) CHECK (m.policy == SCHED_FIFO && m.prio == prio, "thread has policy %d priority %d, requested %d", m.policy, m.prio, prio);
    if (!wa) CHECK (!m.cpus, "the thread is bound to CPUs although affinity %d of %d CPUs", aff, ncpu);
    else if ((granted && !noaff) || m.cpus) CHECK (m.cpus && CPU_COUNT (&m.set) == 1 && CPU_ISSET (aff, &m.set), "thread is not bound to CPU %d", aff);
    on = true; CHECK (iot_thread_get_priority (m.id) == m.prio, "get_priority is %d, the thread has %d", iot_thread_get_priority (m.id), m.prio);
    unsigned sets = (unsigned) s.draw (3);
    while (sets--)
    {
      int p = gen_prio (s); bool self = s.flag (); pthread_t t = self ? pthread_self () : m.id; auto old = sched[t];
      bool ok = self ? iot_thread_current_set_priority (p) : iot_thread_set_priority (t, p), want = fifo_prio (p) && euid == 0 && rt;
      note ("set priority %d of %s: %d", p, self ? "self" : "it", ok);
      CHECK (ok == want, "set_priority (%d) returned %d", p, ok);
      auto now = sched[t]; if (ok) CHECK (now.first == SCHED_FIFO && now.second == p, "priority is %d after setting %d", now.second, p); else CHECK (now == old, "a refused setting changed the priority");
      CHECK (iot_thread_get_priority (t) == now.second && (!self || iot_thread_current_get_priority () == now.second), "get_priority");
      for (auto & q : sched) if (!pthread_equal (q.first, t) && !pthread_equal (q.first, pthread_self ()) && !pthread_equal (q.first, m.id)) (void) q;
    }
    on = false;
    int p = gen_prio (s); CHECK (iot_thread_priority_valid (p) == fifo_prio (p), "priority_valid (%d) is %d", p, iot_thread_priority_valid (p));
  }
  usleep (s.chance (1, 20) ? 100 : 0);
  for (auto & j : jobs) { CHECK (j.runs == 1, "the function ran %d times", (int) j.runs); sem_destroy (&j.done); }
  if (log) iot_logger_free (log);
  if (nt) pbt::nontrivial ();
}

// two real threads (this one and a helper) take turns on mutexes initialised by the library
struct Helper { sem_t cmd, ans; int op; pthread_mutex_t * m; int result; bool quit; pthread_t t; };
static int act (int op, pthread_mutex_t * m) { return op == 0 ? pthread_mutex_trylock (m) : op == 1 ? pthread_mutex_lock (m) : pthread_mutex_unlock (m); }
static void * helper (void * p) { Helper * h = (Helper *) p; for (;;) { sem_wait (&h->cmd); if (h->quit) break; h->result = act (h->op, h->m); sem_post (&h->ans); } return NULL; }
TARGET (mutex, 1500, 20000, 0)
{
  unsigned n = 1 + (unsigned) s.draw (3); std::vector<pthread_mutex_t> m (n); std::vector<int> owner (n, -1);
  for (auto & x : m) { memset (&x, s.flag () ? 0xff : 0, sizeof x); iot_mutex_init (&x); }
  Helper h; h.quit = false; sem_init (&h.cmd, 0, 0); sem_init (&h.ans, 0, 0); if (pthread_create (&h.t, NULL, helper, &h)) return;
  unsigned ops = 3 + (unsigned) s.len (40, 12); bool contended = false;
  for (unsigned k = 0; k < ops; k++)
  {
    Span sp (s); int who = (int) s.draw (2); unsigned i = (unsigned) s.draw (n); int op = (int) s.draw (3);
    if (op == 1 && owner[i] != -1) op = 0;            // would block
    if (op == 2 && owner[i] != who) continue;
    note ("%s %s %u", who ? "helper" : "main", op == 0 ? "trylock" : op == 1 ? "lock" : "unlock", i);
    int r; if (who) { h.op = op; h.m = &m[i]; sem_post (&h.cmd); sem_wait (&h.ans); r = h.result; } else r = act (op, &m[i]);
    if (op == 0) { bool free = owner[i] == -1; if (!free && owner[i] != who) contended = true; CHECK (free ? r == 0 : owner[i] == who ? r != 0 : r == EBUSY, "trylock of a %s mutex returned %d", free ? "free" : "held", r); if (free) owner[i] = who; }
    else { CHECK (r == 0, "operation returned %d", r); owner[i] = op == 1 ? who : -1; }
  }
  for (unsigned i = 0; i < n; i++) { if (owner[i] == 1) { h.op = 2; h.m = &m[i]; sem_post (&h.cmd); sem_wait (&h.ans); } else if (owner[i] == 0) pthread_mutex_unlock (&m[i]); CHECK (pthread_mutex_destroy (&m[i]) == 0, "destroy"); }
  h.quit = true; sem_post (&h.cmd); pthread_join (h.t, NULL); sem_destroy (&h.cmd); sem_destroy (&h.ans);
  if (contended) pbt::nontrivial ();
}
