// Deterministic scheduler: the threads of a case are fibers of one OS thread; every scheduling decision, spurious
// wake-up and clock step is drawn from the case's choice stream. The clock is virtual and moves when no thread can run.
#pragma once
#include "pbt.h"
#include <functional>

namespace vs {

struct Policy        // drawn by begin ()
{
  unsigned sync_den;     // preempt at a synchronisation point with chance 1/sync_den (0: never)
  unsigned mem_mean;     // mean number of memory accesses between preemptions (0: never)
  bool pct;              // priority based choice with random change points instead of uniform choice
  bool spurious;         // conditions may wake without signal
  bool late;             // the clock may run ahead of runnable threads
};
enum { NO_LATE = 1, NO_SPURIOUS = 2 };
void run (pbt::Src & s, unsigned flags, const std::function<void ()> & body);   // body runs as thread 0; returns when every thread has ended
const Policy & policy ();
int spawn (const std::function<void ()> & fn, const char * name = "t");         // a thread of the harness; returns its id
void join (int id);
int self ();
uint64_t now ();                                   // virtual time in ns; reading does not move it
uint64_t since_start ();                           // since the case began
uint64_t start_time ();
void fail_creates (unsigned n, unsigned skip = 0); // after skip more thread creations of the library, the next n fail
unsigned creates_to_fail ();
void sleep_ns (uint64_t ns);
void set_clock (uint64_t ns);                      // step the system clock (may go backwards); sleepers are not affected
bool wait_until (const std::function<bool ()> & pred, uint64_t timeout_ns);     // blocks this thread until pred holds or the time is over
void yield ();                                     // preemption point
void off ();                                       // suspend preemption in this thread (harness code that must be atomic)
void on ();
unsigned live_threads ();
uint64_t switches ();                              // context switches made in this case
bool blocked (int id);                             // thread waits for something
const char * name (int id);
int sched_priority (int id);                       // last priority set by setschedparam, 0 otherwise
struct Atomic { Atomic () { off (); } ~Atomic () { on (); } };

}
