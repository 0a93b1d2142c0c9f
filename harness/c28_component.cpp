// C28: component states under generated schedules.
#include "vsched.h"
#include "iot/component.h"
#include <algorithm>
#include <set>
#include <string.h>
using pbt::Src; using pbt::Span; using pbt::note;

static uint64_t g_ev; static uint64_t ev () { return ++g_ev; }
static const uint64_t NEVER = UINT64_MAX;
enum { INI = 0, STO = 1, RUN = 2, DEL = 4, STA = 8 };

struct Op { char k; uint32_t arg; uint32_t res; uint64_t s, e; int th; };    // s: set state arg -> changed  w: wait mask -> state  l: look -> state
struct World { iot_component_t c; std::vector<Op> ops; unsigned holders = 0; unsigned waiting = 0; };

static void start_fn (iot_component_t *) {}
static void stop_fn (iot_component_t *) {}

static size_t begin (World & w, char k, uint32_t arg) { vs::Atomic a; w.ops.push_back ({ k, arg, 0, ev (), NEVER, vs::self () }); return w.ops.size () - 1; }
static void done (World & w, size_t i, uint32_t r) { vs::Atomic a; w.ops[i].res = r; w.ops[i].e = ev (); note ("t%d %s %u -> %u", vs::self (), w.ops[i].k == 's' ? "set" : w.ops[i].k == 'w' ? "wait" : "look", w.ops[i].arg, r); }

static bool set_state (World & w, uint32_t st)
{
  size_t i = begin (w, 's', st); bool r = false;
  switch (st) { case STO: r = iot_component_set_stopped (&w.c); break; case RUN: r = iot_component_set_running (&w.c); break; case DEL: r = iot_component_set_deleted (&w.c); break; default: r = iot_component_set_starting (&w.c); break; }
  done (w, i, r); return r;
}
static void hold (World & w, uint32_t st)    // the component is locked: nobody else holds it and its state stays
{
  { vs::Atomic a; CHECK (w.holders == 0, "two threads hold the component"); w.holders++; CHECK ((uint32_t) w.c.state == st, "state %u reported but it is %u", st, (unsigned) w.c.state); }
  for (int k = 0; k < 3; k++) vs::yield ();
  { vs::Atomic a; w.holders--; CHECK ((uint32_t) w.c.state == st, "state changed from %u to %u while the component was locked", st, (unsigned) w.c.state); }
  uint32_t u = (uint32_t) iot_component_unlock (&w.c);
  CHECK (u == st, "unlock reports state %u, it was %u", u, st);
}
static void wait_state (World & w, uint32_t mask, bool lock)
{
  size_t i = begin (w, 'w', mask); { vs::Atomic a; w.waiting++; }
  uint32_t r = (uint32_t) (lock ? iot_component_wait_and_lock (&w.c, mask) : iot_component_wait (&w.c, mask));
  done (w, i, r); { vs::Atomic a; w.waiting--; }
  CHECK (r & mask, "a wait for states %u returned %u", mask, r);
  if (lock) hold (w, r);
}
static void look (World & w, bool h)
{
  size_t i = begin (w, 'l', 0); uint32_t r = (uint32_t) iot_component_lock (&w.c); done (w, i, r);
  if (h) hold (w, r); else { uint32_t u = (uint32_t) iot_component_unlock (&w.c); CHECK (u == r, "unlock reports %u, lock %u", u, r); }
}

// is there an order of the operations, each at a moment between its beginning and end, that one component could have shown?
struct Lin
{
  const std::vector<Op> & o; std::set<std::pair<uint64_t, uint32_t>> seen; size_t budget = 400000;
  bool go (uint64_t doneset, uint32_t st)
  {
    size_t n = o.size (); bool all = true; for (size_t i = 0; i < n; i++) if (!(doneset >> i & 1) && o[i].e != NEVER) all = false;
    if (all) return true;
    if (!seen.insert ({ doneset, st }).second) return false;
    if (!budget--) return true;
    uint64_t lim = NEVER; for (size_t i = 0; i < n; i++) if (!(doneset >> i & 1)) lim = std::min (lim, o[i].e);
    for (size_t i = 0; i < n; i++)
    {
      const Op & x = o[i]; if ((doneset >> i & 1) || x.s > lim || x.e == NEVER) continue;
      uint32_t ns = st; bool ok;
      if (x.k == 's')
      {
        bool valid = x.arg == DEL ? st != RUN : st != DEL; ns = valid ? x.arg : st; ok = x.res == (uint32_t) (ns != st);
      }
      else if (x.k == 'w') ok = (st & x.arg) && x.res == st; else ok = x.res == st;
      if (ok && go (doneset | 1ull << i, ns)) return true;
    }
    return false;
  }
};
static void judge (World & w, uint32_t initial)
{
  CHECK (w.ops.size () <= 60, "harness: too many operations");
  Lin l { w.ops, {}, 400000 };
  if (!l.go (0, initial))
  {
    std::string t; for (auto & x : w.ops) { char b[80]; snprintf (b, sizeof b, " [%llu,%llu] t%d %c%u->%u", (unsigned long long) x.s, (unsigned long long) x.e, x.th, x.k, x.arg, x.res); t += b; }
    pbt::fail ("no order of the state changes explains what was reported:%s", t.c_str ());
  }
}

TARGET (states, 250000, 12000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads changed or awaited states and a wait had to block or a change was refused");
  static const uint32_t ST[] = { RUN, STO, STA, DEL };
  g_ev = 0; World w; memset ((void *) &w.c, 0, sizeof w.c); w.ops.reserve (64);
  unsigned nt = 1 + (unsigned) s.draw (4), nw = (unsigned) s.draw (4); bool dels = s.draw (3) == 2;
  struct P { int k; uint32_t a; uint64_t d; }; std::vector<std::vector<P>> prog (nt); std::vector<P> wp;
  for (auto & v : prog) { size_t n = 1 + s.draw (4); for (size_t i = 0; i < n; i++) { Span sp (s); P p; p.k = (int) s.weighted ({ 5, 1, 1 }); p.a = ST[s.draw (dels ? 4 : 3)]; p.d = s.draw (4) == 3 ? s.draw (2000) : 0; v.push_back (p); } }
  for (unsigned i = 0; i < nw; i++) { Span sp (s); P p; p.k = (int) s.draw (2); p.a = 1 + (uint32_t) s.draw (15); if (dels) p.a |= DEL; p.d = s.draw (3) * 500; wp.push_back (p); }
  uint32_t init = s.draw (2) ? ST[s.draw (3)] : (uint32_t) INI;
  vs::run (s, 0, [&] ()
  {
    static iot_component_factory_t fac = {}; iot_component_init (&w.c, &fac, start_fn, stop_fn); CHECK (w.c.factory == &fac && w.c.start_fn == start_fn && w.c.stop_fn == stop_fn, "the component does not know its factory");
    if (init) { bool r = set_state (w, init); CHECK (r, "first change of state reported as none"); w.ops.clear (); }
    CHECK ((uint32_t) w.c.state == init, "state is %u, not %u", (unsigned) w.c.state, init);
    std::vector<int> t, wt; bool blocked = false;
    for (unsigned i = 0; i < nw; i++) wt.push_back (vs::spawn ([&, i] () { if (wp[i].d) vs::sleep_ns (wp[i].d); wait_state (w, wp[i].a, wp[i].k); }, "waiter"));
    for (unsigned i = 0; i < nt; i++) t.push_back (vs::spawn ([&, i] () { for (auto & p : prog[i]) { if (p.d) vs::sleep_ns (p.d); if (p.k == 0) set_state (w, p.a); else look (w, p.k == 2); } }, "client"));
    for (int x : t) vs::join (x);
    if (w.waiting) { blocked = true; pbt::label ("blocked waiter"); }
    // every state in turn until all the waiters that can go have gone
    CHECK (vs::wait_until ([&] () { unsigned n = 0; for (auto & o : w.ops) n += o.k == 'w'; return n == nw; }, NEVER), "harness: waiters");
    auto settle = [&] ()
    {
      uint32_t cur = (uint32_t) iot_component_lock (&w.c); iot_component_unlock (&w.c);
      auto stuck = [&] () { for (auto & o : w.ops) if (o.k == 'w' && o.e == NEVER && (o.arg & cur)) return true; return false; };
      CHECK (vs::wait_until ([&] () { return !stuck (); }, 3600ull * 1000000000ull), "a waiter for state %u does not return", cur);
    };
    settle ();
    for (uint32_t st : { (uint32_t) RUN, (uint32_t) STA, (uint32_t) STO, (uint32_t) DEL }) { set_state (w, st); settle (); }
    for (int x : wt) vs::join (x);
    judge (w, init);
    bool refused = false; for (auto & o : w.ops) if (o.k == 's' && !o.res) refused = true;
    if (nt + nw >= 2 && (blocked || refused) && vs::switches () > 6) pbt::nontrivial ();
    iot_component_fini (&w.c);
  });
}

// references: whatever the interleaving, exactly the thread that drops the last one is told so
TARGET (refs, 100000, 4000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads took and dropped references and several context switches happened");
  iot_component_t c; memset ((void *) &c, 0, sizeof c); unsigned nt = 2 + (unsigned) s.draw (4); int held = 1, frees = 0; bool freed = false;
  std::vector<std::vector<int>> prog (nt); for (auto & v : prog) { size_t n = s.draw (6); for (size_t i = 0; i < n; i++) v.push_back ((int) s.draw (2)); }
  vs::run (s, 0, [&] ()
  {
    static iot_component_factory_t fac = {}; iot_component_init (&c, &fac, start_fn, stop_fn); CHECK (c.factory == &fac, "the component does not know its factory"); std::vector<int> t;
    auto add = [&] () { { vs::Atomic a; CHECK (!freed, "harness: use after free"); held++; } iot_component_add_ref (&c); };
    auto drop = [&] () { { vs::Atomic a; held--; } bool last = iot_component_dec_ref (&c); vs::Atomic a; note ("t%d drops -> %d", vs::self (), last); if (last) { frees++; freed = true; CHECK (held == 0, "told to free the component with %d references left", held); CHECK (frees == 1, "told to free the component %d times", frees); } };
    for (unsigned i = 0; i < nt; i++) { add (); t.push_back (vs::spawn ([&, i] () { int own = 1; for (int k : prog[i]) { if (k || own < 2) { add (); own++; } else { drop (); own--; } } while (own--) drop (); }, "client")); }
    drop ();
    for (int x : t) vs::join (x);
    CHECK (frees == 1, "the last reference was dropped but the component is not freed"); iot_component_fini (&c);
    if (vs::switches () > 6) pbt::nontrivial ();
  });
}
