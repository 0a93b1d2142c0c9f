// C20: the blocking queue under generated schedules.
#include "vsched.h"
#include "iot/queue.h"
#include <deque>
#include <set>
#include <algorithm>
#include <string.h>
using pbt::Src; using pbt::Span; using pbt::note;

static uint64_t g_ev;           // event counter: orders the beginnings and ends of operations
static uint64_t ev () { return ++g_ev; }

struct Op { char kind; uint64_t val, s, e; bool ok; uint32_t n; int th; };    // e, E: enqueue/try  d, D: dequeue/try  z: size  m: setmax  x: stop
struct World
{
  iot_queue_t * q; std::vector<Op> ops; uint32_t lim; uint64_t stop_s = 0, stop_e = 0; std::vector<iot_data_t *> made;
  uint64_t limit_all = 0; bool unlimited = false; uint64_t minlim = UINT64_MAX;
};

static iot_data_t * elem (uint64_t v) { vs::Atomic a; return iot_data_alloc_ui64 (v); }

static void do_enq (World & w, uint64_t v, bool tr)
{
  iot_data_t * d = elem (v); Op o { tr ? 'E' : 'e', v, 0, 0, true, 0, vs::self () };
  { vs::Atomic a; iot_data_add_ref (d); w.made.push_back (d); }
  size_t k; { vs::Atomic a; k = w.ops.size (); o.s = ev (); o.e = UINT64_MAX; w.ops.push_back (o); }
  bool ok = true;
  if (tr) { ok = iot_queue_try_enqueue (w.q, d); if (!ok) { vs::Atomic a; iot_data_free (d); } } else iot_queue_enqueue (w.q, d);
  vs::Atomic a; w.ops[k].ok = ok; w.ops[k].e = ev (); note ("t%d %s(%llx) -> %d", vs::self (), tr ? "try_enqueue" : "enqueue", (unsigned long long) v, ok);
}
static bool do_deq (World & w, bool tr)
{
  Op o { tr ? 'D' : 'd', 0, 0, 0, false, 0, vs::self () }; size_t k; { vs::Atomic a; k = w.ops.size (); o.s = ev (); o.e = UINT64_MAX; w.ops.push_back (o); }
  iot_data_t * d = tr ? iot_queue_try_dequeue (w.q) : iot_queue_dequeue (w.q);
  vs::Atomic a; w.ops[k].ok = d != nullptr; if (d) { w.ops[k].val = iot_data_ui64 (d); iot_data_free (d); } w.ops[k].e = ev ();
  note ("t%d %s -> %llx", vs::self (), tr ? "try_dequeue" : "dequeue", d ? (unsigned long long) w.ops[k].val : 0ull);
  return d != nullptr;
}
static void do_size (World & w)
{
  Op o { 'z', 0, 0, 0, true, 0, vs::self () }; { vs::Atomic a; o.s = ev (); }
  o.n = iot_queue_size (w.q); vs::Atomic a; o.e = ev (); w.ops.push_back (o);
}
static void do_setmax (World & w, uint32_t m)
{
  Op o { 'm', m, 0, 0, true, m, vs::self () }; { vs::Atomic a; o.s = ev (); w.ops.push_back (o); if (!m) w.unlimited = true; w.limit_all = std::max<uint64_t> (w.limit_all, m); if (m) w.minlim = std::min<uint64_t> (w.minlim, m); }
  note ("t%d setmaxsize(%u)", vs::self (), m);
  iot_queue_setmaxsize (w.q, m);
}
static void do_stop (World & w) { { vs::Atomic a; w.stop_s = ev (); note ("t%d stop", vs::self ()); } iot_queue_stop (w.q); vs::Atomic a; w.stop_e = ev (); }

// the history is explained by a bounded FIFO
static void judge (World & w)
{
  std::vector<Op> enq, deq;
  for (auto & o : w.ops) { if (o.kind == 'e' || (o.kind == 'E' && o.ok)) enq.push_back (o); if ((o.kind == 'd' || o.kind == 'D') && o.ok) deq.push_back (o); }
  // drain what is left, in order
  std::vector<uint64_t> left;
  { while (iot_data_t * d = iot_queue_try_dequeue (w.q)) { left.push_back (iot_data_ui64 (d)); iot_data_free (d); CHECK (left.size () < 1000, "queue never empties"); } }
  auto find = [] (std::vector<Op> & v, uint64_t x) -> Op * { for (auto & o : v) if (o.val == x) return &o; return nullptr; };
  for (size_t i = 0; i < deq.size (); i++)
  {
    Op * e = find (enq, deq[i].val); CHECK (e, "element %llx delivered but never accepted", (unsigned long long) deq[i].val);
    CHECK (e->s < deq[i].e, "element %llx delivered before it was added", (unsigned long long) deq[i].val);
    for (size_t k = 0; k < i; k++) CHECK (deq[k].val != deq[i].val, "element %llx delivered twice", (unsigned long long) deq[i].val);
  }
  for (uint64_t x : left) { CHECK (find (enq, x), "element %llx left but never accepted", (unsigned long long) x); CHECK (!find (deq, x), "element %llx delivered and left", (unsigned long long) x); CHECK (std::count (left.begin (), left.end (), x) == 1, "element %llx left twice", (unsigned long long) x); }
  std::vector<Op> in;   // elements that did enter, with their removal (position in left after every delivery)
  for (auto & e : enq)
  {
    bool there = find (deq, e.val) || std::count (left.begin (), left.end (), e.val);
    if (!there) CHECK (e.kind == 'e' && w.stop_s && w.stop_s < e.e && w.minlim != UINT64_MAX, "element %llx was accepted but is lost", (unsigned long long) e.val);
    else in.push_back (e);
  }
  struct R { uint64_t s, e; };
  auto removal = [&] (uint64_t x) -> R { if (Op * d = find (deq, x)) return { d->s, d->e }; size_t p = std::find (left.begin (), left.end (), x) - left.begin (); return { UINT64_MAX / 2 + 2 * p, UINT64_MAX / 2 + 2 * p + 1 }; };
  for (auto & a : in) for (auto & b : in) if (a.e < b.s || (a.th == b.th && a.s < b.s && a.e != UINT64_MAX))
  {
    R ra = removal (a.val), rb = removal (b.val);
    CHECK (!(rb.e < ra.s), "element %llx was added after %llx but delivered before it", (unsigned long long) b.val, (unsigned long long) a.val);
  }
  // one consumer sees one producer's elements in order
  for (size_t i = 0; i < deq.size (); i++) for (size_t k = i + 1; k < deq.size (); k++)
    if (deq[i].th == deq[k].th && (deq[i].val >> 16) == (deq[k].val >> 16)) CHECK ((deq[i].s < deq[k].s) == (deq[i].val < deq[k].val), "one producer's elements %llx and %llx delivered out of order", (unsigned long long) deq[i].val, (unsigned long long) deq[k].val);
  // bound
  auto most = [&] (uint64_t s, uint64_t e) { int64_t n = 0; for (auto & o : in) if (o.s < e) n++; for (auto & o : deq) if (o.e < s) n--; return n; };   // most elements the queue can hold during [s,e]
  auto least = [&] (uint64_t t) { int64_t n = 0; for (auto & o : in) if (o.e < t) n++; for (auto & o : deq) if (o.s < t) n--; return n; };              // elements it holds at least at t
  for (auto & o : w.ops)
  {
    if (!w.unlimited && o.e != UINT64_MAX) CHECK (least (o.e + 1) <= (int64_t) w.limit_all, "at least %lld elements held with limit %llu", (long long) least (o.e + 1), (unsigned long long) w.limit_all);
    if (o.kind == 'z') { CHECK ((int64_t) o.n <= most (o.s, o.e), "size %u reported", o.n); if (!w.unlimited) CHECK (o.n <= w.limit_all, "size %u with limit %llu", o.n, (unsigned long long) w.limit_all); }
    if (o.kind == 'E' && !o.ok) { CHECK (w.minlim != UINT64_MAX && most (o.s, o.e) >= (int64_t) w.minlim, "try_enqueue refused although not full"); pbt::label ("refused"); }
    if (o.kind == 'D' && !o.ok) { int64_t held = 0; for (auto & x : in) if (x.e < o.s) held++; for (auto & x : deq) if (x.s < o.e) held--; CHECK (held <= 0, "try_dequeue found nothing although an element was there"); pbt::label ("nothing"); }
    if (o.kind == 'd' && !o.ok) { CHECK (w.stop_s && w.stop_s < o.e, "dequeue returned nothing although the queue was not stopped"); int64_t held = 0; for (auto & x : in) if (x.e < o.s) held++; for (auto & x : deq) if (x.s < o.e) held--; CHECK (held <= 0, "dequeue returned nothing although an element was there"); }
  }
  for (auto d : w.made) { uint32_t r = iot_data_ref_count (d); bool lost = r == 2; if (lost) iot_data_free (d); CHECK (r == 1 || r == 2, "element has %u references", r); iot_data_free (d); }
}

static void free_all (World & w) { iot_queue_free (w.q); }

// producers and consumers run to the end; consumers leave when the queue is stopped
static void scenario (Src & s, int mode)
{
  pbt::setrule ("at least two threads used the queue, several context switches happened and an element passed through");
  g_ev = 0; World w; w.lim = (uint32_t) (s.draw (4) == 3 ? 0 : 1 + s.draw (3)); w.unlimited = w.lim == 0; w.limit_all = w.lim; if (w.lim) w.minlim = w.lim;
  unsigned np = 1 + (unsigned) s.draw (3), nc = 1 + (unsigned) s.draw (3); std::vector<std::vector<int>> pp (np), cp (nc);
  for (auto & p : pp) for (size_t n = 1 + s.draw (5); n--; ) p.push_back ((int) s.weighted ({ 5, 2, 1 }));
  for (auto & c : cp) for (size_t n = 1 + s.draw (6); n--; ) c.push_back ((int) s.weighted ({ 5, 2, 1 }));
  bool resizes = s.draw (4) == 3; std::vector<uint32_t> rs; if (resizes) for (size_t n = 1 + s.draw (3); n--; ) rs.push_back ((uint32_t) s.draw (4));
  uint64_t early = mode == 1 ? s.draw (3000) : 0; size_t waits = s.draw (3);
  w.ops.reserve (200); w.made.reserve (100);
  note ("limit %u, %u producers, %u consumers, mode %d", w.lim, np, nc, mode);
  vs::run (s, 0, [&] ()
  {
    w.q = iot_queue_alloc (w.lim); CHECK (iot_queue_maxsize (w.q) == w.lim && iot_queue_size (w.q) == 0, "fresh queue");
    std::vector<int> prod, cons;
    for (unsigned i = 0; i < np; i++) prod.push_back (vs::spawn ([&, i] () { uint64_t k = 0; for (int o : pp[i]) { if (o == 2) { do_size (w); vs::sleep_ns (50); } do_enq (w, ((uint64_t) (i + 1) << 16) | ++k, o == 1); } }, "producer"));
    for (unsigned i = 0; i < nc; i++) cons.push_back (vs::spawn ([&, i] ()
    {
      if (mode == 2) { for (int o : cp[i]) { if (o == 2) { do_size (w); vs::sleep_ns (50); } do_deq (w, o != 0); } while (do_deq (w, false)) {} return; }
      size_t k = 0; for (;;) { int o = k < cp[i].size () ? cp[i][k++] : 0; if (o == 2) do_size (w); if (!do_deq (w, o == 1) && o != 1) break; }
    }, "consumer"));
    int rz = -1; if (resizes) rz = vs::spawn ([&] () { for (uint32_t m : rs) { do_setmax (w, m); vs::sleep_ns (30); } do_setmax (w, std::max<uint32_t> (w.lim, 1)); }, "resizer");
    if (mode == 1) { if (early > 1000) vs::sleep_ns (early); do_stop (w); for (int p : prod) vs::join (p); for (int c : cons) vs::join (c); }
    else { for (int p : prod) vs::join (p); if (rz >= 0) { vs::join (rz); rz = -1; } if (waits == 1) vs::wait_until ([&] () { return true; }, 0); do_stop (w); for (int c : cons) vs::join (c); CHECK (iot_queue_size (w.q) == 0, "elements left behind consumers that drained the queue"); }
    if (rz >= 0) vs::join (rz);
    judge (w);
    if (vs::switches () > 6) for (auto & o : w.ops) if (o.kind == 'd' && o.ok) { pbt::nontrivial (); break; }
    free_all (w);
  });
}

TARGET (drain, 240000, 12000000, pbt::LEAK) { scenario (s, 0); }
TARGET (early_stop, 160000, 8000000, pbt::LEAK) { scenario (s, 1); }
TARGET (mixed, 120000, 6400000, pbt::LEAK) { scenario (s, 2); }

// producers blocked by the limit go on when it is raised or removed, without any consumer
TARGET (resize, 60000, 3000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads used the queue, several context switches happened and an element passed through");
  g_ev = 0; World w; w.lim = 1 + (uint32_t) s.draw (3); w.limit_all = w.minlim = w.lim; unsigned np = 1 + (unsigned) s.draw (4), total = 0; std::vector<unsigned> pn (np);
  for (auto & n : pn) { n = 1 + (unsigned) s.draw (3); total += n; }
  std::vector<uint32_t> rs; for (size_t n = s.draw (3); n--; ) rs.push_back (1 + (uint32_t) s.draw (4)); rs.push_back (s.flag () ? 0 : total + (uint32_t) s.draw (2)); uint64_t gap = s.draw (3) * 400; unsigned takes = (unsigned) s.draw (3); bool seen = false;
  w.ops.reserve (200); w.made.reserve (100); note ("limit %u, %u producers, %u elements, %u dequeues", w.lim, np, total, takes);
  vs::run (s, 0, [&] ()
  {
    w.q = iot_queue_alloc (w.lim); std::vector<int> prod;
    for (unsigned i = 0; i < np; i++) prod.push_back (vs::spawn ([&, i] () { for (unsigned k = 0; k < pn[i]; k++) do_enq (w, ((uint64_t) (i + 1) << 16) | (k + 1), false); }, "producer"));
    int cons = takes ? vs::spawn ([&] () { for (unsigned k = 0; k < takes; k++) do_deq (w, true); }, "consumer") : -1;
    for (uint32_t m : rs) { if (gap) vs::sleep_ns (gap); if (iot_queue_size (w.q) >= iot_queue_maxsize (w.q)) seen = true; do_setmax (w, m); }
    for (int p : prod) vs::join (p);                  // deadlock if a producer stays blocked
    if (cons >= 0) vs::join (cons);
    judge (w); if (vs::switches () > 4 && seen) pbt::nontrivial (); free_all (w);
  });
}

// exact results of a single thread against a deque
TARGET (single, 120000, 6400000, pbt::LEAK)
{
  vs::run (s, 0, [&] ()
  {
    uint32_t lim = (uint32_t) s.draw (5); iot_queue_t * q = iot_queue_alloc (lim); std::deque<uint64_t> m; uint64_t v = 0; bool run = true;
    size_t n = s.len (60, 15);
    for (size_t i = 0; i < n; i++)
    {
      Span sp (s);
      switch (s.weighted ({ 4, 4, 3, 3, 1, 1, 1 }))
      {
        case 0: { iot_data_t * d = iot_data_alloc_ui64 (++v); bool full = lim && m.size () >= lim; bool r = iot_queue_try_enqueue (q, d); note ("try_enqueue -> %d (%zu of %u)", r, m.size (), lim); CHECK (r == !full, "try_enqueue"); if (r) m.push_back (v); else iot_data_free (d); break; }
        case 1: { iot_data_t * d = iot_queue_try_dequeue (q); note ("try_dequeue"); CHECK ((d != nullptr) == !m.empty (), "try_dequeue"); if (d) { CHECK (iot_data_ui64 (d) == m.front (), "order"); m.pop_front (); iot_data_free (d); } break; }
        case 2: if (!lim || m.size () < lim) { iot_queue_enqueue (q, iot_data_alloc_ui64 (++v)); m.push_back (v); note ("enqueue"); } break;
        case 3: if (!m.empty () || !run) { iot_data_t * d = iot_queue_dequeue (q); note ("dequeue"); CHECK ((d != nullptr) == !m.empty (), "dequeue"); if (d) { CHECK (iot_data_ui64 (d) == m.front (), "order"); m.pop_front (); iot_data_free (d); } } break;
        case 4: lim = (uint32_t) s.draw (6); note ("setmaxsize %u", lim); iot_queue_setmaxsize (q, lim); CHECK (iot_queue_maxsize (q) == lim, "maxsize"); break;
        case 5: if (s.draw (4) == 3) { run = false; iot_queue_stop (q); note ("stop"); } break;
        default: if (!run && lim && m.size () >= lim) { iot_data_t * d = iot_data_alloc_ui64 (++v); iot_data_add_ref (d); iot_queue_enqueue (q, d); if (iot_data_ref_count (d) == 2 && iot_queue_size (q) == m.size ()) iot_data_free (d); iot_data_free (d); note ("enqueue on a stopped full queue"); } break;
      }
      CHECK (iot_queue_size (q) == m.size (), "size %u expected %zu", iot_queue_size (q), m.size ());
      if (m.size () >= 3) pbt::nontrivial ();
    }
    iot_queue_free (q);
  });
}

// long queues: counters and limits beyond small numbers
TARGET (large, 60, 1500, pbt::LEAK)
{
  pbt::setrule ("more than 255 elements");
  static const uint32_t P[] = { 250, 510, 1020, 4092, 65530 }; uint32_t lim = P[s.draw (5)] + (uint32_t) s.draw (10), n = lim, pop = (uint32_t) s.draw (lim + 1); bool limited = s.flag (); note ("%u elements%s, %u taken", n, limited ? ", limited" : "", pop); pbt::nontrivial ();
  vs::run (s, vs::NO_SPURIOUS, [&] ()
  {
    iot_queue_t * q = iot_queue_alloc (limited ? lim : 0); std::deque<uint64_t> m; uint64_t v = 0;
    auto put = [&] (uint32_t k) { for (uint32_t i = 0; i < k; i++) { bool full = limited && m.size () >= lim; iot_data_t * d = iot_data_alloc_ui64 (v); bool r = iot_queue_try_enqueue (q, d); CHECK (r == !full, "try_enqueue reports %d with %zu elements of %u", r, m.size (), lim); if (r) m.push_back (v); else iot_data_free (d); v++; CHECK (iot_queue_size (q) == m.size (), "size is %u, expected %zu", iot_queue_size (q), m.size ()); } };
    auto get = [&] (uint32_t k) { for (uint32_t i = 0; i < k; i++) { iot_data_t * d = iot_queue_try_dequeue (q); CHECK ((d != NULL) == !m.empty (), "try_dequeue with %zu elements", m.size ()); if (d) { CHECK (iot_data_ui64 (d) == m.front (), "order"); m.pop_front (); iot_data_free (d); } } };
    CHECK (iot_queue_maxsize (q) == (limited ? lim : 0), "maxsize is %u, expected %u", iot_queue_maxsize (q), limited ? lim : 0); put (n + 3); get (pop); put (n); get (n + 3 + n); CHECK (iot_queue_size (q) == 0, "not empty"); put (2);
    static const uint32_t B[] = { 256, 65536, 1u << 31, UINT32_MAX - 9, 3 }; for (int i = 0; i < 3; i++) { uint32_t b = B[s.draw (5)] + (uint32_t) s.draw (5); note ("maxsize %u", b); iot_queue_setmaxsize (q, b); CHECK (iot_queue_maxsize (q) == b, "maxsize is %u, expected %u", iot_queue_maxsize (q), b); if (m.size () < b) { iot_data_t * d = iot_data_alloc_ui64 (v); CHECK (iot_queue_try_enqueue (q, d), "refused below the limit"); m.push_back (v++); } }
    get ((uint32_t) m.size () + 1); iot_queue_free (q);
  });
}
