// C29: time stamps under every clock and schedule; identifiers and their text.
#include "vsched.h"
#include "iot/time.h"
#include "iot/uuid.h"
#include "iot/util.h"
#include <algorithm>
#include <set>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
using pbt::Src; using pbt::Span; using pbt::note;

static uint64_t g_ev; static uint64_t ev () { return ++g_ev; }
static const uint64_t S = 1000000000ull;
struct Stamp { uint64_t v, s, e; int th; };

// one thread: the exact rule; several threads: the order and the bounds
TARGET (stamps, 200000, 10000000, pbt::LEAK)
{
  pbt::setrule ("time stamps were taken while the clock stood still or went back, or by several threads at once");
  g_ev = 0; unsigned nt = 1 + (unsigned) s.draw (4); std::vector<Stamp> all; all.reserve (256);
  struct P { int k; uint64_t a; }; std::vector<std::vector<P>> prog (nt);
  for (auto & v : prog) { size_t n = 1 + s.draw (8); for (size_t i = 0; i < n; i++) { Span sp (s); P p; p.k = (int) s.weighted ({ 8, 2, 2, 1 }); static const uint64_t J[] = { 0, 1, 20, 1000, S, 3600 * S, 86400 * 365 * S }; p.a = J[s.draw (7)]; v.push_back (p); } }
  bool back = false;
  vs::run (s, 0, [&] ()
  {
    uint64_t base = iot_time_nsecs (), top = std::max (base, vs::now ()), calls = 0;      // top: the latest time the clock has shown
    std::vector<int> t;
    for (unsigned i = 0; i < nt; i++) t.push_back (vs::spawn ([&, i] ()
    {
      for (auto & p : prog[i]) switch (p.k)
      {
        case 0:
        {
          Stamp x; { vs::Atomic a; x.s = ev (); x.th = vs::self (); top = std::max (top, vs::now ()); calls++; } uint64_t c0 = vs::now ();
          x.v = iot_time_nsecs ();
          vs::Atomic a; x.e = ev (); uint64_t c1 = vs::now (); top = std::max (top, c1); all.push_back (x); note ("t%d %llu (clock %llu to %llu)", x.th, (unsigned long long) (x.v - base), (unsigned long long) (c0 - base), (unsigned long long) (c1 - base));
          CHECK (x.v > base, "time stamp not after the one before it");
          if (nt == 1)
          {
            uint64_t last = all.size () > 1 ? all[all.size () - 2].v : base;
            CHECK (x.v == last + 1 || (x.v > last && x.v >= c0 && x.v <= c1), "time stamp %llu: last %llu, clock %llu to %llu", (unsigned long long) x.v, (unsigned long long) last, (unsigned long long) c0, (unsigned long long) c1);
            if (c0 > last) CHECK (x.v >= c0 && x.v <= c1, "time stamp %llu not from the clock (%llu to %llu)", (unsigned long long) x.v, (unsigned long long) c0, (unsigned long long) c1);
          }
          break;
        }
        case 1: vs::sleep_ns (p.a % (10 * S)); break;
        case 2: { vs::Atomic a; uint64_t n = vs::now (); top = std::max (top, n); vs::set_clock (n > p.a + 1000000 * S ? n - p.a : n); if (p.a > 20) back = true; note ("clock back by %llu", (unsigned long long) p.a); break; }
        default: { vs::Atomic a; vs::set_clock (vs::now () + p.a % (3600 * S)); top = std::max (top, vs::now ()); note ("clock on by %llu", (unsigned long long) p.a % (3600 * S)); break; }
      }
    }, "t"));
    for (int x : t) vs::join (x);
    std::vector<Stamp> v = all; std::sort (v.begin (), v.end (), [] (const Stamp & a, const Stamp & b) { return a.v < b.v; });
    for (size_t i = 1; i < v.size (); i++) CHECK (v[i].v != v[i - 1].v, "time stamp %llu given twice", (unsigned long long) v[i].v);
    uint64_t hi = 0; size_t j = 0; std::vector<Stamp> bys = all, bye = all;
    std::sort (bys.begin (), bys.end (), [] (const Stamp & a, const Stamp & b) { return a.s < b.s; }); std::sort (bye.begin (), bye.end (), [] (const Stamp & a, const Stamp & b) { return a.e < b.e; });
    for (auto & x : bys) { while (j < bye.size () && bye[j].e < x.s) hi = std::max (hi, bye[j++].v); CHECK (x.v > hi, "time stamp %llu taken after %llu was given", (unsigned long long) x.v, (unsigned long long) hi); }
    for (auto & x : v) CHECK (x.v <= top + calls + 1, "time stamp %llu ahead of every time the clock has shown (%llu)", (unsigned long long) x.v, (unsigned long long) top);
    if (all.size () >= 2 && (back || (nt > 1 && vs::switches () > 4))) pbt::nontrivial ();
    pbt::label_if (back, "clock stepped back"); pbt::label_if (nt > 1, "several threads");
  });
}

// coarser units and waits
TARGET (units, 150000, 6000000, pbt::LEAK)
{
  pbt::setrule ("the clock was read at a second, millisecond or microsecond boundary or a wait was interrupted");
  size_t n = 1 + s.draw (6); struct P { int k; uint64_t a; unsigned d; }; std::vector<P> v;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); P p; p.k = (int) s.draw (6); p.d = (unsigned) s.draw (40);
    switch (s.draw (4)) { case 0: p.a = s.draw (10000000000ull) * S; break; case 1: p.a = s.draw (10000000000ull) * S + s.draw (1000) * 1000000; break; case 2: p.a = s.draw (10000000000ull) * S + s.draw (1000000) * 1000; break; default: p.a = s.draw (18000000000000000000ull); break; }
    v.push_back (p);
  }
  vs::run (s, vs::NO_LATE, [&] ()
  {
    uint64_t clock0 = vs::now ();
    for (auto & p : v)
    {
      if (p.k < 3)
      {
        { vs::Atomic a; vs::set_clock (p.a + 100 - p.d); }
        static const uint64_t U[] = { S, 1000000, 1000 };
        uint64_t a = vs::now (), r = p.k == 0 ? iot_time_secs () : p.k == 1 ? iot_time_msecs () : iot_time_usecs (), b = vs::now ();
        note ("clock %llu to %llu unit %llu -> %llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) U[p.k], (unsigned long long) r);
        CHECK (r >= a / U[p.k] && r <= b / U[p.k], "clock %llu to %llu but the time in units of %llu ns is %llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) U[p.k], (unsigned long long) r);
        if (a / U[p.k] != b / U[p.k] || a % U[p.k] < 100) { pbt::nontrivial (); pbt::label ("at a boundary"); }
      }
      else
      {
        uint64_t lim[] = { 100000, 100000000, 100000000000ull }, unit[] = { S, 1000000, 1000 }, x = p.a % (p.d & 1 ? lim[p.k - 3] : 5000);
        uint64_t a = vs::since_start (); { vs::Atomic q; vs::set_clock (clock0); } a = vs::since_start ();
        p.k == 3 ? iot_wait_secs (x) : p.k == 4 ? iot_wait_msecs (x) : iot_wait_usecs (x);
        uint64_t d = vs::since_start () - a; note ("wait of %llu x %llu ns took %llu ns", (unsigned long long) x, (unsigned long long) unit[p.k - 3], (unsigned long long) d);
        CHECK (d >= x * unit[p.k - 3] && d <= x * unit[p.k - 3] + 100000, "wait of %llu ns took %llu ns", (unsigned long long) (x * unit[p.k - 3]), (unsigned long long) d);
        if (vs::policy ().spurious && x) { pbt::nontrivial (); pbt::label ("wait with interruptions"); }
      }
    }
    vs::Atomic a; vs::set_clock (clock0 + S);
  });
}

// ---- identifiers ----
static int hexv (char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool ref_is_uuid (const std::string & t)
{
  if (t.size () != 36) return false;
  for (size_t i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) { if (t[i] != '-') return false; } else if (hexv (t[i]) < 0) return false;
  return true;
}
static std::string text (const uint8_t * u)
{
  char * p = (char *) malloc (37); memset (p, 'x', 37); iot_uuid_unparse (u, p); CHECK (p[36] == 0 && strlen (p) == 36, "text of an identifier is %s", pbt::quoted (std::string (p, 37)).c_str ()); std::string r = p; free (p); return r;
}
static void check_text (const uint8_t * u)
{
  std::string t = text (u); CHECK (ref_is_uuid (t), "text %s is not in the identifier syntax", t.c_str ()); CHECK (iot_util_string_is_uuid (t.c_str ()), "text %s not accepted", t.c_str ());
  size_t k = 0; for (int i = 0; i < 16; i++) { if (t[k] == '-') k++; CHECK (hexv (t[k]) * 16 + hexv (t[k + 1]) == u[i], "text %s does not denote byte %d (%02x)", t.c_str (), i, u[i]); k += 2; }
}
typedef std::string Id;
static void generate_all (Src & s, unsigned nt, unsigned each, std::vector<Id> & ids)
{
  vs::run (s, 0, [&] ()
  {
    std::vector<int> t;
    for (unsigned i = 0; i < nt; i++) t.push_back (vs::spawn ([&] () { for (unsigned k = 0; k < each; k++) { uint8_t * u = (uint8_t *) malloc (16); iot_uuid_generate (u); { vs::Atomic a; ids.push_back (Id ((char *) u, 16)); } free (u); } }, "t"));
    for (int x : t) vs::join (x);
  });
}
static void check_ids (const std::vector<Id> & ids)
{
  std::vector<Id> v = ids; std::sort (v.begin (), v.end ()); for (size_t i = 1; i < v.size (); i++) CHECK (v[i] != v[i - 1], "identifier %s generated twice", text ((const uint8_t *) v[i].data ()).c_str ());
  for (auto & x : ids) { const uint8_t * u = (const uint8_t *) x.data (); check_text (u); CHECK ((u[6] & 0xf0) == 0x40, "identifier %s is not version 4", text (u).c_str ()); CHECK ((u[8] & 0xc0) == 0x80, "identifier %s is not of the standard variant", text (u).c_str ()); }
  // the random half words never repeat (about 60 bits each)
  std::vector<std::string> half; for (auto & x : ids) for (int k = 0; k < 2; k++) { std::string h = x.substr ((size_t) k * 8, 8); h[0] = (char) (h[0] & 0x3f); h[6] = (char) (h[6] & 0x0f); half.push_back (h); }
  std::sort (half.begin (), half.end ()); for (size_t i = 1; i < half.size (); i++) CHECK (half[i] != half[i - 1], "two identifiers (or the halves of one) share 60 random bits");
  if (ids.size () < 64) return;
  // every other bit takes both values, and no two bits always agree or always differ
  std::vector<std::string> col; for (int b = 0; b < 128; b++) { int by = b / 8, bi = 7 - b % 8; if ((by == 6 && bi >= 4) || (by == 8 && bi >= 6)) continue; std::string c; for (auto & x : ids) c.push_back ((x[(size_t) by] >> bi & 1) ? '1' : '0'); if (c[0] == '1') for (auto & ch : c) ch = ch == '1' ? '0' : '1'; CHECK (c.find ('1') != c.npos, "bit %d of %zu identifiers is always the same", b, ids.size ()); col.push_back (c); }
  std::sort (col.begin (), col.end ()); for (size_t i = 1; i < col.size (); i++) CHECK (col[i] != col[i - 1], "two bits of %zu identifiers always go together", ids.size ());
}
static std::set<Id> * everything;       // all identifiers of this process
TARGET (ids, 40000, 1500000, 0)
{
  pbt::setrule ("several identifiers were generated by at least two threads, or more than 64 in all");
  unsigned nt = 1 + (unsigned) s.draw (4), each = 1 + (unsigned) s.draw (s.draw (8) == 7 ? 60 : 8); std::vector<Id> ids; ids.reserve (256);
  generate_all (s, nt, each, ids); check_ids (ids);
  if (!everything) everything = new std::set<Id>;
  for (auto & x : ids) CHECK (everything->insert (x).second, "identifier %s was generated before", text ((const uint8_t *) x.data ()).c_str ());
  note ("%u threads, %zu identifiers, first %s", nt, ids.size (), text ((const uint8_t *) ids[0].data ()).c_str ());
  if (ids.size () >= 64 || (nt > 1 && ids.size () > 4)) pbt::nontrivial ();
}
// the first use in a process, also by several threads at once: each case is a process of its own
TARGET (first, 2500, 60000, 0)
{
  pbt::setrule ("the first identifiers of a process were generated by at least two threads");
  pid_t p = fork (); REQUIRE (p >= 0);
  if (p == 0)
  {
    unsigned nt = 1 + (unsigned) s.draw (4); std::vector<Id> ids; ids.reserve (64);
    generate_all (s, nt, 1 + (unsigned) s.draw (3), ids); check_ids (ids);
    note ("%u threads, %zu identifiers, first %s", nt, ids.size (), text ((const uint8_t *) ids[0].data ()).c_str ());
    _exit (nt > 1 && vs::switches () > 4 ? 3 : 0);
  }
  int st = 0; waitpid (p, &st, 0);
  if (WIFEXITED (st) && WEXITSTATUS (st) == 3) { pbt::nontrivial (); return; }
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 77) _exit (77);
  pbt::fail ("first identifiers of a process: ended with status %d", st);
}

// the check accepts exactly the syntax
TARGET (syntax, 500000, 20000000, pbt::LEAK)
{
  pbt::setrule ("the string is an identifier or differs from one in at most two places");
  std::string t; const char * H = "0123456789abcdefABCDEF";
  for (int i = 0; i < 36; i++) t.push_back (i == 8 || i == 13 || i == 18 || i == 23 ? '-' : H[s.draw (22)]);
  size_t m = s.draw (3); bool near = true; size_t mode = s.draw (6);
  static const char C[] = { 'g', 'G', '-', '/', ':', '@', '`', ' ', 'x', (char) 0x80, (char) 0xff, '{', '\n', '0', 'f', '+', 0 };
  for (size_t k = 0; k < m; k++) { Span sp (s); switch (s.draw (4)) { case 0: if (!t.empty ()) t[s.draw (t.size ())] = C[s.draw (17)]; break; case 1: t.insert (s.draw (t.size () + 1), 1, C[s.draw (16)]); break; case 2: if (!t.empty ()) t.erase (s.draw (t.size ()), 1); break; default: if (t.size () > 1) { size_t a = s.draw (t.size ()), b = s.draw (t.size ()); std::swap (t[a], t[b]); } break; } }
  if (mode == 5) { near = false; switch (s.draw (4)) { case 0: t = s.bytes (80, 36); break; case 1: t += t; break; case 2: t = "{" + t + "}"; break; default: t.resize (s.draw (36)); break; } }
  t = t.c_str (); char * p = strdup (t.c_str ());
  bool r = iot_util_string_is_uuid (p), e = ref_is_uuid (t); free (p);
  note ("%s -> %d", pbt::quoted (t).c_str (), r);
  CHECK (r == e, "%s %s as an identifier", pbt::quoted (t).c_str (), r ? "accepted" : "refused");
  CHECK (!iot_util_string_is_uuid (nullptr), "NULL accepted as an identifier");
  if (near) pbt::nontrivial (); pbt::label (e ? "identifier" : "other");
}
TARGET (unparse, 100000, 4000000, pbt::LEAK)
{
  pbt::setrule ("any 16 bytes");
  uint8_t * u = (uint8_t *) malloc (16); for (int i = 0; i < 16; i++) u[i] = (uint8_t) s.draw (256); check_text (u); note ("%s", text (u).c_str ()); pbt::nontrivial (); free (u);
}
