// Minimal property-based-testing core: every random decision of a case is drawn from one recorded choice
// stream, so a case is a pure function of (seed, target, index), replays from its choices and shrinks on them.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

struct Src
{
  uint64_t draw (uint64_t n);                  // uniform in [0,n); 0 is the simplest
  bool flag () { return draw (2) == 1; }
  bool chance (uint64_t num, uint64_t den) { return draw (den) >= den - num; }  // simplest: false
  int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) draw ((uint64_t) (hi - lo) + 1u); }
  uint64_t u64 ();                             // full 64 bits, boundary biased
  int64_t i64 () { return (int64_t) u64 (); }
  uint64_t raw64 ();                           // uniform 64 bits (two draws)
  size_t len (size_t max, size_t typical);     // biased to small lengths, up to max
  size_t weighted (std::initializer_list<unsigned> w);
  void begin ();                               // span markers (help the shrinker delete whole operations)
  void end ();
  template <class T> const T & pick (const std::vector<T> & v) { return v[draw (v.size ())]; }
  double dbl ();                               // any double, no NaN
  std::string bytes (size_t max, size_t typical);
};

struct Span { Src & s; explicit Span (Src & src) : s (src) { s.begin (); } ~Span () { s.end (); } };

typedef void (*CaseFn) (Src & s);

// flags for targets
enum { LEAK = 1, NOTERM = 2 };

struct Target
{
  const char * name;
  CaseFn fn;
  uint64_t quick, thorough;   // number of cases
  unsigned flags;
};

struct Register { Register (const char * name, CaseFn fn, uint64_t quick, uint64_t thorough, unsigned flags = LEAK); };
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define TARGET(NAME, QUICK, THOROUGH, FLAGS) \
  static void target_##NAME (pbt::Src & s); \
  static pbt::Register PBT_CAT(reg_,NAME) (#NAME, target_##NAME, QUICK, THOROUGH, FLAGS); \
  static void target_##NAME (pbt::Src & s)

// A probe is one fixed concrete history. It fails by pbt::fail / crash. Probes listed in known_findings.txt as
// open findings are reported as KNOWN-FINDING when they fail; any other failing probe is a violation.
struct RegisterProbe { RegisterProbe (const char * id, const char * what, void (*fn) ()); };
#define PROBE(ID, WHAT) \
  static void probe_##ID (); \
  static pbt::RegisterProbe PBT_CAT(regp_,ID) (#ID, WHAT, probe_##ID); \
  static void probe_##ID ()

[[noreturn]] void fail (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) pbt::fail (__VA_ARGS__); } while (0)
#define REQUIRE(c) do { if (!(c)) pbt::fail ("%s:%d: %s", __FILE__, __LINE__, #c); } while (0)

void note (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));   // trace line (kept when tracing)
bool tracing ();
void nontrivial ();                        // this case is non-trivial by the property's rule
void label (const char * name);            // count the case under a class (name must be a literal)
void label_if (bool c, const char * name);
void setrule (const char * rule);
long live_allocs ();                       // current number of live heap allocations
void set_cpu_limit (unsigned secs);        // per-case CPU limit (default 20)
extern void (*case_init) ();               // run before each case (reset global state)
const char * scratch ();                   // scratch directory of this process (created on demand, removed by the driver)
std::string quoted (const std::string & s, size_t max = 400);
uint64_t case_index ();

}
