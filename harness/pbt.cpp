#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <math.h>
#include <time.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <atomic>
#include <algorithm>
#include <set>
#include <map>

extern "C" int __sanitizer_install_malloc_and_free_hooks (void (*malloc_hook) (const volatile void *, size_t), void (*free_hook) (const volatile void *));
extern "C" void __sanitizer_set_report_path (const char * path);

namespace pbt {

static const size_t MAXC = 1u << 16;
static const size_t MAXSPAN = 1u << 14;
static const size_t TRACE = 1u << 16;
static const size_t MAXLABEL = 96;
static const size_t NSAMPLE = 3;

struct SpanRec { uint32_t a, b; };

struct Slot       // one per worker, in shared memory
{
  volatile uint64_t index;      // case being run
  volatile int running;         // 1 while a case is being run
  volatile int finished;        // batch finished cleanly
  uint32_t nchoices;
  uint32_t nspans;
  int failed;
  char msg[2048];
  uint64_t choices[MAXC];
  SpanRec spans[MAXSPAN];
  uint32_t trace_len;
  char trace[TRACE];
};

struct Shared
{
  std::atomic<uint64_t> evaluations, nontriv, nhash, draws;
  std::atomic<uint64_t> nsample;
  char label_name[MAXLABEL][80];
  std::atomic<uint64_t> label_count[MAXLABEL];
  std::atomic<int> nlabel;
  std::atomic<int> label_lock;
  char rule[2048];
  char sample[8][4096];
};

static Shared * shared;
static uint64_t * hashes;         // shared mmap, one per nontrivial case
static uint64_t hash_cap;
static Slot * slot;               // my slot
static std::vector<Target> * targets;
struct Probe { const char * id; const char * what; void (*fn) (); };
static std::vector<Probe> * probes;

void (*case_init) () = nullptr;

Register::Register (const char * name, CaseFn fn, uint64_t quick, uint64_t thorough, unsigned flags)
{
  if (!targets) targets = new std::vector<Target>;
  targets->push_back (Target { name, fn, quick, thorough, flags });
}
RegisterProbe::RegisterProbe (const char * id, const char * what, void (*fn) ())
{
  if (!probes) probes = new std::vector<Probe>;
  probes->push_back (Probe { id, what, fn });
}

// ---- choice stream ----
static uint64_t rng[4];
static bool replaying;
static const uint64_t * rep; static size_t nrep, rpos;
static const uint8_t * fz; static size_t nfz; static bool fuzzing;
static bool trace_on, case_nontrivial;
static uint32_t open_spans[256]; static unsigned depth;
static uint64_t cur_index;
static bool in_case;

static inline uint64_t rotl (uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t splitmix (uint64_t & x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void seed_rng (uint64_t s) { for (auto & r : rng) r = splitmix (s); }
static uint64_t next_rng ()
{
  uint64_t r = rotl (rng[1] * 5, 7) * 9, t = rng[1] << 17;
  rng[2] ^= rng[0]; rng[3] ^= rng[1]; rng[1] ^= rng[2]; rng[0] ^= rng[3]; rng[2] ^= t; rng[3] = rotl (rng[3], 45);
  return r;
}

uint64_t Src::draw (uint64_t n)
{
  if (n <= 1) return 0;
  uint64_t v;
  if (fuzzing)
  {
    unsigned need = n <= 256 ? 1 : n <= 65536 ? 2 : 8;
    v = 0;
    for (unsigned i = 0; i < need; i++) { v = (v << 8) | (nfz ? *fz : 0); if (nfz) { fz++; nfz--; } }
    v %= n;
  }
  else if (replaying) { v = rpos < nrep ? rep[rpos] : 0; rpos++; if (v >= n) v %= n; }
  else v = (uint64_t) (((unsigned __int128) next_rng () * n) >> 64);
  if (slot->nchoices < MAXC) slot->choices[slot->nchoices++] = v;
  else v = 0;
  return v;
}
uint64_t Src::raw64 () { uint64_t a = draw (1ull << 32); return (a << 32) | draw (1ull << 32); }
uint64_t Src::u64 ()
{
  switch (weighted ({ 4, 3, 3, 2 }))
  {
    case 0: return draw (16);
    case 1: { unsigned b = (unsigned) draw (64); uint64_t v = 1ull << b; return v + (uint64_t) range (-2, 2); }
    case 2: { unsigned b = (unsigned) draw (64); uint64_t v = 1ull << b; return (uint64_t) 0 - (v + (uint64_t) range (-2, 2)); }
    default: { unsigned sh = (unsigned) draw (64); return raw64 () >> sh; }
  }
}
double Src::dbl ()
{
  union { uint64_t u; double d; } x;
  switch (weighted ({ 3, 3, 2, 2, 2, 1 }))
  {
    case 0: return (double) range (-20, 20);
    case 1: return (double) range (-1000000, 1000000) / 64.0;
    case 2: return (double) i64 ();
    case 3: { unsigned b = (unsigned) draw (64); x.d = ldexp (1.0, (int) b); int64_t k = range (-2, 2); x.u += (uint64_t) k; return flag () ? -x.d : x.d; }
    case 4: x.u = raw64 (); return (x.d != x.d) ? 0.5 : x.d;
    default:
    {
      static const double sp[] = { 0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, INFINITY, -INFINITY, 1.40129846e-45, 3.40282347e38, 3.4028235677973366e38, -3.40282347e38, 0.1, 1e22, 1e-7 };
      return sp[draw (sizeof (sp) / sizeof (*sp))];
    }
  }
}
size_t Src::len (size_t max, size_t typical)
{
  size_t r;
  switch (weighted ({ 6, 3, 1 }))
  {
    case 0: r = (size_t) draw (std::min (max, typical) + 1); break;
    case 1: r = (size_t) draw (std::min (max, typical * 4) + 1); break;
    default: r = (size_t) draw (max + 1); break;
  }
  return r;
}
size_t Src::weighted (std::initializer_list<unsigned> w)
{
  uint64_t sum = 0; for (unsigned x : w) sum += x;
  uint64_t v = draw (sum); size_t i = 0;
  for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}
void Src::begin () { if (depth < 256) open_spans[depth] = slot->nchoices; depth++; }
void Src::end ()
{
  depth--;
  if (depth < 256 && slot->nspans < MAXSPAN && slot->nchoices > open_spans[depth]) slot->spans[slot->nspans++] = SpanRec { open_spans[depth], slot->nchoices };
}
std::string Src::bytes (size_t max, size_t typical)
{
  size_t n = len (max, typical); std::string r; r.reserve (n);
  for (size_t i = 0; i < n; i++) r.push_back ((char) draw (256));
  return r;
}

// ---- reporting ----
void fail (const char * fmt, ...)
{
  va_list ap; va_start (ap, fmt);
  if (slot) { vsnprintf (slot->msg, sizeof (slot->msg), fmt, ap); slot->failed = 1; }
  else { vfprintf (stderr, fmt, ap); }
  va_end (ap);
  if (fuzzing) { fprintf (stderr, "FAIL: %s\n", slot->msg); abort (); }
  _exit (77);
}
void note (const char * fmt, ...)
{
  if (!trace_on) return;
  if (slot->trace_len + 256 > TRACE) return;
  va_list ap; va_start (ap, fmt);
  int n = vsnprintf (slot->trace + slot->trace_len, TRACE - slot->trace_len - 2, fmt, ap);
  va_end (ap);
  if (n < 0) return;
  slot->trace_len += (uint32_t) std::min<size_t> ((size_t) n, TRACE - slot->trace_len - 3);
  slot->trace[slot->trace_len++] = '\n'; slot->trace[slot->trace_len] = 0;
}
bool tracing () { return trace_on; }
void nontrivial () { case_nontrivial = true; }
uint64_t case_index () { return cur_index; }
static uint32_t case_labels[64]; static unsigned ncase_labels;
void label (const char * name)
{
  int n = shared->nlabel.load (), i;
  for (i = 0; i < n; i++) if (strcmp (shared->label_name[i], name) == 0) break;
  if (i == n)
  {
    while (shared->label_lock.exchange (1)) usleep (1);
    n = shared->nlabel.load ();
    for (i = 0; i < n; i++) if (strcmp (shared->label_name[i], name) == 0) break;
    if (i == n && n < (int) MAXLABEL) { snprintf (shared->label_name[n], 80, "%s", name); shared->nlabel++; }
    shared->label_lock = 0;
    if (i >= (int) MAXLABEL) return;
  }
  for (unsigned k = 0; k < ncase_labels; k++) if (case_labels[k] == (uint32_t) i) return;
  if (ncase_labels < 64) { case_labels[ncase_labels++] = (uint32_t) i; shared->label_count[i]++; }
}
void label_if (bool c, const char * name) { if (c) label (name); }
void setrule (const char * r) { if (shared && !shared->rule[0]) snprintf (shared->rule, sizeof (shared->rule), "%s", r); }
std::string quoted (const std::string & s, size_t max)
{
  std::string r = "\""; char b[8];
  for (size_t i = 0; i < s.size () && i < max; i++)
  {
    unsigned char c = (unsigned char) s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
    else if (c >= 32 && c < 127) r += (char) c;
    else { snprintf (b, sizeof b, "\\x%02x", c); r += b; }
  }
  r += "\""; if (s.size () > max) r += "...(" + std::to_string (s.size ()) + " bytes)";
  return r;
}

static std::atomic<long> live { 0 };
static void mhook (const volatile void * p, size_t) { if (p) live.fetch_add (1, std::memory_order_relaxed); }
static void fhook (const volatile void * p) { if (p) live.fetch_sub (1, std::memory_order_relaxed); }
long live_allocs () { return live.load (); }

static unsigned cpu_limit = 10;
void set_cpu_limit (unsigned s) { cpu_limit = s; }
static void on_prof (int)
{
  if (slot && !slot->failed) { snprintf (slot->msg, sizeof (slot->msg), "case used more than %u s of CPU time (does not terminate)", cpu_limit); slot->failed = 1; }
  _exit (77);
}
static void arm ()
{
  struct itimerval it; memset (&it, 0, sizeof it); it.it_value.tv_sec = cpu_limit; setitimer (ITIMER_PROF, &it, nullptr);
  alarm (300);
}
static void on_alarm (int)
{
  if (slot && !slot->failed) { snprintf (slot->msg, sizeof (slot->msg), "case blocked for 300 s (real time)"); slot->failed = 1; }
  _exit (77);
}

static char scratch_dir[256];
static char scratch_base[200];
const char * scratch ()
{
  if (!scratch_dir[0])
  {
    snprintf (scratch_dir, sizeof scratch_dir, "%s/p%d", scratch_base, (int) getpid ());
    mkdir (scratch_dir, 0700);
  }
  return scratch_dir;
}
static void rmtree (const std::string & d)
{
  DIR * dir = opendir (d.c_str ());
  if (dir)
  {
    while (struct dirent * e = readdir (dir))
    {
      if (!strcmp (e->d_name, ".") || !strcmp (e->d_name, "..")) continue;
      std::string p = d + "/" + e->d_name; struct stat st;
      if (lstat (p.c_str (), &st) == 0 && S_ISDIR (st.st_mode)) { chmod (p.c_str (), 0700); rmtree (p); }
      else unlink (p.c_str ());
    }
    closedir (dir);
  }
  rmdir (d.c_str ());
}

static void reset_slot () { slot->nchoices = 0; slot->nspans = 0; slot->trace_len = 0; slot->trace[0] = 0; depth = 0; case_nontrivial = false; ncase_labels = 0; }

static uint64_t global_seed;
static uint64_t case_seed (const Target & t, uint64_t idx)
{
  uint64_t h = 1469598103934665603ull ^ (global_seed * 0x9e3779b97f4a7c15ull);
  for (const char * p = t.name; *p; p++) { h ^= (uint8_t) *p; h *= 1099511628211ull; }
  h ^= idx * 0xd6e8feb86659fd93ull; splitmix (h); return splitmix (h);
}

// run one case in this process, with leak oracle
static void run_case (const Target & t)
{
  Src s;
  reset_slot ();
  if (case_init) case_init ();
  long b = live.load ();
  in_case = true; t.fn (s); in_case = false;
  long a = live.load ();
  if ((t.flags & LEAK) && a != b)
  {
    // first-use allocations (stdio, locale...) are not leaks: it must leak again with the same choices
    std::vector<uint64_t> c (slot->choices, slot->choices + slot->nchoices);
    const uint64_t * orep = rep; size_t on = nrep, op = rpos; bool orr = replaying, ofz = fuzzing;
    long d1 = 0, d2 = 0;
    for (int k = 0; k < 2; k++)
    {
      rep = c.data (); nrep = c.size (); rpos = 0; replaying = true; fuzzing = false;
      reset_slot ();
      if (case_init) case_init ();
      b = live.load (); t.fn (s); a = live.load ();
      (k ? d2 : d1) = a - b;
    }
    rep = orep; nrep = on; rpos = op; replaying = orr; fuzzing = ofz;
    if (d1 != 0 && d2 == d1) fail ("leak: %ld more heap allocations live after the case than before it", d1);
  }
}

static void child_setup (const char * errfile)
{
  signal (SIGPROF, on_prof); signal (SIGALRM, on_alarm);
  int fd = open (errfile, O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) { dup2 (fd, 2); close (fd); }
  fd = open ("/dev/null", O_RDWR); if (fd >= 0) { dup2 (fd, 0); dup2 (fd, 1); close (fd); }
  scratch_dir[0] = 0;
}

static void batch (const Target & t, uint64_t a, uint64_t b)
{
  for (uint64_t i = a; i < b; i++)
  {
    seed_rng (case_seed (t, i)); replaying = false;
    slot->index = i; slot->running = 1; cur_index = i;
    trace_on = (i < 3) || (i % 997 == 500 && i < 20000);
    arm ();
    run_case (t);
    slot->running = 0;
    shared->evaluations++; shared->draws += slot->nchoices;
    if (case_nontrivial)
    {
      shared->nontriv++;
      uint64_t h = 1469598103934665603ull;
      for (uint32_t k = 0; k < slot->nchoices; k++) { h ^= slot->choices[k]; h *= 1099511628211ull; h ^= h >> 29; }
      for (const char * p = t.name; *p; p++) { h ^= (uint8_t) *p; h *= 1099511628211ull; }
      uint64_t k = shared->nhash++;
      if (k < hash_cap) hashes[k] = h;
      if (trace_on && slot->trace_len)
      {
        uint64_t ns = shared->nsample.load ();
        if (ns < 8 && shared->nsample.compare_exchange_strong (ns, ns + 1))
        {
          snprintf (shared->sample[ns], sizeof (shared->sample[ns]), "[%s #%llu] %.*s", t.name, (unsigned long long) i, (int) std::min<uint32_t> (slot->trace_len, 3000), slot->trace);
        }
      }
    }
  }
  slot->finished = 1;
}

struct Outcome { bool fail; std::string msg; std::vector<uint64_t> choices; std::vector<SpanRec> spans; std::string trace, err; };
static std::string errdir;

static std::string slurp (const std::string & f, size_t max)
{
  std::string r; FILE * fp = fopen (f.c_str (), "r"); if (!fp) return r;
  char b[4096]; size_t n; while (r.size () < max && (n = fread (b, 1, sizeof b, fp)) > 0) r.append (b, n);
  fclose (fp); return r.substr (0, max);
}
static std::string crash_summary (const std::string & err, int st)
{
  std::string m;
  if (WIFSIGNALED (st)) m = "killed by signal " + std::to_string (WTERMSIG (st));
  size_t p = err.find ("Assertion `"); if (p != std::string::npos) { size_t q = err.rfind ('\n', p); return m + " " + err.substr (q + 1, err.find ('\n', p) - q - 1); }
  p = err.find ("ERROR: AddressSanitizer"); if (p != std::string::npos) return m + " " + err.substr (p, err.find ('\n', p) - p);
  p = err.find ("runtime error:"); if (p != std::string::npos) { size_t q = err.rfind ('\n', p); return m + " " + err.substr (q + 1, err.find ('\n', p) - q - 1); }
  p = err.find ("Assertion"); if (p != std::string::npos) { size_t q = err.rfind ('\n', p); return m + " " + err.substr (q + 1, err.find ('\n', p) - q - 1); }
  if (m.empty ()) m = "exited with status " + std::to_string (WEXITSTATUS (st));
  return m;
}

// run one case in a forked child; idx range replay when choices==null
static Outcome attempt (const Target & t, const std::vector<uint64_t> * c, uint64_t a, uint64_t b, bool tr)
{
  Outcome o; o.fail = false;
  slot->failed = 0; slot->finished = 0; slot->running = 0; reset_slot ();
  std::string ef = errdir + "/attempt.err";
  fflush (nullptr);
  pid_t p = fork ();
  if (p == 0)
  {
    child_setup (ef.c_str ());
    if (c)
    {
      rep = c->data (); nrep = c->size (); rpos = 0; replaying = true; trace_on = tr; cur_index = a;
      arm (); run_case (t);
    }
    else batch (t, a, b);
    slot->finished = 1; _exit (0);
  }
  int st = 0; waitpid (p, &st, 0);
  { char d[300]; snprintf (d, sizeof d, "%s/p%d", scratch_base, (int) p); rmtree (d); }
  if (!slot->finished)
  {
    o.fail = true; o.err = slurp (ef, 6000);
    o.msg = slot->failed ? slot->msg : crash_summary (o.err, st);
  }
  o.choices.assign (slot->choices, slot->choices + slot->nchoices);
  o.spans.assign (slot->spans, slot->spans + slot->nspans);
  o.trace = slot->trace;
  return o;
}

static double now () { struct timespec ts; clock_gettime (CLOCK_MONOTONIC, &ts); return (double) ts.tv_sec + 1e-9 * (double) ts.tv_nsec; }

static bool smaller (const std::vector<uint64_t> & a, const std::vector<uint64_t> & b)
{
  if (a.size () != b.size ()) return a.size () < b.size ();
  return a < b;
}

static Outcome shrink (const Target & t, Outcome best, uint64_t idx)
{
  double end = now () + 45.0; int tries = 0;
  auto test = [&] (const std::vector<uint64_t> & c) -> bool
  {
    if (now () > end || tries > 6000) return false;
    tries++;
    Outcome o = attempt (t, &c, idx, idx, false);
    if (!o.fail) return false;
    // drop unconsumed / zero tail
    if (smaller (o.choices, best.choices)) { best = o; return true; }
    return false;
  };
  bool improved = true;
  while (improved && now () < end && tries < 6000)
  {
    improved = false;
    // delete spans, largest first
    for (int again = 1; again && now () < end; )
    {
      again = 0;
      std::vector<SpanRec> sp = best.spans;
      std::sort (sp.begin (), sp.end (), [] (const SpanRec & x, const SpanRec & y) { return (x.b - x.a) > (y.b - y.a); });
      for (auto & r : sp)
      {
        if (r.b > best.choices.size () || now () > end) break;
        std::vector<uint64_t> c = best.choices; c.erase (c.begin () + r.a, c.begin () + r.b);
        if (test (c)) { improved = true; again = 1; break; }
        // delete span and lower the choice just before (a length or op count)
        if (r.a > 0 && best.choices[r.a - 1] > 0)
        {
          c = best.choices; c.erase (c.begin () + r.a, c.begin () + r.b); c[r.a - 1]--;
          if (test (c)) { improved = true; again = 1; break; }
        }
      }
    }
    for (size_t k = 16; k >= 1; k /= 2)
      for (size_t i = best.choices.size (); i >= k && now () < end; )
      {
        i--; if (i + k > best.choices.size ()) continue;
        std::vector<uint64_t> c = best.choices; c.erase (c.begin () + (long) i, c.begin () + (long) (i + k));
        if (test (c)) { improved = true; if (i > best.choices.size ()) i = best.choices.size (); }
      }
    for (size_t i = 0; i < best.choices.size () && now () < end; i++)
    {
      if (best.choices[i] == 0) continue;
      std::vector<uint64_t> c = best.choices; c[i] = 0;
      if (test (c)) { improved = true; continue; }
      uint64_t lo = 0, hi = best.choices[i];
      while (lo + 1 < hi && i < best.choices.size () && now () < end)
      {
        uint64_t mid = lo + (hi - lo) / 2; c = best.choices; c[i] = mid;
        if (test (c)) { improved = true; if (i >= best.choices.size ()) break; hi = best.choices[i]; } else lo = mid;
      }
    }
  }
  return best;
}

static void jstr (FILE * f, const std::string & s)
{
  fputc ('"', f);
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { fputc ('\\', f); fputc (c, f); }
    else if (c < 32 || c >= 127) fprintf (f, "\\u%04x", c);
    else fputc (c, f);
  }
  fputc ('"', f);
}

static int write_replay (const std::string & file, const std::string & prop, const std::string & variant, const Target & t, const Outcome & o, const char * kind, uint64_t a, uint64_t b)
{
  FILE * f = fopen (file.c_str (), "w"); if (!f) return -1;
  fprintf (f, "pbt-replay 1\nproperty %s\nvariant %s\ntarget %s\nkind %s\nseed %llu\nfrom %llu\nto %llu\nchoices %zu", prop.c_str (), variant.c_str (), t.name, kind, (unsigned long long) global_seed, (unsigned long long) a, (unsigned long long) b, o.choices.size ());
  for (auto c : o.choices) fprintf (f, " %llu", (unsigned long long) c);
  fprintf (f, "\n--- message\n%s\n--- trace\n%s\n--- stderr\n%s\n", o.msg.c_str (), o.trace.c_str (), o.err.c_str ());
  fclose (f); return 0;
}

struct Failure { std::string target, msg, replay, trace; };

int pbt_main (int argc, char ** argv)
{
  std::string prop = "X", variant = "dbg", out = "/dev/null", replay, replay_dir = ".", only, known; uint64_t workers = 8; bool thorough = false; double scale = 1.0;
  std::string scratch_root = "/tmp", from_slot; uint64_t from = 0;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i]; auto nx = [&] () { return std::string (i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") global_seed = strtoull (nx ().c_str (), nullptr, 10);
    else if (a == "--prop") prop = nx ();
    else if (a == "--variant") variant = nx ();
    else if (a == "--out") out = nx ();
    else if (a == "--replay") replay = nx ();
    else if (a == "--replay-dir") replay_dir = nx ();
    else if (a == "--workers") workers = strtoull (nx ().c_str (), nullptr, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--scale") scale = atof (nx ().c_str ());
    else if (a == "--only") only = nx ();
    else if (a == "--from") from = strtoull (nx ().c_str (), nullptr, 10);
    else if (a == "--known") known = nx ();
    else if (a == "--from-slot") from_slot = nx ();
    else if (a == "--scratch") scratch_root = nx ();
  }
  snprintf (scratch_base, sizeof scratch_base, "%s/vp-%s-%d", scratch_root.c_str (), prop.c_str (), (int) getpid ());
  mkdir (scratch_base, 0700);
  errdir = scratch_base;
  struct Cleanup { pid_t me; ~Cleanup () { if (getpid () == me) rmtree (scratch_base); } } cleanup { getpid () };
  if (!targets) targets = new std::vector<Target>;
  if (!probes) probes = new std::vector<Probe>;

  shared = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Slot * slots = (Slot *) mmap (nullptr, sizeof (Slot) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  hash_cap = 16u << 20;
  hashes = (uint64_t *) mmap (nullptr, hash_cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  slot = &slots[workers];
  __sanitizer_install_malloc_and_free_hooks (mhook, fhook);
  double t0 = now ();

  if (!replay.empty ())
  {
    std::string txt = slurp (replay, 64u << 20), tn, kind = "case", var; uint64_t a = 0, b = 0; std::vector<uint64_t> c;
    size_t pos = 0;
    while (pos < txt.size ())
    {
      size_t e = txt.find ('\n', pos); if (e == std::string::npos) e = txt.size ();
      std::string l = txt.substr (pos, e - pos); pos = e + 1;
      if (l.compare (0, 3, "---") == 0) break;
      char k[32]; int n = 0; if (sscanf (l.c_str (), "%31s %n", k, &n) != 1) continue;
      std::string v = l.substr ((size_t) n), key = k;
      if (key == "target") tn = v; else if (key == "kind") kind = v; else if (key == "seed") global_seed = strtoull (v.c_str (), nullptr, 10);
      else if (key == "from") a = strtoull (v.c_str (), nullptr, 10); else if (key == "to") b = strtoull (v.c_str (), nullptr, 10);
      else if (key == "choices") { char * p = (char *) v.c_str (); uint64_t m = strtoull (p, &p, 10); for (uint64_t i = 0; i < m; i++) c.push_back (strtoull (p, &p, 10)); }
    }
    if (kind == "probe")
    {
      for (auto & p : *probes) if (tn == p.id)
      {
        static Target pt; static void (*pf) (); pf = p.fn; pt = Target { p.id, [] (Src &) { pf (); }, 1, 1, 0 };
        Outcome o = attempt (pt, &c, 0, 0, true);
        printf ("%s\n%s\n%s\n", o.fail ? ("FAILS: " + o.msg).c_str () : "passes", o.trace.c_str (), o.err.c_str ());
        return o.fail ? 1 : 0;
      }
      printf ("no such probe %s\n", tn.c_str ()); return 2;
    }
    for (auto & t : *targets) if (tn == t.name)
    {
      Outcome o = kind == "range" ? attempt (t, nullptr, a, b, true) : attempt (t, &c, a, a, true);
      printf ("%s\n%s\n%s\n", o.fail ? ("FAILS: " + o.msg).c_str () : "passes", o.trace.c_str (), o.err.c_str ());
      return o.fail ? 1 : 0;
    }
    printf ("no such target %s\n", tn.c_str ()); return 2;
  }

  if (!from_slot.empty ())     // a failure found by libFuzzer: shrink it and write the replay file; 3: does not fail here
  {
    int fd = open (from_slot.c_str (), O_RDWR); Slot * sl = fd < 0 ? (Slot *) MAP_FAILED : (Slot *) mmap (nullptr, sizeof (Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE, fd, 0);
    if (sl == MAP_FAILED) return 2;
    std::vector<uint64_t> c (sl->choices, sl->choices + sl->nchoices);
    for (auto & t : *targets) if (only == t.name)
    {
      Outcome o = attempt (t, &c, 0, 0, false); if (!o.fail) return 3;
      Outcome m = shrink (t, o, 0), f; int k = 0;
      for (; k < 3; k++) { f = attempt (t, &m.choices, 0, 0, true); if (!f.fail) return 3; }
      write_replay (out, prop, variant, t, f, "case", 0, 0);
      printf ("%s\n%s\n", f.msg.c_str (), f.trace.c_str ());
      return 1;
    }
    return 2;
  }

  std::vector<Failure> fails; std::vector<std::string> findings, unrepro;
  // known findings: lines "open <prop> <probe-id> ..." 
  std::set<std::string> open_ids;
  { std::string k = slurp (known, 1u << 20); size_t pos = 0; while (pos < k.size ()) { size_t e = k.find ('\n', pos); if (e == std::string::npos) e = k.size (); std::string l = k.substr (pos, e - pos); pos = e + 1; char a[64], b[64], c[64]; if (sscanf (l.c_str (), "%63s property=%63s probe=%63s", a, b, c) == 3 && !strcmp (a, "open:") && prop == b) open_ids.insert (c); } }
  uint64_t nprobes = 0;
  for (auto & p : *probes)
  {
    if (!only.empty () && only != p.id) continue;
    static Target pt; static void (*pf) (); pf = p.fn; pt = Target { p.id, [] (Src &) { pf (); }, 1, 1, LEAK };
    std::vector<uint64_t> none; nprobes++;
    int bad = 0; Outcome o;
    for (int k = 0; k < 3; k++) { o = attempt (pt, &none, 0, 0, true); if (o.fail) bad++; else break; }
    shared->evaluations++;
    if (bad == 3)
    {
      if (open_ids.count (p.id)) findings.push_back (std::string (p.id) + " " + p.what + " (" + o.msg + ")");
      else
      {
        std::string rf = replay_dir + "/" + prop + "-" + variant + "-" + p.id + ".replay";
        write_replay (rf, prop, variant, pt, o, "probe", 0, 0);
        fails.push_back (Failure { p.id, std::string (p.what) + ": " + o.msg, rf, o.trace });
      }
    }
    else if (bad) unrepro.push_back (std::string (p.id) + ": " + o.msg);
  }

  struct TStat { std::string name; uint64_t n; double s; }; std::vector<TStat> tstats;
  for (auto & t : *targets)
  {
    if (!only.empty () && only != t.name) continue;
    if (!fails.empty () && now () - t0 > 90) continue;     // already failed and slow
    double ts = now ();
    uint64_t total = (uint64_t) ((double) (thorough ? t.thorough : t.quick) * scale); if (total == 0) continue;
    uint64_t B = std::max<uint64_t> (1, std::min<uint64_t> (1000, total / (workers * 4)));
    uint64_t next = from; total += from; bool stop = false; std::map<pid_t, std::pair<unsigned, std::pair<uint64_t, uint64_t>>> live_w; std::vector<unsigned> freew; for (unsigned w = 0; w < workers; w++) freew.push_back (w);
    struct Bad { uint64_t idx, from; std::vector<uint64_t> c; std::string msg; }; std::vector<Bad> bads;
    while (true)
    {
      while (!stop && !freew.empty () && next < total)
      {
        unsigned w = freew.back (); freew.pop_back ();
        uint64_t a = next, b = std::min (total, next + B); next = b;
        Slot * sl = &slots[w]; sl->finished = 0; sl->failed = 0; sl->running = 0; sl->msg[0] = 0;
        fflush (nullptr);
        pid_t p = fork ();
        if (p == 0)
        {
          slot = sl; std::string ef = errdir + "/w" + std::to_string (w) + ".err"; child_setup (ef.c_str ());
          batch (t, a, b); _exit (0);
        }
        live_w[p] = { w, { a, b } };
      }
      if (live_w.empty ()) break;
      int st; pid_t p = waitpid (-1, &st, 0); if (p < 0) break;
      auto it = live_w.find (p); if (it == live_w.end ()) continue;
      unsigned w = it->second.first; Slot * sl = &slots[w];
      { char d[300]; snprintf (d, sizeof d, "%s/p%d", scratch_base, (int) p); rmtree (d); }
      if (!sl->finished)
      {
        std::string err = slurp (errdir + "/w" + std::to_string (w) + ".err", 4000);
        bads.push_back (Bad { sl->index, it->second.second.first, std::vector<uint64_t> (sl->choices, sl->choices + sl->nchoices), sl->failed ? sl->msg : crash_summary (err, st) });
        stop = true;
      }
      live_w.erase (it); freew.push_back (w);
    }
    tstats.push_back (TStat { t.name, std::min (next, total) - from, now () - ts });
    if (!bads.empty ())
    {
      std::sort (bads.begin (), bads.end (), [] (const Bad & x, const Bad & y) { return x.idx < y.idx; });
      bool reported = false;
      for (auto & bd : bads)
      {
        Outcome o = attempt (t, &bd.c, bd.idx, bd.idx, false);
        std::string rf = replay_dir + "/" + prop + "-" + variant + "-" + t.name + ".replay";
        if (o.fail)
        {
          // a case that does not end costs its whole time limit on every try: it is confirmed, not shrunk
          bool endless = o.msg.find ("does not terminate") != std::string::npos || o.msg.find ("case blocked") != std::string::npos || o.msg.find ("no progress after") != std::string::npos;
          Outcome m = endless ? o : shrink (t, o, bd.idx);
          int k = endless ? 2 : 0; Outcome f;
          for (; k < 3; k++) { f = attempt (t, &m.choices, bd.idx, bd.idx, true); if (!f.fail) break; }
          if (k < 3) { m = o; for (k = 0; k < 3; k++) { f = attempt (t, &m.choices, bd.idx, bd.idx, true); if (!f.fail) break; } }
          if (k == 3) { write_replay (rf, prop, variant, t, f, "case", bd.idx, bd.idx); fails.push_back (Failure { t.name, f.msg, rf, f.trace }); reported = true; break; }
        }
        // state carried over from earlier cases of the batch: replay the whole range
        int k = 0; Outcome f;
        if (bd.msg.find ("does not terminate") != std::string::npos) k = 1;
        for (; k < 3; k++) { f = attempt (t, nullptr, bd.from, bd.idx + 1, true); if (!f.fail) break; }
        if (k == 3) { write_replay (rf, prop, variant, t, f, "range", bd.from, bd.idx + 1); fails.push_back (Failure { t.name, f.msg, rf, f.trace }); reported = true; break; }
        unrepro.push_back (std::string (t.name) + " #" + std::to_string (bd.idx) + ": " + bd.msg);
      }
      (void) reported;
    }
  }

  uint64_t nh = std::min<uint64_t> (shared->nhash.load (), hash_cap);
  std::sort (hashes, hashes + nh); uint64_t distinct = (uint64_t) (std::unique (hashes, hashes + nh) - hashes);
  FILE * f = fopen (out.c_str (), "w");
  if (f)
  {
    fprintf (f, "{\"variant\":"); jstr (f, variant);
    fprintf (f, ",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"choices_drawn\":%llu,\"probes\":%llu,\"wall_s\":%.2f,\"rule\":", (unsigned long long) shared->evaluations, (unsigned long long) shared->nontriv, (unsigned long long) distinct, (unsigned long long) shared->draws, (unsigned long long) nprobes, now () - t0);
    jstr (f, shared->rule);
    fprintf (f, ",\"labels\":{"); for (int i = 0; i < shared->nlabel && i < (int) MAXLABEL; i++) { if (i) fputc (',', f); jstr (f, shared->label_name[i]); fprintf (f, ":%llu", (unsigned long long) shared->label_count[i]); }
    fprintf (f, "},\"targets\":{"); for (size_t i = 0; i < tstats.size (); i++) { if (i) fputc (',', f); jstr (f, tstats[i].name); fprintf (f, ":{\"cases\":%llu,\"wall_s\":%.2f}", (unsigned long long) tstats[i].n, tstats[i].s); }
    fprintf (f, "},\"samples\":["); for (uint64_t i = 0; i < shared->nsample && i < 8; i++) { if (i) fputc (',', f); jstr (f, shared->sample[i]); }
    fprintf (f, "],\"known\":["); for (size_t i = 0; i < findings.size (); i++) { if (i) fputc (',', f); jstr (f, findings[i]); }
    fprintf (f, "],\"unreproduced\":["); for (size_t i = 0; i < unrepro.size (); i++) { if (i) fputc (',', f); jstr (f, unrepro[i]); }
    fprintf (f, "],\"failures\":["); for (size_t i = 0; i < fails.size (); i++) { if (i) fputc (',', f); fprintf (f, "{\"target\":"); jstr (f, fails[i].target); fprintf (f, ",\"msg\":"); jstr (f, fails[i].msg); fprintf (f, ",\"replay\":"); jstr (f, fails[i].replay); fprintf (f, ",\"trace\":"); jstr (f, fails[i].trace); fprintf (f, "}"); }
    fprintf (f, "]}\n"); fclose (f);
  }
  return fails.empty () ? 0 : 1;
}

}

#ifdef PBT_FUZZ
using namespace pbt;
extern "C" int LLVMFuzzerInitialize (int *, char ***)
{
  shared = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const char * sf = getenv ("PBT_SLOT"); int sfd = sf ? open (sf, O_RDWR | O_CREAT, 0600) : -1;     // keeps the choices of an input that crashes
  if (sfd >= 0 && ftruncate (sfd, sizeof (Slot)) != 0) return -1;
  slot = (Slot *) mmap (nullptr, sizeof (Slot), PROT_READ | PROT_WRITE, sfd >= 0 ? MAP_SHARED : MAP_SHARED | MAP_ANONYMOUS, sfd, 0);
  const char * sb = getenv ("PBT_SCRATCH"); snprintf (scratch_base, sizeof scratch_base, "%s", sb ? sb : "/tmp");
  __sanitizer_install_malloc_and_free_hooks (mhook, fhook);
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput (const uint8_t * data, size_t size)
{
  static const Target * t = nullptr;
  if (!t) { const char * n = getenv ("PBT_TARGET"); for (auto & x : *targets) if (!n || !strcmp (n, x.name)) { t = &x; break; } }
  fuzzing = true; fz = data; nfz = size; 
  run_case (*t);
  return 0;
}
#else
int main (int argc, char ** argv) { return pbt::pbt_main (argc, argv); }
#endif
