// C30: values shared between threads, under generated schedules; debug build and block-cache build.
#include "vsched.h"
#include "iot/data.h"
#include <algorithm>
#include <map>
#include <set>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Src; using pbt::Span; using pbt::note;

// a shared value: what it must contain, how many references the harness holds, how often its release function ran
struct Val { iot_data_t * d; int kind; uint64_t seed; int held; int released; bool track; bool published = false; };
struct World { std::vector<Val *> vals; std::set<uintptr_t> live; };
static World * W;

static std::string str_of (uint64_t seed) { std::string r; size_t bs = iot_data_block_size (), n = seed % 5 == 0 ? seed % 90 : seed % 5 == 1 ? 15 + seed % 50 : seed % 5 == 2 ? bs - 2 + seed % 4 : seed % 5 == 3 ? bs - 34 + seed % 6 : seed % 24; for (size_t i = 0; i < n; i++) r.push_back ((char) ('a' + (seed * 7 + i * 3) % 26)); return r; }
static void on_release (void * p) { Val * v = (Val *) p; vs::Atomic a; v->released++; CHECK (v->released == 1, "value released twice"); CHECK (v->held == 0, "value released while %d references to it are held", v->held); }

enum { UI64, STR, PTR, VEC, MAP, LIST, ARR, BIN, NK };
static iot_data_t * build (int kind, uint64_t seed, Val * v)
{
  switch (kind)
  {
    case UI64: return iot_data_alloc_ui64 (seed);
    case STR: { std::string t = str_of (seed); return iot_data_alloc_string (t.c_str (), IOT_DATA_COPY); }
    case PTR: return iot_data_alloc_pointer (v, v ? on_release : nullptr);
    case VEC: { uint32_t n = 1 + seed % 4; iot_data_t * d = iot_data_alloc_vector (n); for (uint32_t i = 0; i < n; i++) iot_data_vector_add (d, i, i == 0 && v ? iot_data_alloc_pointer (v, on_release) : build (i % 2 ? STR : UI64, seed + i, nullptr)); return d; }
    case MAP:
    {
      iot_data_t * d = iot_data_alloc_map (IOT_DATA_STRING); uint32_t n = 1 + seed % 5;
      if (v) iot_data_map_add (d, iot_data_alloc_string ("", IOT_DATA_COPY), iot_data_alloc_pointer (v, on_release));
      for (uint32_t i = 0; i < n; i++) { std::string k = "k" + std::to_string ((seed + i * 5) % 17); iot_data_map_add (d, iot_data_alloc_string (k.c_str (), IOT_DATA_COPY), build (i % 2 ? UI64 : STR, seed * 3 + i, nullptr)); }
      return d;
    }
    case LIST: { iot_data_t * d = iot_data_alloc_list (); if (v) iot_data_list_head_push (d, iot_data_alloc_pointer (v, on_release)); for (uint32_t i = 0; i < 1 + seed % 4; i++) iot_data_list_head_push (d, build (i % 2 ? STR : UI64, seed + i, nullptr)); return d; }
    case ARR: { uint32_t a[8]; uint32_t n = 1 + seed % 8; for (uint32_t i = 0; i < n; i++) a[i] = (uint32_t) (seed * 31 + i); return iot_data_alloc_array (a, n, IOT_DATA_UINT32, IOT_DATA_COPY); }
    default: { uint8_t a[40]; uint32_t n = 1 + seed % 40; for (uint32_t i = 0; i < n; i++) a[i] = (uint8_t) (seed * 13 + i); return iot_data_alloc_binary (a, n, IOT_DATA_COPY); }
  }
}
// the contents, read through the public interface
static bool intact (const iot_data_t * d, int kind, uint64_t seed, const Val * v)
{
  switch (kind)
  {
    case UI64: return iot_data_type (d) == IOT_DATA_UINT64 && iot_data_ui64 (d) == seed;
    case STR: return iot_data_type (d) == IOT_DATA_STRING && str_of (seed) == iot_data_string (d);
    case PTR: return iot_data_type (d) == IOT_DATA_POINTER && iot_data_pointer (d) == v;
    case VEC:
    {
      uint32_t n = 1 + seed % 4; if (iot_data_type (d) != IOT_DATA_VECTOR || iot_data_vector_size (d) != n) return false;
      for (uint32_t i = 0; i < n; i++) { const iot_data_t * e = iot_data_vector_get (d, i); if (!(i == 0 && v ? intact (e, PTR, 0, v) : intact (e, i % 2 ? STR : UI64, seed + i, nullptr))) return false; }
      return true;
    }
    case MAP:
    {
      if (iot_data_type (d) != IOT_DATA_MAP) return false; uint32_t n = 1 + seed % 5; std::map<std::string, uint32_t> m; for (uint32_t i = 0; i < n; i++) m["k" + std::to_string ((seed + i * 5) % 17)] = i;
      if (iot_data_map_size (d) != m.size () + (v ? 1 : 0)) return false;
      for (auto & x : m) if (!intact (iot_data_string_map_get (d, x.first.c_str ()), x.second % 2 ? UI64 : STR, seed * 3 + x.second, nullptr)) return false;
      return !v || intact (iot_data_string_map_get (d, ""), PTR, 0, v);
    }
    case LIST:
    {
      if (iot_data_type (d) != IOT_DATA_LIST || iot_data_list_length (d) != 1 + seed % 4 + (v ? 1 : 0)) return false; iot_data_list_iter_t it; iot_data_list_iter (d, &it); uint32_t i = 0; bool ok = true, first = v != nullptr;
      while (iot_data_list_iter_next (&it)) { const iot_data_t * e = iot_data_list_iter_value (&it); if (first) { ok = ok && intact (e, PTR, 0, v); first = false; } else { ok = ok && intact (e, i % 2 ? STR : UI64, seed + i, nullptr); i++; } }
      return ok;
    }
    case ARR: { uint32_t n = 1 + seed % 8; if (iot_data_type (d) != IOT_DATA_ARRAY || iot_data_array_length (d) != n) return false; const uint32_t * a = (const uint32_t *) iot_data_address (d); for (uint32_t i = 0; i < n; i++) if (a[i] != (uint32_t) (seed * 31 + i)) return false; return true; }
    default: { uint32_t n = 1 + seed % 40; if (iot_data_type (d) != IOT_DATA_BINARY || iot_data_array_length (d) != n) return false; const uint8_t * a = (const uint8_t *) iot_data_address (d); for (uint32_t i = 0; i < n; i++) if (a[i] != (uint8_t) (seed * 13 + i)) return false; return true; }
  }
}
static const char * NAME[] = { "number", "string", "pointer", "vector", "map", "list", "array", "binary" };
static bool tracked (int k) { return k == PTR || k == VEC || k == MAP || k == LIST; }

static Val * make (int kind, uint64_t seed)
{
  Val * v; { vs::Atomic a; v = new Val { nullptr, kind, seed, 1, 0, tracked (kind) }; W->vals.push_back (v); }
  v->d = build (kind, seed, v->track ? v : nullptr);
  vs::Atomic a; CHECK (W->live.insert ((uintptr_t) v->d).second, "a new %s has the address of a live value", NAME[kind]); note ("t%d makes %s %llu", vs::self (), NAME[kind], (unsigned long long) seed); return v;
}
static void check (Val * v) { CHECK (intact (v->d, v->kind, v->seed, v->track ? v : nullptr), "contents of a shared %s have changed", NAME[v->kind]); CHECK (!v->track || v->released == 0, "%s released while referenced", NAME[v->kind]); }
static void take (Val * v) { { vs::Atomic a; v->held++; } iot_data_t * d = iot_data_add_ref (v->d); CHECK (d == v->d, "add_ref returns another value"); }
static void drop (Val * v)
{
  { vs::Atomic a; if (--v->held == 0) { W->live.erase ((uintptr_t) v->d); } note ("t%d drops %s %llu (%d left)", vs::self (), NAME[v->kind], (unsigned long long) v->seed, v->held); }
  iot_data_free (v->d);
}

struct P { int op; uint64_t a, b; };
static std::vector<P> program (Src & s, size_t max, int nops) { std::vector<P> r; size_t n = 1 + s.draw (max); for (size_t i = 0; i < n; i++) { Span sp (s); P p; p.op = (int) s.draw ((uint64_t) nops); p.a = s.draw (64); p.b = s.draw (1000); r.push_back (p); } return r; }

// threads make values, hand references to each other through a common board, read and drop them
TARGET (sharing, 150000, 8000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads held references to the same value, and several context switches happened");
  World w; W = &w; unsigned nt = 2 + (unsigned) s.draw (3); std::vector<std::vector<P>> prog; for (unsigned i = 0; i < nt; i++) prog.push_back (program (s, 8, 7));
  std::vector<Val *> board; bool shared = false;       // values on the board are held by the board
  vs::run (s, 0, [&] ()
  {
    std::vector<int> t;
    for (unsigned i = 0; i < nt; i++) t.push_back (vs::spawn ([&, i] ()
    {
      std::vector<Val *> own;
      for (auto & p : prog[i]) switch (p.op)
      {
        case 0: case 1: own.push_back (make ((int) (p.a % NK), p.b)); break;
        case 2: if (!own.empty ()) { Val * v = own[p.a % own.size ()]; take (v); vs::Atomic a; board.push_back (v); } break;                       // publish
        case 3: { Val * v = nullptr; { vs::Atomic a; if (!board.empty ()) { size_t k = p.a % board.size (); v = board[k]; board.erase (board.begin () + (long) k); shared = true; } } if (v) own.push_back (v); break; }   // take over the board's reference
        case 4: if (!own.empty ()) { Val * v = own[p.a % own.size ()]; take (v); own.push_back (v); } break;
        case 5: if (!own.empty ()) { size_t k = p.a % own.size (); Val * v = own[k]; check (v); own.erase (own.begin () + (long) k); drop (v); } break;
        default: for (Val * v : own) check (v); break;
      }
      for (Val * v : own) { check (v); drop (v); }
      { vs::Atomic a; std::vector<Val *> ().swap (own); }
    }, "t"));
    for (int x : t) vs::join (x);
    for (Val * v : board) { check (v); drop (v); }
    for (Val * v : w.vals) { CHECK (!v->track || v->released == 1, "%s released %d times", NAME[v->kind], v->released); delete v; }
    if (shared && vs::switches () > 6) pbt::nontrivial ();
  });
}

// change a value and change it back
static void disturb (iot_data_t * x)
{
  switch (iot_data_type (x))
  {
    case IOT_DATA_MAP: iot_data_string_map_add (x, "zz", iot_data_alloc_ui64 (1)); iot_data_string_map_remove (x, "zz"); break;
    case IOT_DATA_LIST: iot_data_list_head_push (x, iot_data_alloc_ui64 (1)); iot_data_free (iot_data_list_head_pop (x)); break;
    case IOT_DATA_VECTOR: { uint32_t n = iot_data_vector_size (x); iot_data_vector_resize (x, n + 2); iot_data_vector_add (x, n, iot_data_alloc_ui64 (9)); iot_data_vector_resize (x, n); break; }
    default: break;
  }
}
// one value, everybody holds a reference and reads it at once: everyone sees the same
TARGET (readers, 120000, 6000000, pbt::LEAK)
{
  pbt::setrule ("a composed value was read by at least two threads at once");
  World w; W = &w; unsigned nt = 2 + (unsigned) s.draw (3); int kind = (int) s.draw (NK); uint64_t seed = s.draw (1000); std::vector<std::vector<P>> prog; for (unsigned i = 0; i < nt; i++) prog.push_back (program (s, 5, 6));
  bool nest = s.draw (2), stale = s.draw (2);
  vs::run (s, 0, [&] ()
  {
    auto mk = [&] () { iot_data_t * d = build (kind, seed, nullptr); if (nest) { iot_data_t * v = iot_data_alloc_vector (2); iot_data_vector_add (v, 0, d); iot_data_vector_add (v, 1, build (VEC, seed + 1, nullptr)); d = v; } 
      if (stale) { std::vector<iot_data_t *> m { d }; if (nest) { m.push_back ((iot_data_t *) iot_data_vector_get (d, 0)); } for (auto x : m) disturb (x); }
      return d; };
    iot_data_t * d = mk (), * ref = mk (), * sep = mk (); uint32_t h = iot_data_hash (sep); char * js = iot_data_to_json (sep); std::string want = js; free (js);
    std::vector<int> t;
    for (unsigned i = 0; i < nt; i++) t.push_back (vs::spawn ([&, i] ()
    {
      iot_data_t * mine = iot_data_add_ref (d);
      for (auto & p : prog[i]) switch (p.op)
      {
        case 0: CHECK (iot_data_hash (mine) == h, "a thread sees another hash of a shared value"); break;
        case 1: CHECK (iot_data_equal (mine, ref), "a shared value does not equal its like"); break;
        case 2: { iot_data_t * c = iot_data_copy (mine); CHECK (iot_data_equal (c, ref), "copy of a shared value differs from it"); iot_data_free (c); break; }
        case 3: CHECK (nest || intact (mine, kind, seed, nullptr), "contents of a shared value differ"); break;
        case 4: { char * j = iot_data_to_json (mine); CHECK (want == j, "JSON of a shared value differs"); free (j); break; }
        default: CHECK (iot_data_compare (mine, ref) == 0, "a shared value compares different from its like"); break;
      }
      iot_data_free (mine);
    }, "t"));
    for (int x : t) vs::join (x);
    iot_data_free (d); iot_data_free (ref); iot_data_free (sep);
    if (nest || kind >= VEC) pbt::nontrivial ();
  });
}

// blocks and values allocated and freed by several threads at once keep apart
TARGET (blocks, 120000, 6000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads allocated and freed, and several context switches happened");
  unsigned nt = 2 + (unsigned) s.draw (3); std::vector<std::vector<P>> prog; for (unsigned i = 0; i < nt; i++) prog.push_back (program (s, 10, 4));
  std::map<uintptr_t, size_t> live; uint32_t bs = iot_data_block_size (); World w; W = &w;
  vs::run (s, 0, [&] ()
  {
    struct B { uint8_t * p; uint32_t n; uint8_t pat; }; std::vector<B> parked; std::vector<int> t;
    auto put = [&] (B b) { for (uint32_t i = 0; i < b.n; i++) b.p[i] = (uint8_t) (b.pat + i); };
    auto ok = [&] (B b) { for (uint32_t i = 0; i < b.n; i++) CHECK (b.p[i] == (uint8_t) (b.pat + i), "byte %u of a live block has changed", i); };
    auto rel = [&] (B b) { ok (b); { vs::Atomic a; live.erase ((uintptr_t) b.p); } iot_data_block_free (b.p); };
    for (unsigned i = 0; i < nt; i++) t.push_back (vs::spawn ([&, i] ()
    {
      std::vector<B> own;
      for (auto & p : prog[i]) switch (p.op)
      {
        case 0: case 1:
        {
          uint32_t n = p.a % 8 == 7 ? bs + 1 + (uint32_t) p.b % 8 : 1 + (uint32_t) p.b % bs; uint8_t * q = (uint8_t *) iot_data_block_alloc (n);
          if (n > bs) { CHECK (!q, "block of %u bytes although the limit is %u", n, bs); break; }
          CHECK (q, "no block of %u bytes", n); for (uint32_t k = 0; k < bs; k++) CHECK (q[k] == 0, "new block is not clear");
          { vs::Atomic a; auto it = live.lower_bound ((uintptr_t) q); if (it != live.end ()) CHECK (it->first >= (uintptr_t) q + bs, "blocks overlap"); if (it != live.begin ()) { --it; CHECK (it->first + it->second <= (uintptr_t) q, "blocks overlap"); } live[(uintptr_t) q] = bs; own.push_back (B { q, bs, (uint8_t) (p.a * 16 + i) }); note ("t%u block %u", i, n); }
          put (own.back ()); break;
        }
        case 2: if (!own.empty ()) { B b = own[p.a % own.size ()]; { vs::Atomic a; own.erase (own.begin () + (long) (p.a % own.size ())); } rel (b); } break;
        default: { B b { nullptr, 0, 0 }; { vs::Atomic a; if (p.a & 1 && !own.empty ()) { parked.push_back (own.back ()); own.pop_back (); } else if (!parked.empty ()) { b = parked.back (); parked.pop_back (); } } if (b.p) rel (b); iot_data_t * x = build ((int) (p.b % NK), p.a, nullptr); vs::yield (); CHECK ((int) (p.b % NK) == PTR || intact (x, (int) (p.b % NK), p.a, nullptr), "a value changed"); iot_data_free (x); break; }
      }
      for (auto & b : own) rel (b);
      { vs::Atomic a; std::vector<B> ().swap (own); }
    }, "t"));
    for (int x : t) vs::join (x);
    for (auto & b : parked) rel (b);
    if (vs::switches () > 6) pbt::nontrivial ();
  });
}

// many values, far beyond one memory block, then an orderly exit: everything allocated for blocks is given back
TARGET (exit, 4000, 40000, 0)
{
  pbt::setrule ("at least 100 values were alive at once");
  pid_t p = fork (); REQUIRE (p >= 0);
  if (p == 0)
  {
    World w; W = &w; std::vector<std::pair<iot_data_t *, uint64_t>> live; size_t peak = 0, n = 20 + s.draw (400); std::map<uintptr_t, uint64_t> at; bool grow = true;
    for (size_t i = 0; i < n; i++)
    {
      if (i % 100 == 99) grow = s.draw (4) != 0;
      if (live.empty () || (grow ? i % 8 : i % 3 == 0)) { uint64_t seed = i * 7 + n; int k = (int) (i % NK); if (k == PTR) k = STR; live.push_back ({ build (k, seed, nullptr), (uint64_t) k << 32 | seed }); CHECK (at.emplace ((uintptr_t) live.back ().first, seed).second, "a new value has the address of a live value"); }
      else { size_t k = s.draw (live.size ()); auto x = live[k]; live[k] = live.back (); live.pop_back (); CHECK (intact (x.first, (int) (x.second >> 32), (uint32_t) x.second, nullptr), "contents of a value have changed"); at.erase ((uintptr_t) x.first); iot_data_free (x.first); }
      peak = std::max (peak, live.size ());
    }
    bool keep = s.draw (2); note ("%zu operations, up to %zu values, %zu at the end%s", n, peak, live.size (), keep ? " (kept)" : "");
    for (auto & x : live) CHECK (intact (x.first, (int) (x.second >> 32), (uint32_t) x.second, nullptr), "contents of a value have changed");
    if (!keep) for (auto & x : live) iot_data_free (x.first);
    exit (peak >= 100 ? 3 : 0);
  }
  int st = 0; waitpid (p, &st, 0);
  if (WIFEXITED (st) && WEXITSTATUS (st) == 3) { pbt::nontrivial (); return; }
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return;
  if (WIFEXITED (st) && WEXITSTATUS (st) == 77) _exit (77);
  pbt::fail ("process using many values: ended with status %d at its exit", st);
}
