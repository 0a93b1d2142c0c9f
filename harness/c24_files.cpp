// C24: files and stored configurations: truthful results, and complete old or complete new contents at every crash or
// failure point. All file-system calls of the library are interposed (vio); everything happens in a scratch directory.
#include "vio.h"
#include "iot/iot.h"
#include "iot/file.h"
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::Src; using pbt::Span; using pbt::note;
typedef std::map<std::string, std::string> Files;           // relative name -> contents

static std::string base;
static bool slurp (const std::string & p, std::string & out)
{
  int d = open (p.c_str (), O_RDONLY); if (d < 0) return false; struct stat st; fstat (d, &st); if (!S_ISREG (st.st_mode)) { close (d); return false; }
  out.resize ((size_t) st.st_size); size_t n = 0; while (n < out.size ()) { ssize_t r = read (d, &out[n], out.size () - n); if (r <= 0) break; n += (size_t) r; } out.resize (n); close (d); return true;
}
static void spit (const std::string & p, const std::string & c) { int d = open (p.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (d < 0) return; size_t n = 0; while (n < c.size ()) { ssize_t r = write (d, c.data () + n, c.size () - n); if (r <= 0) break; n += (size_t) r; } close (d); }
static void wipe (const std::string & dir, bool self)
{
  DIR * d = opendir (dir.c_str ()); if (!d) return; std::vector<std::string> f, s;
  while (struct dirent * e = readdir (d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; (e->d_type == DT_DIR ? s : f).push_back (dir + "/" + n); }
  closedir (d); for (auto & x : f) unlink (x.c_str ()); for (auto & x : s) wipe (x, true); if (self) rmdir (dir.c_str ());
}
static void scan (const std::string & dir, const std::string & pre, Files & out)
{
  DIR * d = opendir (dir.c_str ()); if (!d) return;
  while (struct dirent * e = readdir (d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; if (e->d_type == DT_DIR) scan (dir + "/" + n, pre + n + "/", out); else { std::string c; slurp (dir + "/" + n, c); out[pre + n] = c; } }
  closedir (d);
}
static int lowfd () { int d = dup (0); if (d >= 0) close (d); return d; }
static int fd0;
static void reset_store ()
{
  iot_store_config (iot_file_read_binary, iot_file_write_binary, iot_file_delete);
  if (base.empty () || base.compare (0, strlen (pbt::scratch ()), pbt::scratch ())) base = std::string (pbt::scratch ()) + "/f";
  wipe (base, false); mkdir (base.c_str (), 0700); mkdir ((base + "/sub").c_str (), 0700); mkdir ((base + "/dir.json").c_str (), 0700);
  vio::root (base.c_str ()); if (chdir (base.c_str ())) {} fd0 = lowfd ();
}
static struct Init { Init () { pbt::case_init = reset_store; } } init_;

static const char * NAMES[] = { "a", "b.json", "c", "c.json", "xjson", ".json", "ajson", "d.txt", "sub/e", "sub/e.json", "b.json.bak", "f.JSON", "longer name with spaces.json", "jsonx", "q.json.json", "ab", "abc" };
static const char * CONF[] = { "b", "c", "", "sub/e", "q.json", "longer name with spaces", "new one", "d.txt" };
static std::string content (Src & s)
{
  switch (s.draw (6))
  {
    case 0: return "Hello";
    case 1: { std::string r; size_t n = 1 + s.draw (40); for (size_t i = 0; i < n; i++) r.push_back ((char) (' ' + s.draw (95))); return r; }
    case 2: { std::string r = s.bytes (300, 20); return r.empty () ? std::string ("\0", 1) : r; }
    case 3: { size_t n = 4090 + s.draw (12); return std::string (n, (char) ('a' + s.draw (26))); }
    case 4: { size_t n = 1 + s.draw (70000); std::string r (n, 0); uint32_t x = (uint32_t) s.draw (1 << 20); for (auto & c : r) { x = x * 1664525u + 1013904223u; c = (char) (x >> 24); } return r; }
    default: { std::string r; size_t n = 500 + s.draw (1200); for (size_t i = 0; i < n; i++) r.push_back ((char) ('0' + (i * 7 + n) % 10)); return r; }
  }
}
static std::string text (Src & s) { std::string r = content (s); for (auto & c : r) if (!c) c = '.'; return r; }

// POSIX basic regular expressions of literals, '.', brackets, '*', and anchors at the ends
struct Tok { int kind; std::string set; bool star; };     // 0 literal, 1 any, 2 set
static std::vector<Tok> toks; static bool anchored, ending;
static bool one (const Tok & t, char c) { return t.kind == 1 || (t.kind == 0 ? t.set[0] == c : t.set.find (c) != std::string::npos); }
static bool here (size_t i, const char * p)
{
  if (i == toks.size ()) return !ending || !*p;
  if (toks[i].star) { const char * q = p; do { if (here (i + 1, q)) return true; } while (*q && one (toks[i], *q++)); return false; }
  return *p && one (toks[i], *p) && here (i + 1, p + 1);
}
static bool matches (const char * n) { if (anchored) return here (0, n); do { if (here (0, n)) return true; } while (*n++); return false; }
static std::string regex (Src & s)
{
  toks.clear (); anchored = s.draw (3) == 2; ending = s.draw (3) == 2; std::string r; if (anchored) r = "^"; static const char L[] = { 'a', 'b', 'c', 'j', 's', 'o', 'n', '.', 'e', ' ', 'x', '/' };
  size_t n = s.draw (5) + (anchored && !ending ? 1 : 0);
  if (s.draw (4) == 3) { for (char c : std::string (".json")) { Tok t { c == '.' ? (s.flag () ? 1 : 0) : 0, std::string (1, c), false }; r += c == '.' ? (t.kind ? "." : "\\.") : std::string (1, c); toks.push_back (t); } }
  else for (size_t i = 0; i < n; i++)
  {
    Tok t; t.kind = (int) s.draw (3); t.star = s.draw (4) == 3;
    if (t.kind == 0) { t.set = std::string (1, L[s.draw (12)]); r += t.set == "." ? "\\." : t.set; }
    else if (t.kind == 1) r += ".";
    else { size_t k = 1 + s.draw (3); for (size_t j = 0; j < k; j++) { char c = L[s.draw (12)]; if (t.set.find (c) == std::string::npos) t.set.push_back (c); } r += "[" + t.set + "]"; if (t.set[0] == '.' ) { r.erase (r.size () - t.set.size () - 2); std::string u = t.set + "a"; t.set = "a" + t.set; r += "[" + t.set + "]"; } }
    if (t.star) r += "*";
    toks.push_back (t);
  }
  if (ending) r += "$";
  return r;
}

static std::multiset<std::string> strings (const iot_data_t * l)
{
  std::multiset<std::string> r; iot_data_list_iter_t it; iot_data_list_iter (l, &it);
  while (iot_data_list_iter_next (&it)) { CHECK (iot_data_type (iot_data_list_iter_value (&it)) == IOT_DATA_STRING, "list has an element that is no string"); r.insert (iot_data_list_iter_string_value (&it)); }
  return r;
}
static std::string join (const std::multiset<std::string> & m) { std::string r; for (auto & x : m) r += (r.empty () ? "" : ", ") + pbt::quoted (x); return r; }

static void agree (const Files & model, bool temps = false)
{
  Files now; scan (base, "", now);
  for (auto & x : model) { auto it = now.find (x.first); CHECK (it != now.end (), "file %s is missing", pbt::quoted (x.first).c_str ()); CHECK (it->second == x.second, "file %s holds %zu bytes %s, not the %zu last stored", pbt::quoted (x.first).c_str (), it->second.size (), pbt::quoted (it->second, 40).c_str (), x.second.size ()); }
  for (auto & x : now) if (!model.count (x.first)) CHECK (temps, "a file %s has appeared", pbt::quoted (x.first).c_str ());
  CHECK (lowfd () == fd0, "a file or directory is left open");
}
// stands for malloc'ed results
static void expect_bytes (const char * what, uint8_t * r, size_t len, bool haslen, const std::string * want, bool maynull = false)
{
  bool some = want && !want->empty ();
  if (!r) { CHECK (!some || maynull, "%s gives nothing although the file has %zu bytes", what, want->size ()); CHECK (!haslen || len == 0, "%s gives nothing but a length of %zu", what, len); return; }
  CHECK (some, "%s gives something although there is no file or an empty one", what);
  CHECK (!haslen || len == want->size (), "%s gives %zu bytes, the file has %zu", what, len, want->size ());
  CHECK (memcmp (r, want->data (), want->size ()) == 0, "%s gives other bytes than the file's", what);
  CHECK (r[want->size ()] == 0, "%s: result is not terminated", what);
  free (r);
}

// memory-backed replacement of the store
static Files mem; static int calls;
static uint8_t * mem_read (const char * p, size_t * len) { calls++; auto it = mem.find (p); if (len) *len = 0; if (it == mem.end ()) return nullptr; uint8_t * r = (uint8_t *) malloc (it->second.size () + 1); memcpy (r, it->second.c_str (), it->second.size () + 1); if (len) *len = it->second.size (); return r; }
static bool mem_write (const char * p, const uint8_t * b, size_t len) { calls++; if (strstr (p, "xjson")) return false; mem[p] = std::string ((const char *) b, len); return true; }
static bool mem_delete (const char * p) { calls++; return mem.erase (p) != 0; }

TARGET (history, 8000, 400000, pbt::LEAK)
{
  pbt::setrule ("a file was replaced by other contents and read again later, or a listing had some but not all of the files");
  Files model; bool replaced = false, again = false, some = false; std::set<std::string> changed;
  for (size_t i = 0, n = s.draw (6); i < n; i++) { std::string nm = NAMES[s.draw (17)]; std::string c = s.draw (6) ? content (s) : ""; spit (base + "/" + nm, c); model[nm] = c; }
  size_t n = 1 + s.draw (14);
  for (size_t k = 0; k < n; k++)
  {
    Span sp (s); std::string nm = NAMES[s.draw (17)], path = s.flag () ? nm : base + "/" + nm; int op = (int) s.draw (12); auto it = model.find (nm); const std::string * have = it == model.end () ? nullptr : &it->second;
    bool missing = s.draw (12) == 11; if (missing) { nm = "none/" + nm; path = base + "/" + nm; have = nullptr; }
    bool store = s.flag (); std::string c; bool ok;
    vio::begin (nullptr, vio::Fault ());
    switch (op)
    {
      case 0: case 1:
        c = s.draw (12) == 11 && !store ? "" : text (s); note ("write %s %zu", nm.c_str (), c.size ()); ok = store ? iot_store_write (path.c_str (), c.c_str ()) : iot_file_write (path.c_str (), c.c_str ());
        goto WRITTEN;
      case 2: case 3:
      {
        c = content (s); note ("write binary %s %zu", nm.c_str (), c.size ()); uint8_t * b = (uint8_t *) malloc (c.size ()); memcpy (b, c.data (), c.size ());
        ok = store ? iot_store_write_binary (path.c_str (), b, c.size ()) : iot_file_write_binary (path.c_str (), b, c.size ()); CHECK (memcmp (b, c.data (), c.size ()) == 0, "writing changes the data written"); free (b);
      }
      WRITTEN:
        if (missing) { CHECK (!ok, "writing into a missing directory succeeds"); break; }
        CHECK (ok || c.empty (), "writing %s fails", nm.c_str ()); if (ok) { if (have && *have != c) { replaced = true; changed.insert (nm); } model[nm] = c; }
        break;
      case 4: { note ("read %s", nm.c_str ()); char * r = store ? iot_store_read (path.c_str ()) : iot_file_read (path.c_str ()); expect_bytes ("read", (uint8_t *) r, 0, false, have); if (have && changed.count (nm)) again = true; break; }
      case 5: { size_t len = 777; bool l = s.draw (4) != 3; note ("read binary %s", nm.c_str ()); uint8_t * r = store ? iot_store_read_binary (path.c_str (), l ? &len : nullptr) : iot_file_read_binary (path.c_str (), l ? &len : nullptr); expect_bytes ("read", r, len, l, have); if (have && changed.count (nm)) again = true; break; }
      case 6: note ("delete %s", nm.c_str ()); ok = store ? iot_store_delete (path.c_str ()) : iot_file_delete (path.c_str ()); CHECK (ok == (have != nullptr), "deleting %s %s file: %s", have ? "an existing" : "a missing", nm.c_str (), ok ? "true" : "false"); model.erase (nm); break;
      case 7:
      {
        size_t mode = s.draw (8); std::string re = mode ? regex (s) : "", sub = mode == 1 ? "sub/" : ""; std::multiset<std::string> want; note ("list %s with %s", sub.c_str (), mode ? re.c_str () : "nothing");
        if (mode && re.empty ()) { re = "."; toks = { Tok { 1, "", false } }; anchored = ending = false; }
        for (auto & x : model) { std::string f = x.first; if (f.compare (0, sub.size (), sub)) continue; f = f.substr (sub.size ()); if (f.find ('/') != std::string::npos) continue; if (!mode || matches (f.c_str ())) want.insert (f); }
        iot_data_t * l = iot_file_list ((base + (sub.empty () ? "" : "/sub")).c_str (), mode ? re.c_str () : nullptr); CHECK (l, "no list for an existing directory"); auto got = strings (l); iot_data_free (l);
        CHECK (got == want, "list with %s gives %s, not %s", mode ? re.c_str () : "no expression", join (got).c_str (), join (want).c_str ()); if (!want.empty () && want.size () < model.size ()) some = true; break;
      }
      case 8:
      {
        size_t m = s.draw (5); note ("list configurations %zu", m); std::string sub = m == 1 ? "sub/" : ""; std::multiset<std::string> want;
        if (m == 4) { iot_data_t * l = iot_store_config_list ((base + "/none").c_str ()); if (l) { CHECK (iot_data_list_length (l) == 0, "a missing directory lists something"); iot_data_free (l); } break; }
        if (m == 3) { static const char * BAD[] = { "[", "\\(", "[[:none:]]", "\\" }; iot_data_t * l = iot_file_list (base.c_str (), BAD[s.draw (4)]); CHECK (!l || iot_data_list_length (l) == 0, "an invalid expression lists something"); iot_data_free (l); l = iot_file_list ((base + "/none").c_str (), nullptr); CHECK (!l || iot_data_list_length (l) == 0, "a missing directory lists something"); iot_data_free (l); break; }
        for (auto & x : model) { std::string f = x.first; if (f.compare (0, sub.size (), sub)) continue; f = f.substr (sub.size ()); if (f.find ('/') != std::string::npos || f.size () < 5 || f.compare (f.size () - 5, 5, ".json")) continue; want.insert (f.substr (0, f.size () - 5)); }
        iot_data_t * l = iot_store_config_list ((base + (sub.empty () ? "" : "/sub")).c_str ()); CHECK (l, "no list for an existing directory"); auto got = strings (l); iot_data_free (l);
        CHECK (got == want, "configurations listed: %s, stored: %s", join (got).c_str (), join (want).c_str ()); if (!want.empty () && want.size () < model.size ()) some = true; break;
      }
      default:      // configurations
      {
        std::string cn = CONF[s.draw (8)], file = cn + ".json"; bool uri = s.flag (); const char * u = uri ? base.c_str () : nullptr; auto jt = model.find (file); have = jt == model.end () ? nullptr : &jt->second;
        if (op == 9) { c = text (s); note ("save %s %zu", cn.c_str (), c.size ()); ok = iot_store_config_save (cn.c_str (), u, c.c_str ()); CHECK (ok, "saving configuration %s fails", cn.c_str ()); if (have && *have != c) { replaced = true; changed.insert (file); } model[file] = c; }
        else if (op == 10) { note ("load %s", cn.c_str ()); expect_bytes ("loading a configuration", (uint8_t *) iot_store_config_load (cn.c_str (), u), 0, false, have); if (have && changed.count (file)) again = true; }
        else { note ("delete configuration %s", cn.c_str ()); ok = iot_store_config_delete (cn.c_str (), u); CHECK (ok == (have != nullptr), "deleting %s configuration: %d", have ? "a" : "no", ok); model.erase (file); }
      }
    }
    vio::end (); agree (model);
  }
  if ((replaced && again) || some) pbt::nontrivial (); pbt::label_if (replaced, "replaced");
}

// one operation with every single call failing in turn (or everything from that call on), and a look at every crash point
TARGET (faults, 2500, 120000, pbt::LEAK)
{
  pbt::setrule ("replaced an existing file, with at least three calls made to fail in turn");
  std::string nm = NAMES[s.draw (17)]; bool conf = s.draw (3) == 2; std::string cn = CONF[s.draw (8)]; if (conf) nm = cn + ".json";
  bool exists = s.draw (4) != 3, stale = s.draw (3) == 2; std::string old = exists ? content (s) : "", junk = stale ? content (s) : "", fresh = conf ? text (s) : content (s); int op = (int) s.draw (5), api = (int) s.draw (2); if (op > 2) op = 0;
  bool rel = s.flag (); std::string path = rel ? nm : base + "/" + nm, full = base + "/" + nm; uint64_t part = s.draw (1 << 20);
  static const char * OPS[] = { "write", "read", "delete" }; note ("%s %s, %s%zu bytes there%s, %zu bytes new", OPS[op], nm.c_str (), exists ? "" : "no file, ", old.size (), stale ? ", left-over .new" : "", fresh.size ());
  int total = 0; size_t runs = 0;
  auto lay = [&] () { wipe (base, false); mkdir ((base + "/sub").c_str (), 0700); mkdir ((base + "/dir.json").c_str (), 0700); if (exists) spit (full, old); if (stale) spit (full + ".new", junk); spit (base + "/bystander", "stays"); };
  for (int at = -1; at < total; at++) for (int kind = 0; kind < (at < 0 ? 1 : 2); kind++) for (int sticky = 0; sticky < (at < 0 ? 1 : 2); sticky++)
  {
    lay (); vio::Fault f; f.at = at; f.kind = (vio::Kind) kind; f.sticky = sticky; f.part = part; f.err = part % 2 ? EIO : ENOSPC; bool back = false;
    auto state = [&] (const char * when)
    {
      std::string c; bool e = slurp (full, c); bool isold = e == exists && (!e || c == old), isnew = op == 0 ? e && c == fresh : op == 2 ? !e : false;
      CHECK (isold || isnew, "a crash at %s leaves %s with %s (%zu bytes), neither the old (%zu bytes) nor the new contents (%zu bytes)", when, nm.c_str (), e ? "other contents" : "no file", c.size (), old.size (), fresh.size ());
      CHECK (!back || isnew || isold == isnew, "at %s the old contents are back", when); if (isnew && !isold) back = true;
    };
    vio::begin (state, f); bool ok = false; uint8_t * r = nullptr; size_t len = 777; bool haslen = false;
    if (op == 0)
    {
      if (conf) ok = iot_store_config_save (cn.c_str (), rel ? nullptr : base.c_str (), fresh.c_str ());
      else ok = api ? iot_store_write_binary (path.c_str (), (const uint8_t *) fresh.data (), fresh.size ()) : iot_file_write_binary (path.c_str (), (const uint8_t *) fresh.data (), fresh.size ());
    }
    else if (op == 1) { if (conf) r = (uint8_t *) iot_store_config_load (cn.c_str (), rel ? nullptr : base.c_str ()); else { haslen = true; r = api ? iot_store_read_binary (path.c_str (), &len) : iot_file_read_binary (path.c_str (), &len); } }
    else ok = conf ? iot_store_config_delete (cn.c_str (), rel ? nullptr : base.c_str ()) : api ? iot_store_delete (path.c_str ()) : iot_file_delete (path.c_str ());
    int n = vio::end (); if (at < 0) total = n; runs++; const char * why = vio::call ();
    std::string c; bool e = slurp (full, c);
    if (op == 0)
    {
      if (ok) CHECK (e && c == fresh, "write reports success%s%s, but the file does not have the new contents", *why ? " although a call failed: " : "", why);
      else { CHECK (vio::fired (), "write fails although no call failed"); CHECK ((e == exists && (!e || c == old)) || (e && c == old), "write reports failure (%s failed), but the previous contents are not there", why); }
    }
    else if (op == 1) { CHECK (e == exists && c == old, "reading changes the file"); expect_bytes ("read", r, len, haslen, exists ? &old : nullptr, vio::fired ()); }
    else { CHECK (ok == (exists && !e), "delete reports %d (%s failed), the file is %s", ok, *why ? why : "nothing", e ? "there" : "gone"); CHECK (e || ok || !exists, "file gone but reported otherwise"); if (!vio::fired ()) CHECK (!e, "file not deleted although no call failed"); }
    slurp (base + "/bystander", c); CHECK (c == "stays", "another file has been changed"); CHECK (lowfd () == fd0, "a file is left open after %s failed", why);
    if (at >= 0 && op == 0)     // and the next attempt, without a fault, works
    {
      vio::begin (nullptr, vio::Fault ()); ok = iot_file_write_binary (path.c_str (), (const uint8_t *) fresh.data (), fresh.size ()); vio::end (); CHECK (ok && slurp (full, c) && c == fresh, "a write after a failed one does not work");
      Files left; scan (base, "", left); CHECK (left.size () == 2, "a write after a failed one leaves further files");
    }
  }
  if (op == 0 && exists && total >= 3 && runs > 8) pbt::nontrivial (); pbt::label (OPS[op]);
}

// the store passes everything to the functions it was given, unchanged
TARGET (replaced_store, 60000, 2000000, pbt::LEAK)
{
  pbt::setrule ("at least one call of each of read, write and delete reached the given functions");
  mem.clear (); calls = 0; bool hr = s.draw (5) != 4, hw = s.draw (5) != 4, hd = s.draw (5) != 4; iot_store_config (hr ? mem_read : nullptr, hw ? mem_write : nullptr, hd ? mem_delete : nullptr); Files model; int seen = 0;
  for (size_t i = 0, n = 1 + s.draw (12); i < n; i++)
  {
    Span sp (s); std::string nm = NAMES[s.draw (17)]; int op = (int) s.draw (7); bool conf = op > 3; std::string cn = CONF[s.draw (8)]; bool uri = s.flag (); if (conf) nm = (uri ? std::string ("coll://x/") + cn : cn) + ".json"; const char * u = uri ? "coll://x" : nullptr; std::string c; bool ok; int before = calls;
    auto it = model.find (nm); bool refuse = nm.find ("xjson") != std::string::npos; vio::begin (nullptr, vio::Fault ());
    switch (op)
    {
      case 0: case 4: c = text (s); ok = conf ? iot_store_config_save (cn.c_str (), u, c.c_str ()) : iot_store_write (nm.c_str (), c.c_str ()); CHECK (ok == (hw && !refuse), "write through the given function reports %d", ok); if (ok) model[nm] = c; if (hw) seen |= 1; CHECK (calls == before + hw, "given function called %d times", calls - before); break;
      case 1: c = content (s); ok = iot_store_write_binary (nm.c_str (), (const uint8_t *) c.data (), c.size ()); CHECK (ok == (hw && !refuse), "write through the given function reports %d", ok); if (ok) model[nm] = c; if (hw) seen |= 1; break;
      case 2: case 5: { char * r = conf ? iot_store_config_load (cn.c_str (), u) : iot_store_read (nm.c_str ()); CHECK ((r != nullptr) == (hr && it != model.end ()), "read through the given function gives %s", r ? "something" : "nothing"); if (r) CHECK (memcmp (r, it->second.c_str (), it->second.size () + 1) == 0, "other bytes"); free (r); if (hr) seen |= 2; CHECK (calls == before + hr, "given function called %d times", calls - before); break; }
      case 3: ok = iot_store_delete (nm.c_str ()); goto DEL;
      default: ok = iot_store_config_delete (cn.c_str (), u);
      DEL: CHECK (ok == (hd && it != model.end ()), "delete through the given function reports %d", ok); if (ok) model.erase (nm); if (hd) seen |= 4; break;
    }
    int made = vio::end (); CHECK (made == 0, "a replaced store touches the file system"); CHECK (mem == model, "replaced store holds something else");
  }
  if (seen == 7) pbt::nontrivial ();
}

// names near the limits of the system
TARGET (long_paths, 600, 20000, pbt::LEAK)
{
  pbt::setrule ("the path is within ten characters of a limit");
  size_t mode = s.draw (2), total = mode ? 4070 + s.draw (40) : 0, last = 240 + s.draw (20); std::string dir = base, nm;
  if (mode) { while (dir.size () + 201 + 2 < total) { size_t room = total - dir.size () - 2, l = room > 420 ? 200 : room > 210 ? room - 200 : 0; if (!l) break; dir += "/" + std::string (l, 'd'); mkdir (dir.c_str (), 0700); } size_t room = total - dir.size () - 1; nm = std::string (std::max<size_t> (1, std::min<size_t> (room, 240)), 'f'); }
  else nm = std::string (last, 'g');
  std::string path = dir + "/" + nm, c = text (s); note ("path of %zu, name of %zu characters", path.size (), nm.size ());
  std::string old; bool exists = s.flag () && path.size () < 4096 && nm.size () < 256; if (exists) { spit (path, "old one"); } bool had = slurp (path, old);
  vio::begin (nullptr, vio::Fault ()); bool ok = s.flag () ? iot_store_write (path.c_str (), c.c_str ()) : iot_file_write (path.c_str (), c.c_str ()); char * r = iot_file_read (path.c_str ()); vio::end ();
  std::string now; bool e = slurp (path, now);
  CHECK (ok ? e && now == c : e == had && now == old, "write at a path of %zu characters (name %zu) reports %d, but the contents are %s", path.size (), nm.size (), ok, e ? pbt::quoted (now, 30).c_str () : "missing");
  CHECK (e ? r && now == r : !r, "read at a long path gives something else"); free (r); CHECK (ok || path.size () + 8 >= 4096 || nm.size () + 8 >= 256, "write fails at a path of %zu characters (name %zu)", path.size (), nm.size ());
  CHECK (lowfd () == fd0, "a file is left open"); if ((mode ? path.size () > 4085 : last > 245)) pbt::nontrivial (); wipe (base, false);
}
