// C34: component factories loaded from libraries named in generated configurations, against a model of which library
// function is called, when, and which components exist afterwards.
#include "pbt.h"
#include "iot/iot.h"
#include <map>
#include <set>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
using pbt::Src; using pbt::Span; using pbt::note;
typedef std::string str;

struct Conf { int kind; str type, lib, fn; int copy, k; bool split; };        // kind 0: valid; 1: none; 2: cut; 3: not an object
struct World
{
  std::map<str, Conf> confs; std::vector<str> order; std::map<str, str> ftype[2]; iot_container_t * cont = nullptr;
  std::map<std::pair<int, int>, str> type; std::map<std::pair<int, int>, int> index; std::vector<str> calls; std::vector<str> created; std::map<str, iot_component_t *> live; std::map<str, str> by;
};
static World * W;
static unsigned used[2];            // pool entries of each library taken so far
static uint64_t serial;
static str exe () { static char b[4096]; if (!b[0]) { ssize_t n = readlink ("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; } return b; }
static str libname (int c) { return exe () + ".so" + std::to_string (c); }

extern "C" const char * vp_dyn_type (int copy, int k, int * index)
{
  W->calls.push_back (std::to_string (copy) + ":" + std::to_string (k)); note ("  factory function %d of library %d is called", k, copy);
  if (k < 0) return nullptr;
  auto key = std::make_pair (copy, k); CHECK (W->type.count (key), "harness: type"); *index = W->index[key]; return W->type[key].c_str ();
}
struct Comp { iot_component_t base; str name; };
static void start (iot_component_t * c) { iot_component_set_running (c); }
static void stop (iot_component_t * c) { iot_component_set_stopped (c); }
extern "C" iot_component_t * vp_dyn_config (int copy, int k, iot_container_t * cont, const iot_data_t * map)
{
  const char * me = iot_data_string_map_get_string (map, "Me"); CHECK (me, "component created without its own configuration"); CHECK (cont == W->cont, "created with another container");
  CHECK (!W->live.count (me), "component %s is created twice", me); note ("  %s is created by function %d of library %d", me, k, copy);
  Comp * c = new Comp (); c->name = me; const iot_component_factory_t * f = iot_component_factory_find (copy < 0 ? "Static" : W->type[{ copy, k }].c_str ());
  CHECK (f, "the factory that creates %s is not registered", me); iot_component_init (&c->base, f, start, stop); W->live[me] = &c->base; W->by[me] = std::to_string (copy) + ":" + std::to_string (k);
  return &c->base;
}
extern "C" void vp_dyn_free (iot_component_t * b) { Comp * c = (Comp *) b; CHECK (W->live.erase (c->name) == 1, "component %s is freed twice", c->name.c_str ()); iot_component_fini (b); delete c; }
static iot_component_t * static_config (iot_container_t * c, const iot_data_t * m) { return vp_dyn_config (-1, 0, c, m); }
static iot_component_factory_t STATIC = { "Static", "Dyn", static_config, vp_dyn_free, nullptr, nullptr };

static str text (const str & n, const Conf & c)
{
  str j = "{\"Me\":\"" + n + "\"";
  if (c.lib != "-") j += ",\"Library\":" + c.lib;
  if (c.fn != "-") j += ",\"Factory\":" + c.fn;
  j += "}"; if (c.kind == 2) j.resize (j.size () - 1); if (c.kind == 3) j = "[" + j + "]"; return j;
}
static char * load (const char * name, const char *)
{
  str n = name;
  if (n == "cont") { str j = "{"; for (auto & o : W->order) j += (j.size () > 1 ? ",\"" : "\"") + o + "\":" + (W->confs[o].type == "7" ? W->confs[o].type : "\"" + W->confs[o].type + "\""); return strdup ((j + "}").c_str ()); }
  auto i = W->confs.find (n); return i == W->confs.end () || i->second.kind == 1 ? nullptr : strdup (text (n, i->second).c_str ());
}
static iot_container_config_t CFG = { load, "uri", nullptr };

static void case_start ()
{
  static bool once = false;
  if (once) return; once = true;
  iot_component_factory_add (&STATIC); dlopen ("libvp_missing.so", RTLD_LAZY); dlerror ();
  setenv ("VP_C34_DIR", exe ().substr (0, exe ().rfind ('/')).c_str (), 1);
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
}
static struct Init { Init () { pbt::case_init = case_start; } } init_;

TARGET (load, 12000, 100000, 0)
{
  pbt::setrule ("a library was loaded and another component of the configuration could not be loaded or needed no loading");
  if (used[0] + 4 > 60000 || used[1] + 4 > 60000) return;
  World w; W = &w; serial++;
  // the types the library functions provide
  std::vector<str> types; unsigned nt = 1 + (unsigned) s.draw (3); for (unsigned i = 0; i < nt; i++) types.push_back ("T" + std::to_string (serial) + "_" + std::to_string (i));
  types.push_back ("Static");
  for (int c = 0; c < 2; c++) for (int k = 0; k < 3; k++) { w.type[{ c, k }] = types[s.draw (nt)]; w.index[{ c, k }] = (int) used[c] + k; note ("library %d function %d provides %s", c, k, w.type[{ c, k }].c_str ()); }
  used[0] += 3; used[1] += 3;
  unsigned n = 1 + (unsigned) s.draw (5);
  for (unsigned i = 0; i < n; i++)
  {
    Span sp (s); str name = str (1, "bca"[s.draw (3)]) + std::to_string (i); Conf c; c.kind = s.chance (1, 6) ? 1 + (int) s.draw (3) : 0;
    c.type = s.chance (1, 6) ? types.back () : s.chance (1, 8) ? str ("Unknown") : s.chance (1, 10) ? str ("7") : types[s.draw (nt)]; c.copy = (int) s.draw (2); c.k = (int) s.draw (3); bool ok = true;
    // half of the functions named provide the type that is asked for
    if (s.flag ()) for (int a = 0; a < 6; a++) { int q = (c.copy * 3 + c.k + a) % 6; if (w.type[{ q / 3, q % 3 }] == c.type) { c.copy = q / 3; c.k = q % 3; break; } }
    str base = exe ().substr (exe ().rfind ('/')) + ".so" + std::to_string (c.copy);
    switch (s.weighted ({ 12, 3, 2, 2, 1, 1 }))
    {
      case 0: c.lib = "\"" + libname (c.copy) + "\""; break;
      case 1: c.lib = "\"${VP_C34_DIR}" + base + "\""; break;
      case 2: c.lib = s.flag () ? "\"libvp_missing.so\"" : "\"" + libname (c.copy) + "x\""; ok = false; break;
      case 3: c.lib = "-"; ok = false; break;
      case 4: c.lib = s.flag () ? "7" : "[\"" + libname (c.copy) + "\"]"; ok = false; break;
      default: c.lib = "\"libm.so.6\""; ok = false; break;
    }
    switch (s.weighted ({ 14, 2, 2, 1, 1 }))
    {
      case 0: c.fn = "\"make_" + std::to_string (c.k) + "\""; break;
      case 1: c.fn = s.flag () ? "\"make_9\"" : s.flag () ? "\"make\"" : "\"\""; ok = false; break;
      case 2: c.fn = "-"; ok = false; break;
      case 3: c.fn = "true"; ok = false; break;
      default: c.fn = "\"make_null\""; c.k = -1; break;
    }
    if (!ok) c.k = -2;
    w.confs[name] = c; w.order.push_back (name); note ("component %s type %s configuration%s", name.c_str (), c.type.c_str (), c.kind == 1 ? ": none" : (" " + text (name, c)).c_str ());
  }
  iot_container_config (&CFG); unsigned rounds = 1 + (unsigned) s.draw (3); std::set<str> known = { "Static" }; bool loaded = false, other = false;
  for (unsigned r = 0; r < rounds; r++)
  {
    note ("container %u", r); w.calls.clear (); w.cont = iot_container_alloc ("cont");
    // model: components in order of their names
    std::vector<str> expect;
    for (auto & o : w.confs)
    {
      const Conf & c = o.second; if (known.count (c.type) || c.type == "7") { other = true; continue; }
      if (c.kind || c.k == -2) { other = true; continue; }
      expect.push_back (std::to_string (c.copy) + ":" + std::to_string (c.k)); if (c.k == -1) { pbt::label ("function returns no factory"); other = true; continue; }
      loaded = true; const str & t = w.type[{ c.copy, c.k }]; pbt::label (t == c.type ? "library provides the type" : "library provides another type"); if (known.insert (t).second) w.ftype[0][t] = expect.back ();
    }
    CHECK (iot_container_init (w.cont), "initialisation of a valid container fails");
    CHECK (w.calls == expect, "the library functions called are %s, expected %s", [&] { str x; for (auto & q : w.calls) x += q + " "; return x; } ().c_str (), [&] { str x; for (auto & q : expect) x += q + " "; return x; } ().c_str ());
    for (auto & t : types) CHECK ((iot_component_factory_find (t.c_str ()) != nullptr) == (known.count (t) > 0), "component type %s is %s", t.c_str (), known.count (t) ? "not known although it was loaded" : "known although it was not loaded");
    CHECK (!iot_component_factory_find ("Unknown"), "an unknown type is known");
    unsigned live = 0;
    for (auto & o : w.confs)
    {
      bool want = known.count (o.second.type) && o.second.kind == 0; live += want;
      iot_component_t * c = iot_container_find_component (w.cont, o.first.c_str ());
      CHECK ((c != nullptr) == want, "component %s of type %s is %s", o.first.c_str (), o.second.type.c_str (), want ? "absent" : "present");
      if (!c) continue;
      CHECK (c == w.live[o.first] && o.first == c->name, "component %s is another one", o.first.c_str ());
      str by = o.second.type == "Static" ? "-1:0" : w.ftype[0][o.second.type]; CHECK (w.by[o.first] == by, "component %s is created by %s, expected %s", o.first.c_str (), w.by[o.first].c_str (), by.c_str ());
    }
    CHECK (w.live.size () == live, "%zu components, expected %u", w.live.size (), live);
    CHECK (w.calls == expect, "library functions are called by look-up");
    if (s.flag ()) { iot_container_start (w.cont); iot_container_stop (w.cont); }
    iot_container_free (w.cont); CHECK (w.live.empty (), "a component is not freed with its container");
  }
  pbt::label_if (rounds > 1, "several containers"); if (loaded && other) pbt::nontrivial ();
  W = nullptr;
}
