// C27: several threads list, read, look up, delete, start and stop the components of a container that has no stored
// configuration: every answer is one that some moment of the call could give, and nothing is called after it was freed.
#include "vsched.h"
#include "iot/iot.h"
#include <algorithm>
#include <map>
#include <set>
#include <string.h>
using pbt::Src; using pbt::Span; using pbt::note;
typedef std::string str;

static const uint64_t NEVER = UINT64_MAX;
static uint64_t g_t; static uint64_t tick () { return ++g_t; }
struct Comp { iot_component_t base; str me; uint64_t del = NEVER, gone = NEVER; int starts = 0, stops = 0, runs = 0; bool dead = false; bool slow = false; std::vector<str> vals; };      // del: deletion began, gone: it ended
static std::vector<Comp *> all; static Comp * fresh; static std::vector<Comp *> startorder, stoporder; static int starter;
static Comp * of (iot_component_t * b, const char * what) { vs::Atomic a; for (auto c : all) if (&c->base == b) { CHECK (!c->dead, "%s called for component %s after it was freed", what, c->me.c_str ()); return c; } pbt::fail ("%s called for no component", what); }
static void m_start (iot_component_t * b) { Comp * c = of (b, "start"); { vs::Atomic a; c->starts++; startorder.push_back (c); } if (!c->slow) iot_component_set_running (b); vs::yield (); of (b, "start"); }
static void m_stop (iot_component_t * b) { Comp * c = of (b, "stop"); { vs::Atomic a; c->stops++; stoporder.push_back (c); } iot_component_set_stopped (b); vs::yield (); of (b, "stop"); }
static void m_running (iot_component_t * b, bool) { Comp * c = of (b, "running"); vs::Atomic a; c->runs++; }
static void m_free (iot_component_t * b) { Comp * c = of (b, "free"); vs::yield (); vs::Atomic a; CHECK (!c->dead, "component %s freed twice", c->me.c_str ()); CHECK (b->state == IOT_COMPONENT_STOPPED, "component %s freed in state %u", c->me.c_str (), (unsigned) b->state); c->dead = true; iot_component_fini (b); memset ((void *) b, 0xdd, sizeof *b); }
static bool m_rec (iot_component_t * b, iot_container_t *, const iot_data_t *) { of (b, "reconfig"); return true; }
extern const iot_component_factory_t * const FACT;
static iot_component_t * m_config (iot_container_t *, const iot_data_t * map)
{
  const char * me = iot_data_string_map_get_string (map, "Me"); CHECK (me, "configuration"); Comp * c = new Comp (); c->me = me; c->slow = iot_data_string_map_get (map, "Slow") != nullptr; memset ((void *) &c->base, 0, sizeof c->base);
  iot_component_init (&c->base, FACT, m_start, m_stop); iot_component_set_running_callback (&c->base, m_running); all.push_back (c); return &c->base;
}
static iot_component_factory_t F = { "CT", "K", m_config, m_free, m_rec, nullptr };
const iot_component_factory_t * const FACT = &F;

TARGET (threads, 150000, 6000000, pbt::LEAK)
{
  pbt::setrule ("at least two threads worked on the container, one of them deleted a component, and several context switches happened");
  g_t = 0; for (auto c : all) delete c; all.clear (); startorder.clear (); stoporder.clear ();
  iot_component_factory_add (&F); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  size_t n = 1 + s.draw (5); unsigned nt = 1 + (unsigned) s.draw (3); struct P { int k; size_t c; }; std::vector<std::vector<P>> prog; std::vector<std::vector<str>> confs; bool slow = false;
  std::vector<int> owner (n); std::vector<bool> isslow; for (size_t i = 0; i < n; i++) { owner[i] = (int) s.draw (nt); isslow.push_back (s.draw (6) == 5); }        // only its owner deletes or reconfigures a component
  for (unsigned t = 0; t < nt; t++) { std::vector<P> v; for (size_t i = 0, m = 1 + s.draw (4); i < m; i++) { Span sp (s); P p; p.k = (int) s.weighted ({ 4, 3, 3, 4, 2, 2, 2, 2 }); p.c = s.draw (n + 1); v.push_back (p); } prog.push_back (v); }
  bool dels = false, cat = s.flag (); int mode = (int) s.draw (3);
  vs::run (s, 0, [&] ()
  {
    iot_container_t * cont = iot_container_alloc ("threads"); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); CHECK (iot_container_get_config () == nullptr, "harness: configured");
    for (size_t i = 0; i < n; i++) { str nm = "k" + std::to_string (i); str j = "{\"Me\":\"" + nm + "\"" + (isslow[i] ? ",\"Slow\":1" : "") + ",\"Val\":0}"; iot_container_add_component (cont, "CT", nm.c_str (), j.c_str ()); CHECK (all.size () == i + 1, "component not added"); slow = slow || isslow[i]; }
    auto named = [&] (const char * nm) -> Comp * { for (auto c : all) if (nm && c->me == nm) return c; return nullptr; };
    auto nm = [&] (size_t i) { return i < n ? "k" + std::to_string (i) : str ("nobody"); };
    auto there = [&] (Comp * c, uint64_t b) { return c->gone >= b; };                      // may have been there at some moment after b
    auto judge = [&] (const iot_data_t * d, Comp * c) { const char * ty = iot_data_string_map_get_string (d, "type"), * st = iot_data_string_map_get_string (d, "state"), * ct = iot_data_string_map_get_string (d, "category"); CHECK (ty && !strcmp (ty, "CT") && ct && !strcmp (ct, "K"), "type of %s reported as %s", c->me.c_str (), ty ? ty : "(none)"); CHECK (st && (!strcmp (st, "Initial") || !strcmp (st, "Stopped") || !strcmp (st, "Running") || !strcmp (st, "Starting")), "state of %s reported as %s", c->me.c_str (), st ? st : "(none)"); CHECK (iot_data_string_map_get (d, "config"), "no configuration reported"); };
    std::vector<int> ids; int phase = 0; std::vector<Comp *> sure; // components nobody deletes
    std::set<size_t> deletable; for (unsigned t = 0; t < nt; t++) for (auto & p : prog[t]) if (p.k == 0 && p.c < n && owner[p.c] == (int) t) deletable.insert (p.c);
    for (size_t i = 0; i < n; i++) if (!deletable.count (i)) sure.push_back (all[i]);
    auto work = [&] (unsigned t)
    {
      for (auto & p : prog[t])
      {
        str k = nm (p.c); Comp * c = p.c < n ? all[p.c] : nullptr; bool mine = c && owner[p.c] == (int) t;
        switch (p.k)
        {
          case 0: if (c && !mine) break; { vs::Atomic a; if (c && c->del == NEVER) { c->del = tick (); dels = true; } note ("t%d delete %s", vs::self (), k.c_str ()); } iot_container_delete_component (cont, k.c_str ()); { vs::Atomic a; if (c) { CHECK (c->dead, "component %s not freed by its deletion", k.c_str ()); if (c->gone == NEVER) c->gone = tick (); } } break;
          case 1:
          {
            uint64_t b, e; { vs::Atomic a; b = tick (); } iot_data_t * l = iot_container_list_components (cont, cat ? "K" : nullptr); { vs::Atomic a; e = tick (); }
            std::set<Comp *> got; iot_data_list_iter_t it; iot_data_list_iter (l, &it); str last;
            while (iot_data_list_iter_next (&it)) { const iot_data_t * d = iot_data_list_iter_value (&it); const char * x = iot_data_string_map_get_string (d, "name"); Comp * y = named (x); CHECK (y && got.insert (y).second, "component %s listed", x ? x : "(none)"); CHECK (there (y, b), "deleted component %s listed", x); judge (d, y); }
            for (auto y : all) if (y->del > e) CHECK (got.count (y), "component %s not listed", y->me.c_str ());
            iot_data_free (l); note ("t%d list: %zu", vs::self (), got.size ()); break;
          }
          case 2:
          {
            uint64_t b, e; { vs::Atomic a; b = tick (); } iot_data_t * d = iot_container_component_read (cont, k.c_str ()); { vs::Atomic a; e = tick (); note ("t%d read %s: %s", vs::self (), k.c_str (), d ? "found" : "nothing"); }
            if (!d) CHECK (!c || c->del <= e, "component %s not found", k.c_str ()); else { CHECK (c && there (c, b), "component %s read although it does not exist", k.c_str ()); const char * x = iot_data_string_map_get_string (d, "name"); CHECK (x && k == x, "data of %s are those of %s", k.c_str (), x ? x : "(none)"); judge (d, c); } iot_data_free (d); break;
          }
          case 3:
          {
            uint64_t b, e; { vs::Atomic a; b = tick (); } iot_component_t * r = iot_container_find_component (cont, k.c_str ()); { vs::Atomic a; e = tick (); note ("t%d find %s: %s", vs::self (), k.c_str (), r ? "found" : "nothing"); }
            if (!r) CHECK (!c || c->del <= e, "component %s not found", k.c_str ()); else CHECK (c && r == &c->base && there (c, b), "look-up of %s returns another component", k.c_str ()); break;
          }
          case 4: if (mine && c->del == NEVER) { vs::yield (); iot_component_set_running (&c->base); } break;
          case 5: if (mine && c->del == NEVER) { iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "More", iot_data_alloc_i32 ((int) t)); CHECK (iot_component_reconfig (&c->base, cont, m), "reconfiguration refused"); CHECK (iot_data_string_map_get (c->base.config, "More"), "reconfiguration without effect"); iot_data_free (m); } break;
          case 6: { note ("t%d start", vs::self ()); std::vector<int> st; { vs::Atomic a; for (auto y : sure) st.push_back (y->starts); } iot_container_start (cont); vs::Atomic a; for (size_t i = 0; i < sure.size (); i++) CHECK (sure[i]->starts > st[i], "component %s not started", sure[i]->me.c_str ()); break; }
          default: { note ("t%d stop", vs::self ()); std::vector<int> st; { vs::Atomic a; for (auto y : sure) st.push_back (y->stops); } iot_container_stop (cont); vs::Atomic a; for (size_t i = 0; i < sure.size (); i++) CHECK (sure[i]->stops > st[i], "component %s not stopped", sure[i]->me.c_str ()); break; }
        }
      }
    };
    (void) phase; (void) mode;
    for (unsigned t = 0; t < nt; t++) ids.push_back (vs::spawn ([&, t] () { work (t); }, "client"));
    for (int x : ids) vs::join (x);
    size_t starts = 0, runs = 0; for (auto y : sure) { starts += (size_t) y->starts; runs += (size_t) y->runs; } CHECK (starts == runs, "%zu starts but %zu running callbacks", starts, runs);
    iot_container_free (cont); for (auto y : all) CHECK (y->dead, "component %s not freed with its container", y->me.c_str ());
    if (nt >= 2 && dels && vs::switches () > 8) pbt::nontrivial ();
  });
  for (auto c : all) delete c; all.clear (); startorder.clear (); stoporder.clear ();
}
