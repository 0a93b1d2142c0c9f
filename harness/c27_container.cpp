// C27: containers of mock components over generated configurations and histories, judged by a model that follows what
// the components themselves observe.
#include "vsched.h"
#include "iot/iot.h"
#include <algorithm>
#include <map>
#include <set>
#include <string.h>
using pbt::Src; using pbt::Span; using pbt::note;
typedef std::string str;

struct Conf { int kind = 0; std::vector<str> deps; bool need = false, fail = false; int start = 0; bool stop = true; int cbs = 0; bool env = false; str val; bool byname = false; };
// kind 0: valid; 1: no configuration; 2: cut JSON; 3: JSON that is not an object; 4: bad substitution
// start 0: runs at once; 1..3: runs after a while; 4: starting for ever; 5: state left alone; 6: runs too late
static const unsigned DELAY[] = { 0, 100, 1100, 3000, 0, 0, 60000 };

struct Comp { iot_component_t base; str me; Conf c; int type; int fiber; bool dead; unsigned stops; };
struct World
{
  iot_container_t * cont = nullptr; std::map<str, str> types; std::map<str, str> plain; bool ccok = true;       // container configuration: name -> JSON text of the type
  std::map<str, Conf> confs; std::map<str, str> saved;            // saved: text stored by reconfiguration
  std::vector<Comp *> live; std::vector<str> stack; std::vector<str> calls; std::vector<std::pair<Comp *, str>> events;
  std::map<str, int> created, attempts; bool savable = false; unsigned saves = 0; str savetext; bool cycle = false, missing = false; const char * uri = nullptr;
  bool threaded = false;
};
static World * W;
static bool valid_type (const str & t) { return t == "T0" || t == "T1" || t == "T2"; }
static str json_of (const str & name, const Conf & c, bool subst)
{
  str j = "{\"Me\":\"" + name + "\",\"Val\":\"" + c.val + "\",\"Deps\":[";
  for (size_t i = 0; i < c.deps.size (); i++) j += (i ? ",\"" : "\"") + c.deps[i] + "\"";
  j += "]"; if (c.byname && c.deps.size ()) j += ",\"Dep\":\"" + c.deps[0] + "\"";
  if (c.env) j += subst ? ",\"Env\":\"<val>x\"" : ",\"Env\":\"<${VP_C27}>x\"";
  return j + "}";
}
static str env_text (const str & name, const Conf & c) { str j = json_of (name, c, false); size_t p = j.find ("${VP_C27}"); if (p != str::npos) j.replace (p, 9, "val"); return j; }
static str conf_text (const str & name, const Conf & c, bool & null)
{
  null = c.kind == 1; str j = json_of (name, c, false);
  if (c.kind == 2) j.resize (j.size () / 2); if (c.kind == 3) j = "[1,2]"; if (c.kind == 4) j.insert (1, "\"a\":\"${}\",");
  return j;
}
static char * load (const char * name, const char * uri)
{
  CHECK (uri == W->uri, "the configuration is loaded with another URI"); CHECK (name, "configuration of no name loaded");
  str n = name;
  if (n == "cont")
  {
    if (!W->ccok) return nullptr;
    str j = "{"; for (auto & t : W->types) j += (j.size () > 1 ? "," : "") + ("\"" + t.first + "\":" + t.second); return strdup ((j + "}").c_str ());
  }
  if (W->saved.count (n)) return strdup (W->saved[n].c_str ());
  if (!W->confs.count (n)) return nullptr;
  bool null; str j = conf_text (n, W->confs[n], null); return null ? nullptr : strdup (j.c_str ());
}
static bool save (const char * name, const char * uri, const char * text) { CHECK (uri == W->uri, "the configuration is saved with another URI"); W->saves++; W->savetext = str (name) + "=" + text; W->saved[name] = text; return true; }

static Comp * find_live (const str & n) { for (auto c : W->live) if (c->me == n) return c; return nullptr; }
static bool on_stack (const str & n) { return std::find (W->stack.begin (), W->stack.end (), n) != W->stack.end (); }
static bool creatable (const str & n) { if (!W->ccok) return false; auto t = W->types.find (n); return t != W->types.end () && t->second.size () > 2 && t->second[0] == '"' && valid_type (t->second.substr (1, t->second.size () - 2)) && W->confs.count (n) && (W->confs[n].kind == 0 || W->saved.count (n)); }

// look a component up and judge the answer
static Comp * look (const str & n, const iot_data_t * map = nullptr)
{
  Comp * before = find_live (n); bool busy = on_stack (n), can = creatable (n); int a = W->attempts[n], cr = W->created[n];
  iot_component_t * r = map ? iot_config_component (map, "Dep", W->cont, nullptr) : iot_container_find_component (W->cont, n.c_str ());
  int da = W->attempts[n] - a, dc = W->created[n] - cr; note ("%*slook-up of %s -> %s", (int) W->stack.size () * 2, "", n.c_str (), r ? ((Comp *) r)->me.c_str () : "nothing");
  if (before) { CHECK (r == &before->base, "look-up of %s returns %s", n.c_str (), r ? "another component" : "nothing"); CHECK (!da, "look-up of the existing component %s creates it again", n.c_str ()); return before; }
  if (busy) { W->cycle = true; CHECK (!r && !da, "look-up of %s while it is being created %s", n.c_str (), r ? "returns a component" : "creates it again"); return nullptr; }
  if (!can) { W->missing = true; CHECK (!r && !da, "look-up of %s, which cannot be created, %s", n.c_str (), r ? "returns a component" : "creates something"); return nullptr; }
  CHECK (da == 1, "look-up of %s makes %d attempts to create it", n.c_str (), da);
  if (dc) { CHECK (r && r == (iot_component_t *) find_live (n), "look-up of %s created it but returns %s", n.c_str (), r ? "another component" : "nothing"); return (Comp *) r; }
  CHECK (!r, "look-up of %s, whose creation failed, returns a component", n.c_str ()); return nullptr;
}

static Comp * of (iot_component_t * c) { Comp * r = (Comp *) c; CHECK (std::find (W->live.begin (), W->live.end (), r) != W->live.end (), "callback for a component that is not in the container"); return r; }
static void ev (Comp * c, const char * k) { vs::Atomic a; note ("    %s %s", k, c->me.c_str ()); W->events.push_back ({ c, k }); }
static void m_starting (iot_component_t * c) { ev (of (c), "starting"); }
static void m_stopping (iot_component_t * c) { ev (of (c), "stopping"); }
static void m_running (iot_component_t * c, bool timeout) { ev (of (c), timeout ? "timeout" : "running"); }
static void m_start (iot_component_t * b)
{
  Comp * c = of (b); ev (c, "start");
  switch (c->c.start)
  {
    case 0: iot_component_set_running (b); break;
    case 1: case 2: case 3: case 6: { unsigned d = DELAY[c->c.start]; iot_component_set_starting (b); c->fiber = vs::spawn ([b, d] () { vs::sleep_ns (d * 1000000ull); iot_component_set_running (b); }, "late"); break; }
    case 4: iot_component_set_starting (b); break;
    default: break;
  }
}
static void settle (Comp * c) { if (c->fiber) { int f = c->fiber; c->fiber = 0; vs::join (f); } }
static void m_stop (iot_component_t * b) { Comp * c = of (b); ev (c, "stop"); c->stops++; if (c->c.stop) iot_component_set_stopped (b); }
static void m_free (iot_component_t * b)
{
  Comp * c = of (b); ev (c, "free"); CHECK (!c->dead, "component %s freed twice", c->me.c_str ()); CHECK (c->fiber == 0, "harness: fiber");
  CHECK (b->name && c->me == b->name, "component %s is named %s when freed", c->me.c_str (), b->name);
  c->dead = true; W->live.erase (std::find (W->live.begin (), W->live.end (), c)); iot_component_fini (b); delete c;
}
extern const iot_component_factory_t * const FACT[3];
static iot_component_t * m_config (int type, iot_container_t * cont, const iot_data_t * map)
{
  CHECK (cont == W->cont, "component created with another container"); CHECK (iot_data_type (map) == IOT_DATA_MAP, "component created without configuration");
  const char * me = iot_data_string_map_get_string (map, "Me"); CHECK (me, "component created with a configuration that is not its own"); str n = me;
  CHECK (W->confs.count (n) && !find_live (n), "component %s created although it %s", me, find_live (n) ? "exists" : "is not configured");
  Conf c = W->confs[n]; str expect = W->saved.count (n) && n[0] == 'c' ? W->saved[n] : env_text (n, c); iot_data_t * d = iot_data_from_json (expect.c_str ());
  CHECK (iot_data_equal (d, map), "configuration of %s is not the stored one", me); iot_data_free (d);
  str tn = "T" + std::to_string (type); if (n[0] == 'c') CHECK (creatable (n) && W->types[n] == "\"" + tn + "\"", "component %s created by factory %s", me, tn.c_str ());
  CHECK (!on_stack (n), "component %s created while it is being created", me); W->attempts[n]++; note ("%*s%s is created (%s)", (int) W->stack.size () * 2, "", me, tn.c_str ());
  W->stack.push_back (n); bool all = true;
  int total = 0; for (auto & x : W->attempts) total += x.second; if (total > 60) c.deps.clear ();      // failing components are tried again by every look-up: keep cases small
  for (size_t i = 0; i < c.deps.size (); i++) if (!look (c.deps[i], c.byname && i == 0 ? map : nullptr)) all = false;
  W->stack.pop_back ();
  if (c.fail || (c.need && !all)) { note ("%*s%s fails", (int) W->stack.size () * 2, "", me); return nullptr; }
  Comp * r = new Comp (); memset ((void *) &r->base, 0, sizeof r->base); r->me = n; r->c = c; r->type = type; r->fiber = 0; r->dead = false; r->stops = 0;
  iot_component_init (&r->base, FACT[type], m_start, m_stop);
  if (c.cbs & 1) iot_component_set_starting_callback (&r->base, m_starting);
  if (c.cbs & 2) iot_component_set_running_callback (&r->base, m_running);
  if (c.cbs & 4) iot_component_set_stopping_callback (&r->base, m_stopping);
  CHECK (!find_live (n), "component %s is created twice", me);
  W->live.push_back (r); W->created[n]++; return &r->base;
}
static iot_component_t * cfg0 (iot_container_t * c, const iot_data_t * m) { return m_config (0, c, m); }
static iot_component_t * cfg1 (iot_container_t * c, const iot_data_t * m) { return m_config (1, c, m); }
static iot_component_t * cfg2 (iot_container_t * c, const iot_data_t * m) { return m_config (2, c, m); }
static iot_component_t * cfgx (iot_container_t *, const iot_data_t *) { pbt::fail ("a factory that was refused creates a component"); }
static bool rec (iot_component_t * c, iot_container_t * cont, const iot_data_t * m) { Comp * k = of (c); CHECK (cont == W->cont, "reconfigured with another container"); ev (k, "reconfig"); return iot_data_string_map_get (m, "Refuse") == nullptr; }
static iot_component_factory_t F0 = { "T0", "A", cfg0, m_free, rec, nullptr }, F1 = { "T1", "B", cfg1, m_free, rec, nullptr }, F2 = { "T2", nullptr, cfg2, m_free, nullptr, nullptr };
static iot_component_factory_t X0 = { "T0", "X", cfgx, m_free, nullptr, nullptr }, X2 = { "T2", "X", cfgx, m_free, nullptr, nullptr };
const iot_component_factory_t * const FACT[3] = { &F0, &F1, &F2 };
static const char * CAT[3] = { "A", "B", nullptr };

static void factories ()
{
  for (auto f : FACT) iot_component_factory_add (f);
  for (auto f : FACT) CHECK (iot_component_factory_find (f->type) == f, "factory %s is not found", f->type);
}
static void judge_read (const iot_data_t * d, const str & name, int type, const str & state)
{
  auto get = [&] (const char * k) { const char * v = iot_data_string_map_get_string (d, k); return str (v ? v : "(none)"); };
  CHECK (iot_data_type (d) == IOT_DATA_MAP, "no data for %s", name.c_str ()); CHECK (get ("name") == name, "component %s is reported with the name %s", name.c_str (), get ("name").c_str ());
  CHECK (get ("type") == "T" + std::to_string (type), "component %s is reported with type %s", name.c_str (), get ("type").c_str ());
  CHECK (get ("state") == state, "component %s in state %s is reported in state %s", name.c_str (), state.c_str (), get ("state").c_str ());
  CHECK (get ("category") == (CAT[type] ? CAT[type] : "(none)"), "component %s is reported in category %s", name.c_str (), get ("category").c_str ());
}
static str state_of (Comp * c) { switch ((unsigned) c->base.state) { case 0: return "Initial"; case 1: return "Stopped"; case 2: return "Running"; case 4: return "Deleted"; case 8: return "Starting"; } return "?"; }
static void judge_order (const std::vector<std::pair<Comp *, str>> & want, const char * what)   // callbacks of one phase may come in any order, starts and stops not
{
  auto norm = [] (std::vector<std::pair<Comp *, str>> v) { for (size_t i = 0; i < v.size (); ) { size_t j = i; while (j < v.size () && v[j].second == v[i].second) j++; const str & k = v[i].second; if (k != "start" && k != "stop" && k != "free") std::sort (v.begin () + (long) i, v.begin () + (long) j); i = j; } return v; };
  auto a = norm (want), b = norm (W->events); if (a == b) return;
  str x, y; for (auto & p : want) x += " " + p.second + ":" + p.first->me; for (auto & p : W->events) y += " " + p.second; pbt::fail ("%s made the calls%s, expected%s", what, y.c_str (), x.c_str ());
}

static Conf gen_conf (Src & s, const std::vector<str> & names, size_t self)
{
  Conf c; Span sp (s); c.kind = s.draw (6) == 5 ? 1 + (int) s.draw (4) : 0;
  size_t n = s.draw (4); for (size_t i = 0; i < n; i++) { if (names.empty ()) { c.deps.push_back ("nobody"); continue; } size_t k = s.draw (4) == 3 ? s.draw (names.size ()) : self + 1 + s.draw (names.size ()); c.deps.push_back (k < names.size () ? names[k] : k % 3 ? names[k % names.size ()] : "nobody"); }
  c.need = s.draw (4) == 3; c.fail = s.draw (8) == 7; c.start = (int) s.weighted ({ 8, 2, 1, 1, 1, 1, 1 }); c.stop = s.draw (5) != 4; c.cbs = (int) s.draw (8); c.env = s.draw (3) == 2; c.byname = s.draw (3) == 2; c.val = std::to_string (s.draw (1000)); return c;
}
static str gen_type (Src & s) { switch (s.weighted ({ 6, 4, 3, 1, 1 })) { case 0: return "\"T0\""; case 1: return "\"T1\""; case 2: return "\"T2\""; case 3: { static const char * O[] = { "\"Missing\"", "\"\"", "\"T\"", "\"T0x\"", "\"t0\"", "\"T22\"" }; return O[s.draw (6)]; } default: { static const char * O[] = { "42", "null", "{\"a\":1}", "true" }; return O[s.draw (4)]; } } }

TARGET (history, 250000, 8000000, pbt::LEAK)
{
  pbt::setrule ("at least three components were created, one of them by a look-up, and the container was started or a component deleted");
  World w; W = &w; static const std::vector<str> NAMES = { "c0", "c1", "c2", "c3", "c4", "c5" };
  setenv ("VP_C27", "val", 1); factories (); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  size_t n = s.draw (7); std::vector<str> names (NAMES.begin (), NAMES.begin () + (long) n);
  if (s.flag ()) for (size_t i = 0; i + 1 < n; i++) std::swap (names[i], names[i + s.draw (n - i)]);
  for (size_t i = 0; i < n; i++) { Span sp (s); if (s.draw (8) != 7) w.confs[names[i]] = gen_conf (s, names, i); if (s.draw (8) != 7) w.types[names[i]] = gen_type (s); }
  w.ccok = s.draw (20) != 19; w.savable = s.flag (); w.uri = s.flag () ? "uri:x" : nullptr;
  iot_container_config_t cc = { load, w.uri, w.savable ? save : nullptr };
  std::vector<std::pair<iot_data_t *, std::pair<str, std::pair<int, str>>>> kept; bool bylook = false, started = false, deleted = false; size_t peak = 0;
  for (auto & t : w.types) note ("%s: type %s, configuration %s", t.first.c_str (), t.second.c_str (), w.confs.count (t.first) ? (std::to_string (w.confs[t.first].kind) + json_of (t.first, w.confs[t.first], false)).c_str () : "none");
  size_t nops = 1 + s.draw (12);
  vs::run (s, vs::NO_LATE | vs::NO_SPURIOUS, [&] ()
  {
    iot_container_config (&cc); CHECK (iot_container_get_config () == &cc, "configuration is not the one that was set");
    w.cont = iot_container_alloc ("cont"); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
    auto some = [&] () { size_t k = s.draw (9); if (k < 6) return n ? names[k % n] : str ("c0"); return k == 6 ? str ("nobody") : "x" + std::to_string (k - 7); };
    for (size_t op = 0; op < nops; op++)
    {
      Span sp (s); for (auto c : w.live) settle (c);
      w.events.clear (); size_t before = w.live.size ();
      switch (op == 0 && s.draw (6) != 5 ? 0 : s.weighted ({ 3, 5, 4, 4, 4, 3, 2, 3, 3, 3, 3, 1 }))
      {
        case 0:
        {
          note ("init"); std::map<str, int> att = w.attempts; bool r = iot_container_init (w.cont); CHECK (r == w.ccok, "init of a %s configuration reports %d", w.ccok ? "valid" : "missing", r);
          for (auto & t : w.types) if (creatable (t.first)) CHECK (find_live (t.first) || w.attempts[t.first] > att[t.first], "component %s is not created by init", t.first.c_str ());
          for (auto & t : w.types) if (find_live (t.first) && w.confs[t.first].deps.size ()) for (auto & d : w.confs[t.first].deps) if (find_live (d) && w.created[d] == 1 && w.created[t.first] == 1) bylook = true;
          break;
        }
        case 1:
        {
          note ("start"); started = started || w.live.size (); iot_container_start (w.cont);
          bool timeout = false; std::vector<std::pair<Comp *, str>> want;
          for (auto c : w.live) if (c->c.cbs & 1) want.push_back ({ c, "starting" });
          for (auto c : w.live) want.push_back ({ c, "start" });
          for (auto c : w.live) { bool soon = c->c.start >= 1 && c->c.start <= 3 && c->base.state != IOT_COMPONENT_DELETED; if (soon) CHECK (timeout || c->base.state == IOT_COMPONENT_RUNNING, "the container does not wait for %s to run", c->me.c_str ()); else if (c->base.state != IOT_COMPONENT_RUNNING) timeout = true; }
          for (auto c : w.live) { bool soon = c->c.start >= 1 && c->c.start <= 3 && c->base.state != IOT_COMPONENT_DELETED; if (soon) CHECK (c->base.state == IOT_COMPONENT_RUNNING, "the container does not wait for %s to run", c->me.c_str ()); }
          if (timeout) pbt::label ("start times out");
          for (auto c : w.live) if (c->c.cbs & 2) want.push_back ({ c, timeout ? "timeout" : "running" });
          judge_order (want, "start"); break;
        }
        case 2:
        {
          note ("stop"); iot_container_stop (w.cont); std::vector<std::pair<Comp *, str>> want;
          for (size_t i = w.live.size (); i-- > 0; ) if (w.live[i]->c.cbs & 4) want.push_back ({ w.live[i], "stopping" });
          for (size_t i = w.live.size (); i-- > 0; ) want.push_back ({ w.live[i], "stop" });
          judge_order (want, "stop"); break;
        }
        case 3: { str k = some (); note ("find %s", k.c_str ()); Comp * b = find_live (k); if (look (k) && !b) { bylook = true; pbt::label ("created by find"); } break; }
        case 4:
        {
          str k = some (); Comp * c = find_live (k); note ("delete %s", k.c_str ()); bool stop = c && c->base.state != IOT_COMPONENT_STOPPED; std::vector<Comp *> rest; for (auto x : w.live) if (x != c) rest.push_back (x);
          iot_container_delete_component (w.cont, k.c_str ()); CHECK (w.live == rest, "deleting %s left other components than expected", k.c_str ());
          std::vector<std::pair<Comp *, str>> want; if (stop) want.push_back ({ c, "stop" }); if (c) { want.push_back ({ c, "free" }); deleted = true; }
          CHECK (w.events == want, "deleting %s made %zu calls, expected %zu", k.c_str (), w.events.size (), want.size ()); break;
        }
        case 5:
        {
          str k = "x" + std::to_string (s.draw (2)); if (find_live (k)) break;
          Conf c = gen_conf (s, names, 0); str t = gen_type (s); if (t[0] != '"') t = "\"T0\""; t = t.substr (1, t.size () - 2); if (c.kind == 1) c.kind = 2;
          w.saved.erase (k); w.confs[k] = c; bool null; str j = conf_text (k, c, null); note ("add %s: %s %s", k.c_str (), t.c_str (), j.c_str ()); int a = w.attempts[k], cr = w.created[k];
          iot_container_add_component (w.cont, t.c_str (), k.c_str (), j.c_str ()); bool can = valid_type (t) && c.kind == 0;
          CHECK (w.attempts[k] - a == (can ? 1 : 0), "adding %s makes %d attempts to create it", k.c_str (), w.attempts[k] - a); Comp * r = find_live (k);
          CHECK ((r != nullptr) == (w.created[k] > cr), "harness: created"); if (r) CHECK (r->type == t[1] - '0' && w.live.back () == r, "component %s created by another factory", k.c_str ());
          break;
        }
        case 6:
        {
          static const char * C[] = { nullptr, "A", "B", "X" }; const char * cat = C[s.draw (4)]; note ("list %s", cat ? cat : "all"); iot_data_t * l = iot_container_list_components (w.cont, cat); CHECK (iot_data_type (l) == IOT_DATA_LIST, "no list");
          std::vector<Comp *> want; for (auto c : w.live) if (!cat || (CAT[c->type] && !strcmp (cat, CAT[c->type]))) want.push_back (c);
          CHECK (iot_data_list_length (l) == want.size (), "%u components listed in category %s, not %zu", iot_data_list_length (l), cat ? cat : "(all)", want.size ());
          std::set<str> seen; iot_data_list_iter_t it; iot_data_list_iter (l, &it); while (iot_data_list_iter_next (&it)) { const iot_data_t * d = iot_data_list_iter_value (&it); const char * nm = iot_data_string_map_get_string (d, "name"); Comp * c = nm ? find_live (nm) : nullptr; CHECK (c && std::find (want.begin (), want.end (), c) != want.end () && seen.insert (nm).second, "component %s listed", nm ? nm : "(none)"); judge_read (d, c->me, c->type, state_of (c)); CHECK (iot_data_equal (iot_data_string_map_get (d, "config"), c->base.config), "configuration of %s", nm); }
          iot_data_free (l); break;
        }
        case 7:
        {
          str k = some (); Comp * c = find_live (k); note ("read %s", k.c_str ()); iot_data_t * d = iot_container_component_read (w.cont, k.c_str ()); CHECK ((d != nullptr) == (c != nullptr), "data of %s %s", k.c_str (), d ? "although it does not exist" : "missing");
          CHECK (w.live.size () == before, "reading creates components"); if (c) { judge_read (d, k, c->type, state_of (c)); CHECK (iot_data_equal (iot_data_string_map_get (d, "config"), c->base.config), "configuration of %s", k.c_str ()); kept.push_back ({ d, { k, { c->type, state_of (c) } } }); }
          break;
        }
        case 8:
        {
          str k = some (); Comp * c = find_live (k); if (!c) break;
          iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING), * old = iot_data_copy (c->base.config); size_t nk = s.draw (4); for (size_t i = 0; i < nk; i++) { static const char * KEYS[] = { "Val", "New", "Other" }; const char * key = KEYS[s.draw (3)]; iot_data_string_map_add (m, key, iot_data_alloc_i64 ((int64_t) s.draw (100))); }
          bool refuse = s.draw (4) == 3; if (refuse) iot_data_string_map_add (m, "Refuse", iot_data_alloc_bool (true)); str mj; { char * j = iot_data_to_json (m); mj = j; free (j); } note ("reconfigure %s with %s", k.c_str (), mj.c_str ());
          unsigned sv = w.saves; bool r = iot_component_reconfig (&c->base, w.cont, m);
          if (c->type < 2) { CHECK (r == !refuse, "reconfiguration reports %d", r); CHECK (w.events.size () == 1 && w.events[0].first == c && w.events[0].second == "reconfig", "component asked %zu times", w.events.size ()); } else CHECK (w.events.empty (), "reconfiguration calls");
          iot_data_t * want = iot_data_copy (old); if (r) { iot_data_map_iter_t it; iot_data_map_iter (m, &it); while (iot_data_map_iter_next (&it)) iot_data_map_add (want, iot_data_add_ref (iot_data_map_iter_key (&it)), iot_data_add_ref (iot_data_map_iter_value (&it))); }
          CHECK (iot_data_equal (want, c->base.config), "configuration of %s after it %s the reconfiguration", k.c_str (), r ? "took" : "refused"); CHECK (w.saves - sv == (r && w.savable ? 1u : 0u), "configuration saved %u times", w.saves - sv);
          if (r && w.savable) { CHECK (w.savetext.compare (0, k.size () + 1, k + "=") == 0, "configuration of %s saved for %s", k.c_str (), w.savetext.c_str ()); iot_data_t * b = iot_data_from_json (w.savetext.c_str () + k.size () + 1); CHECK (b && iot_data_equal (b, want), "saved configuration %s", w.savetext.c_str ()); iot_data_free (b); if (k[0] == 'c') w.confs[k] = c->c; pbt::label ("reconfigured and saved"); }
          else if (r && !w.savable && c->me[0] == 'c') { /* not stored: a new component would start from the stored one */ }
          iot_data_free (want); iot_data_free (old); iot_data_free (m); break;
        }
        case 9: { if (!n) break; str k = names[s.draw (n)]; note ("new configuration of %s", k.c_str ()); if (s.flag ()) w.types[k] = gen_type (s); else { w.saved.erase (k); w.confs[k] = gen_conf (s, names, 0); } break; }
        case 10: { str k = some (); Comp * c = find_live (k); if (!c) break; unsigned st = (unsigned) s.draw (4); note ("set state %u of %s", st, k.c_str ()); if (st == 0) iot_component_set_running (&c->base); else if (st == 1) iot_component_set_stopped (&c->base); else if (st == 2) iot_component_set_starting (&c->base); else if (s.flag ()) iot_component_set_deleted (&c->base); break; }
        default: note ("add factories again"); iot_component_factory_add (&F1); iot_component_factory_add (s.flag () ? &X0 : &X2); iot_component_factory_add (&F0); factories (); CHECK (iot_component_factory_find ("Missing") == nullptr, "unknown factory found"); break;
      }
      peak = std::max (peak, w.live.size ()); CHECK (w.stack.empty (), "harness: stack");
      for (auto c : w.live) { CHECK (c->base.name && c->me == c->base.name, "component %s is named %s", c->me.c_str (), c->base.name); CHECK (c->base.factory == FACT[c->type], "factory of %s", c->me.c_str ()); }
    }
    for (auto c : w.live) settle (c); w.events.clear (); note ("free the container");
    std::map<Comp *, std::pair<str, str>> want; for (auto c : w.live) want[c] = { c->me, c->base.state != IOT_COMPONENT_STOPPED ? "stop free " : "free " };
    iot_container_free (w.cont); CHECK (w.live.empty (), "%zu components not freed", w.live.size ());
    for (auto & x : want) { str got; for (auto & e : w.events) if (e.first == x.first) got += e.second + " "; CHECK (got == x.second.second, "freeing made the calls %sfor %s, expected %s", got.c_str (), x.second.first.c_str (), x.second.second.c_str ()); }
    for (auto & k : kept) { judge_read (k.first, k.second.first, k.second.second.first, k.second.second.second); iot_data_free (k.first); }
  });
  pbt::label_if (w.cycle, "cycle"); pbt::label_if (w.missing, "unknown dependency");
  if (peak >= 3 && bylook && (started || deleted)) pbt::nontrivial ();
  W = nullptr;
}

// many components: chains of dependencies, then deletions, additions, starts and stops
static std::vector<str> l_order; static std::map<str, str> l_conf; static std::map<str, iot_component_t *> l_live; static std::vector<str> l_calls; static str l_types;
struct LComp { iot_component_t base; str me; };
static iot_component_t * l_config (iot_container_t * cont, const iot_data_t * map);
static void l_ev (iot_component_t * b, const char * k) { LComp * c = (LComp *) b; l_calls.push_back (str (k) + c->me); }
static void l_start (iot_component_t * b) { l_ev (b, "start "); iot_component_set_running (b); }
static void l_stop (iot_component_t * b) { l_ev (b, "stop "); iot_component_set_stopped (b); }
static void l_free (iot_component_t * b) { LComp * c = (LComp *) b; CHECK (l_live.count (c->me) && l_live[c->me] == b, "component %s freed twice", c->me.c_str ()); l_ev (b, "free "); l_live.erase (c->me); iot_component_fini (b); delete c; }
static iot_component_factory_t L = { "L", "L", l_config, l_free, nullptr, nullptr };
static iot_component_t * l_config (iot_container_t * cont, const iot_data_t * map)
{
  const char * me = iot_data_string_map_get_string (map, "Me"); CHECK (me && !l_live.count (me), "component %s created again", me ? me : "(none)"); str n = me; l_live[n] = nullptr;
  const char * dep = iot_data_string_map_get_string (map, "Dep"); if (dep) { iot_component_t * d = iot_container_find_component (cont, dep); bool have = l_live.count (dep) && l_live[dep]; CHECK (d ? have && d == l_live[dep] : !have, "dependency %s of %s is %s", dep, me, d ? "another component" : "not found"); }
  LComp * c = new LComp (); c->me = n; iot_component_init (&c->base, &L, l_start, l_stop); l_live[n] = &c->base; l_order.push_back (n); return &c->base;
}
static char * l_load (const char * n, const char *) { if (!strcmp (n, "cont")) return strdup (l_types.c_str ()); auto i = l_conf.find (n); return i == l_conf.end () ? nullptr : strdup (i->second.c_str ()); }
TARGET (large, 100, 6000, pbt::LEAK)
{
  pbt::setrule ("the container held more than 50 components and some of them were deleted");
  static const iot_container_config_t cc = { l_load, nullptr, nullptr }; iot_component_factory_add (&L); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  l_order.clear (); l_conf.clear (); l_live.clear (); l_calls.clear (); size_t n = 1 + s.draw (150); int shape = (int) s.draw (4); unsigned pre = (unsigned) s.draw (3); std::vector<size_t> pos (n); l_types = "{";
  auto nm = [] (size_t i) { return "comp-" + std::to_string (i * 7919 % 1000); };
  for (size_t i = 0; i < n; i++)
  {
    str j = "{\"Me\":\"" + nm (i) + "\""; size_t dep = shape == 0 ? n : shape == 1 ? i + 1 : shape == 2 ? (i ? i - 1 : n) : s.draw (n + 1); if (dep < n) j += ",\"Dep\":\"" + nm (dep) + "\"";
    l_conf[nm (i)] = j + "}"; l_types += (i ? ",\"" : "\"") + nm (i) + "\":\"L\"";
  }
  l_types += "}"; note ("%zu components, dependencies of shape %d", n, shape);
  vs::run (s, vs::NO_LATE | vs::NO_SPURIOUS, [&] ()
  {
    iot_container_config (&cc); iot_container_t * cont = iot_container_alloc ("cont"); iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); size_t gone = 0, peak = 0;
    for (unsigned i = 0; i < pre; i++) { str k = nm (s.draw (n)); iot_component_t * c = iot_container_find_component (cont, k.c_str ()); CHECK (c && c == l_live[k], "component %s is not created by its look-up", k.c_str ()); }
    CHECK (iot_container_init (cont), "init"); CHECK (l_live.size () == n && l_order.size () == n, "%zu components created of %zu", l_order.size (), n); peak = n;
    std::vector<str> names = l_order; size_t ops = 1 + s.draw (40);                            // names: in the order of creation
    for (size_t o = 0; o < ops; o++)
    {
      Span sp (s); l_calls.clear (); size_t k = names.empty () ? 0 : s.draw (names.size ());
      switch (s.weighted ({ 6, 2, 2, 4, 1, 1, 1, 1 }))
      {
        case 0: { size_t m = 1 + s.draw (10); for (size_t i = 0; i < m && !names.empty (); i++) { k = s.draw (names.size ()); str x = names[k]; note ("delete %s", x.c_str ()); iot_container_delete_component (cont, x.c_str ()); CHECK (!l_live.count (x), "component %s is not freed", x.c_str ()); names.erase (names.begin () + (long) k); CHECK (l_live.size () == names.size (), "%zu components left, not %zu", l_live.size (), names.size ()); gone++; } break; }
        case 1: { size_t m = 1 + s.draw (10); for (size_t i = 0; i < m; i++) { str x = "new-" + std::to_string (names.size ()) + "-" + std::to_string (o); if (l_live.count (x)) break; iot_container_add_component (cont, "L", x.c_str (), ("{\"Me\":\"" + x + "\"}").c_str ()); CHECK (l_live.count (x), "component %s is not added", x.c_str ()); names.push_back (x); } break; }
        case 2: { iot_data_t * l = iot_container_list_components (cont, s.flag () ? "L" : nullptr); std::set<str> got; iot_data_list_iter_t it; iot_data_list_iter (l, &it); while (iot_data_list_iter_next (&it)) { const char * x = iot_data_string_map_get_string (iot_data_list_iter_value (&it), "name"); CHECK (x && l_live.count (x) && got.insert (x).second, "component %s listed", x ? x : "(none)"); } CHECK (got.size () == names.size (), "%zu components listed of %zu", got.size (), names.size ()); iot_data_free (l); break; }
        case 3: if (names.size ()) { iot_component_t * c = iot_container_find_component (cont, names[k].c_str ()); CHECK (c && c == l_live[names[k]], "component %s is not found", names[k].c_str ()); iot_data_t * d = iot_container_component_read (cont, names[k].c_str ()); CHECK (d && names[k] == iot_data_string_map_get_string (d, "name"), "component %s is not read", names[k].c_str ()); iot_data_free (d); } break;
        case 4: { note ("start"); iot_container_start (cont); CHECK (l_calls.size () == names.size (), "%zu components started of %zu", l_calls.size (), names.size ()); for (size_t i = 0; i < names.size (); i++) CHECK (l_calls[i] == "start " + names[i], "start %zu is that of %s, not %s", i, l_calls[i].c_str () + 6, names[i].c_str ()); break; }
        case 5: { note ("stop"); iot_container_stop (cont); CHECK (l_calls.size () == names.size (), "%zu components stopped of %zu", l_calls.size (), names.size ()); for (size_t i = 0; i < names.size (); i++) CHECK (l_calls[i] == "stop " + names[names.size () - 1 - i], "stop %zu is that of %s", i, l_calls[i].c_str () + 5); break; }
        case 6: { note ("init again"); size_t before = l_order.size (); CHECK (iot_container_init (cont), "init"); for (size_t i = 0; i < n; i++) CHECK (l_live.count (nm (i)), "component %s is not created again", nm (i).c_str ()); for (; before < l_order.size (); before++) names.push_back (l_order[before]); CHECK (names.size () == l_live.size (), "harness: names"); break; }
        default: CHECK (iot_container_find_component (cont, "nobody") == nullptr, "unknown component found"); break;
      }
      peak = std::max (peak, names.size ());
    }
    l_calls.clear (); iot_container_free (cont); CHECK (l_live.empty (), "%zu components not freed", l_live.size ()); if (peak > 50 && gone) pbt::nontrivial ();
  });
}

static int p_made;
static iot_component_t * p_config (iot_container_t *, const iot_data_t *);
static void p_free (iot_component_t * c) { iot_component_fini (c); free (c); }
static iot_component_factory_t P = { "P", "P", p_config, p_free, nullptr, nullptr };
static void p_run (iot_component_t *) {}
static iot_component_t * p_config (iot_container_t *, const iot_data_t *) { vs::sleep_ns (1000000); iot_component_t * c = (iot_component_t *) calloc (1, sizeof *c); iot_component_init (c, &P, p_run, p_run); p_made++; return c; }
static char * p_load (const char * n, const char *) { return strdup (!strcmp (n, "cont") ? "{\"c0\":\"P\"}" : "{}"); }
PROBE (concurrent_load, "a component looked up for the first time by two threads at once is created twice or not found by one of them")
{
  Src s; iot_container_config_t cc = { p_load, nullptr, nullptr }; p_made = 0; iot_component_factory_add (&P); iot_component_t * r[2] = { nullptr, nullptr };
  vs::run (s, vs::NO_LATE | vs::NO_SPURIOUS, [&] ()
  {
    iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); iot_container_config (&cc); iot_container_t * cont = iot_container_alloc ("cont"); std::vector<int> t;
    for (int i = 0; i < 2; i++) t.push_back (vs::spawn ([&, i] () { r[i] = iot_container_find_component (cont, "c0"); }, "find"));
    for (int x : t) vs::join (x);
    CHECK (p_made == 1 && r[0] && r[0] == r[1], "created %d times, found by %d threads", p_made, (r[0] != nullptr) + (r[1] != nullptr)); iot_container_free (cont);
  });
}
