// C18: path operations against a persistent tree model: every version ever made must keep its contents.
#include "gen.h"
#include <algorithm>
using namespace gen; using pbt::note;

struct Ver { iot_data_t * d; V m; };
static const V * child (const V & c, const V & k)
{
  if (c.t == IOT_DATA_MAP) return find_key (c.m, k);
  if (c.t == IOT_DATA_VECTOR && k.t == IOT_DATA_UINT32 && k.u < c.e.size () && c.e[k.u].t != EMPTY) return &c.e[k.u];
  return nullptr;
}
static const V * at (const V & c, const std::vector<V> & p, size_t i = 0) { if (i == p.size ()) return &c; const V * n = child (c, p[i]); return n ? at (*n, p, i + 1) : nullptr; }
static void set_at (V & c, const std::vector<V> & p, const V & val, size_t i = 0)
{
  if (i == p.size ()) { c = val; return; }
  if (c.t == IOT_DATA_MAP) { V * n = find_key (c.m, p[i]); if (!n) { c.m.emplace_back (p[i], V ()); n = &c.m.back ().second; } set_at (*n, p, val, i + 1); }
  else set_at (c.e[p[i].u], p, val, i + 1);
}
static void del_at (V & c, const std::vector<V> & p, size_t i = 0)
{
  if (i + 1 < p.size ()) { V * n = c.t == IOT_DATA_MAP ? find_key (c.m, p[i]) : &c.e[p[i].u]; del_at (*n, p, i + 1); return; }
  if (c.t == IOT_DATA_MAP) c.m.erase (std::remove_if (c.m.begin (), c.m.end (), [&] (const std::pair<V, V> & x) { return veq (x.first, p[i]); }), c.m.end ());
  else c.e.erase (c.e.begin () + (long) p[i].u);
}
static iot_data_t * mkpath (Src & s, const std::vector<V> & p, Arena & ar) { iot_data_t * l = iot_data_alloc_list (); for (auto & k : p) iot_data_list_tail_push (l, build (k, &s, &ar)); return l; }
static const iot_data_t * step (const iot_data_t * d, const V & k)
{
  if (k.t == IOT_DATA_UINT32 && iot_data_type (d) == IOT_DATA_VECTOR) return k.u < iot_data_vector_size (d) ? iot_data_vector_get (d, (uint32_t) k.u) : NULL;
  if (iot_data_type (d) != IOT_DATA_MAP) return NULL;
  iot_data_t * key = build (k); const iot_data_t * r = iot_data_map_get (d, key); iot_data_free (key); return r;
}
// children not on the path are the same objects; deleted: the last step was a removal
static void shared (const iot_data_t * a, const iot_data_t * b, const V & m, const std::vector<V> & p, bool deleted, size_t i = 0)
{
  if (i >= p.size ()) return;
  CHECK (a != b, "a container on the path is not a new object");
  if (m.t == IOT_DATA_MAP)
  {
    for (auto & x : m.m) if (!veq (x.first, p[i])) CHECK (step (a, x.first) == step (b, x.first), "map entry %s is not shared", show (x.first).c_str ());
  }
  else for (uint32_t k = 0; k < m.e.size (); k++) if (k != p[i].u) { uint32_t j = deleted && i + 1 == p.size () && k > p[i].u ? k - 1 : k; CHECK (iot_data_vector_get (a, k) == iot_data_vector_get (b, j), "vector element %u is not shared", k); }
  if (i + 1 < p.size ()) { const V * c = child (m, p[i]); if (c) shared (step (a, p[i]), step (b, p[i]), *c, p, deleted, i + 1); }
}

static V gen_tree (Src & s, const Opt & o, int depth)
{
  V v (s.flag () ? IOT_DATA_MAP : IOT_DATA_VECTOR); size_t n = s.len (8, 3); static const T keys[] = { IOT_DATA_STRING, IOT_DATA_STRING, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_MULTI };
  if (v.t == IOT_DATA_MAP) v.kt = keys[s.draw (5)];
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s); V c = depth > 0 && s.chance (2, 3) ? gen_tree (s, o, depth - 1) : s.flag () ? gen_any_scalar (s, o) : gen_value (s, o, 1);
    if (v.t == IOT_DATA_VECTOR) { if (s.chance (1, 12)) v.e.push_back (V ()); else v.e.push_back (c); }
    else { V k; switch (v.kt == IOT_DATA_MULTI ? keys[s.draw (4)] : v.kt) { case IOT_DATA_UINT32: k = vuns (IOT_DATA_UINT32, s.draw (6)); break; case IOT_DATA_INT64: k = vint (IOT_DATA_INT64, s.range (-3, 3)); break; default: k = s.flag () ? vstr (std::string (1, (char) ('a' + s.draw (6)))) : vstr (gen_string (s, o)); } if (!find_key (v.m, k)) v.m.emplace_back (k, c); }
  }
  return v;
}
static V bad_step (Src & s, const V & c)
{
  if (c.t == IOT_DATA_VECTOR) switch (s.draw (4)) { case 0: return vuns (IOT_DATA_UINT32, c.e.size () + s.draw (3)); case 1: return vint (IOT_DATA_INT32, (int64_t) s.draw (3)); case 2: return vstr ("k"); default: return vuns (IOT_DATA_UINT32, UINT32_MAX - s.draw (2)); }
  if (s.flag ()) return vstr ("absent" + std::to_string (s.draw (3)));
  return vuns (IOT_DATA_UINT32, 100 + s.draw (5));
}
// a path into the tree; ends anywhere
static std::vector<V> gen_path (Src & s, const V & m, bool may_miss)
{
  std::vector<V> p; const V * c = &m;
  while (c && (p.empty () || !s.chance (1, 4)) && p.size () < 8)
  {
    bool cont = c->t == IOT_DATA_MAP || c->t == IOT_DATA_VECTOR;
    if (!cont) { if (may_miss && s.chance (1, 4)) { p.push_back (s.flag () ? vstr ("x") : vuns (IOT_DATA_UINT32, s.draw (3))); c = nullptr; if (s.flag ()) p.push_back (vstr ("y")); } break; }
    size_t n = c->t == IOT_DATA_MAP ? c->m.size () : c->e.size ();
    if (!n || (may_miss && s.chance (1, 8))) { if (!may_miss) break; p.push_back (bad_step (s, *c)); c = nullptr; while (s.chance (1, 3)) p.push_back (vuns (IOT_DATA_UINT32, s.draw (2))); break; }
    size_t i = s.draw (n); if (c->t == IOT_DATA_MAP) { p.push_back (c->m[i].first); c = &c->m[i].second; } else { p.push_back (vuns (IOT_DATA_UINT32, i)); c = c->e[i].t == EMPTY ? nullptr : &c->e[i]; if (!c && may_miss && s.flag ()) p.push_back (vuns (IOT_DATA_UINT32, 0)); }
  }
  return p;
}
static std::string pshow (const std::vector<V> & p) { std::string r; for (auto & k : p) r += "/" + show (k); return r; }

struct Upd { Src * s; const Opt * o; Arena * ar; const iot_data_t * seen; V old, now; unsigned calls; };
static iot_data_t * upd (const iot_data_t * d, void * arg) { Upd * u = (Upd *) arg; u->seen = d; u->calls++; u->old = read (d); return build (u->now, u->s, u->ar); }

TARGET (history, 80000, 5000000, pbt::LEAK)
{
  pbt::setrule ("an edit at depth two or more");
  Opt o; Arena ar; std::vector<Ver> vs; { V m = gen_tree (s, o, 3); note ("%s", show (m).c_str ()); vs.push_back ({ build (m, &s, &ar), m }); }
  size_t ops = 1 + s.len (8, 3);
  for (size_t i = 0; i < ops; i++)
  {
    Span sp (s); size_t which = s.draw (vs.size ()); iot_data_t * d = vs[which].d; V m = vs[which].m; unsigned op = (unsigned) s.draw (4);
    if (m.t != IOT_DATA_MAP && m.t != IOT_DATA_VECTOR) continue;
    if (op == 0)
    {
      std::vector<V> p = gen_path (s, m, true); if (s.chance (1, 10)) p.clear (); const V * w = at (m, p); note ("get %s", pshow (p).c_str ()); iot_data_t * path = mkpath (s, p, ar); const iot_data_t * r = iot_data_get_at (d, path);
      pbt::label_if (!w, "path does not match");
      CHECK ((r != NULL) == (w != nullptr), "get at %s %s", pshow (p).c_str (), r ? "finds something" : "finds nothing"); if (w) { V got = read (r); CHECK (veq (got, *w), "get at %s gives %s, expected %s", pshow (p).c_str (), show (got).c_str (), show (*w).c_str ()); const iot_data_t * x = d; for (auto & k : p) x = step (x, k); CHECK (x == r, "get gives another object"); }
      CHECK (iot_data_list_length (path) == p.size (), "path changed"); iot_data_free (path);
    }
    else if (op == 1)
    {
      // add: every step but the last must exist; the last may be a new map key
      std::vector<V> p = gen_path (s, m, false); const V * parent = &m; if (p.empty () && m.t == IOT_DATA_VECTOR) continue;
      const V * w = at (m, p);
      if (p.empty () || s.chance (1, 3)) { const V * c = w ? w : &m; std::vector<V> q = w ? p : std::vector<V> (); if (c->t == IOT_DATA_MAP) { V k = c->kt == IOT_DATA_UINT32 ? vuns (IOT_DATA_UINT32, 50 + s.draw (9)) : c->kt == IOT_DATA_INT64 ? vint (IOT_DATA_INT64, 50 + (int64_t) s.draw (9)) : c->kt == IOT_DATA_STRING || c->kt == IOT_DATA_MULTI ? vstr ("new" + std::to_string (s.draw (9))) : V (); if (k.t == EMPTY || (c->et != IOT_DATA_MULTI)) continue; q.push_back (k); p = q; pbt::label ("new map key"); } }
      if (p.empty ()) continue;
      std::vector<V> up (p.begin (), p.end () - 1); parent = at (m, up); if (!parent || (parent->t != IOT_DATA_MAP && parent->t != IOT_DATA_VECTOR)) continue; V val = parent->et == IOT_DATA_MULTI ? (s.flag () ? gen_any_scalar (s, o) : gen_tree (s, o, 1)) : gen_of_type (s, o, 1, parent->et);
      note ("add %s = %s", pshow (p).c_str (), show (val).c_str ()); iot_data_t * path = mkpath (s, p, ar), * vd = build (val, &s, &ar), * r = iot_data_add_at (d, path, vd); if (p.size () >= 2) pbt::nontrivial ();
      CHECK (r && r != d, "add returns no new structure"); V want = m; set_at (want, p, val); V got = read (r); CHECK (veq (got, want), "add gives %s, expected %s", show (got).c_str (), show (want).c_str ()); const iot_data_t * x = r; for (auto & k : p) x = step (x, k); CHECK (x == vd, "the value added is not the object given");
      shared (d, r, m, p, false); iot_data_free (path); if (s.flag ()) fresh_check (s, r, want, "new version"); vs.push_back ({ r, want });
    }
    else if (op == 2)
    {
      std::vector<V> p = gen_path (s, m, true); if (p.empty ()) continue; const V * w = at (m, p); std::vector<V> up (p.begin (), p.end () - 1); const V * parent = at (m, up);
      if (w && parent->t == IOT_DATA_VECTOR) { bool holes = false; for (auto & x : parent->e) if (x.t == EMPTY) holes = true; if (holes) continue; }
      if (!w && parent && parent->t == IOT_DATA_VECTOR && p.back ().t == IOT_DATA_UINT32 && p.back ().u < parent->e.size ()) continue;   // an empty slot: compaction is not specified
      note ("remove %s", pshow (p).c_str ()); if (w && p.size () >= 2) pbt::nontrivial (); pbt::label_if (!w, "removal of nothing"); iot_data_t * path = mkpath (s, p, ar), * r = iot_data_remove_at (d, path);
      CHECK (r && r != d, "remove returns no new structure"); V want = m; if (w) del_at (want, p); V got = read (r); CHECK (veq (got, want), "remove gives %s, expected %s", show (got).c_str (), show (want).c_str ());
      if (w) shared (d, r, m, p, true); iot_data_free (path); if (s.flag ()) fresh_check (s, r, want, "new version"); vs.push_back ({ r, want });
    }
    else
    {
      std::vector<V> p = gen_path (s, m, true); if (p.empty ()) continue; const V * w = at (m, p); std::vector<V> up (p.begin (), p.end () - 1); const V * parent = at (m, up);
      V val = parent && is_comp (parent->t) && parent->et != IOT_DATA_MULTI ? gen_of_type (s, o, 1, parent->et) : s.flag () ? gen_any_scalar (s, o) : gen_tree (s, o, 1);
      note ("update %s to %s", pshow (p).c_str (), show (val).c_str ()); if (w && p.size () >= 2) pbt::nontrivial (); pbt::label_if (!w, "update of nothing"); const iot_data_t * before = NULL; if (w) { before = d; for (auto & k : p) before = step (before, k); }
      Upd u { &s, &o, &ar, NULL, V (), val, 0 }; iot_data_t * path = mkpath (s, p, ar), * r = iot_data_update_at (d, path, upd, &u);
      CHECK (u.calls == (w ? 1u : 0u), "update function called %u times", u.calls); if (w) CHECK (u.seen == before && veq (u.old, *w), "update function got %s, expected %s", show (u.old).c_str (), show (*w).c_str ());
      CHECK (r && r != d, "update returns no new structure"); V want = m; if (w) set_at (want, p, val); V got = read (r); CHECK (veq (got, want), "update gives %s, expected %s", show (got).c_str (), show (want).c_str ());
      if (w) shared (d, r, m, p, false); iot_data_free (path); if (s.flag ()) fresh_check (s, r, want, "new version"); vs.push_back ({ r, want });
    }
    for (auto & x : vs) { V got = read (x.d); CHECK (veq_typed (got, x.m), "an earlier version changed: %s, was %s", show (got).c_str (), show (x.m).c_str ()); }
  }
  while (!vs.empty ()) { size_t i = s.draw (vs.size ()); iot_data_free (vs[i].d); vs.erase (vs.begin () + (long) i); for (auto & x : vs) { V got = read (x.d); CHECK (veq (got, x.m), "a version changed when another was freed"); } }
}

TARGET (large, 200, 5000, pbt::LEAK)
{
  pbt::setrule ("more than 255 elements");
  size_t n = big_size (s, 33000), at = s.draw (3) == 0 ? n - 1 : s.draw (n); bool inner = s.flag (); unsigned op = (unsigned) s.draw (4); note ("%zu elements, operation %u at %zu", n, op, at); if (n > 255) pbt::nontrivial ();
  iot_data_t * v = iot_data_alloc_vector ((uint32_t) n), * top = v; for (size_t i = 0; i < n; i++) iot_data_vector_add (v, (uint32_t) i, iot_data_alloc_ui32 ((uint32_t) i)); if (inner) { top = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (top, "v", v); }
  V pk = vuns (IOT_DATA_UINT32, at); std::vector<V> p; if (inner) p.push_back (vstr ("v")); p.push_back (pk); Arena ar; iot_data_t * path = mkpath (s, p, ar);
  iot_data_t * r = nullptr, * val = iot_data_alloc_string ("new", IOT_DATA_REF); uint32_t want = (uint32_t) n;
  auto fn = [] (const iot_data_t *, void * a) -> iot_data_t * { return iot_data_add_ref ((iot_data_t *) a); };
  CHECK (iot_data_get_at (top, path) == iot_data_vector_get (v, (uint32_t) at), "get gives another element");
  switch (op) { case 0: r = iot_data_add_at (top, path, iot_data_add_ref (val)); break; case 1: r = iot_data_update_at (top, path, fn, val); break; case 2: r = iot_data_remove_at (top, path); want--; break; default: break; }
  if (r) { const iot_data_t * w = inner ? iot_data_string_map_get (r, "v") : r; CHECK (iot_data_vector_size (w) == want, "%u elements, expected %u", iot_data_vector_size (w), want); for (size_t i = 0; i < n; i++) { if (op == 2 && i == at) continue; const iot_data_t * x = iot_data_vector_get (w, (uint32_t) (op == 2 && i > at ? i - 1 : i)); CHECK (op != 2 && i == at ? x == val : x == iot_data_vector_get (v, (uint32_t) i), "element %zu differs", i); } }
  CHECK (iot_data_vector_size (v) == n && iot_data_ui32 (iot_data_vector_get (v, (uint32_t) at)) == at, "the original changed"); iot_data_free (r); iot_data_free (val); iot_data_free (path); iot_data_free (top);
}

// long paths through deeply nested values
static void way (const V & v, std::vector<V> & p)      // down to the leaf, which is a string
{
  const V * c = &v; while (is_comp (c->t) && (c->e.size () || c->m.size ())) { if (c->t == IOT_DATA_MAP) { for (auto & x : c->m) if (x.second.t != IOT_DATA_UINT32) { p.push_back (x.first); c = &x.second; break; } } else for (size_t i = 0; i < c->e.size (); i++) if (c->e[i].t != IOT_DATA_UINT32) { p.push_back (vuns (IOT_DATA_UINT32, i)); c = &c->e[i]; break; } }
}
TARGET (tower, 800, 30000, pbt::LEAK)
{
  pbt::setrule ("an operation more than 60 levels down");
  size_t n = big_depth (s, 530); uint32_t r = (uint32_t) s.draw (1u << 20); Tower o; o.lists = false; V m = tower (r, n, vstr ("leaf"), o); std::vector<V> p; way (m, p); CHECK (p.size () == n, "harness"); if (s.draw (3) == 2) p.resize (1 + s.draw (n)); bool miss = s.draw (6) == 5; if (miss) p[s.draw (p.size ())] = vstr ("absent");
  unsigned op = (unsigned) s.draw (4); note ("%zu levels, path of %zu, operation %u%s", n, p.size (), op, miss ? ", no match" : ""); if (p.size () > 60) pbt::nontrivial ();
  Arena ar; iot_data_t * d = build (m, &s, &ar), * path = mkpath (s, p, ar), * res = nullptr; Opt go; V want = m, val = vstr ("new"); Upd u { &s, &go, &ar, NULL, V (), val, 0 }; const V * w = at (m, p); V got;
  { const iot_data_t * g = iot_data_get_at (d, path); CHECK ((g != NULL) == (w != nullptr), "get %s", g ? "finds something" : "finds nothing"); if (w) { got = read (g); CHECK (veq (got, *w), "get gives another value"); } }
  if (op == 1 && !miss) { iot_data_t * vd = build (val); res = iot_data_add_at (d, path, vd); set_at (want, p, val); CHECK (iot_data_get_at (res, path) == vd, "the value added is not there"); }
  else if (op == 2) { res = iot_data_remove_at (d, path); if (w) del_at (want, p); }
  else if (op == 3) { res = iot_data_update_at (d, path, upd, &u); if (w) set_at (want, p, val); CHECK (u.calls == (w ? 1u : 0u), "update function called %u times", u.calls); }
  if (res) { got = read (res); CHECK (veq (got, want), "operation %u gives another value", op); if (w) shared (d, res, m, p, op == 2); iot_data_free (res); }
  got = read (d); CHECK (veq_typed (got, m), "the original changed"); CHECK (iot_data_list_length (path) == p.size (), "path changed"); iot_data_free (path); iot_data_free (d);
}
