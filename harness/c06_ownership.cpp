// C06: generated programs over the value API against a reference-count model. The expected count of each live object is
// recomputed after every step from the references the program holds and the references found in reachable containers.
#include "mutate.h"
#include <map>
#include <set>
#include <memory>
using namespace gen;
using pbt::note;
typedef const iot_data_t * P;

struct Token { int released = 0; };
static void release_token (void * p) { ((Token *) p)->released++; }

struct MetaMap { std::map<int, P> e; };                 // key index -> value object

struct World
{
  Src & s; Opt o;
  std::vector<iot_data_t *> slot;
  std::map<P, V> leaf;                                   // contents of live scalar, string and buffer objects
  std::map<P, std::shared_ptr<MetaMap>> meta;            // metadata of an object, map shared between copies
  std::list<Token> tokens; std::map<P, Token *> tok;
  std::list<std::pair<std::string, std::string>> lent;   // referenced buffers and their contents
  iot_data_t * mkey[3];
  struct Stat { iot_data_static_t d; }; std::list<Stat> statics;
  size_t shared = 0, ops = 0;
  World (Src & src) : s (src) {}

  bool is_const (P d) { return iot_data_is_static (d); }
  void children (P d, std::vector<P> & out)
  {
    switch (iot_data_type (d))
    {
      case IOT_DATA_VECTOR: for (uint32_t i = 0; i < iot_data_vector_size (d); i++) { P x = iot_data_vector_get (d, i); if (x) out.push_back (x); } break;
      case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) out.push_back (iot_data_list_iter_value (&it)); break; }
      case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) { out.push_back (iot_data_map_iter_key (&it)); out.push_back (iot_data_map_iter_value (&it)); } break; }
      default: break;
    }
  }
  bool reaches (P from, P to)
  {
    std::set<P> seen; std::vector<P> w { from };
    while (!w.empty ())
    {
      P d = w.back (); w.pop_back (); if (d == to) return true; if (!seen.insert (d).second) continue;
      children (d, w); auto m = meta.find (d); if (m != meta.end ()) for (auto & x : m->second->e) w.push_back (x.second);
    }
    return false;
  }
  bool has_meta (P d)
  {
    std::set<P> seen; std::vector<P> w { d };
    while (!w.empty ()) { P x = w.back (); w.pop_back (); if (!seen.insert (x).second) continue; if (meta.count (x)) return true; children (x, w); }
    return false;
  }
  V leaf_of (P d) { return read (d); }
  void verify (const char * what)
  {
    std::map<P, uint32_t> want; std::set<P> seen; std::set<MetaMap *> mseen; std::vector<P> w;
    for (auto k : mkey) if (k) { want[k]++; w.push_back (k); }
    for (auto d : slot) { want[d]++; w.push_back (d); }
    std::vector<P> order;
    while (!w.empty ())
    {
      P d = w.back (); w.pop_back (); if (!seen.insert (d).second) continue;
      order.push_back (d);
      std::vector<P> c; children (d, c); for (auto x : c) { want[x]++; w.push_back (x); }
      auto m = meta.find (d);
      if (m != meta.end () && mseen.insert (m->second.get ()).second) for (auto & x : m->second->e) { want[mkey[x.first]]++; want[x.second]++; w.push_back (x.second); }
    }
    for (auto it = leaf.begin (); it != leaf.end (); ) if (!seen.count (it->first)) it = leaf.erase (it); else ++it;
    for (auto it = meta.begin (); it != meta.end (); ) if (!seen.count (it->first)) it = meta.erase (it); else ++it;
    for (auto it = tok.begin (); it != tok.end (); )
      if (!seen.count (it->first)) { CHECK (it->second->released == 1, "%s: release function of an unreachable pointer ran %d times", what, it->second->released); it = tok.erase (it); }
      else { CHECK (it->second->released == 0, "%s: release function ran while a reference is held", what); ++it; }
    for (auto d : order)
    {
      if (is_const (d)) continue;
      uint32_t rc = iot_data_ref_count (d);
      CHECK (rc == want[d], "%s: %s %p has reference count %u, %u references are held", what, iot_data_type_name (d), d, rc, want[d]);
      if (rc > 1) shared++;
    }
    for (auto d : order) if (!is_comp (iot_data_type (d)))
    {
      V r = leaf_of (d); auto it = leaf.find (d);
      if (it == leaf.end ()) leaf[d] = r; else CHECK (veq (r, it->second), "%s: live value changed from %s to %s", what, show (it->second).c_str (), show (r).c_str ());
    }
    for (auto & b : lent) CHECK (b.first == b.second, "%s: a referenced buffer was written", what);
    for (auto & m : meta) for (int k = 0; k < 3; k++)
    {
      P x = iot_data_get_metadata (m.first, mkey[k]); auto p = m.second->e.find (k); CHECK (x == (p == m.second->e.end () ? nullptr : p->second), "%s: metadata entry is not the value set", what);
    }
  }
  void put (iot_data_t * d) { if (!d) return; if (slot.size () >= 14) { size_t i = s.draw (slot.size ()); iot_data_t * old = slot[i]; slot.erase (slot.begin () + (long) i); iot_data_free (old); } slot.push_back (d); }
  size_t any () { return s.draw (slot.size ()); }
  iot_data_t * pick_type (std::initializer_list<int> ts)
  {
    std::vector<iot_data_t *> c; for (auto d : slot) for (int t : ts) if (iot_data_type (d) == t) c.push_back (d);
    return c.empty () ? nullptr : c[s.draw (c.size ())];
  }
  // hand over one reference: either an extra reference of a slot or the slot's own
  iot_data_t * give (P into)
  {
    for (int k = 0; k < 4; k++)
    {
      if (slot.empty ()) break;
      size_t i = any (); iot_data_t * d = slot[i];
      if (d == into || reaches (d, into)) continue;
      if (s.flag ()) return iot_data_add_ref (d);
      slot.erase (slot.begin () + (long) i); return d;
    }
    return fresh_leaf ();
  }
  const char * lend (const std::string & x) { lent.push_back ({ x, x }); return lent.back ().first.c_str (); }
  iot_data_t * fresh_leaf ()
  {
    switch (s.weighted ({ 2, 4, 3, 2, 1, 1 }))
    {
      case 0: return build (gen_scalar (s, o, (T) s.draw (IOT_DATA_BOOL + 1)));
      case 1:
      {
        std::string x = gen_string (s, o);
        switch (s.draw (4))
        {
          case 0: { char * b = strdup (x.c_str ()); iot_data_t * d = iot_data_alloc_string (b, IOT_DATA_COPY); memset (b, 'z', x.size ()); free (b); leaf[d] = vstr (x); return d; }
          case 1: { iot_data_t * d = iot_data_alloc_string (strdup (x.c_str ()), IOT_DATA_TAKE); leaf[d] = vstr (x); return d; }
          case 2: { iot_data_t * d = iot_data_alloc_string (lend (x), IOT_DATA_REF); leaf[d] = vstr (x); return d; }
          default: { iot_data_t * d = iot_data_alloc_string_fmt ("%s%d", x.c_str (), 7); leaf[d] = vstr (x + "7"); return d; }
        }
      }
      case 2:
      {
        V a = gen_array (s, 20); uint32_t n = (uint32_t) (a.s.size () / type_bytes (a.et)); iot_data_t * d; iot_data_ownership_t own = (iot_data_ownership_t) s.draw (3);
        char * b = nullptr; void * data = nullptr;
        if (own == IOT_DATA_REF) data = n ? (void *) lend (a.s) : nullptr; else { b = (char *) malloc (a.s.size () + 1); memcpy (b, a.s.data (), a.s.size ()); data = b; }
        d = a.t == IOT_DATA_BINARY ? iot_data_alloc_binary (data, n, own) : iot_data_alloc_array (data, n, (iot_data_type_t) a.et, own);
        if (own == IOT_DATA_COPY) { memset (b, 'z', a.s.size ()); free (b); }
        leaf[d] = a; return d;
      }
      case 3: { tokens.emplace_back (); iot_data_t * d = iot_data_alloc_pointer (&tokens.back (), release_token); tok[d] = &tokens.back (); return d; }
      case 4: { statics.emplace_back (); iot_data_t * d = s.flag () ? iot_data_alloc_const_string (&statics.back ().d, "constant") : iot_data_alloc_const_i32 (&statics.back ().d, 9); return d; }
      default: return s.flag () ? iot_data_alloc_uuid () : iot_data_alloc_uuid_string ();
    }
  }
  iot_data_t * key_for (P map)
  {
    bool str = iot_data_map_key_type (map) == IOT_DATA_STRING;
    if (s.flag ()) for (int k = 0; k < 4; k++)
    { // an existing object of the program used as key too
      if (slot.empty ()) break; iot_data_t * d = slot[any ()]; if (reaches (d, map)) continue;
      if (iot_data_type (d) == IOT_DATA_STRING || (!str && iot_data_type (d) <= IOT_DATA_UINT64)) return iot_data_add_ref (d);
    }
    return str || s.flag () ? build (vstr (std::string (1, (char) ('a' + s.draw (4))))) : build (vint (IOT_DATA_INT32, (int64_t) s.draw (4)));
  }
  P some_key (P map) { uint32_t n = iot_data_map_size (map); if (!n) return nullptr; uint64_t i = s.draw (n) + 1; iot_data_map_iter_t it; iot_data_map_iter (map, &it); while (i--) iot_data_map_iter_next (&it); return iot_data_map_iter_key (&it); }
};

static iot_data_t * upd_fn (const iot_data_t * d, void * arg) { (void) arg; return d ? iot_data_copy (d) : nullptr; }

static const char * step (World & w)
{
  Src & s = w.s;
  static char what[64];
  size_t op = s.weighted ({ 6, 5, 4, 5, 6, 8, 6, 6, 3, 3, 3, 3, 3, 3, 2, 2, 2 });
  if (w.slot.empty () && op > 1) op = s.draw (2);
  switch (op)
  {
    case 0: w.put (w.fresh_leaf ()); return "allocate leaf";
    case 1:
      switch (s.draw (4))
      {
        case 0: w.put (iot_data_alloc_vector ((uint32_t) s.draw (5))); return "allocate vector";
        case 1: w.put (iot_data_alloc_list ()); return "allocate list";
        case 2: w.put (iot_data_alloc_map (s.flag () ? IOT_DATA_STRING : IOT_DATA_MULTI)); return "allocate map";
        default: { Opt o = w.o; o.depth = 2; V v = gen_value (s, o, 2); w.put (build (v, &s)); return "allocate nested value"; }
      }
    case 2: w.put (iot_data_add_ref (w.slot[w.any ()])); return "add reference";
    case 3: { size_t i = w.any (); iot_data_t * d = w.slot[i]; w.slot.erase (w.slot.begin () + (long) i); iot_data_free (d); return "free"; }
    case 4: // vector operations
    {
      iot_data_t * v = w.pick_type ({ IOT_DATA_VECTOR }); if (!v || iot_data_vector_type (v) != IOT_DATA_MULTI) return nullptr; uint32_t n = iot_data_vector_size (v);
      switch (s.draw (6))
      {
        case 0: case 1: if (!n) return nullptr; iot_data_vector_add (v, (uint32_t) s.draw (n), w.give (v)); return "vector add";
        case 2: if (!n) return nullptr; iot_data_vector_add (v, (uint32_t) s.draw (n), nullptr); return "vector clear slot";
        case 3: iot_data_vector_resize (v, (uint32_t) s.draw (n + 3)); return "vector resize";
        case 4: iot_data_vector_compact (v); return "vector compact";
        default: { if (!n) return nullptr; iot_data_vector_iter_t it; iot_data_vector_iter (v, &it); for (uint64_t k = s.draw (n) + 1; k--; ) iot_data_vector_iter_next (&it); iot_data_t * g = w.give (v); w.put (iot_data_vector_iter_replace_value (&it, g)); return "vector iterator replace"; }
      }
    }
    case 5: // map operations
    {
      iot_data_t * m = w.pick_type ({ IOT_DATA_MAP }); if (!m || iot_data_map_type (m) != IOT_DATA_MULTI) return nullptr;
      if (iot_data_map_key_type (m) != IOT_DATA_STRING && iot_data_map_key_type (m) != IOT_DATA_MULTI) return nullptr;
      switch (s.draw (9))
      {
        case 0: case 1: case 2: { iot_data_t * k = w.key_for (m); iot_data_t * g = w.give (m); iot_data_map_add (m, k, g); return "map add"; }
        case 3: { iot_data_t * k = w.key_for (m), * g = w.give (m); if (!iot_data_map_add_unused (m, k, g)) { iot_data_free (k); w.put (g); } return "map add unused"; }
        case 4: { P k = w.some_key (m); if (!k) return nullptr; bool own = s.flag (); if (own) iot_data_map_remove (m, k); else { iot_data_t * c = iot_data_copy (k); iot_data_map_remove (m, c); iot_data_free (c); } return "map remove"; }
        case 5: { uint32_t n = iot_data_map_size (m); if (!n) return nullptr; iot_data_map_iter_t it; iot_data_map_iter (m, &it); for (uint64_t k = s.draw (n) + 1; k--; ) iot_data_map_iter_next (&it); iot_data_t * g = w.give (m); w.put (iot_data_map_iter_replace_value (&it, g)); return "map iterator replace"; }
        case 6: { iot_data_t * a = w.pick_type ({ IOT_DATA_MAP }); if (a == m || w.reaches (a, m)) return nullptr; if (iot_data_map_key_type (m) != IOT_DATA_MULTI && iot_data_map_key_type (a) != iot_data_map_key_type (m)) return nullptr; iot_data_map_merge (m, a); return "map merge"; }
        case 7: iot_data_map_empty (m); return "map empty";
        default: { P k = w.some_key (m); if (!k) return nullptr; P v = iot_data_map_get (m, k); w.put (iot_data_add_ref (v)); return "map get and reference"; }
      }
    }
    case 6: // list operations
    {
      iot_data_t * l = w.pick_type ({ IOT_DATA_LIST }); if (!l || iot_data_list_type (l) != IOT_DATA_MULTI) return nullptr; uint32_t n = iot_data_list_length (l);
      switch (s.draw (8))
      {
        case 0: case 1: iot_data_list_head_push (l, w.give (l)); return "list head push";
        case 2: iot_data_list_tail_push (l, w.give (l)); return "list tail push";
        case 3: w.put (iot_data_list_head_pop (l)); return "list head pop";
        case 4: w.put (iot_data_list_tail_pop (l)); return "list tail pop";
        case 5: case 6:
        {
          if (!n) return nullptr; iot_data_list_iter_t it; iot_data_list_iter (l, &it); for (uint64_t k = s.draw (n) + 1; k--; ) iot_data_list_iter_next (&it);
          if (s.flag ()) { iot_data_list_iter_remove (&it); return "list iterator remove"; }
          iot_data_t * g = w.give (l); w.put (iot_data_list_iter_replace (&it, g)); return "list iterator replace";
        }
        default: if (s.flag ()) iot_data_list_empty (l); else { V x = vstr ("a"); iot_data_list_remove (l, match_fn, &x); } return "list empty or remove";
      }
    }
    case 7: // metadata
    {
      iot_data_t * d = w.slot[w.any ()]; if (w.is_const (d)) return nullptr;
      int k = (int) s.draw (3); iot_data_t * g = w.give (d); if (w.reaches (g, d)) { w.put (g); return nullptr; }
      // objects whose metadata is shared with this one must not become part of a cycle either
      for (auto & x : w.meta) if (w.meta.count (d) && x.second == w.meta[d] && w.reaches (g, x.first)) { w.put (g); return nullptr; }
      auto & m = w.meta[d]; bool alone = true; if (m) for (auto & x : w.meta) if (x.first != d && x.second == m) alone = false;
      if (!m) m = std::make_shared<MetaMap> (); else if (!alone) m = std::make_shared<MetaMap> (*m);
      note ("  on %p (%s) key %d value %p (%s)%s", d, iot_data_type_name (d), k, g, iot_data_type_name (g), alone ? "" : " shared map"); iot_data_set_metadata (d, g, w.mkey[k]); m->e[k] = g; return "set metadata";
    }
    case 8:
    {
      // deep copies of values whose parts have metadata share metadata maps that cannot be told apart from outside: keep to plain ones
      iot_data_t * d = w.slot[w.any ()]; std::vector<P> st { d }; std::vector<P> all; while (!st.empty ()) { P x = st.back (); st.pop_back (); all.push_back (x); w.children (x, st); if (all.size () > 400) return nullptr; }
      bool nested = false; for (auto x : all) if (x != d && w.meta.count (x)) nested = true;
      if (nested) return nullptr;
      iot_data_t * c = iot_data_copy (d); note ("  %p (%s) -> %p", d, iot_data_type_name (d), c); if (c != d && w.meta.count (d)) w.meta[c] = w.meta[d]; w.put (c); return "copy";
    }
    case 9: w.put (iot_data_shallow_copy (w.slot[w.any ()])); return "shallow copy";
    case 10:
    {
      iot_data_t * d = w.slot[w.any ()];
      if (iot_data_type (d) <= IOT_DATA_BOOL) { w.put (iot_data_transform (d, (iot_data_type_t) s.draw (IOT_DATA_BOOL + 1))); return "transform"; }
      if (iot_data_type (d) == IOT_DATA_ARRAY) { w.put (iot_data_array_transform (d, (iot_data_type_t) s.draw (IOT_DATA_BOOL + 1))); return "array transform"; }
      if (iot_data_type (d) == IOT_DATA_STRING) { w.put (iot_data_binary_from_string (d)); return "binary from string"; }
      if (iot_data_type (d) == IOT_DATA_BINARY) { V c = read (d); if (c.s.find ('\0') == std::string::npos) w.put (iot_data_string_from_binary (d)); return "string from binary"; }
      if (iot_data_type (d) == IOT_DATA_VECTOR) { w.put (s.flag () ? iot_data_vector_to_vector (d, (iot_data_type_t) s.draw (IOT_DATA_BOOL + 1), s.flag ()) : iot_data_vector_to_array (d, (iot_data_type_t) s.draw (IOT_DATA_BOOL + 1), s.flag ())); return "vector flatten"; }
      return nullptr;
    }
    case 11:
    {
      iot_data_t * d = w.pick_type ({ IOT_DATA_BINARY, IOT_DATA_ARRAY }); if (!d) return nullptr;
      V c = read (d); uint32_t len = 0; uint32_t rc = iot_data_ref_count (d); void * p = iot_data_binary_take (d, &len);
      CHECK (len == c.s.size () && (!len || !memcmp (p, c.s.data (), len)), "taken buffer differs"); free (p);
      V after = read (d); if (rc > 1) CHECK (veq (after, c), "taking from a shared value changed it"); w.leaf[d] = after; return "take buffer";
    }
    case 12: // path edits on values of the program
    {
      iot_data_t * d = w.pick_type ({ IOT_DATA_MAP, IOT_DATA_VECTOR }); if (!d) return nullptr;
      iot_data_t * path = iot_data_alloc_list (); P at = d; size_t depth = 0;
      while (at && depth < 3 && (depth == 0 || s.flag ()))
      {
        if (iot_data_type (at) == IOT_DATA_MAP) { P k = w.some_key (at); if (!k) break; iot_data_list_tail_push (path, iot_data_copy (k)); at = iot_data_map_get (at, k); }
        else if (iot_data_type (at) == IOT_DATA_VECTOR) { uint32_t n = iot_data_vector_size (at); if (!n) break; uint32_t i = (uint32_t) s.draw (n); if (!iot_data_vector_get (at, i)) break; iot_data_list_tail_push (path, iot_data_alloc_ui32 (i)); at = iot_data_vector_get (at, i); }
        else break;
        depth++;
      }
      if (!depth) { iot_data_free (path); return nullptr; }
      // every container along the path must accept any element
      { P c = d; iot_data_list_iter_t it; iot_data_list_iter (path, &it); while (iot_data_list_iter_prev (&it)) { P k = iot_data_list_iter_value (&it); iot_typecode_t tc; iot_data_typecode (c, &tc); if (tc.element_type != IOT_DATA_MULTI) { iot_data_free (path); return nullptr; } c = iot_data_type (c) == IOT_DATA_MAP ? iot_data_map_get (c, k) : iot_data_vector_get (c, iot_data_ui32 (k)); } }
      const char * r = nullptr;
      switch (s.draw (4))
      {
        case 0: CHECK (iot_data_get_at (d, path) == at, "get at path"); r = "get at path"; break;
        case 1: { iot_data_t * g = w.give (d); w.put (iot_data_add_at (d, path, g)); r = "add at path"; break; }
        case 2: w.put (iot_data_remove_at (d, path)); r = "remove at path"; break;
        default: { bool plain = true; std::vector<P> st { at }; while (!st.empty ()) { P x = st.back (); st.pop_back (); if (w.meta.count (x)) plain = false; w.children (x, st); } if (plain) { w.put (iot_data_update_at (d, path, upd_fn, nullptr)); r = "update at path"; } break; }
      }
      iot_data_free (path); return r;
    }
    case 13:
    { // compression keys values by content: parts with metadata are kept out, merging two of them could make a value its own metadata
      iot_data_t * d = w.pick_type ({ IOT_DATA_MAP, IOT_DATA_VECTOR, IOT_DATA_LIST }); if (!d || w.has_meta (d)) return nullptr;
      if (s.flag ()) iot_data_compress (d);
      else { iot_data_t * c = iot_data_alloc_map (IOT_DATA_MULTI); iot_data_compress_with_cache (d, c); if (s.flag ()) { iot_data_t * d2 = w.pick_type ({ IOT_DATA_MAP, IOT_DATA_VECTOR, IOT_DATA_LIST }); if (!w.has_meta (d2)) iot_data_compress_with_cache (d2, c); } iot_data_free (c); }
      return "compress";
    }
    case 14:
    {
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); Opt jo; jo.str_keys = true; jo.depth = 2; jo.utf8 = true;
      iot_data_t * src = build (gen_container (s, jo, 2)); char * j = iot_data_to_json (src); iot_data_t * r = iot_data_from_json_with_cache (j, false, s.flag () ? m : nullptr);
      free (j); iot_data_free (src); w.put (r); if (s.flag ()) w.put (m); else iot_data_free (m); return "parse JSON";
    }
    case 15: { void * b = iot_data_block_alloc (iot_data_block_size ()); CHECK (b, "block"); memset (b, 0xaa, iot_data_block_size ()); w.verify ("block in use"); iot_data_block_free (b); return "block alloc"; }
    default:
    { // element of a container gets a reference of the program
      iot_data_t * d = w.slot[w.any ()]; std::vector<P> c; w.children (d, c); if (c.empty ()) return nullptr; w.put (iot_data_add_ref (c[s.draw (c.size ())])); return "reference element";
    }
  }
  return what;
}

TARGET (program, 60000, 2000000, pbt::LEAK)
{
  pbt::setrule ("at least ten operations took effect and some object was held by more than one reference");
  World w (s); w.o.depth = 2; w.o.elems = 3; w.o.nan = false; w.o.typed = true;
  iot_data_alloc_heap (s.flag ());
  for (int k = 0; k < 3; k++) w.mkey[k] = iot_data_alloc_string (k == 0 ? "a" : k == 1 ? "meta data key of some length" : "c", IOT_DATA_COPY);
  size_t n = s.len (120, 40) + 4;
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    if (s.chance (1, 20)) { bool h = s.flag (); iot_data_alloc_heap (h); }
    const char * what = step (w); note ("%s", what ? what : "-"); if (what) w.ops++;
    w.verify (what ? what : "no operation");
  }
  if (w.ops >= 10 && w.shared) pbt::nontrivial ();
  pbt::label_if (!w.meta.empty (), "metadata"); pbt::label_if (!w.tokens.empty (), "release functions"); pbt::label_if (!w.lent.empty (), "referenced buffers");
  while (!w.slot.empty ()) { Span sp (s); size_t i = w.any (); iot_data_t * d = w.slot[i]; w.slot.erase (w.slot.begin () + (long) i); iot_data_free (d); if (s.flag ()) w.verify ("free at end"); }
  w.verify ("after the last free");
  for (auto & k : w.mkey) { CHECK (iot_data_ref_count (k) == 1, "metadata key has %u references at the end", iot_data_ref_count (k)); iot_data_free (k); k = nullptr; }
  for (auto & t : w.tokens) CHECK (t.released == 1, "a release function ran %d times", t.released);
  iot_data_alloc_heap (false);
}

static bool list_holds (const iot_data_t * l, uint32_t i) { iot_data_list_iter_t it; iot_data_list_iter (l, &it); return iot_data_list_iter_next (&it) && iot_data_ui32 (iot_data_list_iter_value (&it)) == i; }
// very many values of mixed sizes alive at once
TARGET (many, 100, 3000, pbt::LEAK)
{
  pbt::setrule ("more than 255 values alive at once");
  size_t n = big_size (s, 33000); uint32_t mul = (uint32_t) s.draw (1u << 20), mix = 1 + (uint32_t) s.draw (6); bool again = s.flag (); note ("%zu values", n); if (n > 255) pbt::nontrivial (); std::vector<iot_data_t *> v (n);
  auto make = [&] (uint32_t i) -> iot_data_t * { switch (i % mix) { case 0: return iot_data_alloc_ui64 (i); case 1: { char b[40]; snprintf (b, sizeof b, "a string for %u", i); return iot_data_alloc_string (b, IOT_DATA_COPY); } case 2: { iot_data_t * l = iot_data_alloc_list (); iot_data_list_head_push (l, iot_data_alloc_ui32 (i)); return l; } case 3: { iot_data_t * m = iot_data_alloc_map (IOT_DATA_UINT32); iot_data_map_add (m, iot_data_alloc_ui32 (i), iot_data_alloc_ui32 (i)); return m; } case 4: return iot_data_alloc_f32 ((float) i); default: { uint32_t a[3] = { i, i, i }; return iot_data_alloc_array (a, 3, IOT_DATA_UINT32, IOT_DATA_COPY); } } };
  auto good = [&] (const iot_data_t * d, uint32_t i) -> bool { switch (i % mix) { case 0: return iot_data_ui64 (d) == i; case 1: { char b[40]; snprintf (b, sizeof b, "a string for %u", i); return !strcmp (b, iot_data_string (d)); } case 2: return iot_data_list_length (d) == 1 && list_holds (d, i); case 3: return iot_data_map_size (d) == 1 && iot_data_ui32 (iot_data_map_start ((iot_data_t *) d)) == i; case 4: return iot_data_f32 (d) == (float) i; default: return ((const uint32_t *) iot_data_address (d))[2] == i; } };
  for (uint32_t i = 0; i < n; i++) { v[i] = make (i); if (i % 7 == 3) iot_data_add_ref (v[i]); }
  for (uint32_t i = 0; i < n; i++) CHECK (good (v[i], i), "value %u has other contents than it was given", i);
  for (uint32_t k = 0; k < n; k++) { uint32_t i = scramble (k, mul) % (uint32_t) n; if (v[i]) { CHECK (good (v[i], i), "value %u changed while others were freed", i); if (i % 7 == 3) { iot_data_free (v[i]); CHECK (iot_data_ref_count (v[i]) == 1 && good (v[i], i), "value %u lost its last reference early", i); } iot_data_free (v[i]); v[i] = nullptr; if (again && k % 3 == 0) { v[i] = make (i); if (i % 7 == 3) iot_data_add_ref (v[i]); } } }
  for (uint32_t i = 0; i < n; i++) if (v[i]) { CHECK (good (v[i], i), "value %u changed", i); if (i % 7 == 3) iot_data_free (v[i]); iot_data_free (v[i]); }
}

static unsigned g_freed; static void count_freed (void *) { g_freed++; }
// very many references to one value, held by the program and by containers
TARGET (many_refs, 60, 2000, pbt::LEAK)
{
  pbt::setrule ("more than 255 references to one value");
  size_t n = big_size (s, 140000); g_freed = 0; uint64_t kind = s.draw (4); iot_data_t * v = kind == 0 ? iot_data_alloc_pointer (&g_freed, count_freed) : kind == 1 ? iot_data_alloc_string ("shared", IOT_DATA_COPY) : kind == 2 ? iot_data_alloc_vector (3) : iot_data_alloc_map (IOT_DATA_STRING);
  if (kind == 2) iot_data_vector_add (v, 1, iot_data_alloc_pointer (&g_freed, count_freed)); if (kind == 3) iot_data_string_map_add (v, "a", iot_data_alloc_pointer (&g_freed, count_freed));
  size_t in = s.draw (3) ? s.draw (n + 1) : 0; iot_data_t * c = iot_data_alloc_vector ((uint32_t) in); bool list = s.flag (); iot_data_t * l = iot_data_alloc_list (); note ("%zu references, %zu of them in a %s", n, in, list ? "list" : "vector"); size_t refs = 1;
  auto good = [&] (const char * when) { CHECK (iot_data_ref_count (v) == refs, "%s: %zu references held, reported as %u", when, refs, iot_data_ref_count (v)); CHECK (g_freed == 0, "%s: released although %zu references are held", when, refs); CHECK (kind == 1 ? !strcmp (iot_data_string (v), "shared") : kind == 2 ? iot_data_vector_get (v, 1) != nullptr : kind == 3 ? iot_data_string_map_get (v, "a") != nullptr : iot_data_pointer (v) == &g_freed, "%s: contents changed", when); };
  good ("new"); for (size_t i = 0; i < n; i++) { iot_data_add_ref (v); refs++; if (i < in) { if (list) iot_data_list_head_push (l, v); else iot_data_vector_add (c, (uint32_t) i, v); } }
  good ("taken"); iot_data_free (c); if (list) iot_data_free (l); refs -= in; good ("container freed");
  if (!list) iot_data_free (l);
  for (size_t i = in; i < n; i++) { iot_data_free (v); refs--; if ((i & (i - 1)) == 0) good ("dropped"); } good ("one left"); iot_data_free (v); if (kind != 1) CHECK (g_freed == 1, "released %u times", g_freed);
  if (n > 255) pbt::nontrivial ();
}
