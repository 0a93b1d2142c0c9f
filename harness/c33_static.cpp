// C33: values built in caller-provided storage, user tags, type sizes and the hash functions, against ordinary values
// and bit-level references.
#include "gen.h"
#include "iot/hash.h"
#include "iot/json.h"
using namespace gen; using pbt::note;

static uint32_t djb2 (const std::string & x) { uint64_t h = 538; for (unsigned char c : x) h = ((h * 33u) ^ c) & 0xffffffffu; return (uint32_t) h; }

// storage with guard bytes on both sides
struct Box { unsigned char pre[16]; iot_data_static_t d; unsigned char post[16]; };
static void box_init (Box & b, int fill) { memset (&b, fill, sizeof b); }
static bool box_guard (const Box & b, int fill) { for (unsigned i = 0; i < 16; i++) if (b.pre[i] != fill || b.post[i] != fill) return false; return true; }

static V gen_const (Src & s, const Opt & o)
{
  T t = (T) s.draw (10); if (t == 8) t = IOT_DATA_STRING; if (t == 9) t = IOT_DATA_POINTER;
  if (t == IOT_DATA_POINTER) { V v (t); v.p = (const void *) (uintptr_t) (s.flag () ? s.draw (16) : s.u64 ()); return v; }
  return gen_scalar (s, o, t);
}
static iot_data_t * make (Box & b, const V & v)
{
  switch (v.t)
  {
    case IOT_DATA_INT8: return iot_data_alloc_const_i8 (&b.d, (int8_t) v.i);
    case IOT_DATA_UINT8: return iot_data_alloc_const_ui8 (&b.d, (uint8_t) v.u);
    case IOT_DATA_INT16: return iot_data_alloc_const_i16 (&b.d, (int16_t) v.i);
    case IOT_DATA_UINT16: return iot_data_alloc_const_ui16 (&b.d, (uint16_t) v.u);
    case IOT_DATA_INT32: return iot_data_alloc_const_i32 (&b.d, (int32_t) v.i);
    case IOT_DATA_UINT32: return iot_data_alloc_const_ui32 (&b.d, (uint32_t) v.u);
    case IOT_DATA_INT64: return iot_data_alloc_const_i64 (&b.d, v.i);
    case IOT_DATA_UINT64: return iot_data_alloc_const_ui64 (&b.d, v.u);
    case IOT_DATA_STRING: return iot_data_alloc_const_string (&b.d, v.s.c_str ());
    default: return iot_data_alloc_const_pointer (&b.d, v.p);
  }
}
static std::string text (const iot_data_t * d) { char * j = iot_data_to_json (d); std::string r = j ? j : "(null)"; free (j); return r; }
static bool casts_equal (const iot_data_t * a, const iot_data_t * b)
{
  for (int t = 0; t <= IOT_DATA_BOOL; t++)
  {
    uint64_t x = 0, y = 0; bool p = iot_data_cast (a, (iot_data_type_t) t, &x), q = iot_data_cast (b, (iot_data_type_t) t, &y);
    if (p != q || (p && x != y)) return false;
  }
  return true;
}

TARGET (constants, 30000, 600000, pbt::LEAK)
{
  pbt::setrule ("constants were freed, referenced, compared, hashed, copied, tagged, rebuilt or used as keys or elements at least three times");
  Opt o;
  unsigned n = 1 + (unsigned) s.draw (5), uses = 0;
  std::vector<V> v (n); std::vector<Box> box (n); std::vector<iot_data_t *> c (n), h (n); std::vector<int> fill (n);
  auto load = [&] (unsigned i)
  {
    v[i] = (i && s.flag ()) ? v[s.draw (i)] : gen_const (s, o); fill[i] = (int) (s.flag () ? 0xff : 0xa5); box_init (box[i], fill[i]);
    c[i] = make (box[i], v[i]); h[i] = build (v[i]);
    note ("constant %u: %s", i, show (v[i]).c_str ());
    CHECK ((void *) c[i] == (void *) &box[i].d, "the constant is not at the address of its storage");
  };
  auto verify = [&] (unsigned i)
  {
    CHECK (box_guard (box[i], fill[i]), "bytes outside the storage of constant %u were written", i);
    CHECK (iot_data_type (c[i]) == v[i].t, "constant %u has type %s", i, iot_data_type_name (c[i]));
    CHECK (iot_data_is_static (c[i]), "constant %u is not static", i);
    CHECK (veq (read (c[i]), v[i]), "constant %u reads %s, expected %s", i, show (read (c[i])).c_str (), show (v[i]).c_str ());
  };
  for (unsigned i = 0; i < n; i++) load (i);
  unsigned ops = 3 + (unsigned) s.len (30, 6);
  for (unsigned k = 0; k < ops; k++)
  {
    Span sp (s); unsigned i = (unsigned) s.draw (n), j = (unsigned) s.draw (n);
    switch (s.draw (11))
    {
      case 0: { unsigned r = 1 + (unsigned) s.draw (4); note ("free constant %u x%u", i, r); while (r--) iot_data_free (c[i]); uses++; break; }
      case 1: { note ("reference constant %u", i); CHECK (iot_data_add_ref (c[i]) == c[i], "add_ref returned another value"); uses++; break; }
      case 2:
      {
        note ("compare %u with ordinary %u", i, j);
        int want = vcmp (v[i], v[j]);
        CHECK (sgn (iot_data_compare (c[i], h[j])) == want && sgn (iot_data_compare (h[j], c[i])) == -want, "compare (%s, %s) is %d", show (v[i]).c_str (), show (v[j]).c_str (), iot_data_compare (c[i], h[j]));
        CHECK (iot_data_equal (c[i], h[j]) == veq (v[i], v[j]) && iot_data_equal (h[j], c[i]) == veq (v[i], v[j]), "equality of constant %s and value %s", show (v[i]).c_str (), show (v[j]).c_str ());
        CHECK (iot_data_equal (c[i], c[j]) == veq (v[i], v[j]), "equality of constants %u and %u", i, j);
        uses++; break;
      }
      case 3: note ("hash %u", i); CHECK (iot_data_hash (c[i]) == iot_data_hash (h[i]), "hash of the constant %s is %u, of the ordinary value %u", show (v[i]).c_str (), iot_data_hash (c[i]), iot_data_hash (h[i])); uses++; break;
      case 4: note ("text and casts of %u", i); CHECK (text (c[i]) == text (h[i]), "text %s differs from %s", text (c[i]).c_str (), text (h[i]).c_str ()); CHECK (casts_equal (c[i], h[i]), "casts differ"); uses++; break;
      case 5:
      {
        note ("copy %u", i); iot_data_t * d = iot_data_copy (c[i]); CHECK (veq (read (d), v[i]), "copy reads %s", show (read (d)).c_str ());
        CHECK (iot_data_equal (d, h[i]), "the copy is not equal"); iot_data_free (d); uses++; break;
      }
      case 6:
      {
        note ("map keyed by constants"); iot_data_t * m = iot_data_alloc_typed_map (IOT_DATA_MULTI, IOT_DATA_MULTI); std::vector<std::pair<V, V>> ref;
        for (unsigned q = 0; q < n; q++)
        {
          unsigned w = (unsigned) s.draw (n); iot_data_map_add (m, iot_data_add_ref (c[q]), iot_data_add_ref (c[w]));
          if (V * e = find_key (ref, v[q])) *e = v[w]; else ref.push_back ({ v[q], v[w] });
        }
        CHECK (iot_data_map_size (m) == ref.size (), "map has %u entries, expected %zu", iot_data_map_size (m), ref.size ());
        for (unsigned q = 0; q < n; q++)
        {
          const iot_data_t * x = iot_data_map_get (m, h[q]); CHECK (x && veq (read (x), *find_key (ref, v[q])), "look-up of constant %u by ordinary key", q);
        }
        if (s.flag ()) { note (" remove %u", i); CHECK (iot_data_map_remove (m, h[i]), "remove by ordinary key"); CHECK (iot_data_map_get (m, c[i]) == NULL, "still present after removal"); }
        iot_data_free (m); uses++; break;
      }
      case 7:
      {
        note ("list and vector of constants"); iot_data_t * l = iot_data_alloc_list (); iot_data_t * vec = iot_data_alloc_vector (n);
        for (unsigned q = 0; q < n; q++) { iot_data_list_head_push (l, c[q]); iot_data_vector_add (vec, q, c[q]); }
        CHECK (iot_data_list_length (l) == n, "list length");
        iot_data_t * x = iot_data_list_tail_pop (l); CHECK (x == c[0], "popped another value"); iot_data_free (x);
        CHECK (iot_data_vector_get (vec, i) == c[i], "vector element"); iot_data_vector_add (vec, i, iot_data_add_ref (h[i]));
        iot_data_free (l); iot_data_free (vec); uses++; break;
      }
      case 8:
      {
        note ("tags of constant %u", i); bool a = s.flag (), b = s.flag ();
        iot_data_set_tag (c[i], IOT_DATA_TAG_USER1, a); iot_data_set_tag (c[i], IOT_DATA_TAG_USER2, b);
        CHECK (iot_data_get_tag (c[i], IOT_DATA_TAG_USER1) == a && iot_data_get_tag (c[i], IOT_DATA_TAG_USER2) == b, "tags"); uses++; break;
      }
      case 9: { note ("reuse the storage of %u", i); iot_data_free (h[i]); load (i); uses++; break; }
      default:
      {
        note ("path through a constant key"); iot_data_t * m = iot_data_alloc_typed_map (IOT_DATA_MULTI, IOT_DATA_MULTI); iot_data_map_add (m, iot_data_add_ref (h[i]), iot_data_add_ref (h[j]));
        iot_data_t * path = iot_data_alloc_list (); iot_data_list_head_push (path, c[i]);
        CHECK (iot_data_get_at (m, path) == h[j], "get_at by constant key"); iot_data_free (path); iot_data_free (m); uses++; break;
      }
    }
    for (unsigned q = 0; q < n; q++) verify (q);
  }
  if (uses >= 3) pbt::nontrivial ();
  for (auto & x : v) { if (x.t == IOT_DATA_STRING) pbt::label ("string constant"); else if (x.t == IOT_DATA_POINTER) pbt::label ("pointer constant"); else pbt::label ("integer constant"); }
  for (unsigned i = 0; i < n; i++) iot_data_free (h[i]);
}

TARGET (const_list, 10000, 200000, pbt::LEAK)
{
  pbt::setrule ("elements were added to and removed from the constant list");
  struct { unsigned char pre[16]; iot_data_list_static_t d; unsigned char post[16]; } b; memset (&b, 0x5a, sizeof b);
  iot_data_t * l = iot_data_alloc_const_list (&b.d); CHECK ((void *) l == (void *) &b.d, "not at the address of its storage");
  CHECK (iot_data_list_length (l) == 0 && iot_data_type (l) == IOT_DATA_LIST && iot_data_is_static (l), "a new constant list is not an empty static list");
  std::vector<V> ref; Opt o; unsigned ops = 2 + (unsigned) s.len (60, 12); bool add = false, del = false;   // ref: tail to head
  auto elem = [&] () { if (!ref.empty () && s.chance (1, 3)) return ref[s.draw (ref.size ())]; return s.draw (3) ? gen_any_scalar (s, o) : gen_value (s, o, 2); };
  for (unsigned k = 0; k < ops; k++)
  {
    Span sp (s);
    switch (s.draw (8))
    {
      case 0: case 1: { V x = elem (); note ("push head %s", show (x).c_str ()); iot_data_list_head_push (l, build (x)); ref.push_back (x); add = true; break; }
      case 2: { V x = elem (); note ("push tail %s", show (x).c_str ()); iot_data_list_tail_push (l, build (x)); ref.insert (ref.begin (), x); add = true; break; }
      case 3: { note ("pop head"); iot_data_t * x = iot_data_list_head_pop (l); CHECK ((x != NULL) == !ref.empty (), "pop head"); if (x) { CHECK (veq (read (x), ref.back ()), "popped %s", show (read (x)).c_str ()); ref.pop_back (); del = true; iot_data_free (x); } break; }
      case 4: { note ("pop tail"); iot_data_t * x = iot_data_list_tail_pop (l); CHECK ((x != NULL) == !ref.empty (), "pop tail"); if (x) { CHECK (veq (read (x), ref[0]), "popped %s", show (read (x)).c_str ()); ref.erase (ref.begin ()); del = true; iot_data_free (x); } break; }
      case 5: { note ("compress"); iot_data_compress (l); std::vector<const iot_data_t *> obj; iot_data_list_iter_t it; iot_data_list_iter (l, &it); while (iot_data_list_iter_next (&it)) obj.push_back (iot_data_list_iter_value (&it));
        CHECK (obj.size () == ref.size (), "compression changes the number of elements");
        for (size_t i = 0; i < obj.size (); i++) for (size_t j = 0; j < i; j++) if (veq (ref[i], ref[j])) CHECK (obj[i] == obj[j], "equal elements %zu and %zu are different objects after compression", j, i); break; }
      case 6: { V w (IOT_DATA_LIST); w.et = IOT_DATA_MULTI; w.e.assign (ref.begin (), ref.end ()); fresh_check (s, l, w, "constant list"); break; }
      default: note ("free"); iot_data_free (l); break;
    }
    CHECK (iot_data_list_length (l) == ref.size (), "length %u, expected %zu", iot_data_list_length (l), ref.size ());
    iot_data_list_iter_t it; iot_data_list_iter (l, &it); size_t i = 0;
    while (iot_data_list_iter_next (&it)) { CHECK (i < ref.size () && veq (read (iot_data_list_iter_value (&it)), ref[i]), "element %zu", i); i++; }
    CHECK (i == ref.size (), "visited %zu of %zu", i, ref.size ());
    for (unsigned char x : b.pre) CHECK (x == 0x5a, "bytes before the storage written"); for (unsigned char x : b.post) CHECK (x == 0x5a, "bytes after the storage written");
  }
  if (add && del) pbt::nontrivial ();
  iot_data_list_empty (l); CHECK (iot_data_list_length (l) == 0, "not empty after emptying");
}

TARGET (tags, 15000, 300000, pbt::LEAK)
{
  pbt::setrule ("both tags of at least two values were set and at least three other operations ran in between");
  unsigned n = 2 + (unsigned) s.draw (3); std::vector<V> v (n); std::vector<iot_data_t *> d (n); std::vector<std::vector<bool>> tag (n, std::vector<bool> (2, false)); std::vector<unsigned> refs (n, 1);
  Opt o; unsigned other = 0; std::vector<int> set (n, 0);
  for (unsigned i = 0; i < n; i++)
  {
    do v[i] = s.flag () ? gen_value (s, o, 2) : gen_scalar (s, o, (T) s.draw (10)); while (v[i].t == IOT_DATA_BOOL || v[i].t == IOT_DATA_NULL || v[i].t == EMPTY);   // bool and null values are shared
    d[i] = build (v[i], &s); note ("value %u: %s", i, show (v[i]).c_str ());
    CHECK (!iot_data_get_tag (d[i], IOT_DATA_TAG_USER1) && !iot_data_get_tag (d[i], IOT_DATA_TAG_USER2), "a new value has a tag set");
  }
  unsigned ops = 3 + (unsigned) s.len (40, 10);
  for (unsigned k = 0; k < ops; k++)
  {
    Span sp (s); unsigned i = (unsigned) s.draw (n), j = (unsigned) s.draw (n);
    switch (s.draw (7))
    {
      case 0: case 1: case 2:
      {
        unsigned t = (unsigned) s.draw (2); bool x = s.flag (); note ("tag %u of %u = %d", t + 1, i, x); bool old = tag[i][t];
        bool got = iot_data_set_tag (d[i], t ? IOT_DATA_TAG_USER2 : IOT_DATA_TAG_USER1, x);
        CHECK (got == old, "set_tag returned %d, the tag was %d", got, (int) old); tag[i][t] = x; set[i] |= 1 << t; break;
      }
      case 3: note ("hash %u", i); iot_data_hash (d[i]); other++; break;
      case 4: note ("reference %u", i); iot_data_add_ref (d[i]); refs[i]++; other++; break;
      case 5: if (refs[i] > 1) { note ("release %u", i); iot_data_free (d[i]); refs[i]--; other++; } break;
      default:
      {
        note ("compare %u %u", i, j); other++;
        bool bad = has_nan (v[i]) || has_nan (v[j]); bool eq = iot_data_equal (d[i], d[j]);
        if (!bad) CHECK (eq == (i == j || veq_typed (v[i], v[j]) || (veq (v[i], v[j]) && eq)), "equality of %s and %s is %d", show (v[i]).c_str (), show (v[j]).c_str (), eq);
        iot_data_t * c = build (v[i]); if (!bad) CHECK (iot_data_equal (d[i], c), "tags changed the equality of %s", show (v[i]).c_str ()); iot_data_free (c);
        break;
      }
    }
    for (unsigned q = 0; q < n; q++)
    {
      for (unsigned t = 0; t < 2; t++) CHECK (iot_data_get_tag (d[q], t ? IOT_DATA_TAG_USER2 : IOT_DATA_TAG_USER1) == tag[q][t], "tag %u of value %u is %d", t + 1, q, !tag[q][t]);
      CHECK (iot_data_ref_count (d[q]) == refs[q], "value %u has %u references, expected %u", q, iot_data_ref_count (d[q]), refs[q]);
      CHECK (veq (read (d[q]), v[q]), "value %u reads %s", q, show (read (d[q])).c_str ());
    }
  }
  int both = 0; for (int x : set) both += x == 3; if (both >= 2 && other >= 3) pbt::nontrivial ();
  for (unsigned i = 0; i < n; i++) while (refs[i]--) iot_data_free (d[i]);
}

TARGET (helpers, 20000, 400000, pbt::LEAK)
{
  pbt::setrule ("a byte sequence of at least two bytes was hashed, or a floating point value was classified");
  std::string x = s.bytes (200, 12); note ("bytes %s", pbt::quoted (x).c_str ());
  unsigned off = (unsigned) s.draw (8); uint8_t * b = (uint8_t *) malloc (x.size () + off); memcpy (b + off, x.data (), x.size ());   // exact size, any alignment
  CHECK (iot_hash_data (b + off, x.size ()) == djb2 (x), "iot_hash_data is %u, expected %u", iot_hash_data (b + off, x.size ()), djb2 (x)); free (b);
  std::string y = x.substr (0, x.find ('\0')); CHECK (iot_hash (y.c_str ()) == djb2 (y), "iot_hash is %u, expected %u", iot_hash (y.c_str ()), djb2 (y));
  iot_data_t * d = iot_data_alloc_string (y.c_str (), IOT_DATA_COPY); CHECK (iot_data_hash (d) == djb2 (y), "hash of the string value"); iot_data_free (d);
  if (x.size () >= 2) pbt::nontrivial ();
  union { uint64_t u; double f; } u64; u64.u = s.flag () ? s.raw64 () : (s.flag () ? 0x7ff0000000000000ull : 0xfff0000000000000ull) | s.draw (3);
  union { uint32_t u; float f; } u32; u32.u = s.flag () ? (uint32_t) s.raw64 () : (s.flag () ? 0x7f800000u : 0xff800000u) | (uint32_t) s.draw (3);
  bool n64 = (u64.u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u64.u & 0xfffffffffffffull), n32 = (u32.u & 0x7f800000u) == 0x7f800000u && (u32.u & 0x7fffffu);
  { d = iot_data_alloc_f64 (u64.f); CHECK (iot_data_is_nan (d) == n64, "is_nan of %a", u64.f); iot_data_free (d); pbt::nontrivial (); pbt::label_if (n64, "NaN"); }
  { d = iot_data_alloc_f32 (u32.f); CHECK (iot_data_is_nan (d) == n32, "is_nan of %a", (double) u32.f); iot_data_free (d); }
  Opt o; V v = gen_value (s, o, 1); if (!is_flt (v.t) && v.t != EMPTY) { d = build (v); CHECK (!iot_data_is_nan (d), "is_nan of %s", show (v).c_str ()); iot_data_free (d); }
  for (int t = 0; t <= IOT_DATA_INVALID; t++) CHECK (iot_data_type_size ((iot_data_type_t) t) == type_bytes ((T) t), "type_size of %d is %u", t, iot_data_type_size ((iot_data_type_t) t));
  const struct { const iot_data_t * d; const char * n; } k[] = { { IOT_DATA_STATIC (&iot_data_consts.category), "category" }, { IOT_DATA_STATIC (&iot_data_consts.config), "config" }, { IOT_DATA_STATIC (&iot_data_consts.name), "name" }, { IOT_DATA_STATIC (&iot_data_consts.state), "state" }, { IOT_DATA_STATIC (&iot_data_consts.type), "type" } };
  for (auto & e : k) { iot_data_free ((iot_data_t *) e.d); CHECK (strcmp (iot_data_string (e.d), e.n) == 0 && iot_data_is_static (e.d), "predefined constant %s", e.n); }
}
