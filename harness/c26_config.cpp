// C26: typed configuration getters against a model of the map.
#include "castref.h"
#include "iot/config.h"
#include "iot/logger.h"
#include "iot/container.h"
using namespace gen; using namespace castref; using pbt::note;

static unsigned g_logged; static std::string g_text;
static void log_count (iot_logger_t *, iot_loglevel_t l, uint64_t, const char * m, const void *) { g_logged++; g_text = m; CHECK (l == IOT_LOG_ERROR, "failure logged at level %d", l); }
static const char * KEYS[] = { "a", "b", "ab", "", "Key", "missing", "long_configuration_key_that_does_not_fit_any_small_block", "\xc3\xbc" };

template <class X> static void number (Src & s, const iot_data_t * map, const V & m, const char * key, T t, bool (*get) (const iot_data_t *, const char *, X *, iot_logger_t *), iot_logger_t * lg, const char * nm)
{
  const V * v = find_key (m.m, vstr (key));
  bool either = false; V want; if (v) want = ref (*v, t, either);
  X buf[3]; memset (buf, 0x5A, sizeof buf); if (t == IOT_DATA_BOOL) memset (buf, s.draw (2), sizeof buf);
  X keep[3]; memcpy (keep, buf, sizeof buf);
  g_logged = 0;
  bool ok = get (map, key, &buf[1], lg);
  note ("%s(%s) of %s -> %d", nm, key, v ? show (*v).c_str () : "nothing", ok);
  CHECK (!memcmp (&buf[0], &keep[0], sizeof (X)) && !memcmp (&buf[2], &keep[2], sizeof (X)), "%s wrote outside the variable", nm);
  if (either) return;
  CHECK (ok == (want.t != EMPTY), "%s %s", nm, ok ? "succeeded although not convertible" : "failed although convertible");
  if (ok) { V got = unpack (t, &buf[1]); CHECK (same (got, want), "%s gives %s expected %s", nm, show (got).c_str (), show (want).c_str ()); pbt::label ("value"); }
  else { CHECK (!memcmp (&buf[1], &keep[1], sizeof (X)), "%s failed but changed the variable", nm); pbt::label (v ? "not convertible" : "missing"); }
  if (lg) CHECK (ok ? g_logged == 0 : (g_logged == 1 && g_text.find (key) != std::string::npos), "%s: %u messages logged", nm, g_logged);
  if (v && v->t != t) pbt::nontrivial ();
}


TARGET (getters, 40000, 2000000, pbt::LEAK)
{
  static bool init = false;
  if (!init) { init = true; iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); pbt::setrule ("a getter is asked for a present key holding a value of another type than it returns, or a text or container of the right type"); }
  Opt o; o.nan = true; o.pointers = true; o.depth = 2; Arena ar;
  V m (IOT_DATA_MAP); m.kt = s.chance (1, 6) ? IOT_DATA_MULTI : IOT_DATA_STRING;
  static const T NT[] = { IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_BOOL, IOT_DATA_FLOAT64 };
  for (int i = 0; i < 8; i++) if (i != 5 && s.draw (4))
  {
    Span sp (s); V x;
    switch (s.weighted ({ 5, 2, 2, 2 }))
    {
      case 0: x = near (s, NUMS[s.draw (11)], NT[s.draw (6)]); break;
      case 1: x = gen_value (s, o, 2); break;
      case 2: x = s.flag () ? vstr (gen_string (s, o)) : vstr (s.flag () ? "123" : "true"); break;
      default: x = gen_of_type (s, o, 2, (T) (IOT_DATA_VECTOR + s.draw (3))); break;
    }
    m.m.push_back ({ vstr (KEYS[i]), x });
  }
  if (m.kt == IOT_DATA_MULTI) m.m.push_back ({ vint (IOT_DATA_INT32, 7), vint (IOT_DATA_INT32, 9) });
  iot_data_t * map = build (m, &s, &ar);
  uint32_t hash = iot_data_hash (map);
  bool own = s.draw (4) != 1; iot_logger_t * lg = own ? iot_logger_alloc_custom ("vp", IOT_LOG_TRACE, true, nullptr, log_count, nullptr, nullptr) : nullptr;
  size_t n = 1 + s.draw (12);
  for (size_t i = 0; i < n; i++)
  {
    Span sp (s);
    char * key = strdup (KEYS[s.draw (8)]);
    const V * v = find_key (m.m, vstr (key)); g_logged = 0;
    switch (s.draw (12))
    {
      case 0: number<int64_t> (s, map, m, key, IOT_DATA_INT64, iot_config_i64, lg, "i64"); break;
      case 1: number<uint64_t> (s, map, m, key, IOT_DATA_UINT64, iot_config_ui64, lg, "ui64"); break;
      case 2: number<int32_t> (s, map, m, key, IOT_DATA_INT32, iot_config_i32, lg, "i32"); break;
      case 3: number<uint32_t> (s, map, m, key, IOT_DATA_UINT32, iot_config_ui32, lg, "ui32"); break;
      case 4: number<bool> (s, map, m, key, IOT_DATA_BOOL, iot_config_bool, lg, "bool"); break;
      case 5: number<double> (s, map, m, key, IOT_DATA_FLOAT64, iot_config_f64, lg, "f64"); break;
      case 6: case 7:
      {
        bool alloc = s.flag (); bool ok = v && v->t == IOT_DATA_STRING;
        const char * r = iot_config_string (map, key, alloc, lg);
        note ("string(%s,%d) of %s", key, alloc, v ? show (*v).c_str () : "nothing");
        CHECK ((r != nullptr) == ok, "string getter %s", r ? "found something" : "found nothing");
        if (ok) { CHECK (v->s == r, "string getter gives %s", pbt::quoted (r).c_str ()); const char * st = iot_data_string (iot_data_string_map_get (map, key)); CHECK (alloc ? r != st : r == st, "copy %d but %s pointer", alloc, r == st ? "stored" : "other"); if (alloc) { ((char *) r)[0] ^= r[0] ? 1 : 0; free ((void *) r); } pbt::nontrivial (); }
        if (lg) CHECK (ok ? !g_logged : g_logged == 1, "%u messages logged", g_logged);
        break;
      }
      case 8: case 9:
      {
        bool alloc = s.flag (); std::string dv = gen_string (s, o); const char * def = s.draw (4) ? dv.c_str () : nullptr;
        const char * r = iot_config_string_default (map, key, def, alloc);
        note ("string_default(%s,%s,%d) of %s", key, def ? pbt::quoted (dv).c_str () : "NULL", alloc, v ? show (*v).c_str () : "nothing");
        if (v && v->t == IOT_DATA_STRING) { CHECK (r && v->s == r, "wrong string"); const char * st = iot_data_string (iot_data_string_map_get (map, key)); CHECK (alloc ? r != st : r == st, "copy %d but %s pointer", alloc, r == st ? "stored" : "other"); pbt::nontrivial (); }
        else if (!def) CHECK (r == nullptr, "no default but a string");
        else { CHECK (r && dv == r, "default not returned"); CHECK (alloc ? r != def : r == def, "copy %d but %s pointer", alloc, r == def ? "default" : "other"); pbt::label ("default"); }
        if (alloc && r) { ((char *) r)[0] ^= r[0] ? 1 : 0; free ((void *) r); }
        break;
      }
      default:
      {
        bool vec = s.flag (); T t = vec ? IOT_DATA_VECTOR : IOT_DATA_MAP; bool ok = v && v->t == t;
        const iot_data_t * r = vec ? iot_config_vector (map, key, lg) : iot_config_map (map, key, lg);
        note ("%s(%s) of %s", vec ? "vector" : "map", key, v ? show (*v).c_str () : "nothing");
        CHECK (r == (ok ? iot_data_string_map_get (map, key) : nullptr), "container getter %s", r ? "returned something else" : "found nothing");
        if (ok) { CHECK (iot_data_ref_count (r) == 1, "reference taken"); pbt::nontrivial (); }
        if (lg) CHECK (ok ? !g_logged : g_logged == 1, "%u messages logged", g_logged);
        break;
      }
    }
    free (key);
  }
  CHECK (hash == iot_data_hash (map) && veq (read (map), m), "map changed by a getter");
  iot_data_free (map); if (lg) iot_logger_free (lg);
}

// component look-up through the configuration
TARGET (component, 3000, 100000, pbt::LEAK)
{
  static bool init = false; if (!init) { init = true; iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE); }
  iot_container_t * c = iot_container_alloc ("vpc");
  iot_logger_t * lg = s.flag () ? iot_logger_alloc_custom ("vp", IOT_LOG_TRACE, true, nullptr, log_count, nullptr, nullptr) : nullptr;
  std::vector<std::string> names; static const char * N[] = { "one", "two", "three", "One", "" };
  V m (IOT_DATA_MAP); m.kt = IOT_DATA_STRING; Opt o;
  for (int i = 0; i < 6; i++) if (s.draw (3)) m.m.push_back ({ vstr (KEYS[i]), s.draw (4) ? vstr (N[s.draw (5)]) : gen_value (s, o, 1) });
  iot_data_t * map = build (m);
  for (size_t i = 0; i < 4; i++)
  {
    Span sp (s); const char * key = KEYS[s.draw (7)]; g_logged = 0;
    iot_component_t * r = iot_config_component (map, key, c, lg);
    CHECK (r == nullptr, "component from an empty container"); if (lg) CHECK (g_logged == 1, "%u messages logged", g_logged);
    pbt::nontrivial ();
  }
  iot_data_free (map); iot_container_free (c); if (lg) iot_logger_free (lg);
}
