/* library loaded by the container in check C34; built several times with another COPY */
#include "iot/container.h"
#include <string.h>
extern iot_component_t * vp_dyn_config (int copy, int k, iot_container_t * cont, const iot_data_t * map);
extern void vp_dyn_free (iot_component_t * c);
extern const char * vp_dyn_type (int copy, int k, int * index);
__attribute__((weak)) int vp_lib_copy (void) { return COPY; }     /* same name in every library: each must use its own */
#define POOL 60000
static union { char raw[sizeof (iot_component_factory_t)]; void * align; } pool[POOL];      /* filled once each, its members are const */
static char names[POOL][24];
#define F(K) \
static iot_component_t * config_##K (iot_container_t * cont, const iot_data_t * map) { return vp_dyn_config (vp_lib_copy (), K, cont, map); } \
const iot_component_factory_t * make_##K (void) \
{ \
  int i; const char * type = vp_dyn_type (vp_lib_copy (), K, &i); iot_component_factory_t * f = (iot_component_factory_t *) &pool[i]; \
  if (f->type == NULL) \
  { \
    int j = 0; do names[i][j] = type[j]; while (type[j++]); \
    iot_component_factory_t v = { .type = names[i], .category = "Dyn", .config_fn = config_##K, .free_fn = vp_dyn_free }; memcpy (&pool[i], &v, sizeof v); \
  } \
  return f; \
}
F(0)
F(1)
F(2)
const iot_component_factory_t * make_null (void) { int i; vp_dyn_type (COPY, -1, &i); return NULL; }
