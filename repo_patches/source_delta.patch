From 2a2a7be475ec054b42df31878483c684cbf83c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 01/61] fix: map iterator has_next after stepping backwards

The step counter does not follow prev, so has_next could report true at the last entry.
---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..d612db7 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2299,7 +2299,7 @@ bool iot_data_map_iter_next (iot_data_map_iter_t * iter)
 bool iot_data_map_iter_has_next (const iot_data_map_iter_t * iter)
 {
   assert (iter && iter->_map);
-  return (iter->_count < iter->_map->size);
+  return iter->_node ? (iot_node_next (iter->_node) != NULL) : (iter->_map->size > 0u);
 }
 
 static inline iot_node_t * iot_node_end (iot_node_t * node)
-- 
2.43.0


From 50ccbfddf96a13c2b058dd43fcace1d3d98d026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 02/61] fix: list iterator has_next on an empty list

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index d612db7..3c97666 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -907,7 +907,7 @@ bool iot_data_list_iter_next (iot_data_list_iter_t * iter)
 bool iot_data_list_iter_has_next (const iot_data_list_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_element == NULL) ||  iter->_element->next);
+  return (iter->_element ? iter->_element->next : iter->_list->tail) != NULL;
 }
 
 bool iot_data_list_iter_prev (iot_data_list_iter_t * iter)
-- 
2.43.0


From 9c97b38d4352846397145a063f5ec0b6110aee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 03/61] fix: vector iterator has_next on an empty vector

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3c97666..e135dcd 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2441,7 +2441,7 @@ bool iot_data_vector_iter_next (iot_data_vector_iter_t * iter)
 
 bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * iter)
 {
-  return ((iter->_index == iter->_vector->size) || (iter->_index + 1 < iter->_vector->size));
+  return (iter->_index == iter->_vector->size) ? (iter->_vector->size > 0u) : (iter->_index + 1 < iter->_vector->size);
 }
 
 bool iot_data_vector_iter_prev (iot_data_vector_iter_t * iter)
-- 
2.43.0


From 88c3f92b25b12892a52b3935107bd0c3f6608d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 04/61] fix: array iterator has_next on an empty array

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index e135dcd..afe2082 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2403,7 +2403,7 @@ bool iot_data_array_iter_next (iot_data_array_iter_t * iter)
 bool iot_data_array_iter_has_next (const iot_data_array_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_index == iter->_array->length) || (iter->_index + 1 < iter->_array->length));
+  return (iter->_index == iter->_array->length) ? (iter->_array->length > 0u) : (iter->_index + 1 < iter->_array->length);
 }
 
 bool iot_data_array_iter_prev (iot_data_array_iter_t * iter)
-- 
2.43.0


From 64d7e7fb14c9f1522e244b23cf699fbdb6abdba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 05/61] fix: iot_data_map_base64_to_array asserts on a map with
 mixed key types

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index afe2082..15eadcb 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1809,7 +1809,7 @@ uint32_t iot_data_map_size (const iot_data_t * map)
 bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * key)
 {
   assert (map && (map->type == IOT_DATA_MAP));
-  assert (key && key->type == map->key_type);
+  assert (key && (key->type == map->key_type || map->key_type == IOT_DATA_MULTI));
 
   iot_data_t * array = NULL;
   const iot_data_map_t * mp = (const iot_data_map_t*) map;
-- 
2.43.0


From d4d1580c8874fb4fa99ac46974140ef894c6c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 06/61] fix: map hash not recalculated after replacing a value
 through an iterator or base64 conversion

---
 src/c/data.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 15eadcb..dfa77f8 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1822,6 +1822,7 @@ bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * ke
     {
       iot_data_free (node->value);
       node->value = array;
+      ((iot_data_t*) map)->rehash = true;
     }
   }
   return (array != NULL);
@@ -2358,7 +2359,12 @@ iot_data_t * iot_data_map_iter_replace_value (const iot_data_map_iter_t * iter,
 {
   assert (iter && iter->_map && value && (iter->_map->base.element_type == IOT_DATA_MULTI || iter->_map->base.element_type == value->type));
   iot_data_t * res = (iter->_node) ? iter->_node->value : NULL;
-  if (res) iter->_node->value = value;
+  if (res)
+  {
+    iot_data_t * base = (iot_data_t*) &iter->_map->base;
+    base->rehash = true;
+    iter->_node->value = value;
+  }
   return res;
 }
 
-- 
2.43.0


From 69d80ea1a991030386bc7208a0ca8c3928496822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 07/61] fix: vector resize discards a pending hash
 recalculation

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index dfa77f8..dc2b1eb 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2050,7 +2050,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  if (vec->size != size) vector->rehash = true;
   vec->size = size;
 }
 
-- 
2.43.0


From c0439e9a288502ad369ac21d42d1285ea795876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 08/61] fix: numeric conversion accepts values just above the
 64 bit integer ranges and NaN

---
 src/c/data.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/c/data.c b/src/c/data.c
index dc2b1eb..3dbc11b 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -496,6 +496,13 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
   // Check value within max/min for target type
   if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
 
+  // 64 bit integer maximums are not representable as a double and NaN has no integer value
+  if (IOT_DATA_IS_INT_TYPE (out_type))
+  {
+    if (dfloat && (uval.f64 != uval.f64 || (out_type == IOT_DATA_INT64 && uval.f64 >= 0x1p63) || (out_type == IOT_DATA_UINT64 && uval.f64 >= 0x1p64))) return false;
+    if (usign && out_type == IOT_DATA_INT64 && uval.ui64 > INT64_MAX) return false;
+  }
+
   // Cast to target type
   switch (out_type)
   {
-- 
2.43.0


From f8dccd69373984482ffa4d464319a5bb096115c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 09/61] fix: value comparison of negative signed with unsigned
 integers

The signed value was converted to unsigned, so -1 compared equal to UINT64_MAX and greater than 0u.
---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3dbc11b..98b95e2 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -545,9 +545,9 @@ static int iot_data_cmp (const iot_data_t * v1, const iot_data_t * v2, bool by_v
       if (IOT_DATA_IS_SIGNED_TYPE (v1->type))
       {
         if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.i64 == uv2.i64) ? 0 : ((uv1.i64 < uv2.i64) ? -1 : 1);
-        return (uv1.i64 == uv2.ui64) ? 0 : ((uv1.i64 < uv2.ui64) ? -1 : 1);
+        return (uv1.i64 < 0) ? -1 : ((uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1));
       }
-      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.ui64 == uv2.i64) ? 0 : ((uv1.ui64 < uv2.i64) ? -1 : 1);
+      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv2.i64 < 0) ? 1 : ((uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1));
       return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
     }
     return (v1->type < v2->type) ? -1 : 1;
-- 
2.43.0


From aa49c1f8f171feda084c52d46e3be5f4def72b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 10/61] fix: hash not updated when incrementing or decrementing
 a value

---
 src/c/data.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 98b95e2..9452e21 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1253,16 +1253,16 @@ static void iot_data_inc_dec (iot_data_t * data, bool inc)
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: data->hash = (uint32_t) (inc ? ++val->i8 : --val->i8); break;
+    case IOT_DATA_UINT8: data->hash = (uint32_t) (inc ? ++val->ui8 : --val->ui8); break;
+    case IOT_DATA_INT16: data->hash = (uint32_t) (inc ? ++val->i16 : --val->i16); break;
+    case IOT_DATA_UINT16: data->hash = (uint32_t) (inc ? ++val->ui16 : --val->ui16); break;
+    case IOT_DATA_INT32: data->hash = (uint32_t) (inc ? ++val->i32 : --val->i32); break;
+    case IOT_DATA_UINT32: data->hash = (uint32_t) (inc ? ++val->ui32 : --val->ui32); break;
+    case IOT_DATA_INT64: data->hash = (uint32_t) (inc ? ++val->i64 : --val->i64); break;
+    case IOT_DATA_UINT64: data->hash = (uint32_t) (inc ? ++val->ui64 : --val->ui64); break;
+    case IOT_DATA_FLOAT32: data->hash = (uint32_t) (inc ? ++val->f32 : --val->f32); break;
+    case IOT_DATA_FLOAT64: data->hash = (uint32_t) (inc ? ++val->f64 : --val->f64); break;
     default: break;
   }
 }
-- 
2.43.0


From 3f29a6ca46ca49193453049e26fd26d4276c3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 11/61] fix: empty array allocated with data leaks the data and
 does not equal other empty arrays

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 9452e21..cb4a5b2 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1592,13 +1592,14 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->base.element_type = type;
   array->data = length ? data : NULL;
   array->length = length;
-  array->base.hash = data ? iot_hash_data (data, size) : 0;
-  array->base.release = data ? (ownership != IOT_DATA_REF) : false;
+  array->base.hash = length ? iot_hash_data (data, size) : 0;
+  array->base.release = length ? (ownership != IOT_DATA_REF) : false;
   if (length && data && (ownership == IOT_DATA_COPY))
   {
     array->data = malloc (size);
     memcpy (array->data, data, size);
   }
+  if (length == 0u && ownership == IOT_DATA_TAKE) free (data);
   return (iot_data_t*) array;
 }
 
-- 
2.43.0


From 35f52d080fd6d3f32df0ab94f52231509fd3aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 12/61] fix: taking the data of a shared array copies too few
 bytes and leaves a stale hash

The copy was allocated with the element count instead of the size in bytes.
---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index cb4a5b2..2873a3d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1545,11 +1545,12 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
-    ret = malloc (array->length);
-    memcpy (ret, array->data, *len);
+    ret = malloc (*len);
+    if (*len) memcpy (ret, array->data, *len);
   }
   return ret;
 }
-- 
2.43.0


From b70347ddca21b17269155f04978eaed6f0bce0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 13/61] fix: compressing a vector with empty elements crashes

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 2873a3d..2e73405 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1083,6 +1083,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Empty vector element
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From 3dbf3050005140c3ebad1746c5bbffaa511ad901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 14/61] fix: copying a pointer that has metadata leaks the
 metadata

---
 src/c/data.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2e73405..7d77497 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2695,9 +2695,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data); // Pointers are shared, so already have the metadata
     }
     default: // basic types
     {
-- 
2.43.0


From 64a7094f0be9814f55a1a1b89968889eaecb84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 15/61] fix: setting metadata on a copy also sets it on the
 original

---
 src/c/data.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 7d77497..5cf116e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -454,7 +454,16 @@ extern void iot_data_set_metadata (iot_data_t * data, iot_data_t * metadata, con
 {
   if (data && metadata && key)
   {
-    if (data->base.meta == NULL) data->base.meta = iot_data_alloc_map (IOT_DATA_MULTI);
+    iot_data_t * meta = data->base.meta;
+    if (meta == NULL)
+    {
+      data->base.meta = iot_data_alloc_map (IOT_DATA_MULTI);
+    }
+    else if (iot_data_ref_count (meta) > 1u) // Shared with a copy
+    {
+      data->base.meta = iot_data_shallow_copy (meta);
+      iot_data_free (meta);
+    }
     iot_data_map_add (data->base.meta, iot_data_add_ref (key), metadata);
   }
 }
-- 
2.43.0


From 8491f1ed44ee8baf781e67ef638a29552d5e7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 16/61] fix: JSON number output reallocates the supplied buffer
 although the text fits

A stack buffer large enough for the text, as documented, was passed to realloc.
---
 src/c/data-json.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..1f02f20 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -49,11 +49,7 @@ static void iot_data_base64_encode (iot_string_holder_t * holder, const iot_data
 
 static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * ptr, const iot_data_type_t type)
 {
-  if (holder->free < IOT_VAL_BUFF_SIZE)
-  {
-    iot_data_holder_realloc (holder, IOT_VAL_BUFF_SIZE);
-  }
-  char * buff = holder->str + holder->size - holder->free - 1;
+  char buff [IOT_VAL_BUFF_SIZE]; // Local, so output only reallocated if value does not fit
   switch (type)
   {
     case IOT_DATA_INT8: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId8 , *(const int8_t *) ptr); break;
@@ -71,7 +67,7 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-  holder->free -= strlen (buff);
+  iot_data_strcat_escape (holder, buff, false);
 }
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
-- 
2.43.0


From de320ba675991dec7b29c2e8e1c9c3d313298269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 17/61] fix: JSON output crashes on empty vector elements and
 is invalid for pointers

---
 src/c/data-json.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 1f02f20..bbe1dcc 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -72,6 +72,11 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Empty vector element
+  {
+    iot_data_strcat (holder, "null");
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_STRING:
@@ -161,7 +166,7 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
       iot_data_strcat (holder, "]");
       break;
     }
-    case IOT_DATA_POINTER: break;
+    case IOT_DATA_POINTER: iot_data_strcat (holder, "null"); break;
     default: iot_data_dump_json_ptr (holder, iot_data_address (data), data->type); break;
   }
 }
-- 
2.43.0


From 8ccef3421858f4d7e76c6de3650bb35503b30dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 18/61] fix: JSON output loses the sign of infinity and writes
 invalid text for NaN

---
 src/c/data-json.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index bbe1dcc..af1f0cc 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -47,6 +47,13 @@ static void iot_data_base64_encode (iot_string_holder_t * holder, const iot_data
   }
 }
 
+static void iot_data_dump_json_float (char * buff, double val, int precision, const char * inf)
+{
+  if (isnan (val)) strncpy (buff, "null", IOT_VAL_BUFF_SIZE); // Not representable in JSON
+  else if (isinf (val)) snprintf (buff, IOT_VAL_BUFF_SIZE, "%s%s", signbit (val) ? "-" : "", inf);
+  else snprintf (buff, IOT_VAL_BUFF_SIZE, "%.*e", precision, val);
+}
+
 static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * ptr, const iot_data_type_t type)
 {
   char buff [IOT_VAL_BUFF_SIZE]; // Local, so output only reallocated if value does not fit
@@ -60,10 +67,8 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_UINT32: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRIu32, *(const uint32_t *) ptr); break;
     case IOT_DATA_INT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId64, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRIu64, *(const uint64_t *) ptr); break;
-    case IOT_DATA_FLOAT32:
-      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
-    case IOT_DATA_FLOAT64:
-      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
+    case IOT_DATA_FLOAT32: iot_data_dump_json_float (buff, *(const float *) ptr, 8, "1e400"); break;
+    case IOT_DATA_FLOAT64: iot_data_dump_json_float (buff, *(const double *) ptr, 16, "1e800"); break;
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-- 
2.43.0


From 0b383ae2ddb32aa4f38913ac62119fbb7cfb7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 19/61] fix: JSON output invalid for maps with binary or
 container keys

---
 src/c/data-json.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index af1f0cc..314c2f6 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -134,9 +134,18 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
         if (value)
         {
           if (! first) iot_data_strcat (holder, ",");
-          if (iot_data_type (key) != IOT_DATA_STRING) iot_data_add_quote (holder);
-          iot_data_dump_json (holder, key);
-          if (iot_data_type (key) != IOT_DATA_STRING) iot_data_add_quote (holder);
+          if (iot_data_type (key) == IOT_DATA_STRING || iot_data_type (key) == IOT_DATA_BINARY)
+          {
+            iot_data_dump_json (holder, key);
+          }
+          else
+          {
+            char * str = iot_data_to_json (key); // Key may itself contain quotes
+            iot_data_add_quote (holder);
+            iot_data_strcat (holder, str);
+            iot_data_add_quote (holder);
+            free (str);
+          }
           iot_data_strcat (holder, ":");
           iot_data_dump_json (holder, value);
           first = false;
-- 
2.43.0


From 1323d2eab791e4ba315f5e0e825239c4e93945cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 20/61] fix: JSON unicode escapes outside ASCII corrupt memory
 in the C locale

The result of c32rtomb is locale dependent and its failure moved the output pointer back.
Surrogate pairs were not combined.
---
 src/c/data-json.c | 50 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 314c2f6..f67556f 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,7 +8,6 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
-#include <uchar.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -208,6 +207,37 @@ extern char * iot_data_to_json_with_buffer (const iot_data_t * data, char * buff
   return holder.str;
 }
 
+static char * iot_data_utf8_encode (char * dst, uint32_t code)
+{
+  if (code >= 0xd800u && code <= 0xdfffu) code = 0xfffdu; // Unpaired surrogate
+  if (code < 0x80u)
+  {
+    *dst++ = (char) code;
+  }
+  else
+  {
+    if (code < 0x800u)
+    {
+      *dst++ = (char) (0xc0u | (code >> 6u));
+    }
+    else
+    {
+      if (code < 0x10000u)
+      {
+        *dst++ = (char) (0xe0u | (code >> 12u));
+      }
+      else
+      {
+        *dst++ = (char) (0xf0u | (code >> 18u));
+        *dst++ = (char) (0x80u | ((code >> 12u) & 0x3fu));
+      }
+      *dst++ = (char) (0x80u | ((code >> 6u) & 0x3fu));
+    }
+    *dst++ = (char) (0x80u | (code & 0x3fu));
+  }
+  return dst;
+}
+
 static char * iot_data_string_from_json_token (const char * json, const iot_json_tok_t * token)
 {
   size_t len = (size_t) (token->end - token->start);
@@ -230,12 +260,20 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
           case 'u':
             if (src + 4 < json + token->start + len)
             {
-              char32_t wc;
-              mbstate_t ps = { 0 };
-              sscanf (++src, "%4" SCNx32, &wc);
-              size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
+              uint32_t code = 0;
+              sscanf (++src, "%4" SCNx32, &code);
               src += 3;
+              if (code >= 0xd800u && code <= 0xdbffu && (src + 6 < json + token->start + len) && src[1] == '\\' && src[2] == 'u')
+              {
+                uint32_t low = 0;
+                sscanf (src + 3, "%4" SCNx32, &low);
+                if (low >= 0xdc00u && low <= 0xdfffu) // Surrogate pair
+                {
+                  code = 0x10000u + ((code - 0xd800u) << 10u) + (low - 0xdc00u);
+                  src += 6;
+                }
+              }
+              dst = iot_data_utf8_encode (dst, code);
             }
             break;
           default:
-- 
2.43.0


From d480e426812c17cb0df0c4c1ea5ec118a5ea58d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 21/61] fix: malformed JSON objects read beyond the parsed
 tokens

---
 src/c/data-json.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index f67556f..69b22f3 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -343,7 +343,7 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
     }
   }
   free (str);
-  return ret;
+  return ret ? ret : iot_data_alloc_null ();
 }
 
 static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
@@ -354,12 +354,13 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
   uint32_t i = 0;
 
   (*tokens)++;
-  while  (elements--)
+  while (elements-- && (*tokens)->type != IOT_JSON_UNDEFINED)
   {
     iot_data_t * key = iot_data_string_from_json (tokens, json, cache);
     if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
     iot_data_map_add (map, key, iot_data_value_from_json (tokens, json, ordered, cache));
   }
+  if (ordered) iot_data_vector_resize (ordering, i);
   if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
 }
@@ -371,7 +372,7 @@ static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const c
   iot_data_t * vector = iot_data_alloc_vector (elements);
 
   (*tokens)++;
-  while (elements--)
+  while (elements-- && (*tokens)->type != IOT_JSON_UNDEFINED)
   {
     iot_data_vector_add (vector, index++, iot_data_value_from_json (tokens, json, ordered, cache));
   }
@@ -383,6 +384,7 @@ static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const ch
   iot_data_t * data = NULL;
   switch ((*tokens)->type)
   {
+    case IOT_JSON_UNDEFINED: data = iot_data_alloc_null (); break; // Key without value
     case IOT_JSON_PRIMITIVE: data = iot_data_primitive_from_json (tokens, json); break;
     case IOT_JSON_OBJECT: data = iot_data_map_from_json (tokens, json, ordered, cache); break;
     case IOT_JSON_ARRAY: data = iot_data_vector_from_json (tokens, json, ordered, cache); break;
@@ -425,12 +427,12 @@ extern iot_data_t * iot_data_from_json_with_cache (const char * json, bool order
       }
       ptr++;
     }
-    iot_json_tok_t *tokens = calloc (1, sizeof (*tokens) * count);
+    iot_json_tok_t *tokens = calloc (count + 1u, sizeof (*tokens)); // Undefined token ends parsed tokens
     iot_json_tok_t *tptr = tokens;
 
     iot_json_init (&parser);
     used = iot_json_parse (&parser, json, strlen (json), tptr, count);
-    if (used && (used <= count))
+    if (used > 0 && ((uint32_t) used <= count))
     {
       iot_data_t * km = cache ? cache : iot_data_alloc_map (IOT_DATA_STRING);
       data = iot_data_value_from_json (&tptr, json, ordered, km);
-- 
2.43.0


From 6ecbac58c13b308f6e03853ff6ee7333752b4b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 22/61] fix: JSON integers beyond 64 bits read as the largest
 64 bit integer

---
 src/c/data-json.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 69b22f3..df133e3 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,6 +8,7 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
+#include <errno.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -320,23 +321,26 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
   {
     case 't': case 'f': ret = iot_data_alloc_bool (str[0] == 't'); break; // true/false
     case 'n': ret = iot_data_alloc_null (); break; // null
-    default: // Handle all floating point numbers as doubles, all integers as int64_t unless to big in which case as uint64_t
+    default: // Handle all floating point numbers as doubles, all integers as int64_t unless too big in which case as uint64_t, or double if bigger
     {
+      char * end;
       if (strchr (str, '.') || strchr (str, 'e') || strchr (str, 'E'))
       {
         ret = iot_data_alloc_f64 (strtod (str, NULL));
       }
       else if (strchr (str, '-'))
       {
-        int64_t i64;
-        if (sscanf (str,"%"SCNd64, &i64) == 1) ret = iot_data_alloc_i64 (i64);
+        errno = 0;
+        int64_t i64 = strtoll (str, &end, 10);
+        if (end != str) ret = errno ? iot_data_alloc_f64 (strtod (str, NULL)) : iot_data_alloc_i64 (i64);
       }
       else
       {
-        uint64_t ui64;
-        if (sscanf (str,"%"SCNu64, &ui64) == 1)
+        errno = 0;
+        uint64_t ui64 = strtoull (str, &end, 10);
+        if (end != str)
         {
-          ret = (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
+          ret = errno ? iot_data_alloc_f64 (strtod (str, NULL)) : (ui64 <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) ui64) : iot_data_alloc_ui64 (ui64);
         }
       }
       break;
-- 
2.43.0


From 68e126216c11a3d4bd49eb94dc6b30a4851f6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 23/61] fix: array transform reads beyond the end of the array

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 5cf116e..2670fdc 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -752,8 +752,9 @@ iot_data_t * iot_data_array_transform (const iot_data_t * array, iot_data_type_t
     iot_data_array_iter (array, &iter);
     while (iot_data_array_iter_next (&iter))
     {
-      const iot_data_union_t * element = iot_data_array_iter_value (&iter);
-      if (iot_data_cast_val (*element, ptr, array->element_type, type))
+      iot_data_union_t element = { .ui64 = 0u };
+      memcpy (&element, iot_data_array_iter_value (&iter), iot_data_type_sizes[array->element_type]);
+      if (iot_data_cast_val (element, ptr, array->element_type, type))
       {
         ptr += esize;
         asize++;
-- 
2.43.0


From 1a39e643a99f2750f1b9be7aeab867e64bfdeab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 24/61] fix: CBOR floats with small bit patterns written as
 integers or simple values

The bits of a float are always written in full, zero was written as a one byte simple value.
---
 src/c/data-cbor.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..b2e6619 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -73,6 +73,24 @@ static void iot_data_cbor_write_uint (iot_cbor_holder_t * holder, uint64_t value
   }
 }
 
+static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint32_t value;
+  memcpy (&value, ptr, sizeof (value));
+  value = htobe32 (value);
+  iot_data_cbor_write_bytes (holder, "\xfa", 1);
+  iot_data_cbor_write_bytes (holder, &value, sizeof (value));
+}
+
+static void iot_data_cbor_write_f64 (iot_cbor_holder_t * holder, const void * ptr)
+{
+  uint64_t value;
+  memcpy (&value, ptr, sizeof (value));
+  value = htobe64 (value);
+  iot_data_cbor_write_bytes (holder, "\xfb", 1);
+  iot_data_cbor_write_bytes (holder, &value, sizeof (value));
+}
+
 static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
 {
   iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
@@ -90,8 +108,8 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
     case IOT_DATA_UINT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0); break;
     case IOT_DATA_INT64: iot_data_cbor_write_int (holder, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0); break;
-    case IOT_DATA_FLOAT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0xe0); break;
-    case IOT_DATA_FLOAT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0xe0); break;
+    case IOT_DATA_FLOAT32: iot_data_cbor_write_f32 (holder, ptr); break;
+    case IOT_DATA_FLOAT64: iot_data_cbor_write_f64 (holder, ptr); break;
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1); holder->data[holder->index++] = 0xf6; break;
     default:
@@ -128,21 +146,11 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_data_cbor_write_int (holder, iot_data_i64 (data));
       break;
     case IOT_DATA_FLOAT32:
-    {
-      uint32_t v;
-      float f = iot_data_f32 (data);
-      memcpy (&v, &f, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f32 (holder, iot_data_address (data));
       break;
-    }
     case IOT_DATA_FLOAT64:
-    {
-      uint64_t v;
-      double d = iot_data_f64 (data);
-      memcpy (&v, &d, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f64 (holder, iot_data_address (data));
       break;
-    }
     case IOT_DATA_BOOL:
       iot_cbor_holder_check_size (holder, 1);
       holder->data[holder->index++] = iot_data_bool (data) ? 0xf5 : 0xf4;
-- 
2.43.0


From 2623ae912912636ae24824deea00b15eece6ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 25/61] fix: CBOR output crashes on empty vector elements and
 is malformed for pointers

---
 src/c/data-cbor.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index b2e6619..17f1629 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -119,6 +119,11 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
 
 static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * data)
 {
+  if (data == NULL) // Empty vector element
+  {
+    iot_data_cbor_write_bytes (holder, "\xf6", 1);
+    return;
+  }
   switch (data->type)
   {
     case IOT_DATA_UINT8:
@@ -155,8 +160,6 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_cbor_holder_check_size (holder, 1);
       holder->data[holder->index++] = iot_data_bool (data) ? 0xf5 : 0xf4;
       break;
-    case IOT_DATA_POINTER:
-      break;
     case IOT_DATA_STRING:
     {
       const char *str = iot_data_string (data);
@@ -165,6 +168,7 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_data_cbor_write_bytes (holder, str, len);
       break;
     }
+    case IOT_DATA_POINTER: // Cannot be represented
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1);
       holder->data[holder->index++] = 0xf6;
-- 
2.43.0


From f13793adb1e9c3ffd9467821b398fb46fcb15f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 26/61] fix: incomplete or empty XML not rejected

---
 src/c/data-xml.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 37b7a1e..d9386a1 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -100,6 +100,11 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
       default: break;
     }
   }
+  if (more && elem) // Text ended before element
+  {
+    iot_data_free (elem);
+    elem = NULL;
+  }
   return elem;
 }
 
-- 
2.43.0


From 0d8aaeb5de76749c384a2fab977af77026390ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 27/61] fix: XML character references to U+E000 to U+E7FD
 rejected and to surrogates accepted

---
 src/c/yxml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 7007a5f..bc475e2 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -316,7 +316,7 @@ static yxml_ret_t yxml_refend(yxml_t *x, yxml_ret_t ret) {
 	}
 
 	/* Codepoints not allowed in the XML 1.1 definition of a Char */
-	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xDFFF) < 0x7FF)
+	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xD800) < 0x800)
 		return YXML_EREF;
 	yxml_setutf8(x->data, ch);
 	return ret;
-- 
2.43.0


From c8dad2f3efcf3b6ad78ea04ff870d1afa10f6cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 28/61] fix: XML character references above U+FFFFF rejected

---
 src/c/yxml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/yxml.h b/src/c/yxml.h
index 9992bc3..96fbd2b 100644
--- a/src/c/yxml.h
+++ b/src/c/yxml.h
@@ -93,7 +93,7 @@ typedef struct {
 	 * - "&#N;" and "&#xN;", where dec(n) > 127. The referenced Unicode
 	 *   character is then encoded in multiple UTF-8 bytes.
 	 */
-	char data[8];
+	char data[9];
 
 	/* Name of the current attribute. Changed after YXML_ATTRSTART, valid up to
 	 * and including the next YXML_ATTREND. */
-- 
2.43.0


From 35423faaf633c3cff2f2905f60557cf9b10c8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 29/61] fix: YAML integers beyond 64 bits read as wrapped or
 limit values

They are read as floating point, like JSON. The largest signed value is also no longer read as unsigned.
---
 src/c/data-yaml.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index b6d4c4d..ad489e1 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -6,6 +6,7 @@
 #include "iot/data.h"
 #include "data-impl.h"
 #include <math.h>
+#include <errno.h>
 #include <yaml.h>
 
 static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
@@ -38,18 +39,20 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
       char *e;
       if (*val == '-')
       {
+        errno = 0;
         long long ll = strtoll (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
           ret = iot_data_alloc_i64 (ll);
         }
       }
-      if (ret == NULL)
+      else
       {
+        errno = 0;
         unsigned long long ull = strtoull (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
-          ret = ull < INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
+          ret = ull <= INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
         }
       }
       if (ret == NULL)
-- 
2.43.0


From 836a9c012475a1b417a0c4f25b723888d1572dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 30/61] fix: YAML plain words such as nan and infinity read as
 floats

---
 src/c/data-yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index ad489e1..c727169 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -55,7 +55,7 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
           ret = ull <= INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
         }
       }
-      if (ret == NULL)
+      if (ret == NULL && strspn (val, "0123456789+-.eE") == strlen (val)) // Not words such as nan or infinity
       {
         double d = strtod (val, &e);
         if (*e == '\0')
-- 
2.43.0


From 5caf4b2991eea7e4bc08dc58c622c3e860698149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 31/61] fix: YAML aliases ignored, following map keys read as
 values

---
 src/c/data-yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index c727169..efe887d 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -101,6 +101,9 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
       case YAML_SEQUENCE_END_EVENT:
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        *exception = iot_data_alloc_string_fmt ("Unsupported alias at line %zu", event.start_mark.line);
+        break;
       default:
         break;
     }
@@ -157,6 +160,9 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
       case YAML_MAPPING_END_EVENT:
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        *exception = iot_data_alloc_string_fmt ("Unsupported alias at line %zu", event.start_mark.line);
+        break;
       default:
         break;
     }
-- 
2.43.0


From 1c50ddc15a4985542ce95df53689e2c3053c615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 32/61] fix: YAML syntax error after the top level value not
 reported

---
 src/c/data-yaml.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index efe887d..95b36f6 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -215,16 +215,14 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
     {
       case YAML_SCALAR_EVENT:
         result = iot_data_value_from_yaml (&event);
-        done = true;
         break;
       case YAML_MAPPING_START_EVENT:
         result = iot_data_map_from_yaml (&parser, exception);
-        done = true;
         break;
       case YAML_SEQUENCE_START_EVENT:
         result = iot_data_vector_from_yaml (&parser, exception);
-        done = true;
         break;
+      case YAML_DOCUMENT_END_EVENT:
       case YAML_STREAM_END_EVENT:
         done = true;
         break;
@@ -232,8 +230,13 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
         break;
     }
     yaml_event_delete (&event);
-  } while (!done);
+  } while (!done && *exception == NULL);
 
+  if (*exception)
+  {
+    iot_data_free (result);
+    result = NULL;
+  }
   yaml_parser_delete (&parser);
   return result;
 }
-- 
2.43.0


From c16e85ced5f1394fe18fb0b8573008288c8c99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 33/61] fix: integers from text outside the type's range
 accepted as wrapped values

---
 src/c/data.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2670fdc..c2f89f1 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -10,6 +10,7 @@
 #include "iot/uuid.h"
 #include <stdarg.h>
 #include <float.h>
+#include <errno.h>
 
 #define IOT_DATA_IS_COMPOSED_TYPE(t) ((t) >= IOT_DATA_VECTOR && (t) <= IOT_DATA_MAP)
 #define IOT_DATA_IS_FLOAT_TYPE(t) ((t) == IOT_DATA_FLOAT32 || (t) == IOT_DATA_FLOAT64)
@@ -1227,15 +1228,35 @@ void iot_data_free (iot_data_t * data)
   }
 }
 
+static bool iot_data_scan_number (iot_data_type_t type, const char * value, iot_data_union_t * un)
+{
+  if (type == IOT_DATA_FLOAT32) return (sscanf (value, "%f", &un->f32) == 1);
+  if (type == IOT_DATA_FLOAT64) return (sscanf (value, "%lf", &un->f64) == 1);
+
+  char * end = NULL;
+  iot_data_union_t val = { 0 };
+  iot_data_type_t val_type = IOT_DATA_IS_SIGNED_TYPE (type) ? IOT_DATA_INT64 : IOT_DATA_UINT64;
+  errno = 0;
+  if (val_type == IOT_DATA_INT64)
+  {
+    val.i64 = strtoll (value, &end, 10);
+  }
+  else
+  {
+    val.ui64 = strtoull (value, &end, 10);
+    if (val.ui64 && memchr (value, '-', (size_t) (end - value))) return false; // Negative values wrap
+  }
+  return (end != value) && (errno != ERANGE) && iot_data_cast_val (val, un, val_type, type);
+}
+
 iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * value)
 {
-  static const char * fmt [] =  { "%"SCNd8,"%"SCNu8,"%"SCNd16,"%"SCNu16,"%"SCNd32,"%"SCNu32,"%"SCNd64,"%"SCNu64,"%f","%lf" };
   assert (value && ((type == IOT_DATA_STRING) || strlen (value)));
 
   if (type < IOT_DATA_BOOL)
   {
     iot_data_union_t un = { 0 };
-    if (sscanf (value, fmt[type], &un) == 1)
+    if (iot_data_scan_number (type, value, &un))
     {
       switch (type)
       {
-- 
2.43.0


From 5855125cf85e5b394360281056799ebb349ca1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 34/61] fix: reading at a path that does not match the data
 crashes

The documented result is NULL.
---
 src/c/data.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index c2f89f1..0c7c9cb 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2812,16 +2812,23 @@ extern iot_data_t * iot_data_shallow_copy (const iot_data_t * src)
   return result;
 }
 
+static const iot_data_t * iot_data_get_child (const iot_data_t * data, const iot_data_t * index)
+{
+  if (data->type == IOT_DATA_MAP) return iot_data_map_get (data, index);
+  if ((data->type != IOT_DATA_VECTOR) || (index->type != IOT_DATA_UINT32)) return NULL;
+  return (iot_data_ui32 (index) < iot_data_vector_size (data)) ? iot_data_vector_get (data, iot_data_ui32 (index)) : NULL;
+}
+
 extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_data_t * path)
 {
   assert (data && path);
   const iot_data_t * result = data;
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
+    const iot_data_t * child = iot_data_get_child (data, index);
+    result = child ? iot_data_get_at (child, p) : NULL;
     iot_data_free (index);
     iot_data_free (p);
   }
-- 
2.43.0


From 8b2d9e8ef56788231f1840f3b5eb6050044488f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:57 +0000
Subject: [PATCH 35/61] fix: adding a new map key or filling an empty vector
 slot at a path crashes

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 0c7c9cb..6edd1d3 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2851,9 +2851,10 @@ extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t *
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     result = iot_data_shallow_copy (data);
+    iot_data_t * child = (iot_data_list_length (p) > 0) ? iot_data_add_at (iot_data_get_child (data, index), p, val) : val;
     (data->type == IOT_DATA_MAP) ?
-      iot_data_map_add (result, iot_data_add_ref (index), iot_data_add_at (iot_data_map_get (data, index), p, val)) :
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_add_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, val));
+      iot_data_map_add (result, iot_data_add_ref (index), child) :
+      iot_data_vector_add (result, iot_data_ui32 (index), child);
     iot_data_free (index);
     iot_data_free (p);
   }
-- 
2.43.0


From eaf9576318c6a89bf434fcbf58e7b4d3a8205bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 36/61] fix: removing or updating at a path that does not match
 the data crashes

Nothing is removed or updated, as already for absent map keys.
---
 src/c/data.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6edd1d3..311c6d9 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2871,26 +2871,27 @@ extern iot_data_t * iot_data_remove_at (const iot_data_t * data, const iot_data_
   iot_data_t * result = iot_data_shallow_copy (data);
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
+    const iot_data_t * child = iot_data_get_child (data, index);
+    bool last = (iot_data_list_length (p) == 0);
     if (data->type == IOT_DATA_MAP)
     {
-      if (iot_data_list_length (p) > 0)
+      if (!last)
       {
-        iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (iot_data_map_get (result, index), p));
+        if (child) iot_data_map_add (result, iot_data_add_ref (index), iot_data_remove_at (child, p));
       }
       else
       {
         iot_data_map_remove (result, index);
       }
     }
-    else
+    else if (data->type == IOT_DATA_VECTOR && index->type == IOT_DATA_UINT32 && iot_data_ui32 (index) < iot_data_vector_size (data))
     {
       uint32_t i = iot_data_ui32 (index);
-      if (iot_data_list_length (p) > 0)
+      if (!last)
       {
-        iot_data_vector_add (result, i, iot_data_remove_at (iot_data_vector_get (result, i), p));
+        if (child) iot_data_vector_add (result, i, iot_data_remove_at (child, p));
       }
       else
       {
@@ -2917,14 +2918,14 @@ extern iot_data_t * iot_data_update_at (const iot_data_t * data, const iot_data_
     result = iot_data_shallow_copy (data);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
-    if (data->type == IOT_DATA_MAP)
+    const iot_data_t * val = iot_data_get_child (data, index);
+    if (val && data->type == IOT_DATA_MAP)
     {
-      const iot_data_t * val = iot_data_map_get (data, index);
-      if (val) iot_data_map_add (result, iot_data_add_ref (index), iot_data_update_at (val, p, fn, arg));
+      iot_data_map_add (result, iot_data_add_ref (index), iot_data_update_at (val, p, fn, arg));
     }
-    else if (data->type == IOT_DATA_VECTOR)
+    else if (val)
     {
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, fn, arg));
+      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (val, p, fn, arg));
     }
     iot_data_free (index);
     iot_data_free (p);
-- 
2.43.0


From 864b3c03bae58ca4d39fb479ad382afc7b7507e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 37/61] fix: dimensions of vectors of mixed depth written
 beyond their array

Vectors nested to different depths and empty vectors beside others were accepted as rectangular.
---
 src/c/data.c | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 311c6d9..73e4ad4 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2136,43 +2136,29 @@ static inline uint32_t iot_data_vector_dimension (const iot_data_t * vector)
 
 static uint32_t iot_data_vector_depth (const iot_data_t * vector)
 {
-  uint32_t depth = 0u;
-  if (iot_data_vector_dimension (vector))
+  uint32_t depth = 1u;
+  while (iot_data_vector_dimension (vector))
   {
-    iot_data_vector_iter_t iter;
-    iot_data_vector_iter (vector, &iter);
-    while (iot_data_vector_iter_next (&iter))
-    {
-      uint32_t dp = iot_data_vector_depth (iot_data_vector_iter_value (&iter));
-      if (depth == 0) depth = dp;
-      if (dp != depth) // All vector sub-dimensions must be the same depth
-      {
-        depth = 0;
-        break;
-      }
-    }
+    vector = iot_data_vector_get (vector, 0u);
+    depth++;
   }
-  return depth + 1u;
+  return depth;
 }
 
-static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t * total)
+static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t depth, bool first)
 {
   uint32_t size = iot_data_vector_size (vector);
-  uint32_t vecs = iot_data_vector_element_count (vector, IOT_DATA_VECTOR, false);
-  if (*dims == 0)
-  {
-    *dims = size;
-    *total = *total ? *total * size : size;
-  }
-  bool ok = (*dims == size);
-  if (ok && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors
+  bool multi = (iot_data_vector_dimension (vector) > 0u); // Only regard as multidimensional vector if all elements also vectors
+  if (first) *dims = size;
+  bool ok = (*dims == size) && (multi == (depth > 1u)); // All vector sub-dimensions must be the same size and depth
+  if (ok && multi)
   {
-    dims++;
     iot_data_vector_iter_t iter;
     iot_data_vector_iter (vector, &iter);
     while (ok && iot_data_vector_iter_next (&iter))
     {
-      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, total);
+      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims + 1, depth - 1u, first);
+      first = false;
     }
   }
   return ok;
@@ -2185,14 +2171,15 @@ iot_data_t * iot_data_vector_dimensions (const iot_data_t * vector, uint32_t * t
   uint32_t depth = iot_data_vector_depth (vector);
   uint32_t * dims = calloc (depth, sizeof (uint32_t));
   *total = 0u;
-  if (iot_data_vector_dims (vector, dims, total))
+  if (iot_data_vector_dims (vector, dims, depth, true))
   {
+    *total = 1u;
+    for (uint32_t i = 0; i < depth; i++) *total *= dims[i];
     dimarray = iot_data_alloc_array (dims, depth, IOT_DATA_UINT32, IOT_DATA_TAKE);
   }
   else
   {
     free (dims);
-    *total = 0u;
   }
   return dimarray;
 }
-- 
2.43.0


From 4fa0b8a2fdf6f379784a85d0d7a4e043ab86cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 38/61] fix: infinite 32 bit floats dropped when converted to
 their own type

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 73e4ad4..86d9005 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -504,7 +504,7 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
     default: uval.ui64 = in.bl ? 1u : 0u; break;
   }
   // Check value within max/min for target type
-  if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
+  if ((out_type < IOT_DATA_FLOAT64) && (in_type != out_type) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
 
   // 64 bit integer maximums are not representable as a double and NaN has no integer value
   if (IOT_DATA_IS_INT_TYPE (out_type))
-- 
2.43.0


From 02e7215ead89214b0e4decde6ff19d5ffde2f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:20 +0000
Subject: [PATCH 39/61] fix: iot_threadpool_wait wakes only one of several
 waiting threads

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From a93b19b43cd97380a30d8a543bb37a4f2e5bc8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 40/61] fix: wake up of the scheduler lost while it is between
 two waits

---
 src/c/scheduler.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..f97369f 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,19 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+
+    /* Calculate next execution time, while locked so that no wake up can be missed before the wait */
+    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time);
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -174,7 +178,7 @@ static void * iot_scheduler_thread (void * arg)
     }
 
     /* Get the schedule at the front of the queue */
-    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    current = iot_schedule_queue_next (queue);
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -250,10 +254,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From f184d8b7c6fecaa426be0a33753ddad3f9023f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 41/61] fix: schedule with a repeat count runs for ever when
 added again

---
 src/c/scheduler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index f97369f..a1ec0b6 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -31,6 +31,7 @@ struct iot_schedule_t
   uint64_t period;                   /* The period of the schedule, in ns */
   uint64_t start;                    /* The start time of the schedule, in ns */
   uint64_t repeat;                   /* The number of repetitions, 0 == infinite */
+  uint64_t remaining;                /* The number of repetitions still to run, if not infinite */
   uint64_t id;                       /* Schedule unique id */
   _Atomic uint64_t dropped;          /* Number of events dropped */
   _Atomic bool concurrent;           /* Whether a schedule can be concurrently executed */
@@ -238,7 +239,7 @@ static void * iot_scheduler_thread (void * arg)
         /* Recalculate the next start time for the schedule */
         next = current->period + iot_time_nsecs ();
 
-        if ((current->repeat > 0u) && (--(current->repeat) == 0u)) // Last repetition
+        if ((current->remaining > 0u) && (--(current->remaining) == 0u)) // Last repetition
         {
           iot_log_trace (scheduler->logger, "Schedule #%" PRIu64 " now idle", current->id);
           iot_schedule_queue_remove (scheduler, current);
@@ -306,6 +307,7 @@ iot_schedule_t * iot_schedule_create (iot_scheduler_t * scheduler, iot_schedule_
   schedule->period = period;
   schedule->start = iot_time_nsecs () + delay;
   schedule->repeat = repeat;
+  schedule->remaining = repeat;
   schedule->threadpool = pool;
   schedule->priority = priority;
   schedule->id = atomic_fetch_add (&schedule_id_counter, 1u);
@@ -329,6 +331,7 @@ bool iot_schedule_add (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
   iot_component_lock (&scheduler->component);
   if ((ret = !schedule->scheduled))
   {
+    if (schedule->remaining == 0u) schedule->remaining = schedule->repeat; // All repetitions done, so repeat again
     /* Remove from idle map, add to scheduled queue */
     iot_schedule_idle_remove (scheduler, schedule);
     bool front = iot_schedule_queue_add (scheduler, schedule);
-- 
2.43.0


From d0c7a43b437cc31887cc492fc512fdb7cbf87830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 42/61] fix: removed schedule runs again when its thread cannot
 be created

---
 src/c/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index a1ec0b6..8a1d623 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -224,7 +224,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
-- 
2.43.0


From 001115b987d5e2540aee234be2da891ce35ddb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:25 +0000
Subject: [PATCH 43/61] fix: scheduler freed while its thread still uses it

---
 src/c/scheduler.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 8a1d623..bd4433e 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -50,6 +50,7 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  bool active;                    /* Whether scheduler thread is active */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -258,6 +259,8 @@ static void * iot_scheduler_thread (void * arg)
     }
     iot_component_unlock (&scheduler->component);
   }
+  scheduler->active = false;
+  pthread_cond_broadcast (&scheduler->component.cond); // Signal thread exiting
   iot_component_unlock (&scheduler->component);
   return NULL;
 }
@@ -271,7 +274,11 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  scheduler->active = true;
+  if (! iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger))
+  {
+    scheduler->active = false;
+  }
   return scheduler;
 }
 
@@ -444,9 +451,13 @@ void iot_scheduler_free (iot_scheduler_t * scheduler)
   {
     iot_log_trace (scheduler->logger, "iot_scheduler_free");
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
-    iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
+    iot_component_lock (&scheduler->component);
+    while (scheduler->active) // Wait until schedule thread has exited
+    {
+      pthread_cond_wait (&scheduler->component.cond, &scheduler->component.mutex);
+    }
+    iot_component_unlock (&scheduler->component);
     iot_scheduler_free_schedules (scheduler->queue);
     iot_scheduler_free_schedules (scheduler->idle);
     iot_logger_free (scheduler->logger);
-- 
2.43.0


From 0b848c943d51618e063aaa860e0b878a416318d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 44/61] fix: wake up of the scheduler taken by a thread waiting
 for its state

---
 src/c/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index bd4433e..356ac1d 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -346,7 +346,7 @@ bool iot_schedule_add (iot_scheduler_t * scheduler, iot_schedule_t * schedule)
     /* If the schedule was placed and the front of the queue and the scheduler is running */
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   iot_component_unlock (&scheduler->component);
@@ -382,7 +382,7 @@ void iot_schedule_reset (iot_scheduler_t * scheduler, iot_schedule_t * schedule,
     bool front = iot_schedule_queue_update (scheduler, schedule, next);
     if (front && (scheduler->component.state == IOT_COMPONENT_RUNNING))
     {
-      pthread_cond_signal (&scheduler->component.cond);
+      pthread_cond_broadcast (&scheduler->component.cond);
     }
   }
   else
-- 
2.43.0


From 71bb9e07787799d9dac615d7ab8ef7d0b4497cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 45/61] fix: hash of shared data seen half calculated by other
 threads

---
 src/c/data.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 86d9005..d3c8d88 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -288,12 +288,12 @@ extern void iot_data_block_free (void  * ptr)
 #endif
 }
 
-static inline void iot_data_map_hash (iot_data_t * map, const iot_data_t * key, const iot_data_t * value)
+static inline void iot_data_map_hash (uint32_t * hash, const iot_data_t * key, const iot_data_t * value)
 {
   uint32_t key_hash = iot_data_hash (key);
   uint32_t val_hash = iot_data_hash (value);
-  map->hash ^= key_hash;
-  if (val_hash != key_hash) map->hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
+  *hash ^= key_hash;
+  if (val_hash != key_hash) *hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
 }
 
 uint32_t iot_data_hash (const iot_data_t * data)
@@ -301,15 +301,14 @@ uint32_t iot_data_hash (const iot_data_t * data)
   iot_data_t * da = (iot_data_t*) data;
   if (da && da->rehash)
   {
-    da->hash = 0;
-    da->rehash = false;
+    uint32_t hash = 0u; // Calculate locally, as shared data can be hashed by several threads at once
     if (da->type == IOT_DATA_VECTOR)
     {
       iot_data_vector_iter_t iter;
       iot_data_vector_iter (da, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
       }
     }
     else if (da->type == IOT_DATA_LIST)
@@ -318,7 +317,7 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_list_iter (da, &iter);
       while (iot_data_list_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
       }
     }
     else // IOT_DATA_MAP
@@ -327,9 +326,11 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_map_iter (da, &iter);
       while (iot_data_map_iter_next (&iter))
       {
-        iot_data_map_hash (da, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
+        iot_data_map_hash (&hash, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
       }
     }
+    da->hash = hash;
+    da->rehash = false;
   }
   return da ? da->hash : 0u;
 }
@@ -3238,7 +3239,7 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    iot_data_map_hash (&map->base, key, value);
+    iot_data_map_hash (&map->base.hash, key, value);
   }
   return (node == NULL);
 }
-- 
2.43.0


From 10088b6a3ff6ad3b1992b6030fe518cf64925b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 46/61] fix: file write reports success although closing or
 renaming the new file failed

A failed close even replaced the previous contents with incomplete data.
---
 src/c/file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..189cfc7 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -116,8 +116,9 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    ok = (fclose (fd) == 0) && ok; // Buffered data may only fail to be written on close
+    ok = ok && (rename (tmp_path, path) == 0);
+    if (! ok) remove (tmp_path);
   }
   return ok;
 }
-- 
2.43.0


From 1d1af84b4d0529dd438fdf71ef6c90da961ed315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 47/61] fix: file read returns uninitialised data or aborts if
 the file cannot be read

---
 src/c/file.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 189cfc7..b1fe8cf 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -87,16 +87,22 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    long end = (fseek (fd, 0, SEEK_END) == 0) ? ftell (fd) : 0;
+    if (end > 0 && end < LONG_MAX) // Return NULL if file empty (or a directory)
     {
+      size = (size_t) end;
       rewind (fd);
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (ret && fread (ret, size, 1u, fd) == 1u)
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
-- 
2.43.0


From 154aa1698861d46cd53c40f502a16e614dc07662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 48/61] fix: directory left open by file list with an invalid
 regular expression

---
 src/c/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1fe8cf..fb1e8d2 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -147,7 +147,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
-- 
2.43.0


From 65b033b3d0e0d1c370c05907a39bf7f39a19fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 49/61] fix: configuration list includes files without the
 .json extension

---
 src/c/store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..29c21ff 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,14 +96,14 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
+  static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 3));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From 5c2606b6ef7a6518e4b9be9098804af167017fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 50/61] fix: configuration list of a missing directory crashes

---
 src/c/store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/store.c b/src/c/store.c
index 29c21ff..c0029a4 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -98,6 +98,7 @@ iot_data_t * iot_store_config_list (const char * directory)
 #ifndef _AZURESPHERE_
   static const char extension_regex[] = "\\.json$";
   iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  if (file_list == NULL) return NULL;
   iot_data_list_iter_t list_iter;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
-- 
2.43.0


From 034613ae906acd040d069238b4886c60d2a44bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 51/61] fix: logger level lost when stopped twice or started
 again, and stopped logger enabled by setting its level

---
 src/c/logger.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..d1ddf15 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -91,7 +91,8 @@ void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...)
 void iot_logger_set_level (iot_logger_t * logger, iot_loglevel_t level)
 {
   assert (logger);
-  logger->level = level;
+  ((iot_logger_impl_t*) logger)->save = level;
+  if (logger->component.state != IOT_COMPONENT_STOPPED) logger->level = level; // If stopped only set when started
 }
 
 iot_logger_t * iot_logger_alloc_custom (const char * name, iot_loglevel_t level, bool start, iot_logger_t * next, iot_log_function_t impl, void * ctx, iot_log_free_fn_t freectx)
@@ -144,9 +145,7 @@ void iot_logger_start (iot_logger_t * logger)
 void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
-  iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
   iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
   logger->level = IOT_LOG_NONE;
 }
 
@@ -332,7 +331,7 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
 static bool iot_logger_reconfig (iot_component_t * comp, iot_container_t * cont, const iot_data_t * map)
 {
   (void) cont;
-  ((iot_logger_t*) comp)->level = iot_logger_config_level (map);
+  iot_logger_set_level ((iot_logger_t*) comp, iot_logger_config_level (map));
   return true;
 }
 
-- 
2.43.0


From dadf866cca530837d243f0893ca6339e9a04ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 52/61] fix: UDP logger sends memory beyond its buffer for long
 messages, truncated messages lose their line end

---
 src/c/logger.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index d1ddf15..4334e7f 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -155,7 +155,13 @@ static inline size_t iot_logger_format_log (iot_logger_impl_t * logger, iot_logl
 #ifdef IOT_HAS_PRCTL
   prctl (PR_GET_NAME, tname);
 #endif
-  return (size_t) snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  int len = snprintf (logger->buff, sizeof (logger->buff), "[%s:%" PRIu64 ":%s:%s] %s\n", tname, timestamp, logger->name, iot_log_levels[level], message);
+  if (len >= (int) sizeof (logger->buff)) // Truncated, restore line end
+  {
+    len = sizeof (logger->buff) - 1;
+    logger->buff[len - 1] = '\n';
+  }
+  return (len > 0) ? (size_t) len : 0u;
 }
 
 static inline void iot_logger_log_to_fd (iot_logger_impl_t * logger, FILE * fd, iot_loglevel_t level, uint64_t timestamp, const char *message)
-- 
2.43.0


From 06d6a1c42851d0595f4a4eb8fc697531aeac2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 53/61] fix: stack overwritten by a long host name in the
 logger configuration

---
 src/c/logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 4334e7f..0216edb 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -319,7 +319,8 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        size_t len = (size_t) (sep - to);
+        strncpy (target, to, (len < sizeof (target)) ? len : (sizeof (target) - 1));
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From bb3d96261605eb68db43737c26d6051fbbf3ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 54/61] fix: component of a dependency cycle created again
 while it is being created

Components loaded by iot_container_init were not recorded as in progress.
---
 src/c/container.c | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..c323a47 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -168,6 +168,20 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
   bool result = iot_container_find_component_locked (cont, cname);
   if (!result)
   {
+    iot_load_in_progress_t this = {cname, iot_load_in_progress};
+    const iot_load_in_progress_t *loading = iot_load_in_progress;
+
+    // Check for cycles
+    while (loading)
+    {
+      if (strcmp (loading->name, cname) == 0)
+      {
+        iot_log_error (cont->logger, "Invalid configuration, cyclic component reference for component %s", cname);
+        return false;
+      }
+      loading = loading->next;
+    }
+    iot_load_in_progress = &this;
     const iot_component_factory_t *factory = iot_component_factory_find (ctype);
     if (factory)
     {
@@ -183,6 +197,7 @@ static bool iot_container_typed_load (iot_container_t * cont, const char * cname
     {
       iot_log_warn (cont->logger, "Failed to find factory for type: %s", ctype);
     }
+    iot_load_in_progress = this.next;
   }
   return result;
 }
@@ -193,35 +208,17 @@ static bool iot_container_load_locked (iot_container_t * cont, const char * cnam
 
   if (! result)
   {
-    iot_load_in_progress_t this = {cname, iot_load_in_progress};
-    iot_load_in_progress_t *loading = iot_load_in_progress;
     assert (iot_config && cont);
+    char * config = (iot_config->load) (cont->name, iot_config->uri);
+    iot_data_t * map = iot_component_config_to_map (config, cont->logger);
+    free (config);
 
-    // Check for cycles
-    while (loading)
+    if (map)
     {
-      if (strcmp (loading->name, cname) == 0) break;
-      loading = loading->next;
-    }
-    if (!loading)
-    {
-      iot_load_in_progress = &this;
-      char * config = (iot_config->load) (cont->name, iot_config->uri);
-      iot_data_t * map = iot_component_config_to_map (config, cont->logger);
-      free (config);
-
-      if (map)
-      {
-        const char * ctype = iot_data_string_map_get_string (map, cname);
-        if (ctype) result = iot_container_typed_load (cont, cname, ctype);
-      }
-      iot_data_free (map);
-      iot_load_in_progress = this.next;
-    }
-    else
-    {
-      iot_log_error (cont->logger, "Invalid configuration, cyclic component reference for component %s", cname);
+      const char * ctype = iot_data_string_map_get_string (map, cname);
+      if (ctype) result = iot_container_typed_load (cont, cname, ctype);
     }
+    iot_data_free (map);
   }
   return result;
 }
-- 
2.43.0


From dbbbfbd71a324f5043f3ae5800589b9e9d817aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 55/61] fix: container initialisation crashes on a component
 type that is not a string

---
 src/c/container.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index c323a47..5a6c53e 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -267,6 +267,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
+      if (ctype == NULL) continue;
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -281,7 +282,14 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      if (ctype)
+      {
+        iot_container_typed_load (cont, cname, ctype);
+      }
+      else
+      {
+        iot_log_error (cont->logger, "Invalid configuration, type of component %s is not a string", cname);
+      }
     }
     iot_data_free (map);
   }
-- 
2.43.0


From 0cfb21725b2b313cc83bb12dbd4f1846fc5324ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 56/61] fix: listing components by category crashes on a
 component without category

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 5a6c53e..2983ad4 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -457,7 +457,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   while (iot_data_list_iter_next (&iter))
   {
     const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
-    if ((category == NULL) || (strcmp (category, comp->factory->category) == 0)) // Filter on category if set
+    if ((category == NULL) || (comp->factory->category && (strcmp (category, comp->factory->category) == 0))) // Filter on category if set
     {
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
-- 
2.43.0


From 07015a8d5ea23bbdca43213b4258f4a0645f3205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 57/61] fix: component data refers to the name of a component
 that may be deleted

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index 01cad95..848e70b 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -161,7 +161,7 @@ extern iot_data_t * iot_component_read (iot_component_t * component)
   assert (component);
   iot_data_t * data = iot_data_alloc_map (IOT_DATA_STRING);
   pthread_mutex_lock (&component->mutex);
-  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_REF));
+  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_COPY));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.type), iot_data_alloc_string (component->factory->type, IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.state), iot_data_alloc_string (iot_component_state_name (component->state), IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.config), iot_data_add_ref (component->config));
-- 
2.43.0


From 7a9b36fb3c1cbbdd5c59315fef188c857a8790b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 58/61] fix: reconfiguring a component crashes if no container
 configuration is set

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index 848e70b..40c2d76 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -53,7 +53,7 @@ bool iot_component_reconfig (iot_component_t * component, iot_container_t * cont
   {
     const iot_container_config_t * config = iot_container_get_config ();
     iot_data_map_merge (component->config, map);
-    if (config->save)
+    if (config && config->save)
     {
       char * json = iot_data_to_json (component->config);
       (config->save) (component->name, config->uri, json);
-- 
2.43.0


From 80e1123a7e568532aa31234e764504632902a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 59/61] fix: thread not created detached if its scheduling
 attributes are refused

---
 src/c/thread.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..9a1991d 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -112,7 +112,12 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   ret = pthread_create (tid, &attr, func, arg);
   if (ret != 0)
   {
-    ret = pthread_create (tid, NULL, func, arg);
+    /* Retry with default scheduling, thread must still be created detached */
+
+    pthread_attr_destroy (&attr);
+    pthread_attr_init (&attr);
+    pthread_attr_setdetachstate (&attr, PTHREAD_CREATE_DETACHED);
+    ret = pthread_create (tid, &attr, func, arg);
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From f0380882971753520ea7971fce58ab7ea936c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 60/61] fix: container initialisation crashes if a loaded
 factory function returns no factory

---
 src/c/container.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 2983ad4..145fc1c 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -144,7 +144,14 @@ static const iot_component_factory_t * iot_container_try_load_component (iot_con
         if (factory_fn)
         {
           result = factory_fn ();
-          iot_component_factory_add (result);
+          if (result)
+          {
+            iot_component_factory_add (result);
+          }
+          else
+          {
+            iot_log_error (cont->logger, "Invalid configuration, Factory: %s in Library: %s returned no component factory", factory, library);
+          }
         }
         else
         {
-- 
2.43.0


From bb94059752752ba042380d8cb3b788bdf4bec66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 61/61] fix: XML processing instruction ending in ??> rejected
 or read past its end

---
 src/c/yxml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index bc475e2..8dd8f69 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -846,6 +846,8 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 			x->state = x->nextstate;
 			return yxml_pivalend(x);
 		}
+		if(ch == (unsigned char)'?')
+			return yxml_datapi1(x, ch);
 		if(yxml_isChar(ch)) {
 			x->state = YXMLS_pi2;
 			return yxml_datapi2(x, ch);
-- 
2.43.0

