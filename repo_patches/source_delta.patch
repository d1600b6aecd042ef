From 1a9f9d4dc3541fae88b86b4ab0768ef61e0eac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 01/39] fix: save inner dimensions of multi-dimensional arrays

mr_save_array shifted the dimensions onto themselves, so every inner
dimension of an array was saved with the extent of the outermost one.
---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..c2f6190 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1216,7 +1216,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From 680aa0f43e0ea18409662ee4f72390b09a96bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 02/39] fix: read at most three octal digits in C init string
 escapes

---
 src/cinit_load.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index ce9636c..fcd7226 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -54,7 +54,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	  int size;
 	  if (c > 0)
 	    dst[length++] = c;
-	  else if (1 == sscanf (&substr->str[i], "%o%n", &c, &size))
+	  else if (1 == sscanf (&substr->str[i], "%3o%n", &c, &size))
 	    {
 	      i += size - 1;
 	      dst[length++] = c;
-- 
2.43.0


From 753359111ab098be96df4dad58203e400a7234c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 03/39] fix: report failure when an XML2 save runs out of
 memory

---
 src/xml_save.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 0018660..a0b59e1 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -472,11 +472,20 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
 
-      mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
+      if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
+	ptrs->ra[1].res.data.ptr = NULL;
+
+      mr_status_t status = mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
       
       if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
 	if (NULL != ptrs->ra[1].res.data.ptr)
 	  xmlDocSetRootElement (doc, ptrs->ra[1].res.data.ptr);
+
+      if (MR_SUCCESS != status)
+	{
+	  xmlFreeDoc (doc);
+	  doc = NULL;
+	}
     }
 
   if (mr_ra_str.data.ptr)
-- 
2.43.0


From 7164783aa75e5155068a1ae33d4813ad33e2be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 04/39] fix: fail the save when union resolution or
 post-processing runs out of memory

---
 src/mr_protos.h |  1 +
 src/mr_save.c   | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/mr_protos.h b/src/mr_protos.h
index ea006ca..a4ab323 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -628,6 +628,7 @@ TYPEDEF_STRUCT (mr_save_data_t, ATTRIBUTES ( , "save routines data and lookup st
 		(mr_union_discriminator_t *, mr_ra_ud, , "allocation of union discriminators",
 		{ .offset = offsetof (mr_save_data_t, mr_ra_ud_size) }, "offset"),
 		VOID (ssize_t, mr_ra_ud_alloc_size, , "allocated size of 'mr_ra_ud'"),
+		(mr_status_t, status, , "set to failure if memory allocation failed and saved tree is not complete"),
 		)
 
 TYPEDEF_FUNC (int, mr_ra_printf_t, (mr_rarray_t *, mr_ptrdes_t *))
diff --git a/src/mr_save.c b/src/mr_save.c
index c2f6190..c544a6d 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -303,6 +303,7 @@ mr_ud_add (mr_ud_set_t * uds, mr_ptr_t key, mr_save_data_t * mr_save_data)
       status = mr_ic_index (dst_ic, idx, sizeof (idx));
       if (MR_SUCCESS != status)
 	{
+	  mr_ic_free (dst_ic);
 	  MR_FREE (dst_ic);
 	  return (-1);
 	}
@@ -372,7 +373,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
 				   sizeof (mr_save_data->mr_ra_ud[0]));
   /* create a record for further lookups in parent nodes for discriminator value */
   if (NULL == ud)
-    return (NULL);
+    {
+      mr_save_data->status = MR_FAILURE;
+      return (NULL);
+    }
 
   memset (ud, 0, sizeof (*ud));
   /* this record is only for lookups and there is no guarantee that parents already have union resolution info */
@@ -381,6 +385,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   if ((ud_idx >> __CHAR_BIT__) >= (1UL << (__CHAR_BIT__ * (sizeof (MR_RA_UD_IDX_TYPE) - 1))))
     {
       MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_TOO_MANY_UD, MR_STRINGIFY_READONLY (MR_RA_UD_IDX_TYPE));
+      mr_save_data->status = MR_FAILURE;
       return (NULL);
     }
   ud->union_fdp = union_fdp; /* union field descriptor */
@@ -427,7 +432,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
       ud->discriminated_fdp = fdp;
       mr_ptr_t * add = mr_ic_add (&mr_save_data->union_discriminators, ud_idx);
       if (NULL == add)
-	return (NULL);
+	{
+	  mr_save_data->status = MR_FAILURE;
+	  return (NULL);
+	}
       if (add->uintptr == ud_idx)
 	/* union discriminator info was not found in the set so we add new record */
 	mr_save_data->mr_ra_ud_size += sizeof (mr_save_data->mr_ra_ud[0]);
@@ -441,7 +449,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   /* add union discriminator information to all parents which doesn't have it yet */
   for (idx = node; idx != parent; idx = mr_save_data->ptrs.ra[idx].parent)
     if (-1 == mr_ud_add (&mr_save_data->ptrs.ra[idx].save_params.ud_set, ud_find, mr_save_data))
-      return (NULL);
+      {
+	mr_save_data->status = MR_FAILURE;
+	return (NULL);
+      }
 
   return (fdp);
 }
@@ -1487,7 +1498,11 @@ mr_post_process (mr_save_data_t * mr_save_data)
 {
   mr_idx_t i, count = mr_save_data->ptrs.size / sizeof (mr_save_data->ptrs.ra[0]);
   for (i = 1; i < count; ++i)
-    resolve_void_ptr_and_strings (mr_save_data, i);
+    if (MR_SUCCESS != resolve_void_ptr_and_strings (mr_save_data, i))
+      {
+	mr_save_data->status = MR_FAILURE;
+	return;
+      }
   i = 1;
   mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
 }
@@ -1596,7 +1611,7 @@ mr_save (void * data, mr_fd_t * fdp)
   for (i = mr_save_data.ptrs.size / sizeof (mr_save_data.ptrs.ra[0]) - 1; i > 0; --i)
     mr_ud_free (&mr_save_data.ptrs.ra[i].save_params.ud_set);
 
-  if ((nodes_added == 0) && (mr_save_data.ptrs.ra != NULL))
+  if (((nodes_added == 0) || (MR_SUCCESS != mr_save_data.status)) && (mr_save_data.ptrs.ra != NULL))
     {
       MR_FREE (mr_save_data.ptrs.ra);
       mr_save_data.ptrs.ra = NULL;
-- 
2.43.0


From 048c3ca54607528d6666a99165402672277cc0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:36 +0000
Subject: [PATCH 05/39] fix: release only owned memory when a deep copy runs
 out of memory

---
 src/mr_extra.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..08fb712 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -182,15 +182,19 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 
  failure:
   for (i = 2; i < count; ++i)
-    if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
-      MR_FREE (ptrs->ra[i].res.type);
-    else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
-	     (ptrs->ra[i].first_child != MR_NULL_IDX))
-      if (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr != NULL)
-	{
-	  MR_FREE (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr);
-	  ptrs->ra[ptrs->ra[i].first_child].res.data.ptr = NULL;
-	}
+    /* only nodes that own theirs content have allocated memory */
+    if ((ptrs->ra[i].idx != MR_NULL_IDX) && !(ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+      {
+	if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
+	  MR_FREE (ptrs->ra[i].res.type);
+	else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
+		 (ptrs->ra[i].first_child != MR_NULL_IDX))
+	  if (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr != NULL)
+	    {
+	      MR_FREE (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr);
+	      ptrs->ra[ptrs->ra[i].first_child].res.data.ptr = NULL;
+	    }
+      }
 
   return (MR_FAILURE);
 }
-- 
2.43.0


From 90b01918a66abe6c7a4392f788ef4276931133a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 06/39] fix: release everything loaded so far when an XDR load
 fails

---
 src/xdr.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index 389875d..431eba5 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -318,6 +318,28 @@ xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, m
   return (status);
 }
 
+/**
+ * Releases everything allocated by a failed load and drops all pointers, so the destination
+ * doesn't refer to partially loaded data.
+ * @param ptrs array with descriptor of loaded data
+ */
+static void
+mr_xdr_load_cleanup (mr_ra_ptrdes_t * ptrs)
+{
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+
+  /* nested data has greater indexes, so it should be released first */
+  for (i = count - 1; i > 0; --i)
+    if (((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type)) &&
+	(ptrs->ra[i].data.ptr != NULL))
+      {
+	void ** ptr = ptrs->ra[i].data.ptr;
+	if ((*ptr != NULL) && !(ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+	  MR_FREE (*ptr);
+	*ptr = NULL;
+      }
+}
+
 mr_status_t
 mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
 {
@@ -333,10 +355,11 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
     return (MR_FAILURE);
 
   mr_status_t status = xdr_load_inner (data, fdp, xdrs, &ptrs, 0);
-  mr_status_t crossref_status = mr_set_crossrefs (&ptrs);
-
   if (MR_SUCCESS == status)
-    status = crossref_status;
+    status = mr_set_crossrefs (&ptrs);
+
+  if (MR_SUCCESS != status)
+    mr_xdr_load_cleanup (&ptrs);
 
   if (ptrs.ra != NULL)
     MR_FREE (ptrs.ra);
@@ -618,6 +641,7 @@ xdr_save_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 static mr_status_t
 xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
+  *(char**)ptrs->ra[idx].data.ptr = NULL;
   if (!xdr_uint8_t (xdrs, (uint8_t*)&ptrs->ra[idx].flags))
     return (MR_FAILURE);
 
@@ -746,8 +770,9 @@ xdr_load_union (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  else
 	    status = xdr_load_inner (data + fdp->offset, fdp, xdrs, ptrs, idx);
 	}
-      MR_FREE (discriminator);
     }
+  if (discriminator != NULL)
+    MR_FREE (discriminator);
 
   return (status);
 }
-- 
2.43.0


From 3566ebadf5cca3e1cdffaa63dbc6c6ed21ebaa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 07/39] fix: do not read past inline strings that fill their
 whole array when hashing and comparing

---
 src/mr_extra.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 08fb712..8a42e72 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -246,7 +246,8 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       break;
 	  
     case MR_TYPE_CHAR_ARRAY:
-      ptrdes->res.data.uintptr = mr_hash_str ((char*)ptrdes->data.ptr);
+      /* inline string might have no terminating zero */
+      ptrdes->res.data.uintptr = mr_hash_block (ptrdes->data.ptr, strnlen (ptrdes->data.string, ptrdes->MR_SIZE));
       break;
 	  
     case MR_TYPE_BOOL:
@@ -408,7 +409,8 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	  }
 	  
 	case MR_TYPE_CHAR_ARRAY:
-	  diff = strcmp (x_i->data.ptr, y_i->data.ptr);
+	  /* inline string might have no terminating zero */
+	  diff = strncmp (x_i->data.ptr, y_i->data.ptr, MR_MIN (x_i->MR_SIZE, y_i->MR_SIZE));
 	  if (diff)
 	    return (diff);
 	  break;
-- 
2.43.0


From df6248395a7e216b7cbd608cf2e62245dae5d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 08/39] fix: fail a YAML load when memory for references runs
 out

---
 src/yaml_load.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..ee1bbb0 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -1,7 +1,7 @@
 #include <yaml.h>
 #include <metaresc.h>
 
-static void
+static mr_status_t
 add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
@@ -14,7 +14,10 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
   if (NULL == table)
-    return;
+    {
+      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+      return (MR_FAILURE);
+    }
 
   for (i = 1; i < count; ++i)
     if (ptrs->ra[i].idx != MR_NULL_IDX)
@@ -35,6 +38,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     }
   
   MR_FREE (table);
+  return (MR_SUCCESS);
 }
 
 static mr_status_t
@@ -218,8 +222,8 @@ mr_yaml_load (char * str, mr_ra_ptrdes_t * ptrs)
     }
 
   if (MR_SUCCESS == status)
-    add_missed_crossrefs (ptrs);
-  else
+    status = add_missed_crossrefs (ptrs);
+  if (MR_SUCCESS != status)
     mr_free_load_values (ptrs);
 
   return (status);
-- 
2.43.0


From 3455be35dec9bda8f07e5709c07368d49d968749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 09/39] fix: hash negative and positive zeros equally

---
 src/mr_extra.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 8a42e72..2d8879b 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -260,14 +260,26 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 	  mr_hash_block (ptrdes->data.ptr, sizeof (TYPE));	\
 	break;
 
+      /* negative and positive zeros are equal, so they should have the same hash value */
+#define MR_POSITIVE_ZERO(VALUE) ({ if (0 == (VALUE)) (VALUE) = 0; })
+
 #define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  MR_POSITIVE_ZERO (value);					\
+	  ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, sizeof (TYPE)); \
+	}								\
 	break;
 
 #define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  MR_POSITIVE_ZERO (__real__ value);				\
+	  MR_POSITIVE_ZERO (__imag__ value);				\
+	  ptrdes->res.data.uintptr = (__builtin_isnan (__real__ value) || __builtin_isnan (__imag__ value)) ? -1 : mr_hash_block (&value, sizeof (TYPE)); \
+	}								\
 	break;
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
@@ -275,16 +287,22 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
 	  
     case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
+      {
+	long double value = *(long double*)ptrdes->data.ptr;
+	MR_POSITIVE_ZERO (value);
+	ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, MR_SIZEOF_LONG_DOUBLE);
+      }
       break;
 
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
       {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
+	long double real = __real__ *(complex long double *)ptrdes->data.ptr;
+	long double imag = __imag__ *(complex long double *)ptrdes->data.ptr;
+	MR_POSITIVE_ZERO (real);
+	MR_POSITIVE_ZERO (imag);
 	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
+	  (__builtin_isnan (real) || __builtin_isnan (imag)) ? -1 :
+	  mr_hash_block (&real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (&imag, MR_SIZEOF_LONG_DOUBLE);
       }
       break;
 	  
-- 
2.43.0


From 45fabeae96cab550e7ad458bd2f4b7a185ea5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 10/39] fix: print enough digits for floating point values to
 be read back exactly

---
 src/mr_stringify.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index dbd0ac2..3f5a9ca 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -2,6 +2,7 @@
 /* I hate this bloody country. Smash. */
 /* This file is a part of Metaresc project */
 
+#include <float.h>
 #include <math.h>
 #include <stdbool.h>
 
@@ -40,9 +41,9 @@ int mr_ra_printf_bool_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
   int mr_ra_printf_ ## TYPE ## _default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)	\
   { return (mr_ra_printf (mr_ra_str, TMPLT, *(TYPE *)ptrdes->data.ptr)); }
 
-MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (MR_FLT_DIG) "g");
-MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (MR_DBL_DIG) "g");
-MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (MR_LDBL_DIG) "Lg");
+MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (FLT_DECIMAL_DIG) "g");
+MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (DBL_DECIMAL_DIG) "g");
+MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (LDBL_DECIMAL_DIG) "Lg");
 
 MR_RA_PRINTF_TMPLT (int8_t, "%" SCNi8);
 MR_RA_PRINTF_TMPLT (uint8_t, "%" SCNu8);
-- 
2.43.0


From 965f2f2a1243f3b56ce0adf407805d1b7b2edda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 11/39] fix: accept infinite imaginary parts in C init
 documents

---
 src/cinit_load.l | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 22a5858..57edc89 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -49,9 +49,9 @@ HEX_NUMBER (0x|0X)[[:xdigit:]]+
 OCT_NUMBER 0[[0-7]]+
 NUMBER {INT_NUMBER}|{HEX_NUMBER}|{OCT_NUMBER}
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
-FLOAT_INF [+-]?[Ii][Nn][Ff]
+FLOAT_INF [Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
-IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
+IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?)[Ii]
 %%
 
 {WS}  { /* eat up whitespace */ }
@@ -69,7 +69,8 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
 
 {IMAGENARY_NUMBER} {
   yylval->value.value_type = MR_VT_COMPLEX;
-  yylval->value.vt_complex = I * strtold (yytext, NULL);
+  yylval->value.vt_complex = 0;
+  __imag__ yylval->value.vt_complex = strtold (yytext, NULL);
   return (TOK_CINIT_NUMBER);
 }
 
-- 
2.43.0


From 68f305fa1ca224ef67b813fe46745c27b69b75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 12/39] fix: failed growth of a hash table collection must not
 change the number of items

---
 src/mr_ic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..08b8ed3 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -551,7 +551,10 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count;
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0


From 790f201b2f4e2deaa57b2b6cef3fade312e3b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 13/39] fix: items count of an empty tree collection after
 failed add or del must be zero

---
 src/mr_ic.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 08b8ed3..be618a3 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -849,11 +849,18 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
 /* ----------------------- MR_IC_RBTREE ----------------------- */
 
+static void
+mr_ic_tree_update_count (mr_ic_t * ic)
+{
+  unsigned count = ic->tree.size / sizeof (ic->tree.pool[0]);
+  ic->items_count = (count > 0) ? count - 1 : 0; /* first element of the pool is the root node */
+}
+
 mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  mr_ic_tree_update_count (ic);
   return (add);
 }
 
@@ -861,7 +868,7 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  mr_ic_tree_update_count (ic);
   return (status);
 }
 
@@ -967,7 +974,7 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  mr_ic_tree_update_count (ic);
   return (add);
 }
 
@@ -975,7 +982,7 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  mr_ic_tree_update_count (ic);
   return (status);
 }
 
-- 
2.43.0


From e144f39ac4ca816afc19a24f7859a4f9f3811bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 14/39] fix: index of a tree collection must report failed
 allocation and reset the number of items

---
 src/mr_ic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index be618a3..a56c90c 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -911,7 +911,10 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
 {
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
-  mr_tree_reserve (&ic->tree, count, true);
+  ic->items_count = 0;
+  if (MR_SUCCESS != mr_tree_reserve (&ic->tree, count, true))
+    return (MR_FAILURE);
+
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
-- 
2.43.0


From 3299df813ecf918ca097c0b9d849f82d8ae2332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 15/39] fix: index of a hash table collection must drop
 duplicates of the zero key

---
 src/mr_ic.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index a56c90c..32934df 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -454,12 +454,19 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
+	  mr_ptr_t * find = mr_ic_hash_find (ic, key);
+	  if (NULL != find)
+	    return (find);
 	  ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
 	  return (&ic->hash.hash_table[count]);
 	}
 
+      if (ic->hash.zero_key &&
+	  (0 == ic->compar_fn (key, ic->hash.hash_table[count], ic->context.data.ptr)))
+	return (&ic->hash.hash_table[count]);
+
       unsigned i, bucket = ic->hash.hash_fn (key, ic->context.data.ptr) % count;
 
       for (i = bucket; ;)
-- 
2.43.0


From 9de1977dca636c9ad1b0d2c67e9d437db7e4a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 16/39] fix: XDR load must not store more elements or
 characters than the destination array holds

---
 src/xdr.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 431eba5..efe6619 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -586,6 +586,12 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (!xdr_uint32_t (xdrs, &str_len))
     return (MR_FAILURE);
 
+  if ((XDR_DECODE == xdrs->x_op) && !is_a_dynamic_string && (str_len > ptrdes->fdp->stype.size))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, ptrdes->fdp->name.str);
+      return (MR_FAILURE);
+    }
+
   if ((XDR_DECODE == xdrs->x_op) && (str_len > sizeof (char)) && is_a_dynamic_string)
     {
       void * data = MR_REALLOC (ptrs->ra[idx].data.ptr, str_len);
@@ -934,7 +940,13 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
-	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
+	  mr_idx_t stored_count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
+	  if (stored_count > count)
+	    {
+	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, fd_.name.str);
+	      return (MR_FAILURE);
+	    }
+	  count = stored_count;
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
 	  mr_pointer_set_size (idx, ptrs);
-- 
2.43.0


From 4205c1cfa7008548f00f31e3f8ba36a9c3d50b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 17/39] fix: length of a string in XDR stream must not overflow
 on allocation

---
 src/xdr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index efe6619..cc7ee84 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -672,7 +672,7 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       *str = NULL;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
-      *str = MR_CALLOC (size + 1, sizeof (**str));
+      *str = MR_CALLOC ((size_t)size + 1, sizeof (**str));
       if (NULL == *str)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-- 
2.43.0


From 6abd80f1454a93ac0d39161d823d146c859234e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 18/39] fix: content reference must be resolved only via nodes
 of string and pointer types

---
 src/mr_load.c | 6 ++++++
 src/xdr.c     | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..6aae7cd 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -86,6 +86,12 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		continue;
 	      }
+	    else if ((MR_TYPE_POINTER != ptrs->ra[idx].mr_type) &&
+		     (MR_TYPE_STRING != ptrs->ra[idx].mr_type))
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+		continue;
+	      }
 	    else
 	      data = *(void**)data;
 	  }
diff --git a/src/xdr.c b/src/xdr.c
index cc7ee84..47f0a8f 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -274,6 +274,13 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		    status = MR_FAILURE;
 		  }
+		else if ((MR_TYPE_POINTER != ptrs->ra[ref_idx].mr_type) &&
+			 (MR_TYPE_STRING != ptrs->ra[ref_idx].mr_type))
+		  {
+		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[ref_idx].mr_type);
+		    status = MR_FAILURE;
+		    continue;
+		  }
 		else
 		  data = *(void**)data;
 	      }
-- 
2.43.0


From aba50d18e1fe5e5520597eb7a3c842c5dc52f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 19/39] fix: unterminated escape sequences in XML must not loop
 forever or read out of bounds

---
 src/xml_save.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index a0b59e1..66df159 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -75,17 +75,16 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
       {
 	char esc[ESC_SIZE + 1];
 	strncpy (esc, &substr->str[i], sizeof (esc) - 1);
+	esc[sizeof (esc) - 1] = 0;
 	char * semicolon = strchr (esc, ';');
 	if (semicolon)
 	  semicolon[1] = 0;
-	else
-	  esc[sizeof (esc) - 1] = 0;
 	
 	if ('#' == substr->str[i + 1])
 	  {
 	    int32_t code = 0;
 	    int size = 0;
-	    if (1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size))
+	    if ((1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size)) || (0 == size))
 	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
 	    else
 	      {
-- 
2.43.0


From 35bbe16f958ba15f93df286707ecf3c5b8520299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 20/39] fix: size of references table must not overflow on the
 greatest index

---
 src/mr_load.c   | 2 +-
 src/yaml_load.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 6aae7cd..7dd2b35 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -37,7 +37,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
diff --git a/src/yaml_load.c b/src/yaml_load.c
index ee1bbb0..237ce9e 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -12,7 +12,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-- 
2.43.0


From 58a06c9ce63a551ed885a09721ba90c6e112fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 21/39] fix: memory allocated by a text load must not be lost
 or released twice on duplicated fields and overlapping union branches

---
 src/mr_load.c | 79 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 8 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 7dd2b35..01f91bc 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -137,6 +137,55 @@ mr_free_load_values (mr_ra_ptrdes_t * ptrs)
   memset (ptrs, 0, sizeof (*ptrs));
 }
 
+/**
+ * Each node of string or pointer type that allocated memory keeps it here until the load is over, because content of the
+ * destination might be overwritten by other nodes of the document (duplicated fields or branches of the same union).
+ */
+static void
+mr_load_set_allocated (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, void * allocated)
+{
+  if (ptrs->res.data.ptr != NULL)
+    ((void**)ptrs->res.data.ptr)[idx] = allocated;
+}
+
+/**
+ * Checks that all memory allocated for the loaded object belongs to it.
+ */
+static mr_status_t
+mr_load_check_allocated (mr_ra_ptrdes_t * ptrs)
+{
+  void ** allocated = ptrs->res.data.ptr;
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+
+  for (i = 1; i < count; ++i)
+    if ((allocated[i] != NULL) && (allocated[i] != *(void**)ptrs->ra[i].data.ptr))
+      {
+	MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_DATA);
+	return (MR_FAILURE);
+      }
+
+  return (MR_SUCCESS);
+}
+
+/**
+ * Releases all memory allocated by a failed load and drops all pointers from the destination.
+ */
+static void
+mr_load_cleanup (mr_ra_ptrdes_t * ptrs)
+{
+  void ** allocated = ptrs->res.data.ptr;
+  mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
+
+  for (i = 1; i < count; ++i)
+    if (((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type)) &&
+	(ptrs->ra[i].data.ptr != NULL))
+      *(void**)ptrs->ra[i].data.ptr = NULL;
+
+  for (i = 1; i < count; ++i)
+    if (allocated[i] != NULL)
+      MR_FREE (allocated[i]);
+}
+
 /**
  * MR_NONE load handler (dummy)
  * @param idx node index
@@ -475,6 +524,7 @@ mr_load_string (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  status = MR_FAILURE;
 	  break;
 	}
+      mr_load_set_allocated (idx, ptrs, *(char**)ptrdes->data.ptr);
     }
   return (status);
 }
@@ -487,7 +537,8 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
   mr_status_t status = MR_SUCCESS;
 
   if ((str_len >= max_size) && (ptrdes->parent != MR_NULL_IDX))
-    if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
+    if ((MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type) &&
+	(ptrs->ra[ptrdes->parent].first_child == idx) && (MR_NULL_IDX == ptrdes->next)) /* the only element of a dynamic array */
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
 	if (NULL == data)
@@ -499,6 +550,7 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
 	  }
 		  
 	*(void**)ptrs->ra[ptrdes->parent].data.ptr = ptrdes->data.ptr = data;
+	mr_load_set_allocated (ptrdes->parent, ptrs, data);
 	max_size = str_len + 1;
       }
 
@@ -761,6 +813,7 @@ mr_load_pointer_postponed (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
       return (MR_FAILURE);
     }
+  mr_load_set_allocated (idx, ptrs, *data);
   
   /* load recursively */
   count = 0;
@@ -891,6 +944,16 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   ptrs->ra[idx].mr_type = fdp->stype.mr_type;
   ptrs->ra[idx].mr_type_aux = fdp->stype.mr_type_aux;
 
+  if (1 == idx)
+    {
+      ptrs->res.data.ptr = MR_CALLOC (ptrs->size / sizeof (ptrs->ra[0]), sizeof (void*));
+      if (NULL == ptrs->res.data.ptr)
+	{
+	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+	  return (MR_FAILURE);
+	}
+    }
+
   /* route loading */
   mr_load_handler_t load_handler = NULL;
   if ((fdp->stype.mr_type >= 0) && (fdp->stype.mr_type < MR_TYPE_LAST))
@@ -913,14 +976,14 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       if (MR_SUCCESS == status)
 	status = mr_set_crossrefs (ptrs);
 
+      if (MR_SUCCESS == status)
+	status = mr_load_check_allocated (ptrs);
+
       if (MR_SUCCESS != status)
-	for (i = count - 1; i > 0; --i)
-	  if (((MR_TYPE_POINTER == ptrs->ra[i].mr_type) || (MR_TYPE_STRING == ptrs->ra[i].mr_type))
-	      && *(void**)ptrs->ra[i].data.ptr)
-	    {
-	      MR_FREE (*(void**)ptrs->ra[i].data.ptr);
-	      *(void**)ptrs->ra[i].data.ptr = NULL;
-	    }
+	mr_load_cleanup (ptrs);
+
+      MR_FREE (ptrs->res.data.ptr);
+      ptrs->res.data.ptr = NULL;
     }
 
   if (fdp->non_persistent)
-- 
2.43.0


From 9531165fd1836d4bcbddc387b68308b31fff9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 22/39] fix: references on nodes that are neither strings nor
 pointers must not be followed as subnodes on load

---
 src/mr_load.c   | 12 ++++++++++++
 src/xml1_load.y |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 01f91bc..8a1b10e 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -647,6 +647,12 @@ mr_load_struct (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       return (MR_FAILURE);
     }
 
+  if (ptrs->ra[idx].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+    {
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+      return (MR_FAILURE);
+    }
+
   /* loop on all subnodes */
   for (idx = first_child; (MR_SUCCESS == status) && (idx != MR_NULL_IDX); idx = ptrs->ra[idx].next)
     {
@@ -682,6 +688,12 @@ mr_load_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   mr_status_t status = MR_SUCCESS;
   mr_idx_t i, count = fd_.stype.dim.dim[0];
 
+  if (ptrs->ra[idx].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+    {
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+      return (MR_FAILURE);
+    }
+
   if (0 == count)
     {
       if (ptrs->ra[idx].first_child != MR_NULL_IDX)
diff --git a/src/xml1_load.y b/src/xml1_load.y
index da99291..ae059fa 100644
--- a/src/xml1_load.y
+++ b/src/xml1_load.y
@@ -157,6 +157,13 @@ tag: start_tag TOK_XML_OPEN_TAG properties TOK_XML_CLOSE_EMPTY_TAG {
 
 start_tag: { 
   mr_load_t * mr_load = MR_LOAD; 
+  if (mr_load->parent != MR_NULL_IDX)
+    if (mr_load->ptrs->ra[mr_load->parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+      {
+	MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_SUBNODES);
+	YYERROR;
+      }
+
   mr_idx_t idx = mr_add_ptr_to_list (mr_load->ptrs);
   if (MR_NULL_IDX == idx)
     { YYERROR; }
-- 
2.43.0


From 0d76a3e9da9b067f28a4fc9417ec55a80bc06f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 23/39] fix: cache of function names must not be corrupted by
 concurrent resolutions

---
 src/mr_stringify.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index 3f5a9ca..20435d1 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -271,6 +271,7 @@ mr_fn_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 
 static mr_ic_t cache = { .ic_type = MR_IC_UNINITIALIZED, };
 static mr_ra_fn_t ra_fn = { .ra = NULL, .size = 0, .alloc_size = 0, };
+static volatile bool cache_in_use = false;
 
 static void __attribute__ ((destructor))
 mr_fn_cache_cleanup (void)
@@ -286,8 +287,11 @@ const char * mr_serialize_func (void * func)
 {
 #ifdef HAVE_LIBDL
   mr_func_name_t * new_fn = NULL;
+  /* other threads resolve names without the cache as long as it is in use by one of them */
+  bool use_cache = mr_conf.cache_func_resolve && !__atomic_test_and_set (&cache_in_use, __ATOMIC_ACQUIRE);
+  const char * name = NULL;
 
-  if (mr_conf.cache_func_resolve)
+  if (use_cache)
     {
       intptr_t idx = ra_fn.size / sizeof (ra_fn.ra[0]);
 
@@ -311,7 +315,8 @@ const char * mr_serialize_func (void * func)
 	    if (add->intptr != idx)
 	      {
 		ra_fn.size -= sizeof (ra_fn.ra[0]);
-		return (ra_fn.ra[add->intptr].name);
+		name = ra_fn.ra[add->intptr].name;
+		goto release_cache;
 	      }
 	}
     }
@@ -327,12 +332,18 @@ const char * mr_serialize_func (void * func)
 	    {
 	      if (new_fn)
 		new_fn->name = info.dli_sname;
-	      return (info.dli_sname);
+	      name = info.dli_sname;
 	    }
 	}
     }
-#endif /* HAVE_LIBDL */
+
+ release_cache:
+  if (use_cache)
+    __atomic_clear (&cache_in_use, __ATOMIC_RELEASE);
+  return (name);
+#else /* HAVE_LIBDL */
   return (NULL);
+#endif /* HAVE_LIBDL */
 }
 
 int mr_ra_append_char (mr_rarray_t * mr_ra_str, char c)
-- 
2.43.0


From 61840e58dfc21cfd50937f9265773ba8d370dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 24/39] fix: tables of escape sequences must not be cleared
 while another thread uses them

---
 src/cinit_load.y | 1 -
 src/json_load.y  | 1 -
 src/scm_load.y   | 1 -
 src/xml_save.c   | 1 -
 4 files changed, 4 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index fcd7226..729ea3d 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -35,7 +35,6 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 
   if (!initialized)
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/json_load.y b/src/json_load.y
index 55fe4ec..22f7671 100644
--- a/src/json_load.y
+++ b/src/json_load.y
@@ -34,7 +34,6 @@ json_unquote_str (mr_substr_t * substr, char * dst)
 
   if (!initialized)
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/scm_load.y b/src/scm_load.y
index ae8c47a..a277404 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -37,7 +37,6 @@
 
     if (!initialized)
       {
-	memset (map, 0, sizeof (map));
 	for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	  if (mr_esc_char_map[i])
 	    map[(unsigned char)mr_esc_char_map[i]] = i;
diff --git a/src/xml_save.c b/src/xml_save.c
index 66df159..e96049f 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -55,7 +55,6 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
   
   if (!inited)
     {
-      memset (esc_seq_hash, 0, sizeof (esc_seq_hash));
       for (i = 0; i < sizeof (esc_seq_hash) / sizeof (esc_seq_hash[0]); ++i)
 	if (esc_char_map[i])
 	  {
-- 
2.43.0


From 369a8c39bdee89e99dfbadfa3c17882317596f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 25/39] fix: concurrent parsers must not see partially computed
 maximum length of enum names

---
 src/mr_value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mr_value.c b/src/mr_value.c
index 8d1b9bc..9d2f95c 100644
--- a/src/mr_value.c
+++ b/src/mr_value.c
@@ -76,7 +76,11 @@ mr_get_enum (char * str, mr_uintmax_t * data)
 {
   static int enum_max_length = 0;
   if (0 == enum_max_length)
-    mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &enum_max_length);
+    {
+      int max_length = 0;
+      mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &max_length);
+      enum_max_length = max_length; /* other threads should not see intermediate value */
+    }
   
   char * name = str;
   int size = 0;
-- 
2.43.0


From 723cdca8814bf16c5465ac4c548e0cd1dfbd6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 26/39] fix: bounds of message and log level tables

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index d408e15..554eac1 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -64,7 +64,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	}
     }
 
-  if ((message_id <= sizeof (messages) / sizeof (messages[0])) && messages[message_id])
+  if ((message_id < sizeof (messages) / sizeof (messages[0])) && messages[message_id])
     format = messages[message_id];
 
   if (format)
@@ -99,7 +99,7 @@ mr_message (const char * file_name, const char * func_name, int line, mr_log_lev
 	{ MR_FOREACH (LL_INIT, ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF) };
 
       if (((int)log_level >= 0)
-	  && ((int)log_level <= sizeof (log_level_str) / sizeof (log_level_str[0])))
+	  && ((int)log_level < sizeof (log_level_str) / sizeof (log_level_str[0])))
 	if (log_level_str[log_level])
 	  log_level_str_ = log_level_str[log_level];
 
-- 
2.43.0


From 80f2dac1a42422ea60b89294e410a6db9f0afa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 27/39] fix: integer discriminators wider than int are not
 truncated to an index of a union branch

---
 src/mr_save.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index c544a6d..3915aa6 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,10 +12,10 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_uintmax_t idx)
 {
-  /* check that field index in union is valid and reset to default otherwise */
-  if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
+  /* check that field index in union is valid (negative values become huge) and reset to default otherwise */
+  if (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0]))
     idx = 0;
   if (tdp->param.union_param.fields_size > 0) /* check for an empty union */
     return (tdp->param.struct_param.fields[idx]);
-- 
2.43.0


From 957078bf8c0af32f151ac5f61235b5cd68404366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 28/39] fix: XDR treats pointers to char arrays of a known size
 as arrays, not as dynamic strings

---
 src/xdr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 47f0a8f..fada9c9 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -570,8 +570,10 @@ static mr_status_t
 xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t parent = ptrs->ra[idx].parent;
-  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type));
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
+  /* only types with zero size are dynamic strings, other char arrays are stored within the memory of their container */
+  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type) &&
+			      ((NULL == ptrdes->fdp) || (0 == ptrdes->fdp->stype.size)));
   typeof (ptrdes->MR_SIZE) str_len;
 
   if (XDR_ENCODE == xdrs->x_op)
-- 
2.43.0


From e57d4a98334147e5040ad90e0e969e0e94ce5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 29/39] fix: string on an element of a dynamic array of char
 arrays is saved as a reference whatever comes first

---
 src/mr_save.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 3915aa6..c9ab8ba 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -813,12 +813,19 @@ resolve_matched (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
 	    return (1);
 
 	  case MR_TYPE_POINTER:
-	    {
-	      mr_idx_t nodes_added = resolve_pointer (mr_save_data, ref_idx, resolved);
-	      if (resolved)
-		return (nodes_added);
-	      break;
-	    }
+	    if ((ref_parent != MR_NULL_IDX) && (MR_TYPE_STRING == ra[ref_parent].mr_type))
+	      {
+		/* previously saved string points on an element of this array */
+		*resolved = true;
+		return (move_nodes_to_parent (ptrs, ref_parent, idx));
+	      }
+	    else
+	      {
+		mr_idx_t nodes_added = resolve_pointer (mr_save_data, ref_idx, resolved);
+		if (*resolved)
+		  return (nodes_added);
+	      }
+	    break;
 	    
 	  default:
 	    if (ref_parent != MR_NULL_IDX)
-- 
2.43.0


From b70df13210d3c98332cd0f9a3cc9509f770a6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 30/39] fix: documents read from a stream must not begin with
 white space

---
 src/metaresc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metaresc.c b/src/metaresc.c
index 15b1fe2..34dc7eb 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -2115,6 +2115,10 @@ mr_read_xml_doc (FILE * fd)
 	  return (NULL);
 	}
 
+      /* XML declaration must be at the very beginning of the document */
+      if ((size < 0) && isspace (c))
+	continue;
+
       str[++size] = c;
       if (size == max_size - 1)
 	{
-- 
2.43.0


From 3610a86a5f682e3bee12f7e3384307d0d07d7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 31/39] fix: failed XDR save to a resizable array must not
 return incomplete data

---
 src/metaresc.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 8a667b8..35d60dd 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1098,7 +1098,10 @@
       mr_rarray_t _ra_ = { .alloc_size = 0, .MR_SIZE = 0, .data = { NULL }, .type = "uint8_t" }; \
       mr_xdrra_create (&_xdrs_, &_ra_, XDR_ENCODE);			\
       if (MR_SUCCESS != MR_SAVE_XDR (&_xdrs_, __VA_ARGS__))		\
-	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	{								\
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	  XDR_DESTROY (&_xdrs_); /* incomplete data is not a document */ \
+	}								\
       _ra_;								\
     })
 
-- 
2.43.0


From 650e49e4923f90b75ae62ba8582e0b4d142c0afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 32/39] fix: position of a stream over a resizable array must
 not be set beyond its end

---
 src/xdr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index fada9c9..2ddfd50 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -132,6 +132,14 @@ xdrra_getpostn (__const XDR * xdrs)
 static bool_t
 xdrra_setpostn (XDR * xdrs, u_int pos)
 {
+  mr_rarray_t * ra = (mr_rarray_t*)xdrs->x_private;
+
+  if (NULL == ra)
+    return (false);
+
+  if (pos > ra->MR_SIZE)
+    return (false);
+
   xdrs->x_handy = pos;
   return (true);
 }
-- 
2.43.0


From db4d63a1dea77356306835cdc3b4c1aa17a1eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 33/39] fix: MR_LOAD_XML2 refused the documents of objects
 nested deeper than about 120 levels

libxml2 limits the depth of elements to 256 unless XML_PARSE_HUGE is given, so
that a list of 130 nodes was saved but could not be loaded.
---
 src/metaresc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 35d60dd..6beb09a 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1280,7 +1280,8 @@
 	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);	\
       else								\
 	{								\
-	  xmlDocPtr __doc__ = xmlParseMemory (__str__, strlen (__str__)); \
+	  /* a saved object may be nested deeper than the parser's default limit */ \
+	  xmlDocPtr __doc__ = xmlReadMemory (__str__, strlen (__str__), NULL, NULL, XML_PARSE_HUGE); \
 	  if (__doc__)							\
 	    {								\
 	      xmlNodePtr __node__ = xmlDocGetRootElement (__doc__);	\
-- 
2.43.0


From 1df4b0d59a95bb938cf53375585bdd0d014068f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 34/39] fix: saving objects that lie at regular distances took
 quadratic time

The hash of an address was the address itself, and a table of nearly 2^n
slots with linear probing turned evenly spaced objects into long clusters:
8000 nodes 64 KiB apart took 87 s to save.
---
 src/mr_save.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index c9ab8ba..85729e1 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -530,7 +530,12 @@ mr_hash_value_t
 mr_typed_ptrdes_get_hash (const mr_ptr_t x, const void * context)
 {
   const mr_ra_ptrdes_t * ra_ptrdes = context;
-  return (ra_ptrdes->ra[x.uintptr].data.uintptr & MR_PTR_HASH_MASK);
+  uint64_t hash = ra_ptrdes->ra[x.uintptr].data.uintptr & MR_PTR_HASH_MASK;
+  /* objects lie at regular distances and a plain address would put them all in a few clusters of the hash table */
+  hash *= 0x9E3779B97F4A7C15ULL;
+  hash ^= hash >> 32;
+  hash *= 0x9E3779B97F4A7C15ULL;
+  return (hash >> 32);
 }
 
 int
-- 
2.43.0


From f3f23eae3d8fe1978d4612c0697bb877fd315a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:48 +0000
Subject: [PATCH 35/39] fix: MR_LOAD_XML2 took quadratic time on arrays of
 structures

The position of the last child is kept in ptrs, and loading a subnode left it
inside the subtree of that subnode, so that every element of an array was
appended by a walk over all previous ones.
---
 src/xml2_load.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml2_load.c b/src/xml2_load.c
index 20c4485..98e4e76 100644
--- a/src/xml2_load.c
+++ b/src/xml2_load.c
@@ -70,6 +70,7 @@ mr_xml2_load (xmlNodePtr node, mr_ra_ptrdes_t * ptrs)
   ptrs->ra[idx].load_params.vt_substr.str = content;
   ptrs->ra[idx].load_params.vt_substr.length = strlen (content);
 
+  mr_idx_t last_child = MR_NULL_IDX;
   /* loop on subnodes */
   for (node_ = node->xmlChildrenNode; node_; node_ = node_->next)
     if (XML_ELEMENT_NODE == node_->type)
@@ -82,7 +83,9 @@ mr_xml2_load (xmlNodePtr node, mr_ra_ptrdes_t * ptrs)
 	mr_idx_t child = mr_xml2_load (node_, ptrs);
 	if (MR_NULL_IDX == child)
 	  goto failure;
+	ptrs->last_child = last_child; /* loading of subnodes has moved it into their subtree */
 	mr_add_child (ptrs, idx, child);
+	last_child = child;
       }
   
   return (idx);
-- 
2.43.0


From 1350d9b8c21c6f2b0497739a2b0ee20c8f8fa59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 36/39] fix: initialisation continues at the next use if memory
 was refused

---
 src/metaresc.c    | 198 +++++++++++++++++++++++++++++++++-------------
 src/metaresc.h    |   6 +-
 src/mr_save.c     |   2 +-
 src/mr_udo_init.c |   4 +-
 src/mr_udo_init.h |   2 +-
 5 files changed, 149 insertions(+), 63 deletions(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 34dc7eb..9cb7bcb 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -838,11 +838,12 @@ mr_get_td_by_name_internal (char * type)
 mr_td_t *
 mr_get_td_by_name (char * type)
 {
-  mr_conf_init ();
+  if (MR_SUCCESS != mr_conf_init ())
+    return (NULL);
   return (mr_get_td_by_name_internal (type));
 }
 
-static void mr_init_struct (mr_td_t * tdp); /* recursive call */
+static mr_status_t mr_init_struct (mr_td_t * tdp); /* recursive call */
 /**
  * Preprocessign of a new type. Anonymous unions should be extracted into new independant types.
  * @param tdp pointer on a new type descriptor
@@ -853,6 +854,7 @@ mr_anon_unions_extract (mr_td_t * tdp)
 {
   int count = tdp->param.struct_param.fields_size / sizeof (tdp->param.struct_param.fields[0]);
   int i, j;
+  mr_status_t status = MR_SUCCESS;
 
   for (i = 0; i < count; ++i)
     {
@@ -875,7 +877,7 @@ mr_anon_unions_extract (mr_td_t * tdp)
 		  break;
 	    }
 	  if (j >= count)
-	    return (MR_FAILURE);
+	    break; /* there is no end of the union, because it is already extracted */
 
 	  {
 	    int fields_count = j - i; /* additional trailing element with mr_type = MR_TYPE_LAST */
@@ -928,13 +930,13 @@ mr_anon_unions_extract (mr_td_t * tdp)
 	    fdp->stype.type = tdp_->type.str;
 	    fdp->stype.size = tdp_->size;
 	    
-	    mr_init_struct (tdp_);
-	    mr_ic_add (&mr_conf.type_by_name, tdp_);
+	    if ((MR_SUCCESS != mr_init_struct (tdp_)) || (NULL == mr_ic_add (&mr_conf.type_by_name, tdp_)))
+	      status = MR_FAILURE;
 	    mr_add_type (tdp_);
 	  }
 	}
     }
-  return (MR_SUCCESS);
+  return (status);
 }
 
 /**
@@ -1008,12 +1010,13 @@ mr_ed_enum_value_cmp_sorting (mr_ptr_t x, mr_ptr_t y, const void * context)
 /**
  * New enum descriptor preprocessing. Enum literal values should be added to global lookup table and enum type descriptor should have a lookup by enum values.
  * @param tdp pointer on a new enum type descriptor
+ * @return status
  */
-void
+mr_status_t
 mr_init_enum (mr_td_t * tdp)
 {
   if (tdp->mr_type != MR_TYPE_ENUM)
-    return;
+    return (MR_SUCCESS);
 
   int i, count;
   for (count = 0; tdp->param.enum_param.enums[count] != NULL; ++count)
@@ -1079,7 +1082,7 @@ mr_init_enum (mr_td_t * tdp)
       /* adding to global lookup table by enum literal names */
       mr_ptr_t * result = mr_ic_add (&mr_conf.enum_by_name, tdp->param.enum_param.enums[i]);
       if (NULL == result)
-	continue;
+	return (MR_FAILURE);
 
       mr_ed_t * edp = result->ptr;
       if ((edp != tdp->param.enum_param.enums[i]) &&
@@ -1089,6 +1092,8 @@ mr_init_enum (mr_td_t * tdp)
 
   if (non_zero_cnt < 2)
     tdp->param.enum_param.is_bitmask = false;
+
+  return (MR_SUCCESS);
 }
 
 void
@@ -1232,8 +1237,9 @@ mr_register_type_pointer (mr_td_t * tdp)
   fdp->stype.tdp = tdp;
   fdp->mr_type_base = tdp->mr_type;
 
-  mr_ic_add (&mr_conf.field_by_name, fdp);
-  mr_ic_add (&mr_conf.field_by_name_and_type, fdp);
+  if ((NULL == mr_ic_add (&mr_conf.field_by_name, fdp)) ||
+      (NULL == mr_ic_add (&mr_conf.field_by_name_and_type, fdp)))
+    return (MR_FAILURE);
 
   return ((NULL == mr_ic_add (&union_tdp->param.struct_param.field_by_name, fdp)) ? MR_FAILURE : MR_SUCCESS);
 }
@@ -1525,6 +1531,7 @@ mr_fd_init_ud_overrides (mr_fd_t * fdp)
   if (strcmp (fdp->res_type, "mr_ud_override_t") != 0)
     return (MR_SUCCESS);
 
+  mr_ic_free (&fdp->union_param);
   mr_ic_new (&fdp->union_param, mr_ud_override_hash, mr_ud_override_cmp, "mr_ud_override_t", MR_IC_HASH, NULL);
 
   mr_status_t status = MR_SUCCESS;
@@ -1584,21 +1591,24 @@ mr_normalize_field_name (mr_fd_t * fdp)
  * @param args auxiliary arguments
  * @return status
  */
-static void
+static mr_status_t
 mr_init_struct (mr_td_t * tdp)
 {
   if (!((MR_STRUCT_TYPES >> tdp->mr_type) & 1))
-    return;
+    return (MR_SUCCESS);
 
   int count;
   for (count = 0; tdp->param.struct_param.fields[count] != NULL; ++count)
     mr_normalize_field_name (tdp->param.struct_param.fields[count]);
   tdp->param.struct_param.fields_size = count * sizeof (tdp->param.struct_param.fields[0]);
 
-  mr_anon_unions_extract (tdp); /* important to extract unions before building index over fields */
+  mr_status_t status = mr_anon_unions_extract (tdp); /* important to extract unions before building index over fields */
+  if (MR_SUCCESS != status)
+    return (status);
 
+  mr_ic_free (&tdp->param.struct_param.field_by_name);
   mr_ic_new (&tdp->param.struct_param.field_by_name, mr_fd_name_get_hash, mr_fd_name_cmp, "mr_fd_t", MR_IC_STATIC_ARRAY, NULL);
-  mr_ic_index (&tdp->param.struct_param.field_by_name, (mr_ptr_t*)tdp->param.struct_param.fields, tdp->param.struct_param.fields_size);
+  return (mr_ic_index (&tdp->param.struct_param.field_by_name, (mr_ptr_t*)tdp->param.struct_param.fields, tdp->param.struct_param.fields_size));
 }
 
 static void
@@ -1624,15 +1634,37 @@ mr_detect_struct_fields (mr_td_t * tdp)
       mr_fd_t * fdp = tdp->param.struct_param.fields[i];
       mr_fd_detect_field_type (fdp);
       mr_fd_detect_res_size (fdp);
-      mr_fd_init_ud_overrides (fdp);
       mr_func_field_detect (fdp);
       mr_fd_init_bitfield_params (fdp);
+    }
+}
+
+/**
+ * Add fields into lookup tables.
+ * @param tdp pointer on a type descriptor
+ * @return status
+ */
+static mr_status_t
+mr_index_struct_fields (mr_td_t * tdp)
+{
+  if (!((MR_STRUCT_TYPES >> tdp->mr_type) & 1))
+    return (MR_SUCCESS);
+
+  int i, count = tdp->param.struct_param.fields_size / sizeof (tdp->param.struct_param.fields[0]);
+  for (i = 0; i < count; ++i)
+    {
+      mr_fd_t * fdp = tdp->param.struct_param.fields[i];
+
+      if (MR_SUCCESS != mr_fd_init_ud_overrides (fdp))
+	return (MR_FAILURE);
 
       if (fdp->name.str)
 	{
-	  mr_ic_add (&mr_conf.field_by_name, fdp);
+	  if (NULL == mr_ic_add (&mr_conf.field_by_name, fdp))
+	    return (MR_FAILURE);
 	  if (fdp->stype.tdp)
-	    mr_ic_add (&mr_conf.field_by_name_and_type, fdp);
+	    if (NULL == mr_ic_add (&mr_conf.field_by_name_and_type, fdp))
+	      return (MR_FAILURE);
 	}
     }
 
@@ -1645,6 +1677,8 @@ mr_detect_struct_fields (mr_td_t * tdp)
   */
   if (tdp->mr_type == MR_TYPE_STRUCT)
     mr_hsort (tdp->param.struct_param.fields, count, sizeof (tdp->param.struct_param.fields[0]), mr_fd_offset_cmp_sorting, NULL);
+
+  return (MR_SUCCESS);
 }
 
 /**
@@ -1672,15 +1706,13 @@ mr_type_void_fields_impl (char * type, char * name, ...)
   va_list args;
   va_start (args, name);
 
-  mr_conf_init ();
-
   if (type == NULL)
     {
       MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
       return;
     }
   
-  mr_td_t * tdp = mr_get_td_by_name_internal (type);
+  mr_td_t * tdp = mr_get_td_by_name (type);
   if (tdp == NULL)
     {
       MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_NO_TYPE_DESCRIPTOR, type);
@@ -1910,16 +1942,19 @@ mr_sort_td (mr_td_t * tdp)
   return (root);
 }
 
-inline void
-mr_conf_init ()
+/**
+ * Builds tables of types. Might be called again if there was not enough memory: everything that is done is not repeated.
+ * @return status
+ */
+static mr_status_t
+mr_types_init ()
 {
-  static volatile bool initialized = false;
-  static volatile bool init_in_progress = false;
+  static bool types_listed = false;
+  static bool types_detected = false;
+  mr_dwarf_t * mr_dwarf;
+  mr_td_t * tdp;
 
-  if (initialized)
-    return;
-
-  if (!__atomic_test_and_set (&init_in_progress, __ATOMIC_RELAXED))
+  if (!types_listed)
     {
       mr_ic_new (&mr_conf.var_types, mr_var_get_hash, mr_var_cmp, "mr_var_t", MR_IC_HASH, NULL);
       mr_ic_new (&mr_conf.enum_by_name, mr_ed_name_get_hash, mr_ed_name_cmp, "mr_ed_t", MR_IC_HASH, NULL);
@@ -1927,35 +1962,45 @@ mr_conf_init ()
       mr_ic_new (&mr_conf.field_by_name, mr_fd_name_get_hash, mr_fd_name_cmp, "mr_fd_t", MR_IC_HASH, NULL);
       mr_ic_new (&mr_conf.field_by_name_and_type, mr_fd_name_and_type_get_hash, mr_fd_name_and_type_cmp, "mr_fd_t", MR_IC_HASH, NULL);
 
-      mr_dwarf_t * mr_dwarf;
       for (mr_dwarf = mr_conf.dwarf_list; mr_dwarf; mr_dwarf = mr_dwarf->next)
 	{
 	  int i, count = mr_dwarf->tdps_size / sizeof (mr_dwarf->tdps[0]);
 	  for (i = 0; i < count; ++i)
 	    mr_add_type (mr_dwarf->tdps[i]);
-	  count = mr_dwarf->vars_size / sizeof (mr_dwarf->vars[0]);
-	  for (i = 0; i < count; ++i)
-	    mr_ic_add (&mr_conf.var_types, mr_dwarf->vars[i]);
 	}
 
       mr_conf.td_list = mr_sort_td (mr_conf.td_list);
-      
-      mr_td_t * tdp;
-      for (tdp = mr_conf.td_list; tdp; tdp = tdp->next)
-	{
-	  tdp->type.str = mr_skip_keywords (tdp->type.str);
-	  tdp->type.hash_value = 0;
+      types_listed = true;
+    }
 
-	  /* check whether this type is already in the list */
-	  if (mr_get_td_by_name_internal (tdp->type.str))
-	    continue; /* this type is already registered */
+  for (mr_dwarf = mr_conf.dwarf_list; mr_dwarf; mr_dwarf = mr_dwarf->next)
+    {
+      int i, count = mr_dwarf->vars_size / sizeof (mr_dwarf->vars[0]);
+      for (i = 0; i < count; ++i)
+	if (NULL == mr_ic_add (&mr_conf.var_types, mr_dwarf->vars[i]))
+	  return (MR_FAILURE);
+    }
 
-	  mr_init_struct (tdp);
-	  mr_init_enum (tdp);
-	  mr_init_func (tdp);
-	  mr_ic_add (&mr_conf.type_by_name, tdp);
-	}
+  for (tdp = mr_conf.td_list; tdp; tdp = tdp->next)
+    {
+      tdp->type.str = mr_skip_keywords (tdp->type.str);
+      tdp->type.hash_value = 0;
+
+      /* check whether this type is already in the list */
+      if (mr_get_td_by_name_internal (tdp->type.str))
+	continue; /* this type is already registered */
+
+      if (MR_SUCCESS != mr_init_struct (tdp))
+	return (MR_FAILURE);
+      if (MR_SUCCESS != mr_init_enum (tdp))
+	return (MR_FAILURE);
+      mr_init_func (tdp);
+      if (NULL == mr_ic_add (&mr_conf.type_by_name, tdp))
+	return (MR_FAILURE);
+    }
 
+  if (!types_detected)
+    {
       for (tdp = mr_conf.td_list; tdp; tdp = tdp->next)
 	{
 	  if (tdp != mr_get_td_by_name_internal (tdp->type.str))
@@ -1964,18 +2009,52 @@ mr_conf_init ()
 	  mr_detect_func_args_types (tdp);
 	  mr_detect_struct_fields (tdp);
 	  mr_td_detect_res_size (tdp);
-	  mr_register_type_pointer (tdp);
-	  mr_validate_td (tdp);
 	}
+      types_detected = true;
+    }
 
-      for (tdp = mr_conf.td_list; tdp; tdp = tdp->next)
-	mr_type_is_union_discriminator (tdp);
+  for (tdp = mr_conf.td_list; tdp; tdp = tdp->next)
+    {
+      if (tdp != mr_get_td_by_name_internal (tdp->type.str))
+	continue; /* this type is a duplicate */
+
+      if (MR_SUCCESS != mr_index_struct_fields (tdp))
+	return (MR_FAILURE);
+      if (MR_SUCCESS != mr_register_type_pointer (tdp))
+	return (MR_FAILURE);
+      mr_validate_td (tdp);
+    }
 
-      mr_udo_init ();
+  for (tdp = mr_conf.td_list; tdp; tdp = tdp->next)
+    mr_type_is_union_discriminator (tdp);
 
-      initialized = true;
-    }
-  while (!initialized);
+  return (mr_udo_init ());
+}
+
+/**
+ * Initialization of the library at the first use.
+ * If there is not enough memory, then it fails and will be continued at the next use.
+ * @return status
+ */
+inline mr_status_t
+mr_conf_init ()
+{
+  static volatile bool initialized = false;
+  static volatile bool init_in_progress = false;
+
+  while (!initialized)
+    if (!__atomic_test_and_set (&init_in_progress, __ATOMIC_ACQUIRE))
+      {
+	if (initialized)
+	  break;
+	if (MR_SUCCESS == mr_types_init ())
+	  initialized = true;
+	__atomic_clear (&init_in_progress, __ATOMIC_RELEASE);
+	if (!initialized)
+	  return (MR_FAILURE);
+      }
+
+  return (MR_SUCCESS);
 }
 
 /**
@@ -1987,7 +2066,11 @@ mr_conf_init ()
 void
 mr_detect_type (mr_fd_t * fdp)
 {
-  mr_conf_init ();
+  if (MR_SUCCESS != mr_conf_init ())
+    {
+      fdp->stype.mr_type = MR_TYPE_LAST; /* objects of unknown type can't be neither saved nor loaded */
+      return;
+    }
   mr_fd_detect_field_type (fdp);
   
   if (fdp->stype.tdp)
@@ -2017,7 +2100,8 @@ mr_var_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 char *
 mr_ptr_detect_type (char * filename, char * varname, ...)
 {
-  mr_conf_init ();
+  if (MR_SUCCESS != mr_conf_init ())
+    return (NULL);
 
   mr_var_t mr_var = { .filename = filename, .varname = varname, };
   mr_ptr_t * find = mr_ic_find (&mr_conf.var_types, &mr_var);
diff --git a/src/metaresc.h b/src/metaresc.h
index 6beb09a..8ffad70 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1322,8 +1322,8 @@
 	{ .ra = NULL, .size = 0, .alloc_size = 0, .ptrdes_type = MR_PD_LOAD, }; \
       __typeof__ (&*(D_PTR)) _dst_ = (D_PTR);				\
       memset (_dst_, 0, sizeof (*_dst_));				\
-      mr_conf_init ();							\
-      mr_add_ptr_to_list (&_ptrs_);					\
+      if (MR_SUCCESS == mr_conf_init ())				\
+	mr_add_ptr_to_list (&_ptrs_);					\
       mr_status_t _status_ = MR_FAILURE;				\
       if (_ptrs_.ra)							\
 	{								\
@@ -1598,7 +1598,7 @@ extern int mr_var_cmp (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 #define mr_type_void_fields(type, ...) MR_COMPILETIME_ASSERT (MR_VALIDATE_ALL_ARGS_ARE_STRINGS (__VA_ARGS__)); mr_type_void_fields_impl (type, __VA_ARGS__, NULL)
 extern void __attribute__ ((sentinel(0))) mr_type_void_fields_impl (char * type, char * name, ...);
 extern mr_size_t mr_type_size (mr_type_t mr_type);
-extern void mr_conf_init ();
+extern mr_status_t mr_conf_init ();
 extern mr_status_t mr_free_recursively (mr_ra_ptrdes_t * ptrs);
 extern mr_status_t mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * data);
 extern mr_hash_value_t mr_hash_struct (mr_ra_ptrdes_t * ptrs);
diff --git a/src/mr_save.c b/src/mr_save.c
index 85729e1..1193634 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1589,7 +1589,7 @@ mr_save (void * data, mr_fd_t * fdp)
   };
 
   memset (&mr_save_data, 0, sizeof (mr_save_data));
-  if (NULL == data)
+  if ((NULL == data) || (MR_TYPE_LAST == fdp->stype.mr_type))
     return (mr_save_data.ptrs);
 
   mr_add_ptr_to_list (&mr_save_data.ptrs); /* add first descriptor that plays a role of NULL pointer */
diff --git a/src/mr_udo_init.c b/src/mr_udo_init.c
index 5328aad..42e3a77 100644
--- a/src/mr_udo_init.c
+++ b/src/mr_udo_init.c
@@ -210,7 +210,8 @@ mr_udo_free (mr_types_dep_t * types_dep)
     }
 }
 
-void mr_udo_init ()
+mr_status_t
+mr_udo_init ()
 {
   mr_types_dep_t types_dep;
   mr_status_t status;
@@ -233,4 +234,5 @@ void mr_udo_init ()
 
  graph_free:
   mr_udo_free (&types_dep);
+  return (status);
 }
diff --git a/src/mr_udo_init.h b/src/mr_udo_init.h
index 371a963..ef89bd8 100644
--- a/src/mr_udo_init.h
+++ b/src/mr_udo_init.h
@@ -1,6 +1,6 @@
 #ifndef MR_UDO_INIT_H
 #define MR_UDO_INIT_H
 
-extern void mr_udo_init ();
+extern mr_status_t mr_udo_init ();
 
 #endif /* MR_UDO_INIT_H */
-- 
2.43.0


From 4b734519136105b1769c2c97f37e4efa9862ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 37/39] fix: comparison of complex numbers with a NaN part must
 be transitive

---
 src/mr_extra.c | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 2d8879b..ac0ee3e 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -467,32 +467,18 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
 	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
 	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
+	      /* a number with any NaN part is a NaN, they are equal and less than all other numbers */ \
+	      diff = !(rx_isnan || ix_isnan) - !(ry_isnan || iy_isnan);	\
+	      if (diff)							\
+		return (diff);						\
+	      if (rx_isnan || ix_isnan)					\
 		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
-		{							\
-		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
-		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
+	      diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
+	      if (diff)							\
+		return (diff);						\
+	      diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
+	      if (diff)							\
+		return (diff);						\
 	    }								\
 	    break;
 
-- 
2.43.0


From af56fdcbd1ffb1f9e042f86b468f248bb0ba9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:52 +0000
Subject: [PATCH 38/39] fix: deep copy of a string must not share it with its
 source

---
 src/mr_extra.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index ac0ee3e..34810b2 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -83,6 +83,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   /* copy first level struct */
   memcpy (dst, ptrs->ra[1].data.ptr, ptrs->ra[1].MR_SIZE);
   ptrs->ra[1].res.data.ptr = dst;
+  ptrs->ra[1].res.type = NULL;
 
   for (i = 2; i < count; ++i)
     {
@@ -90,8 +91,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
       ptrs->ra[i].res.type = NULL;
     }
 
-  /* NB index 1 is excluded */
-  for (i = 2; i < count; ++i)
+  /* root node might be a string that needs its own copy as well */
+  for (i = 1; i < count; ++i)
     /*
       process nodes that are in final save graph (ptrs->ra[i].idx != MR_NULL_IDX)
       and are not references on other nodes and not a NULL pointer
@@ -151,7 +152,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   mr_ptrs_dfs (ptrs, calc_relative_addr, NULL);
 
   /* now we should update pointers in a copy */
-  for (i = 2; i < count; ++i)
+  for (i = 1; i < count; ++i)
     if ((ptrs->ra[i].idx != MR_NULL_IDX)) /* skip invalid nodes */
       switch (ptrs->ra[i].mr_type)
 	{
@@ -181,7 +182,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
   return (MR_SUCCESS);
 
  failure:
-  for (i = 2; i < count; ++i)
+  for (i = 1; i < count; ++i)
     /* only nodes that own theirs content have allocated memory */
     if ((ptrs->ra[i].idx != MR_NULL_IDX) && !(ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
       {
-- 
2.43.0


From 9d6ea4489ca6d013e5f8bba6fd33da8c68752746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:52 +0000
Subject: [PATCH 39/39] fix: printing with a method that ends without a line
 feed must not lose the last character

---
 src/mr_print.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_print.c b/src/mr_print.c
index 83db0bf..4ca8ea9 100644
--- a/src/mr_print.c
+++ b/src/mr_print.c
@@ -80,7 +80,10 @@ mr_print_pointer (FILE * fd, mr_type_t mr_type_aux, mr_type_class_t mr_type_clas
   if (NULL == serialized)
     return (fprintf (fd, "%p", value));
 
-  serialized[strlen (serialized) - 1] = 0;
+  /* some of the methods don't put a line feed after a value */
+  size_t length = strlen (serialized);
+  if ((length > 0) && ('\n' == serialized[length - 1]))
+    serialized[length - 1] = 0;
   int rv = fprintf (fd, "%s%s", typed_ptr_str, serialized);
   MR_FREE (serialized);
   return (rv);
-- 
2.43.0

