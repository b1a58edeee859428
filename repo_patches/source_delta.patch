From cf08832a905cef95859bc636dd3b48d9b86404eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 01/94] fix: dc_version_compare returned the wrong sign for
 versions far apart

---
 lib/util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 7a98834..17a5cf3 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -91,9 +91,10 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 
     res = 0;
 
-    res = s1->sv_major - s2->sv_major;
+    // Compare instead of subtracting - the difference of two uint32_t does not fit an int.
+    res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+        res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
-- 
2.43.0


From fbc24201eafec82c3130b9d3f905d92a5c791721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 02/94] fix: dx_value_compare truncated integer and float
 differences to int

---
 lib/util.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 17a5cf3..6be073c 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -243,9 +243,14 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
     case DISIR_VALUE_TYPE_STRING:
         return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        if (v1->dv_float < v2->dv_float)
+            return -1;
+        if (v1->dv_float > v2->dv_float)
+            return 1;
+        // Equal, unless one of them is not a number.
+        return (v1->dv_float != v1->dv_float) - (v2->dv_float != v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From 28cb4c4b654a1abf897c1b14ba1beb9861e6865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 03/94] fix: dx_value_stringify wrote its terminator past a too
 small buffer

---
 lib/util.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/util.c b/lib/util.c
index 6be073c..6909683 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -172,6 +172,13 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     enum disir_status status;
     int32_t size;
 
+    if (output_buffer_size <= 0)
+    {
+        log_debug (0, "invoked with output buffer size less than or equal to zero.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
+    size = 0;
     status = DISIR_STATUS_OK;
     switch (value->dv_type)
     {
@@ -191,7 +198,7 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
         }
 
         memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        output[copy_size] = '\0';
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
-- 
2.43.0


From be5477187d97243afcd176943e3de55d311a21e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 04/94] fix: dx_restriction_entries_value did not select the
 newest applicable restriction

The difference of two versions does not order restrictions: 1.0 is one away
from 2.5 while 2.0 is five away, and the former was selected.
---
 lib/context_restriction.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..dfd1337 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1264,9 +1264,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
-    int diff;
+    struct disir_version *min_introduced = NULL;
+    struct disir_version *max_introduced = NULL;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
@@ -1358,24 +1357,26 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
-            diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
-            if (diff > 0)
+            if (dc_version_compare (&entry->re_introduced, version) > 0)
             {
                 entry = entry->next;
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            // The entry with the greatest introduced, not newer than the target version, is active
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
+                (min_introduced == NULL ||
+                 dc_version_compare (&entry->re_introduced, min_introduced) > 0))
             {
-                min_closes_match = diff;
+                min_introduced = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
+                     (max_introduced == NULL ||
+                      dc_version_compare (&entry->re_introduced, max_introduced) > 0))
             {
-                max_closes_match = diff;
+                max_introduced = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From cb8615ead51b03b7fe417862e63f32c49bfc6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 05/94] fix: an empty string value, name or documentation was
 never freed

---
 lib/context_default.c       | 2 +-
 lib/context_documentation.c | 3 +--
 lib/context_keyval.c        | 8 ++------
 lib/context_section.c       | 5 +----
 lib/util.c                  | 5 +----
 5 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..162936a 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -146,7 +146,7 @@ dx_default_destroy (struct disir_default **def)
     tmp = *def;
 
     if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
+        tmp->de_value.dv_type == DISIR_VALUE_TYPE_ENUM)
     {
         free (tmp->de_value.dv_string);
     }
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..0c81c8f 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -392,8 +392,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    free (tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..698463b 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -386,15 +386,11 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    free ((*keyval)->kv_name.dv_string);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
+    if ((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
         || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
     {
         free ((*keyval)->kv_value.dv_string);
     }
diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..80b686c 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -189,10 +189,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    free ((*section)->se_name.dv_string);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
diff --git a/lib/util.c b/lib/util.c
index 6909683..781bd95 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -447,10 +447,7 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
+        free (value->dv_string);
         value->dv_size = 0;
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
-- 
2.43.0


From 8e2a2554da024545c86362e363ae0f4dc9ba3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 06/94] fix: dc_get_value_string refused documentation contexts

---
 lib/context_value.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..c4a25c4 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -460,7 +460,12 @@ dc_get_value_string (struct disir_context *context, const char **output, int32_t
         goto error;
     }
 
-    status = dc_get_value_type (context, &type);
+    // Documentation carries no declared value type - it is always a string.
+    type = DISIR_VALUE_TYPE_STRING;
+    if (dc_context_type (context) != DISIR_CONTEXT_DOCUMENTATION)
+    {
+        status = dc_get_value_type (context, &type);
+    }
     if (status != DISIR_STATUS_OK)
     {
         dx_log_context (context, "cannot retrieve value type of context: %s",
-- 
2.43.0


From 239d030de68ae387051debdd53396aae7b860e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 07/94] fix: dc_set_value aborted the process on an enum keyval

---
 lib/context_value.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index c4a25c4..c2d1cf9 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -315,8 +315,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
-- 
2.43.0


From f9c936d9584267b2acfa8e35431474b357eacaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 08/94] fix: dc_get_default dereferenced NULL on a keyval
 without default or mold

---
 lib/context_default.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index 162936a..dbe08f3 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -543,7 +543,18 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
             return DISIR_STATUS_INTERNAL_ERROR;
         }
 
+        if (keyval == NULL)
+        {
+            log_debug_context (0, context, "cannot get default of keyval missing a mold");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+
         dx_default_get_active (keyval, version, &def);
+        if (def == NULL)
+        {
+            log_debug_context (0, context, "keyval has no default entry");
+            return DISIR_STATUS_DEFAULT_MISSING;
+        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
-- 
2.43.0


From 4ad242daa92e598fb4924f8e8633f948989ca813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 09/94] fix: storing a value of another type reinterpreted the
 former value's storage

A configuration keyval under construction (or finalized while invalid)
accepts a value of the wrong type. Switching between a string and any
other type left the old union member in place: an integer was freed as a
string pointer, and a string was leaked.
---
 lib/context.c       |  3 ++-
 lib/context_value.c | 10 +++++-----
 lib/include/value.h |  9 +++++++++
 lib/util.c          | 25 +++++++++++++++++++++++++
 4 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..7453f44 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -932,7 +932,8 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         context->cx_keyval->kv_mold_equiv = queried;
-        context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
+        dx_value_change_type (&context->cx_keyval->kv_value,
+                              queried->cx_keyval->kv_value.dv_type);
     }
 
     dx_context_incref (queried);
diff --git a/lib/context_value.c b/lib/context_value.c
index c2d1cf9..a71b02e 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -111,8 +111,8 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
         // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
         if (context->cx_keyval->kv_mold_equiv)
         {
-            context->cx_keyval->kv_value.dv_type
-                = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
+            dx_value_change_type (&context->cx_keyval->kv_value,
+                context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type);
         }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
@@ -173,7 +173,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_change_type (*storage, type);
             }
             // Use-case 3
             // set_name has been called and succeed, but wrong type assigned.
@@ -186,7 +186,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                                       dx_value_type_string (type),
                                       dx_value_type_string ((*storage)->dv_type));
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_change_type (*storage, type);
             }
         }
         // Use-case 4
@@ -194,7 +194,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                  context->CONTEXT_STATE_INVALID)
         {
             // Set storage type to mirror input
-            (*storage)->dv_type = type;
+            dx_value_change_type (*storage, type);
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
         else if (context->CONTEXT_STATE_FINALIZED)
diff --git a/lib/include/value.h b/lib/include/value.h
index f107637..d034513 100644
--- a/lib/include/value.h
+++ b/lib/include/value.h
@@ -111,6 +111,15 @@ enum disir_status
 dx_value_get_string (struct disir_value *value, const char **output, int32_t *size);
 
 
+//! \brief Change the type of the input value storage
+//!
+//! The stored value does not survive a change between a type that holds
+//! a heap allocated string and one that does not: the string is released
+//! and the storage is left without a value.
+//!
+void
+dx_value_change_type (struct disir_value *value, enum disir_value_type type);
+
 //! \brief Set the input 'value' with the contents of the input 'integer'
 //!
 //! \param value Value object to store a value type.
diff --git a/lib/util.c b/lib/util.c
index 781bd95..8d3ecbc 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -485,6 +485,31 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     return DISIR_STATUS_OK;
 }
 
+//! INTERNAL API
+void
+dx_value_change_type (struct disir_value *value, enum disir_value_type type)
+{
+    int holds_string;
+    int hold_string;
+
+    holds_string = (value->dv_type == DISIR_VALUE_TYPE_STRING ||
+                    value->dv_type == DISIR_VALUE_TYPE_ENUM);
+    hold_string = (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM);
+
+    if (holds_string != hold_string)
+    {
+        if (holds_string)
+        {
+            free (value->dv_string);
+        }
+        value->dv_integer = 0;
+        value->dv_string = NULL;
+        value->dv_size = 0;
+    }
+
+    value->dv_type = type;
+}
+
 //! INTERNAL API
 enum disir_status
 dx_value_get_string (struct disir_value *value, const char **output, int32_t *size)
-- 
2.43.0


From 91cd81d55e06c53e65802f19686a44577982fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 10/94] fix: renaming a configuration element kept its former
 mold equivalent

A second dc_set_name leaked the reference to the former equivalent, and a
name unknown to the mold (or refused by the maximum restriction) left the
element associated with the wrong mold entry, so it validated as OK.
---
 lib/context.c                 | 74 +++++++++++++++++++++++++++--------
 lib/include/context_private.h | 14 ++++---
 2 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 7453f44..d6cde50 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -500,6 +500,43 @@ dc_context_valid (struct disir_context *context)
     return status;
 }
 
+//! STATIC API
+//!
+//! Associate context with equiv (may be NULL), releasing the former association.
+//!
+static void
+replace_mold_equiv (struct disir_context *context, struct disir_context *equiv)
+{
+    struct disir_context **mold_equiv;
+    struct disir_context *former;
+
+    if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
+    {
+        mold_equiv = &context->cx_section->se_mold_equiv;
+    }
+    else
+    {
+        mold_equiv = &context->cx_keyval->kv_mold_equiv;
+    }
+
+    former = *mold_equiv;
+    *mold_equiv = equiv;
+
+    if (equiv)
+    {
+        dx_context_incref (equiv);
+        if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
+        {
+            dx_value_change_type (&context->cx_keyval->kv_value,
+                                  equiv->cx_keyval->kv_value.dv_type);
+        }
+    }
+    if (former)
+    {
+        dx_context_decref (&former);
+    }
+}
+
 //! PUBLIC API
 enum disir_status
 dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
@@ -509,8 +546,12 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     int max;
     int current_entries_count;
     struct disir_collection *collection;
+    struct disir_context *mold_equiv;
+    const char *former_name;
 
     collection = NULL;
+    mold_equiv = NULL;
+    former_name = NULL;
     max = 0;
     invalid = DISIR_STATUS_OK;
 
@@ -532,7 +573,7 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        invalid = dx_set_mold_equiv (context, name, name_size);
+        invalid = dx_find_mold_equiv (context, name, name_size, &mold_equiv);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_NOT_EXIST)
         {
             return invalid;
@@ -547,7 +588,8 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         if (invalid == DISIR_STATUS_OK && context->cx_parent_context->CONTEXT_STATE_FINALIZED)
         {
             // check if number of elements in parent exceed size of restriction
-            dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
+            dx_restriction_entries_value (mold_equiv, DISIR_RESTRICTION_INC_ENTRY_MAX,
+                                          &context->cx_root_context->cx_config->cf_version, &max);
             dc_find_elements (context->cx_parent_context, name, &collection);
             current_entries_count = dc_collection_size (collection);
             dc_collection_finished (&collection);
@@ -557,9 +599,19 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
             if (max != 0 && max <= current_entries_count)
             {
                 dx_context_error_set (context, "maximum instances of %d exceeded", max);
+                // A context that has no name yet may still be populated.
+                // One that has keeps the equivalent of the name it retains.
+                dc_get_name (context, &former_name, NULL);
+                if (former_name == NULL)
+                {
+                    replace_mold_equiv (context, mold_equiv);
+                }
                 return DISIR_STATUS_RESTRICTION_VIOLATED;
             }
         }
+
+        // Any equivalent found by a previous name no longer applies.
+        replace_mold_equiv (context, mold_equiv);
     }
 
     // QUESTION: Do not allow setting name on finalized context? Only if not invalid
@@ -868,7 +920,8 @@ dx_get_mold_equiv_type (struct disir_context *parent,
 
 //! INTERNAL API
 enum disir_status
-dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t value_size)
+dx_find_mold_equiv (struct disir_context *context, const char *value, int32_t value_size,
+                    struct disir_context **mold_equiv)
 {
     enum disir_status status;
     struct disir_context *queried;
@@ -876,7 +929,7 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
 
     if (context == NULL || value == NULL || value_size <= 0)
     {
-        log_debug(1, "setting mold equiv with NULL pointer arguments (%p, %p, %d)",
+        log_debug(1, "finding mold equiv with NULL pointer arguments (%p, %p, %d)",
                      context, value, value_size);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -925,18 +978,7 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
-    if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
-    {
-        context->cx_section->se_mold_equiv = queried;
-    }
-    else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
-    {
-        context->cx_keyval->kv_mold_equiv = queried;
-        dx_value_change_type (&context->cx_keyval->kv_value,
-                              queried->cx_keyval->kv_value.dv_type);
-    }
-
-    dx_context_incref (queried);
+    *mold_equiv = queried;
 
     return DISIR_STATUS_OK;
 }
diff --git a/lib/include/context_private.h b/lib/include/context_private.h
index 5a86a42..3d29f8a 100644
--- a/lib/include/context_private.h
+++ b/lib/include/context_private.h
@@ -135,7 +135,7 @@ struct disir_context * dx_context_create (enum disir_context_type type);
 //! Free an allocated disir_context
 void dx_context_destroy (struct disir_context **context);
 
-//! \brief Associate the input config related context with its equiv mold related context
+//! \brief Find the mold equivalent the input config related context has under the input name
 //!
 //! The input context must have root CONFIG context, where valid contexts are:
 //!     * DISIR_CONTEXT_KEYVAL
@@ -144,13 +144,17 @@ void dx_context_destroy (struct disir_context **context);
 //! \param context The input context whose root is CONFIG
 //! \param value The value used to locate the mold equivalent
 //! \param value_size Bytes inputted in value
+//! \param[out] mold_equiv Populated with the mold equivalent. No reference is taken.
 //!
-//! \return DISIR_STATUS_INVALID_ARGUMENT if context or value are NULL, if value_size is
-//!     less or equal to zero, or if the input value is not associated in the mold.
+//! \return DISIR_STATUS_INVALID_ARGUMENT if context or value are NULL or if value_size is
+//!     less or equal to zero.
+//! \return DISIR_STATUS_NOT_EXIST if the input value is not associated in the mold.
+//! \return DISIR_STATUS_WRONG_CONTEXT if the mold entry is of another context type.
 //! \return DISIR_STATUS_OK on success.
 //!
-enum disir_status dx_set_mold_equiv (struct disir_context *context,
-                                     const char *value, int32_t value_size);
+enum disir_status dx_find_mold_equiv (struct disir_context *context,
+                                      const char *value, int32_t value_size,
+                                      struct disir_context **mold_equiv);
 
 //! \brief Retrieve the mold equivalent context for the input context
 //!
-- 
2.43.0


From 9eb5ac16a656aa58506c239af69e23e61df92a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 11/94] fix: dc_set_name accepted a missing or empty name

The documentation promises DISIR_STATUS_INVALID_ARGUMENT; a NULL name was
dereferenced by the trace of the lookup or cleared the name of a mold
element, leaving it unusable.
---
 lib/context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index d6cde50..862def9 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -570,6 +570,12 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    if (name == NULL || name_size <= 0)
+    {
+        log_debug (0, "invoked with NULL or empty name (%p, %d)", name, name_size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-- 
2.43.0


From 162b42c19e478848d813c12cdafb581b3b48ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 12/94] fix: dc_set_name looked up more of the name than the
 given size

The mold equivalent was looked up by the terminated string while only
name_size bytes of it were stored as the name.
---
 lib/context.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 862def9..5e03eaf 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -548,6 +548,7 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     struct disir_collection *collection;
     struct disir_context *mold_equiv;
     const char *former_name;
+    char *key;
 
     collection = NULL;
     mold_equiv = NULL;
@@ -576,13 +577,21 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
+    // The input name need not be terminated at name_size.
+    key = strndup (name, name_size);
+    if (key == NULL)
+    {
+        return DISIR_STATUS_NO_MEMORY;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        invalid = dx_find_mold_equiv (context, name, name_size, &mold_equiv);
+        invalid = dx_find_mold_equiv (context, key, name_size, &mold_equiv);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_NOT_EXIST)
         {
-            return invalid;
+            status = invalid;
+            goto out;
         }
         // If NOT EXIST, let it through and set name but mark context as invalid
         if (invalid == DISIR_STATUS_NOT_EXIST)
@@ -596,12 +605,12 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
             // check if number of elements in parent exceed size of restriction
             dx_restriction_entries_value (mold_equiv, DISIR_RESTRICTION_INC_ENTRY_MAX,
                                           &context->cx_root_context->cx_config->cf_version, &max);
-            dc_find_elements (context->cx_parent_context, name, &collection);
+            dc_find_elements (context->cx_parent_context, key, &collection);
             current_entries_count = dc_collection_size (collection);
             dc_collection_finished (&collection);
 
             log_debug (4, "Maximum restriction for entry '%s' = %d (currently at %d",
-                          name, max, current_entries_count);
+                          key, max, current_entries_count);
             if (max != 0 && max <= current_entries_count)
             {
                 dx_context_error_set (context, "maximum instances of %d exceeded", max);
@@ -612,7 +621,8 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
                 {
                     replace_mold_equiv (context, mold_equiv);
                 }
-                return DISIR_STATUS_RESTRICTION_VIOLATED;
+                status = DISIR_STATUS_RESTRICTION_VIOLATED;
+                goto out;
             }
         }
 
@@ -633,7 +643,8 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     else
     {
         log_fatal_context (context, "slipped through guard - unsupported.");
-        return DISIR_STATUS_INTERNAL_ERROR;
+        status = DISIR_STATUS_INTERNAL_ERROR;
+        goto out;
     }
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
@@ -641,6 +652,8 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     // TODO:  if context is not in constructing mode (it has been finalized once)
     // remove old name from parent storage and add it under the new name.
 
+out:
+    free (key);
     TRACE_EXIT ("status: %s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 82cff5b491906b111aa8e8fffa4b21d6da9506df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 13/94] fix: dc_set_value_enum checked more of the text than
 the given size

The enumerators were compared with the terminated string while only
value_size bytes were stored; a missing text was dereferenced.
---
 lib/context_value.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index a71b02e..bb77de1 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -809,9 +809,19 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     enum disir_status status;
     enum disir_status invalid;
     struct disir_value *value_storage;
+    char *enumerator;
+
+    enumerator = NULL;
 
     TRACE_ENTER ("context: %p, value: %s, value_size: %d", context, value, value_size);
 
+    if (value == NULL || value_size < 0)
+    {
+        log_debug (0, "invoked with value NULL pointer or negative size (%d).", value_size);
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto out;
+    }
+
     invalid = set_value_input_check (context, DISIR_VALUE_TYPE_ENUM, &value_storage);
     if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
@@ -820,9 +830,17 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
         goto out;
     }
 
+    // The input value need not be terminated at value_size.
+    enumerator = strndup (value, value_size);
+    if (enumerator == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, value);
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0, enumerator);
     }
 
      // Do not allow finalized context to change value
@@ -850,6 +868,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
 out:
+    free (enumerator);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From c40f9bb88d87261831289468c1bda46f9a2553c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 14/94] fix: dc_finalize_keep_reference leaked a reference when
 finalizing failed

Only the invalid-context outcome gave the extra reference back.
---
 lib/context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 5e03eaf..fd1cd51 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -435,7 +435,7 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (status != DISIR_STATUS_OK && tmp)
     {
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
-- 
2.43.0


From b75655aa1ba77422c62d7e5ccdde67fea839ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 15/94] fix: finalizing a context twice inserted it into its
 parent twice

A default, documentation or restriction was queued a second time, tying
the parent's queue into a loop.
---
 lib/context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index fd1cd51..2adea1b 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -339,6 +339,13 @@ dc_finalize (struct disir_context **context)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    // A finalized context is already held by its parent.
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "%s is already finalized.", dc_context_type_string (*context));
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Call finalize on the actual context type
     switch (dx_context_type_sanify ((*context)->cx_type))
     {
-- 
2.43.0


From 35cd047bc835629da50ad1395aa051e09722207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 16/94] fix: renaming a finalized element left its parent
 indexing it by the old name

Lookup by the new name failed, and destroying the element left a dangling
pointer under the old one.
---
 lib/context.c                 | 40 ++++++++++++++++++++++++++++++++---
 lib/element_storage.c         | 36 +++++++++++++++++++++++++++++++
 lib/include/element_storage.h | 12 +++++++++++
 3 files changed, 85 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 2adea1b..7a1fe12 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -507,6 +507,37 @@ dc_context_valid (struct disir_context *context)
     return status;
 }
 
+//! STATIC API
+//!
+//! Index a context that is part of its parent by its new name.
+//!
+static enum disir_status
+rename_in_parent (struct disir_context *context, const char *new_name)
+{
+    struct disir_element_storage *storage;
+    const char *name;
+
+    if (context->CONTEXT_STATE_IN_PARENT == 0)
+    {
+        return DISIR_STATUS_OK;
+    }
+
+    switch (dc_context_type (context->cx_parent_context))
+    {
+    case DISIR_CONTEXT_CONFIG:
+        storage = context->cx_parent_context->cx_config->cf_elements;
+        break;
+    case DISIR_CONTEXT_MOLD:
+        storage = context->cx_parent_context->cx_mold->mo_elements;
+        break;
+    default:
+        storage = context->cx_parent_context->cx_section->se_elements;
+    }
+
+    dc_get_name (context, &name, NULL);
+    return dx_element_storage_rename (storage, name, new_name, context);
+}
+
 //! STATIC API
 //!
 //! Associate context with equiv (may be NULL), releasing the former association.
@@ -639,6 +670,12 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
 
     // QUESTION: Do not allow setting name on finalized context? Only if not invalid
 
+    status = rename_in_parent (context, key);
+    if (status != DISIR_STATUS_OK)
+    {
+        goto out;
+    }
+
     if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         status = dx_value_set_string (&context->cx_keyval->kv_name, name, name_size);
@@ -656,9 +693,6 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
 
-    // TODO:  if context is not in constructing mode (it has been finalized once)
-    // remove old name from parent storage and add it under the new name.
-
 out:
     free (key);
     TRACE_EXIT ("status: %s", disir_status_string (status));
diff --git a/lib/element_storage.c b/lib/element_storage.c
index 1d342d3..6056ccd 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -251,6 +251,42 @@ dx_element_storage_remove (struct disir_element_storage *storage,
     return DISIR_STATUS_OK;
 }
 
+//! INTERNAL API
+enum disir_status
+dx_element_storage_rename (struct disir_element_storage *storage,
+                           const char * const name, const char * const new_name,
+                           struct disir_context *context)
+{
+    char *key;
+    int keys_in_map;
+
+    key = NULL;
+
+    if (strcmp (name, new_name) == 0)
+    {
+        return DISIR_STATUS_OK;
+    }
+
+    keys_in_map = multimap_contains_key (storage->es_map, new_name);
+    if (keys_in_map == 0)
+    {
+        key = strdup (new_name);
+        if (key == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
+    }
+
+    if (multimap_push_value (storage->es_map, (keys_in_map ? new_name : key), context) != 0)
+    {
+        free (key);
+        return DISIR_STATUS_NO_MEMORY;
+    }
+
+    multimap_remove_value (storage->es_map, name, free, context);
+    return DISIR_STATUS_OK;
+}
+
 enum disir_status
 dx_element_storage_get (struct disir_element_storage *storage,
                         const char * const name,
diff --git a/lib/include/element_storage.h b/lib/include/element_storage.h
index 8198694..923ca89 100644
--- a/lib/include/element_storage.h
+++ b/lib/include/element_storage.h
@@ -64,6 +64,18 @@ dx_element_storage_remove (struct disir_element_storage *storage,
                            const char * const name,
                            struct disir_context *context);
 
+//! \brief Index a context already in the element storage by a new name
+//!
+//! The position of the context in the storage is not affected.
+//!
+//! \return DISIR_STATUS_NO_MEMORY if the new name cannot be allocated. Storage is unaffected.
+//! \return DISIR_STATUS_OK on success.
+//!
+enum disir_status
+dx_element_storage_rename (struct disir_element_storage *storage,
+                           const char * const name, const char * const new_name,
+                           struct disir_context *context);
+
 //! \brief Query the element storage for its elmenets matching name
 //!
 //! \param storage Element storage to query entries from
-- 
2.43.0


From 0167a9c3f7ed853c877ba032e275cd8b11cf984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 17/94] fix: an enum keyval without a value crashed validation

Finalizing it compared a NULL text with the enumerators.
---
 lib/context_restriction.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index dfd1337..72bf814 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1186,6 +1186,12 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
                 allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
             }
 
+            // No value has been set - or the enumerator is missing.
+            if (string_value == NULL || entry->re_value_string == NULL)
+            {
+                break;
+            }
+
             if (strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
-- 
2.43.0


From 556a6069a0f34ea660520078b03812e0d74b7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 18/94] fix: destroying a finalized default left it in its
 keyval's queue

The check for a destroyed keyval was inverted: the default stayed queued
when the keyval was alive, and a destroyed keyval was dereferenced.
---
 lib/context_default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index dbe08f3..da1bd80 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -155,7 +155,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
-- 
2.43.0


From 501862eb82240300deed57b254ee22c7a0084cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 19/94] fix: destroying a finalized default, restriction or
 documentation leaked its parent's reference

Also: a documentation whose parent is already destroyed no longer reads the parent.
---
 lib/context_default.c       |  6 +++++-
 lib/context_documentation.c | 10 +++++++---
 lib/context_restriction.c   |  5 +++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index da1bd80..814a438 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -160,7 +160,11 @@ dx_default_destroy (struct disir_default **def)
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
                 queue = &(context->cx_parent_context->cx_keyval->kv_default_queue);
-                MQ_REMOVE_SAFE (*queue, tmp);
+                if (MQ_REMOVE_SAFE (*queue, tmp))
+                {
+                    // The reference held by the queue of the parent
+                    dx_context_decref (&context);
+                }
             }
             else
             {
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 0c81c8f..8fdcadd 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -395,7 +395,9 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     free (tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
-    if (context && context->cx_parent_context)
+    // Don't access the parent if it is already destroyed
+    if (context && context->cx_parent_context
+        && context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
     {
         context = context->cx_parent_context;
 
@@ -431,9 +433,11 @@ dx_documentation_destroy (struct disir_documentation **documentation)
 
         // Must remove safely - cannot guarantee that the instance we are destroying
         // is in its parents queue
-        if (queue != NULL)
+        if (queue != NULL && MQ_REMOVE_SAFE (*queue, tmp))
         {
-            MQ_REMOVE_SAFE (*queue, tmp);
+            // The reference held by the queue of the parent
+            context = tmp->dd_context;
+            dx_context_decref (&context);
         }
     }
 
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 72bf814..18b17b6 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -262,9 +262,10 @@ dx_restriction_destroy (struct disir_restriction **restriction)
                                    dc_context_type_string (context));
             }
 
-            if (queue)
+            if (queue && MQ_REMOVE_SAFE (*queue, tmp))
             {
-                MQ_REMOVE_SAFE (*queue, tmp);
+                // The reference held by the queue of the parent
+                dx_context_decref (&context);
             }
         }
     }
-- 
2.43.0


From 79744b6c95cf90e818003ca157e3e5c83ef915e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 20/94] fix: dc_add_restriction_value_enum used an
 uninitialised context when it could not begin one

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 18b17b6..0192b57 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -875,7 +875,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
-- 
2.43.0


From 9c82d51dc85cfe4622f30f5d1c3d1c73a5782d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 21/94] fix: dc_get_documentation aborted on a config context

---
 lib/context_documentation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8fdcadd..552224f 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -230,6 +230,10 @@ dc_get_documentation (struct disir_context *context, struct disir_version *versi
     case DISIR_CONTEXT_MOLD:
         doc_parent = &context->cx_mold->mo_documentation_queue;
         break;
+    case DISIR_CONTEXT_CONFIG:
+        // A config is documented by its mold
+        doc_parent = &context->cx_config->cf_mold->mo_documentation_queue;
+        break;
     case DISIR_CONTEXT_SECTION:
         doc_parent = &context->cx_section->se_documentation_queue;
         break;
-- 
2.43.0


From 84d33cf5cdf545caa27389aee26c6046f217550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 22/94] fix: a second documentation of a restriction was not
 reported as existing

---
 lib/context_documentation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 552224f..f5b771f 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -126,9 +126,13 @@ dx_documentation_numentries (struct disir_context *context)
         queue = context->cx_section->se_documentation_queue;
         break;
     }
+    case DISIR_CONTEXT_RESTRICTION:
+    {
+        queue = context->cx_restriction->re_documentation_queue;
+        break;
+    }
     case DISIR_CONTEXT_CONFIG:
     case DISIR_CONTEXT_DEFAULT:
-    case DISIR_CONTEXT_RESTRICTION:
     case DISIR_CONTEXT_DOCUMENTATION:
     case DISIR_CONTEXT_UNKNOWN:
     {
-- 
2.43.0


From 90ccb16ef0a903fab5a11e2a52eb9bc6a549c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 23/94] fix: a minimum of zero entries without a maximum meant
 unlimited entries

---
 lib/context_restriction.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 0192b57..beb3a67 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1392,14 +1392,14 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     // Set max.
     // Maximum default is 1.
     // if minimum is set, and the active maximum is lower, it will equal the minimum.
-    if (max != 0 && max < min)
-    {
-        max = min;
-    }
     if (max == -1)
     {
         max = 1;
     }
+    if (max != 0 && max < min)
+    {
+        max = min;
+    }
 
     // Mimimum entries is 1.
     if (min == -1)
-- 
2.43.0


From 2e27f35e2de7171c2c4b774486ba98f926257ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 24/94] fix: validation reported a section's data as the
 version an element is not valid for

---
 lib/validate.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..6208fb5 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -141,8 +141,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             char buffer[50];
             dx_log_context (context,
                             "%s is not a valid element for version %s",
-                            name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                            name, dc_version_string(buffer, 50, target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
-- 
2.43.0


From 8baf51937b5112dbc794461fccdf5540cd9cfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 25/94] fix: dc_set_value_type changed the type of a keyval
 with defaults and aborted on other contexts

---
 lib/context_util.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..4c8b036 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -484,15 +484,21 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     {
     case DISIR_CONTEXT_KEYVAL:
     {
-        //TODO XXX: Cannot set type if keyval has defaults
-        //TODO XXX: Cannot set type if toplevel context is not DISIR_MOLD
+        // Existing defaults hold a value of the current type
+        if (context->cx_keyval->kv_default_queue != NULL &&
+            context->cx_keyval->kv_value.dv_type != type)
+        {
+            dx_context_error_set (context, "cannot change value type on KEYVAL with defaults.");
+            return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+        }
         context->cx_keyval->kv_value.dv_type = type;
         break;
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_context_error_set (context, "cannot set value type on %s.",
+                                       dc_context_type_string (context));
+        return DISIR_STATUS_WRONG_CONTEXT;
     }
     }
 
-- 
2.43.0


From bb785afc50cb730b911e3b141b2581a264a53072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 26/94] fix: finalizing a restriction without a type below a
 finalized parent aborted

---
 lib/validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 6208fb5..3468f39 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -477,7 +477,7 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
-- 
2.43.0


From b30e934176c7b25e92f97edda76b3d6eb4ad93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 27/94] fix: a mold accepted defaults and restrictions that do
 not fit a value type changed after they were begun

---
 lib/validate.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/validate.c b/lib/validate.c
index 3468f39..6cb945e 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -469,6 +469,7 @@ validate_restriction (struct disir_context *context)
     enum disir_status status;
     struct disir_restriction *res;
     struct disir_restriction **queue;
+    enum disir_value_type value_type;
 
     queue = NULL;
     res = context->cx_restriction;
@@ -480,6 +481,23 @@ validate_restriction (struct disir_context *context)
        return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
+    // The value type of the keyval may have changed since the type was set
+    if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
+    {
+        value_type = dc_value_type (context->cx_parent_context);
+        if ((res->re_type == DISIR_RESTRICTION_EXC_VALUE_ENUM &&
+             value_type != DISIR_VALUE_TYPE_ENUM) ||
+            ((res->re_type == DISIR_RESTRICTION_EXC_VALUE_RANGE ||
+              res->re_type == DISIR_RESTRICTION_EXC_VALUE_NUMERIC) &&
+             value_type != DISIR_VALUE_TYPE_INTEGER && value_type != DISIR_VALUE_TYPE_FLOAT))
+        {
+            dx_log_context (context, "restriction %s does not apply to value type %s.",
+                                     dc_restriction_enum_string (res->re_type),
+                                     dc_value_type_string (context->cx_parent_context));
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+    }
+
     // Validate that the restriction context got a valid type set (belongs to a group)
     status = dx_restriction_get_queue (context, &queue);
     if (status != DISIR_STATUS_OK)
@@ -748,6 +766,15 @@ validate_context_validity (struct disir_context *context)
                             dc_version_string (buffer, 32, &context->cx_default->de_introduced));
             invalid = DISIR_STATUS_CONFLICTING_SEMVER;
         }
+
+        // The value type of the keyval may have changed since the default was begun
+        if (invalid == DISIR_STATUS_OK &&
+            context->cx_default->de_value.dv_type != dc_value_type (context->cx_parent_context))
+        {
+            dx_log_context (context, "default does not hold a value of type %s.",
+                                     dc_value_type_string (context->cx_parent_context));
+            invalid = DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
         break;
     }
     case DISIR_CONTEXT_RESTRICTION:
-- 
2.43.0


From 93c96f5dd08efe36d6788c92010319084fd54ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 28/94] fix: dc_set_restriction_type accepted types out of
 range

---
 lib/context_restriction.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index beb3a67..18b22ef 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -359,6 +359,12 @@ dc_set_restriction_type (struct disir_context *context, enum disir_restriction_t
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
 
+    if (dx_restriction_type_sanify (type) == DISIR_RESTRICTION_UNKNOWN)
+    {
+        log_debug (0, "invoked with invalid/unknown restriction type (%d)", type);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // QUESTION: Should we allow invalid, constructing contexts by marking the context invalid
     // and letting it propagate through all the error checks=
 
-- 
2.43.0


From 4a3fba7a2f5d3ee121d17620a3452a8c12c41c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 29/94] fix: the restriction type conversions read out of
 bounds on unknown input

---
 lib/context_restriction.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 18b22ef..9225566 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -37,6 +37,11 @@ const char *disir_restriction_strings[] = {
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
 {
+    if (restriction < 0 || restriction > DISIR_RESTRICTION_UNKNOWN)
+    {
+        restriction = DISIR_RESTRICTION_UNKNOWN;
+    }
+
     return disir_restriction_strings[restriction];
 }
 
@@ -78,6 +83,11 @@ dc_restriction_string_to_enum (const char *string)
 {
     int i;
 
+    if (string == NULL)
+    {
+        return DISIR_RESTRICTION_UNKNOWN;
+    }
+
     for (i = 1; i < DISIR_RESTRICTION_UNKNOWN; i++)
     {
         if (strcmp (string, disir_restriction_strings[i]) == 0)
-- 
2.43.0


From e0ad63fe97e17812ab8c8623b02dbc6064c81446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 30/94] fix: generating a configuration leaked and went on
 after a failed step

---
 lib/generate.c | 51 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..a4c9796 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -29,9 +29,9 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                                           int generate_zero_min)
 {
     enum disir_status status;
-    struct disir_collection *collection;
-    struct disir_context *equiv;
-    struct disir_context *context;
+    struct disir_collection *collection = NULL;
+    struct disir_context *equiv = NULL;
+    struct disir_context *context = NULL;
     struct disir_default *def;
     const char *name;
     int32_t size;
@@ -102,8 +102,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             else if (dc_context_type (equiv) == DISIR_CONTEXT_SECTION)
             {
                 // Send down parent and context -
-                generate_config_from_mold_recursive_step (equiv, context, version,
-                                                          generate_zero_min);
+                status = generate_config_from_mold_recursive_step (equiv, context, version,
+                                                                   generate_zero_min);
+                if (status != DISIR_STATUS_OK)
+                {
+                    goto error;
+                }
             }
 
             status = dc_finalize (&context);
@@ -118,6 +122,15 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    // Only set when we have failed
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
@@ -133,15 +146,15 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
                                  struct disir_config **config)
 {
     enum disir_status status;
-    struct disir_context *config_context;
+    struct disir_context *config_context = NULL;
     char buffer[512];
     struct disir_version version;
 
     TRACE_ENTER ("mold: %p, version: %p", mold, config_version);
 
-    if (mold == NULL)
+    if (mold == NULL || config == NULL)
     {
-        log_debug (0, "invoked with mold NULL pointer");
+        log_debug (0, "invoked with NULL pointer(s) (mold: %p, config: %p)", mold, config);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
@@ -161,28 +174,34 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
     {
         dc_version_set (&version, config_version);
-        if (status != DISIR_STATUS_OK)
-        {
-            // Already logged ?
-            return status;
-        }
     }
     status = dc_set_version (config_context, &version);
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
-    generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
+    status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
+                                                       &version, 0);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        goto error;
+    }
 
     status = dc_config_finalize (&config_context, config);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // Finalized, but not valid - the caller does not get a config he is to finish.
+        disir_config_finished (config);
+    }
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-- 
2.43.0


From 64b3ba70bf997eeaee1ef989c9658870c74777c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 31/94] fix: destroying an element through a handle leaked it

---
 lib/context.c         | 18 ++++++++++++------
 lib/context_config.c  | 21 ---------------------
 lib/context_mold.c    | 19 -------------------
 lib/context_section.c | 19 -------------------
 4 files changed, 12 insertions(+), 65 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 7a1fe12..f2c825a 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -388,12 +388,12 @@ dc_finalize (struct disir_context **context)
         {
             // Contect invalid - Mark it as so and let user handle it.
             (*context)->CONTEXT_STATE_INVALID = 1;
-            // XXX: Handlse case where invalid context is not added to
-            // XXX: parent element storage  (empty name)
-            // XXX: Now it stands at two references with only one liable source (caller)
-            // XXX: Either allow empty name to be submitted to element_storage
-            // XXX: or handle it specially here.
-            dx_context_incref (*context);
+            // An element storage holds its own reference - the user keeps his.
+            if ((*context)->cx_type != DISIR_CONTEXT_KEYVAL &&
+                (*context)->cx_type != DISIR_CONTEXT_SECTION)
+            {
+                dx_context_incref (*context);
+            }
         }
         else
         {
@@ -415,6 +415,12 @@ dc_finalize (struct disir_context **context)
             // TODO: Add similar test to deprecated as is done for introduced
 
             // Deprive the user of his reference.
+            // An element storage holds its own, otherwise it is passed on to the parent.
+            if ((*context)->cx_type == DISIR_CONTEXT_KEYVAL ||
+                (*context)->cx_type == DISIR_CONTEXT_SECTION)
+            {
+                dx_context_decref (context);
+            }
             *context = NULL;
 
             // Only let API return INVALID_CONTEXT if anything is amiss
diff --git a/lib/context_config.c b/lib/context_config.c
index 1d44acd..66b67a0 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -166,33 +166,12 @@ error:
 enum disir_status
 dx_config_destroy (struct disir_config **config)
 {
-    enum disir_status status;
-    struct disir_context *context;
-    struct disir_collection *collection;
-
     if (config == NULL || *config == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
     // Remove our reference to the mold
     disir_mold_finished (&(*config)->cf_mold);
 
-    // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*config)->cf_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*config)->cf_elements);
 
     free (*config);
diff --git a/lib/context_mold.c b/lib/context_mold.c
index 09cbb2d..8c4e221 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -157,10 +157,8 @@ error:
 enum disir_status
 dx_mold_destroy (struct disir_mold **mold)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
 
     if (mold == NULL || *mold == NULL)
     {
@@ -168,23 +166,6 @@ dx_mold_destroy (struct disir_mold **mold)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*mold)->mo_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     // Destroy element storage in the mold.
     dx_element_storage_destroy (&(*mold)->mo_elements);
 
diff --git a/lib/context_section.c b/lib/context_section.c
index 80b686c..178331c 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -177,10 +177,8 @@ error:
 enum disir_status
 dx_section_destroy (struct disir_section **section)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
     struct disir_restriction *restriction;
 
     if (section == NULL || *section == NULL)
@@ -205,23 +203,6 @@ dx_section_destroy (struct disir_section **section)
         dc_destroy (&context);
     }
 
-    // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*section)->se_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*section)->se_elements);
 
     // Destroy all restrictions
-- 
2.43.0


From 1f4c2edf0b5d8d2e9536be377f2cc83220bb493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 32/94] fix: updating a config ignored every element after its
 first section

---
 lib/update.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..642f3da 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -63,6 +63,10 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     }
     while (1);
 
+    // All elements visited
+    if (status == DISIR_STATUS_EXHAUSTED)
+        status = DISIR_STATUS_OK;
+
     if (coll)
         dc_collection_finished (&coll);
     if (context)
@@ -134,7 +138,7 @@ disir_update_config (struct disir_config *config,
     up->up_collection = dc_collection_create();
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+    if (status != DISIR_STATUS_OK)
         goto error;
 
     up->up_config_old = config;
-- 
2.43.0


From 2e263521368d4d3c1e060584eb48e548bd4f9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 33/94] fix: updating a config lost the values set in it and
 resolved conflicts by name only

---
 lib/update.c | 184 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 162 insertions(+), 22 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 642f3da..d5dc7b5 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -75,6 +75,134 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     return status;
 }
 
+//! STATIC FUNCTION
+//! Assign value to keyval, subject to the restrictions of the keyval.
+static enum disir_status
+assign_value (struct disir_context *keyval, struct disir_value *value)
+{
+    switch (value->dv_type)
+    {
+    case DISIR_VALUE_TYPE_STRING:
+        return dc_set_value_string (keyval, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_ENUM:
+        return dc_set_value_enum (keyval, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_INTEGER:
+        return dc_set_value_integer (keyval, value->dv_integer);
+    case DISIR_VALUE_TYPE_FLOAT:
+        return dc_set_value_float (keyval, value->dv_float);
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        return dc_set_value_boolean (keyval, value->dv_boolean);
+    default:
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+}
+
+//! STATIC FUNCTION
+//! Allocate the textual representation of value.
+static char *
+stringify_value (struct disir_value *value)
+{
+    int32_t size = 512;
+    char *output;
+
+    if (value->dv_size >= size)
+    {
+        size = value->dv_size + 1;
+    }
+
+    output = malloc (size);
+    if (output)
+    {
+        dx_value_stringify (value, size, output, NULL);
+    }
+
+    return output;
+}
+
+//! STATIC FUNCTION
+//! Create another entry of name, an element of type, holding its defaults.
+static enum disir_status
+create_element (struct disir_update *update, struct disir_context *parent,
+                enum disir_context_type type, const char *name, int32_t size,
+                struct disir_context **element)
+{
+    enum disir_status status;
+    struct disir_default *def = NULL;
+
+    status = dc_begin (parent, type, element);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_set_name (*element, name, size);
+    if (status == DISIR_STATUS_OK && type == DISIR_CONTEXT_KEYVAL)
+    {
+        dx_default_get_active ((*element)->cx_keyval->kv_mold_equiv, &update->up_target, &def);
+        status = assign_value (*element, &def->de_value);
+    }
+    else if (status == DISIR_STATUS_OK)
+    {
+        status = dc_generate_from_config_root (*element);
+    }
+
+    if (status == DISIR_STATUS_OK)
+        status = dc_finalize_keep_reference (*element);
+
+    if (status != DISIR_STATUS_OK)
+        dc_destroy (element);
+
+    return status;
+}
+
+//! STATIC FUNCTION
+//! Get the element at target that corresponds to element in the config being updated.
+//! Entries in excess of those generated are created, if allowed to exist at target.
+static enum disir_status
+get_target_element (struct disir_update *update, struct disir_context *element,
+                    struct disir_context **target)
+{
+    enum disir_status status;
+    struct disir_context *parent = NULL;
+    struct disir_context *sibling = NULL;
+    struct disir_collection *siblings = NULL;
+    const char *name;
+    int32_t size;
+    unsigned int index = 0;
+
+    if (element->cx_type == DISIR_CONTEXT_CONFIG)
+    {
+        *target = dc_config_getcontext (update->up_config_target);
+        return DISIR_STATUS_OK;
+    }
+
+    status = get_target_element (update, element->cx_parent_context, &parent);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_get_name (element, &name, &size);
+    if (status == DISIR_STATUS_OK)
+        status = dc_find_elements (element->cx_parent_context, name, &siblings);
+    if (status != DISIR_STATUS_OK)
+        goto out;
+
+    // The position of the element among those of the same name
+    while (dc_collection_next (siblings, &sibling) == DISIR_STATUS_OK && sibling != element)
+    {
+        dc_putcontext (&sibling);
+        index++;
+    }
+    if (sibling)
+        dc_putcontext (&sibling);
+    dc_collection_finished (&siblings);
+
+    status = dc_find_element (parent, name, index, target);
+    if (status == DISIR_STATUS_NOT_EXIST)
+        status = create_element (update, parent, element->cx_type, name, size, target);
+    // FALL-THROUGH
+out:
+    dc_putcontext (&parent);
+    return status;
+}
+
 //! PUBLIC API
 enum disir_status
 disir_update_config (struct disir_config *config,
@@ -156,10 +284,11 @@ disir_update_continue (struct disir_update *update)
 {
     enum disir_status status;
     struct disir_context *config_keyval = NULL;
+    struct disir_context *target_keyval = NULL;
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int32_t size;
+    int changed;
     int res;
 
     config_keyval = NULL;
@@ -189,19 +318,34 @@ disir_update_continue (struct disir_update *update)
         if (status != DISIR_STATUS_OK)
             break;
 
-        update->up_context_keyval = config_keyval;
         keyval = config_keyval->cx_keyval;
 
-        // Get keyval default of target version - if version is less or equal to current
-        // Do nothing
-        dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
-        res = dc_version_compare (&target_def->de_introduced,
-                                  &update->up_config_old->cf_version);
-        if (res <= 0)
+        status = get_target_element (update, config_keyval, &target_keyval);
+        if (status != DISIR_STATUS_OK)
         {
-            // Do nothing - mold default value for target is older or equal to config version
+            log_info ("keyval %s does not exist in target version: %s",
+                      keyval->kv_name.dv_string, disir_status_string (status));
             continue;
         }
+
+        // Get keyval default of target version
+        dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
+        changed = dc_version_compare (&target_def->de_introduced,
+                                      &update->up_config_old->cf_version) > 0;
+        if (!changed)
+        {
+            // mold default value for target is older or equal to config version
+            // Keep the value of config, if permitted
+            status = assign_value (target_keyval, &keyval->kv_value);
+            dc_putcontext (&target_keyval);
+            if (status == DISIR_STATUS_OK)
+                continue;
+        }
+        else
+        {
+            dc_putcontext (&target_keyval);
+        }
+
         // We might get lucky and have the current config value equal the target default value
         res = dx_value_compare (&keyval->kv_value, &target_def->de_value);
         if (res == 0)
@@ -213,11 +357,12 @@ disir_update_continue (struct disir_update *update)
 
         // Two cases:
         //  * Update config if value of default at config version equals entry in config
-        //  * Conflict if default at config version differ from entry in config
+        //  * Conflict if default at config version differ from entry in config,
+        //    or the entry in config is not permitted at target
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
                                &config_def);
         res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
-        if (res == 0)
+        if (changed && res == 0)
         {
             // Config has not changed since its last update value.
             // We can safely update the stored value in config with new default
@@ -231,14 +376,10 @@ disir_update_continue (struct disir_update *update)
             // Target default is higher version than config value. Config value differ
             // from config default. Manual resolution is in order.
             update->up_keyval = keyval;
+            update->up_context_keyval = config_keyval;
 
-            update->up_config_value = malloc (512); // XXX Handle allocation better
-            dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
-
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
-            dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+            update->up_config_value = stringify_value (&keyval->kv_value);
+            update->up_mold_value = stringify_value (&target_def->de_value);
 
             // Signal that manual resolution is required.
             return DISIR_STATUS_CONFLICT;
@@ -301,8 +442,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+    status = get_target_element (update, update->up_context_keyval, &context_keyval);
     if (status != DISIR_STATUS_OK)
         goto out;
 
@@ -384,7 +524,7 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
-    if (status != DISIR_STATUS_CONFLICT)
+    if (status != DISIR_STATUS_CONFLICT && status != DISIR_STATUS_OK)
         goto error;
 
     do
@@ -402,7 +542,7 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
-- 
2.43.0


From d3afaabebe5bff660c24b32b4b1d8c3b763a541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 34/94] fix: comparing trees only looked at the first
 restriction of an element

---
 lib/compare.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..fcabacf 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -341,15 +341,16 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || (lhs->re_value_string == NULL) != (rhs->re_value_string == NULL)
         || (lhs->re_value_string != NULL
-            && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
     {
         dx_diff_report_add (report, "Restriction values differ... (printout NYI)");
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From b18ac63defd67d030b8415a6851df50f2af26174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 35/94] fix: a collection could skip a context pushed after
 another was destroyed

---
 lib/collection.c | 48 ++++++++++--------------------------------------
 1 file changed, 10 insertions(+), 38 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..4fabe38 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -126,7 +126,6 @@ dx_collection_coalesce (struct disir_collection *collection)
 {
     struct disir_context *context;
     int32_t index;
-    int32_t probe;
     int32_t invalid_entries_count;
     int32_t iterator_moveback;
 
@@ -136,59 +135,32 @@ dx_collection_coalesce (struct disir_collection *collection)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    context = NULL;
-    index = 0;
-    probe = 1;
     invalid_entries_count = 0;
     iterator_moveback = 0;
-    while (index < collection->cc_numentries)
+    for (index = 0; index < collection->cc_numentries; index++)
     {
         context = collection->cc_collection[index];
-        index++;
 
-        if (context == NULL || context->CONTEXT_STATE_DESTROYED)
+        if (context->CONTEXT_STATE_DESTROYED)
         {
-            if (context != NULL)
-            {
-                dx_context_decref (&context);
-                invalid_entries_count += 1;
-                context = collection->cc_collection[index - 1] = NULL;
-            }
-
-            if (probe < index)
-                probe = index;
+            dx_context_decref (&context);
+            invalid_entries_count += 1;
 
-            // Find next non-valid entry in the collection, move it here.
-            while (probe < collection->cc_numentries)
+            // Every removed entry the iterator has passed moves it back.
+            if (index < collection->cc_iterator_index)
             {
-                if (collection->cc_collection[probe]->CONTEXT_STATE_DESTROYED == 0)
-                {
-                    context = collection->cc_collection[probe];
-                    collection->cc_collection[probe] = NULL;
-                    collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
-                }
-
-                probe++;
-
-                if (context != NULL)
-                    break;
+                iterator_moveback += 1;
             }
+            continue;
         }
+
+        collection->cc_collection[index - invalid_entries_count] = context;
     }
 
     collection->cc_numentries -= invalid_entries_count;
 
     // Take care of the iterator count post-iterate
     collection->cc_iterator_index -= iterator_moveback;
-    if (collection->cc_iterator_index < 0)
-        collection->cc_iterator_index = 0;
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 39d35a538eaf0fed329f4d5c329a5d572f6e2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 36/94] fix: a query index too great for an int resolved to
 another entry

---
 lib/query.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index 3db7537..d9a861f 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <stdarg.h>
@@ -27,6 +28,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     char *key_seperator;
     char *index_indicator;
     char *endptr;
+    long parsed_index;
 
     *index = 0;
     name_below = NULL;
@@ -94,7 +96,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         strcat (resolved, name_index);
 
         // Find the index
-        *index = strtol (name_index, &endptr, 10);
+        parsed_index = strtol (name_index, &endptr, 10);
         if (name_index == endptr)
         {
             dx_log_context (parent, "'%s' is an invalid index indicator.", resolved);
@@ -107,6 +109,17 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
                             resolved);
             return DISIR_STATUS_INVALID_ARGUMENT;
         }
+
+        // An index too great to be represented is past any existing entry.
+        if (parsed_index > INT_MAX)
+        {
+            parsed_index = INT_MAX;
+        }
+        else if (parsed_index < INT_MIN)
+        {
+            parsed_index = INT_MIN;
+        }
+        *index = parsed_index;
     }
 
     // Parsing went a-okay. Populate output parameters
-- 
2.43.0


From 56c75ed94d9028ed47a27e2b1c6d73b49152056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 37/94] fix: setting a value by query leaked or destroyed twice
 what it could not complete

---
 lib/disir_config_query.c |  5 ++++-
 lib/query.c              | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..739663f 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -7,6 +7,7 @@
 #include <disir/context.h>
 #include <disir/config.h>
 
+#include "config.h"
 #include "context_private.h"
 #include "query_private.h"
 #include "log.h"
@@ -178,7 +179,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     // Check if our keyval_index is out of bounds of the maximum number of instances.
     status = dx_restriction_entries_value (element_mold_equiv,
                                            DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                           NULL, &max_elements);
+                                           &immediate_parent->cx_root_context->cx_config->cf_version,
+                                           &max_elements);
     dc_putcontext (&element_mold_equiv);
     if (status != DISIR_STATUS_OK)
     {
@@ -237,6 +239,7 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     {
         log_warn ("set_name failed, even though it shouldnt have: %s",
                   disir_status_string (status));
+        dc_destroy (&context);
         return status;
     }
 
diff --git a/lib/query.c b/lib/query.c
index d9a861f..1249a83 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -6,6 +6,7 @@
 
 #include <disir/disir.h>
 
+#include "config.h"
 #include "context_private.h"
 #include "query_private.h"
 #include "restriction.h"
@@ -235,7 +236,8 @@ dx_query_ensure_ancestors (struct disir_context *config,
             int max_elements = 0;
             status = dx_restriction_entries_value (element_mold_equiv,
                                                    DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                                   NULL, &max_elements);
+                                                   &config->cx_root_context->cx_config->cf_version,
+                                                   &max_elements);
             if (status != DISIR_STATUS_OK)
             {
                 dc_putcontext (&element_mold_equiv);
@@ -287,7 +289,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
-                dc_destroy (&current_context);
+                if (ancestor_context != current_context)
+                {
+                    dc_destroy (&current_context);
+                }
                 break;
             }
 
@@ -296,7 +301,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
-                dc_destroy (&current_context);
+                if (ancestor_context != current_context)
+                {
+                    dc_destroy (&current_context);
+                }
                 break;
             }
 
@@ -344,12 +352,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
     // we need to destroy it.
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From 9e6a6eee7677ed7d209f67f4c17eb2159b6a0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 38/94] fix: copying an error message ignored the buffer's size
 when cutting it

---
 lib/error.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..1ca5303 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -75,7 +75,11 @@ disir_error_copy (struct disir_instance *instance,
         return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    size = instance->disir_error_message_size;
+    size = 0;
+    if (instance->disir_error_message != NULL)
+    {
+        size = strlen (instance->disir_error_message);
+    }
     if (bytes_written)
     {
         // Write the total size of the error message
@@ -85,11 +89,14 @@ disir_error_copy (struct disir_instance *instance,
     }
     if (buffer_size <= size)
     {
-        size -= 4;
+        size = buffer_size - 4;
         status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    memcpy (buffer, instance->disir_error_message, size);
+    if (size > 0)
+    {
+        memcpy (buffer, instance->disir_error_message, size);
+    }
     if (status == DISIR_STATUS_INSUFFICIENT_RESOURCES)
     {
         sprintf (buffer + size, "...");
-- 
2.43.0


From b2d93d5147dd3b9dbdc81bb1ff5700103bb815bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 39/94] fix: creating an instance leaked its default
 configuration

---
 lib/disir.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 6f40b26..d18ed2f 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -257,12 +257,15 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         status = disir_generate_config_from_mold (libmold, NULL, &libconf);
 
         // Remove the plugin element from default generated config
+        struct disir_context *context;
         struct disir_context *plugin;
-        status = dc_find_element (dc_config_getcontext (libconf), "plugin", 0, &plugin);
+        context = dc_config_getcontext (libconf);
+        status = dc_find_element (context, "plugin", 0, &plugin);
         if (status == DISIR_STATUS_OK)
         {
             dc_destroy (&plugin);
         }
+        dc_putcontext (&context);
     }
     // We do not need the libmold definition anymore
     if (libmold)
-- 
2.43.0


From 5aa0e75a7be51db4a54f803dca24d1e6c45b98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 40/94] fix: listing entries never finished when a later plugin
 repeated a name last

---
 lib/disir_config.c | 3 +++
 lib/disir_mold.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..c6e0c94 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -318,6 +318,9 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // Its siblings are already part of our queue.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..5b95579 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -236,6 +236,9 @@ disir_mold_entries (struct disir_instance *instance,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // Its siblings are already part of our queue.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
-- 
2.43.0


From 302ab5c4f1780703466710698bfacfb10622475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 41/94] fix: destroying an instance crashed with a plugin
 registered by the user

---
 lib/disir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index d18ed2f..98dd8f6 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -334,7 +334,9 @@ disir_instance_destroy (struct disir_instance **instance)
             plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
         }
 
-        dlclose (plugin->pi_dl_handler);
+        // Plugins registered by the user are not loaded dynamically
+        if (plugin->pi_dl_handler)
+            dlclose (plugin->pi_dl_handler);
 
         if (plugin->pi_filepath)
             free (plugin->pi_filepath);
-- 
2.43.0


From cdb1e5233ff1a69cf627dbca16c3634ab9b0b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 42/94] fix: an empty entry name was read before its beginning

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index c6e0c94..7c3070f 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 8a8df0d9eeda31b56369aca0126b830e34af868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 43/94] fix: removing a config called a missing operation of a
 plugin

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 7c3070f..07cb914 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
@@ -222,7 +222,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            log_debug (1, "Plugin '%s' does not implement config_remove", plugin->pi_io_id);
         }
     }
     else
-- 
2.43.0


From 030e9430f0c2ce78a998fc6d3cc4d01ba61c7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 44/94] fix: reading or writing a mold without a group crashed

---
 lib/disir_mold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 5b95579..5f7501c 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -32,7 +32,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s)." \
                       " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
@@ -113,7 +113,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s). instance (%p), entry_id (%p), mold (%p)",
                       instance, entry_id, mold);
-- 
2.43.0


From d53e2c26c293d17fa208d70bbe9e509fd68a72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 45/94] fix: messages of entry operations lacked an argument

---
 lib/disir_config.c | 2 +-
 lib/disir_mold.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 07cb914..06bb623 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 5f7501c..d1aa8b0 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
@@ -153,7 +153,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available.", group_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From 07ac6d9c25ff183c3c91997a9648c067a8b05eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 46/94] fix: querying for an entry only asked the last plugin
 of its group

---
 lib/disir_config.c | 21 ++++++++++++++++-----
 lib/disir_mold.c   | 17 ++++++++++++++---
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 06bb623..dc705fb 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -346,9 +346,11 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
                     const char *entry_id, struct disir_entry **entry_internal)
 {
     enum disir_status status;
+    enum disir_status current;
     struct disir_register_plugin_internal *plugin;
 
     plugin = NULL;
+    status = DISIR_STATUS_NOT_EXIST;
 
     if (instance == NULL || group_id == NULL || entry_id == NULL)
     {
@@ -377,15 +379,24 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
-        plugin = entry;
+        // QUESTION: Should this abstraction check if there is a mold available before
+        // issuing the config query? Or handle it individually in the plugins?
+        current = entry->pi_plugin.dp_config_query (instance, &entry->pi_plugin,
+                                                    entry_id, entry_internal);
+        // Report the first failure, unless another plugin provides the entry.
+        if (plugin == NULL || current == DISIR_STATUS_EXISTS || status == DISIR_STATUS_NOT_EXIST)
+        {
+            plugin = entry;
+            status = current;
+        }
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
-        // QUESTION: Should this abstraction check if there is a mold available before
-        // issuing the config query? Or handle it individually in the plugins?
-        status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
-                                                    entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index d1aa8b0..72727a3 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -264,9 +264,11 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
                   const char *entry_id, struct disir_entry **entry_internal)
 {
     enum disir_status status;
+    enum disir_status current;
     struct disir_register_plugin_internal *plugin;
 
     plugin = NULL;
+    status = DISIR_STATUS_NOT_EXIST;
 
     if (instance == NULL || group_id == NULL || entry_id == NULL)
     {
@@ -295,13 +297,22 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
-        plugin = entry;
+        current = entry->pi_plugin.dp_mold_query (instance, &entry->pi_plugin,
+                                                    entry_id, entry_internal);
+        // Report the first failure, unless another plugin provides the entry.
+        if (plugin == NULL || current == DISIR_STATUS_EXISTS || status == DISIR_STATUS_NOT_EXIST)
+        {
+            plugin = entry;
+            status = current;
+        }
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
-        status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
-                                                  entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
-- 
2.43.0


From 73d5b6459fce906419a8b5ac26df03aff37411a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 47/94] fix: registering a plugin without one of its texts
 crashed

---
 lib/disir_plugin.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 5ea240f..b6f1af5 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -33,6 +33,15 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
+    if (plugin->dp_name == NULL || plugin->dp_description == NULL ||
+        plugin->dp_config_entry_type == NULL || plugin->dp_mold_entry_type == NULL)
+    {
+        log_debug (0, "invoked with plugin missing required string(s). (%p %p %p %p)",
+                   plugin->dp_name, plugin->dp_description,
+                   plugin->dp_config_entry_type, plugin->dp_mold_entry_type);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // TODO: Check version compatibility
 
     internal = calloc (1, sizeof (struct disir_register_plugin_internal));
-- 
2.43.0


From 5e32e2d040c0e146283eb4ff1f684f015e19966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 48/94] fix: a registered plugin's base identifiers were taken
 over from the caller

---
 lib/disir.c        | 2 ++
 lib/disir_plugin.c | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/lib/disir.c b/lib/disir.c
index 98dd8f6..9e0e238 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -71,6 +71,8 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
 
     // XXX: We are not exposing the config/mold_base_id to the public API - we should do this.
     status = disir_plugin_register (instance, &plugin, io_id, group_id);
+    free (plugin.dp_config_base_id);
+    free (plugin.dp_mold_base_id);
     if (status != DISIR_STATUS_OK)
     {
         goto error;
diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index b6f1af5..dae83a9 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -64,6 +64,14 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     PLUGIN_STRING_MEMBER_COPY (dp_description);
     PLUGIN_STRING_MEMBER_COPY (dp_config_entry_type);
     PLUGIN_STRING_MEMBER_COPY (dp_mold_entry_type);
+    if (plugin->dp_config_base_id)
+    {
+        PLUGIN_STRING_MEMBER_COPY (dp_config_base_id);
+    }
+    if (plugin->dp_mold_base_id)
+    {
+        PLUGIN_STRING_MEMBER_COPY (dp_mold_base_id);
+    }
 
     log_info ("[register plugin] name: %s", internal->pi_plugin.dp_name);
     log_info ("[register plugin] description: %s", internal->pi_plugin.dp_description);
-- 
2.43.0


From 88be942d2af08dca2271f2a023ac419c9ca18904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 49/94] fix: the finish callback of a plugin was handed its
 storage as the plugin

---
 lib/disir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 9e0e238..18845d2 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -333,7 +333,7 @@ disir_instance_destroy (struct disir_instance **instance)
         // Call cleanup method specified by plugin.
         if (plugin->pi_plugin.dp_plugin_finished)
         {
-            plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
+            plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
         }
 
         // Plugins registered by the user are not loaded dynamically
-- 
2.43.0


From c9e67f3145e6aed7db9e1fc7486e94dd3554537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 50/94] fix: import: do not write beyond the message buffer on
 long messages

---
 lib/disir_import.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c1b01f..d736d39 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -36,6 +36,12 @@ import_info_set (struct disir_import_entry *entry, const char *message, ...)
     msgsize = vsnprintf (buf, 1000, message, args);
     va_end (args);
 
+    // The message is truncated if it does not fit
+    if (msgsize < 0)
+        msgsize = 0;
+    if (msgsize >= (int) sizeof (buf))
+        msgsize = sizeof (buf) - 1;
+
     entry->ie_info = (char *)malloc (sizeof (char) * msgsize + 1);
     buf[msgsize] = '\0';
 
-- 
2.43.0


From d04ca1654df2c51ace8198581b3ca4dbf289f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 51/94] fix: import: destroy an import without entries

---
 lib/disir_import.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index d736d39..4582365 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -662,16 +662,13 @@ dx_import_destroy (struct disir_import *entry)
     if (entry == NULL)
         return DISIR_STATUS_OK;
 
-    i = entry->di_num_entries - 1;
-
     if (entry->di_entries)
     {
-        do
+        for (i = 0; i < entry->di_num_entries; i++)
         {
             if (entry->di_entries[i] != NULL)
                 dx_import_entry_destroy (entry->di_entries[i]);
         }
-        while (i--);
 
         free (entry->di_entries);
     }
-- 
2.43.0


From 1ae5eb16ced4240593c91360372d2572f25914b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 52/94] fix: fslib_mkdir_p: return OK when the final directory
 is created

---
 lib/fslib/mkdir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index ad6a2bd..345a4fe 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -36,6 +36,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     char *p;
 
     errno = 0;
+    status = DISIR_STATUS_OK;
 
     // Copy a mutable string
     if (len > sizeof(_path)-1)
-- 
2.43.0


From 2500e9245a648c361f8ec884a700e207acfc802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 53/94] fix: fslib_mkdir_p: do not read beyond an empty path

---
 lib/fslib/mkdir.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index 345a4fe..2cf44ac 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -38,6 +38,11 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     errno = 0;
     status = DISIR_STATUS_OK;
 
+    if (len == 0)
+    {
+        return handle_mkdir_errno (instance, path, ENOENT);
+    }
+
     // Copy a mutable string
     if (len > sizeof(_path)-1)
     {
-- 
2.43.0


From 0e0c96794059c5a65fe6adf5d65b0113984372ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 54/94] fix: fslib_mkdir_p: report a non-directory in place of
 the final directory

---
 lib/fslib/mkdir.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index 2cf44ac..5fce12b 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -34,6 +34,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     const size_t len = strlen (path);
     char _path[PATH_MAX];
     char *p;
+    struct stat statbuf;
 
     errno = 0;
     status = DISIR_STATUS_OK;
@@ -76,6 +77,13 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     if (mkdir(_path, S_IRWXU) != 0)
     {
         status = handle_mkdir_errno (instance, _path, errno);
+
+        // The path may already exist without being a directory
+        if (status == DISIR_STATUS_OK
+            && (stat (_path, &statbuf) != 0 || !S_ISDIR (statbuf.st_mode)))
+        {
+            status = handle_mkdir_errno (instance, _path, ENOTDIR);
+        }
     }
 
     return status;
-- 
2.43.0


From 8214e14dde763c8ae783c732a9f16cf57e89281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 55/94] fix: fslib_plugin_config_remove: report a file that
 could not be removed

---
 lib/fslib/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index e73d416..7f73c95 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -220,7 +220,12 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     if (status == DISIR_STATUS_OK)
     {
         // Delete the file
-        remove (filepath);
+        if (remove (filepath) != 0)
+        {
+            status = (errno == EACCES || errno == EPERM) ? DISIR_STATUS_PERMISSION_ERROR
+                                                         : DISIR_STATUS_FS_ERROR;
+            disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
+        }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From 252e5334ec551d63be570ec462677c89d2e6528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 56/94] fix: fslib: report a file that could not be completely
 written on close

---
 lib/fslib/write.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 7f73c95..4caab9a 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -98,7 +98,11 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     }
 
     status = func_serialize (instance, config, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "writing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
@@ -182,7 +186,11 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     }
 
     status = func_serialize (instance, mold, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "writing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
-- 
2.43.0


From 7afc1bdfeb803c3d9b259813387cfccacbb273f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 57/94] fix: fslib_plugin_config_read: release the resolved
 mold on failure

---
 lib/fslib/read.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index feaae82..03c3d24 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -16,7 +16,7 @@ fslib_plugin_config_read (struct disir_instance *instance,
     enum disir_status status;
     char filepath[PATH_MAX];
     struct stat statbuf;
-    struct disir_mold *resolved_mold;
+    struct disir_mold *resolved_mold = NULL;
 
     status = fslib_config_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
@@ -45,6 +45,11 @@ fslib_plugin_config_read (struct disir_instance *instance,
                 status = DISIR_STATUS_MOLD_MISSING;
                 disir_error_set (instance, "mold is not valid. Cannot load config.");
             }
+            // An invalid mold may be populated by the plugin
+            if (resolved_mold)
+            {
+                disir_mold_finished (&resolved_mold);
+            }
             return status;
         }
     }
@@ -61,6 +66,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+        if (mold == NULL)
+        {
+            disir_mold_finished (&resolved_mold);
+        }
         return DISIR_STATUS_FS_ERROR;
     }
 
-- 
2.43.0


From 8d9dcfdf9726dd7f9f61c36efecf954b739ade65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 58/94] fix: dc_find_elements: refuse a missing name

---
 lib/context.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index f2c825a..046bcc8 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -1515,6 +1515,11 @@ dc_find_elements (struct disir_context *context,
         log_debug (0, "invoked with NULL collection pointer.");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (name == NULL)
+    {
+        log_debug (0, "invoked with NULL name pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
     status = DISIR_STATUS_OK;
     switch (dc_context_type (context))
-- 
2.43.0


From dc2f4eb5d84f4366aabb55f35b9f458afb0e1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 59/94] fix: dc_resolve_root_name: stop at the end of the
 elements of the parent

---
 lib/context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 046bcc8..1e11435 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -836,7 +836,7 @@ dc_resolve_root_name (struct disir_context *context, char **output)
             do
             {
                 status = dc_collection_next (collection, &queried);
-                if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+                if (status != DISIR_STATUS_OK)
                     break;
 
                 i += 1;
-- 
2.43.0


From c89de6154fb2a471d4a49355ca7288b15ac46857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 60/94] fix: dc_resolve_root_name: a context under construction
 may not have a name

---
 lib/context.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 1e11435..50f58df 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -816,6 +816,12 @@ dc_resolve_root_name (struct disir_context *context, char **output)
             name_size = 9;
             reverse_name_index_index[current_name_index] = 0;
         }
+        else if (name == NULL)
+        {
+            // Not named yet
+            name = "undefined";
+            name_size = 9;
+        }
 
         // Add length of name, plus additional characters for separators and index
         //  e.g., name@12.
-- 
2.43.0


From 6327174d5550e9502de755efe68514069a4254ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 61/94] fix: dc_resolve_root_name: any nesting depth

---
 lib/context.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 50f58df..64b9991 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -775,8 +775,9 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
     int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
+    const char **reverse_name_index = NULL;
+    int *reverse_name_index_index = NULL;
+    int depth = 0;
     int current_name_index = -1;
     struct disir_context *current_context = NULL;
     const char *name = NULL;
@@ -802,6 +803,21 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
+    // One name for each level
+    for (current_context = context;
+         current_context != NULL && current_context->CONTEXT_STATE_DESTROYED == 0;
+         current_context = current_context->cx_parent_context)
+    {
+        depth += 1;
+    }
+    reverse_name_index = calloc (depth, sizeof (*reverse_name_index));
+    reverse_name_index_index = calloc (depth, sizeof (*reverse_name_index_index));
+    if (reverse_name_index == NULL || reverse_name_index_index == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     current_context = context;
     while (current_context != NULL)
     {
@@ -878,7 +894,10 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     // Allocate buffer for name
     buffer = malloc (total_size);
     if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
 
     int i;
     int written = 0;
@@ -907,6 +926,8 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
+    free (reverse_name_index);
+    free (reverse_name_index_index);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 8c1e61b5b4a00bd4b45fa1ec4e04f78671b5d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:08 +0000
Subject: [PATCH 62/94] fix: keep the parents of a context allocated as long as
 the context is

---
 lib/context.c      | 7 -------
 lib/context_util.c | 8 ++++++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 64b9991..0e745de 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -234,13 +234,6 @@ dc_destroy (struct disir_context **context)
     // Set the context to destroyed
     (*context)->CONTEXT_STATE_DESTROYED = 1;
 
-    // Decref the parent ref count attained in dx_context_attach
-    // Guard against decrefing ourselves (top-level contexts)
-    if ((*context)->cx_parent_context && (*context)->cx_parent_context != *context)
-    {
-        dx_context_decref (&(*context)->cx_parent_context);
-    }
-
     // Simply decref the context - When it reaches zero, it will be dealloced
     dx_context_decref (context);
 
diff --git a/lib/context_util.c b/lib/context_util.c
index 4c8b036..5e8080d 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -229,6 +229,14 @@ dx_context_destroy  (struct disir_context **context)
 
     log_debug_context (9, *context, " (%p) reached refcount zero. Freeing.", *context);
 
+    // Decref the parent ref count attained in dx_context_attach
+    // Guard against decrefing ourselves (top-level contexts)
+    // Held until now: a destroyed context still in use refers to its parents.
+    if ((*context)->cx_parent_context && (*context)->cx_parent_context != *context)
+    {
+        dx_context_decref (&(*context)->cx_parent_context);
+    }
+
     free(*context);
     *context = NULL;
 }
-- 
2.43.0


From 464eca68c812ae7d755a5853d3ad5d28d408ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 63/94] fix: report a context whose parent is destroyed as
 destroyed

---
 lib/context_util.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/context_util.c b/lib/context_util.c
index 5e8080d..c495278 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -281,6 +281,8 @@ dx_context_transfer_logwarn (struct disir_context *destination, struct disir_con
 enum disir_status
 dx_context_sp_full_check_log_error (struct disir_context *context, const char *function_name)
 {
+    struct disir_context *ancestor;
+
     // Check argument
     if (context == NULL)
     {
@@ -295,6 +297,18 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
         return DISIR_STATUS_DESTROYED_CONTEXT;
     }
 
+    // A context under construction outlives its parent - there is nothing left to be a part of.
+    for (ancestor = context->cx_parent_context; ancestor; ancestor = ancestor->cx_parent_context)
+    {
+        if (ancestor->CONTEXT_STATE_DESTROYED)
+        {
+            dx_log_context (context, "%s() invoked on %s whose parent %s is destroyed",
+                            function_name, dc_context_type_string (context),
+                            dc_context_type_string (ancestor));
+            return DISIR_STATUS_DESTROYED_CONTEXT;
+        }
+    }
+
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
         dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
-- 
2.43.0


From cfd1ccde346a71c41ed8dac0ef7f10a4ef14521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 64/94] fix: a refused default does not remain part of the
 keyval

---
 lib/context_default.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 814a438..ab04c4d 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -109,7 +109,15 @@ dx_default_finalize (struct disir_context *default_context)
     MQ_ENQUEUE_CONDITIONAL (*queue, def,
         (dc_version_compare (&entry->de_introduced, &def->de_introduced) > 0));
 
-    return dx_validate_context (default_context);
+    status = dx_validate_context (default_context);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // Refused - the caller retains sole ownership.
+        MQ_REMOVE (*queue, def);
+        default_context->CONTEXT_STATE_IN_PARENT = 0;
+    }
+
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From 3b8ab9c735b054a9708d4c70742df8a36f698b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 65/94] fix: disir_update_finished: refuse a missing update

---
 lib/update.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/update.c b/lib/update.c
index d5dc7b5..c6e8a89 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -479,6 +479,12 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
 
     TRACE_ENTER ("");
 
+    if (update == NULL || *update == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s). update (%p)", update);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     up = *update;
 
     if (config)
-- 
2.43.0


From 173fce5e96ac7bc124b92c37889b9b524ae05902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 66/94] fix: disir_import_report_destroy: refuse a missing
 report

---
 lib/disir_import.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 4582365..127cce5 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -489,7 +489,7 @@ disir_import_report_destroy (struct import_report **report)
     int i;
     struct import_report *rep;
 
-    if (report == NULL)
+    if (report == NULL || *report == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From 657a0ed27d2899e6ae2074109761d351e8ff2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 67/94] fix: dc_query_resolve_context: refuse a missing name or
 output

---
 lib/query.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index 1249a83..cdd50ca 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -574,6 +574,12 @@ dc_query_resolve_context_va (struct disir_context *parent, const char *name,
         return status;
     }
 
+    if (name == NULL || out == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s). name (%p), out (%p)", name, out);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // Write out the entire name
     if (vsnprintf (buffer, 2048, name, args) >= 2048)
     {
-- 
2.43.0


From 2815caa3468382388d7bfdea6941b928239afc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 68/94] fix: dc_compare: refuse a destroyed context

---
 lib/compare.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/compare.c b/lib/compare.c
index fcabacf..f653502 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -801,9 +801,21 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
 
     if (lhs == NULL || rhs == NULL)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
+        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (lhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (rhs);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
 
     internal_report = dx_diff_report_create ();
     if (internal_report == NULL)
-- 
2.43.0


From ca467a8bdc23bb4dd772aec6d83b728cb0e7c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 69/94] fix: dc_fatal_error: refuse a destroyed context

---
 lib/context_util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context_util.c b/lib/context_util.c
index c495278..7417abd 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -587,9 +587,15 @@ dc_fatal_error (struct disir_context *context, const char *msg, ...)
 enum disir_status
 dc_fatal_error_va (struct disir_context *context, const char *msg, va_list args)
 {
+    enum disir_status status;
+
     if (context == NULL || msg == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
     // Cannot set fatal error on a finalized context.
     if (context->CONTEXT_STATE_FINALIZED)
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
-- 
2.43.0


From fb7ea26c90405a5880c5b2eb134c912c49dc8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 70/94] fix: dc_set_value: refuse a missing value

---
 lib/context_value.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context_value.c b/lib/context_value.c
index bb77de1..7882330 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -247,6 +247,13 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
         goto error;
     }
 
+    if (value == NULL)
+    {
+        log_debug (0, "invoked with value NULL pointer.");
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto error;
+    }
+
     switch (dc_value_type (context))
     {
     case DISIR_VALUE_TYPE_STRING:
-- 
2.43.0


From 6676c569aeedf604c6517b1d9c16d4ecfd39a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 71/94] fix: dc_get_default_contexts: refuse a missing output

---
 lib/context_default.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index ab04c4d..b39881a 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -596,6 +596,11 @@ dc_get_default_contexts (struct disir_context *context, struct disir_collection
         // Already logged
         return status;
     }
+    if (collection == NULL)
+    {
+        log_debug (0, "invoked with collection NULL pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From b0a7445925ae4e3200c242c44683cb6ee231f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 72/94] fix: dc_restriction_entries_*: refuse a missing context
 or output and a destroyed context

---
 lib/context_restriction.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 9225566..0e6dbb9 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1292,6 +1292,16 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    if (output == NULL)
+    {
+        log_debug (0, "invoked with output NULL pointer");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
         return status;
-- 
2.43.0


From f8326245ef3acc767795be2f4adc3e189ac01814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 73/94] fix: restrictions of an element without mold
 counterpart: report MOLD_MISSING

---
 lib/context_restriction.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 0e6dbb9..9ccc88d 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1316,6 +1316,11 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+            {
+                log_debug (0, "context has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             q = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
             element_introduced = &context->cx_section->se_mold_equiv->cx_section->se_introduced;
             element_deprecated = &context->cx_section->se_mold_equiv->cx_section->se_deprecated;
@@ -1333,6 +1338,11 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         struct disir_keyval *keyval_mold;
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+            {
+                log_debug (0, "context has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             q = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
             keyval_mold = context->cx_keyval->kv_mold_equiv->cx_keyval;
         }
@@ -1514,6 +1524,11 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+            {
+                log_debug (0, "context has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             rcol = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
         }
         else
@@ -1526,6 +1541,11 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+            {
+                log_debug (0, "context has no mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
             rcol = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
         }
         else
-- 
2.43.0


From 785d95c8f62a7dd3aca6d2019566b827f9c7d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 74/94] fix: dc_add_keyval_*: refuse a missing name, default or
 documentation

---
 lib/context_keyval.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 698463b..1b56907 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -157,6 +157,18 @@ add_keyval_generic (struct disir_context *parent, const char *name, const char *
 
     keyval = NULL;
 
+    if (name == NULL || doc == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s). name (%p), doc (%p)", name, doc);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+    if (string_input == NULL &&
+        (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM))
+    {
+        log_debug (0, "invoked with NULL default");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &keyval);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 8848d9e08c289509dba1703367b933b4112427c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 75/94] fix: disir_update_resolve: refuse a missing resolution

It was handed to strlen while the update was in conflict: crash.
---
 lib/update.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/update.c b/lib/update.c
index c6e8a89..1a7a63f 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -431,7 +431,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
     struct disir_context *context_keyval = NULL;
 
     TRACE_ENTER ("");
-    if (update == NULL)
+    if (update == NULL || resolve == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From bf6fe56f25979f24c3b7e81582cfbcc068d6d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 76/94] fix: dc_version_convert: refuse numbers a version
 cannot represent

---
 lib/util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 8d3ecbc..4dfc061 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -148,6 +148,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "missing period seperator after major");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "major is not representable: %ld", parsed_integer);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_major = parsed_integer;
 
     // Get minor version
@@ -159,6 +164,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "minor is not representable: %ld", parsed_integer);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_minor = parsed_integer;
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From 698278b3942d7eccba6e78d1bc5af066952797a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 77/94] fix: disir_plugin_register, load_plugin: keep texts of
 any length

---
 lib/disir.c        | 6 +++---
 lib/disir_plugin.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 18845d2..f92d1bf 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -56,9 +56,9 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     memset (&plugin, 0, sizeof (struct disir_register_plugin));
 
     if (config_base_id)
-        plugin.dp_config_base_id = strndup (config_base_id, 512);
+        plugin.dp_config_base_id = strdup (config_base_id);
     if (mold_base_id)
-        plugin.dp_mold_base_id = strndup (mold_base_id, 512);
+        plugin.dp_mold_base_id = strdup (mold_base_id);
 
     status = dio_reg (instance, &plugin);
     if (status != DISIR_STATUS_OK)
@@ -90,7 +90,7 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
     internal->pi_dl_handler = handle;
-    internal->pi_filepath = strndup (plugin_filepath, 512);
+    internal->pi_filepath = strdup (plugin_filepath);
 
     return DISIR_STATUS_OK;
 error:
diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index dae83a9..4a649bc 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -8,7 +8,7 @@
 #include "mqueue.h"
 
 #define PLUGIN_STRING_MEMBER_COPY(name) { do {              \
-    internal->pi_plugin.name = strndup (plugin->name, 512); \
+    internal->pi_plugin.name = strdup (plugin->name); \
     if (internal->pi_plugin.name == NULL)                   \
     {                                                       \
         status = DISIR_STATUS_NO_MEMORY;                    \
-- 
2.43.0


From 24817ce0c4dbdbe4a66296de770ebd8fcfb4cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 78/94] fix: load_plugin: release the base directories of a
 plugin that fails to register

---
 lib/disir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/disir.c b/lib/disir.c
index f92d1bf..d4f1872 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -65,6 +65,8 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     {
         // Regardless of the error supplied by the plugin, we return PLUGIN_ERROR
         log_error ("Plugin '%s' failed to register: %s", io_id, disir_status_string (status));
+        free (plugin.dp_config_base_id);
+        free (plugin.dp_mold_base_id);
         status = DISIR_STATUS_PLUGIN_ERROR;
         goto error;
     }
-- 
2.43.0


From 14439a68f8365d89295fa8d425ad0f535617f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 79/94] fix: disir_instance_create: unload plugins and release
 the configuration on failure

---
 lib/disir.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index d4f1872..5f6365c 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -216,6 +216,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 
     status = DISIR_STATUS_OK;
     libmold = NULL;
+    libconf = NULL;
 
     TRACE_ENTER ("config_filepath: %s, config: %p, instance: %p",
                  config_filepath, config, instance);
@@ -305,7 +306,12 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 error:
     if (dis)
     {
-        free (dis);
+        // Unload the plugins loaded so far. A user-provided config remains with the user.
+        if (libconf && libconf != config)
+        {
+            disir_config_finished (&libconf);
+        }
+        disir_instance_destroy (&dis);
     }
     if (libmold)
     {
-- 
2.43.0


From ee12fb1d813665ce455897a37ba3badb2b0109c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 80/94] fix: fslib_mold_resolve_entry_id: refuse namespace mold
 paths that exceed the filepath buffer

---
 lib/fslib/query.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 3838a12..a12bfd9 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -552,6 +552,13 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
     *sep = '\0';
 
+    if (strlen (filepath) + strlen ("/__namespace.") + strlen (plugin->dp_mold_entry_type)
+            >= PATH_MAX)
+    {
+        *filepath = '\0';
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
     strcat (filepath, "/__namespace.");
     strcat (filepath, plugin->dp_mold_entry_type);
 
-- 
2.43.0


From bcac7e2d3b1296f7415f64f0095df47942a6ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 81/94] fix: fslib_mold_query_entries: list an entry with both
 mold and override once

---
 lib/fslib/query.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index a12bfd9..689af98 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -248,8 +248,9 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                     // Strip away the override entry suffix
                     // Check if this exists - if it does, ignore this and move to the next
                     std::stringstream oestripped_stream;
-                    oestripped_stream << searchdir
-                                      << entry_name.substr(0, entry_name.size() - oid.size())
+                    oestripped_stream << searchdir << '/'
+                                      << direntry.substr(0, direntry.size() - oid.size()
+                                                            - suffix.size())
                                       << suffix;
                     std::string oestripped = oestripped_stream.str();
                     if (fslib_stat_filepath (instance, oestripped.c_str(), &statbuf)
-- 
2.43.0


From 419e2e646a7d3bfa69b0ae9726e1e2cce09a7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 82/94] fix: fslib_mold_resolve_entry_filepath: find the
 namespace mold, stay within buffers

---
 lib/fslib/query.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 689af98..e5cc1c9 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -429,7 +429,15 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     enum disir_status status;
     enum disir_status override_status;
     char *sep = NULL;
-    char suffix[128];
+    char suffix[PATH_MAX];
+
+    override_status = DISIR_STATUS_NOT_EXIST;
+
+    if (strlen (entry_path) >= PATH_MAX)
+    {
+        disir_error_set (instance, "filepath to mold entry is too long");
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
 
     strncpy (override_filepath, entry_path, PATH_MAX);
 
@@ -437,10 +445,11 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     if (sep == NULL)
         return DISIR_STATUS_FS_ERROR;
 
-    strncpy (suffix, sep, 128);
+    strncpy (suffix, sep, PATH_MAX);
 
     // first check if the requested entry is an override entry
-    if (strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
+    if ((size_t) (sep - override_filepath) >= strlen (".o")
+        && strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
     {
         strncpy (filepath, entry_path, PATH_MAX);
 
@@ -473,7 +482,16 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
         return DISIR_STATUS_FS_ERROR;
     }
 
-    strcat (filepath, "/__namespace.");
+    *sep = '\0';
+
+    if (strlen (filepath) + strlen ("/__namespace") + strlen (suffix) >= PATH_MAX)
+    {
+        disir_error_set (instance, "filepath to namespace mold entry is too long");
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
+    // The suffix includes the leading dot
+    strcat (filepath, "/__namespace");
     strcat (filepath, suffix);
 
     status = fslib_stat_filepath (instance, filepath, statbuf);
-- 
2.43.0


From 8317fb68ff9c52b525969919cb5c77f6bb471e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 83/94] fix: JSON: read integers above the int range, which
 jsoncpp holds as unsigned

---
 lib/fslib/json/jsonIO.cc                  | 29 +++++++++++++++++++++--
 lib/fslib/json/json_unserialize_config.cc |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/jsonIO.cc b/lib/fslib/json/jsonIO.cc
index 72ec113..776e6a8 100644
--- a/lib/fslib/json/jsonIO.cc
+++ b/lib/fslib/json/jsonIO.cc
@@ -41,6 +41,7 @@ std::map<const char *, enum disir_restriction_type, cmp_str> attribute_disir_res
 //! Map holding string representation of json valuetypes
 std::map<Json::ValueType, const char *> json_type_stringified  = {
     {Json::intValue    , "integer"},
+    {Json::uintValue   , "integer"},
     {Json::realValue   , "float"},
     {Json::booleanValue , "boolean"},
     {Json::stringValue , "string"},
@@ -95,6 +96,19 @@ set_value (struct disir_context *context, Json::Value& val)
             return dc_set_value_integer (context, val.asInt64());
         }
     }
+    case Json::uintValue:
+    {
+        // A positive integer that exceeds the int range is read as an unsigned value.
+        if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
+        {
+            return dc_set_value_float (context, (double)val.asDouble());
+        }
+        if (val.isInt64 () == false)
+        {
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+        return dc_set_value_integer (context, val.asInt64());
+    }
     case Json::booleanValue:
         return dc_set_value_boolean (context, val.asBool());
     case Json::realValue:
@@ -113,7 +127,6 @@ set_value (struct disir_context *context, Json::Value& val)
         }
     }
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
@@ -138,6 +151,19 @@ add_value_default (struct disir_context *context, Json::Value& value,
             return dc_add_default_integer (context, value.asInt64(), version);
         }
     }
+    case Json::uintValue:
+    {
+        // A positive integer that exceeds the int range is read as an unsigned value.
+        if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
+        {
+            return dc_add_default_float (context, (double)value.asDouble(), version);
+        }
+        if (value.isInt64 () == false)
+        {
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+        return dc_add_default_integer (context, value.asInt64(), version);
+    }
     case Json::booleanValue:
         return dc_add_default_boolean (context, (uint8_t)value.asInt64(), version);
     case Json::realValue:
@@ -146,7 +172,6 @@ add_value_default (struct disir_context *context, Json::Value& value,
         return dc_add_default_string (context, value.asString().c_str(),
                                                value.asString().size(), version);
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 6df5a56..76f548a 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -297,6 +297,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         }
         break;
     case Json::intValue:
+    case Json::uintValue:
     case Json::stringValue:
     case Json::realValue:
     case Json::booleanValue:
-- 
2.43.0


From 05ebf8dd7b86ff10c3252dd8285acf6c3765ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 84/94] fix: jsoncpp: write doubles with the digits needed to
 read the same value back

---
 3rdparty/jsoncpp/jsoncpp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 114d2b2..8d1e82d 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -4429,7 +4429,14 @@ JSONCPP_STRING valueToString(double value, bool useSpecialFloats, unsigned int p
 }
 }
 
-JSONCPP_STRING valueToString(double value) { return valueToString(value, false, 16); }
+JSONCPP_STRING valueToString(double value) {
+  JSONCPP_STRING text = valueToString(value, false, 16);
+  // 16 digits do not identify every double, 17 always do.
+  if (isfinite(value) && strtod(text.c_str(), NULL) != value) {
+    text = valueToString(value, false, 17);
+  }
+  return text;
+}
 
 JSONCPP_STRING valueToString(bool value) { return value ? "true" : "false"; }
 
-- 
2.43.0


From 2b3ba436079a461c4b07ede8e5500705b1ba2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 85/94] fix: tinytoml: write doubles such that the same value
 is read back

---
 3rdparty/tinytoml/toml.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index c1c0f28..94f2abb 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <ctime>
 #include <iomanip>
 #include <istream>
@@ -2237,7 +2238,12 @@ inline void Writer::writeType(const Value& value)
     case Value::DOUBLE_TYPE: {
         // Inline float type.
         // Can extract out in separate method if float output is specified by format.
-        output_ << std::fixed << std::showpoint << value.double_;
+        char buf[352];
+        snprintf(buf, sizeof(buf), "%f", value.double_);
+        // Six decimals do not identify every double, 17 significant digits always do.
+        if (strtod(buf, nullptr) != value.double_)
+            snprintf(buf, sizeof(buf), "%.16e", value.double_);
+        output_ << buf;
         break;
     }
     case Value::STRING_TYPE:
-- 
2.43.0


From 608e55d67ef7d8c61b7c0421e4effef79cd2a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 86/94] fix: tinytoml: write the key of an empty table

---
 3rdparty/tinytoml/toml.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 94f2abb..61d2846 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2175,9 +2175,11 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     }
 
     // Write the table key. Skip writing non-inline key for a table that only contains sub-tables
+    // An empty table has nothing but its key to show for itself.
     // Not applicable to root entry.
     if (key.empty() == false &&
-        ((writingTableInline_ == false && hasKeyvals) || writingTableInline_))
+        ((writingTableInline_ == false && (hasKeyvals || value.table_->empty())) ||
+         writingTableInline_))
     {
         if (writingTableInline_ == false)
         {
-- 
2.43.0


From f839e1ac2e24a51c5a3cb319e2bb2e1e939ecd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 87/94] fix: dio_toml_serialize_config: release the contexts
 visited, report elements that cannot be written

---
 lib/fslib/toml/toml_serialize.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 82e1238..60ac22f 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -238,7 +238,10 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
         if (current->has (name))
+        {
+            dc_putcontext (&element);
             continue;
+        }
 
         status = toml_serialize_inner (context, current, name);
         if (status != DISIR_STATUS_OK)
@@ -302,6 +305,11 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     // Mjes
     status = toml_serialize_elements (context_config, current);
+    dc_putcontext (&context_config);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
 
     boost::fdostream file(fileno(output));
     root.write (&file);
-- 
2.43.0


From e21c083ad036e34aab3e1d42a69ffd1e06848928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 88/94] fix: JSON and TOML: report a failed write of the
 serialized text

---
 lib/fslib/json/json_serialize.cc        | 4 ++--
 lib/fslib/json/json_serialize_config.cc | 6 ++++++
 lib/fslib/json/json_serialize_mold.cc   | 6 ++++++
 lib/fslib/toml/toml_serialize.cc        | 6 ++++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize.cc b/lib/fslib/json/json_serialize.cc
index 704d79c..d871a77 100644
--- a/lib/fslib/json/json_serialize.cc
+++ b/lib/fslib/json/json_serialize.cc
@@ -19,9 +19,9 @@ dio_json_serialize_config (struct disir_instance *instance,
     try
     {
         boost::fdostream file(fileno(output));
-        dio::ConfigWriter writer (NULL);
+        dio::ConfigWriter writer (instance);
 
-         return writer.serialize (config, file);
+        return writer.serialize (config, file);
     }
     catch (std::exception& e)
     {
diff --git a/lib/fslib/json/json_serialize_config.cc b/lib/fslib/json/json_serialize_config.cc
index dff6220..2d282f2 100644
--- a/lib/fslib/json/json_serialize_config.cc
+++ b/lib/fslib/json/json_serialize_config.cc
@@ -61,6 +61,12 @@ ConfigWriter::serialize (struct disir_config *config, std::ostream& stream)
     }
 
     stream << writer.writeOrdered (m_configRoot);
+    stream.flush ();
+    if (!stream)
+    {
+        disir_error_set (m_disir, "writing the config failed");
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
 end:
     dc_putcontext (&m_contextConfig);
diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 504ec8a..8097cbf 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -134,6 +134,12 @@ MoldWriter::serialize (struct disir_mold *mold, std::ostream& stream)
         goto end;
 
     stream << writer.writeOrdered (root);
+    stream.flush ();
+    if (!stream)
+    {
+        disir_error_set (m_disir, "writing the mold failed");
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
 end:
     dc_putcontext (&context_mold);
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 60ac22f..c942b4d 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -313,6 +313,12 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     boost::fdostream file(fileno(output));
     root.write (&file);
+    file.flush ();
+    if (!file)
+    {
+        disir_error_set (instance, "TOML: writing the config failed");
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     disir_log_user (instance, "TRACE EXIT serialize_config");
     return DISIR_STATUS_OK;
-- 
2.43.0


From 67cd856733d380c7aacd6b45f55ede36a6e5e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 89/94] fix: dio_toml_unserialize_config: release invalid
 elements, parser messages are no format

---
 lib/fslib/toml/toml_unserialize.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 3d62845..8a86c5c 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -133,7 +133,13 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context != NULL)
+    {
+        // The invalid element is part of its parent; give up our reference to it.
+        dc_putcontext (&context);
+    }
+    return status;
 error:
 
     dc_destroy (&context);
@@ -172,7 +178,13 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context != NULL)
+    {
+        // The invalid element is part of its parent; give up our reference to it.
+        dc_putcontext (&context);
+    }
+    return status;
 error:
 
     dc_destroy (&context);
@@ -254,7 +266,7 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-        disir_error_set (instance, pr.errorReason.c_str());
+        disir_error_set (instance, "%s", pr.errorReason.c_str());
         // XXX: Revise error code
         return DISIR_STATUS_FS_ERROR;
     }
-- 
2.43.0


From 210faf8a7024f01c5cedd37a639ad9f258a26d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 90/94] fix: dio_toml_unserialize_config: do not set a version
 that could not be parsed

---
 lib/fslib/toml/toml_unserialize.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 8a86c5c..df6bc09 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -304,12 +304,15 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                            version->as<std::string>().c_str ());
             }
-            status = dc_set_version (context_config, &config_version);
-            if (status != DISIR_STATUS_OK)
+            else
             {
-                // TODO. Determine how to handle this situvation.
-                disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
-                                          disir_status_string (status));
+                status = dc_set_version (context_config, &config_version);
+                if (status != DISIR_STATUS_OK)
+                {
+                    // TODO. Determine how to handle this situvation.
+                    disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
+                                              disir_status_string (status));
+                }
             }
         }
 
-- 
2.43.0


From ab737104d2c672002105ac070c9411e3aef062b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 91/94] fix: jsoncpp: read a stream to its end, keep the
 document the error messages refer to

---
 3rdparty/jsoncpp/jsoncpp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 8d1e82d..5b1fa6b 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -300,9 +300,12 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
 
   // Since JSONCPP_STRING is reference-counted, this at least does not
   // create an extra copy.
-  JSONCPP_STRING doc;
-  std::getline(sin, doc, (char)EOF);
-  return parse(doc.data(), doc.data() + doc.size(), root, collectComments);
+  // The document is kept, the error messages refer to it.
+  JSONCPP_STRING doc((std::istreambuf_iterator<char>(sin)),
+                     std::istreambuf_iterator<char>());
+  std::swap(doc, document_);
+  return parse(document_.data(), document_.data() + document_.size(), root,
+               collectComments);
 }
 
 bool Reader::parse(const char* beginDoc,
-- 
2.43.0


From e3caf8e5146a0548c54086e12b43403f1340443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 92/94] fix: tinytoml: start the key of an empty table on a
 line of its own

---
 3rdparty/tinytoml/toml.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 61d2846..64df162 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2151,7 +2151,8 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     std::string pre("\n");
     std::string post("");
 
-    bool hasKeyvals = tableContainsKeyval(value);
+    // An empty table has nothing but its key to show for itself.
+    bool writesKey = tableContainsKeyval(value) || value.table_->empty();
 
     // We may write this inline if we are not root, and the FORMAT_TABLE_INLINE option is
     // set either on the global options or on the value specific formatting options.
@@ -2169,17 +2170,15 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     // If we are the first entry, (and we are not inline) we should buffer one newline above us.
     // Not applicable to root entry.
     if (key.empty() == false && writingTableInline_ == false &&
-        writingTableCurrentIndex_ != 0 && hasKeyvals)
+        writingTableCurrentIndex_ != 0 && writesKey)
     {
         output_ << separator_;
     }
 
     // Write the table key. Skip writing non-inline key for a table that only contains sub-tables
-    // An empty table has nothing but its key to show for itself.
     // Not applicable to root entry.
     if (key.empty() == false &&
-        ((writingTableInline_ == false && (hasKeyvals || value.table_->empty())) ||
-         writingTableInline_))
+        ((writingTableInline_ == false && writesKey) || writingTableInline_))
     {
         if (writingTableInline_ == false)
         {
-- 
2.43.0


From 2da96f88a673cf18e953c7187ef55dca67f84589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 93/94] fix: tinytoml: start a table on a line of its own when
 its parent's key is not written

---
 3rdparty/tinytoml/toml.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 64df162..ac24d31 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2114,6 +2114,7 @@ inline void Writer::writeTableCatagorizedLexicographical(const Value& value, con
                 if (tableContainsKeyval(v) == false)
                     indent_ += indentIncrement;
 
+                writingTableCurrentIndex_ = 0;
                 writeTableWithoutKey(v, key);
 
                 // Restore indent at entry
@@ -2129,8 +2130,6 @@ inline void Writer::writeTableCatagorizedLexicographical(const Value& value, con
 // Write the table without the key formatting trouble
 inline void Writer::writeTableWithoutKey(const Value& value, const std::string& keyPrefix)
 {
-    // Prepare state for table function
-    writingTableCurrentIndex_ = 0;
     // Only indent if we actually wrote the key last pass
     // XXX How is this for inline?
     if (tableContainsKeyval(value))
@@ -2200,6 +2199,11 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     if (writingTableInline_ && writingTableCurrentIndex_ > 0)
         output_ << separator_;
 
+    // Prepare state for table function. A table whose key is not written
+    // follows whatever has been written before it.
+    if (key.empty() || writesKey || writingTableInline_)
+        writingTableCurrentIndex_ = 0;
+
     // This will determine what formatting algorithm to use
     writeTableWithoutKey(value, key);
 
-- 
2.43.0


From 1f6565019b316874c92ef8da8fbea47f34139584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 94/94] fix: ConfigReader: release the contexts when the config
 is no object or a section cannot be read

---
 lib/fslib/json/json_unserialize_config.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 76f548a..4cd2fd5 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -67,6 +67,13 @@ ConfigReader::construct_config (Json::Value& root, struct disir_config **config)
 
     *config = NULL;
 
+    if (root.isObject () == false)
+    {
+        disir_error_set (m_disir, "Parse error: config root should be object, got %s",
+                                  json_valuetype_stringify (root.type()));
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     status = dc_config_begin (m_mold, &context_config);
     if (status != DISIR_STATUS_OK)
     {
@@ -269,7 +276,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
             // logged
-            return status;
+            goto error;
         }
 
         status = dc_finalize (&child_context);
-- 
2.43.0

