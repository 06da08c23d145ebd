From 3a9a97f53c6c606dbffaa592862de99c2e8e0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 01/30] fix: describe every error code in argus_strerror

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..7aa44c7 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -16,6 +16,8 @@ const char *argus_strerror(argus_error_type_t error)
             return "Success";
         case ARGUS_SHOULD_EXIT:
             return "Should exit";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid option structure";
         case ARGUS_ERROR_DUPLICATE_OPTION:
             return "Duplicate option";
         case ARGUS_ERROR_INVALID_HANDLER:
@@ -46,8 +48,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Invalid choice";
         case ARGUS_ERROR_INVALID_RANGE:
             return "Invalid range";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
         case ARGUS_ERROR_NO_COMMAND:
             return "No command";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Memory allocation failure";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported operation";
         case ARGUS_ERROR_INVALID_VALUE:
             return "Invalid value";
         case ARGUS_ERROR_MALFORMED_OPTION:
-- 
2.43.0


From d62c495a7010694ed5267d3af5e4483dec05585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 02/30] fix: treat the outcome of every parsing phase the same
 way in argus_parse

---
 source/api/argus_parse.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..f3f74ac 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -37,13 +37,19 @@ int argus_parse(argus_t *argus, int argc, char **argv)
         return (status);
     }
 
-    status = load_env_vars(argus);
+    status            = load_env_vars(argus);
+    argus->error_code = status;
+    if (status == ARGUS_SHOULD_EXIT) {
+        argus_free(argus);
+        exit(ARGUS_SUCCESS);
+    }
     if (status != ARGUS_SUCCESS) {
         argus_free(argus);
         return (status);
     }
 
-    status = post_parse_validation(argus);
+    status            = post_parse_validation(argus);
+    argus->error_code = status;
     if (status != ARGUS_SUCCESS)
         argus_free(argus);
     return (status);
-- 
2.43.0


From 9ddb8c21615ef68b290968a6adc25e2db70e4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 03/30] fix: forget the element counts of a released value

---
 source/utils/value_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..07371ff 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -23,8 +23,10 @@ void free_option_value(argus_option_t *option)
         option->free_handler(option);
     else
         free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    option->is_allocated   = false;
+    option->value.as_ptr   = NULL;
+    option->value_count    = 0;
+    option->value_capacity = 0;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From 60a9ae8801f3e7080f5a4375e03cb5debd802bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 04/30] fix: let the environment replace default values as
 documented

---
 source/core/parsing/load_env_vars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..3345864 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -73,7 +73,9 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        // A default value alone (nothing parsed yet) does not take precedence over the environment
+        bool is_default = option->have_default && option->value_count == 0;
+        if (option->is_set && !is_default && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
-- 
2.43.0


From 6d83cba225f7659fd6ec510c87731f69462c039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 05/30] fix: refuse subcommands nested deeper than the
 subcommand stack

---
 source/core/parsing/option_handle_subcommand.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..8bd9497 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,18 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW, "Too many nested subcommands: '%s'",
+                            option->name);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
+
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From 011a0ef7d7eab78dad22e650358f54e265faa5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 06/30] fix: refuse elements when a collection cannot grow

---
 includes/argus/internal/utils.h               |  4 ++--
 .../callbacks/handlers/array_float_handler.c  | 22 ++++++++++++++-----
 source/callbacks/handlers/array_int_handler.c |  9 ++++----
 .../callbacks/handlers/array_string_handler.c |  3 +--
 source/callbacks/handlers/map_bool_handler.c  |  5 ++++-
 source/callbacks/handlers/map_float_handler.c |  5 ++++-
 source/callbacks/handlers/map_int_handler.c   |  5 ++++-
 .../callbacks/handlers/map_string_handler.c   |  7 ++++--
 .../handlers/variadic_float_handler.c         |  3 +--
 .../callbacks/handlers/variadic_int_handler.c |  3 +--
 .../handlers/variadic_string_handler.c        |  3 +--
 source/utils/multi_values.c                   | 17 +++++++++-----
 12 files changed, 55 insertions(+), 31 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index c84d768..4cab60c 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -62,8 +62,8 @@ int    putnchar(char c, size_t n);
  * Multi_value utility functions
  */
 #define MULTI_VALUE_INITIAL_CAPACITY 8
-void adjust_array_size(argus_option_t *option);
-void adjust_map_size(argus_option_t *option);
+int  adjust_array_size(argus_option_t *option);
+int  adjust_map_size(argus_option_t *option);
 int  map_find_key(argus_option_t *option, const char *key);
 void apply_array_flags(argus_option_t *option);
 void apply_map_flags(argus_option_t *option);
diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..6cc02e0 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,11 +15,13 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
+        return ARGUS_ERROR_MEMORY;
     option->value.as_array[option->value_count].as_float = strtof(value, NULL);
     option->value_count++;
+    return ARGUS_SUCCESS;
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
@@ -32,11 +34,19 @@ int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..c8d5cbd 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -85,13 +85,15 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int i = range->start; i <= range->end; i++) {
-        adjust_array_size(option);
+        if (adjust_array_size(option) != ARGUS_SUCCESS)
+            return ARGUS_ERROR_MEMORY;
         option->value.as_array[option->value_count].as_int = i;
         option->value_count++;
     }
+    return ARGUS_SUCCESS;
 }
 
 /**
@@ -106,8 +108,7 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
-    return (ARGUS_SUCCESS);
+    return add_range_values(option, &range);
 }
 
 /**
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..b5378a7 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..32d4a88 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -96,7 +96,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..7e5f53d 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -59,7 +59,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..cffd3c6 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -60,7 +60,10 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..0c4c21f 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -55,8 +55,11 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_string = value;
     } else {
         // Key doesn't exist, add new entry
-
-        adjust_map_size(option);
+        if (adjust_map_size(option) != ARGUS_SUCCESS) {
+            free(key);
+            free(value);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..4ab8d4c 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -18,8 +18,7 @@
 
 static int set_float_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char  *endptr;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..ae12a49 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -19,8 +19,7 @@
 
 static int set_int_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char     *endptr;
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..e59401d 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_string_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (adjust_array_size(option) != ARGUS_SUCCESS)
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..79000da 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -7,6 +7,7 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include "argus/errors.h"
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 #include <math.h>
@@ -444,46 +445,50 @@ void apply_map_flags(argus_option_t *option)
     }
 }
 
-void adjust_array_size(argus_option_t *option)
+int adjust_array_size(argus_option_t *option)
 {
     if (option->value.as_array == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_array = malloc(option->value_capacity * sizeof(argus_value_t));
         if (option->value.as_array == NULL) {
             option->value_capacity = 0;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_array, option->value_capacity * sizeof(argus_value_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
         option->value.as_array = new;
     }
+    return ARGUS_SUCCESS;
 }
 
-void adjust_map_size(argus_option_t *option)
+int adjust_map_size(argus_option_t *option)
 {
     if (option->value.as_map == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_map   = malloc(option->value_capacity * sizeof(argus_pair_t));
         if (option->value.as_map == NULL) {
             option->value_capacity = 0;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
         void *new = realloc(option->value.as_map, option->value_capacity * sizeof(argus_pair_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return ARGUS_ERROR_MEMORY;
         }
         option->value.as_map = new;
     }
+    return ARGUS_SUCCESS;
 }
 
 int map_find_key(argus_option_t *option, const char *key)
-- 
2.43.0


From 38cb03dc519e63b9e3c57d8a3502e2dbb3e81407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 07/30] fix: release the key of a map pair that adds no entry

---
 source/callbacks/handlers/map_bool_handler.c   | 6 ++++--
 source/callbacks/handlers/map_float_handler.c  | 6 ++++--
 source/callbacks/handlers/map_int_handler.c    | 6 ++++--
 source/callbacks/handlers/map_string_handler.c | 9 +++++----
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 32d4a88..95257f3 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -72,8 +72,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -94,6 +95,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 7e5f53d..bd66940 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -34,8 +34,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_float = float_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index cffd3c6..81beaf3 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -35,8 +35,8 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = separator + 1;
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -58,6 +59,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Key exists, update value
     if (key_index >= 0) {
         option->value.as_map[key_index].value.as_int64 = int_value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index 0c4c21f..64e8cdd 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -34,15 +34,15 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     // Split the string at the separator
     char *key = safe_strndup(pair, separator - pair);
     if (key == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for key '%s'",
-                            key);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
     char *value = safe_strdup(separator + 1);
     if (value == NULL) {
         free(key);
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for value '%s'",
-                            value);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for pair '%s'",
+                            pair);
         return ARGUS_ERROR_MEMORY;
     }
 
@@ -53,6 +53,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         // Key exists, update value
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
+        free(key);
     } else {
         // Key doesn't exist, add new entry
         if (adjust_map_size(option) != ARGUS_SUCCESS) {
-- 
2.43.0


From 4e4dca1107c8071a13822b9621616d5ad1c8cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 08/30] fix: count no element in a collection that received
 none

---
 source/core/parsing/execute_callbacks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..48d5c60 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From c6c45a4e113728e57cdb4e0e9bdaee392b72a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 09/30] fix: keep a collection the environment failed to extend

---
 source/core/parsing/load_env_vars.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 3345864..dcdab3d 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -89,10 +89,9 @@ static int load_env(argus_t *argus, argus_option_t *options)
         bool          was_set   = option->is_set;
         argus_value_t old_value = option->value;
 
-        //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
         if (status != ARGUS_SUCCESS) {
-            if (was_set) {
+            if (was_set && !option->is_allocated) {
                 option->is_set = was_set;
                 option->value  = old_value;
             }
-- 
2.43.0


From 091f42c70696f09e087332b505d785166ab5f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 10/30] fix: end the expansion of a range that reaches the
 largest integer

---
 source/callbacks/handlers/array_int_handler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index c8d5cbd..cbcd326 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,7 @@
  */
 
 #include <ctype.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -87,10 +88,10 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (int64_t i = range->start; i <= range->end; i++) {
         if (adjust_array_size(option) != ARGUS_SUCCESS)
             return ARGUS_ERROR_MEMORY;
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
     }
     return ARGUS_SUCCESS;
-- 
2.43.0


From 237a8760771bb1d571abda885471346ec8e88bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 11/30] fix: remove duplicate map values without a block that
 may be missing

---
 source/utils/multi_values.c | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 79000da..0edbd8e 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -267,24 +267,13 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
     if (count <= 1)
         return count;
 
-    // Allocate array to track duplicates
-    bool *duplicates = calloc(count, sizeof(bool));
-    if (!duplicates)
-        return count;  // Failed to allocate, return unchanged
-
     size_t unique_count = 0;
 
-    // Mark duplicates
     for (size_t i = 0; i < count; i++) {
-        if (duplicates[i])
-            continue;
-
-        for (size_t j = i + 1; j < count; j++) {
-            if (duplicates[j])
-                continue;
-
-            bool is_duplicate = false;
+        bool is_duplicate = false;
 
+        // Compare with the entries kept so far
+        for (size_t j = 0; j < unique_count && !is_duplicate; j++) {
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
@@ -313,15 +302,9 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
                 default:
                     break;
             }
-
-            if (is_duplicate)
-                duplicates[j] = true;
         }
-    }
 
-    // Rebuild the array without duplicates
-    for (size_t i = 0; i < count; i++) {
-        if (!duplicates[i]) {
+        if (!is_duplicate) {
             if (i != unique_count)
                 map[unique_count] = map[i];
             unique_count++;
@@ -336,7 +319,6 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
         }
     }
 
-    free(duplicates);
     return unique_count;
 }
 
-- 
2.43.0


From ed0cdba799f826d1176560aa662ca27fe40bdf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 12/30] fix: compare map integers by their whole value

---
 source/utils/multi_values.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0edbd8e..ce35051 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -73,9 +73,9 @@ static int compare_map_int_values(const void *a, const void *b)
     const argus_pair_t *pa = (const argus_pair_t *)a;
     const argus_pair_t *pb = (const argus_pair_t *)b;
 
-    if (pa->value.as_int < pb->value.as_int)
+    if (pa->value.as_int64 < pb->value.as_int64)
         return -1;
-    if (pa->value.as_int > pb->value.as_int)
+    if (pa->value.as_int64 > pb->value.as_int64)
         return 1;
     return 0;
 }
@@ -277,7 +277,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int == map[j].value.as_int);
+                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
                     break;
 
                 case VALUE_TYPE_STRING:
-- 
2.43.0


From dcb9ca613963af19bfeb8a3375112f04fe00d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 13/30] fix: do not list help entries in a group that could not
 be created

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..f474984 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    if (group != NULL)
+                        add_option_to_list(&group->options, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0


From 3abafd472b904113d4a85411fd96097584deb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 14/30] fix: report a missing value or memory in the regex
 validator

---
 source/callbacks/validators/regex_validator.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/callbacks/validators/regex_validator.c b/source/callbacks/validators/regex_validator.c
index 14e697c..d2e4a2f 100644
--- a/source/callbacks/validators/regex_validator.c
+++ b/source/callbacks/validators/regex_validator.c
@@ -43,6 +43,12 @@ int regex_validator(argus_t *argus, void *value_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
+    if (!value) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE, "Missing value for pattern '%s'",
+                            pattern);
+        return ARGUS_ERROR_INVALID_VALUE;
+    }
+
     int         errorcode;
     PCRE2_SIZE  erroroffset;
     pcre2_code *re = pcre2_compile((PCRE2_SPTR)pattern, PCRE2_ZERO_TERMINATED, 0, &errorcode,
@@ -57,6 +63,12 @@ int regex_validator(argus_t *argus, void *value_ptr, validator_data_t data)
     }
 
     pcre2_match_data *match_data = pcre2_match_data_create_from_pattern(re, NULL);
+    if (match_data == NULL) {
+        pcre2_code_free(re);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for regex '%s'",
+                            pattern);
+        return ARGUS_ERROR_MEMORY;
+    }
     int rc = pcre2_match(re, (PCRE2_SPTR)value, PCRE2_ZERO_TERMINATED, 0, 0, match_data, NULL);
 
     pcre2_match_data_free(match_data);
-- 
2.43.0


From bcffd8ae1c612113dd9b39c52e050aa776629d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 15/30] fix: compare whole integers and refuse a missing value
 in the choice validators

---
 source/callbacks/validators/choices_validator.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..abb89ce 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -24,6 +24,11 @@ int choices_string_validator(argus_t *argus, void *option_ptr, validator_data_t
     argus_option_t *option  = (argus_option_t *)option_ptr;
     choices_data_t *choices = &data.choices;
 
+    if (option->value.as_string == NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE, "Value is NULL");
+        return ARGUS_ERROR_INVALID_VALUE;
+    }
+
     for (size_t i = 0; i < choices->count; i++) {
         if (strcmp(option->value.as_string, choices->as_strings[i]) == 0)
             return ARGUS_SUCCESS;
@@ -46,18 +51,19 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
     choices_data_t *choices = &data.choices;
 
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (option->value.as_int64 == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%" PRId64 "' is not one of [%s]",
+                            option->value.as_int64, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices",
+                            option->value.as_int64);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
-- 
2.43.0


From ba1c4cbd851ae4af40b2723633da07ddae1ee4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 16/30] fix: hand a double dash after the first one to the next
 positional

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..bce74c8 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -51,7 +51,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
-- 
2.43.0


From 25fd302ea6e28facff587ce6d38e84af264a7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 17/30] fix: compare whole subcommand names in an option path

---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..5816536 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strncmp(component, command, component_lenght) != 0 ||
+            command[component_lenght] != '\0')
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From 145f7edb51218f9f1fa79b5cca862dd587a35f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 18/30] fix: prefer a subcommand's exact name over longer names
 it begins

---
 source/core/parsing/parse_args.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index bce74c8..1897374 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -19,25 +19,28 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                     argus_option_t **result)
 {
     argus_option_t *subcommand = NULL;
+    argus_option_t *other      = NULL;
 
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
-            if (subcommand != NULL) {
-                ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND,
-                                    "'%s' is ambigous and could match:\n"
-                                    "  '%s' - %s\n"
-                                    "  '%s' - %s",
-                                    name, subcommand->name, subcommand->help, options[i].name,
-                                    options[i].help);
-                return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
-            }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
+            if (strcmp(name, options[i].name) == 0) {
                 *result = &options[i];
                 return ARGUS_SUCCESS;
             }
-            subcommand = &options[i];
+            if (subcommand == NULL)
+                subcommand = &options[i];
+            else if (other == NULL)
+                other = &options[i];
         }
     }
+    if (other != NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND,
+                            "'%s' is ambigous and could match:\n"
+                            "  '%s' - %s\n"
+                            "  '%s' - %s",
+                            name, subcommand->name, subcommand->help, other->name, other->help);
+        return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
+    }
     *result = subcommand;
     return ARGUS_SUCCESS;
 }
-- 
2.43.0


From 53d396900bf336964c3e5a922c6b1fd8c980ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 19/30] fix: look up long options by their whole name

---
 source/core/parsing/option_handle_long.c | 28 ++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..d2c29ee 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -16,20 +16,26 @@
 #include "argus/internal/utils.h"
 #include "argus/types.h"
 
+static argus_option_t *find_long_option(argus_option_t *options, const char *name, size_t length)
+{
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        const char *lname = options[i].lname;
+        if (options[i].type == TYPE_OPTION && lname && strncmp(lname, name, length) == 0 &&
+            lname[length] == '\0')
+            return (&options[i]);
+    }
+    return (NULL);
+}
+
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
-
-    argus_option_t *option = find_option_by_lname(options, option_name);
+    char           *equal_pos   = strchr(arg, '=');
+    size_t          name_length = equal_pos != NULL ? (size_t)(equal_pos - arg) : strlen(arg);
+    argus_option_t *option      = find_long_option(options, arg, name_length);
     if (option == NULL) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
-                            option_name);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%.*s'",
+                            (int)name_length, arg);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
 
@@ -42,7 +48,7 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
             value = argv[*current_index];
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
-                                "Missing value for option: '--%s'", option_name);
+                                "Missing value for option: '--%s'", option->lname);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
-- 
2.43.0


From 6ad5cf1a9db2a0cc371805cbf43491b4e2dfe947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 20/30] fix: hand a lone dash to the next positional instead of
 dropping it

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 1897374..ecd3ef6 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -75,7 +75,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
         }
 
         char *short_arg = starts_with("-", arg);
-        if (short_arg != NULL) {
+        if (short_arg != NULL && short_arg[0] != '\0') {
             // Checking if this is a negative number or an option
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
-- 
2.43.0


From d2df0fbe074c60c468a82b1e27cd67893f536882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 21/30] fix: show long environment variable names in full in
 the help

---
 source/display/help/help_formatter.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..47f4bad 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -354,17 +354,15 @@ static char *append_env_info(char *description, argus_t *argus, const argus_opti
     if (!env_name)
         return description;
 
-    char   env_buf[256] = {0};
-    size_t desc_len     = strlen(description);
+    size_t desc_len = strlen(description);
+    bool   merge    = desc_len > 0 && description[desc_len - 1] == ')';
 
-    if (desc_len > 0 && description[desc_len - 1] == ')') {
-        snprintf(env_buf, sizeof(env_buf), ", env: %s)", env_name);
-        if (desc_len > 0)
-            description[desc_len - 1] = '\0';
-    } else
-        snprintf(env_buf, sizeof(env_buf), " (env: %s)", env_name);
+    if (merge)
+        description[desc_len - 1] = '\0';
 
-    return append_to_description(description, env_buf);
+    description = append_to_description(description, merge ? ", env: " : " (env: ");
+    description = append_to_description(description, env_name);
+    return append_to_description(description, ")");
 }
 
 // Helper function to append flag information
-- 
2.43.0


From 49e7c51aa1ec55e420c01232aadeb715f414fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 22/30] fix: show every attribute of an option in the help

---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 47f4bad..e3b79da 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -371,7 +371,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From afdc4cb948b713106e4208b5cd7d32cc3f7c5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 23/30] fix: restore each redirected stream on its own
 descriptor

---
 source/utils/stream.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/utils/stream.c b/source/utils/stream.c
index cc22e04..c2ab2ea 100644
--- a/source/utils/stream.c
+++ b/source/utils/stream.c
@@ -189,9 +189,7 @@ void stream_cleanup_all(void)
 {
     for (int i = 0; i < MAX_STREAMS; i++) {
         stream_info_t *info = &streams[i];
-        if (info->is_active) {
-            int fd = (i == 0) ? STDOUT_FILENO : STDERR_FILENO;
-            stream_restore(fd);
-        }
+        if (info->is_active)
+            stream_restore(i);
     }
 }
-- 
2.43.0


From 39fb9f0ed82b99da1fe49c3dab7ce57508fd8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 24/30] fix: accept on a variadic positional the flags its own
 mask allows

---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..4ec9698 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -143,9 +143,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From c312e05b42c7861ccf448c36a1f22ed0da8c834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 25/30] fix: report exhausted memory while printing help on
 standard error

---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index e3b79da..3f06b39 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -421,7 +421,7 @@ void print_option_description(argus_t *argus, const argus_option_t *option, size
 
     char *description = build_option_description(argus, option);
     if (!description) {
-        printf("Error: Memory allocation failed\n");
+        fprintf(stderr, "Error: Memory allocation failed\n");
         return;
     }
 
-- 
2.43.0


From 4cc63594ed6deccbfa94911e6638fe53721d0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:02 +0000
Subject: [PATCH 26/30] fix: end the help of options when no room is left
 beside their description column

---
 source/display/help/help_formatter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3f06b39..5465f0e 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -10,6 +10,7 @@
 #define _GNU_SOURCE  // NOLINT
 
 #include <stdbool.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -171,9 +172,12 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
     size_t current_pos = 0;
     size_t last_space  = 0;
 
+    // Room beside the "- " prefix; without any, only the line breaks of the text count
+    size_t width = line_width > indent + 2 ? line_width - indent - 2 : SIZE_MAX;
+
     while (current_pos < text_len) {
         while (current_pos < text_len &&
-               current_pos - line_start < line_width - indent - 2 &&  // Consider "- " prefix
+               current_pos - line_start < width &&
                text[current_pos] != '\n') {
             if (text[current_pos] == ' ')
                 last_space = current_pos;
@@ -187,7 +191,7 @@ void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 
             if (current_pos < text_len)
                 putnchar(' ', indent + 2);
-        } else if (current_pos - line_start >= line_width - indent - 2) {
+        } else if (current_pos - line_start >= width) {
             if (last_space > line_start) {
                 printf("%.*s\n", (int)(last_space - line_start), text + line_start);
                 line_start = last_space + 1;
-- 
2.43.0


From 2ce288cf7e1a0ddd8aeb82c5cecd2fe34041f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 27/30] fix: do not check tables below the deepest subcommand
 level

---
 source/core/validation/validate_structure.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..cc01891 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -206,8 +206,7 @@ int validate_structure(argus_t *argus, argus_option_t *options)
                 ARGUS_STRUCT_ERROR(option, "Subcommand depth exceeds maximum allowed (%d)",
                                    MAX_SUBCOMMAND_DEPTH);
                 status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
-            if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
+            } else if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             subcommand_depth--;
         }
-- 
2.43.0


From 9be940520c19ac65e9d65d4c2119a6cdf214e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 28/30] fix: report a default rejected by a silent validator
 without printing NULL

---
 source/core/validation/validate_arguments.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 4ec9698..8608e6a 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -38,7 +38,7 @@ static int validate_default_value(argus_t *argus, argus_option_t *option)
                 char *error_message = read_stderr();
                 restore_stderr();
                 ARGUS_STRUCT_ERROR(option, "Default value does not pass validations: \n\t    %s",
-                                   error_message);
+                                   error_message != NULL ? error_message : "(no message)");
                 free(error_message);
                 status = ARGUS_ERROR_INVALID_DEFAULT;
             } else
-- 
2.43.0


From 8c061760974b856630a51f80b751b4212d263296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 29/30] fix: report a positional list that cannot grow as a
 memory error

---
 source/callbacks/handlers/variadic_float_handler.c | 4 ++++
 source/callbacks/handlers/variadic_int_handler.c   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index 4ab8d4c..4a14a1b 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -35,6 +35,10 @@ static int set_float_value(argus_option_t *option, char *value)
 int variadic_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
     int status = set_float_value(option, value);
+    if (status == ARGUS_ERROR_MEMORY) {
+        ARGUS_PARSING_ERROR(argus, status, "Failed to allocate memory for value '%s'", value);
+        return status;
+    }
     if (status != ARGUS_SUCCESS) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value '%s' for positional argument '%s'", value,
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index ae12a49..a576d96 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -36,6 +36,10 @@ static int set_int_value(argus_option_t *option, char *value)
 int variadic_int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
     int status = set_int_value(option, value);
+    if (status == ARGUS_ERROR_MEMORY) {
+        ARGUS_PARSING_ERROR(argus, status, "Failed to allocate memory for value '%s'", value);
+        return status;
+    }
     if (status != ARGUS_SUCCESS) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value '%s' for positional argument '%s'", value,
-- 
2.43.0


From 74d5055c9a89cfb77f34daa06f246e0c22acb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 30/30] fix: leave hidden subcommands and positionals out of
 help

---
 source/display/help/help_organizer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index f474984..50d8c57 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -100,10 +100,16 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_POSITIONAL:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
+
                 add_option_to_list(&data->positionals, option);
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
+
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0

