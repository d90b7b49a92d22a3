From 0dc3dd09bb5c1e5d4a9014bcfe4bacb7f4532917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 01/32] fix: HTremove dereferenced NULL when the bucket of the
 key is empty

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..f29cb78 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -154,6 +154,10 @@ void *HTremove(htable_st *table, void *key)
         return value;
     }
 
+    if (!entry) {
+        return NULL;
+    }
+
     previous = entry;
     entry = entry->next;
 
-- 
2.43.0


From f881e4beac0a0d82c230164f2a895feed38b6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 02/32] fix: HTclear left the element count of the emptied
 table unchanged

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index f29cb78..6a67f99 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -210,6 +210,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From eec58f9ea7b3f88f45d1ead7a76f4c38412a4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 03/32] fix: STRsubStr used a negative length when len reaches
 before start

---
 palm/src/str.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..5843cb8 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -87,10 +87,14 @@ char *STRsubStr(const char *string, int start, int len)
         len = strlen + len; /* + - => - */
     }
 
-    if ((start + len) > strlen) { /* to long take what we can */
+    if (len > strlen - start) { /* to long take what we can */
         len = strlen - start;
     }
 
+    if (len < 0) { /* nothing left */
+        len = 0;
+    }
+
     if (start > strlen) {
         ret = STRnull();
     } else {
-- 
2.43.0


From 1c4a996b26553b5a5dcab3358467e4a730151d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 04/32] fix: STRsuffix crashed on a NULL suffix or NULL string

---
 palm/src/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 5843cb8..687d372 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -348,7 +348,9 @@ bool STRsuffix(const char *suffix, const char *str)
 {
     bool res = false;
 
-    if (STRlen(suffix) > STRlen(str)) {
+    if (suffix == NULL) {
+        res = true;
+    } else if (str == NULL || STRlen(suffix) > STRlen(str)) {
         res = false;
     } else {
         str = str + STRlen(str) - STRlen(suffix);
-- 
2.43.0


From 814cdc0d551f45fdd06718d7f6e26ae3dac864d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 05/32] fix: STRsubstToken crashed on a NULL string instead of
 yielding NULL

---
 palm/src/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 687d372..ba671ae 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -568,6 +568,10 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL) {
+        return NULL;
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
-- 
2.43.0


From c7f3f4fb784510aac0128de93e08784a73d8de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 06/32] fix: STRtok kept its copy of the string after the last
 token

---
 palm/src/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index ba671ae..8310435 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -469,6 +469,7 @@ char *STRtok(const char *first, const char *sep)
         if (current[i] == '\0') {
             ret = STRcpy(current);
             current = NULL;
+            keep_string = MEMfree(keep_string);
         } else {
             current[i] = '\0';
             ret = STRcpy(current);
-- 
2.43.0


From c288b8cb50ada2ae8709dcb3c850c24d11d1e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 07/32] fix: STRcatn yielded NULL for the concatenation of
 empty strings

---
 palm/src/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 8310435..f13d544 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -168,6 +168,7 @@ char *STRcatn(int n, ...)
 {
     int i;
     int length;
+    bool found = false;
     char *result;
     const char *ptr;
     va_list arg_list;
@@ -182,12 +183,13 @@ char *STRcatn(int n, ...)
         ptr = va_arg(arg_list, const char *);
         if (ptr != NULL) {
             length += STRlen(ptr);
+            found = true;
         }
     }
 
     va_end(arg_list);
 
-    if (length == 0) {
+    if (!found) {
         result = NULL;
     } else {
         result = (char *)MEMmalloc(length + 1);
-- 
2.43.0


From 4ba5c00287a1eafef7f28f29e49b7073cf94db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 08/32] fix: '@' characters in diagnostics were printed as line
 breaks

---
 palm/src/ctinfo.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..591782d 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -28,19 +28,20 @@ static int warnings = 0;
 
 /** <!--********************************************************************-->
  *
- * @fn void ProcessMessage( char *buffer, int line_length)
+ * @fn void ProcessMessage( char *buffer, int line_length, char line_break)
  *
  *   @brief  formats message according to line length
  *
- *           '@' characters are inserted into the buffer to represent line
- *           breaks.
+ *           line_break characters are inserted into the buffer to represent
+ *           line breaks.
  *
  *   @param buffer  message buffer
  *   @param line_length maximum line length
+ *   @param line_break character that represents a line break
  *
  ******************************************************************************/
 
-static void ProcessMessage(char *buffer, int line_length)
+static void ProcessMessage(char *buffer, int line_length, char line_break)
 {
     int index, column, last_space;
     index = 0;
@@ -57,12 +58,12 @@ static void ProcessMessage(char *buffer, int line_length)
         }
 
         if (buffer[index] == '\n') {
-            buffer[index] = '@';
+            buffer[index] = line_break;
             column = 0;
         } else {
             if (column == line_length) {
                 if (buffer[last_space] == ' ') {
-                    buffer[last_space] = '@';
+                    buffer[last_space] = line_break;
                     column = index - last_space;
                 } else {
                     break;
@@ -150,7 +151,7 @@ char *CTIgetErrorMessageVA(int line, const char *format, va_list arg_p)
 
     Format2Buffer(format, arg_p);
     ProcessMessage(message_buffer,
-        message_line_length - strlen(error_message_header));
+        message_line_length - strlen(error_message_header), '@');
 
     first_line = STRfmt("line %d @", line);
     res = STRcat(first_line, message_buffer);
@@ -246,14 +247,14 @@ static void PrintMessage(char *header, const char *format, va_list arg_p, bool n
 
     Format2Buffer(format, arg_p);
 
-    ProcessMessage(message_buffer, message_line_length - strlen(header));
+    ProcessMessage(message_buffer, message_line_length - strlen(header), '\n');
 
-    line = strtok(message_buffer, "@");
+    line = strtok(message_buffer, "\n");
 
     while (line != NULL) {
         fprintf(stderr, "%s%s\n", header, line);
         header = "";
-        line = strtok(NULL, "@");
+        line = strtok(NULL, "\n");
     }
 
     PrintInfo(info);
-- 
2.43.0


From e8b4eb0e5496267e1f217f4139954c546a7c0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 09/32] fix: nested phases reset the rounds and notifications
 of the enclosing cycle

---
 copra/src/phase_driver.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..7f6bacc 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -190,6 +190,10 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // Rounds and notifications of an enclosing cycle are kept.
+    size_t prev_cycle_iter = phase_driver.cycle_iter;
+    bool fixed_point = phase_driver.fixed_point;
+    phase_driver.cycle_iter = 0;
 
     do {
         // If we cycle around, reset the action id.
@@ -204,6 +208,7 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_id = phase->action_table[action_counter];
         }
         phase_driver.cycle_iter++;
+        fixed_point = fixed_point && phase_driver.fixed_point;
     } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
 
     if (phase_driver.phase_error) {
@@ -213,7 +218,8 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
+    phase_driver.cycle_iter = prev_cycle_iter;
+    phase_driver.fixed_point = fixed_point;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 7e34ae4982cc7232a4b418c07456e424de515271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:38 +0000
Subject: [PATCH 10/32] fix: unwrapping a set reference evaluates only that
 node set, not the ones after it

---
 cocogen/frontend/unwrap_setexpr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..8862e99 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -10,6 +10,7 @@
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccn/dynamic_core.h"
+#include "ccngen/trav.h"
 #include "sets/set.h"
 #include "frontend/symboltable.h"
 
@@ -61,7 +62,7 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        TRAVexpr(nodeset);
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0


From 25b4d56f0467281d0c9e0455765604d2f7a82594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:22 +0000
Subject: [PATCH 11/32] fix: 'allowed' lifetimes of children and attributes
 generate a call that exists

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..67e8d58 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From 1c702e34a7a2fa3059760afb45740c0dc945897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:22 +0000
Subject: [PATCH 12/32] fix: resolve and check every lifetime of a list, not
 only the first

---
 cocogen/dynamic_backend/gen_check_traversal.c    | 1 +
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 67e8d58..e9a5fab 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -686,6 +686,7 @@ node_st *DGCHTilifetime(node_st *node)
     } else if (data->lifetime_target == LT_ATTRIBUTE) {
         LifetimeAttributeGen(node);
     }
+    TRAVnext(node);
 
     return node;
 }
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From f66346466342f4e89f5e425492e195ea8af16ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:23 +0000
Subject: [PATCH 13/32] fix: a phase as lifetime target covers nested phases;
 first encounter decides the action id

---
 .../frontend/lifetimes/assign_id_to_actions.c |  6 ++++-
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 25 +++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/cocogen/frontend/lifetimes/assign_id_to_actions.c b/cocogen/frontend/lifetimes/assign_id_to_actions.c
index 3c7814f..5ba233a 100644
--- a/cocogen/frontend/lifetimes/assign_id_to_actions.c
+++ b/cocogen/frontend/lifetimes/assign_id_to_actions.c
@@ -26,7 +26,11 @@ node_st *AITAast(node_st *node)
 
 node_st *AITAiactions(node_st *node)
 {
-    IACTIONS_ACTION_ID(node) = curr_action_id++;
+    // A phase that is used more than once keeps the ids of its first encounter.
+    if (IACTIONS_ACTION_ID(node) == 0) {
+        IACTIONS_ACTION_ID(node) = curr_action_id;
+    }
+    curr_action_id++;
     node_st *action = STlookup(ste, IACTIONS_REFERENCE(node));
     if (NODE_TYPE(action) == NT_IPHASE) {
         TRAViactions(action);
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..7fb060f 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -7,6 +7,7 @@
 
 #include <palm/ctinfo.h>
 #include <palm/str.h>
+#include <stdint.h>
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
@@ -35,6 +36,21 @@ static bool CompareID(node_st *id, node_st *other_id)
     return STReq(ID_LWR(id), ID_LWR(other_id));
 }
 
+/**
+ * Count the actions in a list, including everything nested in its phases.
+ */
+static uint64_t CountActions(node_st *actions)
+{
+    uint64_t count = 0;
+    for (; actions != NULL; actions = IACTIONS_NEXT(actions)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(actions));
+        count++;
+        if (action != NULL && NODE_TYPE(action) == NT_IPHASE) {
+            count += CountActions(IPHASE_IACTIONS(action));
+        }
+    }
+    return count;
+}
 
 node_st *MITLast(node_st *node)
 {
@@ -117,13 +133,8 @@ node_st *MITLlifetime_range(node_st *node)
     } else {
         LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
         if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
+            LIFETIME_RANGE_NEXT_ACTION_ID(node) =
+                IACTIONS_ACTION_ID(last_action) + 1 + CountActions(IPHASE_IACTIONS(last_node));
         } else {
             LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
         }
-- 
2.43.0


From 5c6b7c8826bc5127cb263dea2c4a1f68bfd9fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 14/32] fix: declare a pass under the function name it is
 generated with (func = name)

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..8ec5ba7 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -6,6 +6,7 @@
 #include "ccngen/trav.h"
 #include "globals.h"
 #include "dynamic_backend/gen_helpers.h"
+#include "palm/memory.h"
 #include "../gen_helpers.h"
 
 char *current_trav_prefix = NULL;
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From ec38b36ff99fa782cbca0a2f983a9dce7e43f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 15/32] fix: print the name, not the node, in the duplicate
 pass function diagnostic

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From 1be74647d89d9ce7848f48a0c6dd4aa1b42b35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 16/32] fix: give the generated action array the entry of
 CCNAC_ID_check, so free and cleanup are found under their ids

---
 cocogen/phase_driver/gen_action_array.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index 08cefe2..1708ec6 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -25,6 +25,9 @@ node_st *GAAast(node_st *node)
 
     TRAVchildren(node);
 
+    OUT("{CCN_ACTION_TRAVERSAL, %s_check, \"Check\", .traversal = "
+        "{TRAV_check,},},\n", enum_action_pref);
+
     OUT("{CCN_ACTION_TRAVERSAL, %s_free, \"Free\", .traversal = "
         "{TRAV_free,},},\n", enum_action_pref);
 
-- 
2.43.0


From 3a9b02b2a00cd349e10b442a96a3e48565f041d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 17/32] fix: dotted lifetime targets inside a phase that is
 used more than once resolve along the named path

---
 .../frontend/lifetimes/map_id_to_lifetimes.c    | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 7fb060f..5e6d929 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -16,6 +16,10 @@
 
 static node_st *last_action = NULL;
 static node_st *last_node = NULL;
+// Action ids of the next action in the search and of last_action. A phase can
+// be used more than once, so these depend on the path that leads to the action.
+static uint64_t next_id = 0;
+static uint64_t last_id = 0;
 static node_st *curr_target = NULL;
 static node_st *ast = NULL;
 static node_st *ste = NULL;
@@ -76,6 +80,7 @@ node_st *MITLinode(node_st *node)
 
 node_st *MITLiactions(node_st *node)
 {
+    uint64_t action_id = next_id++;
     node_st *action_lookup = STlookup(ste, IACTIONS_REFERENCE(node));
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
@@ -84,6 +89,7 @@ node_st *MITLiactions(node_st *node)
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
             last_node = action_lookup;
+            last_id = action_id;
             return node;
         }
         TRAViactions(action_lookup);
@@ -91,12 +97,14 @@ node_st *MITLiactions(node_st *node)
         if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
             last_node = action_lookup;
+            last_id = action_id;
             return node;
         }
     } else if (NODE_TYPE(action_lookup) == NT_ITRAVERSAL) {
         if (CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)) {
             last_node = action_lookup;
             last_action = node;
+            last_id = action_id;
             return node;
         }
     }
@@ -131,12 +139,12 @@ node_st *MITLlifetime_range(node_st *node)
         info.last_column = 0;
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
-        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
+        LIFETIME_RANGE_ACTION_ID(node) = last_id;
         if (NODE_TYPE(last_node) == NT_IPHASE) {
             LIFETIME_RANGE_NEXT_ACTION_ID(node) =
-                IACTIONS_ACTION_ID(last_action) + 1 + CountActions(IPHASE_IACTIONS(last_node));
+                last_id + 1 + CountActions(IPHASE_IACTIONS(last_node));
         } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
+            LIFETIME_RANGE_NEXT_ACTION_ID(node) = last_id + 1;
         }
     }
     in_lifetime = false;
@@ -151,6 +159,8 @@ node_st *MITLid(node_st *node)
     }
     curr_target = node;
     if (last_action == NULL) {
+        // The start phase has id 1.
+        next_id = 2;
         TRAViactions(AST_START_PHASE(ast));
     } else {
         node_st *action = STlookup(ste, IACTIONS_REFERENCE(last_action));
@@ -167,6 +177,7 @@ node_st *MITLid(node_st *node)
         } else {
             last_action = NULL;
             last_node = NULL;
+            next_id = last_id + 1;
             TRAViactions(action);
         }
     }
-- 
2.43.0


From 690db30a1708730f36ca789f18b9bb3bc179575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:50 +0000
Subject: [PATCH 18/32] fix: traversals over an empty node set are rejected,
 children of an empty nodeset do not crash

---
 .../frontend/attribute_scheduler/collect_visits.c |  4 +++-
 cocogen/frontend/unwrap_setexpr.c                 | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/collect_visits.c b/cocogen/frontend/attribute_scheduler/collect_visits.c
index 10af47e..ad78dde 100644
--- a/cocogen/frontend/attribute_scheduler/collect_visits.c
+++ b/cocogen/frontend/attribute_scheduler/collect_visits.c
@@ -105,7 +105,9 @@ static bool node_has_visit(node_st *node, node_st *st,
          child = CHILD_NEXT(child)) {
         node_st *child_ref = get_node_type(child, st);
         struct visits *visits = HTlookup(visits_htable, child_ref);
-        assert(visits != NULL);
+        if (visits == NULL) { // Empty nodeset
+            continue;
+        }
         if (visits->length > 0) {
             return true;
         }
diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index 8862e99..7c68dcd 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -13,12 +13,27 @@
 #include "ccngen/trav.h"
 #include "sets/set.h"
 #include "frontend/symboltable.h"
+#include "frontend/ctihelp.h"
+#include "palm/ctinfo.h"
 
 static node_st *ste;
 
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav; trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            continue; // No nodes specified, the traversal handles all nodes.
+        }
+        TRAVinodes(trav);
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            struct ctinfo info;
+            id_to_info(ITRAVERSAL_NAME(trav), &info);
+            CTIobj(CTI_ERROR, true, info, "The nodes of traversal '%s' denote an empty set.\n",
+                   ID_ORIG(ITRAVERSAL_NAME(trav)));
+        }
+    }
+    CTIabortOnError();
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 5d97f904749857c14189288719125d4607321756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:35 +0000
Subject: [PATCH 19/32] fix: an enum referenced in another case generated a
 constructor with an undeclared type

---
 cocogen/frontend/check_existance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..3672a90 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -6,6 +6,7 @@
 #include <stddef.h>
 #include "globals.h"
 #include "palm/ctinfo.h"
+#include "palm/memory.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
@@ -264,6 +265,9 @@ node_st *CEXattribute(node_st *node)
                 ATTRIBUTE_TYPE(node) = AT_link;
             } else if (NODE_TYPE(ste_entry) == NT_IENUM) {
                 ATTRIBUTE_TYPE(node) = AT_link_or_enum;
+                // The generated C uses the spelling of the declaration.
+                ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)) = MEMfree(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)));
+                ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)) = STRcpy(ID_ORIG(IENUM_NAME(ste_entry)));
             } else {
                 CTI(CTI_ERROR, true, "Invalid type in attribute type: %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)));
             }
-- 
2.43.0


From ced701c9008883d2ece1eb8b5e424b66a635b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:52 +0000
Subject: [PATCH 20/32] fix: an action that refers to a node, nodeset or enum
 was accepted

---
 cocogen/frontend/check_existance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 3672a90..2d3554f 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -63,6 +63,8 @@ node_st *CEXiactions(node_st *node)
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
     if (ref == NULL) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
+    } else if (NODE_TYPE(ref) != NT_IPHASE && NODE_TYPE(ref) != NT_IPASS && NODE_TYPE(ref) != NT_ITRAVERSAL) {
+        CTI(CTI_ERROR, true, "Not a phase, pass or traversal: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
 }
-- 
2.43.0


From e6a1ce8d98b4b2606567142c1e2c0c7c0a26015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:43 +0000
Subject: [PATCH 21/32] fix: a specification without root node or start phase
 crashed the compiler

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 2d3554f..49d7077 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -51,6 +51,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From ba05ac74732b9ca68b96edb307209d6bab7e3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:58 +0000
Subject: [PATCH 22/32] fix: duplicate enum values were accepted

---
 cocogen/frontend/check_existance.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 49d7077..7e01df1 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -328,6 +328,17 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    node_st *value_ste = NULL;
+    for (node_st *value = IENUM_VALS(node); value != NULL; value = ID_NEXT(value)) {
+        if (STlookup(value_ste, value) != NULL) {
+            CTI(CTI_ERROR, true, "Double declaration of enum value: %s\n", ID_ORIG(value));
+        } else {
+            value_ste = STadd(value_ste, value, value);
+        }
+    }
+    if (value_ste != NULL) {
+        CCNfree(value_ste);
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 01e42d764a87f3635e721e5e8b9fe34df340cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:09 +0000
Subject: [PATCH 23/32] fix: an attribute that depends on itself was not
 reported as a cycle

---
 cocogen/frontend/attribute_scheduler/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..7836a6b 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,7 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 0ef6adb57690ba837c00357d406ca1081deae759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:09 +0000
Subject: [PATCH 24/32] fix: adding a dependency twice put it into the graph
 twice

---
 cocogen/frontend/attribute_scheduler/graph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 7836a6b..b4a69ce 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -255,7 +255,9 @@ struct GRerror GRadd_edge(struct GRgraph *graph, struct GRnode *n1,
     if (check_cycle(graph, n1, n2, &error, type)) {
         return error;
     }
-    add_edge_internal(graph, n1, n2, type);
+    if (!HTlookup_edge(graph->internal->edge_map, n1, n2)) {
+        add_edge_internal(graph, n1, n2, type);
+    }
     return error;
 }
 
-- 
2.43.0


From e015b532f921f7dc2c181f018fa20f225d227338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 25/32] fix: attributes of a nodeset were scheduled in
 different visits for its members

The dependencies, partitions and number of visits of a nodeset and its members
have to agree, as a child is visited through its nodeset.
---
 .../attribute_scheduler/collect_visits.c      |  79 +++---
 .../schedule_attribute_visits.c               | 233 ++++++++++++++++--
 2 files changed, 263 insertions(+), 49 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/collect_visits.c b/cocogen/frontend/attribute_scheduler/collect_visits.c
index ad78dde..6ae06be 100644
--- a/cocogen/frontend/attribute_scheduler/collect_visits.c
+++ b/cocogen/frontend/attribute_scheduler/collect_visits.c
@@ -116,38 +116,60 @@ static bool node_has_visit(node_st *node, node_st *st,
     return false;
 }
 
-static bool nodeset_has_visit(node_st *expr, node_st *st,
-                              htable_st *visits_htable) {
-    if (expr == NULL) {
-        return NULL;
+static bool add_empty_visits(struct visits *visits, size_t length) {
+    if (visits->length >= length) {
+        return false;
     }
 
-    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    visits->visits =
+        MEMrealloc(visits->visits, length * sizeof(struct visit *));
+    for (size_t i = visits->length; i < length; ++i) {
+        visits->visits[i] = MEMmalloc(sizeof(struct visit));
+        visits->visits[i]->index = i;
+        visits->visits[i]->inputs = NULL;
+        visits->visits[i]->inputs_length = 0;
+        visits->visits[i]->outputs = NULL;
+        visits->visits[i]->outputs_length = 0;
+    }
+    visits->length = length;
+    return true;
+}
 
-    node_st *node = STlookup(st, SETLITERAL_REFERENCE(expr));
-    struct visits *visits = HTlookup(visits_htable, node);
-    if (visits->length > 0) {
-        return true;
+static size_t nodeset_visits(node_st *expr, node_st *st,
+                             htable_st *visits_htable) {
+    if (expr == NULL) {
+        return 0;
     }
 
-    return nodeset_has_visit(SETLITERAL_LEFT(expr), st, visits_htable) ||
-           nodeset_has_visit(SETLITERAL_RIGHT(expr), st, visits_htable);
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+
+    struct visits *visits =
+        HTlookup(visits_htable, STlookup(st, SETLITERAL_REFERENCE(expr)));
+    size_t left = nodeset_visits(SETLITERAL_LEFT(expr), st, visits_htable);
+    size_t right = nodeset_visits(SETLITERAL_RIGHT(expr), st, visits_htable);
+    return MAX(visits->length, MAX(left, right));
 }
 
-static inline void add_empty_visit(struct visits *visits) {
-    visits->visits = MEMrealloc(visits->visits, 1 * sizeof(struct visit));
-    visits->visits[0] = MEMmalloc(sizeof(struct visit));
-    visits->visits[0]->index = 0;
-    visits->visits[0]->inputs = NULL;
-    visits->visits[0]->inputs_length = 0;
-    visits->visits[0]->outputs = NULL;
-    visits->visits[0]->outputs_length = 0;
-    visits->length = 1;
+static size_t add_empty_visits_members(node_st *expr, node_st *st,
+                                       htable_st *visits_htable,
+                                       size_t length) {
+    if (expr == NULL) {
+        return 0;
+    }
+
+    struct visits *visits =
+        HTlookup(visits_htable, STlookup(st, SETLITERAL_REFERENCE(expr)));
+    return add_empty_visits(visits, length) +
+           add_empty_visits_members(SETLITERAL_LEFT(expr), st, visits_htable,
+                                    length) +
+           add_empty_visits_members(SETLITERAL_RIGHT(expr), st, visits_htable,
+                                    length);
 }
 
 /* We want every visit to be reachable from the root node. So if a child node
    has any visit, while the current node doesn't, we add an empty visit with
-   the purpose of calling the child visits.
+   the purpose of calling the child visits. A nodeset and all of its members need
+   the same number of visits, as a child is visited through its nodeset.
 */
 void generate_empty_visits(node_st *nodes, node_st *nodesets, node_st *st,
                            htable_st *visits_htable) {
@@ -163,22 +185,23 @@ void generate_empty_visits(node_st *nodes, node_st *nodesets, node_st *st,
             }
 
             if (node_has_visit(node, st, visits_htable)) {
-                add_empty_visit(visits);
-                changes += 1;
+                changes += add_empty_visits(visits, 1);
             }
         }
 
         for (node_st *nodeset = nodesets; nodeset;
              nodeset = INODESET_NEXT(nodeset)) {
             struct visits *visits = HTlookup(visits_htable, nodeset);
-            if (visits == NULL || visits->length > 0) {
+            if (visits == NULL) { // Empty nodeset
                 continue;
             }
 
-            if (nodeset_has_visit(INODESET_EXPR(nodeset), st, visits_htable)) {
-                add_empty_visit(visits);
-                changes += 1;
-            }
+            size_t length = MAX(visits->length,
+                                nodeset_visits(INODESET_EXPR(nodeset), st,
+                                               visits_htable));
+            changes += add_empty_visits(visits, length);
+            changes += add_empty_visits_members(INODESET_EXPR(nodeset), st,
+                                                visits_htable, length);
         }
     } while (changes > 0); // Keep adding visits until there are no more changes
 }
diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..0cc3ac0 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -32,6 +32,8 @@
 
 static const int htable_size = 200;
 
+static node_st *nodesets = NULL;
+
 struct node_list {
     node_st *node;
     struct node_list *next;
@@ -201,6 +203,90 @@ static inline void delete_edge_list(struct GRedge_list *edge_list) {
     }
 }
 
+static inline node_st *find_attribute(node_st *type, node_st *attr) {
+    for (node_st *cand = get_node_attributes(type); cand != NULL;
+         cand = ATTRIBUTE_NEXT(cand)) {
+        if (STReq(ID_LWR(ATTRIBUTE_NAME(attr)), ID_LWR(ATTRIBUTE_NAME(cand)))) {
+            return cand;
+        }
+    }
+
+    return NULL;
+}
+
+static bool is_member(node_st *expr, node_st *node) {
+    if (expr == NULL) {
+        return false;
+    }
+
+    return STlookup(DATA_SAV_GET()->symboltable, SETLITERAL_REFERENCE(expr)) ==
+               node ||
+           is_member(SETLITERAL_LEFT(expr), node) ||
+           is_member(SETLITERAL_RIGHT(expr), node);
+}
+
+static void insert_induced_edge(struct GRedge_list **edge_list,
+                                htable_st *induced_edges_map, node_st *type,
+                                node_st *from, node_st *to);
+
+static void insert_induced_edge_members(struct GRedge_list **edge_list,
+                                        htable_st *induced_edges_map,
+                                        node_st *expr, node_st *from,
+                                        node_st *to) {
+    if (expr == NULL) {
+        return;
+    }
+
+    node_st *member =
+        STlookup(DATA_SAV_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    insert_induced_edge(edge_list, induced_edges_map, member, from, to);
+    insert_induced_edge_members(edge_list, induced_edges_map,
+                                SETLITERAL_LEFT(expr), from, to);
+    insert_induced_edge_members(edge_list, induced_edges_map,
+                                SETLITERAL_RIGHT(expr), from, to);
+}
+
+// The attributes of a nodeset are visited through the nodeset, whatever the type
+// of the node, so their dependencies have to be the same for the nodeset and all
+// of its members.
+static void insert_induced_edge(struct GRedge_list **edge_list,
+                                htable_st *induced_edges_map, node_st *type,
+                                node_st *from, node_st *to) {
+    from = find_attribute(type, from);
+    to = find_attribute(type, to);
+    if (from == NULL || to == NULL) {
+        return;
+    }
+
+    struct GRnode *n1 = HTinsert_graph_node(type, from);
+    struct GRnode *n2 = HTinsert_graph_node(type, to);
+    if (HTlookup_edge(induced_edges_map, n1, n2)) {
+        return;
+    }
+
+    struct GRedge_list *insert_edge = MEMmalloc(sizeof(struct GRedge_list));
+    insert_edge->edge = MEMmalloc(sizeof(struct GRedge));
+    insert_edge->edge->first = n1;
+    insert_edge->edge->second = n2;
+    insert_edge->edge->type = GRinduced;
+    insert_edge->next = *edge_list;
+    *edge_list = insert_edge;
+    HTinsert_edge(induced_edges_map, insert_edge->edge);
+
+    if (NODE_TYPE(type) == NT_INODESET) {
+        insert_induced_edge_members(edge_list, induced_edges_map,
+                                    INODESET_EXPR(type), from, to);
+    } else {
+        for (node_st *nodeset = nodesets; nodeset != NULL;
+             nodeset = INODESET_NEXT(nodeset)) {
+            if (is_member(INODESET_EXPR(nodeset), type)) {
+                insert_induced_edge(edge_list, induced_edges_map, nodeset, from,
+                                    to);
+            }
+        }
+    }
+}
+
 // Adds converted edges from new edges to the edge list, while also deleting
 // all elements from new edges
 static void combine_edgelists(struct GRedge_list **edge_list,
@@ -210,27 +296,11 @@ static void combine_edgelists(struct GRedge_list **edge_list,
     for (struct GRedge_list *new_edge = new_edges; new_edge != NULL;
          new_edge = next_new_edge) {
         next_new_edge = new_edge->next;
-        struct GRnode *new_n1 =
-            HTinsert_graph_node(get_node_type(new_edge->edge->first->node,
-                                              DATA_SAV_GET()->symboltable),
-                                new_edge->edge->first->attribute);
-        struct GRnode *new_n2 =
-            HTinsert_graph_node(get_node_type(new_edge->edge->second->node,
-                                              DATA_SAV_GET()->symboltable),
-                                new_edge->edge->second->attribute);
-
-        if (!HTlookup_edge(induced_edges_map, new_n1, new_n2)) {
-            struct GRedge_list *insert_edge =
-                MEMmalloc(sizeof(struct GRedge_list));
-            insert_edge->edge = MEMmalloc(sizeof(struct GRedge));
-            insert_edge->edge->first = new_n1;
-            insert_edge->edge->second = new_n2;
-            insert_edge->edge->type = GRinduced;
-            insert_edge->next = *edge_list;
-            *edge_list = insert_edge;
-            HTinsert_edge(induced_edges_map, insert_edge->edge);
-        }
-
+        insert_induced_edge(edge_list, induced_edges_map,
+                            get_node_type(new_edge->edge->first->node,
+                                          DATA_SAV_GET()->symboltable),
+                            new_edge->edge->first->attribute,
+                            new_edge->edge->second->attribute);
         MEMfree(new_edge->edge);
         MEMfree(new_edge);
     }
@@ -458,6 +528,124 @@ find_intravisit_dependencies(htable_st *graphs_htable,
     return dependencies;
 }
 
+static inline size_t get_partition(htable_st *partition_tables, node_st *type,
+                                   node_st *attr) {
+    htable_st *table = HTlookup(partition_tables, type);
+    return table == NULL
+               ? 0
+               : (size_t)HTlookup(table, ID_LWR(ATTRIBUTE_NAME(attr)));
+}
+
+static inline bool raise_partition(htable_st *partition_tables, node_st *type,
+                                   node_st *attr, size_t partition) {
+    if (get_partition(partition_tables, type, attr) >= partition) {
+        return false;
+    }
+
+    HTinsert(HTlookup(partition_tables, type), ID_LWR(ATTRIBUTE_NAME(attr)),
+             (void *)partition);
+    return true;
+}
+
+// Moves attributes that come before an attribute they depend on to a later
+// partition
+static bool raise_dependent(htable_st *graphs_htable,
+                            htable_st *partition_tables, node_st *type) {
+    struct graph_list *graphs = HTlookup(graphs_htable, type);
+    bool changed = false;
+    if (graphs == NULL) { // Empty nodeset
+        return false;
+    }
+
+    graph_st *graph = graphs->graph;
+    for (struct GRnode *node = graph->nodes; node != NULL; node = node->next) {
+        if (node->node != type ||
+            get_partition(partition_tables, type, node->attribute) == 0) {
+            continue;
+        }
+        struct GRnode_list *next;
+        for (struct GRnode_list *entry =
+                 GRget_inter_node_dependencies(graph, node);
+             entry != NULL; entry = next) {
+            next = entry->next;
+            node_st *dep = entry->node->attribute;
+            size_t partition = get_partition(partition_tables, type, dep);
+            if (ATTRIBUTE_IS_SYNTHESIZED(dep) !=
+                ATTRIBUTE_IS_SYNTHESIZED(node->attribute)) {
+                partition += 1;
+            }
+            changed |= raise_partition(partition_tables, type, node->attribute,
+                                       partition);
+            MEMfree(entry);
+        }
+    }
+
+    return changed;
+}
+
+static bool raise_equal(htable_st *partition_tables, node_st *nodeset,
+                        node_st *expr) {
+    bool changed = false;
+    if (expr == NULL) {
+        return false;
+    }
+
+    node_st *member =
+        STlookup(DATA_SAV_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    for (node_st *attr = INODESET_IATTRIBUTES(nodeset); attr != NULL;
+         attr = ATTRIBUTE_NEXT(attr)) {
+        if (!ATTRIBUTE_IS_INHERITED(attr) && !ATTRIBUTE_IS_SYNTHESIZED(attr)) {
+            continue;
+        }
+        changed |= raise_partition(
+            partition_tables, nodeset, attr,
+            get_partition(partition_tables, member, attr));
+        changed |= raise_partition(
+            partition_tables, member, attr,
+            get_partition(partition_tables, nodeset, attr));
+    }
+
+    changed |= raise_equal(partition_tables, nodeset, SETLITERAL_LEFT(expr));
+    changed |= raise_equal(partition_tables, nodeset, SETLITERAL_RIGHT(expr));
+    return changed;
+}
+
+// A child with a nodeset as type is visited in the same way for all nodes in the
+// nodeset, so the attributes of a nodeset have to be in the same partition for
+// the nodeset and all of its members.
+static void align_partitions(htable_st *graphs_htable,
+                             htable_st *partition_tables, node_st *inodes) {
+    size_t rounds = 0;
+    for (node_st *inode = inodes; inode != NULL; inode = INODE_NEXT(inode)) {
+        for (node_st *attr = INODE_IATTRIBUTES(inode); attr != NULL;
+             attr = ATTRIBUTE_NEXT(attr)) {
+            rounds += 2;
+        }
+    }
+
+    bool changed;
+    do {
+        changed = false;
+        for (node_st *inode = inodes; inode != NULL;
+             inode = INODE_NEXT(inode)) {
+            changed |= raise_dependent(graphs_htable, partition_tables, inode);
+        }
+        for (node_st *nodeset = nodesets; nodeset != NULL;
+             nodeset = INODESET_NEXT(nodeset)) {
+            changed |= raise_dependent(graphs_htable, partition_tables, nodeset);
+            changed |= raise_equal(partition_tables, nodeset,
+                                   INODESET_EXPR(nodeset));
+        }
+
+        if (changed && rounds-- == 0) {
+            CTI(CTI_ERROR, true,
+                "Nodes require contradicting evaluation orders for the "
+                "attributes of their nodesets\n");
+            CTIabortCompilation();
+        }
+    } while (changed);
+}
+
 static void dump_dotfile(htable_st *graphs, char *filename,
                          htable_st *partition_tables) {
     GDag_st *dot = GDag_dot_init(filename);
@@ -500,6 +688,7 @@ node_st *SAVast(node_st *node) {
         HTnew(htable_size, hash_edge, hash_edge_equal);
     struct GRedge_list *induced_edges = NULL;
     DATA_SAV_GET()->symboltable = AST_STABLE(node);
+    nodesets = AST_INODESETS(node);
     DATA_SAV_GET()->errors = 0;
 
     // Create node production graphs
@@ -577,6 +766,8 @@ node_st *SAVast(node_st *node) {
         HTinsert(partition_tables, nodeset, partition_table);
     }
 
+    align_partitions(graphs_htable, partition_tables, AST_INODES(node));
+
     dump_dotfile(graphs_htable, "partitioned.dot", partition_tables);
 
 
-- 
2.43.0


From 3659a313949f96c87edf83acf2cdd7893bf24feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 26/32] fix: visits of two children of the same type declared
 the same variable

---
 cocogen/dynamic_backend/gen_visit_source.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..0fee2af 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -389,7 +389,7 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
+    assert(outputs == NULL || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
@@ -444,7 +444,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name,
+                ID_LWR(CHILD_NAME(child)), visit_name);
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -476,10 +477,10 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          ID_LWR(CHILD_NAME(child)), visit_name, get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 80f453b49906cc5a754fb671e8650a034318b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 27/32] fix: inherited attributes were used before they were
 stored in the child

Equations and later visits read them from the child, where they were only
stored at the start of the visit that takes them as input.
---
 cocogen/dynamic_backend/gen_visit_source.c | 64 +++++++++++++++++++++-
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 0fee2af..0a5a435 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -39,6 +39,53 @@ static inline void print_set_value(node_st *attribute, char *value) {
         value);
 }
 
+static void print_set_child_value_type(node_st *type, node_st *child,
+                                       char *attribute, char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    OUT_BEGIN_IF("NODE_TYPE(%s_%s(node)) == NT_%s",
+                 ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+                 ID_UPR(INODE_NAME(type)));
+    OUT("%s_%s(node)->data.N_%s->_%s.ccn_val_set = true;\n",
+        ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+        ID_LWR(INODE_NAME(type)), attribute);
+    OUT("%s_%s(node)->data.N_%s->_%s.%s = %s;\n",
+        ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+        ID_LWR(INODE_NAME(type)), attribute, attribute, value);
+    OUT_END_IF();
+}
+
+static void print_set_child_value_expr(node_st *expr, node_st *child,
+                                       char *attribute, char *value) {
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    print_set_child_value_type(STlookup(ste, SETLITERAL_REFERENCE(expr)), child,
+                               attribute, value);
+    print_set_child_value_expr(SETLITERAL_LEFT(expr), child, attribute, value);
+    print_set_child_value_expr(SETLITERAL_RIGHT(expr), child, attribute, value);
+}
+
+// Store the value of an inherited attribute in the child it belongs to, so that
+// it can be used before the child is visited, and during later visits
+static inline void print_set_child_value(node_st *child, char *attribute,
+                                         char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    assert(type != NULL);
+    OUT_BEGIN_IF("%s_%s(node) != NULL", ID_UPR(INODE_NAME(curr_node)),
+                 ID_UPR(CHILD_NAME(child)));
+    if (NODE_TYPE(type) == NT_INODE) {
+        print_set_child_value_type(type, child, attribute, value);
+    } else {
+        print_set_child_value_expr(INODESET_EXPR(type), child, attribute,
+                                   value);
+    }
+    OUT_END_IF();
+    OUT_NO_INDENT("\n");
+}
+
 static inline void print_unused() {
     GeneratorContext *ctx = globals.gen_ctx;
     OUT_NO_INDENT(" MAYBE_UNUSED");
@@ -378,6 +425,15 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else { // inherited attribute of a child
+        char *arg_str =
+            STRfmt("%s_%s", get_node_name_this(attribute),
+                   ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+
+        print_set_child_value(
+            get_child(ATTRIBUTE_REFERENCE_INODE(attribute)),
+            ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)), arg_str);
+        MEMfree(arg_str);
     }
 
     HTdelete(children_null);
@@ -458,9 +514,11 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        // The value was stored in the child when it was evaluated, possibly
+        // during an earlier visit
+        OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(INODE_NAME(VISIT_INODE(visit))),
+                      ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                      child_access);
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From 9f61dd3f645e9e43b2aeadbe3e1192523c2a3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 28/32] fix: duplicate product rules and arguments were
 accepted

---
 cocogen/frontend/check_product_rules.c | 43 ++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..ba468c6 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -3,8 +3,6 @@
  *
  * Traversal: checkProductRules
  * UID      : CPR
- *
- * TODO: prevent duplicate production rules / args
  */
 
 #include <assert.h>
@@ -220,6 +218,31 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+static bool same_reference(node_st *left, node_st *right) {
+    node_st *left_node = ATTRIBUTE_REFERENCE_INODE(left);
+    node_st *right_node = ATTRIBUTE_REFERENCE_INODE(right);
+    // NULL == this
+    if ((left_node == NULL) != (right_node == NULL)) {
+        return false;
+    }
+
+    return (left_node == NULL ||
+            STReq(ID_LWR(left_node), ID_LWR(right_node))) &&
+           STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(left)),
+                 ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(right)));
+}
+
+static void duplicate_reference_error(node_st *reference, const char *what) {
+    struct ctinfo info;
+    id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference), &info);
+    CTIobj(CTI_ERROR, true, info, "Duplicate %s for '%s.%s'\n", what,
+           ATTRIBUTE_REFERENCE_INODE(reference) == NULL
+               ? "this"
+               : ID_ORIG(ATTRIBUTE_REFERENCE_INODE(reference)),
+           ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference)));
+    CCNerrorAction();
+}
+
 /**
  * @fn CPRast
  */
@@ -246,6 +269,13 @@ node_st *CPRinode(node_st *node) {
  */
 node_st *CPRequation(node_st *node) {
     check_attribute_reference(EQUATION_RULE(node), true);
+    for (node_st *other = EQUATION_NEXT(node); other != NULL;
+         other = EQUATION_NEXT(other)) {
+        if (same_reference(EQUATION_RULE(node), EQUATION_RULE(other))) {
+            duplicate_reference_error(EQUATION_RULE(other), "product rule");
+            break;
+        }
+    }
     TRAViargs(node);
     TRAVnext(node);
     return node;
@@ -256,6 +286,15 @@ node_st *CPRequation(node_st *node) {
  */
 node_st *CPRequation_dependency(node_st *node) {
     check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);
+    for (node_st *other = EQUATION_DEPENDENCY_NEXT(node); other != NULL;
+         other = EQUATION_DEPENDENCY_NEXT(other)) {
+        if (same_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node),
+                           EQUATION_DEPENDENCY_IATTRIBUTE(other))) {
+            duplicate_reference_error(EQUATION_DEPENDENCY_IATTRIBUTE(other),
+                                      "argument");
+            break;
+        }
+    }
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 779f6dc16ddff805df6536f3b1d8d9ac69f57415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:19 +0000
Subject: [PATCH 29/32] fix: an inherited attribute of a nodeset member could
 be left without equation

---
 cocogen/frontend/check_product_rules.c | 35 ++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index ba468c6..426ff2b 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -243,6 +243,40 @@ static void duplicate_reference_error(node_st *reference, const char *what) {
     CCNerrorAction();
 }
 
+/* An equation can only set the inherited attributes of the nodeset itself, so
+   a member with another one would never have that attribute evaluated. */
+static void check_members(node_st *child, node_st *nodeset, node_st *expr) {
+    if (expr == NULL) {
+        return;
+    }
+
+    node_st *member =
+        STlookup(DATA_CPR_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    assert(member != NULL && NODE_TYPE(member) == NT_INODE);
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(CHILD_NAME(child), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Nodeset '%s' of child '%s.%s' does not contain inherited "
+                   "attribute '%s' of its member '%s', so no equation can "
+                   "define it\n",
+                   ID_ORIG(INODESET_NAME(nodeset)),
+                   ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)),
+                   ID_ORIG(CHILD_NAME(child)),
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)),
+                   ID_ORIG(INODE_NAME(member)));
+            CCNerrorAction();
+        }
+    }
+
+    check_members(child, nodeset, SETLITERAL_LEFT(expr));
+    check_members(child, nodeset, SETLITERAL_RIGHT(expr));
+}
+
 /**
  * @fn CPRast
  */
@@ -325,6 +359,7 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        check_members(node, ref_node, INODESET_EXPR(ref_node));
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From 136cc58c5e05d0b0079c81cd119ebd10e1f51ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:58 +0000
Subject: [PATCH 30/32] fix: name the node, not a node set, when a redeclared
 attribute is rejected

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..eaee164 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -54,7 +54,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -63,7 +63,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From c2fe8a336b874b74df8ecd2df5d80e9a5c105d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:58 +0000
Subject: [PATCH 31/32] fix: compare type names of redeclared attributes
 without regard to case

---
 cocogen/frontend/nodesets/propagate_attributes.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index eaee164..43a4900 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,12 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    }
+
+    if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
-- 
2.43.0


From 759788bd7619b087e493ba5de690e08762b23a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:51 +0000
Subject: [PATCH 32/32] fix: check all attributes of a node or nodeset, not
 only the first

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0

