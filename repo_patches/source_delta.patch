From 873fdc36e54040a0e16469702b7532b3c8742518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 01/30] fix: apply De Morgan when short-circuiting under not

---
 src/tree.c | 62 ++++++++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..88b38ed 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1453,6 +1453,28 @@ static enum short_circuit_e short_circuit_for_attr_var(
     return SHORT_CIRCUIT_NONE;
 }
 
+static enum short_circuit_e short_circuit_or(enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
+        return SHORT_CIRCUIT_PASS;
+    }
+    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
+        return SHORT_CIRCUIT_FAIL;
+    }
+    return SHORT_CIRCUIT_NONE;
+}
+
+static enum short_circuit_e short_circuit_and(enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
+        return SHORT_CIRCUIT_FAIL;
+    }
+    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
+        return SHORT_CIRCUIT_PASS;
+    }
+    return SHORT_CIRCUIT_NONE;
+}
+
 static enum short_circuit_e short_circuit_for_node(
     betree_var_t id, bool inverted, const struct ast_node* node)
 {
@@ -1481,26 +1503,14 @@ static enum short_circuit_e short_circuit_for_node(
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_and(lhs, rhs) : short_circuit_or(lhs, rhs);
                 }
                 case AST_BOOL_AND: {
                     enum short_circuit_e lhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_or(lhs, rhs) : short_circuit_and(lhs, rhs);
                 }
                 case AST_BOOL_NOT:
                     return short_circuit_for_node(id, !inverted, node->bool_expr.unary.expr);
@@ -1525,35 +1535,17 @@ static enum short_circuit_e short_circuit_for_node(
                 case AST_SPECIAL_FREQUENCY: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_or(frequency, now) : short_circuit_and(frequency, now);
                 }
                 case AST_SPECIAL_SEGMENT: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_or(frequency, now) : short_circuit_and(frequency, now);
                 }
                 case AST_SPECIAL_GEO: {
                     enum short_circuit_e latitude = short_circuit_for_attr_var(id, inverted, node->special_expr.geo.latitude_var);
                     enum short_circuit_e longitude = short_circuit_for_attr_var(id, inverted, node->special_expr.geo.longitude_var);
-                    if(latitude == SHORT_CIRCUIT_FAIL || longitude == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(latitude == SHORT_CIRCUIT_PASS && longitude == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_or(latitude, longitude) : short_circuit_and(latitude, longitude);
                 }
                 case AST_SPECIAL_STRING:
                     return short_circuit_for_attr_var(
-- 
2.43.0


From 6aecb02459b2d0196a43cd85a8fecbb4f54c532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 02/30] fix: bound a negated and like an or

---
 src/ast.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..ff542b0 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1475,7 +1475,9 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                         domain, node->bool_expr.binary.lhs, &lbound, is_reversed, &ldirty);
                     get_variable_bound_inner(
                         domain, node->bool_expr.binary.rhs, &rbound, is_reversed, &rdirty);
-                    if(ldirty.min_dirty == true || rdirty.min_dirty == true) {
+                    // Under a not, an and is an or of the negated sides: both need to be bounded
+                    if(is_reversed ? (ldirty.min_dirty == true && rdirty.min_dirty == true)
+                                   : (ldirty.min_dirty == true || rdirty.min_dirty == true)) {
                         dirty->min_dirty = true;
                         switch(bound->value_type) {
                             case BETREE_BOOLEAN:
@@ -1531,7 +1533,8 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 break;
                         }
                     }
-                    if(ldirty.max_dirty == true || rdirty.max_dirty == true) {
+                    if(is_reversed ? (ldirty.max_dirty == true && rdirty.max_dirty == true)
+                                   : (ldirty.max_dirty == true || rdirty.max_dirty == true)) {
                         dirty->max_dirty = true;
                         switch(bound->value_type) {
                             case BETREE_BOOLEAN:
-- 
2.43.0


From d3f791521a4d08066b1764e137021448ba89b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 03/30] fix: ignore repeated values in a list expression

---
 src/ast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index ff542b0..4368a57 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2510,10 +2510,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 565ad097be87347a2cd882029369b1fc803c0d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 04/30] fix: keep float bounds around every matching value

---
 src/ast.c  | 9 +++++----
 src/tree.c | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 4368a57..f9931e1 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <float.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -1726,7 +1727,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                             }
                             else {
                                 bound->fmax
-                                    = node->compare_expr.value.float_value - __DBL_EPSILON__;
+                                    = nextafter(node->compare_expr.value.float_value, -DBL_MAX);
                                 dirty->max_dirty = true;
                             }
                             break;
@@ -1748,7 +1749,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                         case AST_COMPARE_VALUE_FLOAT:
                             if(is_reversed) {
                                 bound->fmin
-                                    = node->compare_expr.value.float_value + __DBL_EPSILON__;
+                                    = nextafter(node->compare_expr.value.float_value, DBL_MAX);
                                 dirty->min_dirty = true;
                             }
                             else {
@@ -1778,7 +1779,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                             }
                             else {
                                 bound->fmin
-                                    = node->compare_expr.value.float_value + __DBL_EPSILON__;
+                                    = nextafter(node->compare_expr.value.float_value, DBL_MAX);
                                 dirty->min_dirty = true;
                             }
                             break;
@@ -1800,7 +1801,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                         case AST_COMPARE_VALUE_FLOAT:
                             if(is_reversed) {
                                 bound->fmax
-                                    = node->compare_expr.value.float_value - __DBL_EPSILON__;
+                                    = nextafter(node->compare_expr.value.float_value, -DBL_MAX);
                                 dirty->max_dirty = true;
                             }
                             else {
diff --git a/src/tree.c b/src/tree.c
index 88b38ed..2a84bff 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -152,7 +152,8 @@ static bool is_event_enclosed(const struct betree_variable** preds, const struct
         case BETREE_INTEGER:
             return (open_left || cdir->bound.imin <= pred->value.integer_value) && (open_right || cdir->bound.imax >= pred->value.integer_value);
         case BETREE_FLOAT:
-            return (open_left || cdir->bound.fmin <= pred->value.float_value) && (open_right || cdir->bound.fmax >= pred->value.float_value);
+            // Equality is within an epsilon, so a match can be that far outside of the bound
+            return (open_left || cdir->bound.fmin - __DBL_EPSILON__ <= pred->value.float_value) && (open_right || cdir->bound.fmax + __DBL_EPSILON__ >= pred->value.float_value);
         case BETREE_STRING:
             return (cdir->bound.smin <= pred->value.string_value.str) && (open_right || cdir->bound.smax >= pred->value.string_value.str);
         case BETREE_INTEGER_ENUM:
-- 
2.43.0


From 8a6370a1195ba917b2e8dfbc6cad087e97d8975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 05/30] fix: split float domains whose width is not a whole
 number

---
 src/tree.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 2a84bff..f0987e4 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -843,7 +843,9 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            // Splits happen on whole steps, which have to be visible at that magnitude
+            double start = cdir->bound.fmin, end = cdir->bound.fmax;
+            return fabs(end - start) < 1 || !(start < start + 1 && end - 1 < end);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -935,12 +937,12 @@ static struct value_bounds split_value_bound(struct value_bound bound)
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-            else if(feq(fabs(end - start), 2)) {
+            else if(fabs(end - start) > 1) {
                 double middle = start + 1;
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-            else if(feq(fabs(end - start), 1)) {
+            else if(fabs(end - start) == 1) {
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
-- 
2.43.0


From d70de71030c96630394a9ae6ed2d4305419183cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 06/30] fix: do not overflow when measuring a domain

---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f0987e4..479b68d 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -724,14 +724,14 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            return ((uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin)
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
-                < config->max_domain_for_split;
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
+                < (double)config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
         case BETREE_STRING:
-- 
2.43.0


From dc8faa0575214dd9f2f7b99193da923f01903dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 07/30] fix: keep neighbouring bounds in range

---
 src/ast.c    |  8 ++++----
 src/betree.c |  4 ++--
 src/utils.c  | 10 ++++++++++
 src/utils.h  |  3 +++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index f9931e1..15d46ba 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1716,7 +1716,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->min_dirty = true;
                             }
                             else {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = int64_pred(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             break;
@@ -1738,7 +1738,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = int64_succ(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             else {
@@ -1768,7 +1768,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->max_dirty = true;
                             }
                             else {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = int64_succ(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             break;
@@ -1790,7 +1790,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = int64_pred(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             else {
diff --git a/src/betree.c b/src/betree.c
index acf6a28..bb64ae2 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -189,9 +189,9 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
         case AST_COMPARE_VALUE_INTEGER: {
             int64_t i = value.integer_value;
             switch(op) {
-                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
+                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(int64_pred(i));
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
-                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i + 1);
+                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(int64_succ(i));
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
                 default: abort();
             }
diff --git a/src/utils.c b/src/utils.c
index 8d8ceca..e708614 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -20,6 +20,16 @@ int64_t d64max(int64_t a, int64_t b)
     return a > b ? a : b;
 }
 
+int64_t int64_pred(int64_t a)
+{
+    return a == INT64_MIN ? a : a - 1;
+}
+
+int64_t int64_succ(int64_t a)
+{
+    return a == INT64_MAX ? a : a + 1;
+}
+
 uint64_t u64max(uint64_t a, uint64_t b)
 {
     return a > b ? a : b;
diff --git a/src/utils.h b/src/utils.h
index ac20c15..73dda2b 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -9,6 +9,9 @@
 
 int64_t d64min(int64_t a, int64_t b);
 int64_t d64max(int64_t a, int64_t b);
+// Neighbours that stay in range
+int64_t int64_pred(int64_t a);
+int64_t int64_succ(int64_t a);
 uint64_t u64max(uint64_t a, uint64_t b);
 size_t smin(size_t a, size_t b);
 size_t smax(size_t a, size_t b);
-- 
2.43.0


From a71b21f35a896bd19c82b637b47d7904403afaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 08/30] fix: move the subscription itself when ids repeat

---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 479b68d..a6b3159 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -495,11 +495,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -524,7 +524,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From 390235cc1caa0b82e412c1147b65777cac1284ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 09/30] fix: compare frequency limits, windows and segment
 durations at full width

A limit above 32 bits or below zero was truncated to uint32_t, a negative
window became a huge one, and a segment duration was truncated to int32_t.
---
 src/special.c | 10 +++++-----
 src/special.h |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..9bcbe29 100644
--- a/src/special.c
+++ b/src/special.c
@@ -12,8 +12,8 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
-    size_t length,
+    int64_t value,
+    int64_t length,
     int64_t now)
 {
     for(size_t i = 0; i < caps->size; i++) {
@@ -27,7 +27,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
             if(!content->timestamp_defined) {
                 return true;
             }
-            if((now - (content->timestamp / 1000000)) > (int64_t)length) {
+            if((now - (content->timestamp / 1000000)) > length) {
                 return true;
             }
             if(value > content->value) {
@@ -40,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
@@ -55,7 +55,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
diff --git a/src/special.h b/src/special.h
index 688aa9c..14f9e6c 100644
--- a/src/special.h
+++ b/src/special.h
@@ -10,13 +10,13 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
-    size_t length,
+    int64_t value,
+    int64_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From 6e187695cae8d878dfd01b5f281ad2d49575643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 10/30] fix: a frequency cap without a current time is false
 even when the cap list is empty

The shortcut already treated the predicate as failed there, so its negation
was reported without and missed with evaluation.
---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 15d46ba..291b3ef 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -512,15 +512,15 @@ static bool match_special_expr(
                     if(is_caps_defined == false) {
                         return false;
                     }
-                    if(caps->size == 0) {
-                        // Optimization from looking at what within_frequency_caps does
-                        return true;
-                    }
                     int64_t now;
                     bool is_now_defined = get_integer_var(f->now.var, preds, &now);
                     if(is_now_defined == false) {
                         return false;
                     }
+                    if(caps->size == 0) {
+                        // Optimization from looking at what within_frequency_caps does
+                        return true;
+                    }
                     return within_frequency_caps(
                         caps, f->type, f->id, f->ns, f->value, f->length, now);
                 }
-- 
2.43.0


From 2eb2c80901b69ff881c94f15f52af725bf913f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 11/30] fix: frequency cap namespaces are not limited to one
 string

The domain's capacity was left at zero, so the second namespace in a tree got
the id of unknown strings and matched any unseen namespace of an event.
---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 0a9ec96..2e7f181 100644
--- a/src/config.c
+++ b/src/config.c
@@ -194,7 +194,8 @@ void add_attr_domain_segments(struct config* config, const char* attr, bool allo
 
 void add_attr_domain_frequency(struct config* config, const char* attr, bool allow_undefined)
 {
-    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS };
+    struct value_bound bound
+        = { .value_type = BETREE_FREQUENCY_CAPS, .smin = 0, .smax = SIZE_MAX - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
 }
 
-- 
2.43.0


From 3e1b2142da5c8dc406db126302a0a1813417b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 12/30] fix: find a segment wherever it is in the event's list

The lookup stopped at the first larger id, but nothing sorts the segments of
an event, so a segment written after a larger one was missed.
---
 src/special.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/special.c b/src/special.c
index 9bcbe29..ce782cf 100644
--- a/src/special.c
+++ b/src/special.c
@@ -43,13 +43,9 @@ bool segment_within(
     int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
         if(segments->content[i]->id == segment_id) {
             return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
@@ -58,13 +54,9 @@ bool segment_before(
     int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
-        if(segments->content[i]->id < segment_id) {
-            continue;
-        }
         if(segments->content[i]->id == segment_id) {
             return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
         }
-        return false;
     }
     return false;
 }
-- 
2.43.0


From 717db20b111e147b4743a72b93fb7f2c514687b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 13/30] fix: count the new strings and enum values of a whole
 expression against the bound

---
 src/ast.c | 159 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 94 insertions(+), 65 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 291b3ef..ec7d2c9 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1,5 +1,6 @@
 #include <ctype.h>
 #include <float.h>
+#include <inttypes.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -2675,84 +2676,100 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
+struct new_value {
+    betree_var_t var;
+    const char* string;
+    int64_t integer;
+};
+
+struct new_values {
+    size_t count;
+    struct new_value* values;
+};
+
+static bool within_bound(
+    const struct config* config, struct attr_var attr_var, const char* string, int64_t integer, size_t used, struct new_values* new_values)
 {
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
+    // The largest usable id, one less than the number of different values
+    size_t smax = config->attr_domains[attr_var.var]->bound.smax;
+    if(smax >= SIZE_MAX - 1) {
+        return true;
+    }
+    size_t needed = 1;
+    for(size_t i = 0; i < new_values->count; i++) {
+        const struct new_value* value = &new_values->values[i];
+        if(value->var != attr_var.var) {
+            continue;
         }
+        if(string != NULL ? strcmp(value->string, string) == 0 : value->integer == integer) {
+            return true;
+        }
+        needed++;
+    }
+    if(smax < used + needed - 1) {
+        if(string != NULL) {
+            fprintf(stderr, "For attr '%s', string '%s' could not fit within the bound %zu\n", attr_var.attr, string, smax + 1);
+        }
+        else {
+            fprintf(stderr, "For attr '%s', value %" PRId64 " could not fit within the bound %zu\n", attr_var.attr, integer, smax + 1);
+        }
+        return false;
+    }
+    struct new_value* values = brealloc(new_values->values, sizeof(*values) * (new_values->count + 1));
+    if(values == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
     }
-    return SIZE_MAX;
+    values[new_values->count].var = attr_var.var;
+    values[new_values->count].string = string;
+    values[new_values->count].integer = integer;
+    new_values->values = values;
+    new_values->count++;
+    return true;
 }
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+static bool str_valid(const struct config* config, struct attr_var attr_var, const char* string, struct new_values* new_values)
 {
+    if(try_get_id_for_string(config, attr_var, string) != INVALID_STR) {
+        return true;
+    }
+    size_t used = 0;
     for(size_t i = 0; i < config->string_map_count; i++) {
-        struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
-            return string_map;
+        if(config->string_maps[i].attr_var.var == attr_var.var) {
+            used = config->string_maps[i].string_value_count;
+            break;
         }
     }
-    return NULL;
+    return within_bound(config, attr_var, string, 0, used, new_values);
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+static bool strs_valid(
+    const struct config* config, struct attr_var attr_var, const struct betree_string_list* strings, struct new_values* new_values)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
-            return true;
+    for(size_t i = 0; i < strings->count; i++) {
+        if(!str_valid(config, attr_var, strings->strings[i].string, new_values)) {
+            return false;
         }
     }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
-            string,
-            bound);
-    }
-    return within_bound;
+    return true;
 }
 
-static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+static bool ienum_valid(const struct config* config, struct attr_var attr_var, int64_t integer, struct new_values* new_values)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
+    if(try_get_id_for_ienum(config, attr_var, integer) != INVALID_IENUM) {
         return true;
     }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    size_t used = 0;
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == attr_var.var) {
+            used = config->integer_maps[i].integer_value_count;
+            break;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
-    }
-    return within_bound;
+    return within_bound(config, attr_var, NULL, integer, used, new_values);
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static bool bounded_values_valid(const struct config* config, const struct ast_node* node, struct new_values* new_values)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
@@ -2761,22 +2778,26 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
         case AST_TYPE_EQUALITY_EXPR:
             if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
                 return str_valid(config,
-                    node->equality_expr.attr_var.attr,
-                    node->equality_expr.value.string_value.string);
+                    node->equality_expr.attr_var,
+                    node->equality_expr.value.string_value.string, new_values);
+            }
+            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER
+                && config->attr_domains[node->equality_expr.attr_var.var]->bound.value_type == BETREE_INTEGER_ENUM) {
+                return ienum_valid(config, node->equality_expr.attr_var, node->equality_expr.value.integer_value, new_values);
             }
             return true;
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
                 case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
+                    bool lhs = bounded_values_valid(config, node->bool_expr.binary.lhs, new_values);
                     if(lhs == false) {
                         return false;
                     }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
+                    return bounded_values_valid(config, node->bool_expr.binary.rhs, new_values);
                 }
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    return bounded_values_valid(config, node->bool_expr.unary.expr, new_values);
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
                     return true;
@@ -2786,20 +2807,20 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
                 && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
                 return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
-                    node->set_expr.right_value.string_list_value);
+                    node->set_expr.left_value.variable_value,
+                    node->set_expr.right_value.string_list_value, new_values);
             }
             if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
                 && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
                 return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
-                    node->set_expr.left_value.string_value.string);
+                    node->set_expr.right_value.variable_value,
+                    node->set_expr.left_value.string_value.string, new_values);
             }
             return true;
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
                 return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                    config, node->list_expr.attr_var, node->list_expr.value.string_list_value, new_values);
             }
             return true;
         case AST_TYPE_SPECIAL_EXPR:
@@ -2808,3 +2829,11 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    struct new_values new_values = { .count = 0, .values = NULL };
+    bool result = bounded_values_valid(config, node, &new_values);
+    bfree(new_values.values);
+    return result;
+}
+
-- 
2.43.0


From 7686bcf02e3c62e4581521269848bdd8b1aac0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 14/30] fix: refuse a geo or set expression without the
 attributes it needs

---
 src/ast.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index ec7d2c9..5268bcf 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2652,17 +2652,20 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             }
         case AST_TYPE_SET_EXPR:
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
-                return is_variable_valid(node->set_expr.left_value.variable_value);
+                // A variable can only be looked for in a list of values
+                return node->set_expr.right_value.value_type != AST_SET_RIGHT_VALUE_VARIABLE
+                    && is_variable_valid(node->set_expr.left_value.variable_value);
             }
             else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
             fprintf(stderr, "Invalid set expr");
-            abort();
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From 55c06c6cfddd7c1b83af9201bf7bf829a26b9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:59 +0000
Subject: [PATCH 15/30] fix: free the expression when a constant is missing

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index bb64ae2..ba33d11 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,6 +491,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
-- 
2.43.0


From f35073dcd40a4f3169a34ae44cacbcbe414c7161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 16/30] fix: free the variables of a refused event

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index ba33d11..c5fe88c 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -563,6 +563,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From af8b1915dc77dce7a9a491d2e54499e42d3b5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 17/30] fix: validate the event of an existence query

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index c5fe88c..2c2dbe3 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -572,6 +572,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From c8c543d8a6100218e3fbdb96bb5f28b8480726ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 18/30] fix: read an integer given for a float attribute as
 that number

---
 src/tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index a6b3159..5f543c0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1878,6 +1878,9 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
+        if(pred->value.value_type == BETREE_INTEGER && domain->bound.value_type == BETREE_FLOAT) {
+            pred->value.float_value = (double)pred->value.integer_value;
+        }
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
-- 
2.43.0


From 759f44b925a158d78a47d86f346ace7d20c06fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:43 +0000
Subject: [PATCH 19/30] fix: refuse to adjust boundaries to an undeclared
 attribute

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 2c2dbe3..6c1a49f 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,6 +463,11 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
-- 
2.43.0


From 6f2a34d0bed913da1fade77b2020d5108972e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 20/30] fix: read the smallest integer literal exactly

---
 src/event_lexer.c  |  2 +-
 src/event_lexer.l  |  2 +-
 src/event_parser.c |  4 ++--
 src/event_parser.y |  4 ++--
 src/lexer.c        |  2 +-
 src/lexer.l        |  2 +-
 src/parser.c       |  4 ++--
 src/parser.y       |  4 ++--
 src/value.c        | 18 ++++++++++++++++++
 src/value.h        |  2 ++
 10 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/event_lexer.c b/src/event_lexer.c
index 60810a9..cb31620 100644
--- a/src/event_lexer.c
+++ b/src/event_lexer.c
@@ -677,7 +677,7 @@ static const flex_int16_t yy_chk[79] =
         memcpy(yylval->string, yytext + 1, yyleng - 2);\
         yylval->string[yyleng - 2] = 0;\
     }
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = integer_magnitude(yytext)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE ZZSTYPE
diff --git a/src/event_lexer.l b/src/event_lexer.l
index 4c11217..39c8ad4 100644
--- a/src/event_lexer.l
+++ b/src/event_lexer.l
@@ -8,7 +8,7 @@
         memcpy(yylval->string, yytext + 1, yyleng - 2);\
         yylval->string[yyleng - 2] = 0;\
     }
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = integer_magnitude(yytext)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE ZZSTYPE
diff --git a/src/event_parser.c b/src/event_parser.c
index 84e3e00..ca70a80 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -1614,13 +1614,13 @@ yyreduce:
 
   case 19:
 #line 120 "src/event_parser.y"
-                                                            { (yyval.integer_value) = (yyvsp[0].integer_value); }
+                                                            { (yyval.integer_value) = integer_literal((yyvsp[0].integer_value), false); }
 #line 1619 "src/event_parser.c"
     break;
 
   case 20:
 #line 121 "src/event_parser.y"
-                                                            { (yyval.integer_value) = - (yyvsp[0].integer_value); }
+                                                            { (yyval.integer_value) = integer_literal((yyvsp[0].integer_value), true); }
 #line 1625 "src/event_parser.c"
     break;
 
diff --git a/src/event_parser.y b/src/event_parser.y
index 5c1c2ef..87fb797 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -117,8 +117,8 @@ boolean             : EVENT_TRUE                            { $$ = true; }
                     | EVENT_FALSE                           { $$ = false; }
 ;                       
 
-integer             : EVENT_INTEGER                         { $$ = $1; }
-                    | EVENT_MINUS EVENT_INTEGER             { $$ = - $2; }
+integer             : EVENT_INTEGER                         { $$ = integer_literal($1, false); }
+                    | EVENT_MINUS EVENT_INTEGER             { $$ = integer_literal($2, true); }
 ;                       
 
 float               : EVENT_FLOAT                           { $$ = $1; }
diff --git a/src/lexer.c b/src/lexer.c
index 9661314..9381d01 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -759,7 +759,7 @@ static const flex_int16_t yy_chk[239] =
         yylval->string[yyleng - 2] = 0;\
     }
     #define SAVE_IDENTIFIER yylval->string = bstrdup(yytext)
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = integer_magnitude(yytext)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE XXSTYPE
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..bf8f820 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -9,7 +9,7 @@
         yylval->string[yyleng - 2] = 0;\
     }
     #define SAVE_IDENTIFIER yylval->string = bstrdup(yytext)
-    #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
+    #define SAVE_INTEGER yylval->integer_value = integer_magnitude(yytext)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
     #define YYSTYPE XXSTYPE
diff --git a/src/parser.c b/src/parser.c
index 6c74de6..69d3102 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1461,13 +1461,13 @@ yyreduce:
 
   case 4:
 #line 100 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.integer_value) = (yyvsp[0].integer_value); }
+    { (yyval.integer_value) = integer_literal((yyvsp[0].integer_value), false); }
 #line 1466 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 5:
 #line 101 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.integer_value) = - (yyvsp[0].integer_value); }
+    { (yyval.integer_value) = integer_literal((yyvsp[0].integer_value), true); }
 #line 1472 "src/parser.c" /* yacc.c:1646  */
     break;
 
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..769d00e 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -97,8 +97,8 @@ program             : expr                                  { *root = $1; }
 
 ident               : TIDENTIFIER                           { $$ = $1; }
 
-integer             : TINTEGER                              { $$ = $1; }
-                    | TMINUS TINTEGER                       { $$ = - $2; }
+integer             : TINTEGER                              { $$ = integer_literal($1, false); }
+                    | TMINUS TINTEGER                       { $$ = integer_literal($2, true); }
 ;
 
 float               : TFLOAT                                { $$ = $1; }
diff --git a/src/value.c b/src/value.c
index a5bdd80..c76997e 100644
--- a/src/value.c
+++ b/src/value.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <inttypes.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -9,6 +10,23 @@
 #include "utils.h"
 #include "value.h"
 
+// INT64_MIN stands for everything larger than INT64_MAX
+int64_t integer_magnitude(const char* digits)
+{
+    errno = 0;
+    int64_t magnitude = strtoll(digits, NULL, 10);
+    return errno == ERANGE ? INT64_MIN : magnitude;
+}
+
+// A literal outside the range of an integer is the closest integer
+int64_t integer_literal(int64_t magnitude, bool negative)
+{
+    if(magnitude == INT64_MIN) {
+        return negative ? INT64_MIN : INT64_MAX;
+    }
+    return negative ? -magnitude : magnitude;
+}
+
 struct betree_integer_list* make_integer_list()
 {
     struct betree_integer_list* value = bcalloc(sizeof(*value));
diff --git a/src/value.h b/src/value.h
index 4505b96..faad32e 100644
--- a/src/value.h
+++ b/src/value.h
@@ -112,6 +112,8 @@ struct value_bound {
     };
 };
 
+int64_t integer_magnitude(const char* digits);
+int64_t integer_literal(int64_t magnitude, bool negative);
 struct betree_integer_list* make_integer_list();
 struct betree_string_list* make_string_list();
 struct betree_segments* make_segments();
-- 
2.43.0


From 003574785e54f52a30ca9f3efd3038907cb61a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 21/30] fix: refuse an expression with an unknown character

---
 src/lexer.c | 2 +-
 src/lexer.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 9381d01..06ddd4d 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return TOKEN((unsigned char)yytext[0]);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index bf8f820..e7337eb 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return TOKEN((unsigned char)yytext[0]);
 
 %%
 
-- 
2.43.0


From 58bb5d7a1be9dc2c1cae1ef22e4afcf6827ea079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 22/30] fix: read not before a name that starts with in

---
 src/lexer.c | 265 ++++++++++++++++++++++++++--------------------------
 src/lexer.h |   2 +-
 src/lexer.l |   1 +
 3 files changed, 137 insertions(+), 131 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 06ddd4d..6b3ba07 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -561,8 +561,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 40
-#define YY_END_OF_BUFFER 41
+#define YY_NUM_RULES 41
+#define YY_END_OF_BUFFER 42
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -570,27 +570,27 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[175] =
+static const flex_int16_t yy_accept[176] =
     {   0,
-        0,    0,   41,   39,    1,    1,   39,   39,   39,   16,
-       17,   18,    9,   37,   14,   10,   12,   36,   36,   36,
-       36,   36,   36,   36,   36,   36,   36,   36,   36,   39,
-        0,   34,    0,   24,    0,   35,    0,   38,   37,   15,
-       11,   13,   36,   36,   36,   36,   36,   36,   36,   20,
-       36,   36,   36,   27,   36,   36,   36,   36,   26,   38,
-       36,   25,   36,   36,   36,   36,    0,   36,   28,   36,
-       36,   36,   36,   36,    0,   36,   36,   36,   36,    0,
-        0,   36,    0,    0,   36,   36,   32,   36,    0,   36,
-       36,   33,   36,    0,    0,    0,    0,    0,    0,   36,
-
-       36,   36,   23,   36,   36,   36,    0,    0,    0,    0,
-       19,   21,   36,   36,   36,   36,   36,   36,    0,    0,
-       30,   22,   36,   36,   36,    6,   36,   36,   31,    0,
-       36,   36,   36,    8,   36,    0,   36,   36,   36,   36,
-       36,    0,   36,   36,   36,   36,   36,   29,   36,   36,
-        7,   36,   36,   36,   36,   36,   36,   36,   36,   36,
-       36,    4,    3,   36,   36,   36,   36,   36,    5,   36,
-       36,   36,    2,    0
+        0,    0,   42,   40,    1,    1,   40,   40,   40,   16,
+       17,   18,    9,   38,   14,   10,   12,   37,   37,   37,
+       37,   37,   37,   37,   37,   37,   37,   37,   37,   40,
+        0,   35,    0,   25,    0,   36,    0,   39,   38,   15,
+       11,   13,   37,   37,   37,   37,   37,   37,   37,   21,
+       37,   37,   37,   28,   37,   37,   37,   37,   27,   39,
+       37,   26,   37,   37,   37,   37,    0,   37,   29,   37,
+       37,   37,   37,   37,    0,   37,   37,   37,   37,    0,
+        0,   37,    0,    0,   37,   37,   33,   37,    0,   37,
+       37,   34,   37,    0,    0,    0,    0,    0,    0,   37,
+
+       37,   37,   24,   37,   37,   37,    0,    0,    0,    0,
+       19,   22,   37,   37,   37,   37,   37,   37,    0,    0,
+       31,   23,   20,   37,   37,   37,    6,   37,   37,   32,
+        0,   37,   37,   37,    8,   37,    0,   37,   37,   37,
+       37,   37,    0,   37,   37,   37,   37,   37,   30,   37,
+       37,    7,   37,   37,   37,   37,   37,   37,   37,   37,
+       37,   37,    4,    3,   37,   37,   37,   37,   37,    5,
+       37,   37,   37,    2,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -634,53 +634,53 @@ static const YY_CHAR yy_meta[42] =
         1
     } ;
 
-static const flex_int16_t yy_base[178] =
+static const flex_int16_t yy_base[180] =
     {   0,
-        0,    0,  196,  197,  197,  197,   37,  189,   36,  197,
-      197,  197,  197,   32,   31,  197,  179,    0,   19,  161,
-      161,  171,  166,   20,  157,   18,   28,  153,  159,  145,
-       52,  197,  182,  197,   51,  197,  181,  170,   47,  197,
-      197,  197,    0,  153,  158,  149,  156,  149,  145,    0,
-      172,   30,  151,    0,  148,  153,  134,  134,  197,  157,
-      165,    0,  131,  131,  130,  146,   40,  140,  159,  158,
-      131,  125,  135,  131,  125,  136,  136,  130,  114,  122,
-       30,  147,  122,  117,  124,  110,    0,  118,  120,  116,
-      104,    0,  114,  108,  103,  110,  106,  106,  111,  104,
-
-       98,  102,  197,  101,  103,   93,   92,  124,   98,  101,
-      197,  197,   88,  105,  104,   86,   84,   93,   79,   87,
-      197,  197,   98,   77,   90,    0,   87,   85,  197,   74,
-       42,   83,   75,    0,   78,   79,   83,   78,   68,   80,
-       84,   73,   76,   63,   72,   64,   62,  197,   64,   68,
-        0,   56,   73,   57,   63,   66,   66,   64,   56,   55,
-       52,    0,    0,   57,   40,   37,   40,   56,    0,   52,
-       53,   39,    0,  197,   81,   83,   64
+        0,    0,  197,  198,  198,  198,   37,  190,   36,  198,
+      198,  198,  198,   32,   31,  198,  180,    0,   19,  162,
+      162,  172,  167,   20,  158,   18,   28,  154,  160,  146,
+       52,  198,  183,  198,   51,  198,  182,  171,   47,  198,
+      198,  198,    0,  154,  159,  150,  157,  150,  146,    0,
+      173,   30,  152,    0,  149,  154,  135,  135,  198,  158,
+      166,    0,  132,  132,  131,  147,   40,  141,  160,  159,
+      132,  126,  136,  132,  126,  137,  137,  131,  115,  123,
+       30,  148,  123,  118,  125,  111,    0,  119,  121,  117,
+      105,    0,  115,  109,  104,  111,  107,  107,  112,  105,
+
+       99,  103,  198,  102,  104,   94,   93,  125,   99,  102,
+        0,  198,   89,  106,  105,   87,   85,   94,   80,   88,
+      198,  198,    0,   99,   78,   91,    0,   88,   86,  198,
+       75,   42,   84,   76,    0,   79,   80,   84,   79,   69,
+       81,   85,   74,   77,   64,   73,   65,   63,  198,   65,
+       69,    0,   57,   74,   58,   64,   67,   67,   65,   57,
+       56,   58,    0,    0,   58,   41,   38,   41,   57,    0,
+       53,   54,   40,    0,  198,   81,   83,   70,   64
     } ;
 
-static const flex_int16_t yy_def[178] =
+static const flex_int16_t yy_def[180] =
     {   0,
-      174,    1,  174,  174,  174,  174,  175,  174,  176,  174,
-      174,  174,  174,  174,  174,  174,  174,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  174,
-      175,  174,  175,  174,  176,  174,  176,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  177,  174,  177,  177,  177,
-      177,  177,  177,  177,  174,  177,  177,  177,  177,  174,
-      174,  177,  174,  174,  177,  177,  177,  177,  174,  177,
-      177,  177,  177,  174,  174,  174,  174,  174,  174,  177,
-
-      177,  177,  174,  177,  177,  177,  174,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  174,  177,  177,  177,  177,
-      177,  174,  177,  177,  177,  177,  177,  174,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,    0,  174,  174,  174
+      175,    1,  175,  175,  175,  175,  176,  175,  177,  175,
+      175,  175,  175,  175,  175,  175,  175,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  175,
+      176,  175,  176,  175,  177,  175,  177,  175,  175,  175,
+      175,  175,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  175,  175,
+      178,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  178,  178,  175,  178,  178,  178,  178,  175,
+      175,  178,  175,  175,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  175,  175,  175,  175,  175,  175,  178,
+
+      178,  178,  175,  178,  178,  178,  175,  175,  175,  175,
+      179,  175,  178,  178,  178,  178,  178,  178,  175,  175,
+      175,  175,  179,  178,  178,  178,  178,  178,  178,  175,
+      175,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  175,  178,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,    0,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_nxt[239] =
+static const flex_int16_t yy_nxt[240] =
     {   0,
         4,    5,    6,    5,    7,    8,    9,   10,   11,   12,
        13,    4,   14,   15,   16,   17,   18,    4,   18,   19,
@@ -688,29 +688,29 @@ static const flex_int16_t yy_nxt[239] =
        25,   26,   18,   18,   18,   27,   28,   18,   29,   18,
        30,   32,   36,   38,   39,   40,   41,   44,   53,   45,
        50,   55,   54,   37,   33,   51,   32,   36,   38,   39,
-       68,   95,  137,   80,   56,   43,   69,   96,   37,   33,
-       81,  173,  172,  171,  170,  169,  168,  167,  166,  165,
-      138,   31,   31,   35,   35,  164,  163,  162,  161,  160,
-      159,  158,  157,  156,  155,  154,  153,  152,  151,  150,
-
-      149,  148,  147,  146,  145,  144,  143,  142,  141,  140,
-      139,  136,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  124,  123,  122,  121,  120,  119,  118,
-      117,  116,  115,  114,  113,  112,  111,  110,  109,  108,
-      107,  106,  105,  104,  103,  102,  101,  100,   99,   98,
-       97,   94,   93,   92,   91,   90,   89,   88,   87,   86,
-       85,   84,   83,   82,   79,   78,   77,   76,   75,   60,
-       74,   73,   72,   71,   70,   67,   66,   65,   64,   63,
-       62,   61,   60,  174,  174,   59,   58,   57,   52,   49,
-       48,   47,   46,   42,   34,  174,    3,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       68,   95,  138,   80,   56,  123,   69,   96,   37,   33,
+       81,   43,  174,  173,  172,  171,  170,  169,  168,  167,
+      139,   31,   31,   35,   35,  166,  165,  164,  163,  162,
+      161,  160,  159,  158,  157,  156,  155,  154,  153,  152,
+
+      151,  150,  149,  148,  147,  146,  145,  144,  143,  142,
+      141,  140,  137,  136,  135,  134,  133,  132,  131,  130,
+      129,  128,  127,  126,  125,  124,  122,  121,  120,  119,
+      118,  117,  116,  115,  114,  113,  112,  111,  110,  109,
+      108,  107,  106,  105,  104,  103,  102,  101,  100,   99,
+       98,   97,   94,   93,   92,   91,   90,   89,   88,   87,
+       86,   85,   84,   83,   82,   79,   78,   77,   76,   75,
+       60,   74,   73,   72,   71,   70,   67,   66,   65,   64,
+       63,   62,   61,   60,  175,  175,   59,   58,   57,   52,
+       49,   48,   47,   46,   42,   34,  175,    3,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_chk[239] =
+static const flex_int16_t yy_chk[240] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -718,26 +718,26 @@ static const flex_int16_t yy_chk[239] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    7,    9,   14,   14,   15,   15,   19,   26,   19,
        24,   27,   26,    9,    7,   24,   31,   35,   39,   39,
-       52,   81,  131,   67,   27,  177,   52,   81,   35,   31,
-       67,  172,  171,  170,  168,  167,  166,  165,  164,  161,
-      131,  175,  175,  176,  176,  160,  159,  158,  157,  156,
-      155,  154,  153,  152,  150,  149,  147,  146,  145,  144,
-
-      143,  142,  141,  140,  139,  138,  137,  136,  135,  133,
-      132,  130,  128,  127,  125,  124,  123,  120,  119,  118,
-      117,  116,  115,  114,  113,  110,  109,  108,  107,  106,
-      105,  104,  102,  101,  100,   99,   98,   97,   96,   95,
-       94,   93,   91,   90,   89,   88,   86,   85,   84,   83,
-       82,   80,   79,   78,   77,   76,   75,   74,   73,   72,
-       71,   70,   69,   68,   66,   65,   64,   63,   61,   60,
-       58,   57,   56,   55,   53,   51,   49,   48,   47,   46,
-       45,   44,   38,   37,   33,   30,   29,   28,   25,   23,
-       22,   21,   20,   17,    8,    3,  174,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       52,   81,  132,   67,   27,  179,   52,   81,   35,   31,
+       67,  178,  173,  172,  171,  169,  168,  167,  166,  165,
+      132,  176,  176,  177,  177,  162,  161,  160,  159,  158,
+      157,  156,  155,  154,  153,  151,  150,  148,  147,  146,
+
+      145,  144,  143,  142,  141,  140,  139,  138,  137,  136,
+      134,  133,  131,  129,  128,  126,  125,  124,  120,  119,
+      118,  117,  116,  115,  114,  113,  110,  109,  108,  107,
+      106,  105,  104,  102,  101,  100,   99,   98,   97,   96,
+       95,   94,   93,   91,   90,   89,   88,   86,   85,   84,
+       83,   82,   80,   79,   78,   77,   76,   75,   74,   73,
+       72,   71,   70,   69,   68,   66,   65,   64,   63,   61,
+       60,   58,   57,   56,   55,   53,   51,   49,   48,   47,
+       46,   45,   44,   38,   37,   33,   30,   29,   28,   25,
+       23,   22,   21,   20,   17,    8,    3,  175,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1078,13 +1078,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 175 )
+				if ( yy_current_state >= 176 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 197 );
+		while ( yy_base[yy_current_state] != 198 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1207,27 +1207,27 @@ return TOKEN(TNOTIN);
 case 20:
 YY_RULE_SETUP
 #line 54 "src/lexer.l"
-return TOKEN(TIN);
+yyless(3); return TOKEN(TNOT);
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
 #line 55 "src/lexer.l"
-return TOKEN(TONEOF);
+return TOKEN(TIN);
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
 #line 56 "src/lexer.l"
-return TOKEN(TNONEOF);
+return TOKEN(TONEOF);
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 57 "src/lexer.l"
-return TOKEN(TALLOF);
+return TOKEN(TNONEOF);
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 58 "src/lexer.l"
-return TOKEN(TAND);
+return TOKEN(TALLOF);
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1237,7 +1237,7 @@ return TOKEN(TAND);
 case 26:
 YY_RULE_SETUP
 #line 60 "src/lexer.l"
-return TOKEN(TOR);
+return TOKEN(TAND);
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
@@ -1247,38 +1247,37 @@ return TOKEN(TOR);
 case 28:
 YY_RULE_SETUP
 #line 62 "src/lexer.l"
-return TOKEN(TNOT);
+return TOKEN(TOR);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
 #line 63 "src/lexer.l"
-return TOKEN(TISNOTNULL);
+return TOKEN(TNOT);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
 #line 64 "src/lexer.l"
-return TOKEN(TISNULL);
+return TOKEN(TISNOTNULL);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
 #line 65 "src/lexer.l"
-return TOKEN(TISEMPTY);
+return TOKEN(TISNULL);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
 #line 66 "src/lexer.l"
-return TOKEN(TTRUE);
+return TOKEN(TISEMPTY);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
 #line 67 "src/lexer.l"
-return TOKEN(TFALSE);
+return TOKEN(TTRUE);
 	YY_BREAK
 case 34:
-/* rule 34 can match eol */
 YY_RULE_SETUP
 #line 68 "src/lexer.l"
-SAVE_STRING; return TSTRING;
+return TOKEN(TFALSE);
 	YY_BREAK
 case 35:
 /* rule 35 can match eol */
@@ -1287,31 +1286,37 @@ YY_RULE_SETUP
 SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
 #line 70 "src/lexer.l"
-SAVE_IDENTIFIER; return TIDENTIFIER;
+SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
 #line 71 "src/lexer.l"
-SAVE_INTEGER; return TINTEGER;
+SAVE_IDENTIFIER; return TIDENTIFIER;
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
 #line 72 "src/lexer.l"
-SAVE_FLOAT; return TFLOAT;
+SAVE_INTEGER; return TINTEGER;
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); return TOKEN((unsigned char)yytext[0]);
+SAVE_FLOAT; return TFLOAT;
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 75 "src/lexer.l"
+#line 74 "src/lexer.l"
+printf("Unknown token! (%s)\n", yytext); return TOKEN((unsigned char)yytext[0]);
+	YY_BREAK
+case 41:
+YY_RULE_SETUP
+#line 76 "src/lexer.l"
 ECHO;
 	YY_BREAK
-#line 1315 "src/lexer.c"
+#line 1320 "src/lexer.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1610,7 +1615,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 175 )
+			if ( yy_current_state >= 176 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1639,11 +1644,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 175 )
+		if ( yy_current_state >= 176 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 174);
+	yy_is_jam = (yy_current_state == 175);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -2492,7 +2497,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 75 "src/lexer.l"
+#line 76 "src/lexer.l"
 
 
 #if defined(__clang__)
diff --git a/src/lexer.h b/src/lexer.h
index 6552436..d9f6143 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -712,7 +712,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 75 "src/lexer.l"
+#line 76 "src/lexer.l"
 
 
 #line 719 "src/lexer.h"
diff --git a/src/lexer.l b/src/lexer.l
index e7337eb..5102436 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -51,6 +51,7 @@
 ")"                         return TOKEN(TRPAREN);
 ","                         return TOKEN(TCOMMA);
 "not in"                    return TOKEN(TNOTIN);
+"not in"[a-zA-Z0-9_-]+      yyless(3); return TOKEN(TNOT);
 "in"                        return TOKEN(TIN);
 "one of"                    return TOKEN(TONEOF);
 "none of"                   return TOKEN(TNONEOF);
-- 
2.43.0


From 577d42227655a0aab369a92aada29c4eec873f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 23/30] fix: free what was read of an expression that does not
 parse

---
 src/ast.c    | 39 +++++++++++++++++++++----------
 src/ast.h    |  3 +++
 src/parser.c | 65 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 src/parser.y | 15 ++++++++++++
 4 files changed, 109 insertions(+), 13 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 5268bcf..0578527 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -276,52 +276,67 @@ static void free_special_expr(struct ast_special_expr special_expr)
     }
 }
 
-static void free_set_expr(struct ast_set_expr set_expr)
+void free_set_left_value(struct set_left_value left_value)
 {
-    switch(set_expr.left_value.value_type) {
+    switch(left_value.value_type) {
         case AST_SET_LEFT_VALUE_INTEGER: {
             break;
         }
         case AST_SET_LEFT_VALUE_STRING: {
-            bfree((char*)set_expr.left_value.string_value.string);
+            bfree((char*)left_value.string_value.string);
             break;
         }
         case AST_SET_LEFT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.left_value.variable_value);
+            free_attr_var(left_value.variable_value);
             break;
         }
         default: abort();
     }
-    switch(set_expr.right_value.value_type) {
+}
+
+void free_set_right_value(struct set_right_value right_value)
+{
+    switch(right_value.value_type) {
         case AST_SET_RIGHT_VALUE_INTEGER_LIST: {
-            free_integer_list(set_expr.right_value.integer_list_value);
+            free_integer_list(right_value.integer_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_STRING_LIST: {
-            free_string_list(set_expr.right_value.string_list_value);
+            free_string_list(right_value.string_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.right_value.variable_value);
+            free_attr_var(right_value.variable_value);
             break;
         }
         default: abort();
     }
 }
 
-static void free_list_expr(struct ast_list_expr list_expr)
+static void free_set_expr(struct ast_set_expr set_expr)
 {
-    switch(list_expr.value.value_type) {
+    free_set_left_value(set_expr.left_value);
+    free_set_right_value(set_expr.right_value);
+}
+
+void free_list_value(struct list_value value)
+{
+    switch(value.value_type) {
         case AST_LIST_VALUE_INTEGER_LIST: {
-            free_integer_list(list_expr.value.integer_list_value);
+            free_integer_list(value.integer_list_value);
             break;
         }
         case AST_LIST_VALUE_STRING_LIST: {
-            free_string_list(list_expr.value.string_list_value);
+            free_string_list(value.string_list_value);
             break;
         }
         default: abort();
     }
+}
+
+static void free_list_expr(struct ast_list_expr list_expr)
+{
+    free_list_value(list_expr.value);
     free_attr_var(list_expr.attr_var);
 }
 
diff --git a/src/ast.h b/src/ast.h
index acda1a8..3aa867f 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -317,6 +317,9 @@ struct ast_node* ast_special_string_create(
 
 struct ast_node* ast_is_null_expr_create(enum ast_is_null_e type, const char* name);
 
+void free_set_left_value(struct set_left_value left_value);
+void free_set_right_value(struct set_right_value right_value);
+void free_list_value(struct list_value value);
 void free_ast_node(struct ast_node* node);
 
 bool match_node(const struct betree_variable** preds,
diff --git a/src/parser.c b/src/parser.c
index 69d3102..617c2c0 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1188,7 +1188,66 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+          case 33: /* TSTRING  */
+          case 34: /* TIDENTIFIER  */
+          case 39: /* ident  */
+      { bfree(yyvaluep->string); }
+        break;
+
+          case 42: /* string  */
+      { bfree((char*)yyvaluep->string_value.string); }
+        break;
+
+          case 43: /* integer_list_value  */
+          case 44: /* integer_list_loop  */
+      { free_integer_list(yyvaluep->integer_list_value); }
+        break;
+
+          case 45: /* string_list_value  */
+          case 46: /* string_list_loop  */
+      { free_string_list(yyvaluep->string_list_value); }
+        break;
+
+          case 51: /* eq_value  */
+      { if(yyvaluep->equality_value.value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)yyvaluep->equality_value.string_value.string); }
+        break;
+
+          case 53: /* variable_value  */
+      { free_attr_var(yyvaluep->variable_value); }
+        break;
+
+          case 54: /* set_left_value  */
+      { free_set_left_value(yyvaluep->set_left_value); }
+        break;
+
+          case 55: /* set_right_value  */
+      { free_set_right_value(yyvaluep->set_right_value); }
+        break;
+
+          case 57: /* list_value  */
+      { free_list_value(yyvaluep->list_value); }
+        break;
+
+          case 47: /* expr  */
+          case 48: /* is_null_expr  */
+          case 50: /* num_comp_expr  */
+          case 52: /* eq_expr  */
+          case 56: /* set_expr  */
+          case 58: /* list_expr  */
+          case 59: /* bool_expr  */
+          case 60: /* special_expr  */
+          case 61: /* s_frequency_expr  */
+          case 62: /* s_segment_expr  */
+          case 63: /* s_geo_expr  */
+          case 64: /* s_string_expr  */
+      { free_ast_node(yyvaluep->node); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -2143,6 +2202,7 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
+    *node = NULL;
     int rc = xxparse(scanner, node);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
@@ -2151,6 +2211,9 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        // The expression may have been complete before the error
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index 769d00e..23b7215 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -84,6 +84,17 @@
 %type<integer_list_value> integer_list_value integer_list_loop
 %type<string_list_value> string_list_value string_list_loop
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)$$.string_value.string); } <equality_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { free_set_left_value($$); } <set_left_value>
+%destructor { free_set_right_value($$); } <set_right_value>
+%destructor { free_list_value($$); } <list_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { free_ast_node($$); } <node>
+
 %left TCEQ TCNE TCGT TCGE TCLT TCLE
 %left TOR
 %left TAND 
@@ -242,6 +253,7 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
+    *node = NULL;
     int rc = xxparse(scanner, node);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
@@ -250,6 +262,9 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        // The expression may have been complete before the error
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
-- 
2.43.0


From 66056a4ea11dd80fa8395194c5840623bdc9837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:39 +0000
Subject: [PATCH 24/30] fix: assign ids only to expressions that are accepted

---
 src/ast.c    | 1 +
 src/betree.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0578527..c5ead8b 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2592,6 +2592,7 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
             return (var_type == BETREE_STRING && val_type == AST_EQUALITY_VALUE_STRING)
                 || (var_type == BETREE_FLOAT && val_type == AST_EQUALITY_VALUE_FLOAT)
                 || (var_type == BETREE_INTEGER && val_type == AST_EQUALITY_VALUE_INTEGER)
+                || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER)
                 || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER_ENUM);
         }
         case AST_TYPE_LIST_EXPR: {
diff --git a/src/betree.c b/src/betree.c
index 6c1a49f..846abfc 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -521,8 +521,6 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
-    assign_str_id(tree->config, node, true);
-    assign_ienum_id(tree->config, node, true);
     fix_float_with_no_fractions(tree->config, node);
     if(!all_exprs_valid(tree->config, node)) {
         fprintf(stderr, "Invalid expression found\n");
@@ -534,6 +532,8 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
+    assign_str_id(tree->config, node, true);
+    assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From c85b317fc979d3038a90d51a080ea1a6490de2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 25/30] fix: find attributes declared with upper-case letters

---
 src/tree.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 5f543c0..c81e850 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1,4 +1,3 @@
-#include <ctype.h>
 #include <float.h>
 #include <inttypes.h>
 #include <math.h>
@@ -7,6 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 
 #include "alloc.h"
 #include "ast.h"
@@ -1619,17 +1619,11 @@ const char* get_attr_for_id(const struct config* config, betree_var_t variable_i
 
 betree_var_t try_get_id_for_attr(const struct config* config, const char* attr)
 {
-    char* copy = bstrdup(attr);
-    for(size_t i = 0; copy[i]; i++) {
-        copy[i] = tolower(copy[i]);
-    }
     for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(config->attr_domains[i]->attr_var.attr, copy) == 0) {
-            bfree(copy);
+        if(strcasecmp(config->attr_domains[i]->attr_var.attr, attr) == 0) {
             return i;
         }
     }
-    bfree(copy);
     return INVALID_VAR;
 }
 
-- 
2.43.0


From 51881ba7e464a60767fa796523b40d7f45da9cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:42 +0000
Subject: [PATCH 26/30] fix: copies of special predicates keep the constant id,
 now and position attributes

---
 src/clone.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clone.c b/src/clone.c
index 6213ebf..756f4a9 100644
--- a/src/clone.c
+++ b/src/clone.c
@@ -222,6 +222,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.frequency.op = orig.frequency.op;
             clone->special_expr.frequency.type = orig.frequency.type;
             clone->special_expr.frequency.value = orig.frequency.value;
+            clone->special_expr.frequency.now = clone_attr_var(orig.frequency.now);
+            clone->special_expr.frequency.id = orig.frequency.id;
             break;
         case AST_SPECIAL_SEGMENT:
             clone->special_expr.segment.attr_var = clone_attr_var(orig.segment.attr_var);
@@ -229,6 +231,7 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.segment.op = orig.segment.op;
             clone->special_expr.segment.seconds = orig.segment.seconds;
             clone->special_expr.segment.segment_id = orig.segment.segment_id;
+            clone->special_expr.segment.now = clone_attr_var(orig.segment.now);
             break;
         case AST_SPECIAL_GEO:
             clone->special_expr.geo.has_radius = orig.geo.has_radius;
@@ -236,6 +239,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.geo.longitude = orig.geo.longitude;
             clone->special_expr.geo.op = orig.geo.op;
             clone->special_expr.geo.radius = orig.geo.radius;
+            clone->special_expr.geo.latitude_var = clone_attr_var(orig.geo.latitude_var);
+            clone->special_expr.geo.longitude_var = clone_attr_var(orig.geo.longitude_var);
             break;
         case AST_SPECIAL_STRING:
             clone->special_expr.string.attr_var = clone_attr_var(orig.string.attr_var);
-- 
2.43.0


From 754a07930fa3879ae9f1a84cc8a545b2ed8f96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 27/30] fix: expression equality tells null tests, constant
 ids, string lists and close numbers apart

---
 src/ast.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index c5ead8b..92dc916 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2260,7 +2260,7 @@ static bool eq_compare_value(struct compare_value a, struct compare_value b)
         case AST_COMPARE_VALUE_INTEGER:
             return a.integer_value == b.integer_value;
         case AST_COMPARE_VALUE_FLOAT:
-            return feq(a.float_value, b.float_value);
+            return a.float_value == b.float_value;
         default: abort();
     }
 }
@@ -2274,7 +2274,7 @@ static bool eq_equality_value(struct equality_value a, struct equality_value b)
         case AST_EQUALITY_VALUE_INTEGER:
             return a.integer_value == b.integer_value;
         case AST_EQUALITY_VALUE_FLOAT:
-            return feq(a.float_value, b.float_value);
+            return a.float_value == b.float_value;
         case AST_EQUALITY_VALUE_STRING:
             return a.string_value.var == b.string_value.var
                 && a.string_value.str == b.string_value.str;
@@ -2340,7 +2340,7 @@ static bool eq_string_list(struct betree_string_list* a, struct betree_string_li
         return false;
     }
     for(size_t i = 0; i < a->count; i++) {
-        if(a->strings[i].var == b->strings[i].var && a->strings[i].str != b->strings[i].str) {
+        if(a->strings[i].var != b->strings[i].var || a->strings[i].str != b->strings[i].str) {
             return false;
         }
     }
@@ -2405,16 +2405,17 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
                 && a.frequency.length == b.frequency.length
                 && a.frequency.ns.var == b.frequency.ns.var
                 && a.frequency.ns.str == b.frequency.ns.str && a.frequency.op == b.frequency.op
-                && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value;
+                && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value
+                && a.frequency.id == b.frequency.id;
         case AST_SPECIAL_SEGMENT:
             return a.segment.attr_var.var == b.segment.attr_var.var
                 && a.segment.has_variable == b.segment.has_variable && a.segment.op == b.segment.op
                 && a.segment.seconds == b.segment.seconds
                 && a.segment.segment_id == b.segment.segment_id;
         case AST_SPECIAL_GEO:
-            return a.geo.has_radius == b.geo.has_radius && feq(a.geo.latitude, b.geo.latitude)
-                && feq(a.geo.longitude, b.geo.longitude) && a.geo.op == b.geo.op
-                && feq(a.geo.radius, b.geo.radius);
+            return a.geo.has_radius == b.geo.has_radius && a.geo.latitude == b.geo.latitude
+                && a.geo.longitude == b.geo.longitude && a.geo.op == b.geo.op
+                && a.geo.radius == b.geo.radius;
         case AST_SPECIAL_STRING:
             return a.string.attr_var.var == b.string.attr_var.var && a.string.op == b.string.op
                 && strcmp(a.string.pattern, b.string.pattern) == 0;
@@ -2432,7 +2433,8 @@ bool eq_expr(const struct ast_node* a, const struct ast_node* b)
     }
     switch(a->type) {
         case AST_TYPE_IS_NULL_EXPR:
-            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
+            return a->is_null_expr.type == b->is_null_expr.type
+                && a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
         case AST_TYPE_COMPARE_EXPR: {
             return a->compare_expr.attr_var.var == b->compare_expr.attr_var.var
                 && a->compare_expr.op == b->compare_expr.op
-- 
2.43.0


From 1430b0ebef103c3f0fa2191960d4ed960ed721cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 28/30] fix: compare times far apart without overflow

---
 src/special.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/special.c b/src/special.c
index ce782cf..c5c9846 100644
--- a/src/special.c
+++ b/src/special.c
@@ -8,6 +8,16 @@
 #include "special.h"
 #include "utils.h"
 
+// Whether a - b > c, also when the difference does not fit
+static bool difference_exceeds(int64_t a, int64_t b, int64_t c)
+{
+    int64_t difference;
+    if(__builtin_sub_overflow(a, b, &difference)) {
+        return a > b;
+    }
+    return difference > c;
+}
+
 bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
@@ -27,7 +37,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
             if(!content->timestamp_defined) {
                 return true;
             }
-            if((now - (content->timestamp / 1000000)) > length) {
+            if(difference_exceeds(now, content->timestamp / 1000000, length)) {
                 return true;
             }
             if(value > content->value) {
@@ -44,7 +54,7 @@ bool segment_within(
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id == segment_id) {
-            return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
+            return !difference_exceeds(now, after_seconds, segments->content[i]->timestamp / 1000000);
         }
     }
     return false;
@@ -55,7 +65,7 @@ bool segment_before(
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id == segment_id) {
-            return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
+            return difference_exceeds(now, before_seconds, segments->content[i]->timestamp / 1000000);
         }
     }
     return false;
-- 
2.43.0


From 35a2c228efbe02a6f4c02bbd4614f9860a147692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 29/30] fix: node capacities and partition sizes of 256 and
 more are kept

---
 src/config.c | 2 +-
 src/config.h | 6 +++---
 src/tree.c   | 7 ++++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/config.c b/src/config.c
index 2e7f181..b9153ce 100644
--- a/src/config.c
+++ b/src/config.c
@@ -9,7 +9,7 @@
 #include "memoize.h"
 #include "utils.h"
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size)
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size)
 {
     struct config* config = bcalloc(sizeof(*config));
     if(config == NULL) {
diff --git a/src/config.h b/src/config.h
index 229ee66..65ea8e4 100644
--- a/src/config.h
+++ b/src/config.h
@@ -33,13 +33,13 @@ struct integer_map {
     };
 };
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size);
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size);
 struct config* make_default_config();
 void free_config(struct config* config);
 
 struct config {
-    uint8_t lnode_max_cap;
-    uint8_t partition_min_size;
+    uint64_t lnode_max_cap;
+    uint64_t partition_min_size;
     uint32_t max_domain_for_split;
     struct {
         size_t attr_domain_count;
diff --git a/src/tree.c b/src/tree.c
index c81e850..64bae31 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -789,9 +789,10 @@ static void update_cluster_capacity(const struct config* config, struct lnode* l
         return;
     }
     size_t count = lnode->sub_count;
-    size_t max = smax(config->lnode_max_cap,
-        ceil((double)count / (double)config->lnode_max_cap) * config->lnode_max_cap);
-    lnode->max = max;
+    size_t cap = config->lnode_max_cap;
+    // The count, rounded up to a whole number of capacities
+    size_t rounded = cap == 0 ? count : (count / cap + (count % cap != 0)) * cap;
+    lnode->max = smax(cap, rounded);
 }
 
 static size_t count_subs_with_variable(
-- 
2.43.0


From 49aa67ffbf6b380f07635bc0f83cb9fe6d204f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 30/30] fix: an attribute with capacity 0 takes no value

---
 src/ast.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 92dc916..25e11e2 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2713,9 +2713,14 @@ static bool within_bound(
 {
     // The largest usable id, one less than the number of different values
     size_t smax = config->attr_domains[attr_var.var]->bound.smax;
-    if(smax >= SIZE_MAX - 1) {
+    if(smax == SIZE_MAX - 1) {
         return true;
     }
+    if(smax == SIZE_MAX) {
+        // No value at all was allowed
+        fprintf(stderr, "For attr '%s', no value fits within the bound 0\n", attr_var.attr);
+        return false;
+    }
     size_t needed = 1;
     for(size_t i = 0; i < new_values->count; i++) {
         const struct new_value* value = &new_values->values[i];
-- 
2.43.0

