From e66d331b6ffdfc4611ebebe65d5bb6de3a837f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 01/79] fix: run dynamic-wind guards innermost first when a
 continuation leaves them

---
 src/c/dynwind.cc | 191 ++++++++++++++---------------------------------
 1 file changed, 55 insertions(+), 136 deletions(-)

diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..9aee241 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -24,155 +24,74 @@ SCM_List *copy_wind_chain(SCM_List *chain) {
   return new_chain;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
+// Length of a wind chain
+static int wind_chain_length(SCM_List *chain) {
+  int n = 0;
+  for (; chain; chain = chain->next) {
+    n++;
   }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
-  }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
-  }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
-  }
-  
-  return common;
+  return n;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
-SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
+// The wind chain is innermost first, so what two chains share is a common tail.
+// Compares entries by their data pointer; returns the length of the common tail.
+static int common_tail_length(SCM_List *chain1, SCM_List *chain2) {
+  int len1 = wind_chain_length(chain1);
+  int len2 = wind_chain_length(chain2);
+  for (; len1 > len2; len1--) {
+    chain1 = chain1->next;
   }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->next && pair->next->data) {
-        // Call out_guard
-        SCM *out_guard = pair->next->data;
-        if (is_proc(out_guard)) {
-          auto proc = cast<SCM_Procedure>(out_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
+  for (; len2 > len1; len2--) {
+    chain2 = chain2->next;
+  }
+  int common = len1;
+  for (int left = len1; left > 0; left--) {
+    if (chain1->data != chain2->data) {
+      common = left - 1;
     }
-    to_unwind = to_unwind->next;
+    chain1 = chain1->next;
+    chain2 = chain2->next;
   }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
   return common;
 }
 
-// Rewind wind chain: call in_guard for each entry from common to target
-void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
-  SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
+// Call the in guard (index 0) or the out guard (index 1) of a wind chain entry
+static void call_guard(SCM *entry, int index) {
+  if (!is_pair(entry)) {
+    return;
   }
-  
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
+  SCM_List *node = cast<SCM_List>(entry);
+  if (index == 1) {
+    node = node->next;
   }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
-    auto new_entry = make_list(c->data);
-    new_entry->next = to_rewind;
-    to_rewind = new_entry;
-    c = c->next;
+  if (node && node->data && is_proc(node->data)) {
+    apply_procedure(&g_env, cast<SCM_Procedure>(node->data), nullptr);
   }
-  
-  // Rewind entries (call in_guard) and add to wind chain
-  while (to_rewind) {
-    SCM *entry = to_rewind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data) {
-        // Call in_guard
-        SCM *in_guard = pair->data;
-        if (is_proc(in_guard)) {
-          auto proc = cast<SCM_Procedure>(in_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    
-    // Add to wind chain
-    auto new_entry = make_list(entry);
-    new_entry->next = g_wind_chain;
-    g_wind_chain = new_entry;
-    
-    to_rewind = to_rewind->next;
+}
+
+// Unwind the current wind chain down to what it shares with target, innermost
+// first. Each out guard runs with its own entry already removed.
+// Returns the common tail
+SCM_List *unwind_wind_chain(SCM_List *target) {
+  int common = common_tail_length(g_wind_chain, target);
+  int len = wind_chain_length(g_wind_chain);
+  for (; len > common; len--) {
+    SCM *entry = g_wind_chain->data;
+    g_wind_chain = g_wind_chain->next;
+    call_guard(entry, 1);
+  }
+  return g_wind_chain;
+}
+
+// Rewind wind chain: call in_guard for each entry from common to target,
+// outermost first
+void rewind_wind_chain(SCM_List *common, SCM_List *target) {
+  if (wind_chain_length(target) <= wind_chain_length(common)) {
+    return;
   }
+  rewind_wind_chain(common, target->next);
+  call_guard(target->data, 0);
+  g_wind_chain = target;
 }
 
 // Dynamic-wind special form handler
-- 
2.43.0


From 2233c2209448b2c205eb9f4267bec44393c46486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 02/79] fix: throw runs dynamic-wind after thunks and drops
 every catch it passes

---
 src/c/throw.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..e3c409a 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -13,6 +13,9 @@
 static struct catch_info *g_catch_stack[100];
 static int g_catch_stack_top = 0;
 
+// Defined in dynwind.cc
+SCM_List *unwind_wind_chain(SCM_List *target);
+
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
   jmp_buf buf;           // Jump buffer
@@ -27,6 +30,7 @@ struct catch_info {
   struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  SCM_List *wind_chain;   // Wind chain when the catch was entered
 };
 
 // Structure to hold lazy catch handler information
@@ -70,6 +74,7 @@ SCM *scm_c_catch(SCM *tag,
   info.jbr = &jbr;
   info.handler = handler;
   info.handler_data = handler_data;
+  info.wind_chain = g_wind_chain;
   
   // Create a pair (tag . catch_info) to store in wind chain
   // We'll use a special marker to distinguish catch entries from wind entries
@@ -104,12 +109,14 @@ SCM *scm_c_catch(SCM *tag,
   }
 
   // Push catch_info onto stack
+  const int depth = g_catch_stack_top;
   g_catch_stack[g_catch_stack_top++] = &info;
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
+    // Pop this catch and every catch nested inside it
+    g_catch_stack_top = depth;
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -124,7 +131,7 @@ SCM *scm_c_catch(SCM *tag,
     jbr.active = false;
     
     // Pop from stack
-    g_catch_stack_top--;
+    g_catch_stack_top = depth;
     
     return result;
   }
@@ -178,7 +185,9 @@ SCM *scm_throw(SCM *key, SCM *args) {
     struct catch_info *info = g_catch_stack[i];
     
     if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
+      // Found matching catch - leave the dynamic extents entered since then,
+      // set throw info and jump
+      unwind_wind_chain(info->wind_chain);
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
       longjmp(info->jbr->buf, 1);
-- 
2.43.0


From c6d8397566b180209200cc70695fa0769493690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 03/79] fix: a continuation restores the catches that were
 active when it was captured

---
 src/c/continuation.cc |  5 +++++
 src/c/gc.cc           |  4 ++++
 src/c/pscm.h          |  2 ++
 src/c/pscm_types.h    |  2 ++
 src/c/throw.cc        | 18 ++++++++++++++++++
 src/c/throw.h         |  4 ++++
 6 files changed, 35 insertions(+)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..d2b2b17 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -53,6 +54,9 @@ SCM *scm_make_continuation(int *first) {
   
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
+
+  // Save the active catches
+  cont->catch_stack = scm_save_catch_stack(&cont->catch_depth);
   
   *first = !setjmp(cont->cont_jump_buffer);
   if (*first) {
@@ -63,6 +67,7 @@ SCM *scm_make_continuation(int *first) {
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
     }
+    scm_restore_catch_stack(cont->catch_stack, cont->catch_depth);
     auto ret = cont->arg;
     return ret;
   }
diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..ba1830d 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -744,6 +744,10 @@ static void sweep_cont(GCBlock *block) {
     free(cont->stack_data);
     cont->stack_data = nullptr;
   }
+  if (cont->catch_stack) {
+    free(cont->catch_stack);
+    cont->catch_stack = nullptr;
+  }
 }
 
 // --- GC_SMOB ----------------------------------------------------------
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..765faa7 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -194,6 +194,8 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
   cont->wind_chain = nullptr;
   cont->saved_module = nullptr;
   cont->stack_src = src_addr;
+  cont->catch_stack = nullptr;
+  cont->catch_depth = 0;
   return cont;
 }
 
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..e3c0357 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -96,6 +96,8 @@ struct SCM_Continuation {
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
+  void *catch_stack;    // Active catches when continuation was created (malloc'ed)
+  size_t catch_depth;   // Number of entries in catch_stack
 };
 
 struct SCM_Macro {
diff --git a/src/c/throw.cc b/src/c/throw.cc
index e3c409a..2b631f6 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -137,6 +137,24 @@ SCM *scm_c_catch(SCM *tag,
   }
 }
 
+// Copy of the active catches, for a continuation to restore (malloc'ed)
+void *scm_save_catch_stack(size_t *depth) {
+  *depth = g_catch_stack_top;
+  if (g_catch_stack_top == 0) {
+    return nullptr;
+  }
+  void *copy = malloc(g_catch_stack_top * sizeof(g_catch_stack[0]));
+  memcpy(copy, g_catch_stack, g_catch_stack_top * sizeof(g_catch_stack[0]));
+  return copy;
+}
+
+void scm_restore_catch_stack(void *copy, size_t depth) {
+  if (depth > 0) {
+    memcpy(g_catch_stack, copy, depth * sizeof(g_catch_stack[0]));
+  }
+  g_catch_stack_top = (int)depth;
+}
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args) {
   // First, check for lazy catch handlers in the wind chain
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..dc25b91 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -16,6 +16,10 @@ SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
                  scm_t_catch_handler handler, void *handler_data);
 
+// Save and restore the active catches (used by continuations)
+void *scm_save_catch_stack(size_t *depth);
+void scm_restore_catch_stack(void *copy, size_t depth);
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args);
 
-- 
2.43.0


From 715b2da7a48230b948043273ade39021c28c2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 04/79] fix: the collector keeps what a captured continuation's
 saved stack refers to

---
 src/c/gc.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index ba1830d..1645fbd 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -548,7 +548,16 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  // The saved C stack and registers are live again once the continuation is
+  // invoked: scan them like the running stack.
+  void **words = (void **)cont->stack_data;
+  for (size_t i = 0; words && i < cont->stack_len; i++) {
+    mark_if_valid_block(words[i], stack);
+  }
+  char *regs = (char *)&cont->cont_jump_buffer;
+  for (size_t i = 0; i + sizeof(void *) <= sizeof(jmp_buf); i += sizeof(void *)) {
+    mark_if_valid_block(*(void **)(regs + i), stack);
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From 80877ceb5463b2175af93efa951233a6f7b648fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 05/79] fix: a stale pointer to a reclaimed vector or hash
 table no longer crashes the collector

---
 src/c/gc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 1645fbd..7cee444 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -695,6 +695,7 @@ static void sweep_vector(GCBlock *block) {
   if (vec->elements) {
     delete[] vec->elements;
     vec->elements = nullptr;
+    vec->length = 0;
   }
 }
 
@@ -704,6 +705,7 @@ static void sweep_hash(GCBlock *block) {
   if (ht->buckets) {
     free(ht->buckets);
     ht->buckets = nullptr;
+    ht->capacity = 0;
   }
 }
 
-- 
2.43.0


From 1f48c054c613ef27000610b316b648206cceb521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 06/79] fix: a procedure call evaluates its operands before
 making the frame and checks arity with a rest parameter too

---
 src/c/eval.cc      |  20 +++-
 src/c/procedure.cc | 280 ++++++---------------------------------------
 2 files changed, 51 insertions(+), 249 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..5cf2a53 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -18,16 +18,24 @@ SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM_List *eval_list_with_env(SCM_Environment *env, SCM_List *l) {
-  SCM_List dummy = make_list_dummy();
-  SCM_List *it = &dummy;
+  // Collect the values in reverse first: a continuation captured while a value
+  // is computed may return here again, and must not change an earlier result
+  SCM_List *reversed = nullptr;
   while (l) {
     auto val = eval_with_env(env, l->data);
-    auto next = make_list(val);
-    it->next = next;
-    it = it->next;
+    auto node = make_list(val);
+    node->next = reversed;
+    reversed = node;
     l = l->next;
   }
-  return dummy.next;
+  SCM_List *result = nullptr;
+  while (reversed) {
+    auto node = make_list(reversed->data);
+    node->next = result;
+    result = node;
+    reversed = reversed->next;
+  }
+  return result;
 }
 
 
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..1a06351 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -1,268 +1,62 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Report a call whose argument count does not fit the procedure
+static void report_procedure_mismatch(SCM_Procedure *proc, SCM_List *args) {
+  SCM *call_expr = nullptr;
+  if (proc->name) {
+    SCM_List *call_list = make_list(wrap(proc->name));
+    call_list->next = args;
+    call_expr = wrap(call_list);
+  }
+  report_arg_mismatch(proc->args, args, "Procedure", call_expr, proc->name);
+}
+
 // Apply procedure with already-evaluated arguments (values)
-// This is used by catch/throw handlers, where arguments are already evaluated
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
+  (void)env;
   auto proc_env = make_env(proc->env);
-  auto args_l = proc->args;
-  // args are ALREADY evaluated, so we don't call eval_with_env on them
-  
-  // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
+  SCM_List *args_iter = args;
   bool has_rest_param = false;
-  SCM_Symbol *rest_param_sym = nullptr;
-  SCM_List *penultimate_param = nullptr;
-  bool only_rest_param = false;
-  if (args_l) {
-    SCM_List *last_param = args_l;
-    SCM_List *penultimate = nullptr;
-    while (last_param->next) {
-      penultimate = last_param;
-      last_param = last_param->next;
+
+  for (SCM_List *param = proc->args; param; param = param->next) {
+    if (!is_sym(param->data)) {
+      eval_error("procedure: malformed parameter in lambda list (expected symbol)");
+      return nullptr;
     }
-    
-    if (last_param->is_dotted && is_sym(last_param->data)) {
+    SCM_Symbol *param_sym = cast<SCM_Symbol>(param->data);
+
+    // A dotted last parameter takes the remaining arguments as a list
+    if (param->is_dotted) {
       has_rest_param = true;
-      rest_param_sym = cast<SCM_Symbol>(last_param->data);
-      penultimate_param = penultimate;
-      only_rest_param = (penultimate == nullptr);
+      SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
+      scm_env_insert(proc_env, param_sym, rest_val, /*search_parent=*/false);
+      break;
     }
-  }
-  
-  // Bind regular parameters
-  SCM_List *current_param = args_l;
-  SCM_List *args_iter = args;
-  
-  // Special case: only rest parameter (e.g., (values . things))
-  if (only_rest_param) {
-    // Bind all arguments to the rest parameter (args are already evaluated)
-    SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
-    scm_env_insert(proc_env, rest_param_sym, rest_val, /*search_parent=*/false);
-    
-    // Execute procedure body
-    auto body = proc->body;
-    return eval_with_list(proc_env, body);
-  }
-  
-  // Bind regular parameters (not rest parameter)
-  while (current_param && current_param != penultimate_param && !only_rest_param) {
-    if (!is_sym(current_param->data)) {
-      eval_error("procedure parameter must be a symbol");
-    }
-    SCM_Symbol *param_sym = cast<SCM_Symbol>(current_param->data);
-    
-    if (!args_iter) {
-      eval_error("procedure called with too few arguments");
-    }
-    
-    // args_iter->data is already evaluated
-    scm_env_insert(proc_env, param_sym, args_iter->data, /*search_parent=*/false);
-    
-    current_param = current_param->next;
-    args_iter = args_iter->next;
-  }
-  
-  // Handle penultimate parameter before rest (e.g., for (key . args), bind key)
-  if (has_rest_param && penultimate_param && !only_rest_param) {
-    if (!is_sym(penultimate_param->data)) {
-      eval_error("procedure parameter must be a symbol");
-    }
-    SCM_Symbol *param_sym = cast<SCM_Symbol>(penultimate_param->data);
-    
+
     if (!args_iter) {
-      eval_error("procedure called with too few arguments");
+      report_procedure_mismatch(proc, args);
+      return nullptr;
     }
-    
-    // args_iter->data is already evaluated
     scm_env_insert(proc_env, param_sym, args_iter->data, /*search_parent=*/false);
     args_iter = args_iter->next;
   }
-  
-  // Bind rest parameter if present
-  if (has_rest_param) {
-    // Collect remaining arguments into a list (they are already evaluated)
-    SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
-    scm_env_insert(proc_env, rest_param_sym, rest_val, /*search_parent=*/false);
-  } else {
-    // No rest parameter - check for too many arguments
-    if (args_iter) {
-      eval_error("procedure called with too many arguments");
-    }
-  }
-  
-  // Execute procedure body
-  auto body = proc->body;
-  return eval_with_list(proc_env, body);
-}
 
-// Helper function to apply procedure with arguments
-SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
-  auto proc_env = make_env(proc->env);
-  auto args_l = proc->args;
-  // Save original args for error reporting - create a copy of the list structure
-  // (we only need the structure, not the values, for error reporting)
-  SCM_List *original_args = args; // Save original args pointer for error reporting
-  SCM_List *args_iter = args;     // Use separate iterator for the loop
-  
-  // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
-  // For (a b), the structure is: (a . (b . nil))
-  // For (a b . rest), the structure is: (a . (b . (rest . nil)))
-  // For (. rest), the structure is: (rest . nil) with is_dotted = true
-  // The difference: in (a b . rest), we have 3 nodes, and the last node's data is the rest symbol
-  // In (a b), we have 2 nodes, and the last node's data is b (not a rest symbol)
-  // In (. rest), we have 1 node, and it has is_dotted = true
-  bool has_rest_param = false;
-  SCM_Symbol *rest_param_sym = nullptr;
-  SCM_List *penultimate_param = nullptr;
-  bool only_rest_param = false;  // True if the only parameter is a rest parameter
-  if (args_l) {
-    // Check if the last parameter is a rest parameter by checking is_dotted flag
-    // For (a b . rest): the last node has is_dotted = true
-    // For (a b c): all nodes have is_dotted = false
-    // For (. rest): the only node has is_dotted = true
-    SCM_List *last_param = args_l;
-    SCM_List *penultimate = nullptr;
-    while (last_param->next) {
-      penultimate = last_param;
-      last_param = last_param->next;
-    }
-    
-    // Check if last parameter is marked as dotted (rest parameter)
-    if (last_param->is_dotted && is_sym(last_param->data)) {
-      has_rest_param = true;
-      rest_param_sym = cast<SCM_Symbol>(last_param->data);
-      penultimate_param = penultimate;
-      only_rest_param = (penultimate == nullptr);  // Only rest param if no penultimate
-    }
-  }
-  
-  // Bind regular parameters
-  SCM_List *current_param = args_l;
-  
-  // Special case: only rest parameter (e.g., (values . things))
-  if (only_rest_param) {
-    // Bind all arguments to the rest parameter
-    SCM_List rest_args_dummy = make_list_dummy();
-    SCM_List *rest_args_tail = &rest_args_dummy;
-    while (args_iter) {
-      SCM *arg_val = eval_with_env(env, args_iter->data);
-      SCM_List *node = make_list(arg_val);
-      rest_args_tail->next = node;
-      rest_args_tail = node;
-      args_iter = args_iter->next;
-    }
-    SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();
-    scm_env_insert(proc_env, rest_param_sym, rest_args, /*search_parent=*/false);
-    if (debug_enabled) {
-      SCM_DEBUG_EVAL("bind rest arg ");
-      printf("%s to ", rest_param_sym->data);
-      print_ast(rest_args);
-      printf("\n");
-    }
-  } else {
-    while (args_iter && current_param) {
-      // Check if this is the penultimate parameter before rest parameter
-      if (has_rest_param && current_param == penultimate_param) {
-      // Bind the penultimate parameter
-      if (!is_sym(current_param->data)) {
-        fprintf(stderr, "\nError binding penultimate parameter");
-        if (proc->name) {
-          fprintf(stderr, " in procedure '%s'", proc->name->data);
-        }
-        fprintf(stderr, "\n  Expected a symbol, got: ");
-        print_ast(current_param->data);
-        fprintf(stderr, "\n  Parameter list: ");
-        print_ast(wrap(proc->args));
-        fprintf(stderr, "\n");
-        fflush(stderr);
-        eval_error("procedure: malformed parameter in lambda list (expected symbol)");
-        return nullptr;
-      }
-      auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
-      scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
-      if (debug_enabled) {
-        SCM_DEBUG_EVAL("bind func arg ");
-        printf("%s to ", arg_sym->data);
-        print_ast(arg_val);
-        printf("\n");
-      }
-      args_iter = args_iter->next;
-      current_param = current_param->next;
-      
-      // Now bind all remaining arguments to the rest parameter
-      SCM_List rest_args_dummy = make_list_dummy();
-      SCM_List *rest_args_tail = &rest_args_dummy;
-      while (args_iter) {
-        SCM *arg_val = eval_with_env(env, args_iter->data);
-        SCM_List *node = make_list(arg_val);
-        rest_args_tail->next = node;
-        rest_args_tail = node;
-        args_iter = args_iter->next;
-      }
-      SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();
-      scm_env_insert(proc_env, rest_param_sym, rest_args, /*search_parent=*/false);
-      if (debug_enabled) {
-        SCM_DEBUG_EVAL("bind rest arg ");
-        printf("%s to ", rest_param_sym->data);
-        print_ast(rest_args);
-        printf("\n");
-      }
-        break;
-      }
-      
-      if (!is_sym(current_param->data)) {
-        fprintf(stderr, "\nError binding procedure parameter");
-        if (proc->name) {
-          fprintf(stderr, " in procedure '%s'", proc->name->data);
-        }
-        fprintf(stderr, "\n  Expected a symbol, got: ");
-        print_ast(current_param->data);
-        fprintf(stderr, "\n  Parameter list: ");
-        print_ast(wrap(proc->args));
-        fprintf(stderr, "\n");
-        fflush(stderr);
-        eval_error("procedure: malformed parameter in lambda list (expected symbol)");
-        return nullptr;
-      }
-      auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
-      scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
-      if (debug_enabled) {
-        SCM_DEBUG_EVAL("bind func arg ");
-        printf("%s to ", arg_sym->data);
-        print_ast(arg_val);
-        printf("\n");
-      }
-      args_iter = args_iter->next;
-      current_param = current_param->next;
-    }
-  }
-  
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
-    // Construct the call expression for better error reporting
-    SCM *call_expr = nullptr;
-    if (proc->name) {
-      // Create a list starting with the procedure name
-      SCM_List *call_list = make_list(wrap(proc->name));
-      SCM_List *call_tail = call_list;
-      SCM_List *arg_iter = original_args;
-      while (arg_iter) {
-        SCM_List *arg_node = make_list(arg_iter->data);
-        call_tail->next = arg_node;
-        call_tail = arg_node;
-        arg_iter = arg_iter->next;
-      }
-      call_expr = wrap(call_list);
-    }
-    report_arg_mismatch(proc->args, original_args, "Procedure", call_expr, proc->name);
+  if (!has_rest_param && args_iter) {
+    report_procedure_mismatch(proc, args);
     return nullptr;
   }
 
   return eval_with_list(proc_env, proc->body);
 }
 
+// Helper function to apply procedure with arguments
+// All arguments are evaluated before the procedure's frame is made, so that a
+// continuation captured in an argument never shares the frame
+SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
+  return apply_procedure_with_values(env, proc, eval_list_with_env(env, args));
+}
+
 SCM *scm_c_procedure_name(SCM *arg) {
   if (!is_proc(arg)) {
     eval_error("procedure-name: expected procedure");
-- 
2.43.0


From c9ff6a5973d478fd2aea850e6ca18eb460dfd7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 07/79] fix: multiple values are not a list, and apply and
 continuations take values without evaluating them again

---
 src/c/apply.cc     | 410 ++++++++-------------------------------------
 src/c/error.cc     |   3 +
 src/c/eval.cc      |  60 ++-----
 src/c/eval.h       |   2 +
 src/c/gc.cc        |   1 +
 src/c/print.cc     |   9 +-
 src/c/pscm_types.h |   3 +-
 src/c/values.cc    |  73 +++-----
 8 files changed, 130 insertions(+), 431 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..7cf9d7d 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -12,112 +12,77 @@ SCM *scm_c_apply(SCM_List *args) {
   return nullptr;
 }
 
-// scm_call_0: Call procedure with 0 arguments
-SCM *scm_call_0(SCM *proc) {
+// Apply anything applicable to already-evaluated arguments
+SCM *apply_with_values(SCM_Environment *env, SCM *f, SCM_List *args) {
+  if (is_proc(f)) {
+    return apply_procedure_with_values(env, cast<SCM_Procedure>(f), args);
+  }
+  // The evaluator handles the other cases; quote the arguments so that they are
+  // not evaluated again
+  SCM_List call = make_list_dummy();
+  SCM_List *tail = &call;
+  for (; args; args = args->next) {
+    tail->next = make_list(scm_list2(scm_sym_quote(), args->data));
+    tail = tail->next;
+  }
+  SCM_List *call_list = make_list(f);
+  call_list->next = call.next;
+  return eval_with_env(env, wrap(call_list));
+}
+
+static SCM *call_with_args(const char *who, SCM *proc, SCM_List *args) {
   if (!proc) {
-    eval_error("scm_call_0: procedure is null");
+    eval_error("%s: procedure is null", who);
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    dummy_list.next = nullptr;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_0: expected procedure or function");
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
+    eval_error("%s: expected procedure or function", who);
     return nullptr;
   }
+  return apply_with_values(&g_env, proc, args);
+}
+
+// scm_call_0: Call procedure with 0 arguments
+SCM *scm_call_0(SCM *proc) {
+  return call_with_args("scm_call_0", proc, nullptr);
 }
 
 // scm_call_1: Call procedure with 1 argument
 SCM *scm_call_1(SCM *proc, SCM *arg1) {
-  if (!proc) {
-    eval_error("scm_call_1: procedure is null");
-    return nullptr;
-  }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_1: expected procedure or function");
-    return nullptr;
-  }
+  return call_with_args("scm_call_1", proc, make_list(arg1));
 }
 
 // scm_call_2: Call procedure with 2 arguments
 SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
-  if (!proc) {
-    eval_error("scm_call_2: procedure is null");
-    return nullptr;
-  }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    arg_list->next = make_list(arg2);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_2: expected procedure or function");
-    return nullptr;
-  }
+  SCM_List *args = make_list(arg1);
+  args->next = make_list(arg2);
+  return call_with_args("scm_call_2", proc, args);
 }
 
 // scm_call_3: Call procedure with 3 arguments
 SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
-  if (!proc) {
-    eval_error("scm_call_3: procedure is null");
-    return nullptr;
-  }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    args->next = make_list(arg2);
-    args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    arg_list->next = make_list(arg2);
-    arg_list->next->next = make_list(arg3);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_3: expected procedure or function");
-    return nullptr;
+  SCM_List *args = make_list(arg1);
+  args->next = make_list(arg2);
+  args->next->next = make_list(arg3);
+  return call_with_args("scm_call_3", proc, args);
+}
+
+// Copy the elements of a list argument, so that a rest parameter never shares
+// structure with it
+static SCM_List *copy_arg_list(const char *who, SCM *args) {
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  if (is_pair(args)) {
+    for (SCM_List *l = cast<SCM_List>(args); l; l = l->next) {
+      if (l->is_dotted) {
+        eval_error("%s: last argument must be a proper list", who);
+        return nullptr;
+      }
+      tail->next = make_list(l->data);
+      tail = tail->next;
+    }
   }
+  return dummy.next;
 }
 
 // scm_apply_0: Apply procedure with arguments in a list
@@ -128,35 +93,11 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   }
   
   // args can be nil (empty list) or a pair (list)
-  SCM_List *args_list = nullptr;
-  if (is_pair(args)) {
-    args_list = cast<SCM_List>(args);
-  } else if (!is_nil(args)) {
+  if (!is_pair(args) && !is_nil(args)) {
     eval_error("scm_apply_0: args must be a list or nil");
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    dummy_list.next = args_list;
-    dummy_list.is_dotted = false;
-    // For functions, arguments are already evaluated (this is C API)
-    // So we need to use apply_procedure_with_values if it's a procedure,
-    // or handle it specially for functions
-    // Actually, eval_with_func expects arguments in a specific format
-    // Let's check if we need to use apply_procedure_with_values for procedures
-    // For now, use eval_with_func which should work if args are already evaluated
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_apply_0: expected procedure or function");
-    return nullptr;
-  }
+  return call_with_args("scm_apply_0", proc, copy_arg_list("scm_apply_0", args));
 }
 
 void init_apply() {
@@ -165,239 +106,34 @@ void init_apply() {
 
 // Helper function for apply special form
 // (apply proc arg1 arg2 ... args-list) -> apply proc to (arg1 arg2 ... args-list elements)
-// When called as a function value, l->next contains already-evaluated arguments
+// The arguments of the apply expression itself are evaluated here, once
 SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
-  if (!l->next) {
+  if (!l->next || !l->next->next) {
     eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
+    return nullptr;
   }
   
-  // Arguments are NOT evaluated when coming from eval.cc (whether as symbol or function value)
-  // They are only evaluated when this is a recursive call from within eval_apply itself
-  // For now, always evaluate arguments
-  bool args_evaluated = false;
-  
-  // Evaluate the procedure
-  SCM *proc = eval_with_env(env, l->next->data);
-  
-  // When args are evaluated, proc might already be a procedure or continuation
-  // But we still need to check
-  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
+  SCM_List *vals = eval_list_with_env(env, l->next);
+  SCM *proc = vals->data;
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc) && !is_smob(proc)) {
     eval_error("apply: first argument must be a procedure");
+    return nullptr;
   }
   
-  // Special handling for continuation: it accepts a single argument (a list)
-  if (is_cont(proc)) {
-    if (!l->next->next) {
-      eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
-    }
-    // For continuation, if there's only one argument after proc, use it directly
-    // Otherwise, collect all arguments (before the last one) and the last list
-    if (!l->next->next->next) {
-      // Only one argument: (apply cont things) -> use things directly
-      SCM *arg = eval_with_env(env, l->next->next->data);
-      if (!is_pair(arg) && !is_nil(arg)) {
-        eval_error("apply: last argument must be a list");
-      }
-      scm_dynthrow(proc, arg);
-      return nullptr;
-    }
-    
-    // Multiple arguments: collect them
-    SCM_List *args_before_last = l->next->next;
-    SCM_List *last_arg_node = nullptr;
-    
-    // Find the last argument (which should be a list)
-    SCM_List *current = args_before_last;
-    while (current->next) {
-      current = current->next;
-    }
-    last_arg_node = current;
-    
-    // Evaluate the last argument (should be a list)
-    SCM *last_arg = eval_with_env(env, last_arg_node->data);
-    if (!is_pair(last_arg) && !is_nil(last_arg)) {
-      eval_error("apply: last argument must be a list");
-    }
-    
-    // Build combined list: args_before_last elements + last_arg elements
-    SCM_List args_dummy = make_list_dummy();
-    SCM_List *args_tail = &args_dummy;
-    
-    // Add all arguments before the last one
-    current = args_before_last;
-    while (current != last_arg_node) {
-      SCM *arg_val = eval_with_env(env, current->data);
-      SCM_List *node = make_list(arg_val);
-      args_tail->next = node;
-      args_tail = node;
-      current = current->next;
-    }
-    
-    // Append all elements from the last argument list
-    if (is_pair(last_arg)) {
-      SCM_List *last_list = cast<SCM_List>(last_arg);
-      while (last_list) {
-        SCM *elem = last_list->data;
-        SCM_List *node = make_list(elem);
-        args_tail->next = node;
-        args_tail = node;
-        last_list = last_list->next;
-      }
-    }
-    
-    // Pass the combined list to continuation
-    SCM *combined_list = args_dummy.next ? wrap(args_dummy.next) : scm_nil();
-    scm_dynthrow(proc, combined_list);
-    return nullptr;  // Never reached, but satisfies compiler
-  }
-  
-  // Collect all arguments before the last one
-  SCM_List *args_before_last = l->next->next;
-  SCM_List *last_arg_node = nullptr;
-  
-  // Find the last argument (which should be a list)
-  if (!args_before_last) {
-    eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
-  }
-  
-  SCM_List *current = args_before_last;
-  while (current->next) {
-    current = current->next;
-  }
-  last_arg_node = current;
-  
-  // Evaluate or use the last argument (should be a list)
-  SCM *last_arg;
-  if (args_evaluated) {
-    // Arguments are already evaluated
-    last_arg = last_arg_node->data;
-  } else {
-    // Evaluate the last argument (should be a list)
-    last_arg = eval_with_env(env, last_arg_node->data);
-  }
-  if (!is_pair(last_arg) && !is_nil(last_arg)) {
-    eval_error("apply: last argument must be a list");
-  }
-  
-  // Build the combined argument list
-  // First, evaluate or use all arguments before the last one
+  // All values but the last are arguments; the last is the list of the others
   SCM_List args_dummy = make_list_dummy();
   SCM_List *args_tail = &args_dummy;
-  
-  current = args_before_last;
-  while (current != last_arg_node) {
-    SCM *arg_val;
-    if (args_evaluated) {
-      arg_val = current->data; // Already evaluated
-    } else {
-      arg_val = eval_with_env(env, current->data);
-    }
-    SCM_List *node = make_list(arg_val);
-    args_tail->next = node;
-    args_tail = node;
-    current = current->next;
+  SCM_List *current = vals->next;
+  for (; current->next; current = current->next) {
+    args_tail->next = make_list(current->data);
+    args_tail = args_tail->next;
   }
-  
-  // Then append all elements from the last argument list
-  if (is_pair(last_arg)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg);
-    while (last_list) {
-      SCM *elem;
-      if (args_evaluated) {
-        // Arguments are already evaluated, use directly
-        elem = last_list->data;
-      } else {
-        // Wrap each element in quote to prevent double evaluation
-        elem = scm_list2(scm_sym_quote(), last_list->data);
-      }
-      SCM_List *node = make_list(elem);
-      args_tail->next = node;
-      args_tail = node;
-      last_list = last_list->next;
-    }
-  } else if (args_evaluated && !is_nil(last_arg)) {
-    // When args are evaluated and last_arg is not a pair, it might be a single value
-    // This shouldn't happen for apply, but handle it gracefully
-    SCM_List *node = make_list(last_arg);
-    args_tail->next = node;
+  SCM *last_arg = current->data;
+  if (!is_pair(last_arg) && !is_nil(last_arg)) {
+    eval_error("apply: last argument must be a list");
+    return nullptr;
   }
+  args_tail->next = copy_arg_list("apply", last_arg);
   
-  // Apply the procedure with the combined arguments
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    return apply_procedure(env, proc_obj, args_dummy.next);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    // Special handling for apply: if apply is being applied, we need to handle it specially
-    if (func_obj->name && strcmp(func_obj->name->data, "apply") == 0) {
-      // This is apply being applied - construct a call list and use eval_apply
-      // args_dummy.next contains the arguments for apply: (proc arg1 arg2 ... args-list)
-      // We need to mark that arguments are already evaluated
-      SCM_List apply_call;
-      apply_call.data = proc;
-      apply_call.next = args_dummy.next;
-      // Mark that arguments are already evaluated by setting args_evaluated flag
-      // But we can't pass that flag, so we need to detect it in eval_apply
-      // Actually, we can detect it by checking if l->data is a function (not a symbol)
-      return eval_apply(env, &apply_call);
-    }
-    // Special handling for map: if map is being applied, we need to handle it specially
-    if (func_obj->name && strcmp(func_obj->name->data, "map") == 0) {
-      // This is map being applied - construct a call list and use eval_map
-      // args_dummy.next contains the arguments for map: (proc list1 list2 ...)
-      SCM_List map_call;
-      map_call.data = proc;
-      map_call.next = args_dummy.next;
-      return eval_map(env, &map_call);
-    }
-    // Special handling for call-with-current-continuation: if it's being applied, handle it specially
-    if (func_obj->name && (strcmp(func_obj->name->data, "call-with-current-continuation") == 0 || 
-                           strcmp(func_obj->name->data, "call/cc") == 0)) {
-      // This is call-with-current-continuation being applied
-      // args_dummy.next should contain a single argument (the procedure)
-      if (!args_dummy.next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        return nullptr;
-      }
-      // The argument might be wrapped in quote, so we need to evaluate it
-      SCM *proc_arg_expr = args_dummy.next->data;
-      SCM *proc_arg = eval_with_env(env, proc_arg_expr);
-      if (!proc_arg) {
-        eval_error("call-with-current-continuation: failed to evaluate argument");
-        return nullptr;
-      }
-      if (!is_proc(proc_arg) && !is_func(proc_arg)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        return nullptr;
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        return cont;
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      if (is_proc(proc_arg)) {
-        return apply_procedure(env, cast<SCM_Procedure>(proc_arg), cont_list);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc_arg;
-        func_call.next = evaled_args;
-        return eval_with_func(cast<SCM_Function>(proc_arg), &func_call);
-      }
-    }
-    SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = evaled_args;
-    return eval_with_func(func_obj, &func_call);
-  } else {
-    eval_error("apply: first argument must be a procedure");
-    return nullptr; // Never reached
-  }
+  return apply_with_values(env, proc, args_dummy.next);
 }
-
diff --git a/src/c/error.cc b/src/c/error.cc
index ca81d7e..594abd8 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -159,6 +159,9 @@ const char *get_type_name(SCM::Type type) {
     case SCM::PORT: return "port";
     case SCM::PROMISE: return "promise";
     case SCM::MODULE: return "module";
+    case SCM::SMOB: return "smob";
+    case SCM::VARIABLE: return "variable";
+    case SCM::VALUES: return "multiple values";
     default: return "unknown";
   }
 }
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 5cf2a53..aef36f8 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -129,6 +129,8 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
   return scm_none();
 }
 
+SCM *scm_c_values(SCM_List *args);
+
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
@@ -242,6 +244,10 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
   assert(l->next);
   auto proc = eval_with_env(env, l->next->data);
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
+    eval_error("call-with-current-continuation: argument must be a procedure");
+    return nullptr;
+  }
   int first;
   auto cont = scm_make_continuation(&first);
   SCM_DEBUG_CONT("jump back: ");
@@ -525,7 +531,7 @@ entry:
       // Use try-catch to safely check type
       bool type_valid = false;
       try {
-        if (val->type >= SCM::NONE && val->type <= SCM::MODULE) {
+        if (val->type >= SCM::NONE && val->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -553,10 +559,8 @@ entry:
     }
   }
   else if (is_cont(l->data)) {
-    SCM *cont_arg = scm_nil();
-    if (l->next) {
-      cont_arg = eval_with_env(env, l->next->data);
-    }
+    // What (values ...) makes of the arguments is what the continuation gets
+    SCM *cont_arg = scm_c_values(eval_list_with_env(env, l->next));
     scm_dynthrow(l->data, cont_arg);
     return nullptr;  // Never reached, but satisfies compiler
   }
@@ -633,43 +637,14 @@ entry:
     if (func->name && (strcmp(func->name->data, "call-with-current-continuation") == 0 || 
                        strcmp(func->name->data, "call/cc") == 0)) {
       // For call-with-current-continuation, when called as a function value, arguments are already evaluated
-      // We need to handle it specially, similar to how it's handled as a special form
-      // l->data is the call-with-current-continuation function, l->next contains the already-evaluated arguments
-      if (!l->next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // The argument is already evaluated, so we can use it directly
-      // But we need to create a continuation and call the procedure with it
-      SCM *proc = l->next->data;
-      if (!is_proc(proc) && !is_func(proc)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        RETURN_WITH_CONTEXT(nullptr);
+      if (!l->next || l->next->next) {
+        throw_wrong_number_of_args(func, l->next, nullptr);
       }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        RETURN_WITH_CONTEXT(cont);
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      SCM_List proc_call;
-      proc_call.data = proc;
-      proc_call.next = cont_list;
-      if (is_proc(proc)) {
-        SCM *result = apply_procedure(env, cast<SCM_Procedure>(proc), cont_list);
-        RETURN_WITH_CONTEXT(result);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc;
-        func_call.next = evaled_args;
-        SCM *result = eval_with_func(cast<SCM_Function>(proc), &func_call);
-        RETURN_WITH_CONTEXT(result);
+      auto ret = eval_call_cc(env, l, &ast);
+      if (ret) {
+        RETURN_WITH_CONTEXT(ret);
       }
+      goto entry;
     }
     auto func_argl = eval_list_with_env(env, l->next);
     if (debug_enabled) {
@@ -681,8 +656,9 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    SCM_List *func_call = make_list(l->data);
+    func_call->next = func_argl;
+    SCM *result = eval_with_func(func, func_call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..efa1a8f 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -30,6 +30,8 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l);
 SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 // Apply procedure with already-evaluated arguments (used by catch/throw handlers)
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
+// Apply anything applicable to already-evaluated arguments
+SCM *apply_with_values(SCM_Environment *env, SCM *f, SCM_List *args);
 SCM *eval_with_func(SCM_Function *func, SCM_List *l);
 
 // Macro expansion and definition
diff --git a/src/c/gc.cc b/src/c/gc.cc
index 7cee444..bc746cb 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -490,6 +490,7 @@ static void trace_scm(GCBlock *block, MarkStack *stack) {
   switch (scm->type) {
     // Types whose value field IS a pointer to another GC-managed object.
     case SCM::LIST:
+    case SCM::VALUES:
     case SCM::PROC:
     case SCM::CONT:
     case SCM::FUNC:
diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..6761f4b 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -44,12 +44,19 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
   }
   
   // Check if type is valid (within enum range)
-  if (ast->type < SCM::NONE || ast->type > SCM::VARIABLE) {
+  if (ast->type < SCM::NONE || ast->type > SCM::VALUES) {
     // Invalid type - print error message instead of crashing
     printf("<invalid-type:%d(0x%x)@%p>", ast->type, ast->type, (void *)ast);
     return;
   }
   
+  if (ast->type == SCM::VALUES) {
+    // Multiple values are shown like the list of the values
+    SCM values = *ast;
+    values.type = ast->value ? SCM::LIST : SCM::NIL;
+    _print_ast_with_context(&values, write_mode, ctx);
+    return;
+  }
   if (is_proc(ast)) {
     auto proc = cast<SCM_Procedure>(ast);
     printf("#<");
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index e3c0357..c123ac5 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -36,7 +36,8 @@ struct SCM {
     PROMISE,
     MODULE,
     SMOB,
-    VARIABLE
+    VARIABLE,
+    VALUES // what (values ...) returns for other than one value; value is the SCM_List of values
   } type;
 
   void *value;
diff --git a/src/c/values.cc b/src/c/values.cc
index a7e255a..c5cfc3a 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -1,24 +1,23 @@
 #include "pscm.h"
 #include "eval.h"
 
-// values: Return its arguments as a list
-// This is used by call-with-values to return multiple values
+// values: deliver its arguments to the continuation of the call
+// One value is that value itself; any other number is packed in a VALUES object
+// which call-with-values unpacks.
 SCM *scm_c_values(SCM_List *args) {
-  // Return the arguments as a list
-  if (!args) {
-    return scm_nil();
+  if (args && !args->next) {
+    return args->data;
   }
-  // args is a list where each node's data is an argument
-  // We need to extract the data from each node to build the result list
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
-  SCM_List *current = args;
-  while (current) {
+  for (SCM_List *current = args; current; current = current->next) {
     tail->next = make_list(current->data);
     tail = tail->next;
-    current = current->next;
   }
-  return dummy.next ? wrap(dummy.next) : scm_nil();
+  SCM *ret = scm_list1(scm_nil());
+  ret->type = SCM::VALUES;
+  ret->value = dummy.next;
+  return ret;
 }
 
 // Helper function for call-with-values special form
@@ -32,57 +31,31 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Evaluate producer
   SCM *producer = eval_with_env(env, l->next->data);
-  if (!is_proc(producer) && !is_func(producer)) {
+  if (!is_proc(producer) && !is_func(producer) && !is_cont(producer)) {
     eval_error("call-with-values: first argument must be a procedure");
     return nullptr;
   }
   
-  // Call producer to get values
-  SCM *values_result;
-  if (is_proc(producer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(producer);
-    values_result = apply_procedure(env, proc, nullptr);
-  } else {
-    // Function - need to call it
-    SCM_Function *func = cast<SCM_Function>(producer);
-    SCM_List func_call;
-    func_call.data = producer;
-    func_call.next = nullptr;
-    values_result = eval_with_func(func, &func_call);
-  }
-  
-  // values_result should be a list of values
-  // If it's not a pair, wrap it in a list
-  SCM_List *values_list;
-  if (is_pair(values_result)) {
-    values_list = cast<SCM_List>(values_result);
-  } else if (is_nil(values_result)) {
-    values_list = nullptr;
-  } else {
-    // Single value, wrap in list
-    values_list = make_list(values_result);
-  }
-  
   // Get consumer
   SCM *consumer = eval_with_env(env, l->next->next->data);
-  if (!is_proc(consumer) && !is_func(consumer)) {
+  if (!is_proc(consumer) && !is_func(consumer) && !is_cont(consumer)) {
     eval_error("call-with-values: second argument must be a procedure");
     return nullptr;
   }
   
-  // Apply consumer to the values
-  // Build argument list from values_list
-  if (is_proc(consumer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(consumer);
-    return apply_procedure_with_values(env, proc, values_list);
+  // Call producer to get values
+  SCM *values_result = apply_with_values(env, producer, nullptr);
+  
+  // Unpack multiple values; anything else is a single value
+  SCM_List *values_list;
+  if (values_result->type == SCM::VALUES) {
+    values_list = (SCM_List *)values_result->value;
   } else {
-    // Function - need to call it with the values
-    SCM_Function *func = cast<SCM_Function>(consumer);
-    SCM_List func_call;
-    func_call.data = consumer;
-    func_call.next = values_list;
-    return eval_with_func(func, &func_call);
+    values_list = make_list(values_result);
   }
+  
+  // Apply consumer to the values
+  return apply_with_values(env, consumer, values_list);
 }
 
 void init_values() {
-- 
2.43.0


From eda2179cbef4b4c9a769b02e94a907e5dca35cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 08/79] fix: do binds fresh variables in each iteration, never
 assigns an outer variable and accepts any test value

---
 src/c/do.cc | 139 ++++++++++------------------------------------------
 1 file changed, 27 insertions(+), 112 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..5a7a7ad 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -1,88 +1,17 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Helper function to update do loop variables
-// All update expressions are evaluated first (in parallel), then all variables are updated
-// This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
-  
-  // First pass: evaluate ALL update expressions BEFORE updating any variables
-  // This ensures all update expressions see the old values of all variables
-  // This is critical for correct parallel binding semantics
-  it = var_update_list;
-  while (it->next) {
-    it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
-      return;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
-      return;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
-      return;
-    }
-    auto var_name = cast<SCM_Symbol>(var_update_expr->data);
-    auto var_update_step = var_update_expr->next->data;
-
-    // CRITICAL: Evaluate update expression in current environment (before any updates)
-    // This ensures all update expressions see the old values of all variables
-    auto new_var_val = eval_with_env(do_env, var_update_step);
-    if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
-      return;
-    }
-    
-    if (debug_enabled) {
-      SCM_DEBUG_EVAL("eval do step ... ");
-      print_ast(var_update_step);
-      printf(" --> ");
-      print_ast(new_var_val);
-      printf("\n");
-    }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
-  }
-  
-  // Second pass: update all variables with the pre-computed values
-  // This happens AFTER all update expressions have been evaluated
-  // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+// Make the frame of one iteration: bind each name to the value of its expression.
+// All expressions are evaluated in expr_env first, so that they see the previous
+// iteration's bindings (parallel binding); a new frame per iteration keeps what
+// closures captured in an earlier iteration unchanged.
+static SCM_Environment *make_do_env(SCM_Environment *env, SCM_List *names, SCM_Environment *expr_env, SCM_List *exprs) {
+  SCM_List *values = eval_list_with_env(expr_env, exprs);
+  auto do_env = make_env(env);
+  for (; names; names = names->next, values = values->next) {
+    scm_env_insert(do_env, cast<SCM_Symbol>(names->data), values->data, /*search_parent=*/false);
   }
-  
-  delete[] updates;
+  return do_env;
 }
 
 // Helper function for do special form
@@ -106,11 +35,13 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     print_list(body_clause);
     printf("\n");
   }
-  auto do_env = make_env(env);
-
   auto var_init_it = var_init_l;
-  SCM_List var_update_dummy = make_list_dummy();
-  auto var_update_it = &var_update_dummy;
+  SCM_List names = make_list_dummy();
+  SCM_List inits = make_list_dummy();
+  SCM_List steps = make_list_dummy();
+  auto names_it = &names;
+  auto inits_it = &inits;
+  auto steps_it = &steps;
 
   // Process variable bindings: (var init [step])
   while (var_init_it) {
@@ -126,39 +57,23 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       return nullptr;
     }
     
-    auto var_name = cast<SCM_Symbol>(var_init_expr->data);
-    
-    // Evaluate initial value in the parent environment
     if (!var_init_expr->next) {
       eval_error("do: variable binding must have an initial value");
       return nullptr;
     }
-    auto var_init_val = eval_with_env(env, var_init_expr->next->data);
-    if (!var_init_val) {
-      return nullptr;  // Evaluation error
-    }
+    names_it->next = make_list(var_init_expr->data);
+    names_it = names_it->next;
+    inits_it->next = make_list(var_init_expr->next->data);
+    inits_it = inits_it->next;
     
-    // Check for optional update step
-    SCM *var_update_step = nullptr;
-    if (var_init_expr->next->next) {
-      var_update_step = var_init_expr->next->next->data;
-    }
-
-    // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
-    
-    // Store update step if provided
-    if (var_update_step) {
-      // Store as a list: (var_name var_update_step)
-      SCM *var_name_wrapped = wrap(var_name);
-      SCM *pair = scm_list2(var_name_wrapped, var_update_step);
-      var_update_it->next = make_list(pair);
-      var_update_it = var_update_it->next;
-      var_update_it->next = nullptr;
-    }
+    // Without a step the variable keeps its value
+    steps_it->next = make_list(var_init_expr->next->next ? var_init_expr->next->next->data : var_init_expr->data);
+    steps_it = steps_it->next;
     var_init_it = var_init_it->next;
   }
 
+  auto do_env = make_do_env(env, names.next, env, inits.next);
+
   auto test_clause_list = cast<SCM_List>(test_clause);
   if (!test_clause_list) {
     eval_error("do: test clause must be a list");
@@ -187,7 +102,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   
   // Main loop: continue while test condition is false
   int loop_count = 0;
-  while (is_false(ret)) {
+  while (is_falsy(ret)) {
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
@@ -203,7 +118,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    do_env = make_do_env(env, names.next, do_env, steps.next);
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From 45c64eb660f2b94f46f29d03afc5b984500fae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 09/79] fix: a named let keeps its whole body

---
 src/c/let.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..8112c20 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -43,7 +43,7 @@ SCM *expand_let(SCM *expr) {
     */
     assert(l->next->next->next);
     auto argl = l->next->next->data;
-    auto body = l->next->next->next->data;
+    auto body = wrap(l->next->next->next);
     
     // Handle empty bindings list for named let: (let name () body)
     SCM *params = scm_nil();
@@ -70,7 +70,8 @@ SCM *expand_let(SCM *expr) {
       print_ast(body);
       printf("\n");
     }
-    auto val = scm_list3(scm_sym_lambda(), params, body);
+    auto val = scm_list2(scm_sym_lambda(), params);
+    cast<SCM_List>(val)->next->next = l->next->next->next;
     auto letrec_arg = scm_list2(func_args, val);
     
     // For empty args, just call the function: (name)
-- 
2.43.0


From dd6d42bf4d07e03dd61d6c5863185714dbaa0b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 10/79] fix: for-each goes on past an empty-list element and
 passes one argument per list

---
 src/c/for_each.cc | 57 ++++++++---------------------------------------
 1 file changed, 9 insertions(+), 48 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..e7529b0 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -11,9 +11,9 @@ static int count_list_length(SCM_List *l) {
   return count;
 }
 
-// Helper function to check if a list node is exhausted (nil or null)
+// Helper function to check if a list is exhausted
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
@@ -36,21 +36,12 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
-  // Determine argument count based on procedure/function type
-  if (is_proc(f)) {
-    auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
-  } else if (is_func(f)) {
-    auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
-  } else {
+  if (!is_proc(f) && !is_func(f) && !is_cont(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
+  // One argument per list
+  arg_count = count_list_length(l->next->next);
   
   l = l->next->next;
 
@@ -102,46 +93,16 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
       return nullptr;
     }
 
-    // Build args_dummy structure for function calls (rebuild each iteration to avoid issues with continuations)
+    // Collect one element from each list and advance the list pointers
     SCM_List args_dummy = make_list_dummy();
-    args_dummy.data = f;
     auto args_tail = &args_dummy;
-    
-    // Build argument list with quoted arguments and advance list pointers
     for (int i = 0; i < arg_count; i++) {
-      // Wrap argument in quote to avoid re-evaluation
-      auto quoted_arg = scm_list2(scm_sym_quote(), arg_lists[i]->data);
-      auto arg_node = make_list(quoted_arg);
-      args_tail->next = arg_node;
-      args_tail = arg_node;
+      args_tail->next = make_list(arg_lists[i]->data);
+      args_tail = args_tail->next;
       arg_lists[i] = arg_lists[i]->next;
     }
 
-    // Build and evaluate call expression
-    SCM call_expr;
-    call_expr.type = SCM::LIST;
-    call_expr.value = &args_dummy;
-    call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
-    
-    if (debug_enabled) {
-      SCM_DEBUG_EVAL("for-each ");
-      print_ast(f);
-      printf(" ");
-      // Optimize debug output: traverse args_dummy only once
-      auto args_iter = args_dummy.next;
-      bool first = true;
-      while (args_iter) {
-        if (!first) {
-          printf(" ");
-        }
-        first = false;
-        print_ast(args_iter->data);
-        args_iter = args_iter->next;
-      }
-      printf("\n");
-    }
-    
-    eval_with_env(env, &call_expr);
+    apply_with_values(env, f, args_dummy.next);
   }
 
   return scm_none();
-- 
2.43.0


From 77c6cf004a93c3f6343f5eac6785424818a8f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 11/79] fix: map keeps its results when a continuation captured
 in it is re-entered

---
 src/c/map.cc | 100 ++++++++++++++++++---------------------------------
 1 file changed, 35 insertions(+), 65 deletions(-)

diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..35a8d6e 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -36,7 +36,7 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   SCM *proc = eval_with_env(env, l->next->data);
   
   // Check if proc is a procedure
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("map: first argument must be a procedure");
   }
   
@@ -53,85 +53,55 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: requires at least one list argument");
   }
   
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
-  temp = list_args_head;
-  for (int i = 0; i < num_lists; i++) {
-    // Always evaluate list arguments
-    SCM *list_arg = eval_with_env(env, temp->data);
-    // Check if list_arg is a list
-    if (!is_pair(list_arg) && !is_nil(list_arg)) {
+  // Evaluate all list arguments and store where each list has got to. A continuation
+  // captured in proc may return here again, so nothing that was built is changed
+  // afterwards: the positions are a new list for each step, and the results are
+  // collected in reverse.
+  SCM_List *lists = eval_list_with_env(env, list_args_head);
+  for (SCM_List *it = lists; it; it = it->next) {
+    if (!is_pair(it->data) && !is_nil(it->data)) {
       eval_error("map: list arguments must be lists");
     }
-    list_ptrs[i] = is_nil(list_arg) ? nullptr : cast<SCM_List>(list_arg);
-    temp = temp->next;
   }
   
-  // Build result list by applying proc to corresponding elements
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
+  SCM_List *results = nullptr;
   
   // Continue until the shortest list is exhausted
-  bool all_non_empty = true;
-  for (int i = 0; i < num_lists; i++) {
-    if (!list_ptrs[i]) {
-      all_non_empty = false;
-      break;
-    }
-  }
-  
-  while (all_non_empty) {
-    // Collect one element from each list
-    // Wrap each element in quote to prevent evaluation
+  while (true) {
     SCM_List args_dummy = make_list_dummy();
+    SCM_List rest_dummy = make_list_dummy();
     SCM_List *args_tail = &args_dummy;
-    
-    for (int i = 0; i < num_lists; i++) {
-      // Wrap element in (quote element) to prevent evaluation
-      SCM *quoted_elem = scm_list2(scm_sym_quote(), list_ptrs[i]->data);
-      SCM_List *node = make_list(quoted_elem);
-      args_tail->next = node;
-      args_tail = node;
-      list_ptrs[i] = list_ptrs[i]->next;
-    }
-    
-    // Apply proc to collected arguments
-    SCM *result;
-    if (is_proc(proc)) {
-      SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-      result = apply_procedure(env, proc_obj, args_dummy.next);
-    } else if (is_func(proc)) {
-      SCM_Function *func_obj = cast<SCM_Function>(proc);
-      SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-      SCM_List func_call;
-      func_call.data = proc;
-      func_call.next = evaled_args;
-      result = eval_with_func(func_obj, &func_call);
-    } else {
-      eval_error("map: first argument must be a procedure");
-    }
-    
-    // Add result to result list
-    SCM_List *node = make_list(result);
-    tail->next = node;
-    tail = node;
-    
-    // Check if all lists still have elements
-    all_non_empty = true;
-    for (int i = 0; i < num_lists; i++) {
-      if (!list_ptrs[i]) {
+    SCM_List *rest_tail = &rest_dummy;
+    bool all_non_empty = true;
+    for (SCM_List *it = lists; it; it = it->next) {
+      if (!is_pair(it->data)) {
         all_non_empty = false;
         break;
       }
+      SCM_List *list = cast<SCM_List>(it->data);
+      args_tail->next = make_list(list->data);
+      args_tail = args_tail->next;
+      rest_tail->next = make_list(list->next ? wrap(list->next) : scm_nil());
+      rest_tail = rest_tail->next;
+    }
+    if (!all_non_empty) {
+      break;
     }
+    lists = rest_dummy.next;
+    
+    SCM *result = apply_with_values(env, proc, args_dummy.next);
+    SCM_List *node = make_list(result);
+    node->next = results;
+    results = node;
   }
   
-  delete[] list_ptrs;
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  SCM_List *ordered = nullptr;
+  for (; results; results = results->next) {
+    SCM_List *node = make_list(results->data);
+    node->next = ordered;
+    ordered = node;
   }
-  return scm_nil();
+  return ordered ? wrap(ordered) : scm_nil();
 }
 
 void init_map() {
-- 
2.43.0


From 30554860fea0b9d87a83ece7e4601b243b88007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 12/79] fix: a procedure defined in a body is local to it, also
 in module files

---
 src/c/define.cc | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..aea1ce1 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,28 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Whether env is a frame of a lambda or let, and not the top level of a program or
+// of a module file (frames inherit the module pointer of the environment around)
+static bool is_local_env(SCM_Environment *env) {
+  return env->parent && (!env->module || env->parent->module == env->module);
+}
+
+// Bind what (define (name ...) ...) makes: locally in a body, like a variable
+// definition, and otherwise in the current module
+static void bind_procedure(SCM_Environment *env, SCM_Symbol *name, SCM *val) {
+  if (is_local_env(env)) {
+    scm_env_insert(env, name, val, /*search_parent=*/false);
+    return;
+  }
+  SCM *current_mod = scm_current_module();
+  if (current_mod && is_module(current_mod)) {
+    SCM_Module *module = cast<SCM_Module>(current_mod);
+    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), val);
+  } else {
+    scm_env_insert(env, name, val, /*search_parent=*/false);
+  }
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -24,7 +46,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     // This ensures define creates local bindings in let/lambda contexts
     if (env->parent) {
       // Check if this is a module environment (env->module from scm_resolve_module)
-      if (env->module) {
+      if (!is_local_env(env)) {
         scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
       } else {
         // We're in a nested environment (lambda/let), create local binding
@@ -118,14 +140,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
-    } else {
-      scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
-    }
+    bind_procedure(env, proc_name, ret);
     return ret;
   }
   
@@ -156,14 +171,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
-    } else {
-      scm_env_insert(env, proc_name, val, /*search_parent=*/false);
-    }
+    bind_procedure(env, proc_name, val);
     return scm_none();
   } else {
     // Should not happen, but handle it
-- 
2.43.0


From 1c6f97d541f5d82ca263744d3bd8fd99294ae8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 13/79] fix: a macro with one parameter gets that operand, not
 a list of it

---
 src/c/macro.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..0ce6cbb 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -304,14 +304,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
 
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
-- 
2.43.0


From e1d0f5015602bc47dcf12532daf312194045afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 14/79] fix: what a macro expands to is evaluated like any
 other expression, and quoted data in it is left alone

---
 src/c/eval.cc | 31 ++++---------------------------
 1 file changed, 4 insertions(+), 27 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index aef36f8..c2a2484 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -347,24 +347,9 @@ entry:
     if (val && is_macro(val)) {
       // Found a macro, expand it and continue evaluation
       SCM_Macro *macro = cast<SCM_Macro>(val);
-      SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      // Recursively expand the result, then evaluate
-      ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
-      if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
-      }
-      // After macro expansion, we need to re-check the structure
-      // If ast is a pair but l->data is not a symbol/proc/func, it might be
-      // a self-evaluating value wrapped in a list, which should be evaluated directly
-      // We need to recast l since ast might have changed
-      l = cast<SCM_List>(ast);
-      if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-        // This is a self-evaluating value (number, string, etc.) wrapped in a single-element list
-        // Return it directly
-        RETURN_WITH_CONTEXT(l->data);
-      }
+      // Evaluate the expansion like any expression: macro calls in it are expanded
+      // when (and only if) they are evaluated
+      ast = expand_macro_call(env, macro, l->next, ast);
       goto entry;
     }
 
@@ -683,15 +668,7 @@ entry:
   else if (is_macro(l->data)) {
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
-    SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-    ast = expand_macros(env, expanded);
-    if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
-    }
-    l = cast<SCM_List>(ast);
-    if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
+    ast = expand_macro_call(env, macro, l->next, ast);
     goto entry;
   }
   else {
-- 
2.43.0


From 1d395707e4b182f5a3fcca580c89951afd8021a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 15/79] fix: a local variable shadows a global macro of the
 same name in inner scopes too

---
 src/c/eval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index c2a2484..cd9c86f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -311,7 +311,11 @@ entry:
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
 
     // Check if this is a macro call (before checking special forms)
+    // Local bindings come first, in every frame around: they shadow global macros
     SCM *val = scm_env_exist(env, sym);
+    for (SCM_Environment *e = env->parent; !val && e && e != &g_env; e = e->parent) {
+      val = scm_env_exist(e, sym);
+    }
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
-- 
2.43.0


From fb3b30dc7842d21cc8902f977ba044659ab7742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 16/79] fix: applying something that is not a procedure is an
 error, never an evaluation of data

---
 src/c/eval.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index cd9c86f..386cf1f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -268,6 +268,13 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
 }
 
 
+// The value of an operator must be applicable: data is never taken for code
+static void check_applicable(SCM *f) {
+  if (!is_proc(f) && !is_func(f) && !is_cont(f) && !is_smob(f) && !is_macro(f)) {
+    eval_error("wrong type to apply: %s", get_type_name(f->type));
+  }
+}
+
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
@@ -541,6 +548,7 @@ entry:
         return nullptr;
       }
       
+      check_applicable(val);
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -653,6 +661,7 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    check_applicable(f);
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
@@ -660,13 +669,7 @@ entry:
   }
   else if (is_num(l->data) || is_float(l->data) || is_str(l->data) || is_char(l->data) || is_bool(l->data) || is_nil(l->data)) {
     // Self-evaluating values: numbers, strings, characters, booleans, nil
-    // If this is a single-element list with a self-evaluating value, return it directly
-    if (!l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
-    // Otherwise, this is an error - can't have a list starting with a self-evaluating value
-    eval_error("invalid expression: self-evaluating %s in non-tail position",
-               get_type_name(l->data->type));
+    check_applicable(l->data);
     return nullptr;
   }
   else if (is_macro(l->data)) {
-- 
2.43.0


From 8fecc0664f7e52eff608f3f48667197dafb5b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 17/79] fix: a badly written special form is a catchable error,
 not an assertion failure

---
 src/c/case.cc     |  4 +++-
 src/c/cond.cc     |  5 +++--
 src/c/define.cc   |  1 +
 src/c/delay.cc    |  4 +---
 src/c/do.cc       |  3 ++-
 src/c/dynwind.cc  |  2 +-
 src/c/eval.cc     | 12 +++++++-----
 src/c/eval.h      |  7 +++++++
 src/c/for_each.cc |  2 +-
 src/c/let.cc      | 25 ++++++++++---------------
 10 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..ab9716d 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,7 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  check_syntax(l->next, "case");
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -35,6 +35,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    check_syntax(is_pair(clause_it->data), "case");
     auto clause = cast<SCM_List>(clause_it->data);
     
     if (debug_enabled) {
@@ -51,6 +52,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     
     // Regular clause: (datum1 datum2 ...)
     // Check if key matches any datum in this clause
+    check_syntax(is_pair(clause->data) || is_nil(clause->data), "case");
     auto datums = cast<SCM_List>(clause->data);
     
     if (value_in_datums(key, datums)) {
diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..39faa1c 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,9 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "cond");
   for (auto it = l->next; it; it = it->next) {
+    check_syntax(is_pair(it->data), "cond");
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -35,7 +36,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        check_syntax(clause->next->next, "cond");
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index aea1ce1..f31d892 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -77,6 +77,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   }
   // Define procedure: (define (name args...) body...)
   // Handle curried form: (define ((name args1...) args2...) body...)
+  check_syntax(l->next && is_pair(l->next->data) && l->next->next, "define");
   SCM_DEBUG_EVAL("define a procedure");
   
   // Handle curried form: (define ((name args1...) args2...) body...)
diff --git a/src/c/delay.cc b/src/c/delay.cc
index 8d4e83e..e1cce3f 100644
--- a/src/c/delay.cc
+++ b/src/c/delay.cc
@@ -6,9 +6,7 @@
 SCM *eval_delay(SCM_Environment *env, SCM_List *l) {
   // l is the whole list: (delay <expr>)
   // l->data is the symbol 'delay', so the expression is in l->next
-  if (!l->next || !l->next->data) {
-    eval_error("delay: expected one expression");
-  }
+  check_syntax(l->next && !l->next->next, "delay");
 
   SCM *expr = l->next->data;
 
diff --git a/src/c/do.cc b/src/c/do.cc
index 5a7a7ad..4eea5db 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -18,7 +18,8 @@ static SCM_Environment *make_do_env(SCM_Environment *env, SCM_List *names, SCM_E
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  check_syntax(l->next && l->next->next, "do");
+  check_syntax((is_pair(l->next->data) || is_nil(l->next->data)) && is_pair(l->next->next->data), "do");
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 9aee241..fc554d9 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -96,7 +96,7 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  check_syntax(l->next && l->next->next && l->next->next->next && !l->next->next->next->next, "dynamic-wind");
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 386cf1f..8cefac2 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -8,7 +8,7 @@
 #include <cstdlib>
 
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
-  assert(l);
+  check_syntax(l, "body");
   SCM *ret = nullptr;
   while (l) {
     ret = eval_with_env(env, l->data);
@@ -72,13 +72,14 @@ SCM *scm_c_eval_string(const char *expr) {
 
 // Helper functions for special forms
 static SCM *eval_quote(SCM_List *l) {
-  return l->next ? l->next->data : scm_nil();
+  check_syntax(l->next, "quote");
+  return l->next->data;
 }
 
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  check_syntax(l->next && is_sym(l->next->data) && l->next->next, "set!");
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -132,6 +133,7 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 SCM *scm_c_values(SCM_List *args);
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next && l->next->next, "lambda");
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -176,7 +178,7 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next && l->next->next, "if");
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -242,7 +244,7 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "call/cc");
   auto proc = eval_with_env(env, l->next->data);
   if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("call-with-current-continuation: argument must be a procedure");
diff --git a/src/c/eval.h b/src/c/eval.h
index efa1a8f..7e98209 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -58,6 +58,13 @@ SCM *eval_define_public(SCM_Environment *env, SCM_List *l);
 // List evaluation (used by macros and other special forms)
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l);
 
+// A special form that is not written as it should be is an error like any other
+inline void check_syntax(bool ok, const char *form) {
+  if (!ok) {
+    eval_error("%s: bad syntax", form);
+  }
+}
+
 // Helper functions for argument mismatch reporting (used by apply_procedure and macros)
 inline void print_arg_list(SCM_List *l) {
   if (!l) {
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index e7529b0..f75e1fe 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -32,7 +32,7 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  check_syntax(l->next && l->next->next, "for-each");
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
diff --git a/src/c/let.cc b/src/c/let.cc
index 8112c20..f91955f 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -3,8 +3,7 @@
 
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +40,7 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    check_syntax(l->next->next->next, "let");
     auto argl = l->next->next->data;
     auto body = wrap(l->next->next->next);
     
@@ -188,13 +187,12 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "let");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_syntax(is_pair(argl->data), "let");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      check_syntax(is_sym(arg->data) && arg->next, "let");
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -246,8 +244,7 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let*");
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -355,8 +352,7 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "letrec");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -378,13 +374,12 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "letrec");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_syntax(is_pair(argl->data), "letrec");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      check_syntax(is_sym(arg->data) && arg->next, "letrec");
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From c110074476d5ae28dbdb81a3df771a892017d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 18/79] fix: a cond clause with only a test returns its value,
 and => applies its receiver once

---
 src/c/cond.cc | 35 +++++++++++------------------------
 src/c/eval.cc | 10 +++-------
 src/c/eval.h  |  4 +++-
 3 files changed, 17 insertions(+), 32 deletions(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index 39faa1c..d771e62 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -4,11 +4,16 @@
 // Helper function to check if a symbol is literal (not bound in environment)
 // Similar to Guile's literal_p function
 static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
-  return scm_env_exist(env, sym) == nullptr;
+  for (; env && env != &g_env; env = env->parent) {
+    if (scm_env_exist(env, sym)) {
+      return false;
+    }
+  }
+  return true;
 }
 
 // Helper function for cond special form
-SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
+SCM *eval_cond(SCM_Environment *env, SCM_List *l) {
   check_syntax(l->next, "cond");
   for (auto it = l->next; it; it = it->next) {
     check_syntax(is_pair(it->data), "cond");
@@ -27,7 +32,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       continue;
     }
     if (!clause->next) {
-      return scm_bool_true();
+      return pred;
     }
     // Check for => syntax BEFORE evaluating clause->next->data
     // Similar to Guile's approach: check if => is a literal (not bound)
@@ -37,28 +42,10 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
         check_syntax(clause->next->next, "cond");
-        // First evaluate the procedure (clause->next->next->data) to get the actual procedure
-        // Then call it with pred as argument
-        // Build: (proc (quote pred))
-        // Note: eval_with_env will handle quote expressions and return the quoted value
-        // If the result is a symbol, we need to look it up in the environment to get the procedure
+        // Evaluate the procedure and apply it to the value of the test
         SCM *proc = eval_with_env(env, clause->next->next->data);
-        // If proc is a symbol (from quote), look it up in the environment
-        // This handles the case where 'ok is evaluated to symbol ok, then we look up ok
-        // But if the symbol is not found, it means we're trying to use a quoted symbol as a procedure
-        // In that case, we should just return the symbol itself (not call it)
-        if (is_sym(proc)) {
-          SCM *val = scm_env_exist(env, cast<SCM_Symbol>(proc));
-          if (val) {
-            proc = val;
-          } else {
-            // Symbol not found in environment - this means 'ok was just a quoted symbol
-            // Return the symbol itself (not as a procedure call)
-            return proc;
-          }
-        }
-        *ast = scm_list2(proc, scm_list2(scm_sym_quote(), pred));
-        return nullptr; // Signal to continue evaluation
+        check_applicable(proc);
+        return apply_with_values(env, proc, make_list(pred));
       }
       // If => is bound to a value, treat it as a regular expression (not => syntax)
       // Fall through to normal evaluation
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 8cefac2..38e41fe 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -270,8 +270,7 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
 }
 
 
-// The value of an operator must be applicable: data is never taken for code
-static void check_applicable(SCM *f) {
+void check_applicable(SCM *f) {
   if (!is_proc(f) && !is_func(f) && !is_cont(f) && !is_smob(f) && !is_macro(f)) {
     eval_error("wrong type to apply: %s", get_type_name(f->type));
   }
@@ -455,11 +454,8 @@ entry:
       RETURN_WITH_CONTEXT(result);
     }
     else if (is_sym_val(l->data, "cond")) {
-      auto ret = eval_cond(env, l, &ast);
-      if (ret) {
-        RETURN_WITH_CONTEXT(ret);
-      }
-      goto entry;
+      SCM *result = eval_cond(env, l);
+      RETURN_WITH_CONTEXT(result);
     }
     else if (is_sym_val(l->data, "case")) {
       SCM *result = eval_case(env, l);
diff --git a/src/c/eval.h b/src/c/eval.h
index 7e98209..5fb2ccf 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -21,7 +21,7 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l);
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l);
 
 // cond special form
-SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast);
+SCM *eval_cond(SCM_Environment *env, SCM_List *l);
 
 // case special form
 SCM *eval_case(SCM_Environment *env, SCM_List *l);
@@ -32,6 +32,8 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 // Apply anything applicable to already-evaluated arguments
 SCM *apply_with_values(SCM_Environment *env, SCM *f, SCM_List *args);
+// The value of an operator must be applicable: data is never taken for code
+void check_applicable(SCM *f);
 SCM *eval_with_func(SCM_Function *func, SCM_List *l);
 
 // Macro expansion and definition
-- 
2.43.0


From 51d0bb17d572cf4b8f70016f4e24e2d427f88ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 19/79] fix: dynamic-wind takes any procedure as a guard or
 thunk

---
 src/c/dynwind.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index fc554d9..dc61810 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -64,8 +64,8 @@ static void call_guard(SCM *entry, int index) {
   if (index == 1) {
     node = node->next;
   }
-  if (node && node->data && is_proc(node->data)) {
-    apply_procedure(&g_env, cast<SCM_Procedure>(node->data), nullptr);
+  if (node && node->data) {
+    apply_with_values(&g_env, node->data, nullptr);
   }
 }
 
@@ -104,13 +104,12 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   SCM *out_guard_val = eval_with_env(env, l->next->next->next->data);
   
   // Verify they are procedures
-  if (!is_proc(in_guard_val) || !is_proc(thunk_val) || !is_proc(out_guard_val)) {
-    eval_error("dynamic-wind: all arguments must be procedures");
-  }
+  check_applicable(in_guard_val);
+  check_applicable(thunk_val);
+  check_applicable(out_guard_val);
   
   // Call in_guard
-  auto in_guard_proc = cast<SCM_Procedure>(in_guard_val);
-  apply_procedure(env, in_guard_proc, nullptr);
+  apply_with_values(env, in_guard_val, nullptr);
   
   // Create wind entry: (in_guard . out_guard)
   auto wind_entry = make_list(in_guard_val);
@@ -124,15 +123,13 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   g_wind_chain = new_wind_entry;
   
   // Call thunk
-  auto thunk_proc = cast<SCM_Procedure>(thunk_val);
-  SCM *result = apply_procedure(env, thunk_proc, nullptr);
+  SCM *result = apply_with_values(env, thunk_val, nullptr);
   
   // Restore old wind chain
   g_wind_chain = old_wind_chain;
   
   // Call out_guard
-  auto out_guard_proc = cast<SCM_Procedure>(out_guard_val);
-  apply_procedure(env, out_guard_proc, nullptr);
+  apply_with_values(env, out_guard_val, nullptr);
   
   return result;
 }
-- 
2.43.0


From 71bab5d75077890bda59d39e7c70a71c8fe518f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 20/79] fix: eq? and its users identify a pair by its cell, and
 equal? tells (1 . 2) from (1 2) and takes any object

---
 src/c/alist.cc |  10 ++---
 src/c/case.cc  |   6 +--
 src/c/eq.cc    | 116 ++++++-------------------------------------------
 src/c/list.cc  |   2 +-
 4 files changed, 22 insertions(+), 112 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..10a7005 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include <type_traits>
 bool _eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 
 // Helper function for eq? comparison (pointer/identity equality)
 // This implements the eq? predicate semantics: two objects are eq? if they are the same object
@@ -31,8 +32,8 @@ static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
   if (is_num(lhs)) {
     return lhs->value == rhs->value;
   }
-  // For other types, use pointer comparison
-  return lhs == rhs;
+  // For other types, compare the objects (one object may have several wrappers)
+  return lhs->value == rhs->value;
 }
 
 // acons: (acons key value alist) -> new alist with (key . value) prepended
@@ -243,9 +244,6 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 }
 
 SCM *scm_c_assv(SCM *key, SCM *alist) {
-  assert(key);
-  assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -254,7 +252,7 @@ SCM *scm_c_assv(SCM *key, SCM *alist) {
   while (it) {
     if (it->data && is_pair(it->data)) {
       auto pair = cast<SCM_List>(it->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_true(scm_c_is_eqv(key, pair->data))) {
         return it->data;
       }
     }
diff --git a/src/c/case.cc b/src/c/case.cc
index ab9716d..50465dc 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -2,17 +2,17 @@
 #include "eval.h"
 
 // Forward declaration
-bool _eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 
 // Helper function to check if a value is in a list of datums
-// Uses eqv? for comparison (which is implemented as _eq in this codebase)
+// Uses eqv? for comparison
 static bool value_in_datums(SCM *value, SCM_List *datums) {
   if (!datums) {
     return false;
   }
   
   for (SCM_List *it = datums; it; it = it->next) {
-    if (it->data && _eq(value, it->data)) {
+    if (it->data && is_true(scm_c_is_eqv(value, it->data))) {
       return true;
     }
   }
diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..1b679b3 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -91,23 +91,6 @@ static bool _list_equal(SCM *lhs, SCM *rhs) {
   return (!l1 && !l2);
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _list_eq(SCM *lhs, SCM *rhs) {
-  auto l1 = cast<SCM_List>(lhs);
-  auto l2 = cast<SCM_List>(rhs);
-  while (l1 && l2) {
-    if (!_eq(l1->data, l2->data)) {
-      return false;
-    }
-    l1 = l1->next;
-    l2 = l2->next;
-  }
-  if (l1 || l2) {
-    return false;
-  }
-  return true;
-}
-
 // Helper function for equal? to compare vectors recursively
 static bool _vector_equal(SCM *lhs, SCM *rhs) {
   auto v1 = cast<SCM_Vector>(lhs);
@@ -128,83 +111,11 @@ static bool _vector_equal(SCM *lhs, SCM *rhs) {
   return true;
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _vector_eq(SCM *lhs, SCM *rhs) {
-  auto v1 = cast<SCM_Vector>(lhs);
-  auto v2 = cast<SCM_Vector>(rhs);
-  
-  // Vectors must have the same length
-  if (v1->length != v2->length) {
-    return false;
-  }
-  
-  // Compare each element recursively
-  for (size_t i = 0; i < v1->length; i++) {
-    if (!_eq(v1->elements[i], v2->elements[i])) {
-      return false;
-    }
-  }
-  
-  return true;
-}
-
+// What assoc, member and hash tables compare with: equal?
 bool _eq(SCM *lhs, SCM *rhs) {
   assert(lhs);
   assert(rhs);
-  // Special case: allow NUM <-> FLOAT comparison
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-
-  switch (lhs->type) {
-  case SCM::NONE:
-  case SCM::NIL:
-    return true;
-  case SCM::LIST:
-    // For backward compatibility with existing tests, use deep comparison for lists
-    // In strict R4RS, eq? should use pointer equality (lhs == rhs) for lists
-    return _list_eq(lhs, rhs);
-  case SCM::PROC:
-  case SCM::CONT:
-  case SCM::FUNC:
-    return lhs == rhs;
-  case SCM::NUM:
-  case SCM::FLOAT:
-    return _number_eq(lhs, rhs);
-  case SCM::CHAR:
-    // Character comparison
-    if (rhs->type == SCM::CHAR) {
-      char ch_lhs = ptr_to_char(lhs->value);
-      char ch_rhs = ptr_to_char(rhs->value);
-      return ch_lhs == ch_rhs;
-    }
-    return false;
-  case SCM::BOOL:
-    return is_true(lhs) == is_true(rhs);
-  case SCM::SYM:
-  case SCM::STR:
-    return _sym_eq(lhs, rhs);
-  case SCM::VECTOR:
-    return _vector_eq(lhs, rhs);
-  case SCM::MACRO:
-    // Macros are compared by reference (same as procedures)
-    return lhs == rhs;
-  case SCM::HASH_TABLE:
-    // Hash tables are compared by reference
-    return lhs == rhs;
-  case SCM::RATIO:
-    // Ratios are compared numerically
-    return _number_eq(lhs, rhs);
-  default:
-    SCM_ERROR_EVAL("unsupported scheme type %d", lhs->type);
-    eval_error("unsupported scheme type %d", lhs->type);
-    return false;
-  }
+  return _equal_recursive(lhs, rhs);
 }
 
 // eq?: Pointer equality (identity)
@@ -237,8 +148,9 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eq? uses pointer equality
-    return scm_bool_false();
+    // For compound types, eq? compares the objects (one object may have several
+    // wrappers: cdr makes one each time)
+    return bool_to_scm(lhs->value == rhs->value);
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -257,7 +169,7 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return bool_to_scm(lhs->value == rhs->value);
   }
 }
 
@@ -291,8 +203,8 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eqv? uses pointer equality (same as eq?)
-    return scm_bool_false();
+    // For compound types, eqv? compares the objects (same as eq?)
+    return bool_to_scm(lhs->value == rhs->value);
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -311,7 +223,7 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return bool_to_scm(lhs->value == rhs->value);
   }
 }
 
@@ -344,8 +256,8 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, equal? uses pointer equality (same as eq?)
-    return false;
+    // For compound types, equal? compares the objects (same as eq?)
+    return lhs->value == rhs->value;
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -376,12 +288,12 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
         SCM *result = desc->equalp(lhs, rhs);
         return is_true(result);
       } else {
-        // Default: pointer equality (eq?)
-        return lhs == rhs;
+        // Default: same object (eq?)
+        return lhs->value == rhs->value;
       }
     }
   default:
-    return false;
+    return lhs->value == rhs->value;
   }
 }
 
diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..7b38978 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -473,7 +473,7 @@ static bool _eqv(SCM *lhs, SCM *rhs) {
   if (is_bool(lhs)) {
     return is_true(lhs) == is_true(rhs);
   }
-  return lhs == rhs;
+  return lhs->value == rhs->value;
 }
 
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
-- 
2.43.0


From 10bf0fd26d4a9356d7c44f597ec7861b7a47a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 21/79] fix: (a . (b c)) reads as the list (a b c)

---
 src/c/parse.cc      | 17 +++++------------
 src/c/quasiquote.cc |  2 +-
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..c60d5b2 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1119,15 +1119,9 @@ static SCM *parse_list(Parser *p) {
         }
         
         // Create node for cdr and mark it as dotted pair
-        if (is_pair(cdr)) {
-          // When cdr is a pair, wrap it in a node to store it
-          // This allows us to mark the wrapper as dotted, while keeping the
-          // cdr list itself unmarked (if it's a proper list)
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark the wrapper node as dotted
-          // The cdr list itself (cdr) is not modified - its internal structure
-          // remains unchanged. The printing code will check if cdr is a proper
-          // list and expand it: (a b . (c d)) -> (a b c d)
+        // A cdr that is a list is just the rest of this list: (a . (b c)) is (a b c)
+        if (is_pair(cdr) || is_nil(cdr)) {
+          tail->next = cast<SCM_List>(cdr);
         } else {
           tail->next = make_list(cdr);
           tail->next->is_dotted = true;  // Mark as dotted pair's cdr
@@ -1153,9 +1147,8 @@ static SCM *parse_list(Parser *p) {
       }
       
       // Create node for cdr and mark it as dotted pair
-      if (is_pair(cdr)) {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
+      if (is_pair(cdr) || is_nil(cdr)) {
+        tail->next = cast<SCM_List>(cdr);
       } else {
         tail->next = make_list(cdr);
         tail->next->is_dotted = true;
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 243db69..a13a72d 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -299,7 +299,7 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
         SCM *expanded_car = quasi(env, p_list->data, depth - 1);
         if (rest_is_dotted && rest_cdr_data) {
           SCM *expanded_cdr = quasi(env, rest_cdr_data, depth);
-          return scm_list2(expanded_car, expanded_cdr);
+          return scm_cons(expanded_car, expanded_cdr);
         } else {
           SCM *rest = get_list_rest(p);
           SCM *expanded_cdr = quasi(env, rest, depth);
-- 
2.43.0


From f6b4b6ef3292a01fe81d7a5adb0c36eb3ec8e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 22/79] fix: list procedures tell improper and circular lists
 from proper ones, and append shares its last argument

---
 src/c/list.cc      | 167 +++++++++++++--------------------------------
 src/c/predicate.cc |  17 +++--
 src/c/pscm.h       |   6 +-
 3 files changed, 60 insertions(+), 130 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 7b38978..296ed95 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -89,123 +89,45 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   return wrap(l);
 }
 
-// Helper function to copy a list element
-static SCM_List *_copy_list_element(SCM *data) {
-  return make_list(data);
-}
-
-// Helper function to check if a list is a dotted pair by checking is_dotted flag
-static bool _is_dotted_pair(SCM_List *l) {
-  if (!l || !l->next) {
-    return false;
-  }
-  // Find the last node and check its is_dotted flag
-  SCM_List *last = l;
-  while (last->next) {
-    last = last->next;
-  }
-  return last->is_dotted;
-}
-
 // append function: (append list1 list2 ...) -> concatenated list
-// If the last argument is a dotted pair, the result will also be a dotted pair
+// All arguments but the last are proper lists, which are copied; the last one, which
+// may be anything, becomes the tail of the result
 SCM *scm_append(SCM_List *args) {
   if (!args) {
     return scm_nil();
   }
   
-  // If only one argument, return it
-  if (!args->next) {
-    return args->data;
-  }
-  
-  // Special case: (append '() non-list) -> non-list
-  // Check if first argument is nil and second is not a list
-  if (is_nil(args->data) && args->next) {
-    if (!args->next->next) {
-      // Only two arguments: (append '() x) -> x
-      return args->next->data;
-    }
-  }
-  
-  // Find the last argument to check if it's a dotted pair
-  // We need to check the actual value, not the expression, so we check after
-  // processing all arguments
-  SCM_List *last_arg = args;
-  while (last_arg->next) {
-    last_arg = last_arg->next;
-  }
-  // Check if the last argument evaluates to a dotted pair
-  // This is done after we've processed all arguments, so we can check the actual value
-  bool last_is_dotted_pair = false;
-  SCM *last_cdr = nullptr;
-  if (is_pair(last_arg->data)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg->data);
-    if (_is_dotted_pair(last_list)) {
-      last_is_dotted_pair = true;
-      // Find the last node to get the cdr
-      SCM_List *last_node = last_list;
-      while (last_node->next) {
-        last_node = last_node->next;
-      }
-      last_cdr = last_node->data;
-    }
-  }
-  
-  // Build result by concatenating all lists
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   
-  SCM_List *current = args;
-  while (current) {
-    if (is_pair(current->data)) {
-      SCM_List *src = cast<SCM_List>(current->data);
-      if (current == last_arg && last_is_dotted_pair) {
-        // Last argument is a dotted pair: copy car, but preserve the cdr
-        // For (c . d), src points to the pair, src->data is c, src->next->data is d
-        // We copy c, but not d (which will be the final cdr)
-        if (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-        }
-        // The cdr (d) will be appended below, creating the dotted pair structure
-      } else {
-        // Regular list: copy all elements
-        while (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-          src = src->next;
-        }
+  for (; args->next; args = args->next) {
+    if (is_nil(args->data)) {
+      continue;
+    }
+    if (!is_pair(args->data)) {
+      eval_error("append: expected a list");
+      return nullptr;
+    }
+    for (SCM_List *src = cast<SCM_List>(args->data); src; src = src->next) {
+      if (src->is_dotted) {
+        eval_error("append: expected a proper list");
+        return nullptr;
       }
-    } else if (!is_nil(current->data)) {
-      // Non-list, non-nil: just add it
-      SCM_List *node = _copy_list_element(current->data);
-      tail->next = node;
-      tail = node;
+      tail->next = make_list(src->data);
+      tail = tail->next;
     }
-    current = current->next;
   }
   
-  // If last argument was a dotted pair, append its cdr as the final cdr
-  // This creates a dotted pair structure: the last node's next points to a node with the cdr,
-  // and that node's next is nullptr, and is_dotted = true
-  if (last_is_dotted_pair && last_cdr) {
-    // Create a node for the cdr, but don't update tail
-    // This makes tail->next point to a node with data=cdr and next=nullptr
-    // which is the structure for a dotted pair
-    SCM_List *node = _copy_list_element(last_cdr);
-    node->is_dotted = true;  // Mark as dotted pair's cdr
-    tail->next = node;
-    // tail remains pointing to the previous node, so tail->next->next == nullptr
-    // This creates the dotted pair structure
+  if (!dummy.next) {
+    return args->data;
   }
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  if (is_pair(args->data)) {
+    tail->next = cast<SCM_List>(args->data);
+  } else if (!is_nil(args->data)) {
+    tail->next = make_list(args->data);
+    tail->next->is_dotted = true;
   }
-  return scm_nil();
+  return wrap(dummy.next);
 }
 
 // list-head: Copy the first k elements from lst into a new list
@@ -232,7 +154,7 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
   SCM_List *tail = &dummy;
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (count > 0 && current) {
+  while (count > 0 && current && !current->is_dotted) {
     SCM_List *node = make_list(current->data);
     tail->next = node;
     tail = node;
@@ -266,7 +188,7 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (count > 0) {
-    if (!current || is_nil(wrap(current))) {
+    if (!current || current->is_dotted) {
       eval_error("list-tail: list too short");
       return nullptr;
     }
@@ -275,7 +197,8 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   }
   
   if (current) {
-    return wrap(current);
+    // The tail of an improper list may be its last cdr
+    return current->is_dotted ? current->data : wrap(current);
   }
   return scm_nil();
 }
@@ -330,12 +253,12 @@ SCM *scm_c_last_pair(SCM *lst) {
   // Floyd's cycle detection algorithm
   while (true) {
     // Move hare two steps
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return tortoise (last pair)
-      return wrap(tortoise);
+    if (!hare->next || hare->next->is_dotted) {
+      // Reached end, return hare (last pair)
+      return wrap(hare);
     }
     hare = hare->next;
-    if (!hare->next || is_nil(wrap(hare->next))) {
+    if (!hare->next || hare->next->is_dotted) {
       // Reached end, return hare (last pair)
       return wrap(hare);
     }
@@ -365,6 +288,10 @@ SCM *scm_c_reverse(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
+    if (current->is_dotted) {
+      eval_error("reverse: expected a proper list");
+      return nullptr;
+    }
     auto new_node = make_list(current->data);
     new_node->next = result;
     result = new_node;
@@ -409,7 +336,7 @@ SCM *scm_c_list_ref(SCM *lst, SCM *k) {
       return current->data;
     }
     i++;
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -433,14 +360,18 @@ SCM *scm_c_length(SCM *lst) {
   }
   
   int count = 0;
-  SCM_List *current = cast<SCM_List>(lst);
+  SCM_List *slow = cast<SCM_List>(lst);
   
-  while (current) {
+  for (SCM_List *current = slow; current; current = current->next) {
+    // slow is half as fast, and only met again in a circular list
+    if (current->is_dotted || (count > 0 && current == slow)) {
+      eval_error("length: expected a proper list");
+      return nullptr;
+    }
     count++;
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
+    if (count % 2 == 0) {
+      slow = slow->next;
     }
-    current = current->next;
   }
   
   SCM *result = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -499,7 +430,7 @@ SCM *scm_c_memq(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -527,7 +458,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -555,7 +486,7 @@ SCM *scm_c_member(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
diff --git a/src/c/predicate.cc b/src/c/predicate.cc
index cff7ad6..efc8777 100644
--- a/src/c/predicate.cc
+++ b/src/c/predicate.cc
@@ -90,15 +90,11 @@ SCM *scm_c_is_list(SCM *arg) {
   // A proper list ends with a node where next=nullptr and is_dotted=false
   // (cdr of the last node returns nil)
   SCM_List *l = cast<SCM_List>(arg);
-  // Use a simple cycle detection: limit traversal count
-  int count = 0;
-  const int MAX_COUNT = 10000;  // Reasonable limit for list length
+  // Cycle detection: slow is half as fast, and only met again in a circular list
+  SCM_List *slow = l;
+  bool step = false;
   
   while (l) {
-    if (count++ > MAX_COUNT) {
-      // Likely a circular list, return #f
-      return scm_bool_false();
-    }
     // Check if this node is a dotted pair marker
     if (l->is_dotted) {
       // This is a dotted pair, not a proper list
@@ -111,6 +107,13 @@ SCM *scm_c_is_list(SCM *arg) {
     }
     // Move to next node
     l = l->next;
+    if (step) {
+      slow = slow->next;
+    }
+    step = !step;
+    if (l == slow) {
+      return scm_bool_false();
+    }
   }
   // Should not reach here, but if we do, it's not a proper list
   return scm_bool_false();
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 765faa7..717556e 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -633,11 +633,7 @@ inline SCM *cadr(SCM *data) {
   if (!data || !is_pair(data)) {
     type_error(data, "pair");
   }
-  auto l = cast<SCM_List>(data);
-  if (!l || !l->next) {
-    type_error(data, "pair with at least 2 elements");
-  }
-  SCM *result = l->next->data;
+  SCM *result = car(cdr(data));
   // Copy source location if result doesn't have one
   if (result && !result->source_loc && data->source_loc) {
     copy_source_location(result, data);
-- 
2.43.0


From 1e4ffd40fea7fe862c1990f7fcf4865ff09a117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 23/79] fix: assoc-ref returns the whole cdr

---
 src/c/alist.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 10a7005..666c4b5 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -90,11 +90,7 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
     return scm_bool_false();
   }
   // Return the cdr of the pair
-  auto pair_list = cast<SCM_List>(pair);
-  if (pair_list->next) {
-    return pair_list->next->data;
-  }
-  return scm_bool_false();
+  return cdr(pair);
 }
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
-- 
2.43.0


From 506a3ae0990d5bfa939657244a2b10838e4c4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 24/79] fix: hash tables find numbers, floats, chars and
 vectors by their kind of equality and keep list values whole

---
 src/c/hash_table.cc | 135 +++++++++++++++-----------------------------
 src/c/module.cc     |  40 ++-----------
 2 files changed, 51 insertions(+), 124 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..584367f 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -20,8 +20,9 @@ static unsigned long scm_hash_code_eq(SCM *key) {
     auto sym = cast<SCM_Symbol>(key);
     return hash_string_content(sym->data, sym->len);
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
+  // For eq?, use what identifies the object (which may have several wrappers): its
+  // address, or the value of a number, character or boolean
+  return (unsigned long)(uintptr_t)key->value;
 }
 
 // Hash function for eqv? (value equality for numbers/chars)
@@ -40,32 +41,13 @@ static unsigned long scm_hash_code_eqv(SCM *key) {
 }
 
 // Hash function for equal? (deep equality)
+static unsigned long scm_hash_code_equal(SCM *key);
+
 // Helper function to compute hash code for a list recursively
 static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
-  auto l = cast<SCM_List>(list);
   unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
-    }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
+  for (auto l = cast<SCM_List>(list); l; l = l->next) {
+    hash = hash * 31 + scm_hash_code_equal(l->data);
   }
   return hash;
 }
@@ -90,6 +72,27 @@ static unsigned long scm_hash_code_equal(SCM *key) {
   if (is_pair(key)) {
     return hash_list_content(key);
   }
+  // Equal numbers hash alike: an integral float like the integer
+  if (is_float(key)) {
+    double val = scm_to_double(key);
+    if (val >= -9e15 && val <= 9e15 && val == (double)(int64_t)val) {
+      return (unsigned long)(int64_t)val;
+    }
+    return (unsigned long)(uintptr_t)key->value;
+  }
+  // Ratios, and objects of C types with an equalp function: any are compared
+  if (is_ratio(key) || is_smob(key)) {
+    return 0;
+  }
+  // For vectors, use content-based hash
+  if (is_vector(key)) {
+    auto vec = cast<SCM_Vector>(key);
+    unsigned long hash = 0;
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + scm_hash_code_equal(vec->elements[i]);
+    }
+    return hash;
+  }
   // Fallback to pointer hash
   return scm_hash_code_eq(key);
 }
@@ -108,7 +111,7 @@ static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
     // Use memcmp since we already know lengths are equal
     return memcmp(sym1->data, sym2->data, sym1->len) == 0;
   }
-  return lhs == rhs;
+  return lhs->type == rhs->type && lhs->value == rhs->value;
 }
 
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
@@ -123,7 +126,7 @@ static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
   if (is_bool(lhs)) {
     return is_true(lhs) == is_true(rhs);
   }
-  return lhs == rhs;
+  return scm_cmp_eq(lhs, rhs);
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
@@ -147,13 +150,7 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
-    entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
-  } else {
-    entry->next = make_list(value);
-    entry->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
+  scm_c_set_cdr(wrap(entry), value);
 }
 
 // Helper function to find entry in bucket
@@ -176,24 +173,11 @@ static SCM_List *find_entry_in_bucket(SCM *bucket, SCM *key, bool (*cmp_func)(SC
 
 // Helper function to insert entry into bucket at head
 // Returns the entry pair (key . value)
-// Note: We must create a proper dotted pair (key . value) even when value is a list.
-// Using scm_cons would expand value if it's a list, which breaks hash table semantics.
 static SCM *insert_entry_to_bucket(SCM_HashTable *hash_table, size_t idx, 
                                     SCM *key, SCM *value) {
-  // Create a proper dotted pair (key . value) structure
-  // This ensures value is stored correctly even when it's a list
-  SCM_List *entry_pair = make_list(key);
-  if (is_nil(value)) {
-    // For nil values, create a node containing nil so hash-ref can find it
-    entry_pair->next = make_list(value);
-    entry_pair->next->is_dotted = true;
-  } else {
-    // For non-nil values, wrap in a dotted pair node
-    entry_pair->next = make_list(value);
-    entry_pair->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
+  SCM *entry_pair = scm_cons(key, value);
   
-  auto entry_node = make_list(wrap(entry_pair));
+  auto entry_node = make_list(entry_pair);
   if (hash_table->buckets[idx] && !is_nil(hash_table->buckets[idx])) {
     entry_node->next = cast<SCM_List>(hash_table->buckets[idx]);
   } else {
@@ -201,7 +185,7 @@ static SCM *insert_entry_to_bucket(SCM_HashTable *hash_table, size_t idx,
   }
   hash_table->buckets[idx] = wrap(entry_node);
   hash_table->size++;
-  return wrap(entry_pair);
+  return entry_pair;
 }
 
 // Helper function to remove entry from bucket
@@ -244,6 +228,10 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
+    if ((int64_t)size_arg->value < 0) {
+      eval_error("make-hash-table: size must not be negative");
+      return nullptr;
+    }
     capacity = (size_t)(int64_t)size_arg->value;
     if (capacity == 0) {
       capacity = 31;
@@ -298,14 +286,7 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
     // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return cdr(wrap(entry));
   }
   
   return scm_bool_false();
@@ -344,9 +325,8 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
-    // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    // The entry keeps its value
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
@@ -389,35 +369,10 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
-            SCM *key = entry->data;
-            SCM *value = entry->next->data;
-            
-            // Call proc with (key value result)
-            // Build call expression: (proc key value result)
-            // Wrap arguments in quote to prevent re-evaluation (same as for_each.cc)
-            SCM_List args_dummy = make_list_dummy();
-            args_dummy.data = proc;
-            auto args_tail = &args_dummy;
-            // Wrap key in quote
-            SCM *quoted_key = scm_list2(scm_sym_quote(), key);
-            args_tail->next = make_list(quoted_key);
-            args_tail = args_tail->next;
-            // Wrap value in quote
-            SCM *quoted_value = scm_list2(scm_sym_quote(), value);
-            args_tail->next = make_list(quoted_value);
-            args_tail = args_tail->next;
-            // Wrap result in quote
-            SCM *quoted_result = scm_list2(scm_sym_quote(), result);
-            args_tail->next = make_list(quoted_result);
-            
-            // Build and evaluate call expression (same as for_each.cc)
-            SCM call_expr;
-            call_expr.type = SCM::LIST;
-            call_expr.value = &args_dummy;
-            call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
-            result = eval_with_env(&g_env, &call_expr);
-          }
+          SCM_List *args = make_list(entry->data);
+          args->next = make_list(cdr(l->data));
+          args->next->next = make_list(result);
+          result = apply_with_values(&g_env, proc, args);
         }
         l = l->next;
       }
diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..cbd8924 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -73,15 +73,8 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   // We check if handle is #f (not found) vs. a pair (found, value could be #f)
   if (handle && handle != scm_bool_false() && is_pair(handle)) {
     // Handle exists (it's a pair, not #f)
-    // handle is the entry pair (key . value) wrapped
-    auto pair = cast<SCM_List>(handle);
-    // pair->data is the key, pair->next->data is the value
-    if (pair->next) {
-      return pair->next->data;  // Return value (can be #f)
-    } else {
-      // value is nil (entry->next is nullptr)
-      return scm_nil();
-    }
+    // handle is the entry pair (key . value)
+    return cdr(handle);  // Return value (can be #f)
   }
   
   return nullptr;  // Not found
@@ -996,32 +989,11 @@ SCM *scm_c_module_map(SCM_List *args) {
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
-            SCM *key = entry->data;  // Symbol
-            SCM *value = entry->next->data;  // Variable value
-            
+          if (entry->data) {
             // Call proc with (key value)
-            // Build call expression: (proc key value)
-            SCM_List args_dummy = make_list_dummy();
-            args_dummy.data = proc;
-            auto args_tail = &args_dummy;
-            
-            // Wrap key in quote to prevent re-evaluation
-            SCM *quoted_key = scm_list2(scm_sym_quote(), key);
-            args_tail->next = make_list(quoted_key);
-            args_tail = args_tail->next;
-            
-            // Wrap value in quote
-            SCM *quoted_value = scm_list2(scm_sym_quote(), value);
-            args_tail->next = make_list(quoted_value);
-            
-            // Build and evaluate call expression
-            SCM call_expr;
-            call_expr.type = SCM::LIST;
-            call_expr.value = &args_dummy;
-            call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
-            
-            SCM *proc_result = eval_with_env(&g_env, &call_expr);
+            SCM_List *proc_args = make_list(entry->data);
+            proc_args->next = make_list(cdr(l->data));
+            SCM *proc_result = apply_with_values(&g_env, proc, proc_args);
             
             // Append result to result list
             SCM_List *new_node = make_list(proc_result);
-- 
2.43.0


From f0b10b38ae8d0068e217f2ccba062da3207eba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 25/79] fix: a number operation on something else is a
 catchable error, and + - = < abs max min odd? expt are exact on exact numbers

---
 src/c/number.cc | 186 +++++++++++++++++++++++++++++-------------------
 1 file changed, 112 insertions(+), 74 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..182777d 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -7,7 +7,7 @@
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
 SCM *scm_c_is_negative(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("negative?: expected number");
     return nullptr;
   }
@@ -19,7 +19,7 @@ SCM *scm_c_is_negative(SCM *arg) {
 }
 
 SCM *scm_c_is_positive(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("positive?: expected number");
     return nullptr;
   }
@@ -35,6 +35,9 @@ SCM *scm_c_is_odd(SCM *arg) {
     eval_error("odd?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 != 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
@@ -53,6 +56,9 @@ SCM *scm_c_is_even(SCM *arg) {
     eval_error("even?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 == 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
@@ -78,11 +84,30 @@ SCM *scm_c_is_zero(SCM *arg) {
   return scm_bool_false();
 }
 
-// Type promotion: if either operand is float, promote both to float
+// Type promotion: if either operand is float, promote both to float.
+// Every binary operation asks this first, so this is where an operand that
+// is not a number is reported.
 static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
+  for (SCM *arg : {lhs, rhs}) {
+    if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
+      eval_error("expected number");
+    }
+  }
   return is_float(lhs) || is_float(rhs);
 }
 
+// An exact number as a fraction.
+static void exact_parts(SCM *arg, int64_t &numerator, int64_t &denominator) {
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    numerator = rat->numerator;
+    denominator = rat->denominator;
+  } else {
+    numerator = (int64_t)arg->value;
+    denominator = 1;
+  }
+}
+
 template <typename Op>
 struct BinaryOperator {
   static SCM *run(SCM *lhs, SCM *rhs) {
@@ -102,14 +127,15 @@ struct BinaryOperator {
         return scm_from_double(ret);
       }
     } else {
-      // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
-      int64_t n_lhs = (int64_t)lhs->value;
-      int64_t n_rhs = (int64_t)rhs->value;
-      auto ret = Op::run(n_lhs, n_rhs);
+      // Exact operation, on a common denominator
+      int64_t n_lhs, d_lhs, n_rhs, d_rhs;
+      exact_parts(lhs, n_lhs, d_lhs);
+      exact_parts(rhs, n_rhs, d_rhs);
+      auto ret = Op::run(n_lhs * d_rhs, n_rhs * d_lhs);
       if constexpr (std::is_same_v<decltype(ret), bool>) {
         return ret ? scm_bool_true() : scm_bool_false();
+      } else if (d_lhs != 1 || d_rhs != 1) {
+        return scm_make_ratio(ret, d_lhs * d_rhs);
       } else {
         SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
         data->type = SCM::NUM;
@@ -239,6 +265,9 @@ SCM *scm_c_negate_number(SCM *arg) {
     data->type = SCM::NUM;
     data->value = (void *)(-val);
     return data;
+  } else if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return scm_make_ratio(-rat->numerator, rat->denominator);
   }
   eval_error("negate: expected number");
   return nullptr;
@@ -274,7 +303,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       return nullptr;
     }
     // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
+    if (!is_num(args->data) && !is_float(args->data) && !is_ratio(args->data)) {
       eval_error("-: expected number");
       return nullptr;
     }
@@ -293,7 +322,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
   // Handle ratio (rational number) multiplication
-  if (is_ratio(lhs) || is_ratio(rhs)) {
+  if (!needs_float_promotion(lhs, rhs) && (is_ratio(lhs) || is_ratio(rhs))) {
     // Convert both to numerator/denominator form
     int64_t num1, den1, num2, den2;
     
@@ -492,7 +521,17 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  if (is_float(arg)) {
+    return scm_from_double(std::fabs(scm_to_double(arg)));
+  }
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return rat->numerator < 0 ? scm_c_negate_number(arg) : arg;
+  }
+  if (!is_num(arg)) {
+    eval_error("abs: expected number");
+    return nullptr;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -607,10 +646,9 @@ SCM *scm_c_lcm(SCM_List *args) {
     // lcm(a,b) = |a*b| / gcd(a,b)
     // But we need to avoid overflow, so compute as: (a / gcd(a,b)) * b
     int64_t g = gcd(result, val);
-    if (g == 0) {
-      return _create_num(0);
+    if (g != 0) {
+      result = (result / g) * val;
     }
-    result = (result / g) * val;
     current = current->next;
   }
   
@@ -670,8 +708,8 @@ SCM *scm_c_max(SCM_List *args) {
     return nullptr;
   }
   
-  double max_val = scm_to_double(first);
-  bool all_int = is_num(first);
+  SCM *max_val = first;
+  bool inexact = is_float(first);
   
   SCM_List *current = args->next;
   while (current) {
@@ -680,23 +718,17 @@ SCM *scm_c_max(SCM_List *args) {
       eval_error("max: expected number");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val > max_val) {
-      max_val = val;
+    if (is_float(arg)) {
+      inexact = true;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
+    if (is_true(scm_c_gt_number(arg, max_val))) {
+      max_val = arg;
     }
     current = current->next;
   }
   
-  if (all_int && max_val == (double)(int64_t)max_val) {
-    return _create_num((int64_t)max_val);
-  }
-  return scm_from_double(max_val);
+  // One inexact argument makes the result inexact
+  return inexact ? scm_from_double(scm_to_double(max_val)) : max_val;
 }
 
 // min: Return the minimum of the arguments
@@ -712,8 +744,8 @@ SCM *scm_c_min(SCM_List *args) {
     return nullptr;
   }
   
-  double min_val = scm_to_double(first);
-  bool all_int = is_num(first);
+  SCM *min_val = first;
+  bool inexact = is_float(first);
   
   SCM_List *current = args->next;
   while (current) {
@@ -722,28 +754,24 @@ SCM *scm_c_min(SCM_List *args) {
       eval_error("min: expected number");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val < min_val) {
-      min_val = val;
+    if (is_float(arg)) {
+      inexact = true;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
+    if (is_true(scm_c_lt_number(arg, min_val))) {
+      min_val = arg;
     }
     current = current->next;
   }
   
-  if (all_int && min_val == (double)(int64_t)min_val) {
-    return _create_num((int64_t)min_val);
-  }
-  return scm_from_double(min_val);
+  // One inexact argument makes the result inexact
+  return inexact ? scm_from_double(scm_to_double(min_val)) : min_val;
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
+  if (!is_num(base) || !is_num(exp)) {
+    eval_error("expt: expected integer");
+    return nullptr;
+  }
   int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
   
@@ -752,6 +780,10 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
     // 0^0 = 1
     return _create_num(1);
   }
+  else if (n1 == 0 && n2 < 0) {
+    eval_error("expt: division by zero");
+    return nullptr;
+  }
   else if (n1 == 0) {
     // 0^n = 0 (for n != 0)
     return _create_num(0);
@@ -762,37 +794,24 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
   }
   
   // Handle negative exponent
-  bool is_negative = false;
-  if (n2 < 0) {
-    is_negative = true;
-    n2 = -n2;
-  }
-  
-  // Calculate base^n2
-  int64_t ret = n1;
-  for (int64_t i = 0; i < n2 - 1; ++i) {
-    ret *= n1;
+  bool is_negative = n2 < 0;
+  uint64_t count = is_negative ? 0 - (uint64_t)n2 : (uint64_t)n2;
+
+  // Calculate base^count by squaring
+  uint64_t ret = 1;
+  uint64_t square = (uint64_t)n1;
+  for (; count; count >>= 1) {
+    if (count & 1) {
+      ret *= square;
+    }
+    square *= square;
   }
-  
-  // Handle negative exponent result
+
+  // base^-n is the exact fraction 1/base^n
   if (is_negative) {
-    // For negative exponents, we return 1/result
-    // But since we only support integers, we can only return exact results
-    // when result is 1 or -1
-    if (ret == 1) {
-      return _create_num(1);
-    }
-    else if (ret == -1) {
-      return _create_num(-1);
-    }
-    else {
-      // For other cases, we can't represent fractions, so return 0
-      // This is a limitation of integer-only arithmetic
-      return _create_num(0);
-    }
+    return scm_make_ratio(1, (int64_t)ret);
   }
-  
-  return _create_num(ret);
+  return _create_num((int64_t)ret);
 }
 
 SCM *scm_c_div(SCM_List *args) {
@@ -887,7 +906,13 @@ SCM *scm_c_div(SCM_List *args) {
       // For floats, switch to float arithmetic
       double result = (double)result_num / (double)result_den;
       while (current) {
-        result /= scm_to_double(current->data);
+        needs_float_promotion(current->data, current->data);
+        double divisor = scm_to_double(current->data);
+        if (divisor == 0.0) {
+          eval_error("/: division by zero");
+          return nullptr;
+        }
+        result /= divisor;
         current = current->next;
       }
       return scm_from_double(result);
@@ -926,6 +951,11 @@ SCM *scm_c_quotient(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    // dividing the smallest integer by -1 traps
+    return scm_c_negate_number(n1);
+  }
+  
   return _create_num(num1 / num2);
 }
 
@@ -947,6 +977,10 @@ SCM *scm_c_modulo(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    return _create_num(0);
+  }
+  
   int64_t m = num1 / num2;
   int64_t ret = num1 - num2 * m;
   
@@ -978,6 +1012,10 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    return _create_num(0);
+  }
+  
   int64_t m = num1 / num2;
   return _create_num(num1 - num2 * m);
 }
-- 
2.43.0


From 04cfecd3b47bd64d882800eea01583dc6fffe47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 26/79] fix: make-vector and make-string report a length they
 cannot allocate, list->vector and list->string an improper list, and the
 smallest integer prints

---
 src/c/string.cc | 19 +++++++++++++++----
 src/c/vector.cc | 14 +++++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..6a43f8f 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -2,6 +2,8 @@
 #include "eval.h"
 #include <cstring>
 #include <ctype.h>
+#include <limits.h>
+#include <new>
 
 // string-length: Return the number of characters in string
 SCM *scm_c_string_length(SCM *str) {
@@ -41,8 +43,13 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
   }
   
   // Create string
+  char *chars = len < INT_MAX ? new (std::nothrow) char[len + 1] : nullptr;
+  if (!chars) {
+    eval_error("make-string: length too large");
+    return nullptr;
+  }
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
-  s->data = new char[len + 1];
+  s->data = chars;
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
@@ -478,16 +485,16 @@ static char* int_to_string_radix(int64_t val, int radix) {
   
   // Handle negative numbers
   bool negative = false;
-  int64_t uval;
+  uint64_t uval;
   if (val < 0) {
     negative = true;
-    uval = -val;
+    uval = 0 - (uint64_t)val;
   } else {
     uval = val;
   }
   
   // Calculate string length
-  int64_t temp = uval;
+  uint64_t temp = uval;
   int len = 0;
   while (temp > 0) {
     len++;
@@ -764,6 +771,10 @@ SCM *scm_c_list_to_string(SCM *lst) {
       eval_error("list->string: all elements must be characters");
       return nullptr;
     }
+    if (current->is_dotted) {
+      eval_error("list->string: expected list");
+      return nullptr;
+    }
     len++;
     if (!current->next) {
       break;
diff --git a/src/c/vector.cc b/src/c/vector.cc
index ca25720..3ac3619 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <new>
 
 // Helper function for make-vector implementation
 static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
@@ -17,15 +18,18 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   SCM *fill = fill_scm ? fill_scm : scm_none();
   
   // Create vector
+  SCM **elements = len > 0 ? new (std::nothrow) SCM*[len] : nullptr;
+  if (len > 0 && !elements) {
+    eval_error("make-vector: length too large");
+    return nullptr;
+  }
   SCM_Vector *vec = (SCM_Vector *)gc_alloc(GC_VECTOR, sizeof(SCM_Vector));
   vec->length = (size_t)len;
+  vec->elements = elements;
   if (len > 0) {
-    vec->elements = new SCM*[len];
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
-  } else {
-    vec->elements = nullptr;
   }
   
   return wrap(vec);
@@ -175,6 +179,10 @@ SCM *scm_c_list_to_vector(SCM *list) {
   size_t count = 0;
   SCM_List *current = cast<SCM_List>(list);
   while (current) {
+    if (current->is_dotted) {
+      eval_error("list->vector: expected list");
+      return nullptr;
+    }
     count++;
     if (!current->next) {
       break;
-- 
2.43.0


From 164a67e4c01e0d5bd30b0c28e5df6f82dd3344cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 27/79] fix: the reader reads ratios, \ooo string escapes and
 floats to the nearest double, and forgets the contexts of an earlier parse

---
 src/c/parse.cc | 81 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index c60d5b2..f02b939 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -7,6 +7,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
+
 // Simple Scheme parser implementation from scratch
 
 // Parser state
@@ -345,23 +347,17 @@ static SCM *parse_number(Parser *p) {
   
   // Check for decimal point
   bool is_float = false;
-  double float_value = (double)int_part;
   
   if (*p->pos == '.') {
     is_float = true;
     p->pos++;
     p->column++;
   
-    // Parse fractional part
-    double fractional = 0.0;
-    double divisor = 1.0;
+    // Skip fractional part
     while (isdigit((unsigned char)*p->pos)) {
-      fractional = fractional * 10 + (*p->pos - '0');
-      divisor *= 10;
       p->pos++;
       p->column++;
     }
-    float_value += fractional / divisor;
   }
   
   // Check for exponent (scientific notation)
@@ -370,47 +366,43 @@ static SCM *parse_number(Parser *p) {
     p->pos++;
     p->column++;
     
-    // Parse exponent sign
-    bool exp_negative = false;
-    if (*p->pos == '-') {
-      exp_negative = true;
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '+') {
+    // Skip exponent sign
+    if (*p->pos == '-' || *p->pos == '+') {
       p->pos++;
       p->column++;
     }
     
-    // Parse exponent value
-    long exp = 0;
+    // Skip exponent value
     if (!isdigit((unsigned char)*p->pos)) {
       parse_error(p, "expected digit after exponent marker");
     }
     while (isdigit((unsigned char)*p->pos)) {
-      exp = exp * 10 + (*p->pos - '0');
       p->pos++;
       p->column++;
     }
-    
-    // Apply exponent
-    double multiplier = 1.0;
-    for (long i = 0; i < exp; i++) {
-      multiplier *= 10.0;
-    }
-    if (exp_negative) {
-      float_value /= multiplier;
-    } else {
-      float_value *= multiplier;
+  }
+  
+  // The nearest double to the whole token, sign included
+  double float_value = is_float ? strtod(start, nullptr) : 0.0;
+  
+  // Check for a ratio: digits on both sides of the slash
+  if (!is_float && *p->pos == '/' && isdigit((unsigned char)p->pos[1])) {
+    p->pos++;
+    p->column++;
+    long denominator = 0;
+    while (isdigit((unsigned char)*p->pos)) {
+      denominator = denominator * 10 + (*p->pos - '0');
+      p->pos++;
+      p->column++;
     }
+    SCM *ratio = scm_make_ratio(negative ? -int_part : int_part, denominator);
+    set_source_location(ratio, p->filename, start_line, start_column);
+    return ratio;
   }
   
   // Apply sign
   if (negative) {
-    if (is_float) {
-      float_value = -float_value;
-    } else {
-      int_part = -int_part;
-    }
+    int_part = -int_part;
   }
   
   // Create SCM object
@@ -662,6 +654,13 @@ static SCM *parse_vector(Parser *p) {
   return scm;
 }
 
+// Is there an octal escape \ooo, as write prints characters that are not
+// printable, whose digits start here?
+static bool is_octal_escape(const char *src, const char *end) {
+  return end - src >= 3 && src[0] >= '0' && src[0] <= '3' && src[1] >= '0' && src[1] <= '7' && src[2] >= '0' &&
+         src[2] <= '7';
+}
+
 // Parse a string
 static SCM *parse_string(Parser *p) {
   if (*p->pos != '"') {
@@ -723,7 +722,7 @@ static SCM *parse_string(Parser *p) {
       escape = false;
       // Escape sequence counts as one character
       actual_len++;
-      src++;
+      src += is_octal_escape(src, end) ? 3 : 1;
     } else if (*src == '\\') {
       escape = true;
       src++;
@@ -742,6 +741,11 @@ static SCM *parse_string(Parser *p) {
   while (src < end) {
     if (escape) {
       escape = false;
+      if (is_octal_escape(src, end)) {
+        *dst++ = (char)((src[0] - '0') * 64 + (src[1] - '0') * 8 + (src[2] - '0'));
+        src += 3;
+        continue;
+      }
       switch (*src) {
         case 'n': *dst++ = '\n'; break;
         case 't': *dst++ = '\t'; break;
@@ -1315,8 +1319,17 @@ static SCM *parse_expr(Parser *p) {
   return nullptr;
 }
 
+// Forget what is left of an earlier parse: its frames point into its input,
+// which is gone
+static void clear_parse_stack() {
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+}
+
 // Parse a single expression from input
 SCM *parse(const char *s) {
+  clear_parse_stack();
   Parser p;
   p.input = s;
   p.pos = s;
@@ -1409,6 +1422,7 @@ SCM_List *parse_file(const char *filename) {
     return nullptr;
   }
   
+  clear_parse_stack();
   Parser p;
   p.input = content;
   p.pos = content;
@@ -1467,6 +1481,7 @@ SCM_List *parse_string(const char *str) {
     return nullptr;
   }
   
+  clear_parse_stack();
   Parser p;
   p.input = str;
   p.pos = str;
-- 
2.43.0


From 5eb9859b3a4ff2dedb9e15af401ccfddd23576a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 28/79] fix: a list headed by quote prints whole, and display
 writes strings with NUL whole

---
 src/c/print.cc  | 8 ++++++--
 src/c/string.cc | 9 ++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 6761f4b..a7827fd 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -162,7 +162,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
       printf("\"");
     } else {
       // Display format: without quotes
-      printf("%s", str->data);
+      fwrite(str->data, 1, str->len, stdout);
     }
     return;
   }
@@ -325,11 +325,15 @@ static bool _is_dotted_pair(SCM_List *l) {
   return last->is_dotted;
 }
 
-// Helper function to check if a list starts with a specific symbol
+// Helper function to check if a list is an operator with a specific name and
+// its one operand. Anything else is a list like any other.
 static bool _list_starts_with(SCM_List *l, const char *sym_name) {
   if (!l || !l->data || !is_sym(l->data)) {
     return false;
   }
+  if (!l->next || l->next->is_dotted || l->next->next) {
+    return false;
+  }
   SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
   return strcmp(sym->data, sym_name) == 0;
 }
diff --git a/src/c/string.cc b/src/c/string.cc
index 6a43f8f..37a882c 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -125,17 +125,16 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 }
 
 // Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str) {
+static void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
   if (!port || port->is_closed) {
     return;
   }
   
   if (port->port_type == PORT_FILE_OUTPUT) {
     if (port->file) {
-      fputs(str, port->file);
+      fwrite(str, 1, len, port->file);
     }
   } else if (port->port_type == PORT_STRING_OUTPUT) {
-    int len = strlen(str);
     while (port->output_len + len + 1 >= port->output_capacity) {
       port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
       port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
@@ -218,7 +217,7 @@ SCM *scm_c_display(SCM_List *args) {
     buffer[total] = '\0';
     stdout = old_stdout;
     fclose(tmp_file);
-    write_string_to_port(port, buffer);
+    write_string_to_port(port, buffer, total);
     free(buffer);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
@@ -278,7 +277,7 @@ SCM *scm_c_write(SCM_List *args) {
     buffer[total] = '\0';
     stdout = old_stdout;
     fclose(tmp_file);
-    write_string_to_port(port, buffer);
+    write_string_to_port(port, buffer, total);
     free(buffer);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
-- 
2.43.0


From 54aee7d20fc950aeabdd0a7f276d489ec1f00fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 29/79] fix: read takes one expression and nothing more, output
 to a soft port is not lost, and the current ports are the ones set

---
 src/c/port.cc      | 434 ++++++++++++++++++---------------------------
 src/c/pscm_types.h |   1 +
 src/c/string.cc    |  84 +--------
 3 files changed, 178 insertions(+), 341 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..5da358b 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -4,9 +4,11 @@
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <string>
 
-// Forward declaration
+// Forward declarations
 SCM *parse(const char *s);
+static bool port_direction(SCM_Port *port, char mode);
 
 // Helper function to create a port SCM object
 static SCM *wrap_port(SCM_Port *port) {
@@ -155,7 +157,7 @@ SCM *scm_c_close_output_port(SCM *port) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!port_direction(p, 'w')) {
     eval_error("close-output-port: expected output port");
     return nullptr;
   }
@@ -258,6 +260,36 @@ SCM *scm_c_get_output_string(SCM *port) {
   return scm_from_c_string_port(p->output_buffer, p->output_len);
 }
 
+// Is this an input ('r') or output ('w') port? A soft port can be both.
+static bool port_direction(SCM_Port *port, char mode) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, mode);
+  }
+  return port->is_input == (mode == 'r');
+}
+
+// The port an operation works on: its argument, or else the current port
+static SCM_Port *port_operand(SCM *arg, char mode, const char *who) {
+  if (!arg || is_nil(arg)) {
+    arg = mode == 'r' ? scm_current_input_port() : scm_current_output_port();
+  }
+  if (!is_port(arg)) {
+    eval_error("%s: expected port", who);
+    return nullptr;
+  }
+  SCM_Port *port = cast<SCM_Port>(arg);
+  if (!port_direction(port, mode)) {
+    eval_error("%s: expected %s port", who, mode == 'r' ? "input" : "output");
+    return nullptr;
+  }
+  return port;
+}
+
+// The output port operand of display, write and newline
+SCM_Port *output_port_operand(SCM *arg, const char *who) {
+  return port_operand(arg, 'w', who);
+}
+
 // Helper function to read a character from a port
 static int read_char_from_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -275,6 +307,11 @@ static int read_char_from_port(SCM_Port *port) {
     }
     return (unsigned char)port->string_data[port->string_pos++];
   } else if (port->port_type == PORT_SOFT && port->is_input) {
+    if (port->soft_peeked) {
+      int ch = port->soft_peeked - 1;
+      port->soft_peeked = 0;
+      return ch;
+    }
     // Call procedure at index 3 (get one character)
     if (!port->soft_procedures || port->soft_procedures->length < 4) {
       return EOF;
@@ -302,23 +339,6 @@ static int read_char_from_port(SCM_Port *port) {
   return EOF;
 }
 
-// Helper function to unread a character (for peek)
-static void unread_char_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_INPUT) {
-    if (port->file) {
-      ungetc(fgetc(port->file), port->file);  // This is a hack, we need to track last char
-    }
-  } else if (port->port_type == PORT_STRING_INPUT) {
-    if (port->string_pos > 0) {
-      port->string_pos--;
-    }
-  }
-}
-
 // Helper function to peek a character from a port
 static int peek_char_from_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -339,6 +359,12 @@ static int peek_char_from_port(SCM_Port *port) {
       return EOF;
     }
     return (unsigned char)port->string_data[port->string_pos];
+  } else if (port->port_type == PORT_SOFT) {
+    int ch = read_char_from_port(port);
+    if (ch != EOF) {
+      port->soft_peeked = ch + 1;
+    }
+    return ch;
   }
   
   return EOF;
@@ -361,7 +387,7 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && port_direction(port, 'w')) {
     // Call procedure at index 0 (accept one character for output)
     if (!port->soft_procedures || port->soft_procedures->length < 1) {
       return;
@@ -370,22 +396,24 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     if (!write_char_proc || is_falsy(write_char_proc)) {
       return;
     }
-    // Call the procedure with the character
-    SCM *char_obj = scm_from_char(ch);
-    SCM_List proc_args;
-    proc_args.data = char_obj;
-    proc_args.next = nullptr;
-    proc_args.is_dotted = false;
-    if (is_proc(write_char_proc)) {
-      SCM_Procedure *proc = cast<SCM_Procedure>(write_char_proc);
-      apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
-    } else if (is_func(write_char_proc)) {
-      SCM_Function *func = cast<SCM_Function>(write_char_proc);
-      SCM_List func_call;
-      func_call.data = write_char_proc;
-      func_call.next = &proc_args;
-      eval_with_func(func, &func_call);
-    }
+    scm_call_1(write_char_proc, scm_from_char(ch));
+  }
+}
+
+// Write characters to a port (exported for use in string.cc)
+void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
+  if (port->is_closed) {
+    return;
+  }
+  
+  if (port->port_type == PORT_SOFT && port->soft_procedures && port->soft_procedures->length > 1 &&
+      !is_falsy(port->soft_procedures->elements[1])) {
+    // Call procedure at index 1 (accept a string for output)
+    scm_call_1(port->soft_procedures->elements[1], scm_from_c_string_port(str, (int)len));
+    return;
+  }
+  for (size_t i = 0; i < len; i++) {
+    write_char_to_port_string(port, str[i]);
   }
 }
 
@@ -399,7 +427,7 @@ static void flush_port(SCM_Port *port) {
     if (port->file) {
       fflush(port->file);
     }
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && port_direction(port, 'w')) {
     // Call procedure at index 2 (flush output thunk)
     if (!port->soft_procedures || port->soft_procedures->length < 3) {
       return;
@@ -518,7 +546,7 @@ SCM *scm_set_current_output_port(SCM *port) {
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!port_direction(p, 'w')) {
     eval_error("set-current-output-port: expected output port");
     return nullptr;
   }
@@ -534,199 +562,137 @@ SCM *scm_force_output(SCM_List *args) {
     port = args->data;
   }
   
-  if (!port || is_nil(port)) {
-    // Default to current output port (stdout)
-    // For now, just flush stdout
-    fflush(stdout);
-    return scm_none();
-  }
-  
-  if (!is_port(port)) {
-    eval_error("force-output: expected port");
-    return nullptr;
-  }
-  
-  SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
-    eval_error("force-output: expected output port");
-    return nullptr;
-  }
-  
-  flush_port(p);
+  flush_port(port_operand(port, 'w', "force-output"));
   return scm_none();
 }
 
-// Helper function to read a complete expression from port
-// This reads characters until we have a complete expression
-static SCM *read_expr_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return scm_eof_object();
+// Helpers to read one expression from a port: they copy its characters to a
+// buffer, and take nothing from the port that is not part of it.
+
+static void take_char(SCM_Port *port, std::string &buffer) {
+  int ch = read_char_from_port(port);
+  if (ch != EOF) {
+    buffer += (char)ch;
   }
-  
-  // Build a buffer with the expression
-  // Use dynamic allocation for large expressions
-  size_t buffer_size = 4096;
-  char *buffer = (char *)malloc(buffer_size);
-  if (!buffer) {
-    eval_error("read: out of memory");
-    return scm_eof_object();
+}
+
+// Skip whitespace and comments. Returns the next character, or EOF.
+static int skip_blanks(SCM_Port *port) {
+  while (true) {
+    int ch = peek_char_from_port(port);
+    if (ch == ';') {
+      while (ch != EOF && ch != '\n') {
+        ch = read_char_from_port(port);
+      }
+    } else if (ch == EOF || !isspace(ch)) {
+      return ch;
+    } else {
+      read_char_from_port(port);
+    }
   }
-  int pos = 0;
-  int paren_depth = 0;
-  bool in_string = false;
+}
+
+// Copy a string literal, quotes included. Returns false at the end of input.
+static bool take_string(SCM_Port *port, std::string &buffer) {
   bool escaped = false;
-  bool started = false;
-  
-  // Skip leading whitespace and comments
+  take_char(port, buffer);
   while (true) {
     int ch = peek_char_from_port(port);
     if (ch == EOF) {
-      if (!started) {
-        return scm_eof_object();
-      }
-      break;
+      return false;
     }
-    
-    // Skip whitespace
-    if (isspace(ch)) {
-      read_char_from_port(port);  // Consume whitespace
-      continue;
+    take_char(port, buffer);
+    if (!escaped && ch == '"') {
+      return true;
     }
-    
-    // Skip comments (lines starting with ;)
-    if (ch == ';') {
-      // Read until end of line
-      while (true) {
-        int comment_ch = read_char_from_port(port);
-        if (comment_ch == EOF || comment_ch == '\n' || comment_ch == '\r') {
-          // Skip the newline if we read it
-          if (comment_ch == '\r') {
-            int next_ch = peek_char_from_port(port);
-            if (next_ch == '\n') {
-              read_char_from_port(port);
-            }
-          }
-          break;
-        }
+    escaped = !escaped && ch == '\\';
+  }
+}
+
+// Copy a symbol, number, character or the like, up to a delimiter
+static void take_atom(SCM_Port *port, std::string &buffer) {
+  if (peek_char_from_port(port) == '#') {
+    take_char(port, buffer);
+    int ch = peek_char_from_port(port);
+    if (ch == '(') {
+      return;  // a vector: the list follows
+    }
+    if (ch == '{') {
+      // A symbol #{...}#
+      while (ch != EOF && ch != '}') {
+        take_char(port, buffer);
+        ch = peek_char_from_port(port);
       }
-      continue;
+      take_char(port, buffer);
+    } else if (ch == '\\') {
+      // A character: whatever follows the backslash is part of it
+      take_char(port, buffer);
+      take_char(port, buffer);
     }
-    
-    // Found non-whitespace, non-comment character
-    started = true;
-    break;
   }
-  
-  if (!started) {
-    return scm_eof_object();
+  while (true) {
+    int ch = peek_char_from_port(port);
+    if (ch == EOF || isspace(ch) || strchr("()\";'`,", ch)) {
+      return;
+    }
+    bool escape = ch == '\\';
+    take_char(port, buffer);
+    if (escape) {
+      take_char(port, buffer);
+    }
   }
+}
+
+// Read a complete expression from port
+static SCM *read_expr_from_port(SCM_Port *port) {
+  std::string buffer;
+  int depth = 0;
   
-  // Read until we have a complete expression
-  while (pos < (int)buffer_size - 1) {
-    int ch = read_char_from_port(port);
+  while (true) {
+    int ch = skip_blanks(port);
     if (ch == EOF) {
-      if (paren_depth == 0 && !in_string) {
-        break;
-      }
-      // Incomplete expression
-      free(buffer);
+      // Nothing left, or an incomplete expression
       return scm_eof_object();
     }
-    
-    // Resize buffer if needed
-    if (pos >= (int)buffer_size - 1) {
-      buffer_size *= 2;
-      char *new_buffer = (char *)realloc(buffer, buffer_size);
-      if (!new_buffer) {
-        free(buffer);
-        eval_error("read: out of memory");
-        return scm_eof_object();
+    if (ch == '\'' || ch == '`' || ch == ',') {
+      // The expression goes on after the prefix
+      take_char(port, buffer);
+      if (ch == ',' && peek_char_from_port(port) == '@') {
+        take_char(port, buffer);
       }
-      buffer = new_buffer;
-    }
-    
-    buffer[pos++] = (char)ch;
-    
-    if (escaped) {
-      escaped = false;
       continue;
     }
-    
-    if (ch == '\\' && in_string) {
-      escaped = true;
-      continue;
-    }
-    
-    if (ch == '"') {
-      in_string = !in_string;
-      continue;
-    }
-    
-    if (in_string) {
+    if (ch == '(') {
+      take_char(port, buffer);
+      depth++;
       continue;
     }
-    
-    if (ch == '(') {
-      paren_depth++;
-    } else if (ch == ')') {
-      paren_depth--;
-      if (paren_depth < 0) {
-        // Too many closing parens
-        break;
+    if (ch == ')') {
+      take_char(port, buffer);
+      depth--;
+    } else if (ch == '"') {
+      if (!take_string(port, buffer)) {
+        return scm_eof_object();
       }
-      if (paren_depth == 0) {
-        // Complete expression
-        break;
+    } else {
+      take_atom(port, buffer);
+      if (buffer.back() == '#' && peek_char_from_port(port) == '(') {
+        continue;
       }
-    } else if (paren_depth == 0 && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) {
-      // End of expression at top level
-      pos--;  // Don't include the whitespace
+    }
+    if (depth <= 0) {
       break;
     }
+    buffer += ' ';
   }
   
-  buffer[pos] = '\0';
-  
   // Parse the expression
-  SCM *result = parse(buffer);
-  
-  // Free the buffer
-  free(buffer);
-  
-  return result;
+  return parse(buffer.c_str());
 }
 
 // read-char: Read a character from a port
 SCM *scm_c_read_char(SCM_List *args) {
-  SCM_Port *port;
-  SCM *port_arg = nullptr;
-  
-  if (args && args->data) {
-    port_arg = args->data;
-  }
-  
-  if (!port_arg || is_nil(port_arg)) {
-    // Use stdin
-    eval_error("read-char: stdin port not yet implemented");
-    return nullptr;
-  }
-  
-  if (!is_port(port_arg)) {
-    eval_error("read-char: expected port");
-    return nullptr;
-  }
-  
-  port = cast<SCM_Port>(port_arg);
-  // For soft ports, check modes string instead of is_input
-  if (port->port_type == PORT_SOFT) {
-    if (!port->soft_modes || strchr(port->soft_modes, 'r') == nullptr) {
-      eval_error("read-char: expected input port");
-      return nullptr;
-    }
-  } else if (!port->is_input) {
-    eval_error("read-char: expected input port");
-    return nullptr;
-  }
+  SCM_Port *port = port_operand(args ? args->data : nullptr, 'r', "read-char");
   
   int ch = read_char_from_port(port);
   if (ch == EOF) {
@@ -738,29 +704,7 @@ SCM *scm_c_read_char(SCM_List *args) {
 
 // peek-char: Peek at the next character from a port
 SCM *scm_c_peek_char(SCM_List *args) {
-  SCM_Port *port;
-  SCM *port_arg = nullptr;
-  
-  if (args && args->data) {
-    port_arg = args->data;
-  }
-  
-  if (!port_arg || is_nil(port_arg)) {
-    // Use stdin
-    eval_error("peek-char: stdin port not yet implemented");
-    return nullptr;
-  }
-  
-  if (!is_port(port_arg)) {
-    eval_error("peek-char: expected port");
-    return nullptr;
-  }
-  
-  port = cast<SCM_Port>(port_arg);
-  if (!port->is_input) {
-    eval_error("peek-char: expected input port");
-    return nullptr;
-  }
+  SCM_Port *port = port_operand(args ? args->data : nullptr, 'r', "peek-char");
   
   int ch = peek_char_from_port(port);
   if (ch == EOF) {
@@ -772,32 +716,8 @@ SCM *scm_c_peek_char(SCM_List *args) {
 
 // read: Read a Scheme object from a port
 SCM *scm_c_read(SCM_List *args) {
-  SCM_Port *port;
-  SCM *port_arg = nullptr;
-  
-  if (args && args->data) {
-    port_arg = args->data;
-  }
-  
-  if (!port_arg || is_nil(port_arg)) {
-    // Use stdin - for now, use parse from string
-    eval_error("read: stdin port not yet implemented");
-    return nullptr;
-  }
-  
-  if (!is_port(port_arg)) {
-    eval_error("read: expected port");
-    return nullptr;
-  }
-  
-  port = cast<SCM_Port>(port_arg);
-  if (!port->is_input) {
-    eval_error("read: expected input port");
-    return nullptr;
-  }
-  
   // Use the helper function to read a complete expression
-  return read_expr_from_port(port);
+  return read_expr_from_port(port_operand(args ? args->data : nullptr, 'r', "read"));
 }
 
 // eof-object?: Check if an object is the EOF object
@@ -820,7 +740,7 @@ SCM *scm_c_is_output_port(SCM *obj) {
     return scm_bool_false();
   }
   SCM_Port *port = cast<SCM_Port>(obj);
-  return port->is_input ? scm_bool_false() : scm_bool_true();
+  return port_direction(port, 'w') ? scm_bool_true() : scm_bool_false();
 }
 
 // write-char: Write a character to a port
@@ -843,27 +763,9 @@ SCM *scm_c_write_char(SCM_List *args) {
   
   char ch = ptr_to_char(char_arg->value);
   
-  if (port_arg) {
-    if (!is_port(port_arg)) {
-      eval_error("write-char: second argument must be a port");
-      return nullptr;
-    }
-    SCM_Port *port = cast<SCM_Port>(port_arg);
-    // For soft ports, check modes string instead of is_input
-    if (port->port_type == PORT_SOFT) {
-      if (!port->soft_modes || strchr(port->soft_modes, 'w') == nullptr) {
-        eval_error("write-char: expected output port");
-        return nullptr;
-      }
-    } else if (port->is_input) {
-      eval_error("write-char: expected output port");
-      return nullptr;
-    }
-    write_char_to_port_string(port, ch);
-  } else {
-    // Write to stdout
-    putchar(ch);
-  }
+  // Write to the port, or the current output port
+  SCM_Port *port = port_operand(port_arg, 'w', "write-char");
+  write_char_to_port_string(port, ch);
   
   return scm_none();
 }
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index c123ac5..b72fcc2 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -165,6 +165,7 @@ struct SCM_Port {
   // [5] = (optional) thunk for computing number of characters available
   SCM_Vector *soft_procedures;  // Vector of procedures for soft port
   char *soft_modes;              // Modes string for soft port ("r", "w", "rw")
+  int soft_peeked;               // 1 + the character peeked from a soft port, or 0
 };
 
 struct SCM_Environment {
diff --git a/src/c/string.cc b/src/c/string.cc
index 37a882c..2b67738 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -124,46 +124,10 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
   return scm_none(); // Return unspecified value
 }
 
-// Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fwrite(str, 1, len, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    while (port->output_len + len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    memcpy(port->output_buffer + port->output_len, str, len);
-    port->output_len += len;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
-
-// Helper function to write character to port
-static void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    if (port->output_len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    port->output_buffer[port->output_len++] = ch;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
+// Defined in port.cc
+SCM_Port *output_port_operand(SCM *arg, const char *who);
+void write_string_to_port(SCM_Port *port, const char *str, size_t len);
+void write_char_to_port_string(SCM_Port *port, char ch);
 
 // display: Output the argument using display format (without quotes for strings)
 // display obj [port]
@@ -179,16 +143,8 @@ SCM *scm_c_display(SCM_List *args) {
     port_arg = args->next->data;
   }
   
-  if (port_arg) {
-    if (!is_port(port_arg)) {
-      eval_error("display: second argument must be a port");
-      return nullptr;
-    }
-    SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
-      eval_error("display: expected output port");
-      return nullptr;
-    }
+  SCM_Port *port = output_port_operand(port_arg, "display");
+  if (port->file != stdout) {
     FILE *old_stdout = stdout;
     FILE *tmp_file = tmpfile();
     if (!tmp_file) {
@@ -239,16 +195,8 @@ SCM *scm_c_write(SCM_List *args) {
     port_arg = args->next->data;
   }
   
-  if (port_arg) {
-    if (!is_port(port_arg)) {
-      eval_error("write: second argument must be a port");
-      return nullptr;
-    }
-    SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
-      eval_error("write: expected output port");
-      return nullptr;
-    }
+  SCM_Port *port = output_port_operand(port_arg, "write");
+  if (port->file != stdout) {
     FILE *old_stdout = stdout;
     FILE *tmp_file = tmpfile();
     if (!tmp_file) {
@@ -292,21 +240,7 @@ SCM *scm_c_newline(SCM_List *args) {
     port_arg = args->data;
   }
   
-  if (port_arg) {
-    if (!is_port(port_arg)) {
-      eval_error("newline: argument must be a port");
-      return nullptr;
-    }
-    SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
-      eval_error("newline: expected output port");
-      return nullptr;
-    }
-    write_char_to_port_string(port, '\n');
-  } else {
-    // No arguments: output to stdout
-    printf("\n");
-  }
+  write_char_to_port_string(output_port_operand(port_arg, "newline"), '\n');
   return scm_none();
 }
 
-- 
2.43.0


From 29200b927bb31670f105535a45a8552c9ddd5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 30/79] fix: the collector's stack scan no longer reads between
 heap segments

---
 src/c/gc.cc | 13 +++++++++----
 src/c/gc.h  |  7 ++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index bc746cb..bdadbff 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -62,6 +62,14 @@ static int         g_next_seg = 0; // next free slot in the pool
 static HeapSegment *g_segments     = nullptr; // segment list head
 static HeapSegment *g_current_seg  = nullptr; // segment used for bump allocation
 
+bool gc_in_segment(const void *p) {
+  const char *addr = (const char *)p;
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (addr >= seg->start && addr + sizeof(GCBlock) <= seg->bump) return true;
+  }
+  return false;
+}
+
 // =========================================================================
 // Free lists
 // =========================================================================
@@ -323,10 +331,7 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   // Block header must be 16-byte aligned.
   if (block_addr & (sizeof(GCBlock) - 1)) return;
 
-  GCBlock *block = (GCBlock *)block_addr;
-  if (block->gc_magic == GC_MAGIC) {
-    push_if_unmarked(block, stack);
-  }
+  push_if_unmarked((GCBlock *)block_addr, stack);
 }
 
 static void scan_conservative_roots(MarkStack *stack) {
diff --git a/src/c/gc.h b/src/c/gc.h
index 0b0474d..9945b15 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -80,12 +80,17 @@ static const uint32_t GC_MAGIC = 0x1A3F5B;
 extern char *g_heap_start;
 extern char *g_heap_end;
 
+// True if P lies in the allocated part of a heap segment.  Segments need not
+// be adjacent, so an address between the heap bounds may be unmapped.
+bool gc_in_segment(const void *p);
+
 // Validate that a pointer looks like a real GCBlock inside the managed
-// heap (range check, alignment check, magic check).
+// heap (range check, alignment check, segment check, magic check).
 inline bool is_valid_block(const void *p) {
   return (const char *)p >= g_heap_start &&
          (const char *)p + sizeof(GCBlock) <= g_heap_end &&
          ((uintptr_t)p & (sizeof(GCBlock) - 1)) == 0 &&
+         gc_in_segment(p) &&
          ((const GCBlock *)p)->gc_magic == GC_MAGIC;
 }
 
-- 
2.43.0


From 581615bac072688fead8371654dfa49ac0dce13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 31/79] fix: catch and the call-with-port procedures take any
 procedure

---
 src/c/port.cc  | 93 +++++++-------------------------------------------
 src/c/throw.cc | 23 +++----------
 2 files changed, 16 insertions(+), 100 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 5da358b..c00196e 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -26,19 +26,10 @@ static SCM *call_soft_port_thunk(SCM *proc) {
     return nullptr;
   }
   
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    return apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, nullptr);
-  } else if (is_func(proc)) {
-    SCM_Function *func = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = nullptr;
-    func_call.is_dotted = false;
-    return eval_with_func(func, &func_call);
-  }
-  
-  return nullptr;
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
+    return nullptr;
+  }
+  return apply_with_values(&g_env, proc, nullptr);
 }
 
 // EOF object singleton
@@ -828,7 +819,7 @@ SCM *scm_c_call_with_input_file(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("call-with-input-file: second argument must be a procedure");
     return nullptr;
   }
@@ -840,22 +831,7 @@ SCM *scm_c_call_with_input_file(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = apply_with_values(&g_env, proc, make_list(port));
   
   // Close the port
   scm_c_close_input_port(port);
@@ -878,7 +854,7 @@ SCM *scm_c_call_with_output_file(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("call-with-output-file: second argument must be a procedure");
     return nullptr;
   }
@@ -890,22 +866,7 @@ SCM *scm_c_call_with_output_file(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = apply_with_values(&g_env, proc, make_list(port));
   
   // Close the port
   scm_c_close_output_port(port);
@@ -928,7 +889,7 @@ SCM *scm_c_call_with_input_string(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("call-with-input-string: second argument must be a procedure");
     return nullptr;
   }
@@ -940,22 +901,7 @@ SCM *scm_c_call_with_input_string(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = apply_with_values(&g_env, proc, make_list(port));
   
   // Port is automatically cleaned up (no explicit close needed for string ports)
   
@@ -971,7 +917,7 @@ SCM *scm_c_call_with_output_string(SCM_List *args) {
   
   SCM *proc = args->data;
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
     eval_error("call-with-output-string: argument must be a procedure");
     return nullptr;
   }
@@ -983,22 +929,7 @@ SCM *scm_c_call_with_output_string(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  apply_with_values(&g_env, proc, make_list(port));
   
   // Get the output string
   SCM *output_str = scm_c_get_output_string(port);
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 2b631f6..334db0a 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -450,25 +450,11 @@ SCM *scm_internal_lazy_catch(SCM *tag,
 
 // Body function for Scheme catch (thunk)
 static SCM *scm_body_thunk(void *body_data) {
-  SCM *thunk = (SCM *)body_data;
-  if (!is_proc(thunk)) {
-    eval_error("catch: thunk must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(thunk);
-  // Use the procedure's environment if available, otherwise use g_env
-  // The procedure's environment captures the lexical scope where it was defined
-  SCM_Environment *env = proc->env ? proc->env : &g_env;
-  return apply_procedure(env, proc, nullptr);
+  return apply_with_values(&g_env, (SCM *)body_data, nullptr);
 }
 
 // Handler function for Scheme catch
 static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
-  SCM *handler = (SCM *)handler_data;
-  if (!is_proc(handler)) {
-    eval_error("catch: handler must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(handler);
-  
   // Build argument list: (tag . args)
   SCM_List *arg_list = make_list(tag);
   if (args) {
@@ -487,8 +473,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
     }
   }
   
-  // Use apply_procedure_with_values because arguments are already evaluated
-  return apply_procedure_with_values(proc->env, proc, arg_list);
+  return apply_with_values(&g_env, (SCM *)handler_data, arg_list);
 }
 
 // Scheme-callable catch function
@@ -508,10 +493,10 @@ SCM *scm_c_catch_scheme(SCM_List *args) {
   }
   
   // Verify thunk and handler are procedures
-  if (!is_proc(thunk)) {
+  if (!is_proc(thunk) && !is_func(thunk) && !is_cont(thunk)) {
     eval_error("catch: thunk must be a procedure");
   }
-  if (!is_proc(handler)) {
+  if (!is_proc(handler) && !is_func(handler) && !is_cont(handler)) {
     eval_error("catch: handler must be a procedure");
   }
   
-- 
2.43.0


From 344543c178bbe564e06856b85b5a5eaae3cd8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 32/79] fix: a throw without arguments gives its handler the
 key only

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 334db0a..e6af85b 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -468,7 +468,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
         if (!current->next) break;
         current = current->next;
       }
-    } else {
+    } else if (!is_nil(args)) {
       arg_list->next = make_list(args);
     }
   }
-- 
2.43.0


From 128940bd296ea2c2ddde0b11d58966ccd4ba7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 33/79] fix: definitions in a letrec body do not change the
 letrec's variables

---
 src/c/let.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index f91955f..f6961ac 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -408,14 +408,12 @@ SCM *expand_letrec(SCM *expr) {
     // We need to copy the body list structure properly
     SCM_List *body_list = l->next->next;
     if (body_list) {
-      // Body is a list of expressions, copy each element
-      SCM_List *body_current = body_list;
-      while (body_current) {
-        SCM_List *body_node = make_list(body_current->data);
-        last_args_node->next = body_node;
-        last_args_node = body_node;
-        body_current = body_current->next;
-      }
+      // The body gets a scope of its own, its definitions do not
+      // change the letrec's variables: (let () body ...)
+      auto body_let = make_list(scm_sym_let());
+      body_let->next = make_list(scm_nil());
+      body_let->next->next = body_list;
+      last_args_node->next = make_list(wrap(body_let));
     } else {
       // Body is empty, this shouldn't happen but handle it
       // Do nothing, last_args_node already points to the end
-- 
2.43.0


From 2f8e95eb23552da9ad3befd38fe61d40a319aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 34/79] fix: cons onto a circular list returns

---
 src/c/list.cc | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 296ed95..f70b401 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -70,14 +70,6 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   if (is_pair(cdr_val)) {
     // If cdr is a list, append it
     l->next = cast<SCM_List>(cdr_val);
-    // Check if the appended list is a dotted pair
-    // If so, preserve the is_dotted flag
-    SCM_List *last = l->next;
-    while (last->next) {
-      last = last->next;
-    }
-    // If the last node of cdr is dotted, keep it dotted
-    // Otherwise, it's a proper list, so no change needed
   } else if (is_nil(cdr_val)) {
     // If cdr is nil, just return the list with car
     // (already done, l->next is nullptr)
-- 
2.43.0


From 9b0d1084a9f27dd043e3745892677e66e66f18a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 35/79] fix: memv compares as eqv? does

---
 src/c/list.cc | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index f70b401..e855308 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 
 SCM *scm_list1(SCM *arg) {
   auto l = make_list(arg);
@@ -373,32 +374,6 @@ SCM *scm_c_length(SCM *lst) {
   return result;
 }
 
-// Helper function for eqv? comparison (used by memv)
-static bool _eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (!lhs || !rhs) return false;
-  
-  // Special case: allow NUM <-> FLOAT comparison (same as eq.cc)
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) return false;
-  
-  // For numbers (both NUM and FLOAT), use _number_eq for proper comparison
-  if (is_num(lhs) || is_float(lhs)) {
-    return _number_eq(lhs, rhs);
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs->value == rhs->value;
-}
-
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
 // Returns #f if obj is not found
 // eq? uses pointer equality for lists and pairs, but value equality for numbers, symbols, etc.
@@ -446,7 +421,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
-    if (current->data && _eqv(obj, current->data)) {
+    if (current->data && is_true(scm_c_is_eqv(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-- 
2.43.0


From 21912f135a630ec572f188a351fe37ff864c7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 36/79] fix: a ratio can be a key of hashv-ref and its
 relatives

---
 src/c/hash_table.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 584367f..52bd117 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -36,6 +36,9 @@ static unsigned long scm_hash_code_eqv(SCM *key) {
   if (is_bool(key)) {
     return is_true(key) ? 1 : 0;
   }
+  if (is_ratio(key)) {
+    return 0;
+  }
   // Fallback to pointer hash
   return scm_hash_code_eq(key);
 }
@@ -126,6 +129,9 @@ static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
   if (is_bool(lhs)) {
     return is_true(lhs) == is_true(rhs);
   }
+  if (is_ratio(lhs)) {
+    return _eq(lhs, rhs);
+  }
   return scm_cmp_eq(lhs, rhs);
 }
 
-- 
2.43.0


From 555a0bc5693a16d55869190cdb028046e10d59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 37/79] fix: comparisons of strings and symbols look past a NUL
 character

---
 src/c/eq.cc     |  4 ++--
 src/c/string.cc | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 1b679b3..063beaa 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -16,7 +16,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
   if (is_sym(lhs) && is_sym(rhs)) {
     auto sym1 = cast<SCM_Symbol>(lhs);
     auto sym2 = cast<SCM_Symbol>(rhs);
-    return strcmp(sym1->data, sym2->data) == 0;
+    return sym1->len == sym2->len && memcmp(sym1->data, sym2->data, sym1->len) == 0;
   }
   
   // Handle strings
@@ -26,7 +26,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
     if (str1->len != str2->len) {
       return false;
     }
-    return strncmp(str1->data, str2->data, str1->len) == 0;
+    return memcmp(str1->data, str2->data, str1->len) == 0;
   }
   
   // Mixed types (sym and str) are not equal
diff --git a/src/c/string.cc b/src/c/string.cc
index 2b67738..4632c07 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -262,7 +262,7 @@ SCM *scm_c_string_eq(SCM *str1, SCM *str2) {
     return scm_bool_false();
   }
   
-  if (strncmp(s1->data, s2->data, s1->len) == 0) {
+  if (memcmp(s1->data, s2->data, s1->len) == 0) {
     return scm_bool_true();
   }
   return scm_bool_false();
@@ -751,7 +751,7 @@ SCM *scm_c_string_lt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -775,7 +775,7 @@ SCM *scm_c_string_gt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -799,7 +799,7 @@ SCM *scm_c_string_le(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -823,7 +823,7 @@ SCM *scm_c_string_ge(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
-- 
2.43.0


From 7eeaf893d32f8619ddaf44598b0a87fc3038bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 38/79] fix: string-ci<? and its relatives order characters
 above 127 as char-ci<? does

---
 src/c/string.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 4632c07..55ef635 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -853,8 +853,8 @@ SCM *scm_c_string_ci_eq(SCM *str1, SCM *str2) {
   }
   
   for (int i = 0; i < s1->len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = (unsigned char)toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = (unsigned char)toupper((unsigned char)s2->data[i]);
     if (c1 != c2) {
       return scm_bool_false();
     }
@@ -877,8 +877,8 @@ SCM *scm_c_string_ci_lt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = (unsigned char)toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = (unsigned char)toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -905,8 +905,8 @@ SCM *scm_c_string_ci_gt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = (unsigned char)toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = (unsigned char)toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
@@ -933,8 +933,8 @@ SCM *scm_c_string_ci_le(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = (unsigned char)toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = (unsigned char)toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -961,8 +961,8 @@ SCM *scm_c_string_ci_ge(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = (unsigned char)toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = (unsigned char)toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
-- 
2.43.0


From 2f5f8604d2cfcc1e27f3cda5c4d6620fc0906016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 39/79] fix: string->number takes only what is a number as a
 whole

---
 src/c/string.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 55ef635..10e68c3 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -378,7 +378,23 @@ SCM *scm_c_string_to_number(SCM_List *args) {
   
   SCM *result = nullptr;
   
-  if (is_float_str && radix == 10) {
+  // Only digits, signs, a point and an exponent: strtol and strtod also take white space and "0x"
+  bool is_number_str = true;
+  for (int i = 0; i < s->len; i++) {
+    char c = str[i];
+    if (c == '+' || c == '-' || (radix == 10 && (c == '.' || c == 'e' || c == 'E'))) {
+      continue;
+    }
+    int digit = isdigit((unsigned char)c) ? c - '0' : isalpha((unsigned char)c) ? tolower((unsigned char)c) - 'a' + 10 : radix;
+    if (digit >= radix) {
+      is_number_str = false;
+      break;
+    }
+  }
+
+  if (!is_number_str) {
+    result = scm_bool_false();
+  } else if (is_float_str && radix == 10) {
     // Parse as float
     double val = strtod(str, &endptr);
     if (endptr == str || *endptr != '\0') {
-- 
2.43.0


From 71c5a96662fc217e7c57a34da5ed97429bd08ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:01 +0000
Subject: [PATCH 40/79] fix: divide and gcd the smallest integer correctly

---
 src/c/number.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 182777d..4033551 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -571,16 +571,21 @@ SCM *_create_num(int64_t val) {
   return data;
 }
 
+// The magnitude of a number; the smallest integer has none among the int64_t.
+static uint64_t magnitude(int64_t n) {
+  return n < 0 ? 0 - (uint64_t)n : (uint64_t)n;
+}
+
 // Helper function to compute GCD
-static int64_t gcd(int64_t a, int64_t b) {
-  a = a < 0 ? -a : a;
-  b = b < 0 ? -b : b;
+static int64_t gcd(int64_t lhs, int64_t rhs) {
+  uint64_t a = magnitude(lhs);
+  uint64_t b = magnitude(rhs);
   while (b != 0) {
-    int64_t temp = b;
+    uint64_t temp = b;
     b = a % b;
     a = temp;
   }
-  return a;
+  return (int64_t)a;
 }
 
 // gcd: Return the greatest common divisor of the arguments
@@ -667,17 +672,22 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
     return _create_num(0);
   }
   
+  // Simplify the fraction using GCD
+  int64_t g = gcd(numerator, denominator);
+  if (g > 0) {
+    numerator /= g;
+    denominator /= g;
+  } else {
+    // both are the smallest integer
+    numerator = denominator = 1;
+  }
+  
   // Normalize sign: denominator should be positive
   if (denominator < 0) {
     numerator = -numerator;
     denominator = -denominator;
   }
   
-  // Simplify the fraction using GCD
-  int64_t g = gcd(numerator, denominator);
-  numerator /= g;
-  denominator /= g;
-  
   // If denominator is 1, return an integer
   if (denominator == 1) {
     return _create_num(numerator);
-- 
2.43.0


From 487e4481ba0a340caac6c607609cbcbe39fd1f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 41/79] fix: run a foreign type's free function when its object
 is collected

---
 src/c/gc.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index bdadbff..e2c0480 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "gc.h"
+#include "smob.h"
 
 #include <sys/mman.h>
 #include <unistd.h>
@@ -772,6 +773,18 @@ static void trace_smob(GCBlock *, MarkStack *) {
   // SCM_Smob contains long, void*, int64_t -- no SCM* fields to trace.
 }
 
+static void sweep_smob(GCBlock *block) {
+  SCM_Smob *smob = (SCM_Smob *)block_to_obj(block);
+  SCM_SmobDescriptor *desc = scm_get_smob_descriptor(smob->tag);
+  if (desc && desc->free) {
+    SCM scm = {};
+    scm.type = SCM::SMOB;
+    scm.value = smob;
+    desc->free(&scm);
+  }
+  smob->tag = 0; // freed once: the block is swept again while it is unused
+}
+
 // =========================================================================
 // gc_init
 // =========================================================================
@@ -834,6 +847,7 @@ void gc_init() {
   sweep_fns[GC_SYMBOL]    = sweep_symbol;
   sweep_fns[GC_PORT]      = sweep_port;
   sweep_fns[GC_CONT]      = sweep_cont;
+  sweep_fns[GC_SMOB]      = sweep_smob;
 
   // 5. Set initial GC threshold.
   g_gc_threshold = INITIAL_HEAP_SIZE / 2;
-- 
2.43.0


From 582c7d3a82c1a41f50ab9bb02ffa08ea51f385d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 42/79] fix: free the path of a module that is resolved again

---
 src/c/module.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index cbd8924..c60f98c 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -411,10 +411,6 @@ SCM *scm_resolve_module(SCM_List *name) {
 
     // Restore current module
     scm_set_current_module(old_module);
-
-    if (full_path) {
-      free(full_path);
-    }
   } else {
     // File not found: warn if module was just created (no code for module)
     // This matches Guile 1.8's behavior: use-modules warns/errors when no code found
@@ -438,6 +434,7 @@ SCM *scm_resolve_module(SCM_List *name) {
     }
   }
   
+  free(full_path);
   return module;
 }
 
-- 
2.43.0


From b43b8df7e63f730011ee2329848bdb6b67d873d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 43/79] fix: setting a boolean option to #f turns it off

---
 src/c/debug.cc | 3 ++-
 src/c/read.cc  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/debug.cc b/src/c/debug.cc
index 12a935a..eb038c8 100644
--- a/src/c/debug.cc
+++ b/src/c/debug.cc
@@ -187,7 +187,8 @@ static void change_debug_option_setting(SCM_List *args) {
           SCM *next_val = current->next->data;
           // Check if it's #f
           if (is_bool(next_val) && next_val == scm_bool_false()) {
-            // Don't set the option (leave it as false)
+            // Set to false, even if it was named before
+            temp_vals[opt_idx] = 0;
             current = current->next->next;
           } else {
             // Set to true
diff --git a/src/c/read.cc b/src/c/read.cc
index fa477e4..72b84ff 100644
--- a/src/c/read.cc
+++ b/src/c/read.cc
@@ -198,7 +198,8 @@ static void change_read_option_setting(SCM_List *args) {
           SCM *next_val = current->next->data;
           // Check if it's #f
           if (is_bool(next_val) && next_val == scm_bool_false()) {
-            // Don't set the option (leave it as false)
+            // Set to false, even if it was named before
+            temp_vals[opt_idx] = 0;
             current = current->next->next;
           } else {
             // Set to true
-- 
2.43.0


From 11a7837761c409daa8b35588f51f984db4a4c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 44/79] fix: a number that goes on is no number, and one out of
 range is an error

12abc was read as 12 and abc, and an integer that does not fit as another one.
---
 src/c/parse.cc | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index f02b939..882f775 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -310,6 +310,29 @@ static char consume(Parser *p) {
   return c;
 }
 
+// Does the token before this character end here?
+static bool is_delimiter(char c) {
+  return c == '\0' || isspace((unsigned char)c) || strchr("()\";'`,", c) != nullptr;
+}
+
+// Read the digits at the parser's position as a number. A number that does
+// not fit is an error, not some other number.
+static long parse_digits(Parser *p, bool negative) {
+  long value = 0;
+  bool overflow = false;
+  while (isdigit((unsigned char)*p->pos)) {
+    int digit = *p->pos - '0';
+    overflow = __builtin_mul_overflow(value, 10L, &value) || overflow;
+    overflow = __builtin_add_overflow(value, negative ? -digit : digit, &value) || overflow;
+    p->pos++;
+    p->column++;
+  }
+  if (overflow && *p->pos != '.' && *p->pos != 'e' && *p->pos != 'E') {
+    parse_error(p, "number out of range");
+  }
+  return value;
+}
+
 // Parse a number (only if it starts with a digit, or +/- followed by a digit)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
@@ -338,12 +361,7 @@ static SCM *parse_number(Parser *p) {
   }
   
   // Parse integer part
-  long int_part = 0;
-  while (isdigit((unsigned char)*p->pos)) {
-    int_part = int_part * 10 + (*p->pos - '0');
-    p->pos++;
-    p->column++;
-  }
+  long int_part = parse_digits(p, negative);
   
   // Check for decimal point
   bool is_float = false;
@@ -389,20 +407,21 @@ static SCM *parse_number(Parser *p) {
   if (!is_float && *p->pos == '/' && isdigit((unsigned char)p->pos[1])) {
     p->pos++;
     p->column++;
-    long denominator = 0;
-    while (isdigit((unsigned char)*p->pos)) {
-      denominator = denominator * 10 + (*p->pos - '0');
-      p->pos++;
-      p->column++;
+    long denominator = parse_digits(p, false);
+    if (!is_delimiter(*p->pos)) {
+      p->pos = start;
+      p->column = start_column;
+      return nullptr; // Not a number, let it be parsed as symbol
     }
-    SCM *ratio = scm_make_ratio(negative ? -int_part : int_part, denominator);
+    SCM *ratio = scm_make_ratio(int_part, denominator);
     set_source_location(ratio, p->filename, start_line, start_column);
     return ratio;
   }
   
-  // Apply sign
-  if (negative) {
-    int_part = -int_part;
+  if (!is_delimiter(*p->pos)) {
+    p->pos = start;
+    p->column = start_column;
+    return nullptr; // Not a number, let it be parsed as symbol
   }
   
   // Create SCM object
-- 
2.43.0


From 226687143b3667a6c033894f2b18214e7de359cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 45/79] fix: read a comma abbreviation wherever an expression
 can stand

After ,@ and after a quote and a space, and as a whole datum, it was an error.
---
 src/c/parse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 882f775..401161e 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1224,6 +1224,11 @@ static SCM *parse_expr(Parser *p) {
     return parse_quasiquote(p);
   }
   
+  // Unquote
+  if (*p->pos == ',') {
+    return parse_unquote_in_list(p);
+  }
+  
   // List
   if (*p->pos == '(') {
     return parse_list(p);
-- 
2.43.0


From 6b72cbbd809f826d7f1fae82799cc0ef52d20d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 46/79] fix: a dot out of place is an error

It was read as a symbol that write could not tell from a dotted pair.
---
 src/c/parse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 401161e..63c6be7 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -849,6 +849,9 @@ static SCM *parse_symbol(Parser *p) {
   if (len == 0) {
     return nullptr;
   }
+  if (len == 1 && *start == '.') {
+    parse_error(p, "unexpected dot");
+  }
   
   // Build symbol name, filtering out backslash escape characters
   char *sym_data = new char[len + 1];
-- 
2.43.0


From a8963acedd5f8b38af2fcca1bca0bb4318e0ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 47/79] fix: a string or a quote can follow #t and #f directly

---
 src/c/parse.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 63c6be7..e3686a8 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -806,9 +806,7 @@ static SCM *parse_symbol(Parser *p) {
   int len = 0;
   
   // Check for special literals first
-  if (strncmp(p->pos, "#t", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#t", 2) == 0 && is_delimiter(p->pos[2])) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_true();
@@ -816,9 +814,7 @@ static SCM *parse_symbol(Parser *p) {
     return result;
   }
   
-  if (strncmp(p->pos, "#f", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#f", 2) == 0 && is_delimiter(p->pos[2])) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_false();
-- 
2.43.0


From 500e2f51f435cc7380a532daf9195cd10a477db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 48/79] fix: an unknown character name is an error

#\abc was read as #\a and bc.
---
 src/c/parse.cc | 143 ++++++++++---------------------------------------
 1 file changed, 28 insertions(+), 115 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index e3686a8..23661af 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -6,6 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
@@ -456,124 +457,36 @@ static SCM *parse_char(Parser *p) {
     parse_error(p, "unexpected end of input in character literal");
   }
   
-  char ch;
-  
-  // Check for whitespace character (space, tab, newline)
-  // This handles #\ followed by a space character
-  if (isspace((unsigned char)*p->pos)) {
-    if (*p->pos == ' ') {
-      ch = ' ';
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '\n') {
-      ch = '\n';
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '\t') {
-      ch = '\t';
-      p->pos++;
-      p->column++;
-    } else {
-      // Other whitespace, just use it as-is
-      ch = *p->pos;
-      p->pos++;
-      p->column++;
-    }
-  }
-  // Check for named characters (case-insensitive)
-  else if (isalpha((unsigned char)*p->pos)) {
-    const char *name_start = p->pos;
-    while (isalpha((unsigned char)*p->pos)) {
-      p->pos++;
-      p->column++;
-    }
-    
-    int len = p->pos - name_start;
-    // Check for common named characters (case-insensitive)
-    // Use case-insensitive comparison
-    if (len == 5) {
-      // Check for "space" (case-insensitive: space, Space, SPACE, etc.)
-      char name_lower[6];
-      for (int i = 0; i < 5; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[5] = '\0';
-      if (strcmp(name_lower, "space") == 0) {
-        ch = ' ';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else if (len == 7) {
-      // Check for "newline" (case-insensitive)
-      char name_lower[8];
-      for (int i = 0; i < 7; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[7] = '\0';
-      if (strcmp(name_lower, "newline") == 0) {
-        ch = '\n';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else if (len == 3) {
-      // Check for "tab" (case-insensitive)
-      // Also support "ht" for compatibility, though it's 2 characters
-      char name_lower[4];
-      for (int i = 0; i < 3; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[3] = '\0';
-      if (strcmp(name_lower, "tab") == 0) {
-        ch = '\t';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else if (len == 2) {
-      // Check for "ht" (horizontal tab, R4RS standard name)
-      char name_lower[3];
-      for (int i = 0; i < 2; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[2] = '\0';
-      if (strcmp(name_lower, "ht") == 0) {
-        ch = '\t';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else {
-      // Not a named character, treat the first character as the character value
-      // This handles cases like #\A where A is a letter
-      p->pos = name_start;
-      p->column = start_column + 2;
-      ch = *p->pos;
-      p->pos++;
-      p->column++;
+  // Whatever follows the backslash is the character or begins its name; a
+  // white space is always the character
+  const char *name = p->pos;
+  do {
+    if (*p->pos == '\n') {
+      p->line++;
+      p->column = 0;
     }
-  } else {
-    // Single character (non-letter or any single char after #\)
-    ch = *p->pos;
     p->pos++;
     p->column++;
+  } while (!isspace((unsigned char)*name) && !is_delimiter(*p->pos));
+  
+  char ch = *name;
+  size_t len = p->pos - name;
+  if (len > 1) {
+    // A name, in upper or lower case; ht is the R4RS name of tab
+    static const struct {
+      const char *name;
+      char ch;
+    } char_names[] = {{"space", ' '}, {"newline", '\n'}, {"tab", '\t'}, {"ht", '\t'}};
+    bool found = false;
+    for (auto &known : char_names) {
+      if (len == strlen(known.name) && strncasecmp(name, known.name, len) == 0) {
+        ch = known.ch;
+        found = true;
+      }
+    }
+    if (!found) {
+      parse_error(p, "unknown character name");
+    }
   }
   
   SCM *scm = scm_from_char(ch);
-- 
2.43.0


From d8727e8f415edd111ba54abb3433d8b30a3aa6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 49/79] fix: write shows the character 0 as #\nul, which read
 takes

It was written as #\ and the character itself, which cannot be read.
---
 src/c/parse.cc | 2 +-
 src/c/print.cc | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 23661af..42a78be 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -476,7 +476,7 @@ static SCM *parse_char(Parser *p) {
     static const struct {
       const char *name;
       char ch;
-    } char_names[] = {{"space", ' '}, {"newline", '\n'}, {"tab", '\t'}, {"ht", '\t'}};
+    } char_names[] = {{"space", ' '}, {"newline", '\n'}, {"tab", '\t'}, {"ht", '\t'}, {"nul", '\0'}};
     bool found = false;
     for (auto &known : char_names) {
       if (len == strlen(known.name) && strncasecmp(name, known.name, len) == 0) {
diff --git a/src/c/print.cc b/src/c/print.cc
index a7827fd..cc935f8 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -117,6 +117,8 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
         printf("#\\newline");
       } else if (ch == '\t') {
         printf("#\\ht");
+      } else if (ch == '\0') {
+        printf("#\\nul");
       } else {
         printf("#\\%c", ch);
       }
-- 
2.43.0


From f72314628d7ae1d7f62255fdf41b71108aa4c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 50/79] fix: read ends a datum that ends in # before a list

#{a}#(b) and #\#(b) were taken for the beginning of a vector, and lost.
---
 src/c/port.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c00196e..b56cf8b 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -600,13 +600,14 @@ static bool take_string(SCM_Port *port, std::string &buffer) {
   }
 }
 
-// Copy a symbol, number, character or the like, up to a delimiter
-static void take_atom(SCM_Port *port, std::string &buffer) {
+// Copy a symbol, number, character or the like, up to a delimiter. Returns
+// false if it is the # of a vector: the list follows.
+static bool take_atom(SCM_Port *port, std::string &buffer) {
   if (peek_char_from_port(port) == '#') {
     take_char(port, buffer);
     int ch = peek_char_from_port(port);
     if (ch == '(') {
-      return;  // a vector: the list follows
+      return false;
     }
     if (ch == '{') {
       // A symbol #{...}#
@@ -624,7 +625,7 @@ static void take_atom(SCM_Port *port, std::string &buffer) {
   while (true) {
     int ch = peek_char_from_port(port);
     if (ch == EOF || isspace(ch) || strchr("()\";'`,", ch)) {
-      return;
+      return true;
     }
     bool escape = ch == '\\';
     take_char(port, buffer);
@@ -665,11 +666,8 @@ static SCM *read_expr_from_port(SCM_Port *port) {
       if (!take_string(port, buffer)) {
         return scm_eof_object();
       }
-    } else {
-      take_atom(port, buffer);
-      if (buffer.back() == '#' && peek_char_from_port(port) == '(') {
-        continue;
-      }
+    } else if (!take_atom(port, buffer)) {
+      continue;
     }
     if (depth <= 0) {
       break;
-- 
2.43.0


From 84e8edb3529571bcf294a95a6cbdf8f9f12dd248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:33 +0000
Subject: [PATCH 51/79] fix: a soft port with only a string procedure takes
 single characters

write-char and newline to it were lost.
---
 src/c/port.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index b56cf8b..6da53ad 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -379,12 +379,16 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
   } else if (port->port_type == PORT_SOFT && port_direction(port, 'w')) {
-    // Call procedure at index 0 (accept one character for output)
+    // Call procedure at index 0 (accept one character for output), or else
+    // the one at index 1 (accept a string for output)
     if (!port->soft_procedures || port->soft_procedures->length < 1) {
       return;
     }
     SCM *write_char_proc = port->soft_procedures->elements[0];
     if (!write_char_proc || is_falsy(write_char_proc)) {
+      if (port->soft_procedures->length > 1 && !is_falsy(port->soft_procedures->elements[1])) {
+        scm_call_1(port->soft_procedures->elements[1], scm_from_c_string_port(&ch, 1));
+      }
       return;
     }
     scm_call_1(write_char_proc, scm_from_char(ch));
-- 
2.43.0


From 0cb47a8c5a37ffe1eb899ccb4b0f0a8776068d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:26 +0000
Subject: [PATCH 52/79] fix: read ends a character that is a white space right
 there

The next datum was taken for a part of it.
---
 src/c/port.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 6da53ad..2174787 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -621,9 +621,14 @@ static bool take_atom(SCM_Port *port, std::string &buffer) {
       }
       take_char(port, buffer);
     } else if (ch == '\\') {
-      // A character: whatever follows the backslash is part of it
+      // A character: whatever follows the backslash is part of it, and a
+      // white space all of it
       take_char(port, buffer);
+      ch = peek_char_from_port(port);
       take_char(port, buffer);
+      if (ch != EOF && isspace(ch)) {
+        return true;
+      }
     }
   }
   while (true) {
-- 
2.43.0


From 4247296eb830be70818cfe3df4bb945bf06f85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 53/79] fix: the interactive loop takes strings of several
 lines, comments and long lines

---
 src/c/repl.cc | 85 +++++++++++++++++++++------------------------------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 50ea3cd..9457bff 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -4,59 +4,42 @@
 
 #include "pscm.h"
 
-// Check if parentheses are balanced in the input string
-static bool is_balanced(const char *s) {
+// Whether the input can be parsed: no list or string is left open.
+// (A closing parenthesis too many is an error that more input cannot repair.)
+static bool is_complete(const char *s) {
   int depth = 0;
-  bool in_string = false;
-  bool escaped = false;
-  bool in_comment = false;
-  
   for (const char *p = s; *p; p++) {
-    if (escaped) {
-      escaped = false;
-      continue;
-    }
-    
-    if (*p == '\\') {
-      escaped = true;
-      continue;
-    }
-    
-    if (in_comment) {
-      if (*p == '\n') {
-        in_comment = false;
+    if (*p == ';') {
+      while (p[1] && *p != '\n') {
+        p++;
       }
-      continue;
     }
-    
-    if (*p == '"') {
-      in_string = !in_string;
-      continue;
-    }
-    
-    if (in_string) {
-      continue;
+    else if (*p == '"') {
+      for (p++; *p && *p != '"'; p++) {
+        if (*p == '\\' && p[1]) {
+          p++;
+        }
+      }
+      if (!*p) {
+        return false;
+      }
     }
-    
-    if (*p == ';') {
-      in_comment = true;
-      continue;
+    else if (*p == '\\' && p[1]) {
+      p++; // a character such as #\(
     }
-    
-    if (*p == '(') {
+    else if (*p == '(') {
       depth++;
-    } else if (*p == ')') {
+    }
+    else if (*p == ')') {
       depth--;
       if (depth < 0) {
-        return false;  // Unmatched closing parenthesis
+        return true;
       }
     }
   }
-  
   return depth == 0;
 }
 
-
 void repl() {
   char line_buffer[4096];  // Buffer for each line
   size_t total_size = 4096;
@@ -66,27 +49,21 @@ void repl() {
     return;
   }
   input_buffer[0] = '\0';
+  bool line_unfinished = false;
   
   while (true) {
     // Show prompt: "pscm> " for first line, "  ...> " for continuation
-    if (input_buffer[0] == '\0') {
+    if (line_unfinished) {
+    }
+    else if (input_buffer[0] == '\0') {
       printf("pscm> ");
     } else {
       printf("  ...> ");
     }
     
     if (fgets(line_buffer, sizeof(line_buffer), stdin) != NULL) {
-      // Check if input line is too long
       size_t line_len = strlen(line_buffer);
-      if (line_len > 0 && line_buffer[line_len - 1] != '\n') {
-        // Input was truncated, clear remaining input
-        int c;
-        while ((c = getchar()) != '\n' && c != EOF) {
-          // Discard remaining characters
-        }
-        printf("Warning: input line too long, truncated\n");
-      }
-      
+
       // Append line to input buffer
       size_t current_len = strlen(input_buffer);
       size_t needed_size = current_len + line_len + 1;
@@ -105,8 +82,14 @@ void repl() {
       
       strcat(input_buffer, line_buffer);
       
-      // Check if parentheses are balanced
-      if (is_balanced(input_buffer)) {
+      // The rest of a long line is still to be read
+      if (line_len == sizeof(line_buffer) - 1 && line_buffer[line_len - 1] != '\n') {
+        line_unfinished = true;
+        continue;
+      }
+      line_unfinished = false;
+
+      if (is_complete(input_buffer)) {
         // Skip whitespace to check if input is empty
         const char *p = input_buffer;
         while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
-- 
2.43.0


From 5b956588826ed8a9c0d4de5e8008a9cdcf9e7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 54/79] fix: the interactive loop survives a parse error and
 evaluates every expression of a line

---
 src/c/repl.cc | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 9457bff..3f67379 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -3,6 +3,7 @@
 #include <string.h>
 
 #include "pscm.h"
+#include "throw.h"
 
 // Whether the input can be parsed: no list or string is left open.
 // (A closing parenthesis too many is an error that more input cannot repair.)
@@ -40,6 +41,27 @@ static bool is_complete(const char *s) {
   return depth == 0;
 }
 
+// Parse the input; an error is reported and leaves no expressions.
+static SCM_List *parse_input(const char *input) {
+  struct Data {
+    const char *input;
+    SCM_List *exprs;
+  } data = { input, nullptr };
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *d) -> SCM * {
+        auto data = (Data *)d;
+        data->exprs = parse_string(data->input);
+        return scm_none();
+      },
+      &data,
+      [](void *, SCM *, SCM *) -> SCM * {
+        return scm_none();
+      },
+      nullptr);
+  return data.exprs;
+}
+
 void repl() {
   char line_buffer[4096];  // Buffer for each line
   size_t total_size = 4096;
@@ -90,24 +112,16 @@ void repl() {
       line_unfinished = false;
 
       if (is_complete(input_buffer)) {
-        // Skip whitespace to check if input is empty
-        const char *p = input_buffer;
-        while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
-          p++;
-        }
-        
-        // Only parse if there's actual content
-        if (*p != '\0') {
-          // Expression is complete, parse and evaluate
-          auto ast = parse(input_buffer);
-          print_ast(ast);
+        // Evaluate the expressions of the input, if there are any
+        for (auto it = parse_input(input_buffer); it; it = it->next) {
+          print_ast(it->data);
           printf("\n");
-          auto val = eval(ast);
+          auto val = eval(it->data);
           printf(" --> ");
           print_ast(val);
           printf("\n");
         }
-        
+
         // Reset buffer for next expression
         input_buffer[0] = '\0';
       }
-- 
2.43.0


From a9c54b5c8182e93f7587acbd5af395b4c421fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 55/79] fix: a script or loaded file may be empty

---
 src/c/load.cc  | 10 ++++++----
 src/c/parse.cc |  5 ++++-
 src/c/pscm.h   |  3 ++-
 src/main.cc    |  5 +++--
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/c/load.cc b/src/c/load.cc
index 12cb3c8..90d4345 100644
--- a/src/c/load.cc
+++ b/src/c/load.cc
@@ -26,8 +26,9 @@ SCM *scm_c_primitive_load(const char *filename) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
   
   // Use existing parse_file helper to get list of expressions
-  SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  bool ok = false;
+  SCM_List *expr_list = parse_file(filename, &ok);
+  if (!ok) {
     eval_error("primitive-load: failed to load file: %s", filename);
   }
 
@@ -42,8 +43,9 @@ SCM *scm_c_primitive_load(const char *filename) {
 SCM *scm_c_primitive_load_with_env(const char *filename, SCM_Environment *env) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
 
-  SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  bool ok = false;
+  SCM_List *expr_list = parse_file(filename, &ok);
+  if (!ok) {
     eval_error("primitive-load: failed to load file: %s", filename);
     return nullptr;
   }
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 42a78be..c387861 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1352,8 +1352,11 @@ static char *read_file_content(const char *filename) {
 }
 
 // Parse file and return list of expressions
-SCM_List *parse_file(const char *filename) {
+SCM_List *parse_file(const char *filename, bool *ok) {
   char *content = read_file_content(filename);
+  if (ok) {
+    *ok = content != nullptr;
+  }
   if (!content) {
     return nullptr;
   }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 717556e..44c528f 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -725,7 +725,8 @@ SCM *scm_c_display(SCM_List *args);
  * Functions in parse.cc
  */
 SCM *parse(const char *s);
-SCM_List *parse_file(const char *filename);
+// Null for an empty file too: *ok tells whether the file could be read
+SCM_List *parse_file(const char *filename, bool *ok = nullptr);
 SCM_List *parse_string(const char *str);  // Parse string and return list of expressions
 
 /*
diff --git a/src/main.cc b/src/main.cc
index 44664e0..ac80dd4 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -43,8 +43,9 @@ int do_eval(const char *filename) {
   long stack_marker;
   gc_set_stack_top(&stack_marker);
   pscm_init();
-  auto l = pscm_parse_file(filename);
-  if (!l) {
+  bool ok = false;
+  auto l = parse_file(filename, &ok);
+  if (!ok) {
     fprintf(stderr, "ERROR: failed to parse file: %s\n", filename);
     return 1;
   }
-- 
2.43.0


From 4801ac296d8ec65daac60159a928ef70ac7f4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 56/79] fix: log messages go to standard error

---
 src/c/pscm.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/c/pscm.h b/src/c/pscm.h
index 44c528f..6f5533c 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -873,10 +873,8 @@ SCM *scm_c_set_cdr(SCM *pair, SCM *value);
 #define SCM_LOGGING(level, category, fmt, ...)                                                                         \
   {                                                                                                                    \
     if (debug_enabled || level >= SCM_LOG_LEVEL_ERROR) {                                                               \
-      printf(category);                                                                                                \
-      printf(" ");                                                                                                     \
-      SCM_FILENAME_LINENO();                                                                                           \
-      printf(fmt, ##__VA_ARGS__);                                                                                      \
+      fprintf(stderr, category " %s:%d ", __FILE_NAME__, __LINE__);                                                    \
+      fprintf(stderr, fmt, ##__VA_ARGS__);                                                                             \
     }                                                                                                                  \
   }                                                                                                                    \
   while (0)                                                                                                            \
-- 
2.43.0


From 15a6eacd8110ff1491c80f443f8e9cb78bf429b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 57/79] fix: the interactive loop goes on where it is when a
 continuation is reentered

---
 src/c/repl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 3f67379..35ead20 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -72,6 +72,8 @@ void repl() {
   }
   input_buffer[0] = '\0';
   bool line_unfinished = false;
+  // The first evaluation sets it below this frame: reentering a continuation leaves the state of the loop alone
+  cont_base = nullptr;
   
   while (true) {
     // Show prompt: "pscm> " for first line, "  ...> " for continuation
-- 
2.43.0


From 9e38dfb3fb08aace89105c35b47bce1e0508d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 58/79] fix: set! in a procedure of a module changes the
 variable of that module

---
 src/c/eval.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 38e41fe..a4e2d6d 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -101,8 +101,17 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     if (entry) {
       entry->value = val;
     } else {
-      // Not found in environment, check if it's in the current module
+      // Not found in environment: the variable may be one of the module the code
+      // belongs to (as in scm_env_search), or else of the current module
       SCM *current_mod = scm_current_module();
+      for (SCM_Environment *e = env; e; e = e->parent) {
+        if (e->module) {
+          if (module_find_variable_module(e->module, sym)) {
+            current_mod = wrap(e->module);
+          }
+          break;
+        }
+      }
       if (current_mod && is_module(current_mod)) {
         SCM_Module *module = cast<SCM_Module>(current_mod);
         SCM_Module *var_module = module_find_variable_module(module, sym);
-- 
2.43.0


From dc7233ed701540c658cbe9aefb066c5dd6a469e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 59/79] fix: module-bound? is true for a variable whose value
 is #f

---
 src/c/module.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index c60f98c..15f16b2 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -701,9 +701,8 @@ SCM *scm_c_module_bound_p(SCM *module, SCM *symbol) {
   
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *sym = cast<SCM_Symbol>(symbol);
-  SCM *var = scm_module_variable(mod, sym, false);
-  
-  return var && !is_falsy(var) ? scm_bool_true() : scm_bool_false();
+  // The value may be #f
+  return module_search_variable(mod, sym) ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_module_p(SCM *obj) {
-- 
2.43.0


From 8df2d07a20f3210935f726957995136a1efe3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 60/79] fix: use-modules does not print the name of the module

---
 src/c/module.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 15f16b2..89269a6 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -848,7 +848,6 @@ SCM *eval_use_modules(SCM_Environment *env, SCM_List *l) {
     if (is_pair(spec_scm)) {
       SCM_List *name = cast<SCM_List>(spec_scm);
       SCM *module_scm = scm_resolve_module(name);
-      print_list(name); printf("\n");
       SCM_Module *module = cast<SCM_Module>(module_scm);
       
       // Get module's public interface
-- 
2.43.0


From faf102423acc12ab468b76672428cb8219d9d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:04 +0000
Subject: [PATCH 61/79] fix: define-module takes a list of names to export

---
 src/c/module.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 89269a6..fb0c6eb 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -776,8 +776,17 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
         opts = opts->next;
       }
       else if (strcmp(kw_name, "export") == 0) {
-        // #:export sym ...
+        // #:export sym ... or #:export (sym ...)
         opts = opts->next;
+        if (opts && is_pair(opts->data)) {
+          for (SCM_List *sym = cast<SCM_List>(opts->data); sym; sym = sym->next) {
+            if (sym->data && is_sym(sym->data)) {
+              scm_module_export(cast<SCM_Module>(module_scm), cast<SCM_Symbol>(sym->data));
+            }
+          }
+          opts = opts->next;
+          continue;
+        }
         while (opts && opts->data && is_sym(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
-- 
2.43.0


From f1624a359cc92cd36a684252a5c865692ec836ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:46 +0000
Subject: [PATCH 62/79] fix: a module's users see the present value of what it
 exports, and set! through a use changes it

---
 src/c/eval.cc   |  2 +-
 src/c/module.cc | 71 ++++++++++++++++++++++++++++++++++++++++++-------
 src/c/pscm.h    |  1 +
 3 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index a4e2d6d..8f0cd8a 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -346,7 +346,7 @@ entry:
           while (uses && !var) {
             SCM *use_mod = uses->data;
             if (is_module(use_mod))
-              var = module_obarray_lookup(cast<SCM_Module>(use_mod), sym);
+              var = module_used_lookup(cast<SCM_Module>(use_mod), sym);
             uses = uses->next;
           }
         }
diff --git a/src/c/module.cc b/src/c/module.cc
index fb0c6eb..03f99ab 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -63,11 +63,64 @@ SCM *scm_set_current_module(SCM *module) {
   return old;
 }
 
+static bool is_interface(SCM_Module *module) {
+  return module->public_interface && module->kind && strcmp(module->kind->data, "interface") == 0;
+}
+
+// The module whose variable sym is what a use of `use` gives, or nullptr: a module that
+// exports something gives what it exports, another one all of its own variables.
+// What an interface exports is looked up in its module, so that it is never out of date.
+struct UsePath {
+  SCM_Module *module;
+  UsePath *prev;
+};
+static SCM_Module *used_variable_module(SCM_Module *use, SCM_Symbol *sym, UsePath *prev = nullptr) {
+  SCM_Module *owner = is_interface(use) ? use->public_interface : use;
+  auto handle = [sym](SCM_Module *module) {
+    return scm_c_hash_get_handle_eq(wrap(module->obarray), wrap(sym));
+  };
+  auto has = [&](SCM_Module *module) { return is_pair(handle(module)); };
+  SCM_Module *iface = owner->public_interface;
+  if (iface && !has(iface)) {
+    return nullptr;
+  }
+  if (has(owner)) {
+    return owner;
+  }
+  if (!iface) {
+    return nullptr;
+  }
+  // re-exported (modules can use each other)
+  for (UsePath *p = prev; p; p = p->prev) {
+    if (p->module == owner) {
+      return nullptr;
+    }
+  }
+  UsePath path = { owner, prev };
+  for (SCM_List *uses = owner->uses; uses; uses = uses->next) {
+    SCM_Module *found = used_variable_module(cast<SCM_Module>(uses->data), sym, &path);
+    if (found) {
+      return found;
+    }
+  }
+  // from elsewhere (a binder, say): the interface has the value of the time of the export
+  return is_none(cdr(handle(iface))) ? nullptr : iface;
+}
+
+// What a use of `use` gives for sym, or nullptr
+SCM *module_used_lookup(SCM_Module *use, SCM_Symbol *sym) {
+  SCM_Module *found = used_variable_module(use, sym);
+  return found ? cdr(scm_c_hash_get_handle_eq(wrap(found->obarray), wrap(sym))) : nullptr;
+}
+
 // Helper function to lookup variable in module's obarray
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
-  
+  if (is_interface(module)) {
+    return module_used_lookup(module, sym);
+  }
+
   SCM *handle = scm_c_hash_get_handle_eq(wrap(module->obarray), wrap(sym));
   // hash-get-handle returns #f if key not found, or (key . value) if found
   // We check if handle is #f (not found) vs. a pair (found, value could be #f)
@@ -96,7 +149,7 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
       SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
-      var = module_obarray_lookup(use_module, sym);
+      var = module_used_lookup(use_module, sym);
       if (var) {
         return var;  // Found (value can be #f)
       }
@@ -197,8 +250,9 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
       SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
-      if (module_obarray_lookup(use_module, sym)) {
-        return use_module;  // Found in use module
+      SCM_Module *found = used_variable_module(use_module, sym);
+      if (found) {
+        return found;  // Found through use module
       }
     }
     uses = uses->next;
@@ -459,9 +513,7 @@ static SCM_Module *scm_ensure_public_interface(SCM_Module *module) {
     if (exp->data && is_sym(exp->data)) {
       SCM_Symbol *sym = cast<SCM_Symbol>(exp->data);
       SCM *val = module_obarray_lookup(module, sym);
-      if (val) {
-        scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-      }
+      scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val ? val : scm_none());
     }
     exp = exp->next;
   }
@@ -484,9 +536,8 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym) {
   // re-export after use-modules works: the symbol may live in a used
   // module's obarray, not the current module's own obarray.
   SCM *val = module_search_variable(module, sym);
-  if (val) {
-    scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-  }
+  // The variable may be defined later: the interface only tells that it is exported
+  scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val ? val : scm_none());
 }
 
 // Update module's public interface
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 6f5533c..7072945 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1022,6 +1022,7 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 
 // Module helper functions (for internal use, but may be used by other modules)
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
+SCM *module_used_lookup(SCM_Module *use, SCM_Symbol *sym);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
 
-- 
2.43.0


From a0d604c9856e2e9f58ddc40771b2848204a28c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 63/79] fix: an error while a module's file is loaded restores
 the current module

---
 src/c/module.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 03f99ab..8d85579 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 
 // Current module (using simple global variable, can be changed to fluid in the future)
 static SCM *g_current_module = nullptr;
@@ -340,6 +341,23 @@ static bool file_exists(const char *path) {
   return false;
 }
 
+// What loading the file of a module needs, and how it ends in an error
+struct LoadModuleData {
+  const char *path;
+  SCM_Environment *env;
+  SCM *old_module;
+};
+
+static SCM *load_module_body(void *data) {
+  auto load = (LoadModuleData *)data;
+  return scm_c_primitive_load_with_env(load->path, load->env);
+}
+
+static SCM *load_module_error(void *data, SCM *key, SCM *args) {
+  scm_set_current_module(((LoadModuleData *)data)->old_module);
+  return scm_throw(key, args);
+}
+
 // Resolve module name, return module object
 SCM *scm_resolve_module(SCM_List *name) {
   // Initialize registry if needed
@@ -460,10 +478,10 @@ SCM *scm_resolve_module(SCM_List *name) {
     // to decide where to insert bindings).
     scm_set_current_module(module);
 
-    // Load and evaluate file in module-aware environment
-    scm_c_primitive_load_with_env(found_path, module_env);
-
-    // Restore current module
+    // Load and evaluate file in module-aware environment, and restore the current
+    // module, also when that ends in an error
+    LoadModuleData data = { found_path, module_env, old_module };
+    scm_c_catch(scm_bool_true(), load_module_body, &data, load_module_error, &data);
     scm_set_current_module(old_module);
   } else {
     // File not found: warn if module was just created (no code for module)
-- 
2.43.0


From 99c2ed0ce90740e112e5ac53bba81e1142d9a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 64/79] fix: code of a module's file uses the macros of its own
 module first

---
 src/c/eval.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 8f0cd8a..0650796 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -333,6 +333,19 @@ entry:
     for (SCM_Environment *e = env->parent; !val && e && e != &g_env; e = e->parent) {
       val = scm_env_exist(e, sym);
     }
+    // Code of a module (loaded from its file) sees the macros of its own module first
+    for (SCM_Environment *e = env; !val && e && e != &g_env; e = e->parent) {
+      if (!e->module) {
+        continue;
+      }
+      val = module_obarray_lookup(e->module, sym);
+      for (SCM_List *uses = e->module->uses; uses && !val; uses = uses->next) {
+        if (is_module(uses->data)) {
+          val = module_used_lookup(cast<SCM_Module>(uses->data), sym);
+        }
+      }
+      break;
+    }
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
-- 
2.43.0


From 441bc47b86f857268eab700943eff67fe7c745cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:29 +0000
Subject: [PATCH 65/79] fix: define-module takes its options in any order, and
 a list of names to autoload

---
 src/c/module.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 8d85579..ebd4534 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -778,6 +778,19 @@ SCM *scm_c_module_p(SCM *obj) {
   return is_module(obj) ? scm_bool_true() : scm_bool_false();
 }
 
+// Whether obj names an option of define-module (#:name reads as the symbol name)
+static bool is_define_module_option(SCM *obj) {
+  if (!is_sym(obj)) {
+    return false;
+  }
+  for (const char *name : { "use-module", "export", "pure", "autoload", "no-backtrace" }) {
+    if (strcmp(cast<SCM_Symbol>(obj)->data, name) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 // define-module special form
 SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
   // Syntax: (define-module name [options ...])
@@ -856,7 +869,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
           opts = opts->next;
           continue;
         }
-        while (opts && opts->data && is_sym(opts->data)) {
+        while (opts && opts->data && is_sym(opts->data) && !is_define_module_option(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
           opts = opts->next;
@@ -873,18 +886,26 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
         SCM *mod_name_spec = opts->next->data;
         if (is_pair(mod_name_spec)) {
           SCM_List *mod_name = cast<SCM_List>(mod_name_spec);
-          // Collect symbols from opts->next->next onward
+          // Collect symbols from opts->next->next onward, or from a list of them
           SCM_List *sym_tail = opts->next->next;
+          const bool in_list = sym_tail && is_pair(sym_tail->data);
+          opts = in_list ? sym_tail : opts->next;
+          if (in_list) {
+            sym_tail = cast<SCM_List>(sym_tail->data);
+          }
           // Build symbol list: (sym1 sym2 ...)
           SCM_List sym_list_dummy = make_list_dummy();
           SCM_List *sym_list_tail = &sym_list_dummy;
-          while (sym_tail) {
+          while (sym_tail && (in_list || !is_define_module_option(sym_tail->data))) {
             if (sym_tail->data && is_sym(sym_tail->data)) {
               SCM_List *node = make_list(sym_tail->data);
               sym_list_tail->next = node;
               sym_list_tail = node;
             }
             sym_tail = sym_tail->next;
+            if (!in_list) {
+              opts = opts->next;
+            }
           }
           if (sym_list_dummy.next) {
             // Build autoload spec: (mod-name . sym-list)
@@ -897,7 +918,6 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
             cast<SCM_Module>(module_scm)->autoload_specs = node;
           }
         }
-        opts = opts->next;
       }
       else if (strcmp(kw_name, "no-backtrace") == 0) {
         // Flag stored for future use in error.cc
-- 
2.43.0


From 234d7b4ce2fbd5e002fafca639e43dcca087b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 66/79] fix: a module's binder is called again after one of its
 calls ended in an error

---
 src/c/module.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index ebd4534..3730376 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -173,8 +173,19 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     // Binder signature: (binder module sym definep) -> variable | #f
     // Arguments are already evaluated values, not AST nodes
     // Use apply_procedure_with_values to pass them directly without re-evaluation
-    SCM *args = scm_list3(wrap(module), wrap(sym), scm_bool_true());
-    SCM *result = apply_procedure_with_values(&g_env, module->binder, cast<SCM_List>(args));
+    SCM *args[] = { wrap(module->binder), scm_list3(wrap(module), wrap(sym), scm_bool_true()) };
+    SCM *result = scm_c_catch(
+        scm_bool_true(),
+        [](void *data) -> SCM * {
+          auto call = (SCM **)data;
+          return apply_procedure_with_values(&g_env, cast<SCM_Procedure>(call[0]), cast<SCM_List>(call[1]));
+        },
+        args,
+        [](void *data, SCM *key, SCM *args) -> SCM * {
+          g_in_binder_call = false;
+          return scm_throw(key, args);
+        },
+        nullptr);
     g_in_binder_call = false;
     if (result && !is_falsy(result)) {
       // Binder returns a variable object, unwrap it to get the value
-- 
2.43.0


From b337fc5447780c12d1bb09376b1f4b04fa2b41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 67/79] fix: a macro of a module comes before one of the same
 name of the root module also at top level

---
 src/c/eval.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 0650796..8462e69 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -329,8 +329,8 @@ entry:
 
     // Check if this is a macro call (before checking special forms)
     // Local bindings come first, in every frame around: they shadow global macros
-    SCM *val = scm_env_exist(env, sym);
-    for (SCM_Environment *e = env->parent; !val && e && e != &g_env; e = e->parent) {
+    SCM *val = nullptr;
+    for (SCM_Environment *e = env; !val && e && e != &g_env; e = e->parent) {
       val = scm_env_exist(e, sym);
     }
     // Code of a module (loaded from its file) sees the macros of its own module first
-- 
2.43.0


From df0442869e8867db20d13c7983912320c58d04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:56 +0000
Subject: [PATCH 68/79] fix: define of a procedure with the name of a built-in
 one takes effect

---
 src/c/define.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/define.cc b/src/c/define.cc
index f31d892..0d184a0 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -14,6 +14,12 @@ static void bind_procedure(SCM_Environment *env, SCM_Symbol *name, SCM *val) {
     scm_env_insert(env, name, val, /*search_parent=*/false);
     return;
   }
+  auto global_entry = env->parent ? nullptr : scm_env_search_entry(&g_env, name, /*search_parent=*/false);
+  if (global_entry) {
+    // A built-in function (see scm_env_search)
+    global_entry->value = val;
+    return;
+  }
   SCM *current_mod = scm_current_module();
   if (current_mod && is_module(current_mod)) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
-- 
2.43.0


From ba2eee2c6ab4a98acc72cc692e6bfc3958feee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:07 +0000
Subject: [PATCH 69/79] fix: code at top level runs with the names of the
 module it was evaluated in

---
 src/c/define.cc      |   2 +-
 src/c/environment.cc |  77 ++++++++++----------------
 src/c/eval.cc        | 129 +++++++++++++++----------------------------
 src/c/load.cc        |   5 +-
 src/c/module.cc      |  46 +++++++++------
 src/c/pscm.h         |   4 ++
 src/c/pscm_api.cc    |   2 +-
 src/c/variable.cc    |   4 +-
 8 files changed, 116 insertions(+), 153 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 0d184a0..a403ee7 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -3,7 +3,7 @@
 
 // Whether env is a frame of a lambda or let, and not the top level of a program or
 // of a module file (frames inherit the module pointer of the environment around)
-static bool is_local_env(SCM_Environment *env) {
+bool is_local_env(SCM_Environment *env) {
   return env->parent && (!env->module || env->parent->module == env->module);
 }
 
diff --git a/src/c/environment.cc b/src/c/environment.cc
index 98ccd7b..f122367 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -55,62 +55,45 @@ SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym) {
 }
 
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
-  // 1. First search in lexical environment (local bindings, no parent search)
-  // This ensures local bindings in let/lambda take precedence
-  auto ret = scm_env_exist(env, sym);
-  if (ret) {
-    return ret;
-  }
-  
-  // 2. Search in parent environments (let/lambda bindings)
-  // This must come before module search to ensure lexical scoping works correctly
-  // Parent environments (from let/lambda) should take precedence over module bindings
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-  if (entry) {
-    return entry->value;  // Value can be null (e.g., for #f)
+  // 1. Local bindings (let/lambda), of every frame around
+  for (SCM_Environment *e = env; e && e != &g_env; e = e->parent) {
+    auto entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
+    if (entry) {
+      return entry->value;  // Value can be null (e.g., for #f)
+    }
   }
 
-  // 2.5. Search the module baked into the environment chain (if any).
-  // This finds module-private variables (e.g. cur-props in tm-define.scm)
-  // during evaluation of code loaded inside that module.  The module is
-  // set by make_module_environment when the module's file is loaded.
-  // We walk the parent chain to find the first non-null module pointer;
-  // child environments inherit it from make_module_environment via make_env.
-  {
-    SCM_Environment *e = env;
-    while (e) {
-      if (e->module) {
-        SCM *var = module_search_variable(e->module, sym);
-        if (var) {
-          return var;
-        }
-        break;  // found a module but symbol wasn't in it; don't check again
-      }
-      e = e->parent;
+  // 2. What the module the code belongs to defines or uses
+  SCM_Module *code_module = environment_module(env);
+  if (code_module) {
+    SCM *var = module_own_lookup(code_module, sym);
+    if (var) {
+      return var;
     }
   }
 
-  // 3. If current module exists, search in module (module bindings override global)
-  // This is important: when define is used in a module, it should shadow global bindings
-  // But module bindings come after lexical bindings (let/lambda)
-  SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod)) {
-    SCM_Module *module = cast<SCM_Module>(current_mod);
-    SCM *var = module_search_variable(module, sym);
+  // 3. Global environment (built-in functions)
+  auto global_entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
+  if (global_entry) {
+    return global_entry->value;  // Value can be null (e.g., for #f)
+  }
+
+  // 4. The module the code belongs to again, now with the root module, its binder and
+  // its autoloads, and then the current module
+  if (!code_module && g_root_module) {
+    code_module = cast<SCM_Module>(g_root_module);
+  }
+  if (code_module) {
+    SCM *var = module_search_variable(code_module, sym);
     if (var) {
       return var;  // Found (value can be #f)
     }
   }
-  
-  // 4. Finally, search in global environment (g_env) if we haven't found it yet
-  // This ensures built-in functions registered via scm_define_function are accessible
-  // This is needed because when env != &g_env, we need to check g_env for built-ins
-  // When env == &g_env, we've already searched it in step 1 and 2, so this is a fallback
-  // for cases where the symbol might be in g_env but not found in the current search path
-  if (env != &g_env) {
-    auto global_entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
-    if (global_entry) {
-      return global_entry->value;  // Value can be null (e.g., for #f)
+  SCM *current_mod = scm_current_module();
+  if (current_mod && is_module(current_mod) && cast<SCM_Module>(current_mod) != code_module) {
+    SCM *var = module_search_variable(cast<SCM_Module>(current_mod), sym);
+    if (var) {
+      return var;  // Found (value can be #f)
     }
   }
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 8462e69..21a23b1 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -61,7 +61,7 @@ SCM *scm_c_eval_string(const char *expr) {
   SCM_List *current = exprs;
   while (current) {
     if (current->data) {
-      last_result = eval_with_env(&g_env, current->data);
+      last_result = eval_with_env(toplevel_environment(), current->data);
     }
     current = current->next;
   }
@@ -89,53 +89,40 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   
-  // First try to update in current environment (no parent search)
-  // This ensures set! updates the binding in the current lexical scope
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false);
-  if (entry) {
-    entry->value = val;
-  } else {
-    // Not found in current environment, search in parent environments
-    // This handles cases where set! is used to update a binding in a parent scope
-    entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
+  // The same binding as scm_env_search finds: local ones first
+  for (SCM_Environment *e = env; e && e != &g_env; e = e->parent) {
+    auto entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
     if (entry) {
       entry->value = val;
-    } else {
-      // Not found in environment: the variable may be one of the module the code
-      // belongs to (as in scm_env_search), or else of the current module
-      SCM *current_mod = scm_current_module();
-      for (SCM_Environment *e = env; e; e = e->parent) {
-        if (e->module) {
-          if (module_find_variable_module(e->module, sym)) {
-            current_mod = wrap(e->module);
-          }
-          break;
-        }
-      }
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
-        if (var_module) {
-          // Variable exists in a module, update it
-          scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
-        } else {
-          // Variable not found in any module, create new binding in environment
-          scm_env_insert(env, sym, val, /*search_parent=*/false);
-        }
-      } else {
-        // No module, create new binding in environment
-        scm_env_insert(env, sym, val, /*search_parent=*/false);
-      }
+      return scm_none();
     }
   }
-  
-  if (debug_enabled) {
-    SCM_DEBUG_EVAL("set! ");
-    printf("%s to ", sym->data);
-    print_ast(val);
-    printf("\n");
+  // then the variable of the module the code belongs to, or else of the current module
+  SCM_Module *root = cast<SCM_Module>(g_root_module);
+  SCM_Module *code_module = environment_module(env);
+  SCM_Module *var_module = code_module ? module_find_variable_module(code_module, sym) : nullptr;
+  if (!var_module || var_module == root) {
+    auto entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
+    if (entry) {
+      entry->value = val;
+      return scm_none();
+    }
+  }
+  if (!var_module && !code_module) {
+    var_module = module_find_variable_module(root, sym);
+  }
+  if (!var_module) {
+    var_module = module_find_variable_module(cast<SCM_Module>(scm_current_module()), sym);
+  }
+  if (var_module) {
+    scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
+  } else if (env->parent && !is_local_env(env)) {
+    // Top level of a module
+    scm_c_hash_set_eq(wrap(env->module->obarray), wrap(sym), val);
+  } else {
+    // Variable not found in any module, create new binding in environment
+    scm_env_insert(env, sym, val, /*search_parent=*/false);
   }
-  // set! returns an unspecified value, which should not be printed
   return scm_none();
 }
 
@@ -333,51 +320,27 @@ entry:
     for (SCM_Environment *e = env; !val && e && e != &g_env; e = e->parent) {
       val = scm_env_exist(e, sym);
     }
-    // Code of a module (loaded from its file) sees the macros of its own module first
-    for (SCM_Environment *e = env; !val && e && e != &g_env; e = e->parent) {
-      if (!e->module) {
-        continue;
-      }
-      val = module_obarray_lookup(e->module, sym);
-      for (SCM_List *uses = e->module->uses; uses && !val; uses = uses->next) {
-        if (is_module(uses->data)) {
-          val = module_used_lookup(cast<SCM_Module>(uses->data), sym);
-        }
-      }
-      break;
-    }
-    if (!val) {
-      // Search module obarray + use chain for macros imported via use-modules.
-      // Only when we're in a non-root module (root has everything in g_env already).
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM *var = module_obarray_lookup(module, sym);
-        if (!var) {
-          // Search uses list
-          SCM_List *uses = module->uses;
-          while (uses && !var) {
-            SCM *use_mod = uses->data;
-            if (is_module(use_mod))
-              var = module_used_lookup(cast<SCM_Module>(use_mod), sym);
-            uses = uses->next;
-          }
-        }
-        val = var;
-      }
+    // Then the module the code belongs to, with its uses
+    SCM_Module *code_module = environment_module(env);
+    if (!val && code_module) {
+      val = module_own_lookup(code_module, sym);
     }
-    // Fallback: search global environment for macros defined at top
-    // level (e.g., texmacs-module in boot.scm). These go into g_env
-    // but are not in any module obarray. Only check for macros here —
-    // non-macro symbols are resolved via lookup_symbol (parent chain
-    // search) in the else branch below; pulling them from g_env here
-    // would shadow local lambda bindings (e.g., exit in cont tests).
+    // Then macros defined at top level (e.g., texmacs-module in boot.scm). These go into
+    // g_env but are not in any module obarray. Only check for macros here — non-macro
+    // symbols are resolved via lookup_symbol in the else branch below.
     if (!val) {
       SCM *g_val = scm_env_exist(&g_env, sym);
       if (g_val && is_macro(g_val)) {
         val = g_val;
       }
     }
+    // Then macros of the current module (root has everything in g_env already)
+    if (!val) {
+      SCM *current_mod = scm_current_module();
+      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+        val = module_own_lookup(cast<SCM_Module>(current_mod), sym);
+      }
+    }
     if (val && is_macro(val)) {
       // Found a macro, expand it and continue evaluation
       SCM_Macro *macro = cast<SCM_Macro>(val);
@@ -916,8 +879,8 @@ entry:
 
 // Scheme eval function: (eval expr) -> evaluates expr in the current environment
 SCM *scm_c_eval(SCM *expr) {
-  // Evaluate the expression in the global environment
-  return eval_with_env(&g_env, expr);
+  // Evaluate the expression like a top level form
+  return eval_with_env(toplevel_environment(), expr);
 }
 
 // defined?: Check if a symbol is defined in the current environment or module
diff --git a/src/c/load.cc b/src/c/load.cc
index 90d4345..814fa20 100644
--- a/src/c/load.cc
+++ b/src/c/load.cc
@@ -8,12 +8,11 @@ SCM *scm_eval_expression_list(SCM_List *expr_list) {
     return scm_none();
   }
 
-  // Evaluate each expression in the top-level environment
+  // Evaluate each expression at the top level of the module that is current then
   SCM *result = scm_none();
-  SCM_Environment *top_env = g_env.parent ? g_env.parent : &g_env;
   SCM_List *it = expr_list;
   while (it) {
-    result = eval_with_env(top_env, it->data);
+    result = eval_with_env(toplevel_environment(), it->data);
     it = it->next;
   }
 
diff --git a/src/c/module.cc b/src/c/module.cc
index 3730376..459a6d2 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -134,30 +134,44 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
+// What a module defines or uses under the name sym, or nullptr
+SCM *module_own_lookup(SCM_Module *module, SCM_Symbol *sym) {
+  SCM *var = module_obarray_lookup(module, sym);
+  for (SCM_List *uses = module->uses; uses && !var; uses = uses->next) {
+    if (is_module(uses->data)) {
+      var = module_used_lookup(cast<SCM_Module>(uses->data), sym);
+    }
+  }
+  return var;
+}
+
+// The module the code evaluated in env belongs to: that of the file or of the top level
+// around it, or nullptr for the root module
+SCM_Module *environment_module(SCM_Environment *env) {
+  for (; env; env = env->parent) {
+    if (env->module) {
+      return env->module;
+    }
+  }
+  return nullptr;
+}
+
+// The environment for top level forms: that of the current module
+SCM_Environment *toplevel_environment() {
+  SCM *module = scm_current_module();
+  return module == g_root_module ? &g_env : make_module_environment(cast<SCM_Module>(module), &g_env);
+}
+
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
-  // 1. Check module obarray
-  SCM *var = module_obarray_lookup(module, sym);
+  // 1., 2. Check module obarray and the uses
+  SCM *var = module_own_lookup(module, sym);
   if (var) {
     return var;  // Found (value can be #f)
   }
 
-  // 2. Search uses list
-  SCM_List *uses = module->uses;
-  while (uses) {
-    SCM *use_module_scm = uses->data;
-    if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
-      var = module_used_lookup(use_module, sym);
-      if (var) {
-        return var;  // Found (value can be #f)
-      }
-    }
-    uses = uses->next;
-  }
-
   // 3. If not found, also search root module (pscm-user) for global variables like %load-path
   if (g_root_module && module != cast<SCM_Module>(g_root_module)) {
     SCM_Module *root_module = cast<SCM_Module>(g_root_module);
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 7072945..78b5b28 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1023,6 +1023,10 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 // Module helper functions (for internal use, but may be used by other modules)
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
 SCM *module_used_lookup(SCM_Module *use, SCM_Symbol *sym);
+SCM *module_own_lookup(SCM_Module *module, SCM_Symbol *sym);
+SCM_Module *environment_module(SCM_Environment *env);
+SCM_Environment *toplevel_environment();
+bool is_local_env(SCM_Environment *env);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
 
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..6cde429 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -37,7 +37,7 @@ SCM *pscm_eval(SCM *ast) {
   return scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
-        return eval_with_env(&g_env, (SCM *)data);
+        return eval_with_env(toplevel_environment(), (SCM *)data);
       },
       (void *)ast,
       scm_api_catch_handler,
diff --git a/src/c/variable.cc b/src/c/variable.cc
index c680e01..1acde63 100644
--- a/src/c/variable.cc
+++ b/src/c/variable.cc
@@ -60,7 +60,7 @@ SCM *scm_c_lookup(const char *name) {
   SCM_Symbol *sym = make_sym(name);
   
   // Look up in current environment/module
-  SCM *value = scm_env_search(&g_env, sym);
+  SCM *value = scm_env_search(toplevel_environment(), sym);
   
   if (!value) {
     // Not found - throw error (like Guile)
@@ -80,7 +80,7 @@ SCM *scm_lookup(SCM *sym) {
   SCM_Symbol *sym_obj = cast<SCM_Symbol>(sym);
   
   // Look up in current environment/module
-  SCM *value = scm_env_search(&g_env, sym_obj);
+  SCM *value = scm_env_search(toplevel_environment(), sym_obj);
   
   if (!value) {
     eval_error("scm_lookup: unbound variable: %s", sym_obj->data);
-- 
2.43.0


From dd96b37c2d9f88c6a28942b0d5ee62961e285897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 70/79] fix: an error in scm_c_call_with_current_module or
 scm_c_define_module restores the current module

---
 src/c/module.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 459a6d2..5264d51 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1201,7 +1201,14 @@ SCM *scm_c_call_with_current_module(SCM *module,
   }
   SCM *old = scm_set_current_module(module);
 
-  SCM *result = func(data);
+  // An error in func leaves it with the old module as the current one
+  SCM *result = scm_c_catch(
+      scm_bool_true(), func, data,
+      [](void *old, SCM *key, SCM *args) -> SCM * {
+        scm_set_current_module((SCM *)old);
+        return scm_throw(key, args);
+      },
+      old);
 
   scm_set_current_module(old);
   return result;
@@ -1224,10 +1231,18 @@ SCM *scm_c_define_module(const char *name,
   }
 
   if (init) {
-    SCM *old = scm_current_module();
-    g_current_module = module;
-    init(data);
-    g_current_module = old;
+    struct InitCall {
+      void (*init)(void *);
+      void *data;
+    } call = { init, data };
+    scm_c_call_with_current_module(
+        module,
+        [](void *data) -> SCM * {
+          auto call = (InitCall *)data;
+          call->init(call->data);
+          return scm_none();
+        },
+        &call);
   }
 
   return module;
-- 
2.43.0


From b69e64cde9482b3d92863503042606d285cf0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 71/79] fix: the error handler set with pscm_set_error_handler
 is called

---
 src/c/error.cc    | 5 +++++
 src/c/pscm_api.cc | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index 594abd8..17dca8f 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -8,6 +8,7 @@
 // External globals written by the catch-all handler for public API boundary
 extern char *g_last_error_message;
 extern char *g_last_error_key;
+extern void (*g_error_handler)(const char *message);
 
 static const int MAX_STACK_DEPTH = 100;
 static int g_stack_depth = 0;
@@ -294,5 +295,9 @@ SCM *scm_api_catch_handler(void *data, SCM *tag, SCM *args) {
     }
   }
 
+  if (g_error_handler) {
+    g_error_handler(g_last_error_message ? g_last_error_message : g_last_error_key ? g_last_error_key : "");
+  }
+
   return nullptr;
 }
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 6cde429..75cb4d8 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -7,8 +7,8 @@
 
 // Global state definitions are now in pscm.h as inline variables
 
-// Error handler callback
-static pscm_error_handler_t g_error_handler = nullptr;
+// Error handler callback, called by the catch-all handler in error.cc
+pscm_error_handler_t g_error_handler = nullptr;
 
 // Last error storage (for retrieval after pscm_eval returns NULL).
 // Non-static — the catch-all handler in error.cc writes to these.
-- 
2.43.0


From 82ba9cf9f49322b2707e6b32645030224803c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:29 +0000
Subject: [PATCH 72/79] fix: a procedure called by name is looked up like any
 variable

---
 src/c/eval.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 21a23b1..645b4eb 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -328,16 +328,16 @@ entry:
     // Then macros defined at top level (e.g., texmacs-module in boot.scm). These go into
     // g_env but are not in any module obarray. Only check for macros here — non-macro
     // symbols are resolved via lookup_symbol in the else branch below.
-    if (!val) {
-      SCM *g_val = scm_env_exist(&g_env, sym);
-      if (g_val && is_macro(g_val)) {
-        val = g_val;
-      }
-    }
-    // Then macros of the current module (root has everything in g_env already)
-    if (!val) {
+    SCM *g_val = val ? nullptr : scm_env_exist(&g_env, sym);
+    if (g_val && is_macro(g_val)) {
+      val = g_val;
+    }
+    // Then what scm_env_search finds last: the root module, and macros of the current one
+    if (!val && !g_val && g_root_module) {
+      SCM_Module *root = cast<SCM_Module>(g_root_module);
+      val = code_module ? module_obarray_lookup(root, sym) : module_own_lookup(root, sym);
       SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+      if (!val && current_mod && is_module(current_mod)) {
         val = module_own_lookup(cast<SCM_Module>(current_mod), sym);
       }
     }
-- 
2.43.0


From dfbad135bb479b74531ceb7c280e0057af9bc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 73/79] fix: an error message of any length fits the message of
 an uncaught throw

---
 src/c/throw.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index e6af85b..f619eb2 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
+#include <string>
 
 // Standard error key is now in throw.h as inline variable
 
@@ -251,19 +252,17 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
   const char *prog_name = handler_data ? (const char *)handler_data : "pscm";
   
   // Build message string
-  char msg[1024];
-  int pos = 0;
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "%s: uncaught throw to ", prog_name);
+  std::string msg = std::string(prog_name) + ": uncaught throw to ";
   
   if (is_sym(tag)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(tag);
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "'%s", sym->data);
+    msg += std::string("'") + sym->data;
   } else {
     // For non-symbol tags, use a simple representation
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "<non-symbol>");
+    msg += "<non-symbol>";
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, ": ");
+  msg += ": ";
   
   // For args, we'll print a simplified version
   if (args) {
@@ -271,20 +270,20 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
       SCM_List *args_list = cast<SCM_List>(args);
       if (args_list->data && is_str(args_list->data)) {
         SCM_String *s = cast<SCM_String>(args_list->data);
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "%s", s->data);
+        msg += s->data;
       } else {
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+        msg += "<args>";
       }
     } else {
-      pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+      msg += "<args>";
     }
   } else {
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "()");
+    msg += "()";
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "\n");
+  msg += "\n";
   
-  write_to_port(port, msg);
+  write_to_port(port, msg.c_str());
   
   // Flush the port
   if (port->port_type == PORT_FILE_OUTPUT && port->file) {
-- 
2.43.0


From bfb223ae54750271a3da07b5d9d9b318c6c05709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:26 +0000
Subject: [PATCH 74/79] fix: map and for-each took the tail of an improper list
 for an element

---
 src/c/for_each.cc | 4 ++++
 src/c/map.cc      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index f75e1fe..8846242 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -97,6 +97,10 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
     SCM_List args_dummy = make_list_dummy();
     auto args_tail = &args_dummy;
     for (int i = 0; i < arg_count; i++) {
+      if (arg_lists[i]->is_dotted) {
+        eval_error("for-each: argument %d must be a proper list", i + 1);
+        return nullptr;
+      }
       args_tail->next = make_list(arg_lists[i]->data);
       args_tail = args_tail->next;
       arg_lists[i] = arg_lists[i]->next;
diff --git a/src/c/map.cc b/src/c/map.cc
index 35a8d6e..4ffe683 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -79,6 +79,9 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
         break;
       }
       SCM_List *list = cast<SCM_List>(it->data);
+      if (list->is_dotted) {
+        eval_error("map: list arguments must be proper lists");
+      }
       args_tail->next = make_list(list->data);
       args_tail = args_tail->next;
       rest_tail->next = make_list(list->next ? wrap(list->next) : scm_nil());
-- 
2.43.0


From fc8d5aa8bc089fc43b5a8b8d17cb75b0191d2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:58 +0000
Subject: [PATCH 75/79] fix: the interactive loop takes a last line that fills
 its buffer

---
 src/c/repl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 35ead20..5d9f7cb 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -108,8 +108,12 @@ void repl() {
       
       // The rest of a long line is still to be read
       if (line_len == sizeof(line_buffer) - 1 && line_buffer[line_len - 1] != '\n') {
-        line_unfinished = true;
-        continue;
+        int next = getc(stdin);
+        if (next != EOF) {
+          ungetc(next, stdin);
+          line_unfinished = true;
+          continue;
+        }
       }
       line_unfinished = false;
 
-- 
2.43.0


From d327a713d3f076c752f233032f1626e07c4497ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:00 +0000
Subject: [PATCH 76/79] fix: string->number gives no number that is not in the
 string; radixes beyond int

---
 src/c/string.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 10e68c3..60fded1 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -2,6 +2,7 @@
 #include "eval.h"
 #include <cstring>
 #include <ctype.h>
+#include <errno.h>
 #include <limits.h>
 #include <new>
 
@@ -345,8 +346,9 @@ SCM *scm_c_string_to_number(SCM_List *args) {
       eval_error("string->number: radix must be a number");
       return nullptr;
     }
-    radix = (int)(int64_t)radix_scm->value;
-    if (radix < 2 || radix > 36) {
+    int64_t radix_value = (int64_t)radix_scm->value;
+    radix = (int)radix_value;
+    if (radix_value < 2 || radix_value > 36) {
       eval_error("string->number: radix must be between 2 and 36");
       return nullptr;
     }
@@ -405,9 +407,10 @@ SCM *scm_c_string_to_number(SCM_List *args) {
     }
   } else {
     // Parse as integer
+    errno = 0;
     long val = strtol(str, &endptr, radix);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
+    if (endptr == str || *endptr != '\0' || errno == ERANGE) {
+      // Failed to parse, or a number too large to hold
       result = scm_bool_false();
     } else {
       // Create number directly
@@ -496,8 +499,9 @@ SCM *scm_c_number_to_string(SCM_List *args) {
       eval_error("number->string: radix must be a number");
       return nullptr;
     }
-    radix = (int)(int64_t)radix_scm->value;
-    if (radix < 2 || radix > 36) {
+    int64_t radix_value = (int64_t)radix_scm->value;
+    radix = (int)radix_value;
+    if (radix_value < 2 || radix_value > 36) {
       eval_error("number->string: radix must be between 2 and 36");
       return nullptr;
     }
-- 
2.43.0


From 2d2eefebe013b958b202cc2b40d65d0e21007175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:00 +0000
Subject: [PATCH 77/79] fix: make-hash-table of a size no table can have is an
 error, not a crash

---
 src/c/hash_table.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 52bd117..880e536 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -244,10 +244,15 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
     }
   }
   
+  auto buckets = (SCM **)calloc(capacity, sizeof(SCM *));
+  if (!buckets) {
+    eval_error("make-hash-table: size too large");
+    return nullptr;
+  }
   auto hash_table = (SCM_HashTable *)gc_alloc(GC_HASH, sizeof(SCM_HashTable));
   hash_table->capacity = capacity;
   hash_table->size = 0;
-  hash_table->buckets = (SCM **)calloc(capacity, sizeof(SCM *));
+  hash_table->buckets = buckets;
   // Initialize all buckets to nil
   // Note: calloc initializes to 0, but we need scm_nil() which may not be 0
   for (size_t i = 0; i < capacity; i++) {
-- 
2.43.0


From f96844bf3f93fc2ccc6ba2befe43bf072313bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:45 +0000
Subject: [PATCH 78/79] fix: number->string gives as many digits of a float as
 write

---
 src/c/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 60fded1..bd79c38 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -527,7 +527,7 @@ SCM *scm_c_number_to_string(SCM_List *args) {
       // Integer value stored as float: print with .0 to show it's a float
       str_len = snprintf(str_data, 64, "%.1f", val);
     } else {
-      str_len = snprintf(str_data, 64, "%g", val);
+      str_len = snprintf(str_data, 64, "%.14g", val);
     }
   } else if (is_ratio(num_scm)) {
     if (radix != 10) {
-- 
2.43.0


From 48c44f5e1471a35c8e17763a456a403c6cd4438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:17 +0000
Subject: [PATCH 79/79] fix: leaving a module binder through a continuation
 disabled every binder

---
 src/c/continuation.cc | 5 +++++
 src/c/gc.cc           | 4 +++-
 src/c/module.cc       | 2 +-
 src/c/pscm_types.h    | 1 +
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index d2b2b17..c70c56a 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -12,6 +12,9 @@ long scm_stack_size(long *start) {
   return start - &stack;
 }
 
+// Defined in module.cc
+extern bool g_in_binder_call;
+
 // Forward declaration
 SCM_List *copy_wind_chain(SCM_List *chain);
 SCM_List *unwind_wind_chain(SCM_List *target);
@@ -54,6 +57,7 @@ SCM *scm_make_continuation(int *first) {
   
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
+  cont->in_binder_call = g_in_binder_call;
 
   // Save the active catches
   cont->catch_stack = scm_save_catch_stack(&cont->catch_depth);
@@ -67,6 +71,7 @@ SCM *scm_make_continuation(int *first) {
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
     }
+    g_in_binder_call = cont->in_binder_call;
     scm_restore_catch_stack(cont->catch_stack, cont->catch_depth);
     auto ret = cont->arg;
     return ret;
diff --git a/src/c/gc.cc b/src/c/gc.cc
index e2c0480..0ce3d30 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -269,8 +269,10 @@ void *gc_alloc(TypeTag tag, size_t size) {
 
     if (!block) {
       // No suitable free block -- bump-allocate fresh.
+      // The sweep steps from block to block by the size field, so it has to
+      // count the bytes bump_allocate adds to keep blocks 16-byte aligned.
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + size);
-      block->size = size;
+      block->size = (size + 15) & ~(size_t)15;
     } else {
       // Use the block as-is with its original size.  The sequential
       // layout during sweep depends on each block's size field
diff --git a/src/c/module.cc b/src/c/module.cc
index 5264d51..65dfcd6 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -8,7 +8,7 @@ static SCM *g_current_module = nullptr;
 
 // Recursion guard for binder calls to prevent infinite recursion
 // when the binder body triggers symbol lookup in the same module
-static bool g_in_binder_call = false;
+bool g_in_binder_call = false;
 
 // Module registry: module name -> module object
 static SCM_HashTable *g_module_registry = nullptr;
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b72fcc2..a79b0b7 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -96,6 +96,7 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  bool in_binder_call;  // Whether a module binder was running when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
   void *catch_stack;    // Active catches when continuation was created (malloc'ed)
   size_t catch_depth;   // Number of entries in catch_stack
-- 
2.43.0

