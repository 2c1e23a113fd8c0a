From c59c8fb43f190d43ab37ae72c44734c5685dbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/76] fix: discard the stored edge once Since/Trigger's left
 operand breaks it

---
 monitors/c/src/engines/mltl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..7453a1b 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -330,6 +330,9 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
           }
           if (op0_rdy && !(get_verdict_truth(op0))){
+            // Left op was false after the last time right op was true, so that
+            // occurrence can no longer satisfy any later verdict
+            temp->edge = set_verdict_false(temp->edge);
             ctrl->next_time = get_verdict_time(op1) + 1;
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
@@ -420,6 +423,9 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
           }
           if (op0_rdy && get_verdict_truth(op0)){
+            // Left op was true after the last time right op was false, so that
+            // occurrence can no longer violate any later verdict
+            temp->edge = set_verdict_false(temp->edge);
             ctrl->next_time = get_verdict_time(op1) + 1;
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-- 
2.43.0


From 124dfba2dd8c159fb5b855370d663142dd4b0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 02/76] fix: let temporal operators consume settled operand
 values without lagging behind their queues

---
 monitors/c/src/engines/mltl.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 7453a1b..3898faf 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -94,6 +94,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
 
   r2u2_scq_control_block_t* ctrl = &(monitor->queue_arena.control_blocks[instr->memory_reference]);
   r2u2_scq_temporal_block_t* temp; // Only utilized for temporal operators
+  r2u2_time start_time = ctrl->next_time;
 
   switch (instr->opcode) {
 
@@ -357,6 +358,9 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
               R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
               r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
+              if (op1_rdy) { // right op is known to hold no new edge up to here, so do not lag behind it
+                next = max(next, min(get_verdict_time(result) - temp->lower_bound, get_verdict_time(op1)) + 1);
+              }
               push_result(monitor, instr, result);
               ctrl->next_time = next;
               temp->previous = result;
@@ -365,6 +369,12 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
           }
       }
 
+      // Nothing to report, but do not revisit operand values that are settled (the
+      // operands' queues only retain them until their siblings catch up)
+      if (op0_rdy && op1_rdy && !(get_verdict_truth(op1)) && get_verdict_truth(op0)) {
+        ctrl->next_time = max(ctrl->next_time, min(get_verdict_time(op0), get_verdict_time(op1)) + 1);
+      }
+
       error_cond = R2U2_OK;
       break;
     }
@@ -451,6 +461,9 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
               R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
               r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
+              if (op1_rdy) { // right op is known to hold no new edge up to here, so do not lag behind it
+                next = max(next, min(get_verdict_time(result) - temp->lower_bound, get_verdict_time(op1)) + 1);
+              }
               push_result(monitor, instr, result);
               ctrl->next_time = next;
               temp->previous = set_verdict_true(result);
@@ -459,6 +472,12 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
       }
 
+      // Nothing to report, but do not revisit operand values that are settled (the
+      // operands' queues only retain them until their siblings catch up)
+      if (op0_rdy && op1_rdy && get_verdict_truth(op1) && !(get_verdict_truth(op0))) {
+        ctrl->next_time = max(ctrl->next_time, min(get_verdict_time(op0), get_verdict_time(op1)) + 1);
+      }
+
       error_cond = R2U2_OK;
       break;
     }
@@ -600,6 +619,11 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
     }
   }
 
+  // Consuming operand values is progress as well, even if no verdict was produced
+  if (ctrl->next_time != start_time && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+    monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+  }
+
   return error_cond;
 }
 
-- 
2.43.0


From f02ff6a2a6aa04ef855cb10025dab890d16d4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 03/76] fix: rerun instructions only after all of their parents
 have read their results

---
 monitors/c/src/engines/engines.c | 74 +++++++++++++++-----------------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index ebbb6a6..bd79815 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -15,47 +15,41 @@ r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
     }
     monitor->bz_program_count.curr_program_count = 0;
 
-    // Operate over all MLTL instructions until no further progress is made
-    r2u2_time start_time = monitor->time_stamp;
-    while(start_time == monitor->time_stamp){
-       while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
-        R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
-        error_cond = r2u2_mltl_update(monitor);
-        monitor->mltl_program_count.curr_program_count++;
+    // Operate over all MLTL instructions in order, each once
+    while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
+      R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+      error_cond = r2u2_mltl_update(monitor);
+      monitor->mltl_program_count.curr_program_count++;
+    }
+
+    // Then rerun instructions until no further progress is made. Going backwards ensures that an
+    // instruction only runs again once all of its parents (which come later in the program) have
+    // read everything they can: it could otherwise overwrite results they have not seen yet.
+    while(monitor->mltl_program_count.curr_program_count > 0){
+      monitor->mltl_program_count.curr_program_count--;
+      monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
+      R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+      error_cond = r2u2_mltl_update(monitor);
+      if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS) {
+        monitor->mltl_program_count.curr_program_count = monitor->mltl_program_count.max_program_count;
       }
-      switch (monitor->progress) {
-        case R2U2_MONITOR_PROGRESS_FIRST_LOOP: {
-          // First pass complete, rerun program counter to check for progress
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS: {
-          // Progress made this loop, rerun program counter
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS: {
-          // End of timestep - setup for next step
-
-          #if R2U2_DEBUG
-          // Debug print atomics at end of timestep
-          R2U2_TRACE_PRINT("ATM VEC ADDR: [%p]\n", monitor->atomic_buffer);
-          R2U2_DEBUG_PRINT("Atomic Vector:\n[");
-          for (int i=0; i < R2U2_MAX_ATOMICS-1; ++i) {
-            R2U2_DEBUG_PRINT("%d, ", (monitor->atomic_buffer)[i]);
-          }
-          R2U2_DEBUG_PRINT("%d]\n", (monitor->atomic_buffer)[R2U2_MAX_ATOMICS-1]);
-          #endif
-
-          // Update clock for next timestep
-          monitor->time_stamp++;
-          monitor->mltl_program_count.curr_program_count = 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
-          break;
-        }
     }
-  }
+
+    // End of timestep - setup for next step
+    #if R2U2_DEBUG
+    // Debug print atomics at end of timestep
+    R2U2_TRACE_PRINT("ATM VEC ADDR: [%p]\n", monitor->atomic_buffer);
+    R2U2_DEBUG_PRINT("Atomic Vector:\n[");
+    for (int i=0; i < R2U2_MAX_ATOMICS-1; ++i) {
+      R2U2_DEBUG_PRINT("%d, ", (monitor->atomic_buffer)[i]);
+    }
+    R2U2_DEBUG_PRINT("%d]\n", (monitor->atomic_buffer)[R2U2_MAX_ATOMICS-1]);
+    #endif
+
+    // Update clock for next timestep
+    monitor->time_stamp++;
+    monitor->mltl_program_count.curr_program_count = 0;
+    monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
+
     return error_cond;
 }
-- 
2.43.0


From c2769204ca3fe69cec87aeb4e901494b99ab4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 04/76] fix: size queues from up-to-date propagation delays
 that cover nested past-time operators

---
 compiler/c2po/scq.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 06fbf5f..b9b40f9 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -2,6 +2,37 @@ from __future__ import annotations
 from typing import cast, Any
 from c2po import cpt, log, types, command
 
+def compute_propagation_delays(program: cpt.Program, context: cpt.Context) -> None:
+    """Computes the best- and worst-case propagation delay of each node from its current children, which can differ
+    from the ones it was constructed with (labels and definitions are expanded and expressions replaced)."""
+    has_past_operator: set[int] = set() # ids of expressions with a past-time operator in their subtree
+
+    for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
+        if len(expr.children) == 0 or isinstance(expr, cpt.SpecSection):
+            continue
+
+        expr.bpd = min([c.bpd for c in expr.children])
+        expr.wpd = max([c.wpd for c in expr.children])
+
+        if any(id(c) in has_past_operator for c in expr.children):
+            has_past_operator.add(id(expr))
+
+        if not isinstance(expr, cpt.TemporalOperator):
+            continue
+
+        if cpt.is_future_time_operator(expr):
+            expr.bpd += expr.interval.lb
+            expr.wpd += expr.interval.ub
+            continue
+
+        # A past-time operator whose last child is an input can run ahead of the current time by `lb` time steps, all
+        # verdicts it produces early beyond that have the same value. If its last child can run ahead as well, then the
+        # value of its verdicts can change within the next `ub` time steps.
+        expr.bpd -= expr.interval.ub if id(expr.children[-1]) in has_past_operator else expr.interval.lb
+        expr.wpd -= expr.interval.lb
+        has_past_operator.add(id(expr))
+
+
 def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """Computes SCQ sizes for each node. Returns the total SCQ size.
     
@@ -11,6 +42,8 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
+    compute_propagation_delays(program, context)
+
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
             continue
-- 
2.43.0


From a2c54b30c22e380585ad713c69c3b2774b4b2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 05/76] fix: read constant operands only once per time step

---
 monitors/c/src/engines/mltl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 3898faf..001d5e6 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -35,6 +35,8 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
           } else {
             *result = set_verdict_false(monitor->time_stamp);
           }
+          // Constants are read once per time step like any other operand
+          return monitor->time_stamp >= monitor->queue_arena.control_blocks[instr->memory_reference].next_time;
         }
         return true;
 
-- 
2.43.0


From a95b4732ca79fe521023c4709af0e93cec013ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 06/76] fix: report constant formulas in PTSPEC instead of
 crashing

---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..4f41874 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From 30b585dd7b3a3532b4f577b690db31b455e75b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 07/76] fix: discard queue state of the previous specification
 when loading a new one

---
 monitors/c/src/engines/mltl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 001d5e6..b221fac 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -660,6 +660,15 @@ r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor,
 
             }
 
+            // Discard state from any previously loaded specification
+            for (r2u2_addr i = 0; i < ctrl->length; ++i) {
+              ctrl->queue[i] = 0;
+            }
+            ctrl->write = 0;
+            ctrl->read1 = 0;
+            ctrl->read2 = 0;
+            ctrl->next_time = 0;
+
             ctrl->queue[0] = r2u2_infinity;
 
             #if R2U2_DEBUG
-- 
2.43.0


From aa9a463be18e9e19ba35684345aac115f9594c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 08/76] fix: decode float constants without sign-extending
 their low word

---
 monitors/c/src/instructions/booleanizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 43180bd..1c44228 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -6,7 +6,7 @@ r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
-    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24) +
+    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint64_t)spec[3] << 24) +
                 ((uint64_t)spec[4] << 32) + ((uint64_t)spec[5] << 40) + ((uint64_t)spec[6] << 48) + ((uint64_t)spec[7] << 56));
     r2u2_float val;
     memcpy(&val, &temp_val, 8);
-- 
2.43.0


From 307b8d75b08c141678ae19fbf33f9c1127881f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 09/76] fix: avoid signed overflow when decoding instruction
 words

---
 monitors/c/src/instructions/booleanizer.c | 8 ++++----
 monitors/c/src/instructions/mltl.c        | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 1c44228..1570783 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
-    return (r2u2_int)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));
+    return (r2u2_int)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint32_t)spec[3] << 24));
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
@@ -15,9 +15,9 @@ r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
 
 r2u2_bz_instruction_t r2u2_bz_set_from_binary(uint8_t* spec) {
     r2u2_bz_instruction_t instr; 
-    instr.param1 = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));
-    instr.param2 = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + (spec[11] << 24));
-    instr.memory_reference = (uint32_t)(spec[12] + (spec[13] << 8) + (spec[14] << 16) + (spec[15] << 24));
+    instr.param1 = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint32_t)spec[3] << 24));
+    instr.param2 = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + ((uint32_t)spec[11] << 24));
+    instr.memory_reference = (uint32_t)(spec[12] + (spec[13] << 8) + (spec[14] << 16) + ((uint32_t)spec[15] << 24));
     instr.opcode = spec[16];
     return instr;
 }
\ No newline at end of file
diff --git a/monitors/c/src/instructions/mltl.c b/monitors/c/src/instructions/mltl.c
index cc3130e..a34be28 100644
--- a/monitors/c/src/instructions/mltl.c
+++ b/monitors/c/src/instructions/mltl.c
@@ -2,9 +2,9 @@
 
 r2u2_mltl_instruction_t r2u2_mltl_set_from_binary(uint8_t* spec) {
     r2u2_mltl_instruction_t instr; 
-    instr.op1_value = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));
-    instr.op2_value = (uint32_t)(spec[4] + (spec[5] << 8) + (spec[6] << 16) + (spec[7] << 24));
-    instr.memory_reference = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + (spec[11] << 24));
+    instr.op1_value = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint32_t)spec[3] << 24));
+    instr.op2_value = (uint32_t)(spec[4] + (spec[5] << 8) + (spec[6] << 16) + ((uint32_t)spec[7] << 24));
+    instr.memory_reference = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + ((uint32_t)spec[11] << 24));
     instr.op1_type = spec[12];
     instr.op2_type = spec[13];
     instr.opcode = spec[14];
-- 
2.43.0


From c4c4792478edf0c5da5f574f3565f11491d878dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 10/76] fix: remove equivalences in to_bnf

---
 compiler/c2po/transform.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0dd4e06..10ef5de 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -60,6 +60,29 @@ def to_bnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                     ],
                 )
             )
+        elif expr.operator is cpt.OperatorKind.LOGICAL_EQUIV:
+            lhs = expr.children[0]
+            rhs = expr.children[1]
+            # p <-> q = !(p && !q) && !(!p && q)
+            expr.replace(
+                cpt.Operator.LogicalAnd(
+                    expr.loc,
+                    [
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                expr.loc, [lhs, cpt.Operator.LogicalNegate(rhs.loc, rhs)]
+                            ),
+                        ),
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                expr.loc, [cpt.Operator.LogicalNegate(lhs.loc, lhs), rhs]
+                            ),
+                        ),
+                    ],
+                )
+            )
         elif expr.operator is cpt.OperatorKind.FUTURE:
             expr = cast(cpt.TemporalOperator, expr)
             operand = expr.children[0]
-- 
2.43.0


From b25b78d1e8e366034dc49559afbbb793056f1890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 11/76] fix: have to_nnf push negations below double negations

---
 compiler/c2po/cpt.py       |  4 +++-
 compiler/c2po/transform.py | 13 +++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..bf36660 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1661,7 +1661,9 @@ def preorder(
         yield expr
 
         # if expr has been replaced since we just yielded it, need to traverse down the replacement node
-        cur = expr.replacement if expr.replacement else expr
+        cur = expr
+        while cur.replacement:
+            cur = cur.replacement
 
         visited.add(id(cur))
 
diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 10ef5de..581f352 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -156,13 +156,18 @@ def to_nnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
     bounds: cpt.ConcreteInterval
 
     for expr in program.preorder(context):
+        # !!p |-> p, and continue with p since it may be negated itself
+        while cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE) and cpt.is_operator(
+            expr.children[0], cpt.OperatorKind.LOGICAL_NEGATE
+        ):
+            operand = expr.children[0].children[0]
+            expr.replace(operand)
+            expr = operand
+
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             operand = expr.children[0]
 
-            if cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_NEGATE):
-                # !!p |-> p
-                expr.replace(operand.children[0])
-            elif cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_OR):
+            if cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_OR):
                 # !(p || q) |-> !p && !q
                 expr.replace(
                     cpt.Operator.LogicalAnd(
-- 
2.43.0


From 2e975d6bea0cb314248f5ed7e821c3503556b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 12/76] fix: size signal and atomic bounds by the largest index
 that is loaded

---
 compiler/c2po/assemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 4f41874..db594b9 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1157,8 +1157,12 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
     num_aliases_bytes = sum([
         (len(i.symbol)) for i in assembly if isinstance(i, AliasInstruction)
     ])
-    num_signals = len(context.signals)
-    num_atomics = len(set(context.atomic_id_map.values()))
+    # Signals are loaded by index, including those that are mapped but unused by any formula. Without
+    # the booleanizer they are loaded directly as atomics.
+    num_signals = max(context.signal_mapping.values(), default=-1) + 1
+    num_atomics = max(context.atomic_id_map.values(), default=-1) + 1
+    if not context.enable_booleanizer:
+        num_atomics = max(num_atomics, num_signals)
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
-- 
2.43.0


From 315d93fbf5dd6be42a99279ac56260d32ee53d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 13/76] fix: write non-zero array extents to the C bounds file

---
 compiler/c2po/assemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index db594b9..e1590f9 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1247,7 +1247,8 @@ def write_bounds_c(program: cpt.Program, context: cpt.Context, options: dict[str
     contents += "\n".join(
         [
             f"// {description}\n"
-            f"#define {key} {value:{'F' if type(value) is float else ''}}\n"
+            # Integer bounds are array extents, which must not be zero in C
+            f"#define {key} {f'{value:F}' if type(value) is float else max(value, 1)}\n"
             for key, (value, description, target) in bounds.items()
             if "c" in target
         ]
-- 
2.43.0


From d3f0bed41fce6794ac2f2d0b6991c1cfd453b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 14/76] fix: pack integer constants as signed so negative
 literals assemble

---
 compiler/c2po/assemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index e1590f9..26eb2eb 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -844,7 +844,7 @@ def pack_bz_instruction(
         1,
         f"packing bz instruction: {instruction}\n\t"
         f"{format_strs[FieldType.ENGINE_TAG]:2} "
-        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_ID] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_INT])} "
+        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_INT] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_ID])} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_OPERATOR]:2} "
@@ -862,9 +862,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From 3f27aacdd3d08594780f41084405dbe0eca93a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 15/76] fix: load Boolean literals used by booleanizer
 operators

---
 compiler/c2po/assemble.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 26eb2eb..bdfb11b 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -416,7 +416,7 @@ def gen_bz_instruction(
             operator = BZOperator.FLOAD
 
     elif isinstance(expr, cpt.Constant) and types.is_integer_type(expr.type):
-        operand1 = expr.value
+        operand1 = int(expr.value)
         operand2 = 0
         operator = BZOperator.ICONST
     elif isinstance(expr, cpt.Constant):
@@ -754,12 +754,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             ft_scqs += 1
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
-        # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # so if this is a bool literal with only TL parents we should skip. Otherwise it is used by
+        # the BZ engine (e.g., `prev(false, p)`), which loads it like any other constant.
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
@@ -788,12 +788,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
-        # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # so if this is a bool literal with only TL parents we should skip. Otherwise it is used by
+        # the BZ engine (e.g., `prev(false, p)`), which loads it like any other constant.
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
-- 
2.43.0


From a707bf28060b261df9a52a05b84d1eec7aaf8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 16/76] fix: report booleanizer operators over temporal logic
 operands instead of crashing

---
 compiler/c2po/assemble.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index bdfb11b..7772225 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -403,10 +403,19 @@ def gen_bz_instruction(
     expr: cpt.Expression,
     context: cpt.Context,
     instructions: dict[cpt.Expression, BZInstruction],
-) -> BZInstruction:
+) -> Optional[BZInstruction]:
     log.debug(1, f"generating bz instruction for {expr}")
     bzid = len(instructions)
 
+    for child in expr.children:
+        if child not in instructions:
+            log.error(
+                f"booleanizer expressions over temporal logic expressions are not supported\n    "
+                f"'{child}' in '{expr}'",
+                expr.loc,
+            )
+            return None
+
     if isinstance(expr, cpt.Signal):
         operand1 = expr.signal_id
         operand2 = 0
@@ -760,7 +769,10 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
-            bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
+            new_bz_instruction = gen_bz_instruction(expr, context, bz_instructions)
+            if not new_bz_instruction:
+                return None
+            bz_instructions[expr] = new_bz_instruction
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
             if not new_ft_instruction:
@@ -794,7 +806,10 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
-            bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
+            new_bz_instruction = gen_bz_instruction(expr, context, bz_instructions)
+            if not new_bz_instruction:
+                return None
+            bz_instructions[expr] = new_bz_instruction
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
             if not new_pt_instruction:
-- 
2.43.0


From 264c54dc9dfa40c76c05833b44741b2d4594deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 17/76] fix: compile equality between Booleans without the
 booleanizer and over temporal operands

---
 compiler/c2po/desugar.py       | 40 ++++++++++++++++++++++++++++++++++
 compiler/docs/user/commands.md | 13 ++++++++++-
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..33d5633 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -426,6 +426,45 @@ unroll_array_accesses_command = command.Command(
 )
 command.CommandRegistry.register(unroll_array_accesses_command)
 
+def resolve_bool_equalities(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+    """
+    Replaces equality and inequality between Booleans by `<->` and `xor` wherever the booleanizer cannot compute them, i.e., if it is disabled or an operand is a temporal logic expression.
+    Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
+    """
+    for expr in program.postorder(context):
+        if not isinstance(expr, cpt.Operator) or expr.operator not in {
+            cpt.OperatorKind.EQUAL,
+            cpt.OperatorKind.NOT_EQUAL,
+        }:
+            continue
+
+        lhs, rhs = expr.children
+        if not types.is_bool_type(lhs.type) or not types.is_bool_type(rhs.type):
+            continue
+
+        if context.enable_booleanizer and all(
+            c.engine != types.R2U2Engine.TEMPORAL_LOGIC or isinstance(c, cpt.Constant)
+            for c in expr.children
+        ):
+            continue
+
+        if expr.operator is cpt.OperatorKind.EQUAL:
+            expr.replace(cpt.Operator.LogicalIff(expr.loc, lhs, rhs))
+        else:
+            expr.replace(cpt.Operator.LogicalXor(expr.loc, [lhs, rhs]))
+
+    log.debug(1, f"Post Boolean equality resolution:\n{repr(program)}")
+    return command.ReturnCode.SUCCESS
+
+resolve_bool_equalities_command = command.Command(
+    name="resolve_bool_equalities",
+    description="Replaces equality and inequality between Booleans by `<->` and `xor` wherever the booleanizer cannot compute them.",
+    options=[],
+    func=resolve_bool_equalities,
+    guards=[command.WELL_TYPED],
+)
+command.CommandRegistry.register(resolve_bool_equalities_command)
+
 desugar_command = command.CompositeCommand(
     name="desugar",
     description="A list of commands to desugar a program. Only C2PO programs need to be desugared.",
@@ -440,6 +479,7 @@ desugar_command = command.CompositeCommand(
         resolve_struct_accesses_command,
         unroll_array_accesses_command, 
         resolve_struct_accesses_command,
+        resolve_bool_equalities_command,
     ],
     guards=[command.WELL_TYPED],
 )
diff --git a/compiler/docs/user/commands.md b/compiler/docs/user/commands.md
index bd885ad..d04d124 100644
--- a/compiler/docs/user/commands.md
+++ b/compiler/docs/user/commands.md
@@ -2,7 +2,7 @@
 
 _Auto-generated on 2026-05-16 by `compiler/scripts/generate_commands_doc.py`._
 
-Total commands: **63**
+Total commands: **64**
 
 ## Source: `assemble.py`
 
@@ -134,6 +134,7 @@ usage: desugar [-h]
 - `resolve_struct_accesses`
 - `unroll_array_accesses`
 - `resolve_struct_accesses`
+- `resolve_bool_equalities`
 
 No options.
 
@@ -367,6 +368,16 @@ usage: resolve_array_accesses [-h]
 
 No options.
 
+### `resolve_bool_equalities`
+
+Replaces equality and inequality between Booleans by `<->` and `xor` wherever the booleanizer cannot compute them.
+
+```text
+usage: resolve_bool_equalities [-h]
+```
+
+No options.
+
 ### `resolve_contracts`
 
 Removes each contract from each specification in Program and adds the corresponding conditions to track.
-- 
2.43.0


From 5bfdea9e2280f58d76727193722b57aff0590891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 18/76] fix: update nested prev values from the outermost
 inwards

---
 compiler/c2po/assemble.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 7772225..5e80b95 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -818,10 +818,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
-    # value after current iteration)
-    for key in list(bz_instructions):
-        if bz_instructions[key].operator is BZOperator.PREV:
-            bz_instructions[key] = bz_instructions.pop(key)
+    # value after current iteration), outermost first such that each reads the value of any PREV
+    # below it before that one is updated
+    prev_exprs = [expr for expr, instr in bz_instructions.items() if instr.operator is BZOperator.PREV]
+    prev_exprs.sort(key=lambda expr: -sum(cpt.is_prev_operator(d) for d in expr.get_descendants()))
+    for expr in prev_exprs:
+        bz_instructions[expr] = bz_instructions.pop(expr)
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-- 
2.43.0


From 86ca602953fe502ad6e4216cad84ea548f7f44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 19/76] fix: expand definitions that are only the name of
 another definition

---
 compiler/c2po/desugar.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 33d5633..0acb2a3 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -14,10 +14,16 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
         if not isinstance(expr, cpt.Variable):
             continue
 
-        if expr.symbol in context.definitions:
-            expr.replace(context.definitions[expr.symbol])
-        elif expr.symbol in context.specifications:
-            expr.replace(context.specifications[expr.symbol].get_expr())
+        # A definition may itself be nothing but the name of another one
+        new: cpt.Expression = expr
+        while isinstance(new, cpt.Variable):
+            if new.symbol in context.definitions:
+                new = context.definitions[new.symbol]
+            elif new.symbol in context.specifications:
+                new = context.specifications[new.symbol].get_expr()
+            else:
+                break
+        expr.replace(new)
 
     log.debug(1, f"post definition expansion:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
-- 
2.43.0


From cba57d7c1ff4546548c9cd3037f58906cd8f65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 20/76] fix: check the tense of definitions and labels where
 they are used

---
 compiler/c2po/cpt.py        |  9 ++++++---
 compiler/c2po/type_check.py | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index bf36660..1287ae1 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1462,7 +1462,7 @@ class Context:
         self.stats: stats.Stats = stats.Stats()
 
         # Status flags
-        self.is_ft = False
+        self.is_ft: Optional[bool] = False # None if formulas of either tense are allowed
         self.has_future_time = False
         self.has_past_time = False
         self.status = True
@@ -1529,10 +1529,10 @@ class Context:
         return symbols
 
     def is_future_time(self) -> bool:
-        return self.is_ft
+        return self.is_ft is True
 
     def is_past_time(self) -> bool:
-        return not self.is_ft
+        return self.is_ft is False
 
     def set_future_time(self) -> None:
         self.is_ft = True
@@ -1540,6 +1540,9 @@ class Context:
     def set_past_time(self) -> None:
         self.is_ft = False
 
+    def set_any_time(self) -> None:
+        self.is_ft = None
+
     def add_signal(self, symbol: str, t: types.Type) -> None:
         self.signals[symbol] = t
 
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..a903bf0 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -2,6 +2,34 @@ from typing import cast, Any
 from c2po import cpt, log, types, command
 
 
+def check_tense(symbol: str, expr: cpt.Expression, loc: log.FileLocation, context: cpt.Context) -> bool:
+    """Returns True if the definition or formula `expr` named `symbol` has no temporal operator of the other tense than the section being checked."""
+    for e in cpt.postorder(expr, context):
+        if isinstance(e, cpt.Variable) and e.symbol not in context.variables:
+            if e.symbol in context.definitions:
+                new = context.definitions[e.symbol]
+            elif e.symbol in context.specifications:
+                new = context.specifications[e.symbol]
+            else:
+                continue
+            if not check_tense(symbol, new, loc, context):
+                return False
+        elif cpt.is_future_time_operator(e) and context.is_past_time():
+            log.error(
+                f"mixed-time formulas unsupported, '{symbol}' in PTSPEC has FT formula\n    {e}",
+                loc,
+            )
+            return False
+        elif cpt.is_past_time_operator(e) and context.is_future_time():
+            log.error(
+                f"mixed-time formulas unsupported, '{symbol}' in FTSPEC has PT formula\n    {e}",
+                loc,
+            )
+            return False
+
+    return True
+
+
 def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[str, Any]) -> bool:
     """Returns True `start` is well-typed."""
     log.debug(2, f"type checking: {repr(start)}")
@@ -96,6 +124,8 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 expr.type = context.variables[symbol]
             elif symbol in context.definitions:
                 expr.type = context.definitions[symbol].type
+                if not check_tense(symbol, context.definitions[symbol], expr.loc, context):
+                    return False
             elif symbol in context.structs:
                 log.error(
                     "defined structs may not be used as variables, try declaring the struct first\n    ",
@@ -110,6 +140,8 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 return False
             elif symbol in context.specifications:
                 expr.type = types.BoolType()
+                if not check_tense(symbol, context.specifications[symbol], expr.loc, context):
+                    return False
             elif symbol in context.contracts:
                 log.error(
                     f"contracts not allowed as sub-expressions ('{symbol}')",
@@ -624,6 +656,9 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 ]
                 [type_check_expr(sig, context, options) for sig in signals]
     elif isinstance(section, cpt.DefineSection):
+        # Definitions are macros, their tense is checked wherever they are used
+        context.set_any_time()
+
         for definition in section.defines:
             if definition.symbol in symbols:
                 status = False
-- 
2.43.0


From 8a25a8179fafa87aa92328939fc201207f6be051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 21/76] fix: end the scope of set aggregation variables with
 their operator

---
 compiler/c2po/cpt.py        |  2 +-
 compiler/c2po/desugar.py    |  7 ++++++-
 compiler/c2po/type_check.py | 21 +++++++++++++++++----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 1287ae1..ea62dde 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1625,7 +1625,7 @@ def postorder(
         (seen, expr) = stack.pop()
 
         if seen and isinstance(expr, SetAggregation):
-            del context.bound_vars[expr.bound_var.symbol]
+            context.bound_vars.pop(expr.bound_var.symbol, None)
             yield expr
             continue
         elif seen and isinstance(expr, Bind):
diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 0acb2a3..b8420bf 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -10,7 +10,12 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
         expr
         for define in context.definitions.values()
         for expr in cpt.postorder(define, context)
-    ] + [expr for expr in program.postorder(context)]:
+        if expr.symbol not in context.bound_vars
+    ] + [
+        expr
+        for expr in program.postorder(context)
+        if expr.symbol not in context.bound_vars
+    ]:
         if not isinstance(expr, cpt.Variable):
             continue
 
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a903bf0..311977b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -5,7 +5,7 @@ from c2po import cpt, log, types, command
 def check_tense(symbol: str, expr: cpt.Expression, loc: log.FileLocation, context: cpt.Context) -> bool:
     """Returns True if the definition or formula `expr` named `symbol` has no temporal operator of the other tense than the section being checked."""
     for e in cpt.postorder(expr, context):
-        if isinstance(e, cpt.Variable) and e.symbol not in context.variables:
+        if isinstance(e, cpt.Variable) and e.symbol not in context.bound_vars:
             if e.symbol in context.definitions:
                 new = context.definitions[e.symbol]
             elif e.symbol in context.specifications:
@@ -285,15 +285,28 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             s: cpt.ArrayExpression = expr.get_set()
             boundvar: cpt.Variable = expr.bound_var
 
-            if isinstance(s.type, types.ArrayType):
-                context.add_variable(boundvar.symbol, s.type.member_type)
-            else:
+            if not isinstance(s.type, types.ArrayType):
                 log.error(
                     f"set aggregation set must be Set type (found '{s.type}')",
                     expr.loc,
                 )
                 return False
 
+            if boundvar.symbol in context.signals:
+                log.error(
+                    f"symbol '{boundvar.symbol}' already in use\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
+            for child in expr.get_descendants():
+                if isinstance(child, cpt.SetAggregation) and child.bound_var.symbol == boundvar.symbol:
+                    log.error(
+                        f"symbol '{boundvar.symbol}' already in use\n    {child}",
+                        expr.loc,
+                    )
+                    return False
+
             if expr.operator in {
                 cpt.SetAggregationKind.FOR_EXACTLY,
                 cpt.SetAggregationKind.FOR_AT_MOST,
-- 
2.43.0


From 058f4953f7c4866b707ee3a6f367f0adc7063205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 22/76] fix: deepcopy array slices

---
 compiler/c2po/cpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index ea62dde..f672caa 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1714,6 +1714,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = ArrayExpression(expr.loc, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, ArrayIndex):
             new = ArrayIndex(expr.loc, memo[id(expr.children[0])], expr.index)
+        elif isinstance(expr, ArraySlice):
+            new = ArraySlice(expr.loc, memo[id(expr.children[0])], expr.start, expr.stop)
         elif isinstance(expr, Struct):
             new = Struct(expr.loc, expr.symbol, expr.members, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, StructAccess):
-- 
2.43.0


From 7d5629ab1df9b400d0f2a642830aa669f54e6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 23/76] fix: traverse the nodes that replace visited nodes in
 preorder

---
 compiler/c2po/cpt.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index f672caa..95ef7d7 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1614,7 +1614,7 @@ def postorder(
 ) -> Iterator[Expression]:
     """Performs a postorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[tuple[bool, Expression]] = []
-    visited: set[int] = set()
+    visited: dict[int, Expression] = {}  # holds on to visited nodes so that no new node reuses their id
 
     if isinstance(start, Expression):
         stack.append((False, start))
@@ -1637,7 +1637,7 @@ def postorder(
         elif id(expr) in visited:
             continue
 
-        visited.add(id(expr))
+        visited[id(expr)] = expr
         stack.append((True, expr))
 
         for child in reversed(expr.children):
@@ -1648,7 +1648,7 @@ def preorder(
 ) -> Iterator[Expression]:
     """Performs a preorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[Expression] = []
-    visited: set[int] = set()
+    visited: dict[int, Expression] = {}  # holds on to visited nodes so that no new node reuses their id
 
     if isinstance(start, Expression):
         stack.append(start)
@@ -1663,12 +1663,16 @@ def preorder(
 
         yield expr
 
-        # if expr has been replaced since we just yielded it, need to traverse down the replacement node
+        visited[id(expr)] = expr
+
+        # if expr has been replaced since we just yielded it, need to traverse the replacement node
         cur = expr
         while cur.replacement:
             cur = cur.replacement
 
-        visited.add(id(cur))
+        if cur is not expr:
+            stack.append(cur)
+            continue
 
         for child in reversed(cur.children):
             stack.append(child)
-- 
2.43.0


From f5ef9322ef0b7c8a999483e5630eff5fc7bbe589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 24/76] fix: rewrite conjunctions and disjunctions only if they
 are binary

---
 compiler/c2po/rewrite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..6053d5a 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -129,8 +129,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     lb = expr.interval.lb + opnd1.interval.lb
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) and len(expr.children) == 2:
+            # Binary only for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -220,8 +220,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         cpt.Operator.LogicalAnd(expr.loc, [lhs_lhs, rhs_lhs]),
                         lhs_rhs
                     )
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR) and len(expr.children) == 2:
+            # Binary only for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From 1e31e2c8b6c9c03fcd70d00664c89442c81fb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 25/76] fix: resolve nested struct and array accesses and
 unroll sets and arrays with one element

---
 compiler/c2po/desugar.py       | 205 +++++++++++++--------------------
 compiler/docs/user/commands.md |   3 +-
 2 files changed, 80 insertions(+), 128 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index b8420bf..907c709 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -1,4 +1,4 @@
-from typing import Any, cast
+from typing import Any, Callable, Iterable, Union, cast
 from c2po import cpt, log, command, types
 
 def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
@@ -163,39 +163,75 @@ resolve_contracts_command = command.Command(
 command.CommandRegistry.register(resolve_contracts_command)
 
 
+def resolve_struct_access(expr: cpt.StructAccess) -> None:
+    """Replaces `expr` by the member it accesses if its struct is known."""
+    s = expr.get_struct()
+    if not isinstance(s, cpt.Struct):
+        return
+
+    member = s.get_member(expr.member)
+    if not member:
+        raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
+                         f"Please open an issue at {log.ISSUE_URL}.")
+
+    new_type = member.type
+    expr.replace(member)
+    member.type = new_type
+
+def resolve_array_access(expr: Union[cpt.ArrayIndex, cpt.ArraySlice]) -> bool:
+    """Replaces `expr` by the element(s) it accesses if its array is known. Returns False if it is out of bounds."""
+    array = expr.get_array()
+    if not isinstance(array, cpt.ArrayExpression):
+        return True
+
+    # Not all out-of-bounds errors are checked during type checking
+    # Ex: a struct has an array member type of uninterpreted size,
+    # must check this case here
+    last = expr.get_index() if isinstance(expr, cpt.ArrayIndex) else expr.get_indices()[1]
+    if last >= len(array.children):
+        log.error(f"out-of-bounds array index ({expr})", expr.loc)
+        return False
+
+    if isinstance(expr, cpt.ArrayIndex):
+        element = array.children[expr.get_index()]
+        new_type = element.type
+        expr.replace(element)
+        element.type = new_type
+    else:
+        (first, last) = expr.get_indices()
+        expr.replace(cpt.ArrayExpression(expr.loc, array.children[first : last + 1]))
+
+    return True
+
+def resolve_accesses_in(exprs: Iterable[cpt.Expression]) -> bool:
+    """Resolves the struct and array accesses of `exprs`, which must be in postorder. Returns False if one is out of bounds."""
+    for expr in exprs:
+        if isinstance(expr, cpt.StructAccess):
+            resolve_struct_access(expr)
+        elif isinstance(expr, (cpt.ArrayIndex, cpt.ArraySlice)) and not resolve_array_access(expr):
+            return False
+
+    return True
+
 def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """
     Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
-    def resolve_struct_accesses(expr: cpt.Expression, context: cpt.Context) -> None:
-        if not isinstance(expr, cpt.StructAccess):
-            return
-
-        s = expr.get_struct()
-        if not isinstance(s, cpt.Struct):
-            return
-
-        member = s.get_member(expr.member)
-        if not member:
-            raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
-                             f"Please open an issue at {log.ISSUE_URL}.")
-
-        new_type = member.type
-        if member:
-            expr.replace(member)
-            member.type = new_type
+    def combine(make: Callable[[list[cpt.Expression]], cpt.Expression], exprs: list[cpt.Expression]) -> cpt.Expression:
+        """An operator over a single element is just that element."""
+        return exprs[0] if len(exprs) == 1 else make(exprs)
 
     for expr in program.preorder(context):
         if not isinstance(expr, cpt.SetAggregation):
             continue
 
-        if expr.operator is cpt.SetAggregationKind.FOR_EACH:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+        if not resolve_accesses_in(cpt.postorder(expr.get_set(), context)):
+            return command.ReturnCode.ERROR
 
-            new = cpt.Operator.LogicalAnd(
-                expr.loc,
+        if expr.operator is cpt.SetAggregationKind.FOR_EACH:
+            new = combine(
+                lambda exprs: cpt.Operator.LogicalAnd(expr.loc, exprs),
                 [
                     cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                     for e in expr.get_set().children
@@ -203,15 +239,9 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             )
 
             expr.replace(new)
-
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
         elif expr.operator is cpt.SetAggregationKind.FOR_SOME:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
-
-            new = cpt.Operator.LogicalOr(
-                expr.loc,
+            new = combine(
+                lambda exprs: cpt.Operator.LogicalOr(expr.loc, exprs),
                 [
                     cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                     for e in expr.get_set().children
@@ -219,85 +249,61 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             )
 
             expr.replace(new)
-
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
         elif expr.operator is cpt.SetAggregationKind.FOR_EXACTLY:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
-
             num = expr.get_num()
             if not num:
                 raise ValueError(f"Number of exactly aggregation is required ({expr})")
 
             new = cpt.Operator.Equal(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
+                combine(
+                    lambda exprs: cpt.Operator.ArithmeticAdd(expr.loc, exprs, types.IntType()),
                     [
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
                     ],
-                    types.IntType(),
                 ),
                 num,
             )
 
             expr.replace(new)
-
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_LEAST:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
-
             num = expr.get_num()
             if not num:
                 raise ValueError(f"Number of at least aggregation is required ({expr})")
 
             new = cpt.Operator.GreaterThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
+                combine(
+                    lambda exprs: cpt.Operator.ArithmeticAdd(expr.loc, exprs, types.IntType()),
                     [
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
                     ],
-                    types.IntType(),
                 ),
                 num,
             )
 
             expr.replace(new)
-
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_MOST:
-            for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
-
             num = expr.get_num()
             if not num:
                 raise ValueError(f"Number of at most aggregation is required ({expr})")
 
             new = cpt.Operator.LessThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
+                combine(
+                    lambda exprs: cpt.Operator.ArithmeticAdd(expr.loc, exprs, types.IntType()),
                     [
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
                     ],
-                    types.IntType(),
                 ),
                 num,
             )
 
             expr.replace(new)
 
-            for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
-
     log.debug(1, f"post set aggregation unrolling:\n{repr(program)}")
 
     return command.ReturnCode.SUCCESS
@@ -318,22 +324,8 @@ def resolve_struct_accesses(program: cpt.Program, context: cpt.Context, options:
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
     for expr in program.postorder(context):
-        if not isinstance(expr, cpt.StructAccess):
-            continue
-
-        s = expr.get_struct()
-        if not isinstance(s, cpt.Struct):
-            continue
-
-        member = s.get_member(expr.member)
-        if not member:
-            raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
-                             f"Please open an issue at {log.ISSUE_URL}.")
-
-        new_type = member.type
-        if member:
-            expr.replace(member)
-            member.type = new_type
+        if isinstance(expr, cpt.StructAccess):
+            resolve_struct_access(expr)
 
     log.debug(1, f"post struct access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
@@ -350,48 +342,11 @@ command.CommandRegistry.register(resolve_struct_accesses_command)
 
 def resolve_array_accesses(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """
-    Resolves array access operations to the underlying member expression.
+    Resolves array access operations to the underlying member expression. Struct accesses are resolved along the way since they may be nested.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
-    for expr in program.postorder(context):
-        if isinstance(expr, cpt.ArrayIndex):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            if not isinstance(expr.get_array().type, types.ArrayType):
-                log.error(f"array access on a non-array expression, did you run type_check first? ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-                
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_index() >= array_type.size:
-                log.error(f"out-of-bounds array index ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-
-            array = expr.get_array()
-            expr.replace(array.children[expr.get_index()])
-        
-        elif isinstance(expr, cpt.ArraySlice):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_indices()[0] >= array_type.size or expr.get_indices()[1] >= array_type.size:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                context.status = False
-                continue
-
-            array = expr.get_array()
-
-            new = cpt.ArrayExpression(
-                expr.loc,
-                [
-                    array.children[i]
-                    for i in range(expr.get_indices()[0], expr.get_indices()[1]+1)
-                ],
-            )
-            expr.replace(new)
+    if not resolve_accesses_in(program.postorder(context)):
+        return command.ReturnCode.ERROR
 
     log.debug(1, f"post array access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
@@ -415,13 +370,12 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
         if isinstance(expr.children[0], cpt.ArrayExpression) and isinstance(expr.children[1], cpt.ArrayExpression):
             if cpt.is_relational_operator(expr) and isinstance(expr, cpt.Operator): # Only relational operators supported for now
-                new = cpt.Operator.LogicalAnd(
-                    expr.loc,
-                    [
-                        cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
-                        for x in range(len(expr.children[0].children))
-                    ],
-                )
+                comparisons = [
+                    cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]], types.BoolType())
+                    for x in range(len(expr.children[0].children))
+                ]
+
+                new = comparisons[0] if len(comparisons) == 1 else cpt.Operator.LogicalAnd(expr.loc, comparisons)
 
                 expr.replace(new)
 
@@ -487,9 +441,8 @@ desugar_command = command.CompositeCommand(
         resolve_struct_accesses_command,
         resolve_array_accesses_command,
         unroll_set_aggregation_command,
-        resolve_struct_accesses_command,
+        resolve_array_accesses_command,
         unroll_array_accesses_command, 
-        resolve_struct_accesses_command,
         resolve_bool_equalities_command,
     ],
     guards=[command.WELL_TYPED],
diff --git a/compiler/docs/user/commands.md b/compiler/docs/user/commands.md
index d04d124..f0d9a98 100644
--- a/compiler/docs/user/commands.md
+++ b/compiler/docs/user/commands.md
@@ -131,9 +131,8 @@ usage: desugar [-h]
 - `resolve_struct_accesses`
 - `resolve_array_accesses`
 - `unroll_set_aggregation`
-- `resolve_struct_accesses`
+- `resolve_array_accesses`
 - `unroll_array_accesses`
-- `resolve_struct_accesses`
 - `resolve_bool_equalities`
 
 No options.
-- 
2.43.0


From 1607afb71da86bdc3bb523a3a86ef8aa5632ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 26/76] fix: write formula aliases in order of their formula
 numbers

---
 compiler/c2po/assemble.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5e80b95..9d036a6 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1023,10 +1023,15 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
-        binary += str(alias).encode("ascii") + b"\x00"
 
         log.debug(1, f"packing formula alias instruction: {alias}")
 
+    # Formula aliases must appear in order of their formula number, which is the order of the
+    # specification file and not that of the (FT, PT) spec sets
+    aliases.sort(key=lambda alias: int(alias.args[0]))
+    for alias in aliases:
+        binary += str(alias).encode("ascii") + b"\x00"
+
     for label, contract in context.contracts.items():
         alias = AliasInstruction(AliasType.CONTRACT, label, [str(f) for f in contract.formula_numbers])
         aliases.append(alias)
-- 
2.43.0


From 2b5477bfd6b46198e86fcaac9758c3b4806adef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 27/76] fix: fail assembly if a specification name is too long
 instead of dropping all names

---
 compiler/c2po/assemble.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 9d036a6..04b80e1 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -995,12 +995,12 @@ def pack_instruction(
     return binary_len + binary
 
 
-def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> tuple[list[AliasInstruction], bytes]:
+def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> Optional[tuple[list[AliasInstruction], bytes]]:
     """
     `options` is a dictionary of options for the assembly.
     - `aux`: Whether to include aux data (e.g., contract status and specification naming)
 
-    Returns a tuple of (list of AliasInstructions, bytes)
+    Returns None if a name cannot be packed, otherwise a tuple of (list of AliasInstructions, bytes)
     - The list of AliasInstructions to be packed
     - The bytes of the packed AliasInstructions
     """
@@ -1019,7 +1019,7 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
                 spec.loc,
             )
-            return ([], bytes())
+            return None
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
@@ -1079,7 +1079,10 @@ def assemble(
     binary += b"\x00"
 
     if options["aux"]:
-        (aliases, binary_aliases) = pack_aliases(program, context, options)
+        packed_aliases = pack_aliases(program, context, options)
+        if packed_aliases is None:
+            return command.ReturnCode.ASSEMBLY_ERROR
+        (aliases, binary_aliases) = packed_aliases
         assembly += aliases
         binary += binary_aliases
     else:
-- 
2.43.0


From 6a5e375ea2f4c3176f1f4f00dfbc156ff9fb2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 28/76] fix: configure queues and BZ results of expressions
 shared by FT and PT specs

---
 compiler/c2po/assemble.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 04b80e1..66f8ddf 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -736,7 +736,11 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
     bz_instructions: dict[cpt.Expression, BZInstruction] = {}
     ft_instructions: dict[cpt.Expression, TLInstruction] = {}
     pt_instructions: dict[cpt.Expression, TLInstruction] = {}
-    cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+
+    # An expression may be part of both FT and PT specs (e.g., via a definition), then it has an
+    # instruction and a queue in each of them
+    ft_cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+    pt_cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
 
     # For tracking scq usage across FT and PT
     ft_scqs: int = 0
@@ -759,7 +763,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
 
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
+            ft_cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
             ft_scqs += 1
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
@@ -778,7 +782,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             if not new_ft_instruction:
                 return None
             ft_instructions[expr] = new_ft_instruction
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
+            ft_cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
             ft_scqs += 1
 
     for expr in cpt.postorder(program.pt_spec_set, context):
@@ -797,7 +801,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
             log.debug(1, f"Generating: {expr}\n\t" f"{pt_instructions[expr]}")
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip. Otherwise it is used by
@@ -805,6 +809,10 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
+        # The BZ engine computes each expression once, which may have been done for an FT spec already
+        if expr in bz_instructions:
+            continue
+
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             new_bz_instruction = gen_bz_instruction(expr, context, bz_instructions)
             if not new_bz_instruction:
@@ -815,7 +823,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             if not new_pt_instruction:
                 return None
             pt_instructions[expr] = new_pt_instruction
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
     # value after current iteration), outermost first such that each reads the value of any PREV
@@ -827,7 +835,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-    cg_instructions_ordered = [cg_instr for cg_instrs in cg_instructions.values() for cg_instr in cg_instrs]
+    cg_instructions_ordered = [
+        cg_instr
+        for cg_instructions in (ft_cg_instructions, pt_cg_instructions)
+        for cg_instrs in cg_instructions.values()
+        for cg_instr in cg_instrs
+    ]
     idx = 0
     end_of_instructions = len(cg_instructions_ordered)
     while idx < end_of_instructions:
-- 
2.43.0


From b86a543f6ffd21a9e9c38eb001c7441d695a7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 29/76] fix: count the contract that fills the auxiliary
 contract table

A monitor built with R2U2_AUX_MAX_CONTRACTS equal to the number of
contracts (what --write-bounds writes) dropped the last contract.
---
 monitors/c/src/internals/process_binary.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..9ab0f0f 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -92,7 +92,6 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
             } else {
               // Done processing Formulas and ran out of space to save any more Contract information
               length = 0;
-              break;
             }
             aux_contract_num++;
             break;
-- 
2.43.0


From 3324d72038096e7f2ef84c2161a5cc441f025fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 30/76] fix: do not write names past the end of the auxiliary
 formula table

A specification with more than R2U2_AUX_MAX_FORMULAS formulas wrote its
names through pointers read past the end of the table.
---
 monitors/c/src/internals/process_binary.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 9ab0f0f..e379fbb 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -97,11 +97,16 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
             break;
           }
           case 'F': {
+            if (aux_formula_num >= R2U2_AUX_MAX_FORMULAS){
+              // No space left for this formula; skip it, but keep iterating to find contracts section of binary
+              sscanf((char*)&(spec[offset]), "%*c %*s %*u%n", &length);
+              break;
+            }
             sscanf((char*)&(spec[offset]), "%*c %s %u%n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str, &(aux_arena->formula_control_blocks[aux_formula_num].spec), &length);
             if (R2U2_AUX_MAX_FORMULAS > (aux_formula_num + 1)){
               (aux_arena->formula_control_blocks)[aux_formula_num+1].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num].spec_str) + 1; // Leave a Null
               R2U2_DEBUG_PRINT("Mapping formula: %s\n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str);
-            } // Note: If bound is exceeded, we keep iterating to find contracts section of binary
+            }
             aux_formula_num++;
             break;
           }
-- 
2.43.0


From a315f7ba43aa68b340779fdd4769fed0abac2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 31/76] fix: report repeated and missing columns of a trace
 header

The location of the message was looked up under an option that does not
exist, so both cases ended in an internal error instead.
---
 compiler/c2po/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..7d58277 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From 55b3832d0564fece4a3f0a3137ac3913deee206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 32/76] fix: read indented rows and CRLF line ends in the CSV
 trace reader

Any text other than "0" counts as true without the booleanizer, so a
"  0" as in the documented example, or a last column "0\r", was true.
---
 monitors/c/src/cli/csv_trace.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 3181ecb..77e51e4 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -17,7 +17,10 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
     if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
   }
   
-  for(i = 0, signal = strtok(csv_reader->in_buf, ",\n"); signal; i++, signal = strtok(NULL, ",\n")) {
+  for(i = 0, signal = strtok(csv_reader->in_buf, ",\r\n"); signal; i++, signal = strtok(NULL, ",\r\n")) {
+    // Values may be indented or follow a space after the comma
+    signal += strspn(signal, " \t");
+
     // Follow the pointer to the signal vector, then assign the ith element
     // Note this is a pointer into the r2u2_csv_reader_t in_buf which must
     // stay in place while the signal vector is live
-- 
2.43.0


From 0cff86dfc7f7b8ef4cb6ce8440d756ba0953f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 33/76] fix: accept map lines written as SYMBOL : NUMERAL

The documented form with spaces was refused, and anything after the
numeral was accepted and then ended in an internal error.
---
 compiler/c2po/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..303cf74 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -21,9 +21,9 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
-        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line):
+        if re.fullmatch(r"\s*[a-zA-Z_][a-zA-Z0-9_\[\]\.]*\s*:\s*\d+\s*", line):
             strs = line.split(":")
-            id = strs[0]
+            id = strs[0].strip()
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-- 
2.43.0


From f8e5da10e4bb917dc362e30758a6bc199e4ac899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 34/76] fix: expand map slices whose first index has several
 digits

---
 compiler/c2po/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 303cf74..816e9f7 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -27,7 +27,7 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
-- 
2.43.0


From d382e71442993dc458581063af7a4b41e8222e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 35/76] fix: keep verdicts produced ahead of time when an event
 skips beyond them

In an event-based trace the next input can lie beyond all verdicts that
a past-time operator has produced early; its verdict overwrote them
before an operator with a slower sibling had read them.
---
 compiler/c2po/scq.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index b9b40f9..d71a1f1 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -2,9 +2,11 @@ from __future__ import annotations
 from typing import cast, Any
 from c2po import cpt, log, types, command
 
-def compute_propagation_delays(program: cpt.Program, context: cpt.Context) -> None:
+def compute_propagation_delays(program: cpt.Program, context: cpt.Context) -> set[int]:
     """Computes the best- and worst-case propagation delay of each node from its current children, which can differ
-    from the ones it was constructed with (labels and definitions are expanded and expressions replaced)."""
+    from the ones it was constructed with (labels and definitions are expanded and expressions replaced).
+    
+    Returns the ids of the expressions that have a past-time operator in their subtree."""
     has_past_operator: set[int] = set() # ids of expressions with a past-time operator in their subtree
 
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
@@ -32,6 +34,8 @@ def compute_propagation_delays(program: cpt.Program, context: cpt.Context) -> No
         expr.wpd -= expr.interval.lb
         has_past_operator.add(id(expr))
 
+    return has_past_operator
+
 
 def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """Computes SCQ sizes for each node. Returns the total SCQ size.
@@ -42,7 +46,7 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
-    compute_propagation_delays(program, context)
+    has_past_operator = compute_propagation_delays(program, context)
 
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
@@ -72,8 +76,13 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             )
             continue
 
-        max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
+        siblings = expr.get_siblings()
+        max_wpd = max([sibling.wpd for sibling in siblings] + [0])
         expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
+        if len(siblings) > 0 and id(expr) in has_past_operator:
+            # The next input of an event-based trace can lie beyond all verdicts produced ahead of the current time. Its
+            # verdict must not overwrite them while a sibling has yet to catch up.
+            expr.scq_size += 1
         total_scq_size += expr.scq_size
         expr.scq = (
             total_scq_size - expr.scq_size,
-- 
2.43.0


From b563b8fbe89fd323bf8ce5697c90c7ed9bf0a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 36/76] fix: do not dereference a missing time or value in an
 event row of a CSV trace

---
 monitors/c/src/cli/csv_trace.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 77e51e4..9e929b2 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -30,10 +30,12 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       char* temp_var;
       char* timechar = strtok_r(signal+1, " ", &temp_var);
       uint32_t time_signature;
-      if(sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
+      if(timechar == NULL || sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
       (monitor->time_stamp) = time_signature;
       R2U2_DEBUG_PRINT("Event: %u\n",monitor->time_stamp);
       signal = strtok_r(NULL, " ", &temp_var);
+      // An event without values keeps the current ones
+      if (signal == NULL) continue;
     }
     r2u2_load_string_signal(monitor, i, signal);
   }
-- 
2.43.0


From bc4ff1c8d573b51315e2a03a2ff4fd44c2511d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 37/76] fix: ignore columns of a CSV trace that the signal
 buffers have no room for

---
 monitors/c/src/cli/csv_trace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 9e929b2..8ad4684 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -2,12 +2,15 @@
 #include "csv_trace.h"
 #include "r2u2.h"
 #include "internals/debug.h"
+#include "internals/bounds.h"
 #include <stdio.h>
 #include <string.h>
 
 r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_monitor_t* monitor) {
   char* signal;
   uintptr_t i;
+  // Without the booleanizer, signals are loaded directly into the atomic buffer
+  const uintptr_t max_signals = (monitor->bz_program_count.max_program_count == 0) ? R2U2_MAX_ATOMICS : R2U2_MAX_SIGNALS;
 
   // Read in next line of trace to internal buffer for processing
   if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
@@ -21,6 +24,9 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
     // Values may be indented or follow a space after the comma
     signal += strspn(signal, " \t");
 
+    // There is no room for further columns
+    if (i >= max_signals) break;
+
     // Follow the pointer to the signal vector, then assign the ith element
     // Note this is a pointer into the r2u2_csv_reader_t in_buf which must
     // stay in place while the signal vector is live
-- 
2.43.0


From 36202a80f975fc1bca53c0f7e56c4baf0542c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 38/76] fix: do not lex identifiers that begin with prev as the
 prev operator

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..b5c3245 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -56,7 +56,6 @@ class C2POLexer(sly.Lexer):
     # ARITH_PM    = r"\+/-|±"
 
     # Others
-    PREV = r'prev'
     CONTRACT_ASSIGN = r"=>"
     ASSIGN  = r":="
     SYMBOL  = r"[a-zA-Z_][a-zA-Z0-9_]*"
@@ -89,6 +88,7 @@ class C2POLexer(sly.Lexer):
     SYMBOL["pow"]  = ARITH_POW
     SYMBOL["sqrt"] = ARITH_SQRT
     SYMBOL["abs"]  = ARITH_ABS
+    SYMBOL["prev"] = PREV
     SYMBOL["xor"]  = LOG_XOR
     SYMBOL['G'] = TL_GLOBAL
     SYMBOL['F'] = TL_FUTURE
-- 
2.43.0


From 31090c01b264acc650f40570cf054ffbb2a7fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 39/76] fix: read a minus sign that directly precedes a number
 after an operand as subtraction

---
 compiler/c2po/parse_c2po.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index b5c3245..8a8da1a 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -110,6 +110,25 @@ class C2POLexer(sly.Lexer):
     def ignore_newline(self, t):
         self.lineno += t.value.count("\n")
 
+    # Tokens that end an operand, a minus sign after one of these is a subtraction
+    operand_ends = { "SYMBOL", "NUMERAL", "DECIMAL", "RPAREN", "RBRACK", "KW_TIMESTAMP" }
+
+    def tokenize(self, text, lineno=1, index=0):
+        prev_type = None
+        for token in super().tokenize(text, lineno, index):
+            if (
+                token.type in {"NUMERAL", "DECIMAL"}
+                and token.value.startswith("-")
+                and prev_type in self.operand_ends
+            ):
+                minus = sly.lex.Token()
+                minus.type, minus.value, minus.lineno = "ARITH_SUB", "-", token.lineno
+                minus.index, minus.end = token.index, token.index + 1
+                yield minus
+                token.value, token.index = token.value[1:], token.index + 1
+            prev_type = token.type
+            yield token
+
     def error(self, t):
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
         self.index += 1
-- 
2.43.0


From 557254ccca9007d34096037896a993658d3842b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 40/76] fix: use the mission time for MLTL files and the
 mission-time option of parse_c2po

---
 compiler/c2po/parse_c2po.py | 7 ++++++-
 compiler/c2po/parse_mltl.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 8a8da1a..bab56c8 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -718,8 +718,13 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.clear() 
     context.set_spec_filename(options["filename"])
 
+    # The command's own option takes precedence over 'set_mission_time'
+    mission_time = options["mission_time"]
+    if mission_time < 0:
+        mission_time = context.mission_time
+
     lexer: C2POLexer = C2POLexer(options["filename"])
-    parser: C2POParser = C2POParser(options["filename"], context.mission_time)
+    parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..d2feb18 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -274,8 +274,13 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.clear() 
     context.set_spec_filename(options["filename"])
 
+    # The command's own option takes precedence over 'set_mission_time'
+    mission_time = options["mission_time"]
+    if mission_time < 0:
+        mission_time = context.mission_time
+
     lexer: MLTLLexer = MLTLLexer(options["filename"])
-    parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
+    parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
-- 
2.43.0


From 1aee1a467789936c4f832528fa8bab2dd550414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 41/76] fix: refuse a specification with illegal characters
 instead of dropping them

---
 compiler/c2po/parse_c2po.py  | 4 +++-
 compiler/c2po/parse_equiv.py | 4 +++-
 compiler/c2po/parse_mltl.py  | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index bab56c8..c63302c 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -105,6 +105,7 @@ class C2POLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     # Extra action for newlines
     def ignore_newline(self, t):
@@ -130,6 +131,7 @@ class C2POLexer(sly.Lexer):
             yield token
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
         self.index += 1
 
@@ -727,7 +729,7 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     return cpt.Program(0, sections)
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index a394c2f..ff9b949 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -79,8 +79,10 @@ class MLTLEquivLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -325,7 +327,7 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     program, signal_mapping = output
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index d2feb18..0dc972c 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -53,9 +53,11 @@ class MLTLLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
-        log.error(f"Illegal character '%s' {t.value[0]}", log.FileLocation(self.filename, t.lineno))
+        self.status = False
+        log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
 
@@ -283,7 +285,7 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     program, signal_mapping = output
-- 
2.43.0


From f560102b701c5939ce16da9b086357f53650a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 42/76] fix: write the number of counting set aggregations in
 C2PO and prefix output

---
 compiler/c2po/cpt.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 95ef7d7..826265d 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2027,11 +2027,17 @@ def to_infix_str(start: Expression) -> str:
         elif isinstance(expr, SetAggregation):
             if seen == 0:
                 s += f"{expr.symbol}({expr.bound_var} : "
-                stack.append((seen + 1, expr))
+                stack.append((1, expr))
+                num = expr.get_num()
+                if num is not None:
+                    stack.append((0, num))
+                    stack.append((2, expr))
                 stack.append((0, expr.get_set()))
+            elif seen == 2:
+                s += ", "
             elif seen == 1:
                 s += ")("
-                stack.append((seen + 1, expr))
+                stack.append((3, expr))
                 stack.append((0, expr.get_expr()))
             else:
                 s += ")"
@@ -2151,6 +2157,9 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
             if seen == 0:
                 s += f"({expr.symbol} ({expr.bound_var} : "
                 stack.append((seen + 1, expr))
+                num = expr.get_num()
+                if num is not None:
+                    stack.append((0, num))
                 stack.append((0, expr.get_set()))
             elif seen == 1:
                 s = s[:-1] + ") "
-- 
2.43.0


From a548c05617cbcc89e81cd337f4ce4e17e78cc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 43/76] fix: terminate on a syntax error in an enum declaration

---
 compiler/c2po/sly/yacc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sly/yacc.py b/compiler/c2po/sly/yacc.py
index 7adda8c..00831d0 100644
--- a/compiler/c2po/sly/yacc.py
+++ b/compiler/c2po/sly/yacc.py
@@ -2093,7 +2093,9 @@ class Parser(metaclass=ParserMeta):
             # Get the next symbol on the input.  If a lookahead symbol
             # is already set, we just use that. Otherwise, we'll pull
             # the next token off of the lookaheadstack or from the lexer
-            if self.state not in defaulted_states:
+            # No default reduction on an error token: recovery would reduce an empty rule, pop it,
+            # and reduce it again forever
+            if self.state not in defaulted_states or (lookahead and lookahead.type == 'error'):
                 if not lookahead:
                     if not lookaheadstack:
                         lookahead = next(tokens, None)  # Get the next token
-- 
2.43.0


From 1dee978a44020f73584acbca32925d73b0a46414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 44/76] fix: write enums in the syntax of enum declarations

---
 compiler/c2po/cpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 826265d..ed92021 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1154,8 +1154,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{s.symbol}: {s.expr}" for s in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context) -> EnumDefinition:
         var_defs = [v.deepcopy(context) for v in self.var_defs]
-- 
2.43.0


From c030e8054cc2de29289719ee72c7043dae642c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 45/76] fix: read sqrt and abs in the form in which they are
 written

---
 compiler/c2po/parse_c2po.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index c63302c..a9f9640 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -500,13 +500,13 @@ class C2POParser(sly.Parser):
     def expr(self, p):
         return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_SQRT LPAREN expr RPAREN")
+    @_("ARITH_SQRT expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_ABS LPAREN expr RPAREN")
+    @_("ARITH_ABS expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[1])
         
     @_("PREV LPAREN expr COMMA expr RPAREN")
     def expr(self, p):
-- 
2.43.0


From aa27aeb9ef706f0a86ccaa4f50a3f270431b61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 46/76] fix: accept the empty array literal of the grammar

Its location named an undefined variable, and a set aggregation over no
elements failed internally. It is now the neutral element of the operator.
---
 compiler/c2po/desugar.py    | 11 +++++++++--
 compiler/c2po/parse_c2po.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 907c709..7f76d5a 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -218,8 +218,10 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
     Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
-    def combine(make: Callable[[list[cpt.Expression]], cpt.Expression], exprs: list[cpt.Expression]) -> cpt.Expression:
-        """An operator over a single element is just that element."""
+    def combine(make: Callable[[list[cpt.Expression]], cpt.Expression], exprs: list[cpt.Expression], empty: cpt.Constant) -> cpt.Expression:
+        """An operator over a single element is just that element, over none it is `empty`."""
+        if len(exprs) == 0:
+            return empty
         return exprs[0] if len(exprs) == 1 else make(exprs)
 
     for expr in program.preorder(context):
@@ -236,6 +238,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                     cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                     for e in expr.get_set().children
                 ],
+                cpt.Constant(expr.loc, True),
             )
 
             expr.replace(new)
@@ -246,6 +249,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                     cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                     for e in expr.get_set().children
                 ],
+                cpt.Constant(expr.loc, False),
             )
 
             expr.replace(new)
@@ -262,6 +266,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
                     ],
+                    cpt.Constant(expr.loc, 0),
                 ),
                 num,
             )
@@ -280,6 +285,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
                     ],
+                    cpt.Constant(expr.loc, 0),
                 ),
                 num,
             )
@@ -298,6 +304,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
                         cpt.rename(expr.bound_var, e, expr.get_expr(), context)
                         for e in expr.get_set().children
                     ],
+                    cpt.Constant(expr.loc, 0),
                 ),
                 num,
             )
diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index a9f9640..9a4bd7d 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -432,7 +432,7 @@ class C2POParser(sly.Parser):
     # Empty array expression
     @_("LBRACE RBRACE")
     def expr(self, p):
-        return cpt.ArrayExpression(ln, [])
+        return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])
 
     # Parameterized set aggregation expression
     @_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
-- 
2.43.0


From 952b2799c758163abea6382616416a0aa822559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 47/76] fix: refuse inputs of types that no input can have

Inputs of unknown, struct, unsized or nested array types made the type
checker or a later pass fail internally, enum arrays were not resolved.
---
 compiler/c2po/type_check.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 311977b..56c2a24 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -1,4 +1,4 @@
-from typing import cast, Any
+from typing import cast, Any, Optional
 from c2po import cpt, log, types, command
 
 
@@ -90,7 +90,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if (
                 not context.enable_booleanizer
                 and (types.is_enum_type(context.signals[expr.symbol]) 
-                    or context.signals[expr.symbol] in {types.IntType(), types.FloatType()})
+                    or context.signals[expr.symbol] in (types.IntType(), types.FloatType()))
             ):
                 log.error(
                     f"non-bool type found '{expr.symbol}' ({context.signals[expr.symbol]})\n"
@@ -630,6 +630,21 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
     return True
 
 
+def resolve_input_type(t: types.Type, context: cpt.Context) -> Optional[types.Type]:
+    """Returns the type of an input declared with type `t` or `None` if no input can be of that type."""
+    if isinstance(t, types.ArrayType):
+        member_type = resolve_input_type(t.member_type, context)
+        if t.size < 0 or not member_type or types.is_array_type(member_type):
+            return None
+        return types.ArrayType(member_type, t.is_const, t.size)
+
+    if types.is_struct_type(t):
+        # The parser takes the name of any type for that of a struct
+        return types.EnumType(t.symbol) if t.symbol in context.enums else None
+
+    return t
+
+
 def type_check_section(section: cpt.ProgramSection, symbols: set[str], context: cpt.Context, options: dict[str, Any]) -> bool:
     status = True
 
@@ -643,8 +658,15 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         declaration.loc,
                     )
 
-                if declaration.type.symbol in context.enums:
-                    declaration.type = types.EnumType(declaration.type.symbol)
+                input_type = resolve_input_type(declaration.type, context)
+                if not input_type:
+                    log.error(
+                        f"input '{signal}' must be of a basic type, an enum, or an array of a known size, found '{declaration.type}'",
+                        declaration.loc,
+                    )
+                    status = False
+
+                declaration.type = input_type or declaration.type
 
                 symbols.add(signal)
                 context.add_signal(signal, declaration.type)
-- 
2.43.0


From 94935522c716747bd8609bc33f8a2351c7e86533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 48/76] fix: report no error for an unused input array without
 the booleanizer

The error was printed but the program compiled all the same.
---
 compiler/c2po/type_check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 56c2a24..3ee3671 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -689,7 +689,10 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                     context.add_signal(f"{signal}[{i}]", declaration.type.member_type)
                     for i in range(0, declaration.type.size)
                 ]
-                [type_check_expr(sig, context, options) for sig in signals]
+
+                # Elements that need the booleanizer are refused where they are used, not here
+                if context.enable_booleanizer or types.is_bool_type(declaration.type.member_type):
+                    [type_check_expr(sig, context, options) for sig in signals]
     elif isinstance(section, cpt.DefineSection):
         # Definitions are macros, their tense is checked wherever they are used
         context.set_any_time()
-- 
2.43.0


From 187447b71190da7899b7a8cab620fdf80b8b78f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 49/76] fix: refuse struct instantiations with the wrong number
 of members

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3ee3671..80a405a 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -262,7 +262,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             target_types = [m for m in context.structs[expr.symbol].values()]
             actual_types = [c.type for c in expr.children]
 
-            if any(
+            if len(target_types) != len(actual_types) or any(
                 [
                     target_type != actual_type
                     for target_type, actual_type in zip(target_types, actual_types)
-- 
2.43.0


From 4d52458f16300f7a7a418318b2055fa955f5ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 50/76] fix: check that symbols are unique across sections

Every section was checked on its own, so that the same symbol could be used
in two of them, the later one silently taking the place of the earlier.
---
 compiler/c2po/type_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 80a405a..949c66b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -742,6 +742,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Symbol '{member_name}' already in use",
                         enum.loc,
                     )
+            symbols.update([enum.symbol, *enum.members])
             context.add_enum(enum.symbol, enum.members)
     elif isinstance(section, cpt.SpecSection):
         if isinstance(section, cpt.FutureTimeSpecSection):
@@ -775,8 +776,9 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
         None if type checking fails, the context object otherwise.
     """
     status = True
+    symbols: set[str] = set()
     for section in program.sections:
-        is_good = type_check_section(section, set(), context, options)
+        is_good = type_check_section(section, symbols, context, options)
         status = status and is_good
 
     log.debug(1, f"type checking result: {status}")
-- 
2.43.0


From 8a0098cbe9dab6956e81fbb4cbc1ddabf8572433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 51/76] fix: refuse negative array indices and those equal to
 the size

A[-1] was silently read as A[1].
---
 compiler/c2po/type_check.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 949c66b..7f2d734 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -187,18 +187,16 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if (abs(expr.start) > array_type.size or abs(expr.stop) > array_type.size) and array_type.size > -1:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                return False
-
-            if expr.start < 0:
-                expr.start = -expr.start
-            if expr.stop < 0:
-                expr.stop = -expr.stop
             if expr.start > expr.stop:
                 log.error(f"Invalid array index ({expr}), {expr.start} is greater than {expr.stop}", expr.loc)
                 return False
 
+            if expr.start < 0 or expr.stop < 0 or (
+                array_type.size > -1 and (expr.start >= array_type.size or expr.stop >= array_type.size)
+            ):
+                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
+                return False
+
             expr.type = types.ArrayType(
                 array_type.member_type, is_const=expr.get_array().type.is_const, size=expr.stop - expr.start + 1
             )
@@ -211,13 +209,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if abs(expr.index) > array_type.size and array_type.size > -1:
+            if expr.index < 0 or (array_type.size > -1 and expr.index >= array_type.size):
                 log.error(f"out-of-bounds array index ({expr})", expr.loc)
                 return False
 
-            if expr.index < 0:
-                expr.index = -expr.index
-
             # Hacky special case where the array is a signal array, we use a temporary signal to
             # avoid repeating code
             if isinstance(expr.get_array(), cpt.Variable):
-- 
2.43.0


From 21d93ecb36e4f872eac9fca80bccbf0d90a1131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 52/76] fix: refuse comparisons of non-bool constants without
 the booleanizer

1 == 2 produced booleanizer instructions with the booleanizer disabled.
---
 compiler/c2po/type_check.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 7f2d734..8068c72 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -548,6 +548,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
+            operand_type = lhs.type.member_type if types.is_array_type(lhs.type) else lhs.type
+            if not context.enable_booleanizer and not types.is_bool_type(operand_type):
+                log.error(
+                    f"found Booleanizer expression, but Booleanizer expressions disabled\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             expr.type = types.BoolType(lhs.type.is_const and rhs.type.is_const)
         elif cpt.is_logical_operator(expr):
             expr = cast(cpt.Operator, expr)
-- 
2.43.0


From 7d9d902963d7f84580d4a0bda7f8ed14a35a5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 53/76] fix: do not let a symbol already in use stand for its
 new definition

A definition or formula in terms of its own symbol made later checks recurse
without end.
---
 compiler/c2po/type_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 8068c72..9c1e581 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -707,6 +707,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                     f"symbol '{definition.symbol}' already in use",
                     definition.loc, 
                 )
+                continue
 
             symbols.add(definition.symbol)
             is_good_def = type_check_expr(definition.expr, context, options)
@@ -760,6 +761,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                     f"symbol '{spec.symbol}' already in use",
                     spec.loc,
                 )
+                continue
 
             symbols.add(spec.symbol)
             is_good_spec = type_check_expr(spec, context, options)
-- 
2.43.0


From 39ee8bdf8c629db3150aa338649df8ae0eeed54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 54/76] fix: parse traces whose first line is empty

---
 compiler/c2po/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 7d58277..6531e6e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -33,7 +33,7 @@ def parse_trace_file(
 
     cnt: int = 0
     signal_mapping: types.SignalMapping = {}
-    if lines[0][0] != "#":
+    if not lines[0].startswith("#"):
         # no header, so just set trace length
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
-- 
2.43.0


From ca09051c338460209bdfec156620cb06d52169b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 55/76] fix: say why a program without specifications is not
 assembled

---
 compiler/c2po/assemble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 66f8ddf..17763ef 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1075,6 +1075,10 @@ def assemble(
             program.loc,
         )
 
+    if len(program.get_specs()) == 0:
+        log.error("program has no specifications to assemble", program.loc)
+        return command.ReturnCode.ASSEMBLY_ERROR
+
     assembly = gen_assembly(program, context)
 
     if not assembly:
-- 
2.43.0


From bfe860ecfce5b317e92c16e5a2151e029b4573dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 56/76] fix: report instructions that are not representable in
 a binary

Signal indices and interval bounds beyond 32 bits failed internally.
---
 compiler/c2po/assemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 17763ef..7607479 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 from dataclasses import dataclass
 from enum import Enum
-from struct import Struct as CStruct
+from struct import Struct as CStruct, error as CStructError
 from typing import Any, Optional, Union, cast
 from c2po import cpt, log, types, command, scq, atomics
 
@@ -1091,7 +1091,11 @@ def assemble(
     binary += CStruct("B").pack(len(binary_header) + 1) + binary_header
 
     for instr in assembly:
-        binary += pack_instruction(instr, field_format_str_map)
+        try:
+            binary += pack_instruction(instr, field_format_str_map)
+        except CStructError as e:
+            log.error(f"instruction not representable in a binary ({e})\n    {instr}")
+            return command.ReturnCode.ASSEMBLY_ERROR
 
     binary += b"\x00"
 
-- 
2.43.0


From 1c454e79ad988594c42af380a83e6ead4bf078a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 57/76] fix: type check programs with enums more than once

The enums of a program were in use when it was type checked again (as compile
does after desugar), and those of a program parsed earlier were not forgotten.
---
 compiler/c2po/cpt.py        | 1 +
 compiler/c2po/type_check.py | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index ed92021..4d3a37b 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1498,6 +1498,7 @@ class Context:
         """
         self.definitions.clear()
         self.structs.clear()
+        self.enums.clear()
         self.signals.clear()
         self.variables.clear()
         self.specifications.clear()
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 9c1e581..a7aa693 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -726,8 +726,11 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
             symbols.add(struct.symbol)
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
+        # Enums may share members
+        members = {member for enum in context.enums.values() for member in enum}
+
         for enum in section.enum_defs:
-            if enum.symbol in context.get_symbols():
+            if enum.symbol in symbols:
                 status = False
                 log.error(
                     f"Symbol '{enum.symbol}' already in use",
@@ -740,13 +743,14 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
-                if member_name in context.get_symbols() or member_name == enum.symbol:
+                if member_name in symbols - members or member_name == enum.symbol:
                     status = False
                     log.error(
                         f"Symbol '{member_name}' already in use",
                         enum.loc,
                     )
             symbols.update([enum.symbol, *enum.members])
+            members.update(enum.members)
             context.add_enum(enum.symbol, enum.members)
     elif isinstance(section, cpt.SpecSection):
         if isinstance(section, cpt.FutureTimeSpecSection):
-- 
2.43.0


From 58de3607857deeae51e3e6f77b6eba44a2ce4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 58/76] fix: push all of the state

Enums, the paths and output of R2U2 and some statistics were lost by push, the
assembly was shared with the pushed state and cleared by the next parse.
---
 compiler/c2po/cpt.py   | 10 +++++++---
 compiler/c2po/stats.py | 37 ++-----------------------------------
 2 files changed, 9 insertions(+), 38 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 4d3a37b..4a2d02e 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1576,6 +1576,7 @@ class Context:
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
         new.structs = { k: v for k, v in self.structs.items() }
+        new.enums = { k: v for k, v in self.enums.items() }
         new.signals = { k: v for k, v in self.signals.items() }
         new.variables = { k: v for k, v in self.variables.items() }
         new.specifications = { k: v for k, v in self.specifications.items() }
@@ -1585,11 +1586,11 @@ class Context:
         new.bound_vars = { k: v for k, v in self.bound_vars.items() }
         new.signal_mapping = { k: v for k, v in self.signal_mapping.items() }
 
-        # Deepcopy is not needed for the assembly list
+        # Deepcopy is not needed for the assembly instructions
         # TODO: Consider warning user? Or have a check that assembly matches the program?
-        new.assembly = self.assembly 
+        new.assembly = list(self.assembly)
 
-        new.trace = self.trace
+        new.trace = list(self.trace)
         new.binary = self.binary
         new.bounds = [cast(SymbolicIntervalVariable, b.deepcopy(new)) for b in self.bounds]
         new.constraints = [c.deepcopy(new) for c in self.constraints]
@@ -1604,6 +1605,9 @@ class Context:
         new.map_filename = self.map_filename
         new.egglog_path = self.egglog_path
         new.smt_solver_path = self.smt_solver_path
+        new.r2u2_c_path = self.r2u2_c_path
+        new.r2u2_bin_path = self.r2u2_bin_path
+        new.r2u2_output = self.r2u2_output
         new.mission_time = self.mission_time
         new.enable_booleanizer = self.enable_booleanizer
         new.script_filename = self.script_filename
diff --git a/compiler/c2po/stats.py b/compiler/c2po/stats.py
index 472a63e..7470ca4 100644
--- a/compiler/c2po/stats.py
+++ b/compiler/c2po/stats.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 
 STATS_FORMAT_MAP: dict[str, str] = {
     "F": "spec_filename",
@@ -119,37 +119,4 @@ class Stats:
         )
 
     def deepcopy(self) -> "Stats":
-        return Stats(
-            spec_filename=self.spec_filename,
-            first_formula_string=self.first_formula_string,
-            total_scq_size=self.total_scq_size,
-            total_dag_size=self.total_dag_size,
-            num_temporal_operators=self.num_temporal_operators,
-            asm_num_instructions=self.asm_num_instructions,
-            asm_num_bz_instructions=self.asm_num_bz_instructions,
-            asm_num_tl_instructions=self.asm_num_tl_instructions,
-            asm_num_cg_instructions=self.asm_num_cg_instructions,
-            asm_num_scq_instructions=self.asm_num_scq_instructions,
-            asm_num_aliases=self.asm_num_aliases,
-            asm_num_signals=self.asm_num_signals,
-            asm_num_atomics=self.asm_num_atomics,
-            smt_encoding_time=self.smt_encoding_time,
-            smt_solver_time=self.smt_solver_time,
-            smt_solver_result=self.smt_solver_result,
-            smt_num_calls=self.smt_num_calls,
-            eqsat_encoding_time=self.eqsat_encoding_time,
-            eqsat_solver_time=self.eqsat_solver_time,
-            eqsat_equiv_result=self.eqsat_equiv_result,
-            eqsat_equiv_encoding_time=self.eqsat_equiv_encoding_time,
-            eqsat_equiv_solver_time=self.eqsat_equiv_solver_time,
-            eqsat_num_eclasses=self.eqsat_num_eclasses,
-            eqsat_num_enodes=self.eqsat_num_enodes,
-            eqsat_gurobi_encoding_time=self.eqsat_gurobi_encoding_time,
-            eqsat_gurobi_solver_time=self.eqsat_gurobi_solver_time,
-            eqsat_gurobi_solver_status=self.eqsat_gurobi_solver_status,
-            r2u2_median_runtime=self.r2u2_median_runtime,
-            r2u2_average_runtime=self.r2u2_average_runtime,
-            r2u2_min_runtime=self.r2u2_min_runtime,
-            r2u2_max_runtime=self.r2u2_max_runtime,
-            r2u2_status=self.r2u2_status,
-        )
+        return replace(self)
-- 
2.43.0


From 43ea64584a1d9827d02901029e07e1cb26a0c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 59/76] fix: print statistics of programs whose first
 specification is no formula

---
 compiler/c2po/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 8d893e2..9823367 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -655,7 +655,9 @@ def print_stats(program: cpt.Program, context: cpt.Context, options: dict[str, A
     `options` is a dictionary containing the following key:
         - `format`: The format string to use for the statistics
     """
-    context.stats.first_formula_string = str(cast(cpt.Formula, program.get_specs()[0]).get_expr())
+    specs = program.get_specs()
+    if len(specs) > 0:
+        context.stats.first_formula_string = str(specs[0].get_expr() if isinstance(specs[0], cpt.Formula) else specs[0])
     context.stats.total_dag_size = program.get_dag_size(context)
     context.stats.num_temporal_operators = program.get_num_temporal_operators(context)
     print(context.stats.format(options["format"]), end="")
-- 
2.43.0


From c03606e9125737294df11b31e876a84679edb05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 60/76] fix: push copies that do not share state with what is
 copied

---
 compiler/c2po/cpt.py | 102 +++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 47 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 4a2d02e..1105d87 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -127,8 +127,8 @@ class Expression(Node):
     def __repr__(self) -> str:
         return to_prefix_str(self, with_internal_labels=True)
 
-    def deepcopy(self, context: Context) -> Expression:
-        return deepcopy_expr(self, context, {})
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Expression:
+        return deepcopy_expr(self, context, {} if memo is None else memo)
 
 class Match(Expression):
     def __init__(self, loc: log.FileLocation, name: str, match_function: Callable[[str], bool]) -> None:
@@ -1115,8 +1115,8 @@ class SpecificationSet(Expression):
     def __str__(self) -> str:
         return "spec_set"
 
-    def deepcopy(self, context: Context) -> SpecificationSet:
-        children = [c.deepcopy(context) for c in self.children]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> SpecificationSet:
+        children = [c.deepcopy(context, memo) for c in self.children]
         new = SpecificationSet(self.loc, cast("list[Specification]", children))
         self.copy_attrs(new)
         return new
@@ -1157,8 +1157,8 @@ class EnumDefinition(Node):
         members_str_list = [f"{s.symbol}: {s.expr}" for s in self.var_defs]
         return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> EnumDefinition:
-        var_defs = [v.deepcopy(context) for v in self.var_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
+        var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
         new = EnumDefinition(self.loc, self.symbol, var_defs)
         return new
 
@@ -1185,8 +1185,8 @@ class Definition(Node):
     def __str__(self) -> str:
         return f"{self.symbol} := {self.expr}"
 
-    def deepcopy(self, context: Context) -> Definition:
-        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context))
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Definition:
+        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context, memo))
         return new
 
 class StructSection(Node):
@@ -1204,10 +1204,6 @@ class StructSection(Node):
         struct_defs = [s.deepcopy(context) for s in self.struct_defs]
         new = StructSection(self.loc, struct_defs)
 
-        # Update context
-        for struct_def in new.struct_defs:
-            context.add_struct(struct_def.symbol, struct_def.members)
-
         return new
     
 class EnumSection(Node):
@@ -1221,14 +1217,10 @@ class EnumSection(Node):
         enums_str_list = [str(s) + ";" for s in self.enum_defs]
         return "ENUM\n\t" + "\n\t".join(enums_str_list)
     
-    def deepcopy(self, context: Context) -> EnumSection:
-        enum_defs = [s.deepcopy(context) for s in self.enum_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumSection:
+        enum_defs = [s.deepcopy(context, memo) for s in self.enum_defs]
         new = EnumSection(self.loc, enum_defs)
 
-        # Update context
-        for enum_def in new.enum_defs:
-            context.add_enum(enum_def.symbol, enum_def.members)
-
         return new
 
 class InputSection(Node):
@@ -1246,11 +1238,6 @@ class InputSection(Node):
         signal_decls = [s.deepcopy(context) for s in self.signal_decls]
         new = InputSection(self.loc, signal_decls)
 
-        # Update context
-        for signal_decl in new.signal_decls:
-            for signal in signal_decl.variables:
-                context.add_signal(signal, signal_decl.type)
-
         return new
 
 class DefineSection(Node):
@@ -1262,14 +1249,10 @@ class DefineSection(Node):
         defines_str_list = [str(s) + ";" for s in self.defines]
         return "DEFINE\n\t" + "\n\t".join(defines_str_list)
 
-    def deepcopy(self, context: Context) -> DefineSection:
-        defines = [d.deepcopy(context) for d in self.defines]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> DefineSection:
+        defines = [d.deepcopy(context, memo) for d in self.defines]
         new = DefineSection(self.loc, defines)
 
-        # Update context
-        for define in new.defines:
-            context.add_definition(define.symbol, define.expr)
-
         return new
 
 class SpecSection(Node):
@@ -1277,17 +1260,10 @@ class SpecSection(Node):
         super().__init__(loc)
         self.specs = specs
 
-    def deepcopy(self, context: Context) -> SpecSection:
-        specs = [cast(Specification, s.deepcopy(context)) for s in self.specs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> SpecSection:
+        specs = [cast(Specification, s.deepcopy(context, memo)) for s in self.specs]
         new = type(self)(self.loc, specs)
 
-        # Update context
-        for spec in new.specs:
-            if isinstance(spec, Formula):
-                context.add_formula(spec.symbol, spec)
-            elif isinstance(spec, Contract):
-                context.add_contract(spec.symbol, spec)
-
         return new
 
 class FutureTimeSpecSection(SpecSection):
@@ -1422,9 +1398,25 @@ class Program(Node):
     def __repr__(self) -> str:
         return "\n".join([repr(s) for s in self.get_specs()])
 
-    def deepcopy(self, context: Context) -> Program:
-        sections = [s.deepcopy(context) for s in self.sections]
-        new = Program(self.loc, sections)
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Program:
+        new = Program(self.loc, [])
+        for section in self.sections:
+            if isinstance(section, (EnumSection, DefineSection, SpecSection)):
+                new.sections.append(section.deepcopy(context, memo))
+            else:
+                new.sections.append(section.deepcopy(context))
+
+        new.definitions = [
+            d
+            for section in new.sections
+            if isinstance(section, DefineSection)
+            for d in section.defines
+        ]
+
+        # The specifications of the sections may have been replaced since parsing (see `replace_spec`)
+        new.ft_spec_set = self.ft_spec_set.deepcopy(context, memo)
+        new.pt_spec_set = self.pt_spec_set.deepcopy(context, memo)
+
         new.total_scq_size = self.total_scq_size
         new.is_dummy = self.is_dummy
         new.is_well_typed = self.is_well_typed
@@ -1570,8 +1562,7 @@ class Context:
         Deep copies the context, creating a new context with the same global options and statistics.
 
         Expressions are not deep copied, keeps the references to the original Expressions in case the program is not copied.
-        If the program is to be copied as well, the Expressions will be deep copied in the program.deepcopy() method.
-        In that case, use the `deepcopy_program_context()` function.
+        If the program is to be copied as well, use the `deepcopy_program_with_context()` function.
         """
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
@@ -1696,9 +1687,10 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = Atomic(expr.loc, memo[id(expr.get_expr())])
 
             # Update the atomic ID mappings to reflect the new expression
-            atomic_id = context.atomic_id_map[expr]
-            context.atomic_id_map[new] = atomic_id
-            context.atomic_expr_map[atomic_id] = new
+            if expr in context.atomic_id_map:
+                atomic_id = context.atomic_id_map[expr]
+                context.atomic_id_map[new] = atomic_id
+                context.atomic_expr_map[atomic_id] = new
         elif isinstance(expr, Signal):
             new = Signal(expr.loc, expr.symbol, expr.type)
             new.signal_id = expr.signal_id
@@ -1787,8 +1779,24 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
+    """Returns copies of `program` and `context` that refer to each other and share no expression with the originals."""
+    memo: dict[int, Expression] = {}
     new_context = context.deepcopy()
+    new_program = program.deepcopy(new_context, memo)
+
+    def copy(expr: Expression) -> Any:
+        return expr.deepcopy(new_context, memo)
+
+    new_context.definitions = {s: copy(e) for s, e in context.definitions.items()}
+    new_context.enums = {
+        s: {m: copy(e) for m, e in members.items()} for s, members in context.enums.items()
+    }
+    new_context.specifications = {s: copy(f) for s, f in context.specifications.items()}
+    new_context.contracts = {s: copy(c) for s, c in context.contracts.items()}
+    new_context.bound_vars = {s: copy(a) for s, a in context.bound_vars.items()}
+    new_context.atomic_id_map = {copy(e): i for e, i in context.atomic_id_map.items()}
+    new_context.atomic_expr_map = {i: copy(e) for i, e in context.atomic_expr_map.items()}
+
     return new_program, new_context
 
 def rename(
-- 
2.43.0


From 72097b3fb802ab1c3ec77e4d634daf0804609a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 61/76] fix: generate traces whose columns are the mapped
 signals

---
 compiler/c2po/trace.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 6531e6e..21548d2 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -106,7 +106,7 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     seed = options["seed"]
     output_file = options["output"]
     print_trace = options["print"]
-    float_precision = options["float_precision"] + 2
+    float_precision = max(options["float_precision"], 1)  # the monitor tells floats from ints by their decimal point
 
     if seed is not None:
         random.seed(seed)
@@ -114,9 +114,21 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     log.debug(1, f"generating trace of length {length}...")
     start_time = util.get_rusage_time()
 
-    variables: list[tuple[str, types.Type]] = sorted(
-        list(context.signals.items()), key=lambda x: context.signal_mapping[x[0]]
-    )
+    if min_val > max_val:
+        log.error(f"minimum value {min_val} is greater than maximum value {max_val}")
+        return command.ReturnCode.ERROR
+
+    # The monitor reads signals by the index of their column, so there must be a column for each index, including those
+    # that no signal of the program is mapped to
+    columns: dict[int, tuple[str, types.Type]] = {}
+    for symbol, sid in context.signal_mapping.items():
+        if symbol in context.signals or sid not in columns:
+            columns[sid] = (symbol, context.signals.get(symbol, types.BoolType()))
+
+    variables: list[tuple[str, types.Type]] = [
+        columns.get(sid, (f"_unused{sid}_", types.BoolType()))
+        for sid in range(max(columns, default=-1) + 1)
+    ]
 
     output_lines = [f"#{','.join(var_name for var_name, _ in variables)}"]
     for _ in range(length):
@@ -124,7 +136,7 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
             ','.join(
                 str(random.randint(0, 1)) 
                 if types.is_bool_type(var_type)
-                else str(random.uniform(min_val, max_val))[:float_precision]
+                else f"{random.uniform(min_val, max_val):.{float_precision}f}"
                 if types.is_float_type(var_type)
                 else str(random.randint(int(min_val), int(max_val)))
                 for _, var_type in variables
-- 
2.43.0


From c0066f41b35c51228f4ed005e4679fb9e514df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 62/76] fix: generate maps of the inputs without the arrays
 they are in

---
 compiler/c2po/map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 816e9f7..ace2fde 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -104,7 +104,9 @@ def generate_map(
     
     if not cpt.has_valid_signal_mapping(program, context):
         mapping: types.SignalMapping = {}
-        for i, signal in enumerate(context.signals):
+        # Arrays are mapped by their elements
+        scalars = [s for s, t in context.signals.items() if not types.is_array_type(t)]
+        for i, signal in enumerate(scalars):
             mapping[signal] = i
 
         missing = cpt.assign_signal_ids(program, context, mapping)
-- 
2.43.0


From aa08bbf1502ef85f0443ee058d718152cf64299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 63/76] fix: keep the elements of input arrays that are indexed

---
 compiler/c2po/type_check.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a7aa693..4e854cf 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -217,9 +217,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             # avoid repeating code
             if isinstance(expr.get_array(), cpt.Variable):
                 tmp_signal = cpt.Signal(expr.loc, str(expr), array_type.member_type)
+                signal_type = context.signals.get(str(expr))
                 context.signals[str(expr)] = types.NoType()
                 status = type_check_expr(tmp_signal, context, options)
-                del context.signals[str(expr)]
+                if signal_type:
+                    context.signals[str(expr)] = signal_type
+                else:
+                    del context.signals[str(expr)]
                 if not status:
                     return False
 
-- 
2.43.0


From 6c1322eeb431c0a890972f31ae45de8b870b24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 64/76] fix: check satisfiability in QF_UFLIA on traces as long
 as the formula

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..070cd1e 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -596,8 +596,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 is a proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From d630cf4a6411e82458d611720e011b81907725f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 65/76] fix: F over a single step does not hold past the end of
 a trace

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 070cd1e..b061601 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -800,9 +800,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -811,9 +811,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From eaadec5670d8cc068d7e21f884f4dd53b4a6648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 66/76] fix: count all operands of conjunctions and
 disjunctions in cplen

---
 compiler/c2po/sat.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b061601..c760ab7 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -888,9 +888,15 @@ def to_uflia_smtlib2(
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    # bind the operands, so that the length of the result stays linear in that of the operands
+                    cplen = f"(let ((l {cplen}) (r {cplen_cache[child]})) {smt_max_expr('l', 'r')})"
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    # bind the operands, so that the length of the result stays linear in that of the operands
+                    cplen = f"(let ((l {cplen}) (r {cplen_cache[child]})) {smt_max_expr('l', 'r')})"
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From c0f24034e9c85312a5c87069e6feac20dedd94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 67/76] fix: keep names of inputs and subformulas apart in SMT
 encodings

---
 compiler/c2po/sat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index c760ab7..08c8cdf 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -224,7 +224,7 @@ def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool)
             expr_map[expr] = expr_map[expr.children[0]]
             continue
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"e_{cnt}"
         cnt += 1
         expr_map[expr] = expr_id
 
@@ -445,7 +445,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             expr_map[expr] = expr_map[expr.children[0]]
             continue
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"e_{cnt}"
         cnt += 1
         expr_map[expr] = expr_id
 
@@ -699,7 +699,7 @@ def to_uflia_smtlib2(
             expr_map[expr] = expr_map[expr_cache[str(expr)]]
             return ""
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"e_{cnt}"
         expr_map[expr] = expr_id
         expr_cache[str(expr)] = expr
 
-- 
2.43.0


From 015120f81a95930b8beb911ca51ed65bc0a1d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 68/76] fix: encode arithmetic negation in QF_UFLIA

---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 08c8cdf..900f180 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -469,7 +469,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-- 
2.43.0


From 2f306cf5b035fe3890a28b50bb35da391a2213b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 69/76] fix: encode division and modulo as R2U2 computes them

---
 compiler/c2po/sat.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 900f180..87311dd 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -168,6 +168,11 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def smt_truncated(op: str, lhs: str, rhs: str) -> str:
+    """Division or modulo (`div` or `mod`) that rounds towards zero as R2U2 does, the SMT-LIB operators
+    round such that the remainder is never negative."""
+    return f"(ite (>= {lhs} 0) ({op} {lhs} {rhs}) (- ({op} (- {lhs}) {rhs})))"
+
 def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool) -> Optional[str]:
     """Encodes the given expression into an SMT encoding using the QF_BV theory and returns it. Returns None if the encoding fails."""
     log.debug(
@@ -481,12 +486,12 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {smt_truncated('div', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {smt_truncated('mod', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             smt_commands.append(
@@ -731,10 +736,10 @@ def to_uflia_smtlib2(
             return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
-            return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {smt_truncated('div', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
-            return f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {smt_truncated('mod', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-- 
2.43.0


From 8ce06a4b1474bf5593ffdf73ccb719f3fc2ab49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 70/76] fix: print float constants without an exponent, which
 the language does not have

---
 compiler/c2po/cpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 1105d87..25fce9d 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1,5 +1,6 @@
 """C2PO Parse Tree (CPT) represents structure of a .c2po or .mltl file."""
 from __future__ import annotations
+from decimal import Decimal
 import enum
 import pickle
 import re
@@ -157,6 +158,8 @@ class Constant(Expression):
             self.type = types.IntType(True)
         elif isinstance(value, float):
             self.type = types.FloatType(True)
+            if "e" in self.symbol: # the language has no exponents
+                self.symbol = f"{Decimal(self.symbol):.1f}" if value >= 1 or value <= -1 else f"{Decimal(self.symbol):f}"
         else:
             raise ValueError(f"Bad value ({value})")
 
-- 
2.43.0


From bbd01ce0bcdf5c770be83f6d3c6bc425527080ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 71/76] fix: declare the inputs of MLTL-STD and equivalence
 files in the order of their numbers

---
 compiler/c2po/parse_equiv.py | 5 +++--
 compiler/c2po/parse_mltl.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index ff9b949..201b71d 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -134,14 +134,15 @@ class MLTLEquivParser(sly.Parser):
     @_("constraint_list spec_list")
     def program(self, p):
         self.constraints = p[0]
-        declaration = [cpt.VariableDeclaration(0, list(self.atomics), types.BoolType())]
+        atomics: list[str] = sorted(self.atomics, key=lambda a: int(a[1:])) # sets of strings have no fixed order
+        declaration = [cpt.VariableDeclaration(0, atomics, types.BoolType())]
         input_section = cpt.InputSection(0, declaration)
         spec_section = cpt.FutureTimeSpecSection(0, p[1])
 
         # "a0" -> 0
         # "a1" -> 1
         # ...
-        signal_mapping = { a:int(a[1:]) for a in self.atomics }
+        signal_mapping = { a:int(a[1:]) for a in atomics }
 
         return cpt.Program(log.FileLocation(self.filename, 0), [input_section, spec_section]), signal_mapping
 
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 0dc972c..dadb212 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -102,7 +102,8 @@ class MLTLParser(sly.Parser):
 
     @_("spec_list")
     def program(self, p):
-        declaration = [cpt.VariableDeclaration(0, list(self.atomics), types.BoolType())]
+        atomics: list[str] = sorted(self.atomics, key=lambda a: int(a[1:])) # sets of strings have no fixed order
+        declaration = [cpt.VariableDeclaration(0, atomics, types.BoolType())]
         input_section = cpt.InputSection(0, declaration)
 
         if self.is_pt:
@@ -113,7 +114,7 @@ class MLTLParser(sly.Parser):
         # "a0" -> 0
         # "a1" -> 1
         # ...
-        signal_mapping = { a:int(a[1:]) for a in self.atomics }
+        signal_mapping = { a:int(a[1:]) for a in atomics }
 
         return (cpt.Program(0, [input_section, spec_section]), signal_mapping)
 
-- 
2.43.0


From a1e7d4d6ed2973a84479c695e2e12f1318e553a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 72/76] fix: read header lines of any length, refuse rows that
 do not fit into the buffer

The rest of a line longer than BUFSIZ was taken as the next row of the trace.
---
 monitors/c/src/cli/csv_trace.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 8ad4684..1ecb29f 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -17,9 +17,16 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
 
   // Skip header row, if it exists - note we only check for this on the first line
   if (monitor->time_stamp == 0 && csv_reader->in_buf[0] == '#') {
+    // The names may take more room than the buffer has
+    while (strchr(csv_reader->in_buf, '\n') == NULL) {
+      if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
+    }
     if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
   }
   
+  // What follows a row that fills the buffer
+  int next = (strchr(csv_reader->in_buf, '\n') == NULL) ? fgetc(csv_reader->input_file) : '\n';
+
   for(i = 0, signal = strtok(csv_reader->in_buf, ",\r\n"); signal; i++, signal = strtok(NULL, ",\r\n")) {
     // Values may be indented or follow a space after the comma
     signal += strspn(signal, " \t");
@@ -46,5 +53,12 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
     r2u2_load_string_signal(monitor, i, signal);
   }
 
+  if (signal == NULL && next != '\n' && next != EOF) {
+    fprintf(stderr, "Trace row is longer than %zu characters\n", sizeof(csv_reader->in_buf) - 1);
+    return R2U2_ERR_OTHER;
+  }
+  // Columns there is no room for are not read
+  while (next != '\n' && next != EOF) next = fgetc(csv_reader->input_file);
+
   return R2U2_OK;
 }
-- 
2.43.0


From 1222e9a08dba508953e35c9fb13171718c00c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 73/76] fix: encode all operands of additions and
 multiplications

---
 compiler/c2po/sat.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 87311dd..d332be8 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -471,18 +471,16 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif isinstance(expr, (cpt.Signal, cpt.Variable)):
             smt_commands.append(f"({fun_signature} ({atomic_map[expr.symbol]} k))")
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_ADD):
-            smt_commands.append(
-                f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
-            )
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            smt_commands.append(f"({fun_signature} (+ {operands}))")
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MULTIPLY):
             is_nonlinear = True
-            smt_commands.append(
-                f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
-            )
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            smt_commands.append(f"({fun_signature} (* {operands}))")
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             smt_commands.append(
@@ -725,7 +723,8 @@ def to_uflia_smtlib2(
         elif isinstance(expr, cpt.Atomic):
             return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_ADD):
-            return f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            return f"({fun_signature} (+ {operands}))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 1:
@@ -733,7 +732,8 @@ def to_uflia_smtlib2(
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MULTIPLY):
             is_nonlinear = True
-            return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            return f"({fun_signature} (* {operands}))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             return f"({fun_signature} {smt_truncated('div', f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
-- 
2.43.0


From 4609dd4b0a12a1266113de63047372146647e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 74/76] fix: encode the sums of Booleans that counting set
 aggregations expand to

---
 compiler/c2po/sat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index d332be8..d71f56a 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -168,6 +168,10 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def smt_summand(expr: cpt.Expression, smt: str) -> str:
+    """Counting set aggregations are sums of Booleans, which SMT-LIB does not convert to integers."""
+    return f"(ite {smt} 1 0)" if types.is_bool_type(expr.type) else smt
+
 def smt_truncated(op: str, lhs: str, rhs: str) -> str:
     """Division or modulo (`div` or `mod`) that rounds towards zero as R2U2 does, the SMT-LIB operators
     round such that the remainder is never negative."""
@@ -471,7 +475,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif isinstance(expr, (cpt.Signal, cpt.Variable)):
             smt_commands.append(f"({fun_signature} ({atomic_map[expr.symbol]} k))")
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_ADD):
-            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            operands = " ".join([smt_summand(child, f"({expr_map[child]} k len)") for child in expr.children])
             smt_commands.append(f"({fun_signature} (+ {operands}))")
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
@@ -723,7 +727,7 @@ def to_uflia_smtlib2(
         elif isinstance(expr, cpt.Atomic):
             return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_ADD):
-            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            operands = " ".join([smt_summand(child, f"({expr_map[child]} k len)") for child in expr.children])
             return f"({fun_signature} (+ {operands}))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
-- 
2.43.0


From 897c6812b3233fa5dc09b51eab539247005f143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 75/76] fix: let * and / bind tighter than + and - in the
 constraints of equivalence files

---
 compiler/c2po/parse_equiv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index 201b71d..df3f882 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -98,7 +98,8 @@ class MLTLEquivParser(sly.Parser):
         ("left", TL_UNTIL, TL_RELEASE),
         ("left", REL_EQ, REL_NEQ),
         ("left", REL_GT, REL_LT, REL_GTE, REL_LTE),
-        ("left", ARITH_ADD, ARITH_SUB, ARITH_MUL, ARITH_DIV),
+        ("left", ARITH_ADD, ARITH_SUB),
+        ("left", ARITH_MUL, ARITH_DIV),
         ("right", LOG_NEG, TL_GLOBAL, TL_FUTURE),
         ("right", LPAREN, MIN, MAX)
     )
-- 
2.43.0


From af2fd957699d944883e91a632a4f89fd23849883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 76/76] fix: a failed parse leaves the previous program's
 context alone

---
 compiler/c2po/parse_c2po.py  | 7 ++++---
 compiler/c2po/parse_equiv.py | 7 ++++---
 compiler/c2po/parse_mltl.py  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 9a4bd7d..817ea68 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -716,9 +716,6 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     # The command's own option takes precedence over 'set_mission_time'
     mission_time = options["mission_time"]
@@ -732,6 +729,10 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if not lexer.status or not parser.status:
         return None
 
+    # Only now: after a failed parse, the previous program and its context stay
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     return cpt.Program(0, sections)
 
 parse_c2po_command = command.Command(
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index df3f882..9090dcd 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -321,9 +321,6 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: MLTLEquivLexer = MLTLEquivLexer(options["filename"])
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
@@ -332,6 +329,10 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     if not lexer.status or not parser.status:
         return None
 
+    # Only now: after a failed parse, the previous program and its context stay
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.bounds = parser.bounds
     context.constraints = parser.constraints
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index dadb212..c4d6fcd 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -273,9 +273,6 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     # The command's own option takes precedence over 'set_mission_time'
     mission_time = options["mission_time"]
@@ -289,6 +286,10 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if not lexer.status or not parser.status:
         return None
 
+    # Only now: after a failed parse, the previous program and its context stay
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.signal_mapping = signal_mapping
     cpt.assign_signal_ids(program, context, signal_mapping)
-- 
2.43.0

