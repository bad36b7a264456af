From 3db3ca6455c8283e8a0b3e0e543569e88c567a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 01/86] fix: pack integer constants as signed so negative ones
 assemble

---
 compiler/c2po/assemble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..23ecc1c 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -857,9 +857,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From aabfe58b617933257e909eef38af7f06ecaa648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 02/86] fix: report constant past-time formulas instead of
 raising KeyError

---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 23ecc1c..3246e67 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From bcf489110921809de9353a014283703f10596b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 03/86] fix: compute worst-case delay of Once and Historical
 from the operand's worst case

---
 compiler/c2po/cpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..bf444f9 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -822,7 +822,7 @@ class TemporalOperator(Operator):
         operator = TemporalOperator(loc, OperatorKind.HISTORICAL, lb, ub, [operand])
         operator.type = types.BoolType()
         operator.bpd = operand.bpd - ub
-        operator.wpd = operand.bpd - lb
+        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -832,7 +832,7 @@ class TemporalOperator(Operator):
         operator = TemporalOperator(loc, OperatorKind.ONCE, lb, ub, [operand])
         operator.type = types.BoolType()
         operator.bpd = operand.bpd - ub
-        operator.wpd = operand.bpd - lb
+        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
-- 
2.43.0


From 529d0af0f495df08b3b76ae9ebdf31773046d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 04/86] fix: size queues for results predicted by Since and
 Trigger with a constant left operand

---
 compiler/c2po/cpt.py | 6 ++++++
 compiler/c2po/scq.py | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index bf444f9..8f92cb5 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -842,6 +842,9 @@ class TemporalOperator(Operator):
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
         operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        if isinstance(lhs, Constant):
+            # The left operand is known ahead of time, so (as with Once) are the results
+            operator.bpd = rhs.bpd - ub
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
@@ -851,6 +854,9 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
         operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        if isinstance(lhs, Constant):
+            # The left operand is known ahead of time, so (as with Historical) are the results
+            operator.bpd = rhs.bpd - ub
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 06fbf5f..e599de9 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -39,8 +39,10 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             )
             continue
 
-        max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
-        expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
+        siblings = expr.get_siblings()
+        max_wpd = max([sibling.wpd for sibling in siblings] + [0])
+        bpd = expr.bpd if siblings else 0
+        expr.scq_size = max(max_wpd - bpd, 0) + 1 + scq_constant
         total_scq_size += expr.scq_size
         expr.scq = (
             total_scq_size - expr.scq_size,
-- 
2.43.0


From a71c02dc1226d2e3aadb31d4f97bc04a7378b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 05/86] fix: do not skip unread verdicts when the last read
 queue slot was overwritten

---
 monitors/c/src/memory/shared_connection_queue.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitors/c/src/memory/shared_connection_queue.c b/monitors/c/src/memory/shared_connection_queue.c
index 415c040..5a35f36 100644
--- a/monitors/c/src/memory/shared_connection_queue.c
+++ b/monitors/c/src/memory/shared_connection_queue.c
@@ -52,6 +52,14 @@ r2u2_bool r2u2_scq_read(r2u2_scq_arena_t arena, r2u2_time parent_queue_id, r2u2_
   do {
     // Check if time pointed to is >= desired time by discarding truth bits
     if (get_verdict_time((child_ctrl->queue)[*read]) >= parent_ctrl->next_time) {
+      // The slot read last might have been overwritten since, step back to the oldest unread slot
+      while (*read != child_ctrl->write && parent_ctrl->next_time > 0) {
+        r2u2_addr prev = (*read == 0) ? child_ctrl->length-1 : *read-1;
+        if (get_verdict_time((child_ctrl->queue)[prev]) < parent_ctrl->next_time) {
+          break;
+        }
+        *read = prev;
+      }
       // Return value
       R2U2_DEBUG_PRINT("New data found after scanning t=%d\n", get_verdict_time((child_ctrl->queue)[*read]));
       *result = (child_ctrl->queue)[*read];
-- 
2.43.0


From e70eb1ac88d89c8fcfc29cd982c6a6efcb6f577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 06/86] fix: rerun parents before children so that no verdict
 is overwritten unread

---
 monitors/c/src/engines/engines.c | 76 +++++++++++++++-----------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index ebbb6a6..6e128d1 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -15,47 +15,43 @@ r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
     }
     monitor->bz_program_count.curr_program_count = 0;
 
-    // Operate over all MLTL instructions until no further progress is made
-    r2u2_time start_time = monitor->time_stamp;
-    while(start_time == monitor->time_stamp){
-       while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
-        R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
-        error_cond = r2u2_mltl_update(monitor);
-        monitor->mltl_program_count.curr_program_count++;
+    // First pass over all MLTL instructions, which also loads the atomics
+    monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
+    while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
+      R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+      error_cond = r2u2_mltl_update(monitor);
+      monitor->mltl_program_count.curr_program_count++;
+    }
+
+    // Rerun MLTL instructions until no further progress is made. SCQs are sized such that
+    // parents have to process all the available data of a child before the child produces
+    // more, so (since parents always come after their children) work backwards and start
+    // over from the end whenever there was progress.
+    monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
+    while(monitor->mltl_program_count.curr_program_count > 0){
+      monitor->mltl_program_count.curr_program_count--;
+      R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
+      error_cond = r2u2_mltl_update(monitor);
+      if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS) {
+        monitor->mltl_program_count.curr_program_count = monitor->mltl_program_count.max_program_count;
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
       }
-      switch (monitor->progress) {
-        case R2U2_MONITOR_PROGRESS_FIRST_LOOP: {
-          // First pass complete, rerun program counter to check for progress
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS: {
-          // Progress made this loop, rerun program counter
-          monitor->mltl_program_count.curr_program_count= 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-          break;
-        }
-        case R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS: {
-          // End of timestep - setup for next step
-
-          #if R2U2_DEBUG
-          // Debug print atomics at end of timestep
-          R2U2_TRACE_PRINT("ATM VEC ADDR: [%p]\n", monitor->atomic_buffer);
-          R2U2_DEBUG_PRINT("Atomic Vector:\n[");
-          for (int i=0; i < R2U2_MAX_ATOMICS-1; ++i) {
-            R2U2_DEBUG_PRINT("%d, ", (monitor->atomic_buffer)[i]);
-          }
-          R2U2_DEBUG_PRINT("%d]\n", (monitor->atomic_buffer)[R2U2_MAX_ATOMICS-1]);
-          #endif
-
-          // Update clock for next timestep
-          monitor->time_stamp++;
-          monitor->mltl_program_count.curr_program_count = 0;
-          monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
-          break;
-        }
     }
-  }
+
+    // End of timestep - setup for next step
+
+    #if R2U2_DEBUG
+    // Debug print atomics at end of timestep
+    R2U2_TRACE_PRINT("ATM VEC ADDR: [%p]\n", monitor->atomic_buffer);
+    R2U2_DEBUG_PRINT("Atomic Vector:\n[");
+    for (int i=0; i < R2U2_MAX_ATOMICS-1; ++i) {
+      R2U2_DEBUG_PRINT("%d, ", (monitor->atomic_buffer)[i]);
+    }
+    R2U2_DEBUG_PRINT("%d]\n", (monitor->atomic_buffer)[R2U2_MAX_ATOMICS-1]);
+    #endif
+
+    // Update clock for next timestep
+    monitor->time_stamp++;
+    monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
     return error_cond;
 }
-- 
2.43.0


From 0f9012176f0ca56c3ef4cd12bf0679994949020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 07/86] fix: Since and Trigger lose, repeat or miscompute
 verdicts; constant operands never stop being ready

---
 monitors/c/src/engines/mltl.c | 253 ++++++++++++++--------------------
 1 file changed, 105 insertions(+), 148 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..4f29d61 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -22,21 +22,15 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
 
     switch (op_type) {
       case R2U2_FT_OP_DIRECT:
-        if (instr->opcode == R2U2_MLTL_OP_SINCE || instr->opcode == R2U2_MLTL_OP_TRIGGER){
+        r2u2_time known = monitor->time_stamp;
+        if (op_num == 0 && (instr->opcode == R2U2_MLTL_OP_SINCE || instr->opcode == R2U2_MLTL_OP_TRIGGER)){
+          // Known for as long as the latest right operand edge is in range
           r2u2_scq_temporal_block_t* temp = r2u2_scq_temporal_get(monitor->queue_arena, instr->memory_reference);
-          if (value) {
-            *result = set_verdict_true(monitor->time_stamp + temp->upper_bound);
-          } else {
-            *result = set_verdict_false(monitor->time_stamp + temp->upper_bound);
-          }
-        } else {
-          if (value) {
-            *result = set_verdict_true(monitor->time_stamp);
-          } else {
-            *result = set_verdict_false(monitor->time_stamp);
-          }
+          known = max(known, get_verdict_time(temp->edge)) + temp->upper_bound;
         }
-        return true;
+        *result = value ? set_verdict_true(known) : set_verdict_false(known);
+        // As with any other operand, there is only new data once it covers the desired time
+        return get_verdict_time(*result) >= monitor->queue_arena.control_blocks[instr->memory_reference].next_time;
 
       case R2U2_FT_OP_ATOMIC:
         // Only load in atomics on first loop of time step
@@ -94,6 +88,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
 
   r2u2_scq_control_block_t* ctrl = &(monitor->queue_arena.control_blocks[instr->memory_reference]);
   r2u2_scq_temporal_block_t* temp; // Only utilized for temporal operators
+  r2u2_time initial_next_time = ctrl->next_time;
 
   switch (instr->opcode) {
 
@@ -288,78 +283,57 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
+      // To handle startup behavior, the truth bit of the previous result
+      // storage is used to flag that an ouput has been produced, which can
+      // differentiate between a value of 0 for no output vs output produced.
+      // Note: Since only the timestamp of the previous result is ever checked,
+      // this overloading of the truth bit doesn't cause confict with other logic 
+      // and preserves startup behavior.
+      r2u2_time next_result = get_verdict_truth(temp->previous) ? get_verdict_time(temp->previous) + 1 : 0;
+
+      // The left operand only matters for results that have not been produced yet
+      r2u2_time next_time = ctrl->next_time;
+      ctrl->next_time = max(next_time, sub_min_zero(next_result, temp->lower_bound));
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
+      ctrl->next_time = next_time;
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
-      if (op1_rdy) {
-        if (get_verdict_truth(op1)) {
-          R2U2_DEBUG_PRINT("\tRight Op True\n");
-          temp->edge = set_verdict_true(op1);
-          ctrl->next_time = get_verdict_time(op1) + 1;
-          if (get_verdict_time(op1) >=  sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
-            result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-            // To handle startup behavior, the truth bit of the previous result
-            // storage is used to flag that an ouput has been produced, which can
-            // differentiate between a value of 0 for no output vs output produced.
-            // Note: Since only the timestamp of the previous result is ever checked,
-            // this overloading of the truth bit doesn't cause confict with other logic 
-            // and preserves startup behavior.
-            if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              push_result(monitor, instr, result);
-              ctrl->next_time = get_verdict_time(op1) + 1;
-              temp->previous = result;
-              error_cond = R2U2_OK;
-              break;
-            }
-          }
-        } else {
-          if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tRight Op never true from [i-ub,i-lb]\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = set_verdict_true(result);
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
-          if (op0_rdy && !(get_verdict_truth(op0))){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tBoth False\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = set_verdict_true(result);
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
+      // Is there a right operand true verdict (with the left operand true since) still in range of the next result?
+      r2u2_bool edge_valid = get_verdict_truth(temp->edge) && (get_verdict_time(temp->edge) + temp->upper_bound >= next_result);
+
+      if (op1_rdy && get_verdict_truth(op1)) {
+        R2U2_DEBUG_PRINT("\tRight Op True\n");
+        temp->edge = set_verdict_true(op1);
+        result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
+        ctrl->next_time = get_verdict_time(op1) + 1;
+      } else if (op1_rdy && get_verdict_time(op1) + temp->lower_bound < next_result) {
+        R2U2_DEBUG_PRINT("\tRight Op False where result already known\n");
+        ctrl->next_time = get_verdict_time(op1) + 1;
+        error_cond = R2U2_OK;
+        break;
+      } else if (op1_rdy && !edge_valid) {
+        R2U2_DEBUG_PRINT("\tRight Op never true from [i-ub,i-lb]\n");
+        result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
+        ctrl->next_time = get_verdict_time(op1) + 1;
+      } else if (op1_rdy && op0_rdy && !get_verdict_truth(op0)) {
+        R2U2_DEBUG_PRINT("\tBoth False\n");
+        temp->edge = set_verdict_false(temp->edge);
+        result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
+        ctrl->next_time = get_verdict_time(op1) + 1;
+      } else if (op0_rdy && get_verdict_truth(op0) && edge_valid) {
+        R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
+        result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, get_verdict_time(temp->edge) + temp->upper_bound));
+        if (op1_rdy) {
+          ctrl->next_time = max(ctrl->next_time, min(get_verdict_time(op1), get_verdict_time(result) - temp->lower_bound) + 1);
         }
+      } else {
+        error_cond = R2U2_OK;
+        break;
       }
-      if (op0_rdy && get_verdict_truth(op0) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
-        ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
-        result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
-          if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
-              push_result(monitor, instr, result);
-              ctrl->next_time = next;
-              temp->previous = result;
-              error_cond = R2U2_OK;
-              break;
-          }
+
+      if (get_verdict_time(result) >= next_result) {
+        push_result(monitor, instr, result);
+        temp->previous = set_verdict_true(result);
       }
 
       error_cond = R2U2_OK;
@@ -378,79 +352,57 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
+      // To handle startup behavior, the truth bit of the previous result
+      // storage is used to flag that an ouput has been produced, which can
+      // differentiate between a value of 0 for no output vs output produced.
+      // Note: Since only the timestamp of the previous result is ever checked,
+      // this overloading of the truth bit doesn't cause confict with other logic 
+      // and preserves startup behavior.
+      r2u2_time next_result = get_verdict_truth(temp->previous) ? get_verdict_time(temp->previous) + 1 : 0;
+
+      // The left operand only matters for results that have not been produced yet
+      r2u2_time next_time = ctrl->next_time;
+      ctrl->next_time = max(next_time, sub_min_zero(next_result, temp->lower_bound));
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
+      ctrl->next_time = next_time;
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
-      if (op1_rdy) {
-        if (!(get_verdict_truth(op1))) {
-          R2U2_DEBUG_PRINT("\tRight Op False\n");
-          temp->edge = set_verdict_true(op1);
-          ctrl->next_time = get_verdict_time(op1) + 1;
-          if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
-            result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-            // To handle startup behavior, the truth bit of the previous result
-            // storage is used to flag that an ouput has been produced, which can
-            // differentiate between a value of 0 for no output vs output produced.
-            // Note: Since only the timestamp of the previous result is ever checked,
-            // this overloading of the truth bit doesn't cause confict with other logic 
-            // and preserves startup behavior.
-            if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              push_result(monitor, instr, result);
-              ctrl->next_time = get_verdict_time(op1) + 1;
-              temp->previous = set_verdict_true(result);
-              error_cond = R2U2_OK;
-              break;
-            }
-          }
-        } else {
-          if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)),temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tRight Op true from [i-ub,i-lb]\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = result;
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
-          if (op0_rdy && get_verdict_truth(op0)){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tBoth True\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = result;
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
-          }
+      // Is there a right operand false verdict (with the left operand false since) still in range of the next result?
+      r2u2_bool edge_valid = get_verdict_truth(temp->edge) && (get_verdict_time(temp->edge) + temp->upper_bound >= next_result);
+
+      if (op1_rdy && !get_verdict_truth(op1)) {
+        R2U2_DEBUG_PRINT("\tRight Op False\n");
+        temp->edge = set_verdict_true(op1);
+        result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
+        ctrl->next_time = get_verdict_time(op1) + 1;
+      } else if (op1_rdy && get_verdict_time(op1) + temp->lower_bound < next_result) {
+        R2U2_DEBUG_PRINT("\tRight Op True where result already known\n");
+        ctrl->next_time = get_verdict_time(op1) + 1;
+        error_cond = R2U2_OK;
+        break;
+      } else if (op1_rdy && !edge_valid) {
+        R2U2_DEBUG_PRINT("\tRight Op never false from [i-ub,i-lb]\n");
+        result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
+        ctrl->next_time = get_verdict_time(op1) + 1;
+      } else if (op1_rdy && op0_rdy && get_verdict_truth(op0)) {
+        R2U2_DEBUG_PRINT("\tBoth True\n");
+        temp->edge = set_verdict_false(temp->edge);
+        result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
+        ctrl->next_time = get_verdict_time(op1) + 1;
+      } else if (op0_rdy && !get_verdict_truth(op0) && edge_valid) {
+        R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
+        result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, get_verdict_time(temp->edge) + temp->upper_bound));
+        if (op1_rdy) {
+          ctrl->next_time = max(ctrl->next_time, min(get_verdict_time(op1), get_verdict_time(result) - temp->lower_bound) + 1);
         }
+      } else {
+        error_cond = R2U2_OK;
+        break;
       }
-      if (op0_rdy && !(get_verdict_truth(op0)) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
-        ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
-        R2U2_DEBUG_PRINT("We are here!\n");
-        result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
-        if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
-              push_result(monitor, instr, result);
-              ctrl->next_time = next;
-              temp->previous = set_verdict_true(result);
-              error_cond = R2U2_OK;
-              break;
-            }
+
+      if (get_verdict_time(result) >= next_result) {
+        push_result(monitor, instr, result);
+        temp->previous = set_verdict_true(result);
       }
 
       error_cond = R2U2_OK;
@@ -594,6 +546,11 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
     }
   }
 
+  // Consuming operand data is also progress, even if it did not result in new output
+  if (ctrl->next_time != initial_next_time && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+    monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+  }
+
   return error_cond;
 }
 
-- 
2.43.0


From 4305d39c23d1cf26944d599f22b5fb90c3102644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 08/86] fix: do not sign-extend the low half of float constants

---
 monitors/c/src/instructions/booleanizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 43180bd..1c44228 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -6,7 +6,7 @@ r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
-    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24) +
+    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint64_t)spec[3] << 24) +
                 ((uint64_t)spec[4] << 32) + ((uint64_t)spec[5] << 40) + ((uint64_t)spec[6] << 48) + ((uint64_t)spec[7] << 56));
     r2u2_float val;
     memcpy(&val, &temp_val, 8);
-- 
2.43.0


From edfefa65073c9486d75515ea345052dccf15350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 09/86] fix: loading a specification starts from the initial
 state even on a used monitor

---
 monitors/c/src/engines/mltl.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 4f29d61..2fe2e66 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -585,6 +585,14 @@ r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor,
 
             }
 
+            // Clear whatever a previously loaded specification left behind
+            ctrl->write = 0;
+            ctrl->read1 = 0;
+            ctrl->read2 = 0;
+            ctrl->next_time = 0;
+            for (r2u2_addr i = 0; i < ctrl->length; i++) {
+              ctrl->queue[i] = 0;
+            }
             ctrl->queue[0] = r2u2_infinity;
 
             #if R2U2_DEBUG
-- 
2.43.0


From 77df3c823d3cac14eb718d8594c7b2e794de54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 10/86] fix: report failed reads of the trace and failed writes
 of verdicts in the exit status

---
 monitors/c/src/cli/csv_trace.c | 19 +++++++++++++++++--
 monitors/c/src/cli/main.c      | 11 +++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 3181ecb..15786d4 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -5,16 +5,31 @@
 #include <stdio.h>
 #include <string.h>
 
+/// @brief      Read one whole line into the internal buffer
+/// @param[in]  csv_reader  Pointer to r2u2_csv_reader_t
+/// @return     r2u2_status_t  R2U2_END_OF_TRACE only at the actual end of the input, 
+///                            R2U2_ERR_OTHER if reading failed
+static r2u2_status_t read_line(r2u2_csv_reader_t* csv_reader) {
+  char* line = fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file);
+
+  // A failed read may have left an incomplete line, which must not be taken for a shorter one
+  if(ferror(csv_reader->input_file)) return R2U2_ERR_OTHER;
+
+  return (line == NULL) ? R2U2_END_OF_TRACE : R2U2_OK;
+}
+
 r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_monitor_t* monitor) {
   char* signal;
   uintptr_t i;
 
   // Read in next line of trace to internal buffer for processing
-  if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
+  r2u2_status_t status = read_line(csv_reader);
+  if(status != R2U2_OK) return status;
 
   // Skip header row, if it exists - note we only check for this on the first line
   if (monitor->time_stamp == 0 && csv_reader->in_buf[0] == '#') {
-    if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
+    status = read_line(csv_reader);
+    if(status != R2U2_OK) return status;
   }
   
   for(i = 0, signal = strtok(csv_reader->in_buf, ",\n"); signal; i++, signal = strtok(NULL, ",\n")) {
diff --git a/monitors/c/src/cli/main.c b/monitors/c/src/cli/main.c
index b12b654..5ae942c 100644
--- a/monitors/c/src/cli/main.c
+++ b/monitors/c/src/cli/main.c
@@ -132,13 +132,24 @@ int main(int argc, char const* argv[]) {
   if (err_cond == R2U2_END_OF_TRACE) {
     // Traces are allowed to end, exit cleanly
     err_cond = R2U2_OK;
+  } else if (ferror(r2u2_csv_reader.input_file)) {
+    // The trace did not end, we just cannot read the rest of it
+    perror("Error reading trace");
   }
 
   // Cleanup
+  // Verdicts lost to a failed write at any point are an error, even if closing succeeds
+  int write_failed = ferror(r2u2_monitor.out_file);
   if (fclose(r2u2_monitor.out_file) != 0) {
     // We didn't close the output file sucessfully
     // handling this is out of scope but we should notify the user
     perror("Output file did not close cleanly");
+    write_failed = 1;
+  } else if (write_failed) {
+    fprintf(stderr, "Error writing output\n");
+  }
+  if (write_failed && err_cond == R2U2_OK) {
+    err_cond = R2U2_ERR_OTHER;
   }
 
   if (err_cond != R2U2_OK) {
-- 
2.43.0


From 5e8064ccd6fbac26b992f16da2a2366254a3f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 11/86] fix: do not monitor with a specification that failed to
 load

---
 monitors/c/src/cli/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/main.c b/monitors/c/src/cli/main.c
index 5ae942c..9002837 100644
--- a/monitors/c/src/cli/main.c
+++ b/monitors/c/src/cli/main.c
@@ -85,7 +85,10 @@ int main(int argc, char const* argv[]) {
 
   // Configure R2U2 monitor
   r2u2_monitor_t r2u2_monitor = R2U2_DEFAULT_MONITOR;
-  r2u2_load_specification(spec, &r2u2_monitor);
+  if (r2u2_load_specification(spec, &r2u2_monitor) != R2U2_OK) {
+    fprintf(stderr, "Error loading specification\n");
+    return R2U2_BAD_SPEC;
+  }
 
   if (munmap(spec, (size_t)fd_stat.st_size) != 0) {
     perror("Spec memory mapping did not close cleanly");
-- 
2.43.0


From 1e82219c803f1bcfbe60fd8c83af5dc0c604df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 12/86] fix: do not split trace lines longer than the buffer
 into several rows

---
 monitors/c/src/cli/csv_trace.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 15786d4..23bf13a 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -7,11 +7,18 @@
 
 /// @brief      Read one whole line into the internal buffer
 /// @param[in]  csv_reader  Pointer to r2u2_csv_reader_t
+/// @param[out] truncated  Whether the line did not fit the buffer (the rest of it is skipped)
 /// @return     r2u2_status_t  R2U2_END_OF_TRACE only at the actual end of the input, 
 ///                            R2U2_ERR_OTHER if reading failed
-static r2u2_status_t read_line(r2u2_csv_reader_t* csv_reader) {
+static r2u2_status_t read_line(r2u2_csv_reader_t* csv_reader, r2u2_bool* truncated) {
+  *truncated = false;
   char* line = fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file);
 
+  if(line != NULL && strlen(line) == sizeof(csv_reader->in_buf) - 1 && line[sizeof(csv_reader->in_buf) - 2] != '\n') {
+    int c;
+    while((c = fgetc(csv_reader->input_file)) != EOF && c != '\n') *truncated = true;
+  }
+
   // A failed read may have left an incomplete line, which must not be taken for a shorter one
   if(ferror(csv_reader->input_file)) return R2U2_ERR_OTHER;
 
@@ -23,14 +30,18 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
   uintptr_t i;
 
   // Read in next line of trace to internal buffer for processing
-  r2u2_status_t status = read_line(csv_reader);
+  r2u2_bool truncated;
+  r2u2_status_t status = read_line(csv_reader, &truncated);
   if(status != R2U2_OK) return status;
 
   // Skip header row, if it exists - note we only check for this on the first line
   if (monitor->time_stamp == 0 && csv_reader->in_buf[0] == '#') {
-    status = read_line(csv_reader);
+    status = read_line(csv_reader, &truncated);
     if(status != R2U2_OK) return status;
   }
+
+  // Part of a row must not be taken for the whole row (a long header is only skipped)
+  if(truncated) return R2U2_ERR_OTHER;
   
   for(i = 0, signal = strtok(csv_reader->in_buf, ",\n"); signal; i++, signal = strtok(NULL, ",\n")) {
     // Follow the pointer to the signal vector, then assign the ith element
-- 
2.43.0


From 7e9d7e8dc36504b180f9535c8754cb711988a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 13/86] fix: accept blanks around trace values and CRLF line
 ends without a booleanizer, too

---
 monitors/c/src/cli/csv_trace.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 23bf13a..1dfbd0b 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -43,7 +43,7 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
   // Part of a row must not be taken for the whole row (a long header is only skipped)
   if(truncated) return R2U2_ERR_OTHER;
   
-  for(i = 0, signal = strtok(csv_reader->in_buf, ",\n"); signal; i++, signal = strtok(NULL, ",\n")) {
+  for(i = 0, signal = strtok(csv_reader->in_buf, ",\r\n"); signal; i++, signal = strtok(NULL, ",\r\n")) {
     // Follow the pointer to the signal vector, then assign the ith element
     // Note this is a pointer into the r2u2_csv_reader_t in_buf which must
     // stay in place while the signal vector is live
@@ -58,6 +58,9 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       R2U2_DEBUG_PRINT("Event: %u\n",monitor->time_stamp);
       signal = strtok_r(NULL, " ", &temp_var);
     }
+    // Values may be surrounded by blanks
+    signal += strspn(signal, " \t");
+    signal[strcspn(signal, " \t")] = '\0';
     r2u2_load_string_signal(monitor, i, signal);
   }
 
-- 
2.43.0


From 1115a11d4a59680917410193c08ea43e6863e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 14/86] fix: a trace row with a malformed time stamp is an
 error, not a crash or the end of the trace

---
 monitors/c/src/cli/csv_trace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 1dfbd0b..85ec7a6 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -53,10 +53,11 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       char* temp_var;
       char* timechar = strtok_r(signal+1, " ", &temp_var);
       uint32_t time_signature;
-      if(sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
+      if(timechar == NULL || sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_ERR_OTHER;
       (monitor->time_stamp) = time_signature;
       R2U2_DEBUG_PRINT("Event: %u\n",monitor->time_stamp);
       signal = strtok_r(NULL, " ", &temp_var);
+      if(signal == NULL) return R2U2_ERR_OTHER;
     }
     // Values may be surrounded by blanks
     signal += strspn(signal, " \t");
-- 
2.43.0


From 35209a91f08c067da638e00a1a357afce02a1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 15/86] fix: do not store trace columns past the end of the
 signal and atomic buffers

---
 monitors/c/src/cli/csv_trace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 85ec7a6..21e3bb8 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -59,6 +59,8 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       signal = strtok_r(NULL, " ", &temp_var);
       if(signal == NULL) return R2U2_ERR_OTHER;
     }
+    // Columns past the monitor's storage cannot be referenced by a specification
+    if(i >= ((monitor->bz_program_count.max_program_count == 0) ? R2U2_MAX_ATOMICS : R2U2_MAX_SIGNALS)) break;
     // Values may be surrounded by blanks
     signal += strspn(signal, " \t");
     signal[strcspn(signal, " \t")] = '\0';
-- 
2.43.0


From ac879b410a4c8ba5134d02b432f350ab4a812289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 16/86] fix: load the last contract that fits the auxiliary
 storage and ignore formulas past it

---
 monitors/c/src/internals/process_binary.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..dd29f01 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -82,27 +82,33 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
       if (sscanf((char*)&(spec[offset]), "%c", &type) == 1) {
         switch(type){
           case 'C': {
+            if (aux_contract_num >= R2U2_AUX_MAX_CONTRACTS) {
+              // Done processing Formulas and ran out of space to save any more Contract information
+              length = 0;
+              break;
+            }
             if (aux_contract_num == 0){ // All formulas always appear in binary before contracts
               (aux_arena->contract_control_blocks)[0].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str) + 1; // Leave a Null
             }
             sscanf((char*)&(spec[offset]), "%*c %s %u %u %u%n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str, &(aux_arena->contract_control_blocks[aux_contract_num].spec_0), &(aux_arena->contract_control_blocks[aux_contract_num].spec_1), &(aux_arena->contract_control_blocks[aux_contract_num].spec_2), &length);
             if (R2U2_AUX_MAX_CONTRACTS > (aux_contract_num + 1)){
               (aux_arena->contract_control_blocks)[aux_contract_num+1].spec_str = (aux_arena->contract_control_blocks)[aux_contract_num].spec_str + strlen((aux_arena->contract_control_blocks)[aux_contract_num].spec_str) + 1; // Leave a Null
-              R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str);
-            } else {
-              // Done processing Formulas and ran out of space to save any more Contract information
-              length = 0;
-              break;
             }
+            R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str);
             aux_contract_num++;
             break;
           }
           case 'F': {
+            if (aux_formula_num >= R2U2_AUX_MAX_FORMULAS) {
+              // Note: If bound is exceeded, we keep iterating to find contracts section of binary
+              sscanf((char*)&(spec[offset]), "%*c %*s %*u%n", &length);
+              break;
+            }
             sscanf((char*)&(spec[offset]), "%*c %s %u%n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str, &(aux_arena->formula_control_blocks[aux_formula_num].spec), &length);
             if (R2U2_AUX_MAX_FORMULAS > (aux_formula_num + 1)){
               (aux_arena->formula_control_blocks)[aux_formula_num+1].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num].spec_str) + 1; // Leave a Null
               R2U2_DEBUG_PRINT("Mapping formula: %s\n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str);
-            } // Note: If bound is exceeded, we keep iterating to find contracts section of binary
+            }
             aux_formula_num++;
             break;
           }
-- 
2.43.0


From aa456f62ff6850997b91fe60d2cf075ea716e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 17/86] fix: bounds files leave room for signal indices with
 gaps

---
 compiler/c2po/assemble.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 3246e67..d8590bf 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1157,8 +1157,15 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
     num_aliases_bytes = sum([
         (len(i.symbol)) for i in assembly if isinstance(i, AliasInstruction)
     ])
-    num_signals = len(context.signals)
-    num_atomics = len(set(context.atomic_id_map.values()))
+    # Signals are stored by their mapped index and indices may have gaps, so count up to the largest
+    num_signals = max([len(context.signals)] + [sid + 1 for sid in context.signal_mapping.values()])
+    num_atomics = max([0] + [aid + 1 for aid in context.atomic_id_map.values()])
+    if not any(
+        isinstance(i, BZInstruction) and i.operator not in (BZOperator.ICONST, BZOperator.FCONST) 
+        for i in assembly
+    ):
+        # Without a booleanizer program the signals are loaded directly as atomics
+        num_atomics = max(num_atomics, num_signals)
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
-- 
2.43.0


From de22f05abd6fc7b8b1c8032e8de27f4f5be2c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 18/86] fix: names too long for the auxiliary data fail the
 assembly instead of dropping all names

---
 compiler/c2po/assemble.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index d8590bf..2ec3604 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -978,12 +978,12 @@ def pack_instruction(
     return binary_len + binary
 
 
-def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> tuple[list[AliasInstruction], bytes]:
+def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> Optional[tuple[list[AliasInstruction], bytes]]:
     """
     `options` is a dictionary of options for the assembly.
     - `aux`: Whether to include aux data (e.g., contract status and specification naming)
 
-    Returns a tuple of (list of AliasInstructions, bytes)
+    Returns a tuple of (list of AliasInstructions, bytes), or None if there was an error
     - The list of AliasInstructions to be packed
     - The bytes of the packed AliasInstructions
     """
@@ -993,16 +993,16 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     for spec in program.get_specs():
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
-            return ([], bytes())
+            return None
         elif not isinstance(spec, cpt.Formula):
-            return ([], bytes())
+            return None
 
         if options["aux"] and len(spec.symbol) > 50:
             log.error(
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
                 spec.loc,
             )
-            return ([], bytes())
+            return None
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
@@ -1057,7 +1057,10 @@ def assemble(
     binary += b"\x00"
 
     if options["aux"]:
-        (aliases, binary_aliases) = pack_aliases(program, context, options)
+        packed_aliases = pack_aliases(program, context, options)
+        if packed_aliases is None:
+            return command.ReturnCode.ASSEMBLY_ERROR
+        (aliases, binary_aliases) = packed_aliases
         assembly += aliases
         binary += binary_aliases
     else:
-- 
2.43.0


From b744bcdbe1b3038c72b63599863531d5e9e17de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 19/86] fix: a contract that has been resolved is no longer a
 user of its operands

---
 compiler/c2po/desugar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..cb5dcd2 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -137,6 +137,10 @@ def resolve_contracts(program: cpt.Program, context: cpt.Context, options: dict[
 
         program.replace_spec(contract, new_formulas)
 
+        # The contract is gone, only the new formulas use its operands from now on
+        for child in contract.children:
+            child.parents = {parent for parent in child.parents if parent is not contract}
+
         log.debug(1, f"replaced contract '{contract.symbol}'")
 
     log.debug(1, f"post contract replacement:\n{repr(program)}")
-- 
2.43.0


From b5a2c563770cbfc47247add48ab6b49bd9c8912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 20/86] fix: integer division and modulo by a zero or minus one
 sensor value must not trap

---
 monitors/c/src/engines/booleanizer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monitors/c/src/engines/booleanizer.c b/monitors/c/src/engines/booleanizer.c
index 08c0ca5..3144b4d 100644
--- a/monitors/c/src/engines/booleanizer.c
+++ b/monitors/c/src/engines/booleanizer.c
@@ -249,7 +249,8 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
         case R2U2_BZ_OP_IDIV:
             i1 = (monitor->value_buffer)[instr->param1].i;
             i2 = (monitor->value_buffer)[instr->param2].i;
-            (monitor->value_buffer)[instr->memory_reference].i = i1 / i2;
+            // Dividing by zero gives 0 (as in the Rust monitor) and, like dividing the lowest value by -1, must not trap
+            (monitor->value_buffer)[instr->memory_reference].i = (i2 == 0) ? 0 : (i2 == -1) ? -i1 : i1 / i2;
 
             R2U2_DEBUG_PRINT("\tBZ IDIV\n");
             R2U2_DEBUG_PRINT("\tb%d = %d = %d / %d (b%d / b%d)\n", instr->memory_reference,
@@ -267,7 +268,7 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
         case R2U2_BZ_OP_MOD:
             i1 = (monitor->value_buffer)[instr->param1].i;
             i2 = (monitor->value_buffer)[instr->param2].i;
-            (monitor->value_buffer)[instr->memory_reference].i = i1 % i2;
+            (monitor->value_buffer)[instr->memory_reference].i = (i2 == 0 || i2 == -1) ? 0 : i1 % i2;
 
             R2U2_DEBUG_PRINT("\tBZ IMOD\n");
             R2U2_DEBUG_PRINT("\tb%d = %d = %d %% %d (b%d %% b%d)\n", instr->memory_reference,
-- 
2.43.0


From ed22134c9a224c458c288cd24dd3f08f9ceb8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 21/86] fix: the mission time given by option or command
 reaches both parsers

---
 compiler/c2po/parse_c2po.py | 3 ++-
 compiler/c2po/parse_mltl.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..d5f6fbe 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -700,7 +700,8 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.set_spec_filename(options["filename"])
 
     lexer: C2POLexer = C2POLexer(options["filename"])
-    parser: C2POParser = C2POParser(options["filename"], context.mission_time)
+    mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
+    parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..979e5b0 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -275,7 +275,8 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.set_spec_filename(options["filename"])
 
     lexer: MLTLLexer = MLTLLexer(options["filename"])
-    parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
+    mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
+    parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
     if not parser.status:
-- 
2.43.0


From 7dd9ded03bf7f660be2dcf44187d96b4c087f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 22/86] fix: a set aggregation over a single element must not
 leave an operator with a single operand

---
 compiler/c2po/desugar.py | 53 ++++++++++++----------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index cb5dcd2..ffa83b1 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -179,6 +179,16 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(member)
             member.type = new_type
 
+    def unroll(expr: cpt.SetAggregation, unit: Any) -> list[cpt.Expression]:
+        """Returns a copy of the aggregated expression for each element of the set. The operators that combine them need at least two operands, so adds their `unit` if there is a single element."""
+        new = [
+            cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+            for e in expr.get_set().children
+        ]
+        if len(new) == 1:
+            new.append(cpt.Constant(expr.loc, unit))
+        return new
+
     for expr in program.preorder(context):
         if not isinstance(expr, cpt.SetAggregation):
             continue
@@ -187,13 +197,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 resolve_struct_accesses(subexpr, context)
 
-            new = cpt.Operator.LogicalAnd(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
-            )
+            new = cpt.Operator.LogicalAnd(expr.loc, unroll(expr, True))
 
             expr.replace(new)
 
@@ -203,13 +207,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 resolve_struct_accesses(subexpr, context)
 
-            new = cpt.Operator.LogicalOr(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
-            )
+            new = cpt.Operator.LogicalOr(expr.loc, unroll(expr, False))
 
             expr.replace(new)
 
@@ -225,14 +223,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             new = cpt.Operator.Equal(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
-                ),
+                cpt.Operator.ArithmeticAdd(expr.loc, unroll(expr, 0), types.IntType()),
                 num,
             )
 
@@ -250,14 +241,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             new = cpt.Operator.GreaterThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
-                ),
+                cpt.Operator.ArithmeticAdd(expr.loc, unroll(expr, 0), types.IntType()),
                 num,
             )
 
@@ -275,14 +259,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             new = cpt.Operator.LessThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
-                ),
+                cpt.Operator.ArithmeticAdd(expr.loc, unroll(expr, 0), types.IntType()),
                 num,
             )
 
-- 
2.43.0


From dbcb996046f9a899d0f1a0c90456b139adf8362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 23/86] fix: an expression shared by future-time and past-time
 specifications is assembled once

---
 compiler/c2po/assemble.py | 51 ++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 2ec3604..291dcf5 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -551,7 +551,7 @@ def gen_ft_instruction(
 
 
 def gen_pt_instruction(
-    expr: cpt.Expression, instructions: dict[cpt.Expression, TLInstruction], offset: int
+    expr: cpt.Expression, instructions: dict[cpt.Expression, TLInstruction]
 ) -> Optional[TLInstruction]:
     log.debug(1, f"generating pt instruction for {expr}")
     ptid = len(instructions)
@@ -595,7 +595,7 @@ def gen_pt_instruction(
 
     pt_instr = TLInstruction(
         EngineTag.TL,
-        ptid + offset,
+        ptid,
         operator,
         operand1_type,
         operand1_value,
@@ -725,13 +725,9 @@ def gen_pt_scq_instructions(
 
 def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[Instruction]]:
     bz_instructions: dict[cpt.Expression, BZInstruction] = {}
-    ft_instructions: dict[cpt.Expression, TLInstruction] = {}
-    pt_instructions: dict[cpt.Expression, TLInstruction] = {}
+    tl_instructions: dict[cpt.Expression, TLInstruction] = {}
     cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
 
-    # For tracking scq usage across FT and PT
-    ft_scqs: int = 0
-
     log.debug(1, f"generating assembly for program:\n{program}")
 
     for expr in cpt.postorder(program.ft_spec_set, context):
@@ -739,8 +735,8 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr in context.atomic_id_map:
-            ftid = len(ft_instructions)
-            ft_instructions[expr] = TLInstruction(
+            ftid = len(tl_instructions)
+            tl_instructions[expr] = TLInstruction(
                 EngineTag.TL,
                 ftid,
                 FTOperator.LOAD,
@@ -750,8 +746,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
 
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
-            ft_scqs += 1
+            cg_instructions[expr] = gen_ft_scq_instructions(expr, tl_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
@@ -762,30 +757,33 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         if expr.engine == types.R2U2Engine.BOOLEANIZER:
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
-            new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
+            new_ft_instruction = gen_ft_instruction(expr, tl_instructions)
             if not new_ft_instruction:
                 return None
-            ft_instructions[expr] = new_ft_instruction
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
-            ft_scqs += 1
+            tl_instructions[expr] = new_ft_instruction
+            cg_instructions[expr] = gen_ft_scq_instructions(expr, tl_instructions)
 
     for expr in cpt.postorder(program.pt_spec_set, context):
         if expr == program.pt_spec_set:
             continue
 
+        # Already generated for an FT spec (e.g., a definition used by both FT and PT specs)
+        if expr in tl_instructions or expr in bz_instructions:
+            continue
+
         if expr in context.atomic_id_map:
-            ptid = len(pt_instructions)
-            pt_instructions[expr] = TLInstruction(
+            ptid = len(tl_instructions)
+            tl_instructions[expr] = TLInstruction(
                 EngineTag.TL,
-                ptid + ft_scqs,
+                ptid,
                 PTOperator.LOAD,
                 TLOperandType.ATOMIC,
                 context.atomic_id_map[expr],
                 TLOperandType.NONE,
                 0,
             )
-            log.debug(1, f"Generating: {expr}\n\t" f"{pt_instructions[expr]}")
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            log.debug(1, f"Generating: {expr}\n\t" f"{tl_instructions[expr]}")
+            cg_instructions[expr] = gen_pt_scq_instructions(expr, tl_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
@@ -796,11 +794,11 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         if expr.engine == types.R2U2Engine.BOOLEANIZER:
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
-            new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
+            new_pt_instruction = gen_pt_instruction(expr, tl_instructions)
             if not new_pt_instruction:
                 return None
-            pt_instructions[expr] = new_pt_instruction
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            tl_instructions[expr] = new_pt_instruction
+            cg_instructions[expr] = gen_pt_scq_instructions(expr, tl_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
     # value after current iteration)
@@ -820,9 +818,9 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         else:
             idx += 1
 
-    context.stats.asm_num_instructions = len(bz_instructions) + len(ft_instructions) + len(pt_instructions) + len(cg_instructions_ordered)
+    context.stats.asm_num_instructions = len(bz_instructions) + len(tl_instructions) + len(cg_instructions_ordered)
     context.stats.asm_num_bz_instructions = len(bz_instructions)
-    context.stats.asm_num_tl_instructions = len(ft_instructions) + len(pt_instructions)
+    context.stats.asm_num_tl_instructions = len(tl_instructions)
     context.stats.asm_num_tl_temporal_instructions = len([i for i in cg_instructions_ordered if isinstance(i, CGInstruction) and i.type == CGType.TEMP])
     context.stats.asm_num_signals = len(context.signals)
     context.stats.asm_num_atomics = len(context.atomic_id_map)
@@ -831,8 +829,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
     return (
         list(bz_instructions.values())
-        + list(ft_instructions.values())
-        + list(pt_instructions.values())
+        + list(tl_instructions.values())
         + cg_instructions_ordered
     )
 
-- 
2.43.0


From fcdc5149135a0361c99844754ef14afb760ca0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 24/86] fix: time of a definition is checked where it is used

---
 compiler/c2po/type_check.py | 49 ++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..b2c52b1 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -304,22 +304,6 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
 
-            # check for mixed-time formulas
-            if cpt.is_future_time_operator(expr):
-                if context.is_past_time():
-                    log.error(
-                        f"mixed-time formulas unsupported, found FT formula in PTSPEC\n    {expr}",
-                        expr.loc,
-                    )
-                    return False
-            elif cpt.is_past_time_operator(expr):
-                if context.is_future_time():
-                    log.error(
-                        f"mixed-time formulas unsupported, found PT formula in FTSPEC\n    {expr}",
-                        expr.loc,
-                    )
-                    return False
-
             interval = expr.interval
             if not interval:
                 log.internal(
@@ -585,6 +569,37 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
     return True
 
 
+def check_mixed_time(spec: cpt.Expression, context: cpt.Context) -> bool:
+    """Returns False if `spec`, or any definition or specification it refers to, has an operator of the wrong time for the current section."""
+    worklist: list[cpt.Expression] = [spec]
+    visited: set[str] = set()
+
+    while len(worklist) > 0:
+        for expr in cpt.postorder(worklist.pop(), context):
+            if isinstance(expr, cpt.Variable):
+                if expr.symbol in context.bound_vars or expr.symbol in visited:
+                    continue
+                visited.add(expr.symbol)
+                if expr.symbol in context.definitions:
+                    worklist.append(context.definitions[expr.symbol])
+                elif expr.symbol in context.specifications:
+                    worklist.append(context.specifications[expr.symbol])
+            elif cpt.is_future_time_operator(expr) and context.is_past_time():
+                log.error(
+                    f"mixed-time formulas unsupported, found FT formula in PTSPEC\n    {expr}",
+                    expr.loc,
+                )
+                return False
+            elif cpt.is_past_time_operator(expr) and context.is_future_time():
+                log.error(
+                    f"mixed-time formulas unsupported, found PT formula in FTSPEC\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
+    return True
+
+
 def type_check_section(section: cpt.ProgramSection, symbols: set[str], context: cpt.Context, options: dict[str, Any]) -> bool:
     status = True
 
@@ -685,7 +700,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 )
 
             symbols.add(spec.symbol)
-            is_good_spec = type_check_expr(spec, context, options)
+            is_good_spec = type_check_expr(spec, context, options) and check_mixed_time(spec, context)
             status = status and is_good_spec
 
     return status
-- 
2.43.0


From 32f2d07c81b9eadec77cfdd7fd5000177d9ee2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 25/86] fix: propagation delays follow the expressions that
 replace definitions

---
 compiler/c2po/cpt.py     | 50 +++++++++++++++++++++++++---------------
 compiler/c2po/desugar.py |  4 ++++
 compiler/c2po/scq.py     |  2 ++
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 8f92cb5..19853d1 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -523,14 +523,18 @@ class Operator(Expression):
         self.operator: OperatorKind = op_kind
         self.symbol: str = op_kind.value
 
-        self.wpd = max([c.wpd for c in children])
-        self.bpd = min([c.bpd for c in children])
+        self.compute_propagation_delay()
 
         if is_temporal_operator(self) or is_logical_operator(self):
             self.engine = types.R2U2Engine.TEMPORAL_LOGIC
         else:
             self.engine = types.R2U2Engine.BOOLEANIZER
 
+    def compute_propagation_delay(self) -> None:
+        """Computes the best- and worst-case propagation delays from the ones of the children."""
+        self.wpd = max([c.wpd for c in self.children])
+        self.bpd = min([c.bpd for c in self.children])
+
     @staticmethod
     def Min(loc: log.FileLocation, operands: list[Expression]) -> Operator:
         new = Operator(loc, OperatorKind.MIN, operands)
@@ -776,11 +780,27 @@ class TemporalOperator(Operator):
         ub: int,
         children: list[Expression],
     ) -> None:
-        super().__init__(loc, operator, children)
         self.interval = ConcreteInterval(lb, ub)
+        super().__init__(loc, operator, children)
         self.symbol = f"{operator.value}[{lb},{ub}]"
-        self.bpd = min([c.bpd for c in children]) + lb
-        self.wpd = max([c.wpd for c in children]) + ub
+
+    def compute_propagation_delay(self) -> None:
+        super().compute_propagation_delay()
+
+        lb, ub = self.interval
+        if is_future_time_operator(self):
+            self.bpd += lb
+            self.wpd += ub
+        elif len(self.children) == 1:
+            self.bpd -= ub
+            self.wpd -= lb
+        elif isinstance(self.children[0], Constant):
+            # The left operand is known ahead of time, so (as with Once, Historical) are the results
+            self.bpd = self.children[1].bpd - ub
+            self.wpd -= lb
+        else:
+            self.bpd -= lb
+            self.wpd -= lb
 
     @staticmethod
     def Global(
@@ -821,8 +841,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.HISTORICAL, lb, ub, [operand])
         operator.type = types.BoolType()
-        operator.bpd = operand.bpd - ub
-        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -831,8 +849,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.ONCE, lb, ub, [operand])
         operator.type = types.BoolType()
-        operator.bpd = operand.bpd - ub
-        operator.wpd = operand.wpd - lb
         return operator
 
     @staticmethod
@@ -841,11 +857,6 @@ class TemporalOperator(Operator):
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
-        if isinstance(lhs, Constant):
-            # The left operand is known ahead of time, so (as with Once) are the results
-            operator.bpd = rhs.bpd - ub
-        operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
     @staticmethod
@@ -853,11 +864,6 @@ class TemporalOperator(Operator):
         loc: log.FileLocation, lb: int, ub: int, lhs: Expression, rhs: Expression
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
-        if isinstance(lhs, Constant):
-            # The left operand is known ahead of time, so (as with Historical) are the results
-            operator.bpd = rhs.bpd - ub
-        operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
 class SymbolicTemporalOperator(Operator):
@@ -1674,6 +1680,12 @@ def preorder(
         for child in reversed(cur.children):
             stack.append(child)
 
+def compute_propagation_delays(program: Program, context: Context) -> None:
+    """Computes the propagation delays of each expression in `program` anew, needs to be done whenever an expression may have been replaced by one with different delays."""
+    for expr in program.postorder(context):
+        if isinstance(expr, Operator):
+            expr.compute_propagation_delay()
+
 def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expression]) -> Expression:
     """
     Deeply copies an expression `start` using the given context `context` and memo dictionary `memo`.
diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index ffa83b1..6b9fbed 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -19,6 +19,8 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
         elif expr.symbol in context.specifications:
             expr.replace(context.specifications[expr.symbol].get_expr())
 
+    cpt.compute_propagation_delays(program, context)
+
     log.debug(1, f"post definition expansion:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
 
@@ -305,6 +307,8 @@ def resolve_struct_accesses(program: cpt.Program, context: cpt.Context, options:
             expr.replace(member)
             member.type = new_type
 
+    cpt.compute_propagation_delays(program, context)
+
     log.debug(1, f"post struct access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
 
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index e599de9..ad8d074 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -11,6 +11,8 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
+    cpt.compute_propagation_delays(program, context)
+
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
             continue
-- 
2.43.0


From 9a1ea98a766b210f6e81b5423f25972018158c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 26/86] fix: rewrites of binary && and || must not drop further
 operands

---
 compiler/c2po/rewrite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..0512a87 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -129,8 +129,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     lb = expr.interval.lb + opnd1.interval.lb
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) and len(expr.children) == 2:
+            # Only binary for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -220,8 +220,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         cpt.Operator.LogicalAnd(expr.loc, [lhs_lhs, rhs_lhs]),
                         lhs_rhs
                     )
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR) and len(expr.children) == 2:
+            # Only binary for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From 4b438b65c722f77dde2a5237ba0465586e683f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 27/86] fix: enumerations of an earlier check are forgotten

type_check could not be run twice (nor compile after type_check) on a program
with enumerations, and enumerations of an earlier program of the session
clashed with those of the next one.
---
 compiler/c2po/cpt.py        | 1 +
 compiler/c2po/type_check.py | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 19853d1..a3dcf4a 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1510,6 +1510,7 @@ class Context:
         """
         self.definitions.clear()
         self.structs.clear()
+        self.enums.clear()
         self.signals.clear()
         self.variables.clear()
         self.specifications.clear()
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index b2c52b1..5ec61ec 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -717,6 +717,10 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
         None if type checking fails, the context object otherwise.
     """
     status = True
+
+    # Enumerations are declared again below, forget those of an earlier check of this program
+    context.enums.clear()
+
     for section in program.sections:
         is_good = type_check_section(section, set(), context, options)
         status = status and is_good
-- 
2.43.0


From ef05ffce97077b2b4294e129864f86f00d3ee816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 28/86] fix: to_bnf must also remove equivalences

The Boolean normal form has only negation, conjunction and until.
---
 compiler/c2po/transform.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0dd4e06..36fa544 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -60,6 +60,29 @@ def to_bnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                     ],
                 )
             )
+        elif expr.operator is cpt.OperatorKind.LOGICAL_EQUIV:
+            lhs = expr.children[0]
+            rhs = expr.children[1]
+            # p <-> q = !(p && !q) && !(!p && q)
+            expr.replace(
+                cpt.Operator.LogicalAnd(
+                    expr.loc,
+                    [
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                lhs.loc, [lhs, cpt.Operator.LogicalNegate(rhs.loc, rhs)]
+                            ),
+                        ),
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                lhs.loc, [cpt.Operator.LogicalNegate(lhs.loc, lhs), rhs]
+                            ),
+                        ),
+                    ],
+                )
+            )
         elif expr.operator is cpt.OperatorKind.FUTURE:
             expr = cast(cpt.TemporalOperator, expr)
             operand = expr.children[0]
-- 
2.43.0


From 8f6d07a279b8472786718c33ca59b99682b7d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 29/86] fix: to_nnf must also convert what a double negation
 encloses

The operand of !!p took the place of the double negation unconverted.
---
 compiler/c2po/transform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 36fa544..e849850 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -154,6 +154,7 @@ def to_nnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
     rhs: cpt.Expression
     operand: cpt.Expression
     bounds: cpt.ConcreteInterval
+    removed_double_negation = False
 
     for expr in program.preorder(context):
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
@@ -162,6 +163,7 @@ def to_nnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
             if cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_NEGATE):
                 # !!p |-> p
                 expr.replace(operand.children[0])
+                removed_double_negation = True
             elif cpt.is_operator(operand, cpt.OperatorKind.LOGICAL_OR):
                 # !(p || q) |-> !p && !q
                 expr.replace(
@@ -321,6 +323,10 @@ def to_nnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                 )
             )
 
+    if removed_double_negation:
+        # The expressions that took the place of double negations have not been visited yet
+        return to_nnf(program, context, options)
+
     log.debug(1, f"post NNF conversion:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
 
-- 
2.43.0


From 7d08795a8908703f379d94930554a4edd478e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 30/86] fix: push and pop must not lose, share or change state

Pushing changed the live session (its definitions, formulas and atomics were
replaced by those of the copy), and what was restored lacked enumerations,
contracts that had been resolved, shared subexpressions, several paths and,
after parsing another program, the assembly. Copy program and context together.
---
 compiler/c2po/cpt.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index a3dcf4a..63985aa 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1,5 +1,6 @@
 """C2PO Parse Tree (CPT) represents structure of a .c2po or .mltl file."""
 from __future__ import annotations
+import copy
 import enum
 import pickle
 import re
@@ -1790,8 +1791,42 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
-    new_context = context.deepcopy()
+    """
+    Deep copies `program` and `context` together, neither of them is changed.
+    Nodes that are shared (between formulas, or between the program and the context) are shared in the copy as well.
+    """
+    memo: dict[int, Any] = {}
+    worklist: list[Any] = []
+
+    def copy_value(value: Any) -> Any:
+        if not isinstance(value, (Node, Context, stats.Stats, list, set, dict)):
+            return value
+        if id(value) in memo:
+            return memo[id(value)]
+
+        if isinstance(value, dict):
+            memo[id(value)] = new = {}
+            new.update({copy_value(k): copy_value(v) for k, v in value.items()})
+        elif isinstance(value, list):
+            memo[id(value)] = new = []
+            new.extend(copy_value(v) for v in value)
+        elif isinstance(value, set):
+            memo[id(value)] = new = set()
+            new.update(copy_value(v) for v in value)
+        else:
+            # The attributes are copied below, since the program may be too deep for a recursive copy
+            memo[id(value)] = new = copy.copy(value)
+            worklist.append(value)
+
+        return new
+
+    new_program, new_context = copy_value(program), copy_value(context)
+
+    while len(worklist) > 0:
+        original = worklist.pop()
+        for name, value in vars(original).items():
+            setattr(memo[id(original)], name, copy_value(value))
+
     return new_program, new_context
 
 def rename(
-- 
2.43.0


From 552231c64c213eba5410a3524b42dd8b5ff9eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 31/86] fix: the parser must not hang on a specification that
 ends too early

---
 compiler/c2po/sly/yacc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sly/yacc.py b/compiler/c2po/sly/yacc.py
index 7adda8c..aae3b75 100644
--- a/compiler/c2po/sly/yacc.py
+++ b/compiler/c2po/sly/yacc.py
@@ -2093,7 +2093,9 @@ class Parser(metaclass=ParserMeta):
             # Get the next symbol on the input.  If a lookahead symbol
             # is already set, we just use that. Otherwise, we'll pull
             # the next token off of the lookaheadstack or from the lexer
-            if self.state not in defaulted_states:
+            # No default reductions while popping states because of an error,
+            # otherwise such a state is entered again and again
+            if self.state not in defaulted_states or (lookahead and lookahead.type == 'error'):
                 if not lookahead:
                     if not lookaheadstack:
                         lookahead = next(tokens, None)  # Get the next token
-- 
2.43.0


From 78a37aee5ccacbed1a19ed5f29e635e939f5fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 32/86] fix: report failing files and processes as errors, not
 as internal ones

---
 compiler/c2po/command.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 8d893e2..66be867 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -221,6 +221,11 @@ class Command:
             result = self.func(program, context, options)
             log.reset_current_command_name()
             return result
+        except OSError as e:
+            # The environment failed (missing directory, full disk, missing executable, ...), not C2PO
+            log.error(str(e))
+            log.reset_current_command_name()
+            return ReturnCode.ERROR
         except Exception as e:
             log.reset_current_command_name()
             log.internal(
-- 
2.43.0


From fa22b480e1fe3c7aeb9466460353e38499dab13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 33/86] fix: print_stats must work without specifications

---
 compiler/c2po/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 66be867..8a01012 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -660,7 +660,8 @@ def print_stats(program: cpt.Program, context: cpt.Context, options: dict[str, A
     `options` is a dictionary containing the following key:
         - `format`: The format string to use for the statistics
     """
-    context.stats.first_formula_string = str(cast(cpt.Formula, program.get_specs()[0]).get_expr())
+    specs = program.get_specs()
+    context.stats.first_formula_string = str(cast(cpt.Formula, specs[0]).get_expr()) if len(specs) > 0 else ""
     context.stats.total_dag_size = program.get_dag_size(context)
     context.stats.num_temporal_operators = program.get_num_temporal_operators(context)
     print(context.stats.format(options["format"]), end="")
-- 
2.43.0


From 1e98799b6a886ff4928db9e2db5cd2fdd2ef190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 34/86] fix: a program with unresolved variables is not
 desugared

---
 compiler/c2po/cpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 63985aa..2850ace 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2336,6 +2336,7 @@ def is_desugared(program: Program, context: Context) -> bool:
                 StructAccess,
                 ArrayIndex,
                 SetAggregation,
+                Variable,
                 Contract,
             ),
         ):
-- 
2.43.0


From 7d6022552b0936f4ac0421e70865ab905206ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 35/86] fix: changing the booleanizer setting must not leave a
 half-typed program

---
 compiler/c2po/command.py    | 23 +++++++++--------------
 compiler/c2po/cpt.py        |  8 ++++++++
 compiler/c2po/type_check.py |  7 +++++--
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 8a01012..ff90de0 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -534,12 +534,16 @@ set_r2u2_bin_path_command = Command(
 CommandRegistry.register(set_r2u2_bin_path_command)
 
 
-def enable_booleanizer(context: cpt.Context) -> ReturnCode:
-    """Command to enable the booleanizer.
+def set_booleanizer(program: cpt.Program, context: cpt.Context, enable: bool) -> ReturnCode:
+    """Command to enable or disable the booleanizer.
 
     `context` is the context object.
     """
-    context.enable_booleanizer = True
+    if context.enable_booleanizer != enable:
+        # The types and atomics found so far depend on whether the booleanizer is enabled
+        cpt.remove_atomics(program, context)
+        program.is_well_typed = False
+    context.enable_booleanizer = enable
     return ReturnCode.SUCCESS
 
 
@@ -547,26 +551,17 @@ enable_booleanizer_command = Command(
     name="enable_booleanizer",
     description="Enable Booleanizer expressions",
     options=[],
-    func=lambda program, context, options: enable_booleanizer(context),
+    func=lambda program, context, options: set_booleanizer(program, context, True),
     guards=[],
 )
 CommandRegistry.register(enable_booleanizer_command)
 
 
-def disable_booleanizer(context: cpt.Context) -> ReturnCode:
-    """Command to disable the booleanizer.
-
-    `context` is the context object.
-    """
-    context.enable_booleanizer = False
-    return ReturnCode.SUCCESS
-
-
 disable_booleanizer_command = Command(
     name="disable_booleanizer",
     description="Disable Booleanizer expressions",
     options=[],
-    func=lambda program, context, options: disable_booleanizer(context),
+    func=lambda program, context, options: set_booleanizer(program, context, False),
     guards=[],
 )
 CommandRegistry.register(disable_booleanizer_command)
diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 2850ace..c316afa 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2012,6 +2012,14 @@ def assign_signal_ids(program: Program, context: Context, signal_mapping: types.
 
     return missing_signals
 
+def remove_atomics(program: Program, context: Context) -> None:
+    """Undo `compute_atomics`."""
+    for expr in program.postorder(context):
+        if isinstance(expr, Atomic):
+            expr.replace(expr.get_expr())
+    context.atomic_id_map.clear()
+    context.atomic_expr_map.clear()
+
 def to_infix_str(start: Expression) -> str:
     s = ""
 
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 5ec61ec..f0a91ff 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -71,8 +71,11 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if context.enable_booleanizer:
-                expr.engine = types.R2U2Engine.BOOLEANIZER
+            expr.engine = (
+                types.R2U2Engine.BOOLEANIZER
+                if context.enable_booleanizer
+                else types.R2U2Engine.NONE
+            )
 
             if expr.signal_id == -1 and expr.symbol in context.signal_mapping:
                 expr.signal_id = context.signal_mapping[expr.symbol]
-- 
2.43.0


From bf1c226595214417cc727c8d2efeb3ce6fc029b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 36/86] fix: a failed parse must leave the current program
 usable

---
 compiler/c2po/parse_c2po.py  | 7 ++++---
 compiler/c2po/parse_equiv.py | 7 ++++---
 compiler/c2po/parse_mltl.py  | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index d5f6fbe..8f70d5d 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -695,18 +695,19 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: C2POLexer = C2POLexer(options["filename"])
     mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
     parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
+    # Keep the context of the current program if there is no new one
     if not parser.status:
         return None
 
+    context.clear() 
+    context.set_spec_filename(options["filename"])
+
     return cpt.Program(0, sections)
 
 parse_c2po_command = command.Command(
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index a394c2f..e0d187b 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -317,17 +317,18 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: MLTLEquivLexer = MLTLEquivLexer(options["filename"])
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
+    # Keep the context of the current program if there is no new one
     if not parser.status:
         return None
 
+    context.clear() 
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.bounds = parser.bounds
     context.constraints = parser.constraints
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 979e5b0..c2d8e89 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -270,18 +270,19 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     contents = util.read_file(options["filename"])
     if contents is None:
         return None
-        
-    context.clear() 
-    context.set_spec_filename(options["filename"])
 
     lexer: MLTLLexer = MLTLLexer(options["filename"])
     mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
     parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
+    # Keep the context of the current program if there is no new one
     if not parser.status:
         return None
 
+    context.clear() 
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.signal_mapping = signal_mapping
     cpt.assign_signal_ids(program, context, signal_mapping)
-- 
2.43.0


From 3ecbd4621312836628d0bcd37534b2bed2c7002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 37/86] fix: refuse comparisons that need the disabled
 booleanizer

---
 compiler/c2po/assemble.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 291dcf5..0e06c48 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1037,6 +1037,18 @@ def assemble(
             program.loc,
         )
 
+    if not context.enable_booleanizer:
+        for expr in program.postorder(context):
+            if (
+                expr.engine is types.R2U2Engine.BOOLEANIZER
+                and not isinstance(expr, cpt.Constant)
+            ):
+                log.error(
+                    f"found Booleanizer expression, but Booleanizer expressions disabled\n    {expr}",
+                    expr.loc,
+                )
+                return command.ReturnCode.ASSEMBLY_ERROR
+
     assembly = gen_assembly(program, context)
 
     if not assembly:
-- 
2.43.0


From 574941b82d112c73a27e5a6557a8224c7e8f5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 38/86] fix: a traversal must not mistake a new expression for
 one it has visited

Visited expressions were remembered by id only. A pass that replaces
expressions lets visited ones be freed, and a new expression may get the id of
a freed one; it was then skipped, so that the result depended on addresses.
---
 compiler/c2po/cpt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index c316afa..e18fd17 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1625,7 +1625,9 @@ def postorder(
 ) -> Iterator[Expression]:
     """Performs a postorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[tuple[bool, Expression]] = []
-    visited: set[int] = set()
+    # visited expressions are kept alive here: the traversal's user may drop the last reference to one of
+    # them, and an expression created later could then get the same id
+    visited: dict[int, Expression] = {}
 
     if isinstance(start, Expression):
         stack.append((False, start))
@@ -1648,7 +1650,7 @@ def postorder(
         elif id(expr) in visited:
             continue
 
-        visited.add(id(expr))
+        visited[id(expr)] = expr
         stack.append((True, expr))
 
         for child in reversed(expr.children):
@@ -1659,7 +1661,9 @@ def preorder(
 ) -> Iterator[Expression]:
     """Performs a preorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[Expression] = []
-    visited: set[int] = set()
+    # visited expressions are kept alive here: the traversal's user may drop the last reference to one of
+    # them, and an expression created later could then get the same id
+    visited: dict[int, Expression] = {}
 
     if isinstance(start, Expression):
         stack.append(start)
@@ -1677,7 +1681,7 @@ def preorder(
         # if expr has been replaced since we just yielded it, need to traverse down the replacement node
         cur = expr.replacement if expr.replacement else expr
 
-        visited.add(id(cur))
+        visited[id(cur)] = cur
 
         for child in reversed(cur.children):
             stack.append(child)
-- 
2.43.0


From 83000f9baaba60595cd366ddfb24d93fcf5391ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 39/86] fix: an instruction that cannot be evaluated is an
 error of the step

r2u2_engine_step returned the status of the last instruction only, so a
specification with instructions that the monitor does not implement was
monitored in part, without its verdicts and without an error.
---
 monitors/c/src/cli/main.c            |  3 +++
 monitors/c/src/engines/booleanizer.c |  2 +-
 monitors/c/src/engines/engines.c     | 12 ++++++++----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/monitors/c/src/cli/main.c b/monitors/c/src/cli/main.c
index 9002837..f5dae37 100644
--- a/monitors/c/src/cli/main.c
+++ b/monitors/c/src/cli/main.c
@@ -138,6 +138,9 @@ int main(int argc, char const* argv[]) {
   } else if (ferror(r2u2_csv_reader.input_file)) {
     // The trace did not end, we just cannot read the rest of it
     perror("Error reading trace");
+  } else {
+    // E.g., a malformed row, or an instruction that this monitor does not implement
+    fprintf(stderr, "Stopped before the end of the trace (status %d)\n", (int) err_cond);
   }
 
   // Cleanup
diff --git a/monitors/c/src/engines/booleanizer.c b/monitors/c/src/engines/booleanizer.c
index 3144b4d..3f3e1fd 100644
--- a/monitors/c/src/engines/booleanizer.c
+++ b/monitors/c/src/engines/booleanizer.c
@@ -338,7 +338,7 @@ r2u2_status_t r2u2_bz_update(r2u2_monitor_t* monitor)
             break;
         default:
             R2U2_DEBUG_PRINT("Warning: Bad OpCode\n");
-            break;
+            return R2U2_INVALID_INST;
     }
 
     return R2U2_OK;
diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index 6e128d1..dfbc8a5 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -5,12 +5,14 @@
 #include "../internals/debug.h"
 
 r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
-    r2u2_status_t error_cond;
+    r2u2_status_t error_cond = R2U2_OK; // First error of this step, if any
+    r2u2_status_t instr_cond;
 
     // Operate over all BZ instructions first and only once on each step forward
     R2U2_DEBUG_PRINT("(BZ) %d.%zu\n",monitor->time_stamp, monitor->bz_program_count.curr_program_count);
     while(monitor->bz_program_count.curr_program_count < monitor->bz_program_count.max_program_count){
-      error_cond = r2u2_bz_update(monitor);
+      instr_cond = r2u2_bz_update(monitor);
+      if (error_cond == R2U2_OK) error_cond = instr_cond;
       monitor->bz_program_count.curr_program_count++;
     }
     monitor->bz_program_count.curr_program_count = 0;
@@ -19,7 +21,8 @@ r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
     monitor->progress = R2U2_MONITOR_PROGRESS_FIRST_LOOP;
     while(monitor->mltl_program_count.curr_program_count < monitor->mltl_program_count.max_program_count){
       R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
-      error_cond = r2u2_mltl_update(monitor);
+      instr_cond = r2u2_mltl_update(monitor);
+      if (error_cond == R2U2_OK) error_cond = instr_cond;
       monitor->mltl_program_count.curr_program_count++;
     }
 
@@ -31,7 +34,8 @@ r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
     while(monitor->mltl_program_count.curr_program_count > 0){
       monitor->mltl_program_count.curr_program_count--;
       R2U2_DEBUG_PRINT("(TL) %d.%zu.%d\n",monitor->time_stamp, monitor->mltl_program_count.curr_program_count, monitor->progress);
-      error_cond = r2u2_mltl_update(monitor);
+      instr_cond = r2u2_mltl_update(monitor);
+      if (error_cond == R2U2_OK) error_cond = instr_cond;
       if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS) {
         monitor->mltl_program_count.curr_program_count = monitor->mltl_program_count.max_program_count;
         monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS;
-- 
2.43.0


From 76bd0c358cc9fedd211b8e4c09c018bb32e6a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 40/86] fix: refuse a specification that exceeds the bounds of
 the monitor

Loading such a specification wrote past the end of the monitor's arrays.
---
 monitors/c/src/internals/process_binary.c | 48 ++++++++++++++++++++++-
 monitors/c/src/lib.c                      |  1 +
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index dd29f01..242e8c7 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -7,8 +7,33 @@
 #include "../engines/engines.h"
 #include <string.h>
 
+/// @brief      Check that a temporal logic instruction only refers to memory within the bounds
+/// @param[in]  instr  Pointer to r2u2_mltl_instruction_t
+/// @return     r2u2_bool Indicates that the instruction fits
+static r2u2_bool mltl_instruction_fits(r2u2_mltl_instruction_t* instr) {
+  return instr->memory_reference < R2U2_MAX_TL_INSTRUCTIONS &&
+         (instr->op1_type != R2U2_FT_OP_ATOMIC || instr->op1_value < R2U2_MAX_ATOMICS) &&
+         (instr->op2_type != R2U2_FT_OP_ATOMIC || instr->op2_value < R2U2_MAX_ATOMICS);
+}
+
+/// @brief      Check that a booleanizer instruction only refers to memory within the bounds
+/// @param[in]  instr  Pointer to r2u2_bz_instruction_t
+/// @return     r2u2_bool Indicates that the instruction fits
+static r2u2_bool bz_instruction_fits(r2u2_bz_instruction_t* instr) {
+  switch (instr->opcode) {
+    case R2U2_BZ_OP_ILOAD:
+    case R2U2_BZ_OP_FLOAD:
+      return instr->memory_reference < R2U2_MAX_BZ_INSTRUCTIONS && instr->param1 < R2U2_MAX_SIGNALS;
+    case R2U2_BZ_OP_STORE:
+      return instr->param2 < R2U2_MAX_ATOMICS;
+    default:
+      return instr->memory_reference < R2U2_MAX_BZ_INSTRUCTIONS;
+  }
+}
+
 r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
   size_t offset = 0;
+  size_t queue_size = 0; // Total size of all queues, including temporal metadata
 
   // Header Check:
   R2U2_DEBUG_PRINT("Spec Info:\n\t%s\n",  &(spec[1]));
@@ -18,12 +43,21 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
     if ((spec[offset+1] == R2U2_ENG_CG) && (spec[offset+2] == R2U2_ENG_TL)) {
       // Process configuration command
       r2u2_mltl_instruction_t instr = r2u2_mltl_set_from_binary(&(spec[offset+3]));
+      if (instr.op1_type == R2U2_FT_OP_ATOMIC) {
+        queue_size += instr.op1_value;
+        if (instr.op2_type == R2U2_FT_OP_ATOMIC) queue_size += R2U2_TEMPORAL_METADATA_SIZE;
+      }
+      if (instr.memory_reference >= R2U2_MAX_TL_INSTRUCTIONS ||
+          queue_size > R2U2_MAX_QUEUE_SLOTS + (R2U2_MAX_TEMPORAL_OPERATORS * R2U2_TEMPORAL_METADATA_SIZE)) {
+        return R2U2_BAD_SPEC;
+      }
       if (r2u2_mltl_configure_instruction_dispatch(monitor, &instr) != R2U2_OK) {
         return R2U2_ERR_OTHER;
       }
     } else {
       if(spec[offset+1] == R2U2_ENG_BZ){
         r2u2_bz_instruction_t instr = r2u2_bz_set_from_binary(&(spec[offset+2]));
+        if (!bz_instruction_fits(&instr)) return R2U2_BAD_SPEC;
         // Special case: ICONST and FCONST only need to be run once since they load constants
         if (instr.opcode == R2U2_BZ_OP_ICONST){
           (monitor->value_buffer)[instr.memory_reference].i = r2u2_bz_get_param1_int_from_binary(&(spec[offset+2]));
@@ -43,13 +77,16 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
             R2U2_DEBUG_PRINT("\tb%d = (b%d)\n", instr.memory_reference, instr.param1);
           }
           // Store booleanizer instruction in table
+          if (monitor->bz_program_count.max_program_count >= R2U2_MAX_BZ_INSTRUCTIONS) return R2U2_BAD_SPEC;
           (monitor->bz_instruction_tbl)[monitor->bz_program_count.max_program_count] = instr;
           monitor->bz_program_count.max_program_count++;
         }
         }
         else if (spec[offset+1] == R2U2_ENG_TL){
           // Store temporal logic instruction in table
-          (monitor->mltl_instruction_tbl)[monitor->mltl_program_count.max_program_count] = r2u2_mltl_set_from_binary(&(spec[offset+2]));
+          r2u2_mltl_instruction_t instr = r2u2_mltl_set_from_binary(&(spec[offset+2]));
+          if (monitor->mltl_program_count.max_program_count >= R2U2_MAX_TL_INSTRUCTIONS || !mltl_instruction_fits(&instr)) return R2U2_BAD_SPEC;
+          (monitor->mltl_instruction_tbl)[monitor->mltl_program_count.max_program_count] = instr;
           monitor->mltl_program_count.max_program_count++;
         }
     }
@@ -70,6 +107,7 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
     size_t aux_formula_num = 0;
     size_t aux_contract_num = 0;
     int length = 0;
+    int name_end = 0; // Offset of the end of the name, which starts after the type and a space
     r2u2_aux_info_arena_t* aux_arena = &(monitor->aux_info_arena);
     (aux_arena->formula_control_blocks)[0].spec_str = aux_arena->aux_mem;
 
@@ -90,6 +128,10 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
             if (aux_contract_num == 0){ // All formulas always appear in binary before contracts
               (aux_arena->contract_control_blocks)[0].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str) + 1; // Leave a Null
             }
+            if (sscanf((char*)&(spec[offset]), "%*c %*s%n", &name_end) < 0 ||
+                (size_t)((aux_arena->contract_control_blocks)[aux_contract_num].spec_str - aux_arena->aux_mem) + (name_end - 2) + 1 > R2U2_MAX_AUX_BYTES) {
+              return R2U2_BAD_SPEC;
+            }
             sscanf((char*)&(spec[offset]), "%*c %s %u %u %u%n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str, &(aux_arena->contract_control_blocks[aux_contract_num].spec_0), &(aux_arena->contract_control_blocks[aux_contract_num].spec_1), &(aux_arena->contract_control_blocks[aux_contract_num].spec_2), &length);
             if (R2U2_AUX_MAX_CONTRACTS > (aux_contract_num + 1)){
               (aux_arena->contract_control_blocks)[aux_contract_num+1].spec_str = (aux_arena->contract_control_blocks)[aux_contract_num].spec_str + strlen((aux_arena->contract_control_blocks)[aux_contract_num].spec_str) + 1; // Leave a Null
@@ -104,6 +146,10 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
               sscanf((char*)&(spec[offset]), "%*c %*s %*u%n", &length);
               break;
             }
+            if (sscanf((char*)&(spec[offset]), "%*c %*s%n", &name_end) < 0 ||
+                (size_t)((aux_arena->formula_control_blocks)[aux_formula_num].spec_str - aux_arena->aux_mem) + (name_end - 2) + 1 > R2U2_MAX_AUX_BYTES) {
+              return R2U2_BAD_SPEC;
+            }
             sscanf((char*)&(spec[offset]), "%*c %s %u%n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str, &(aux_arena->formula_control_blocks[aux_formula_num].spec), &length);
             if (R2U2_AUX_MAX_FORMULAS > (aux_formula_num + 1)){
               (aux_arena->formula_control_blocks)[aux_formula_num+1].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num].spec_str) + 1; // Leave a Null
diff --git a/monitors/c/src/lib.c b/monitors/c/src/lib.c
index 2288728..4db0031 100644
--- a/monitors/c/src/lib.c
+++ b/monitors/c/src/lib.c
@@ -18,6 +18,7 @@ r2u2_status_t r2u2_load_specification(uint8_t* spec, r2u2_monitor_t* monitor) {
 
     // Populate instruction table from binary spec in instruction memory
     if (r2u2_process_binary(monitor, spec) != R2U2_OK) {
+      r2u2_monitor_soft_reset(monitor); // Never monitor a part of a specification
       return R2U2_BAD_SPEC;
     }
 
-- 
2.43.0


From db5fb0b6a32011696cfb61756ca9185d9c66747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 41/86] fix: refuse a specification file that is not complete

A truncated file was read past its end; usually zeros follow, and a part of
the specification was monitored without any error.
---
 monitors/c/src/cli/main.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/monitors/c/src/cli/main.c b/monitors/c/src/cli/main.c
index f5dae37..f3cf4c5 100644
--- a/monitors/c/src/cli/main.c
+++ b/monitors/c/src/cli/main.c
@@ -24,6 +24,30 @@ const char* help = "<configuration> [trace]\n"
 
 r2u2_csv_reader_t r2u2_csv_reader = {0};
 
+/// @brief      Check that the specification is complete, i.e., that its records end within the file
+/// @param[in]  spec  Pointer to memory mapped specification file
+/// @param[in]  size  Size of the specification file
+/// @return     int  Nonzero if the specification is complete
+static int spec_is_complete(const uint8_t* spec, size_t size) {
+  size_t offset = 0;
+
+  if (spec[0] == 0) return 0; // There is always a header
+
+  // The header and instructions are a chain of offsets, which ends with an offset of zero
+  while (offset < size && spec[offset] != 0) {
+    offset += spec[offset];
+  }
+
+  #if R2U2_AUX_STRING_SPECS
+  // After that are null-terminated strings, the last of which is empty
+  while (++offset < size && spec[offset] != 0) {
+    while (offset < size && spec[offset] != 0) offset++;
+  }
+  #endif
+
+  return offset < size;
+}
+
 int main(int argc, char const* argv[]) {
 
   r2u2_status_t err_cond;
@@ -83,6 +107,11 @@ int main(int argc, char const* argv[]) {
       return 1;
   }
 
+  if (!spec_is_complete(spec, (size_t)fd_stat.st_size)) {
+    fprintf(stderr, "Specification file is incomplete\n");
+    return R2U2_BAD_SPEC;
+  }
+
   // Configure R2U2 monitor
   r2u2_monitor_t r2u2_monitor = R2U2_DEFAULT_MONITOR;
   if (r2u2_load_specification(spec, &r2u2_monitor) != R2U2_OK) {
-- 
2.43.0


From 6a1fd6c52af6f0186ee04c6f51e3595c2e51de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 42/86] fix: write C2PO text that C2PO can read

Enumerations were written with ':=' and a trailing comma, counting set
aggregations without their count, abs and sqrt without the parentheses of
a call, and small or large floating-point constants with an exponent;
none of these is C2PO syntax.
---
 compiler/c2po/cpt.py        | 27 ++++++++++++++++++++-------
 compiler/c2po/parse_c2po.py |  8 ++++----
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index e18fd17..db8dd59 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1,6 +1,7 @@
 """C2PO Parse Tree (CPT) represents structure of a .c2po or .mltl file."""
 from __future__ import annotations
 import copy
+import decimal
 import enum
 import pickle
 import re
@@ -151,6 +152,11 @@ class Constant(Expression):
         super().__init__(loc, [])
         self.value: bool = value
         self.symbol = str(value)
+        if isinstance(value, float) and "e" in self.symbol:
+            # neither C2PO nor MLTL has a notation for exponents
+            self.symbol = f"{decimal.Decimal(self.symbol):f}"
+            if "." not in self.symbol:
+                self.symbol += ".0"
 
         if isinstance(value, bool):
             self.type = types.BoolType(True)
@@ -1167,8 +1173,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{d.symbol}: {d.expr}" for d in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context) -> EnumDefinition:
         var_defs = [v.deepcopy(context) for v in self.var_defs]
@@ -2084,9 +2090,13 @@ def to_infix_str(start: Expression) -> str:
                 s += f"{expr.symbol}({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
-                s += ")("
+            elif seen == 1 and (num := expr.get_num()) is not None:
+                s += ", "
                 stack.append((seen + 1, expr))
+                stack.append((0, num))
+            elif seen < len(expr.children) - 1:
+                s += ")("
+                stack.append((len(expr.children) - 1, expr))
                 stack.append((0, expr.get_expr()))
             else:
                 s += ")"
@@ -2207,12 +2217,15 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
                 s += f"({expr.symbol} ({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
-                s = s[:-1] + ") "
+            elif seen == 1 and (num := expr.get_num()) is not None:
                 stack.append((seen + 1, expr))
+                stack.append((0, num))
+            elif seen < len(expr.children) - 1:
+                s = s[:-1] + ") "
+                stack.append((len(expr.children) - 1, expr))
                 stack.append((0, expr.get_expr()))
             else:
-                s = s[:-1] + ") "  
+                s = s[:-1] + ") "
         elif isinstance(expr, Operator):
             if seen == 0:
                 s += f"({expr.symbol} "
diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 8f70d5d..9955d1f 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -479,13 +479,13 @@ class C2POParser(sly.Parser):
     def expr(self, p):
         return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_SQRT LPAREN expr RPAREN")
+    @_("ARITH_SQRT expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_ABS LPAREN expr RPAREN")
+    @_("ARITH_ABS expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[1])
         
     @_("PREV LPAREN expr COMMA expr RPAREN")
     def expr(self, p):
-- 
2.43.0


From 6dc83d77f646772467500ec545377a373553c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 43/86] fix: write exclusive or in terms the MLTL standard has

The writer emitted the C2PO keyword 'xor', which no MLTL reader accepts,
the repository's own included.
---
 compiler/c2po/cpt.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index db8dd59..acf42d6 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2291,6 +2291,19 @@ def to_mltl_std(program: Program, context: Context) -> str:
                     stack.append((0, expr.children[0]))
                 else:
                     mltl += ")"
+            elif is_operator(expr, OperatorKind.LOGICAL_XOR):
+                # there is no xor in the MLTL standard: a xor b is !(a <-> b)
+                if seen == 0:
+                    mltl += "(! (" * (len(expr.children) - 1)
+                elif seen == 1:
+                    mltl += " <-> "
+                elif seen < len(expr.children):
+                    mltl += ")) <-> "
+                else:
+                    mltl += "))"
+                if seen < len(expr.children):
+                    stack.append((seen + 1, expr))
+                    stack.append((0, expr.children[seen]))
             elif is_temporal_operator(expr) or is_logical_operator(expr):
                 if seen == len(expr.children):
                     mltl += ")"
-- 
2.43.0


From a9f6ea0d8056ba1dcbd598e06aa1dd2d43d689c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 44/86] fix: an array slice past the end is an error of the
 command

The message was printed, the slice left in place and success reported.
---
 compiler/c2po/desugar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 6b9fbed..92236c9 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -353,8 +353,7 @@ def resolve_array_accesses(program: cpt.Program, context: cpt.Context, options:
             array_type = cast(types.ArrayType, expr.get_array().type)
             if expr.get_indices()[0] >= array_type.size or expr.get_indices()[1] >= array_type.size:
                 log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                context.status = False
-                continue
+                return command.ReturnCode.ERROR
 
             array = expr.get_array()
 
-- 
2.43.0


From 2f3940a2614d89a54c6de54fba30f260ce748e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 45/86] fix: map lines of arrays with indices of two and more
 digits

'a[10..12]:4' was taken for the name of one signal, 'a[100]:4' for a range,
and text after the number for a part of it.
---
 compiler/c2po/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..974a076 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -21,13 +21,13 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
-        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line):
+        if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+\s*", line):
             strs = line.split(":")
             id = strs[0]
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
-- 
2.43.0


From ace192598969af5776c59eb94c8d371dbd9dc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 46/86] fix: generate a map for programs with input arrays

The elements of an array are the signals, not the array.
---
 compiler/c2po/cpt.py | 16 ++++++++++++++++
 compiler/c2po/map.py |  6 +++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index acf42d6..381ca43 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2022,6 +2022,22 @@ def assign_signal_ids(program: Program, context: Context, signal_mapping: types.
 
     return missing_signals
 
+def get_scalar_signals(context: Context) -> list[tuple[str, types.Type]]:
+    """
+    Returns the symbol and type of every signal declared in the program, in order of declaration.
+    The elements of an array are signals of their own.
+    """
+    signals: list[tuple[str, types.Type]] = []
+    for symbol, signal_type in context.signals.items():
+        if isinstance(signal_type, types.ArrayType):
+            signals += [
+                (f"{symbol}[{i}]", signal_type.member_type)
+                for i in range(signal_type.size)
+            ]
+        elif "[" not in symbol:  # the type checker adds the elements it meets
+            signals.append((symbol, signal_type))
+    return signals
+
 def remove_atomics(program: Program, context: Context) -> None:
     """Undo `compute_atomics`."""
     for expr in program.postorder(context):
diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 974a076..8091961 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -103,9 +103,9 @@ def generate_map(
     output_file = options["output"]
     
     if not cpt.has_valid_signal_mapping(program, context):
-        mapping: types.SignalMapping = {}
-        for i, signal in enumerate(context.signals):
-            mapping[signal] = i
+        mapping: types.SignalMapping = {
+            signal: i for i, (signal, _) in enumerate(cpt.get_scalar_signals(context))
+        }
 
         missing = cpt.assign_signal_ids(program, context, mapping)
         if len(missing) > 0:
-- 
2.43.0


From 00041099ea9340f6308aab8939c96aa619e5b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 47/86] fix: report a trace header that lacks or repeats a
 signal

The report itself failed with an internal error, as did an empty first line.
---
 compiler/c2po/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..6531e6e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -33,7 +33,7 @@ def parse_trace_file(
 
     cnt: int = 0
     signal_mapping: types.SignalMapping = {}
-    if lines[0][0] != "#":
+    if not lines[0].startswith("#"):
         # no header, so just set trace length
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From ff98060e18f352f386af647c416cd21536003ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 48/86] fix: generate a trace that fits the signal mapping

Columns the mapping skips were left out, so that all later signals were
read from the wrong column; programs with input arrays could not be
handled; and floating-point values were cut after a number of characters,
which took digits before the point or the exponent.
---
 compiler/c2po/trace.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 6531e6e..deaa711 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -106,7 +106,7 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     seed = options["seed"]
     output_file = options["output"]
     print_trace = options["print"]
-    float_precision = options["float_precision"] + 2
+    float_precision = options["float_precision"]
 
     if seed is not None:
         random.seed(seed)
@@ -114,9 +114,17 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     log.debug(1, f"generating trace of length {length}...")
     start_time = util.get_rusage_time()
 
-    variables: list[tuple[str, types.Type]] = sorted(
-        list(context.signals.items()), key=lambda x: context.signal_mapping[x[0]]
-    )
+    # One column per index of the mapping, including those that no signal of this program uses
+    columns: dict[int, tuple[str, types.Type]] = {}
+    for symbol, index in context.signal_mapping.items():
+        columns.setdefault(index, (symbol, types.IntType()))
+    for symbol, signal_type in cpt.get_scalar_signals(context):
+        if symbol in context.signal_mapping:
+            columns[context.signal_mapping[symbol]] = (symbol, signal_type)
+    variables: list[tuple[str, types.Type]] = [
+        columns.get(index, (f"unused{index}", types.IntType()))
+        for index in range(max(columns, default=-1) + 1)
+    ]
 
     output_lines = [f"#{','.join(var_name for var_name, _ in variables)}"]
     for _ in range(length):
@@ -124,7 +132,7 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
             ','.join(
                 str(random.randint(0, 1)) 
                 if types.is_bool_type(var_type)
-                else str(random.uniform(min_val, max_val))[:float_precision]
+                else f"{random.uniform(min_val, max_val):.{float_precision}f}"
                 if types.is_float_type(var_type)
                 else str(random.randint(int(min_val), int(max_val)))
                 for _, var_type in variables
-- 
2.43.0


From 5b44522172dad34ac10bd49ff3c4646c43ca4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 49/86] fix: compare arrays of a single element

---
 compiler/c2po/desugar.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 92236c9..aae0d46 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -388,13 +388,12 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
         if isinstance(expr.children[0], cpt.ArrayExpression) and isinstance(expr.children[1], cpt.ArrayExpression):
             if cpt.is_relational_operator(expr) and isinstance(expr, cpt.Operator): # Only relational operators supported for now
-                new = cpt.Operator.LogicalAnd(
-                    expr.loc,
-                    [
-                        cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
-                        for x in range(len(expr.children[0].children))
-                    ],
-                )
+                comparisons = [
+                    cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
+                    for x in range(len(expr.children[0].children))
+                ]
+                # A conjunction needs at least two operands
+                new = comparisons[0] if len(comparisons) == 1 else cpt.Operator.LogicalAnd(expr.loc, comparisons)
 
                 expr.replace(new)
 
-- 
2.43.0


From 13a405a928944cc363f7deac894b209b618eb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 50/86] fix: report operators Sabre does not support

---
 compiler/c2po/sabre.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 88ddbc1..85d8b82 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -483,7 +483,11 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
                 log.error(f"formula symbol '{symbol}' is a contract")
                 return command.ReturnCode.ERROR
 
-    code = gen_code(spec.get_expr(), context, options["word_size"], nsigs, options["raw_bytes"], options["profile"])
+    try:
+        code = gen_code(spec.get_expr(), context, options["word_size"], nsigs, options["raw_bytes"], options["profile"])
+    except NotImplementedError as e:
+        log.error(str(e))
+        code = None
     if code is None:
         log.error(f"failed to generate Sabre code for {spec.symbol}")
         return command.ReturnCode.ERROR
-- 
2.43.0


From 3a0cbe7261ffac26c1eac462572bf2965769c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 51/86] fix: report an input file that is not text

---
 compiler/c2po/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/c2po/util.py b/compiler/c2po/util.py
index 1c7ff59..79d11c1 100644
--- a/compiler/c2po/util.py
+++ b/compiler/c2po/util.py
@@ -32,6 +32,9 @@ def read_file(filename: str) -> Optional[str]:
         message = re.sub(r"No", r"no", message)
         log.error(message)
         return None
+    except UnicodeDecodeError as e:
+        log.error(f"not a text file: '{filename}' ({e})")
+        return None
 
 def format_bytes(bytes: int) -> str:
     """Return the given number of bytes in a human-readable format."""
-- 
2.43.0


From 40ffe82f6340999ab7693e9574f0219323a8fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 52/86] fix: atomics are not computed while the booleanizer
 feeds temporal logic directly

---
 compiler/c2po/cpt.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 381ca43..e7a9b9d 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2435,17 +2435,25 @@ def has_no_extended_operators(program: Program, context: Context) -> bool:
     )
 
 def has_computed_atomics(program: Program, context: Context) -> bool:
-    """Returns True if the program contains computed atomics. Computed atomics should be present for all Atomics or, if the booleanizer is disabled, for all Signals."""
-    return all(
-        expr in context.atomic_id_map
-        for expr in program.postorder(context)
-        if (isinstance(expr, Atomic)
-            or (
-                not context.enable_booleanizer
-                and isinstance(expr, Signal)
+    """Returns True if the program contains computed atomics. Computed atomics should be present for all Atomics or, if the booleanizer is disabled, for all Signals. If the booleanizer is enabled, there must be an Atomic between each Booleanizer expression and the temporal logic expressions that use it."""
+    for expr in program.postorder(context):
+        if isinstance(expr, Atomic) or (
+            not context.enable_booleanizer and isinstance(expr, Signal)
+        ):
+            if expr not in context.atomic_id_map:
+                return False
+        elif (
+            context.enable_booleanizer
+            and expr.engine == types.R2U2Engine.TEMPORAL_LOGIC
+            and any(
+                child.engine == types.R2U2Engine.BOOLEANIZER
+                and not isinstance(child, (Atomic, Constant))
+                for child in expr.children
             )
-        )
-    )
+        ):
+            return False
+
+    return True
 
 
 def is_pure_mltl(program: Program, context: Context) -> bool:
-- 
2.43.0


From a899b646145024a48ba1ee627af5615bde9d5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 53/86] fix: report what the SMT encodings do not support

---
 compiler/c2po/sat.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..b66f556 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -215,7 +215,6 @@ def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool)
     # TODO: Remove since we do not need to decompose intervals for QF_BV encoding
     decomposed_expr = cpt.decompose_intervals(start, context)
 
-    status = True
     for expr in cpt.postorder(decomposed_expr, context):
         if expr in expr_map:
             continue
@@ -230,8 +229,7 @@ def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool)
 
         if expr.type != types.BoolType():
             log.error(f"unsupported type '{expr.type}' for expression {expr}")
-            status = False
-            continue
+            return None
 
         fun_signature = "define-fun {0} () " + bv_sort
 
@@ -388,11 +386,7 @@ def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool)
             )
         else:
             log.error(f"unsupported expression {expr}")
-            status = False
-            continue
-
-    if not status:
-        return None
+            return None
 
     if strict:
         smt_commands.append(f"(assert (bvugt {expr_map[decomposed_expr]} {zeros()}))")
@@ -431,12 +425,10 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         atomic_map[variable] = f"p_{variable}"
         smt_commands.append(f"(declare-fun p_{variable} (Int) {to_smt_type(context.variables[variable])})")
 
-    status = True
     for expr in cpt.postorder(start, context):
         if expr.type != types.BoolType() and expr.type != types.IntType():
             log.error(f"unsupported type '{expr.type}' for expression {expr}")
-            status = False
-            continue
+            return None
         
         if expr in expr_map:
             continue
@@ -582,15 +574,10 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             log.error(
                 f"release not implemented for MLTL-SAT via QF_UFLIA\n\t{expr}"
             )
-            status = False
-            continue
+            return None
         else:
             log.error(f"unsupported expression {expr}")
-            status = False
-            continue
-
-    if not status:
-        return None
+            return None
 
     if strict:
         smt_commands.append("(declare-fun len () Int)")
@@ -955,14 +942,14 @@ def to_uflia_smtlib2(
     for signal, typ in context.signals.items():
         if typ != types.BoolType() and typ != types.IntType():
             log.error(f"unsupported type '{typ}' ({signal})")
-            return ""
+            return None
         atomic_map[signal] = f"f_{signal}"
         smt_commands.append(f"(declare-fun f_{signal} (Int) {to_smt_type(typ)})")
 
     for variable, typ in context.variables.items():
         if typ != types.BoolType() and typ != types.IntType():
             log.error(f"unsupported type '{typ}' ({variable})")
-            return ""
+            return None
         atomic_map[variable] = f"p_{variable}"
         smt_commands.append(f"(declare-fun p_{variable} (Int) {to_smt_type(typ)})")
 
@@ -973,6 +960,8 @@ def to_uflia_smtlib2(
         if expr in expr_cache:
             continue
         smt_expr = expr_to_smt(expr, cnt, expr_map, expr_cache, constr_cache)
+        if not status:
+            return None
         if smt_expr == "":
             continue
         smt_commands.append(smt_expr)
-- 
2.43.0


From d5df7f46acc0a8de45ae5d02a2e9226c6e2a9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 54/86] fix: encode unary minus in QF_UFLIA

---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b66f556..ab8cd31 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -461,7 +461,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-- 
2.43.0


From b1d43a2491fdb13d28d184af3d764d62ffa08870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 55/86] fix: report a start-up file that cannot be read

---
 compiler/c2po/main.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index 24434dc..fa67b15 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -204,10 +204,13 @@ class CommandConsole(code.InteractiveConsole):
 
 def run_rc_script(console: CommandConsole) -> None:
     """Runs the given RC script file."""
-    with open(C2PO_RC_PATH, "r") as file:
-        for line in file:
-            line = line.strip()
-            console.runsource(line)
+    contents = util.read_file(str(C2PO_RC_PATH))
+    if contents is None:
+        console.return_code = command.ReturnCode.FILE_NOT_FOUND
+        return
+
+    for line in contents.splitlines():
+        console.runsource(line.strip())
 
 
 def interactive() -> command.ReturnCode:
-- 
2.43.0


From 7c5535f3e9e7f6d55efdf3d41cc2d5066580ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 56/86] fix: check the conditions a command's conditions depend
 on, at any depth

---
 compiler/c2po/command.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index ff90de0..33d938c 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -192,13 +192,16 @@ class Command:
         """
         # Recursively check all dependencies. No need for iterative approach because the dependency
         # graph is not very deep.
-        for guard in self.guards:
-            if not guard.predicate(program, context):
-                return guard
-            for dependency in GUARD_DEPENDENCIES[guard]:
-                if not dependency.predicate(program, context):
+        def failed_guard(guards: list[CommandGuard]) -> Optional[CommandGuard]:
+            for guard in guards:
+                if not guard.predicate(program, context):
+                    return guard
+                dependency = failed_guard(GUARD_DEPENDENCIES[guard])
+                if dependency is not None:
                     return dependency
-        return None
+            return None
+
+        return failed_guard(self.guards)
 
     def parse_args(self, args: list[str]) -> dict[str, Any]:
         """
-- 
2.43.0


From 2491c9982c32ea191438b82d3bc0e64a98e4a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 57/86] fix: give QF_UFLIA traces the length the formula needs

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index ab8cd31..2bb158e 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -583,8 +583,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From 1a914eb87af0c5d0c6f81f86dd37a7463fba47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 58/86] fix: take the length of every operand in the UFLIA
 encoding

---
 compiler/c2po/sat.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 2bb158e..937befb 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -860,7 +860,7 @@ def to_uflia_smtlib2(
 
         for expr in cpt.postorder(expr_, context):
             if expr in cplen_cache:
-                return cplen_cache[expr]
+                continue
 
             if isinstance(expr, cpt.Atomic):
                 cplen = cplen_cache[expr.children[0]]
@@ -875,9 +875,13 @@ def to_uflia_smtlib2(
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From 1fe35969cefd77b811db7ac68c13ab040cead69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 59/86] fix: require a future step to exist in the UFLIA
 encoding

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 937befb..5708031 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -787,9 +787,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -798,9 +798,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From bc91ee69826d046ad5f48ba2c3dfb06b680fe28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 60/86] fix: encode every operand of sums and products for the
 SMT solver

---
 compiler/c2po/sat.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 5708031..3f6c605 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -458,17 +458,19 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif isinstance(expr, (cpt.Signal, cpt.Variable)):
             smt_commands.append(f"({fun_signature} ({atomic_map[expr.symbol]} k))")
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_ADD):
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
             smt_commands.append(
-                f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} (+ {operands}))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MULTIPLY):
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} (* {operands}))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
@@ -707,15 +709,17 @@ def to_uflia_smtlib2(
         elif isinstance(expr, cpt.Atomic):
             return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_ADD):
-            return f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
+            return f"({fun_signature} (+ {operands}))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 1:
             # FIXME: Somewhere arithmetic negation is being encoded as arithmetic subtract with one operand
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MULTIPLY):
+            operands = " ".join([f"({expr_map[child]} k len)" for child in expr.children])
             is_nonlinear = True
-            return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (* {operands}))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
-- 
2.43.0


From 61271dfb296b6bbb21aab30eaeb5020520a893d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 61/86] fix: let the SMT encodings divide as the monitor does

---
 compiler/c2po/sat.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 3f6c605..1758154 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -473,14 +473,15 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
                 f"({fun_signature} (* {operands}))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
+            # the monitor rounds towards zero, 'div' and 'mod' round so that the remainder is not negative
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} (ite (>= ({expr_map[expr.children[0]]} k len) 0) (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)) (- (div (- ({expr_map[expr.children[0]]} k len)) ({expr_map[expr.children[1]]} k len)))))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} (ite (>= ({expr_map[expr.children[0]]} k len) 0) (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)) (- (mod (- ({expr_map[expr.children[0]]} k len)) ({expr_map[expr.children[1]]} k len)))))"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             smt_commands.append(
@@ -721,11 +722,12 @@ def to_uflia_smtlib2(
             is_nonlinear = True
             return f"({fun_signature} (* {operands}))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
+            # the monitor rounds towards zero, 'div' and 'mod' round so that the remainder is not negative
             is_nonlinear = True
-            return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (ite (>= ({expr_map[expr.children[0]]} k len) 0) (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)) (- (div (- ({expr_map[expr.children[0]]} k len)) ({expr_map[expr.children[1]]} k len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
-            return f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (ite (>= ({expr_map[expr.children[0]]} k len) 0) (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)) (- (mod (- ({expr_map[expr.children[0]]} k len)) ({expr_map[expr.children[1]]} k len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-- 
2.43.0


From a4145adfd9c706afa30aba3bed440a3331ebd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 62/86] fix: use the SMT solver that was set with
 set_smt_solver_path

---
 compiler/c2po/eqsat.py |  2 +-
 compiler/c2po/sat.py   | 29 ++++++++++++++++-------------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 4ff23f2..1b33b3b 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -585,7 +585,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
 
         if sat_result is sat.SatResult.UNSAT:
diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 1758154..0d4b50f 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -6,7 +6,7 @@ import pathlib
 import shutil
 import tempfile
 from typing import cast, Any, Optional
-from c2po import cpt, log, util, types, stats, command
+from c2po import cpt, log, util, types, command
 
 PREAMBLE = f"""(set-info :source |SMT encoding for satisfiability checking of Mission-time Linear Temporal Logic (MLTL) formulas.
 Encoded by C2PO v{log.VERSION}, see https://github.com/R2U2/r2u2/tree/develop/compiler.|)"""
@@ -28,12 +28,15 @@ class SMTTheory(enum.Enum):
     QF_UFLIA = "qf_uflia"
     QF_BV = "qf_bv"
 
-def find_smt_solver() -> Optional[str]:
-    """Finds the SMT solver in the PATH. Returns the path to the SMT solver if found, otherwise returns None."""
+def find_smt_solver(context: cpt.Context) -> Optional[str]:
+    """Finds the SMT solver by checking the context first, then checking PATH. Returns the path to the SMT solver if found, otherwise returns None."""
+    if context.smt_solver_path is not None:
+        return context.smt_solver_path if util.check_executable(context.smt_solver_path) else None
+
     for solver in ["z3", "cvc5", "yices-smt2", "mathsat", "bitwuzla"]:
         smt_solver_path = shutil.which(solver)
-        if smt_solver_path is not None:
-            return smt_solver_path if util.check_executable(smt_solver_path) else None
+        if smt_solver_path is not None and util.check_executable(smt_solver_path):
+            return smt_solver_path
     return None
 
 def run_smt_solver(
@@ -41,12 +44,12 @@ def run_smt_solver(
     theory: SMTTheory,
     max_time: int,
     max_memory: int,
-    stats: stats.Stats,
+    context: cpt.Context,
 ) -> SatResult:
     """Runs the SMT solver on the given SMT-LIB2 encoding string and returns the result."""
     log.debug(2, "running SMT solver.")
 
-    smt_solver_path = find_smt_solver()
+    smt_solver_path = find_smt_solver(context)
     if smt_solver_path is None:
         log.error("could not find SMT solver")
         return SatResult.FAILURE
@@ -152,9 +155,9 @@ def run_smt_solver(
         log.debug(2, "unknown")
         result = SatResult.UNKNOWN
 
-    stats.smt_solver_time += end_time - start_time
-    stats.smt_num_calls += 1
-    stats.smt_solver_result = result.value
+    context.stats.smt_solver_time += end_time - start_time
+    context.stats.smt_num_calls += 1
+    context.stats.smt_solver_result = result.value
 
     return result
 
@@ -1166,7 +1169,7 @@ def check_sat(program: cpt.Program, context: cpt.Context, options: dict[str, Any
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
         status = status and check_sat_result(result)
         spec_str_reference = cpt.get_spec_str_reference(spec)
@@ -1197,7 +1200,7 @@ def check_sat(program: cpt.Program, context: cpt.Context, options: dict[str, Any
         theory,
         options["smt_max_time"],
         options["smt_max_memory"],
-        context.stats,
+        context,
     )
     status = status and check_sat_result(result)
 
@@ -1405,7 +1408,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
         status = status and check_sat_result(result)
         spec_str_reference = f"{cpt.get_spec_str_reference(spec1)} = {cpt.get_spec_str_reference(spec2)}"
-- 
2.43.0


From dcef4fd59093280928b4821f47d4d6b055f1487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 63/86] fix: reject executables that cannot run or do not
 answer

---
 compiler/c2po/util.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/util.py b/compiler/c2po/util.py
index 79d11c1..df47d29 100644
--- a/compiler/c2po/util.py
+++ b/compiler/c2po/util.py
@@ -14,13 +14,19 @@ def check_executable(executable: str) -> bool:
         return False
     if not pathlib.Path(executable).is_file():
         return False
-    try:
-        proc1 = subprocess.run([executable, "--version"], capture_output=True)
-        proc2 = subprocess.run([executable, "-version"], capture_output=True)
-        proc3 = subprocess.run([executable, "-v"], capture_output=True)
-        return proc1.returncode == 0 or proc2.returncode == 0 or proc3.returncode == 0
-    except FileNotFoundError:
-        return False
+    for option in ("--version", "-version", "-v"):
+        try:
+            proc = subprocess.run(
+                [executable, option],
+                stdin=subprocess.DEVNULL,
+                capture_output=True,
+                timeout=10,
+            )
+        except (OSError, subprocess.SubprocessError):
+            return False
+        if proc.returncode == 0:
+            return True
+    return False
 
 def read_file(filename: str) -> Optional[str]:
     """Read the contents of a file and return it as a string."""
-- 
2.43.0


From a183083f09ef99d3d044e6ec4b33e264a4820cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 64/86] fix: report an SMT solver that cannot be started and
 reap one that times out

---
 compiler/c2po/sat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 0d4b50f..35e06a9 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -81,14 +81,15 @@ def run_smt_solver(
                 stdout=subprocess.PIPE,
                 stderr=subprocess.PIPE,
             )
-        except OSError as e:
-            log.internal(f"error running command '{' '.join(command)}': {e}")
+        except (OSError, subprocess.SubprocessError) as e:
+            log.error(f"error running command '{' '.join(command)}': {e}")
             return SatResult.FAILURE
 
         try:
             (stdout, stderr) = proc.communicate(timeout=max_time)
         except subprocess.TimeoutExpired:
             proc.kill()
+            proc.communicate()
             log.warning(f"{smt_solver_path} timed out")
             return SatResult.TIMEOUT
     
-- 
2.43.0


From cd31c84b6fa7ef96c70da4a0645efc1da4862247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 65/86] fix: take only an answer for an answer of the SMT
 solver

---
 compiler/c2po/sat.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 35e06a9..9255e26 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -94,8 +94,8 @@ def run_smt_solver(
             return SatResult.TIMEOUT
     
     end_time = util.get_children_rusage_time()
-    stdout = stdout.decode() if stdout else ""
-    stderr = stderr.decode() if stderr else ""
+    stdout = stdout.decode(errors="replace") if stdout else ""
+    stderr = stderr.decode(errors="replace") if stderr else ""
 
     if proc.returncode != 0:
         # z3 memout: 
@@ -146,10 +146,15 @@ def run_smt_solver(
         log.debug(2, "stderr:" + stderr[:-1])
         return SatResult.FAILURE
 
-    if stdout.find("unsat") > -1:
+    lines = [line.strip() for line in stdout.splitlines()]
+    if any(line.startswith("(error") for line in lines):
+        log.error(f"{smt_solver_path} failed: {stdout.strip()}")
+        return SatResult.FAILURE
+
+    if "unsat" in lines:
         log.debug(2, "unsat")
         result = SatResult.UNSAT
-    elif stdout.find("sat") > -1:
+    elif "sat" in lines:
         log.debug(2, "sat")
         result = SatResult.SAT
     else:
-- 
2.43.0


From 8df39c40618b6b799261c35e34faca607846072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 66/86] fix: do not call formulas equivalent that could not be
 encoded

---
 compiler/c2po/sat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 9255e26..45a7092 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1407,6 +1407,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
         if equiv_smt is None:
             log.error("failed to generate SMT encoding for equivalence", spec1.loc)
             status = False
+            equiv = equiv if equiv == EquivResult.NOT_EQUIV else EquivResult.UNKNOWN
             continue
 
         result = run_smt_solver(
-- 
2.43.0


From 77437864300a7cd9863f536123e4073a5a2364a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:28 +0000
Subject: [PATCH 67/86] fix: keep the old file when there is no equivalence to
 write

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 45a7092..0f98569 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1296,6 +1296,10 @@ def write_equiv_smt(program: cpt.Program, context: cpt.Context, options: dict[st
     Returns:
         a ReturnCode.SUCCESS if the encoding was written successfully, ReturnCode.ERROR otherwise
     """
+    if len(program.ft_spec_set.get_specs()) == 1:
+        log.warning("only one formula in the program, nothing to do")
+        return command.ReturnCode.SUCCESS
+
     # Setup the output location
     # If the location is a file, we will overwrite it
     # If the location is a directory and already exists, we will write the encodings to it
@@ -1309,10 +1313,6 @@ def write_equiv_smt(program: cpt.Program, context: cpt.Context, options: dict[st
 
     theory = SMTTheory(options["theory"])
 
-    if len(program.ft_spec_set.get_specs()) == 1:
-        log.warning("only one formula in the program, nothing to do")
-        return command.ReturnCode.SUCCESS
-
     if len(program.ft_spec_set.get_specs()) > 2:
         output_is_dir = True
 
-- 
2.43.0


From 005fda97b34544eccabedbcbc67990804c16e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 68/86] fix: keep the names of signals and subformulas apart in
 SMT encodings

---
 compiler/c2po/sat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 0f98569..189014c 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -232,7 +232,7 @@ def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool)
             expr_map[expr] = expr_map[expr.children[0]]
             continue
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"f.e{cnt}"
         cnt += 1
         expr_map[expr] = expr_id
 
@@ -446,7 +446,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             expr_map[expr] = expr_map[expr.children[0]]
             continue
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"f.e{cnt}"
         cnt += 1
         expr_map[expr] = expr_id
 
@@ -698,7 +698,7 @@ def to_uflia_smtlib2(
             expr_map[expr] = expr_map[expr_cache[str(expr)]]
             return ""
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"f.e{cnt}"
         expr_map[expr] = expr_id
         expr_cache[str(expr)] = expr
 
-- 
2.43.0


From 630eb6588170144ede19d2a99aa4a23a623e1edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 69/86] fix: multiply before adding in the constraints of an
 equivalence

---
 compiler/c2po/parse_equiv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index e0d187b..86542fb 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -96,7 +96,8 @@ class MLTLEquivParser(sly.Parser):
         ("left", TL_UNTIL, TL_RELEASE),
         ("left", REL_EQ, REL_NEQ),
         ("left", REL_GT, REL_LT, REL_GTE, REL_LTE),
-        ("left", ARITH_ADD, ARITH_SUB, ARITH_MUL, ARITH_DIV),
+        ("left", ARITH_ADD, ARITH_SUB),
+        ("left", ARITH_MUL, ARITH_DIV),
         ("right", LOG_NEG, TL_GLOBAL, TL_FUTURE),
         ("right", LPAREN, MIN, MAX)
     )
-- 
2.43.0


From a718ed560f946d943d685ff4cddfaac84c3bf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 70/86] fix: read an equality saturation result without
 touching other formulas

Reading the output of egglog removed every parent outside the new expression from the atomics in it, also those in
other formulas and, if the output is not used, in this one, so that queues became too short. A result that is a
single atomic, and atomics that do not exist, ended in an exception.
---
 compiler/c2po/cpt.py                 |  9 +++++++++
 compiler/c2po/eqsat.py               | 12 +++++++++++-
 compiler/c2po/parse_egglog_output.py | 26 +++++++++++---------------
 3 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index e7a9b9d..650934e 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1698,6 +1698,15 @@ def compute_propagation_delays(program: Program, context: Context) -> None:
         if isinstance(expr, Operator):
             expr.compute_propagation_delay()
 
+def compute_parents(program: Program, context: Context) -> None:
+    """Computes the parents of each expression in `program` anew, needs to be done after building expressions that share nodes with `program` but are not (or no longer) part of it."""
+    exprs = list(program.postorder(context))
+    for expr in exprs:
+        expr.parents = set()
+    for expr in exprs:
+        for child in expr.children:
+            child.parents.add(expr)
+
 def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expression]) -> Expression:
     """
     Deeply copies an expression `start` using the given context `context` and memo dictionary `memo`.
diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 1b33b3b..c9077fd 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -424,6 +424,9 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
     status = True
 
     for formula in program.ft_spec_set.get_specs():
+        # the last result shares nodes with the program whether or not it became part of it
+        cpt.compute_parents(program, context)
+
         if isinstance(formula, cpt.Contract):
             log.warning("found contract, skipping")
             continue
@@ -609,6 +612,13 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
     log.debug(2, f"post EQSat:\n{repr(program)}")
     return command.ReturnCode.SUCCESS if status else command.ReturnCode.ERROR
 
+def optimize_eqsat_and_compute_parents(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
+    """Performs `optimize_eqsat`, then drops what is left of results from the parents of the expressions in `program`."""
+    try:
+        return optimize_eqsat(program, context, options)
+    finally:
+        cpt.compute_parents(program, context)
+
 optimize_eqsat_command = command.Command(
     name="optimize_eqsat",
     description="Optimize the program via EQSat",
@@ -766,7 +776,7 @@ optimize_eqsat_command = command.Command(
             "choices": None,
         }
     ],
-    func=optimize_eqsat,
+    func=optimize_eqsat_and_compute_parents,
     guards=[command.COMPUTED_ATOMICS],
 )
 command.CommandRegistry.register(optimize_eqsat_command)
\ No newline at end of file
diff --git a/compiler/c2po/parse_egglog_output.py b/compiler/c2po/parse_egglog_output.py
index 97068ec..191d63b 100644
--- a/compiler/c2po/parse_egglog_output.py
+++ b/compiler/c2po/parse_egglog_output.py
@@ -175,26 +175,22 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
     if not parser.status:
         return None
 
-    exprs_in_use: set[cpt.Expression] = set()
-    for expr in cpt.postorder(output, context):
-        exprs_in_use.add(expr)
-
     # Replace atomics with their corresponding expressions
-    for expr in cpt.postorder(output, context):
+    for expr in list(cpt.postorder(output, context)):
         if not isinstance(expr, cpt.Signal):
             continue
 
-        aid = int(str(expr)[1:]) # atomics are of the form 'a<id>'
-        new_expr = context.atomic_expr_map[aid]
-        expr.replace(new_expr)
+        # atomics are of the form 'a<id>'
+        aid = expr.symbol[1:] if expr.symbol.startswith("a") else ""
+        new_expr = context.atomic_expr_map.get(int(aid)) if aid.isdecimal() else None
+        if new_expr is None:
+            log.error(f"unknown atomic '{expr.symbol}' in egglog output")
+            return None
 
-        # Clear unused parents of atomic expression from the original expression
-        to_remove = set()
-        for parent in new_expr.parents:
-            if parent not in exprs_in_use:
-                to_remove.add(parent)
-        for parent in to_remove:
-            new_expr.parents.remove(parent)
+        if expr is output:
+            output = new_expr
+        expr.type = new_expr.type
+        expr.replace(new_expr)
 
     # Compute types for the new expression
     if not type_check.type_check_expr(output, context, options):
-- 
2.43.0


From bb7b1fbce32eb4f5f5a34940fc1f2cbef82792b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 71/86] fix: report an egglog that cannot be started and reap
 one that times out

---
 compiler/c2po/eqsat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index c9077fd..69b18af 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -223,14 +223,15 @@ def run_egglog(
                 stdout=subprocess.PIPE,
                 stderr=subprocess.PIPE,
             )
-        except OSError as e:
-            log.internal(f"error running command '{' '.join(command)}': {e}")
+        except (OSError, subprocess.SubprocessError) as e:
+            log.error(f"error running command '{' '.join(command)}': {e}")
             return "", {}, "failure", -1.0
 
         try:
             (stdout, stderr) = proc.communicate(timeout=max_time)
         except subprocess.TimeoutExpired:
             proc.kill()
+            proc.communicate()
             log.warning(f"{egglog_bin} timed out")
             return "", {}, "timeout", -1.0
 
-- 
2.43.0


From 3f4efdd33d2ee97bf65bf085edf360ca3611c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 72/86] fix: report egglog output that cannot be read

---
 compiler/c2po/eqsat.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 69b18af..79412f5 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -238,17 +238,29 @@ def run_egglog(
         end_time = util.get_children_rusage_time()
 
         if proc.returncode == -6:
-            log.error(f"error running egglog (out of memory)\n{stderr.decode()}")
+            log.error(f"error running egglog (out of memory)\n{stderr.decode(errors='replace')}")
             return "", {}, "memout", -1.0
         elif proc.returncode != 0:
-            log.error(f"error running egglog ({proc.returncode})\n{stderr.decode()}")
+            log.error(f"error running egglog ({proc.returncode})\n{stderr.decode(errors='replace')}")
             return "", {}, "failure", -1.0
 
         json_output_path = pathlib.Path(temp_dir) / "tmp.json"
-        with open(json_output_path, "r") as f:
-            json_output = json.loads(f.read())
+        try:
+            with open(json_output_path, "r") as f:
+                json_output = json.loads(f.read())
+        except (OSError, ValueError) as e:
+            log.error(f"error reading egglog output: {e}")
+            return "", {}, "failure", -1.0
+
+    if (
+        not isinstance(json_output, dict)
+        or not all(isinstance(json_output.get(key, {}), dict) for key in ("nodes", "class_data"))
+        or not all(isinstance(node, dict) and isinstance(node.get("op"), str) for node in json_output.get("nodes", {}).values())
+    ):
+        log.error("error reading egglog output: not an e-graph")
+        return "", {}, "failure", -1.0
 
-    return stdout.decode(), json_output, "ok", end_time - start_time
+    return stdout.decode(errors="replace"), json_output, "ok", end_time - start_time
 
 def write_eqsat_encoding(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """Writes the EQSat encoding for the program to the given file.
-- 
2.43.0


From 4857e7950d04fdd6d4a43a8eb2f031f0c35fa45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 73/86] fix: fail if any result of equality saturation is not
 equivalent

The status of the next formula's egglog run overwrote it.
---
 compiler/c2po/eqsat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 79412f5..f27dde7 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -455,7 +455,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             return command.ReturnCode.ERROR
 
         old = formula.get_expr()
-        egglog_output, json_output, status, time = run_egglog(
+        egglog_output, json_output, egglog_status, time = run_egglog(
             egglog_encoding,
             options["egglog_max_time"],
             options["egglog_max_memory"],
@@ -463,12 +463,12 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             options["extraction_method"] == "greedy", # Use experimental egglog if we are using greedy extraction
         )
         context.stats.eqsat_solver_time += time
-        context.stats.eqsat_solver_status = status
-        if status == "timeout":
+        context.stats.eqsat_solver_status = egglog_status
+        if egglog_status == "timeout":
             return command.ReturnCode.SUCCESS
-        elif status == "memout":
+        elif egglog_status == "memout":
             return command.ReturnCode.SUCCESS
-        elif status != "ok":
+        elif egglog_status != "ok":
             log.warning(f"eqsat failed for {formula.symbol}, skipping")
             continue
 
-- 
2.43.0


From 86d3dc39b2bc9e9cfcd3fc7e3db942a137cb3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 74/86] fix: reject egglog output with illegal characters

They were reported but skipped: (Interval 0 -1) became [0,1].
---
 compiler/c2po/parse_egglog_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_egglog_output.py b/compiler/c2po/parse_egglog_output.py
index 191d63b..b5c3fae 100644
--- a/compiler/c2po/parse_egglog_output.py
+++ b/compiler/c2po/parse_egglog_output.py
@@ -53,8 +53,10 @@ class EgglogOutputLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -172,7 +174,7 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
     parser: EgglogOutputParser = EgglogOutputParser("")
     output: cpt.Expression = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     # Replace atomics with their corresponding expressions
-- 
2.43.0


From d74bc0919b2331e3c3a5b73c9427c795db2cb155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 75/86] fix: fail after a result that is not equivalent also if
 a later run times out

---
 compiler/c2po/eqsat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index f27dde7..06aec6c 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -465,9 +465,9 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
         context.stats.eqsat_solver_time += time
         context.stats.eqsat_solver_status = egglog_status
         if egglog_status == "timeout":
-            return command.ReturnCode.SUCCESS
+            return command.ReturnCode.SUCCESS if status else command.ReturnCode.ERROR
         elif egglog_status == "memout":
-            return command.ReturnCode.SUCCESS
+            return command.ReturnCode.SUCCESS if status else command.ReturnCode.ERROR
         elif egglog_status != "ok":
             log.warning(f"eqsat failed for {formula.symbol}, skipping")
             continue
-- 
2.43.0


From ec107d497cb5fec79322c85a08470d591ff838ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 76/86] fix: do not put the result of equality saturation into
 itself

A specification that is a single atomic was replaced in all its parents, also those inside the result.
---
 compiler/c2po/eqsat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 06aec6c..b3074ac 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -444,6 +444,10 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             log.warning("found contract, skipping")
             continue
 
+        if formula.get_expr() in context.atomic_id_map:
+            # nothing to optimize, and a result that contains the atomic would be put into itself
+            continue
+
         if options["extraction_method"] == "ilp":
             options["greedy_extraction"] = False
         else:
-- 
2.43.0


From 47163fa98fbde3d94ab196eb7fc560b2878c86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 77/86] fix: let the command line's --eqsat, --egglog-path and
 --smt-solver work

The atomics that optimize_eqsat needs were not computed, so --eqsat always failed; a path ended in options that
optimize_eqsat does not have, and check_sat never saw the solver.
---
 compiler/c2po/main.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index fa67b15..35be805 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -295,6 +295,10 @@ def cli(
         script_lines.append(f"set_mission_time {mission_time}")
     if debug:
         script_lines.append("set_debug")
+    if egglog_path:
+        script_lines.append(f"set_egglog_path {egglog_path}")
+    if smt_solver_path:
+        script_lines.append(f"set_smt_solver_path {smt_solver_path}")
 
     spec_path = pathlib.Path(spec_filename)
     if spec_path.suffix == ".c2po":
@@ -320,6 +324,7 @@ def cli(
     script_lines.append("desugar")
     
     if enable_eqsat:
+        script_lines.append("compute_atomics")
         cmd = f"optimize_eqsat --egglog-max-time {eqsat_max_time} --egglog-max-memory {eqsat_max_memory} " \
                   f"--num-gurobi-threads {num_gurobi_threads} " \
                   f"--theory {smt_theory} --smt-max-time {smt_max_time} --smt-max-memory {smt_max_memory} " \
@@ -328,9 +333,7 @@ def cli(
                   f"--{'no-' if not enable_eqsat_associative else ''}associative " \
                   f"--{'no-' if not enable_eqsat_commutative else ''}commutative " \
                   f"--{'no-' if not enable_eqsat_multi_arity else ''}multi-arity " \
-                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal" \
-                  f"{f'--egglog-bin {egglog_path}' if egglog_path else ''} " \
-                  f"{f'--smt-solver-path {smt_solver_path}' if smt_solver_path else ''}"
+                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal"
         script_lines.append(cmd)
     elif enable_rewrite:
         script_lines.append("optimize_rewrites")
-- 
2.43.0


From c9c4ae2118a5777dccf1164de33e8302bf3e0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 78/86] fix: use the executable given with optimize_eqsat's
 --egglog-bin

---
 compiler/c2po/eqsat.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index b3074ac..403b7a1 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -189,6 +189,7 @@ def run_egglog(
     max_memory: int,
     context: cpt.Context,
     use_experimental_egglog: bool = False,
+    egglog_bin: Optional[str] = None,
 ) -> tuple[str, dict, str, float]:
     """Runs egglog on the given egglog encoding file and returns the result as a string and the time taken.
     
@@ -198,11 +199,15 @@ def run_egglog(
         `max_memory`: The maximum memory to allow for egglog in MB, use 0 for no maximum
         `context`: The context to use for finding the egglog executable
         `use_experimental_egglog`: Whether to use the experimental egglog executable
+        `egglog_bin`: The path to the egglog executable, searched for if not given
 
     Returns:
         A tuple containing the egglog output, the status of the egglog run, and the time taken
     """
-    egglog_bin = find_egglog(context, use_experimental_egglog) 
+    if egglog_bin is None:
+        egglog_bin = find_egglog(context, use_experimental_egglog)
+    elif not util.check_executable(egglog_bin):
+        egglog_bin = None
     if egglog_bin is None:
         log.error("could not find egglog executable, please set the `egglog-path` option")
         return "", {}, "failure", -1.0
@@ -465,6 +470,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             options["egglog_max_memory"],
             context,
             options["extraction_method"] == "greedy", # Use experimental egglog if we are using greedy extraction
+            options["egglog_bin"],
         )
         context.stats.eqsat_solver_time += time
         context.stats.eqsat_solver_status = egglog_status
-- 
2.43.0


From 674946f4fba0c101a503858454cbfab645703af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:44 +0000
Subject: [PATCH 79/86] fix: let equivalence problems use propositions

---
 compiler/c2po/cpt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 650934e..32f0e12 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2399,11 +2399,15 @@ def is_desugared(program: Program, context: Context) -> bool:
                 StructAccess,
                 ArrayIndex,
                 SetAggregation,
-                Variable,
                 Contract,
             ),
         ):
             return False
+        # The propositions of an equivalence are variables as well, there is nothing to resolve about them
+        if isinstance(expr, Variable) and (
+            expr.symbol not in context.variables or expr.symbol in context.definitions
+        ):
+            return False
     return True
 
 def has_valid_scq_sizes(program: Program, context: Context) -> bool:
-- 
2.43.0


From ba207ea8c0bd162838ba49cb3d0c75cde8234d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 80/86] fix: share the operands of maxima in the UFLIA encoding

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 189014c..38ede81 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -621,10 +621,10 @@ def to_uflia_smtlib2(
     status: bool = True
 
     def smt_min_expr(expr1: str, expr2: str) -> str:
-        return f"(ite (<= {expr1} {expr2}) {expr1} {expr2})"
+        return f"(let ((min.l {expr1}) (min.r {expr2})) (ite (<= min.l min.r) min.l min.r))"
 
     def smt_max_expr(expr1: str, expr2: str) -> str:
-        return f"(ite (>= {expr1} {expr2}) {expr1} {expr2})"
+        return f"(let ((max.l {expr1}) (max.r {expr2})) (ite (>= max.l max.r) max.l max.r))"
 
     def interval_constraint_to_smt(constraint: cpt.Expression, cache: dict[cpt.Expression, str]) -> str:
         nonlocal is_nonlinear
@@ -924,7 +924,7 @@ def to_uflia_smtlib2(
                 else: 
                     expr = cast(cpt.TemporalOperator, expr)
                     ub = expr.interval.ub
-                cplen = f"(+ (ite (> (- {cplen_cache[expr.children[0]]} 1) {cplen_cache[expr.children[1]]}) {cplen_cache[expr.children[0]]} {cplen_cache[expr.children[1]]}) {ub})"
+                cplen = f"(+ {smt_max_expr(f'(- {cplen_cache[expr.children[0]]} 1)', cplen_cache[expr.children[1]])} {ub})"
             elif cpt.is_operator(expr, cpt.OperatorKind.RELEASE):
                 if isinstance(expr, cpt.SymbolicTemporalOperator):
                     expr = cast(cpt.SymbolicTemporalOperator, expr)
@@ -932,7 +932,7 @@ def to_uflia_smtlib2(
                 else: 
                     expr = cast(cpt.TemporalOperator, expr)
                     ub = expr.interval.ub
-                cplen = f"(+ (ite (> (- {cplen_cache[expr.children[0]]} 1) {cplen_cache[expr.children[1]]}) {cplen_cache[expr.children[0]]} {cplen_cache[expr.children[1]]}) {ub})"
+                cplen = f"(+ {smt_max_expr(f'(- {cplen_cache[expr.children[0]]} 1)', cplen_cache[expr.children[1]])} {ub})"
             else:
                 log.error(f"unsupported expression {expr}")   
                 status = False
-- 
2.43.0


From 5df4e3ef55a9d44a3604a49c7049230cdd1d65bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 81/86] fix: compute constants and equivalences for every bit
 of a Sabre word

---
 compiler/c2po/sabre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 85d8b82..7f8f606 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -54,7 +54,7 @@ def gen_code(
         # check if expr is a constant true/false
         if isinstance(expr, cpt.Constant) and expr.value in [True, False]:
             return line(
-                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {int(expr.value)};", indent
+                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {'~0' if expr.value else '0'};", indent
             )
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             return line(
@@ -83,7 +83,7 @@ def gen_code(
             rhs = expr.children[1]
             return line(
                 f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = "
-                f"({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] == {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
+                f"~ ({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] ^ {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_XOR):
             lhs = expr.children[0]
-- 
2.43.0


From b56858f79b751323ac7a9a2b299751777ebb8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 82/86] fix: shift Sabre buffers by more than a word and stay
 inside them

---
 compiler/c2po/sabre.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 7f8f606..bab8146 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -209,6 +209,17 @@ int read_inputs(FILE *f, int (*abuf)[{nsigs}], uint{word_size}_t (*atomics)[{nsi
     
     log_word_size = int(math.log2(word_size))
     code += f"""
+// Word `i` of `buf` shifted by `shift` time steps. The steps after the end of `buf` are not needed for the result.
+static uint{word_size}_t shifted(uint{word_size}_t *buf, uint64_t nbuf, uint64_t i, uint64_t shift)
+{{
+    uint64_t rest = shift & {word_size - 1};
+    uint{word_size}_t lo, hi;
+    i += shift >> {log_word_size};
+    lo = (i < nbuf) ? buf[i] : 0;
+    hi = (i + 1 < nbuf) ? buf[i+1] : 0;
+    return (rest == 0) ? lo : (lo << rest) | (hi >> ({word_size} - rest));
+}}
+
 uint{word_size}_t future(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t nbuf, uint64_t word, uint64_t word_wpd, uint64_t lb, uint64_t ub) 
 {{
     uint64_t i, j;
@@ -237,9 +248,7 @@ uint{word_size}_t future(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
         for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+            buf[i] |= shifted(buf, nbuf, i, leftover_shift);
         }}
     }} 
   
@@ -274,9 +283,7 @@ uint{word_size}_t global(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
         for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+            buf[i] &= shifted(buf, nbuf, i, leftover_shift);
         }}
     }} 
     
@@ -320,12 +327,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
         for(i = 0; i < nbuf; ++i) {{ 
-            buf2[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i] & buf2[i + (leftover_shift >> {log_word_size})] :
-                buf1[i] & ((buf2[i] << leftover_shift) | (buf2[i+1] >> ({word_size} - leftover_shift)));
-            buf1[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i + (leftover_shift >> {log_word_size})] :
-                (buf1[i] << leftover_shift) | (buf1[i+1] >> ({word_size} - leftover_shift));
+            buf2[i] |= buf1[i] & shifted(buf2, nbuf, i, leftover_shift);
         }}
     }} 
 
-- 
2.43.0


From ca3e7461a2b858aaa4a5589ef166dba45bf8a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 83/86] fix: look only as far as the interval in Sabre's until

---
 compiler/c2po/sabre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index bab8146..38eacc4 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -308,7 +308,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
             );
     }}
 
-    for(j = 1; j <= (({word_size // 2} < ((ub + 1) >> 1)) ? {word_size // 2} : (ub + 1) >> 1); j <<= 1) {{
+    for(j = 1; j <= (({word_size // 2} < ((ub - lb + 1) >> 1)) ? {word_size // 2} : (ub - lb + 1) >> 1); j <<= 1) {{
         for(i = 0; i < nbuf - 1; ++i) {{
             buf2[i] |= buf1[i] & ((buf2[i] << j) | (buf2[i+1] >> ({word_size} - j)));
             buf1[i] &= (buf1[i] << j) | (buf1[i+1] >> ({word_size} - j));
@@ -317,7 +317,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
         buf1[nbuf - 1] &= buf1[nbuf - 1] << j;
     }}
 
-    for(; j <= (ub + 1) >> 1; j <<= 1) {{
+    for(; j <= (ub - lb + 1) >> 1; j <<= 1) {{
         for(i = 0; (i + (j >> {log_word_size})) < nbuf; ++i) {{
             buf2[i] |= buf1[i] & buf2[i + (j >> {log_word_size})];
             buf1[i] &= buf1[i + (j >> {log_word_size})];
-- 
2.43.0


From 5439a5f3207543e8fbc708aa6f57c29eb3ed0ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 84/86] fix: read whole words in Sabre's raw bytes mode

---
 compiler/c2po/sabre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 38eacc4..9196355 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -380,7 +380,7 @@ int main(int argc, char const *argv[])
         #   T=3: a0 = 0x07, a1 = 0x08
         code += f"""
         for (int i = 0; i < {nsigs}; ++i) {{
-            if(read(STDIN_FILENO, &atomics[i][word % {size[formula]}], {word_size // 8}) != {word_size // 8}) {{
+            if(fread(&atomics[i][word % {size[formula]}], {word_size // 8}, 1, stdin) != 1) {{
                 return 0;
             }}
         }}
-- 
2.43.0


From 6f63638a660870793bfcf53d923965bb0f52526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 85/86] fix: read as many signals as the Sabre formula's
 columns need

---
 compiler/c2po/sabre.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 9196355..0df2223 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -1,4 +1,5 @@
 import math
+import re
 from typing import cast, Any
 
 from c2po import cpt, command, log
@@ -15,6 +16,12 @@ def hexlit(value: int, word_size: int) -> str:
 def line(s: str, indent: int = 0) -> str:
     return f"{TAB*indent}{s}\n"
 
+def get_column(signal: cpt.Signal) -> int:
+    """Returns the input column of `signal`, which is the number in its name as in the MLTL standard (`a0`, `a1`, ...)."""
+    if re.fullmatch(r"a[0-9]+", signal.symbol) is None:
+        raise ValueError(f"signal '{signal.symbol}' is not of the form 'a0', 'a1', ...")
+    return int(signal.symbol[1:])
+
 def gen_code(
     formula: cpt.Expression,
     context: cpt.Context,
@@ -133,8 +140,7 @@ def gen_code(
     cnt = 0
     for expr in cpt.postorder(formula, context):
         if isinstance(expr, cpt.Signal):
-            aid = int(str(expr)[1:])
-            fid[expr] = f"atomics[{aid}]"
+            fid[expr] = f"atomics[{get_column(expr)}]"
         else:
             fid[expr] = f"f_{cnt}"
             cnt += 1
@@ -451,11 +457,6 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
     Returns:
         A ReturnCode.SUCCESS if the Sabre code was generated successfully, ReturnCode.ERROR otherwise.
     """
-    if options["nsigs"] == -1:
-        nsigs = program.get_num_signals(context)
-    else:
-        nsigs = options["nsigs"]
-    
     spec = None
     if options["formula"] is None:
         for spec_ in program.ft_spec_set.get_specs():
@@ -486,8 +487,14 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
                 return command.ReturnCode.ERROR
 
     try:
+        columns = [get_column(e) for e in cpt.postorder(spec.get_expr(), context) if isinstance(e, cpt.Signal)]
+        nsigs = max(columns, default=-1) + 1 if options["nsigs"] == -1 else options["nsigs"]
+        if nsigs < 1:
+            raise ValueError("there are no signals to read")
+        if nsigs <= max(columns, default=-1):
+            raise ValueError(f"formula uses signal 'a{max(columns)}', but there are only {nsigs} signals")
         code = gen_code(spec.get_expr(), context, options["word_size"], nsigs, options["raw_bytes"], options["profile"])
-    except NotImplementedError as e:
+    except (NotImplementedError, ValueError) as e:
         log.error(str(e))
         code = None
     if code is None:
-- 
2.43.0


From 946cff76b3937506edf985f1c9cfa01d4e858398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:48 +0000
Subject: [PATCH 86/86] fix: write Sabre code into a directory given as its
 output

---
 compiler/c2po/sabre.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 0df2223..23b2a59 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -1,4 +1,5 @@
 import math
+import pathlib
 import re
 from typing import cast, Any
 
@@ -500,7 +501,10 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
     if code is None:
         log.error(f"failed to generate Sabre code for {spec.symbol}")
         return command.ReturnCode.ERROR
-    with open(options["output"], "w") as f:
+    output = pathlib.Path(options["output"])
+    if output.is_dir():
+        output = output / f"{spec.symbol}.c"
+    with open(output, "w") as f:
         f.write(code)
     
     return command.ReturnCode.SUCCESS
-- 
2.43.0

