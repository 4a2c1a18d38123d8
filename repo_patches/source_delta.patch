From b654776360590f4afadcbe3ad9afd1d8f8f5eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 001/106] fix: report constant past-time formulas like constant
 future-time ones instead of crashing

---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..4f41874 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From 7ac9286f2cc8a2f0c0b9fffe33527e9b7f7c010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 002/106] fix: Since/Trigger forget the edge when the chain
 breaks and consume operands that run ahead

---
 monitors/c/src/engines/mltl.c | 46 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..e9f09af 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -84,6 +84,20 @@ static r2u2_status_t push_result(r2u2_monitor_t* monitor, r2u2_mltl_instruction_
   return R2U2_OK;
 }
 
+/// @brief      Mark operand data before `next` as consumed and flag progress if there was any
+/// @param[in]  monitor Pointer to (configured) R2U2 monitor
+/// @param[in]  ctrl Pointer to the control block of the consuming node
+/// @param[in]  next First time step that has not been consumed
+/// @return     None
+static void advance_next_time(r2u2_monitor_t* monitor, r2u2_scq_control_block_t* ctrl, r2u2_time next) {
+  if (next > ctrl->next_time) {
+    ctrl->next_time = next;
+    if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+      monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+    }
+  }
+}
+
 r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
 
   r2u2_mltl_instruction_t* instr = &(monitor->mltl_instruction_tbl[monitor->mltl_program_count.curr_program_count]);
@@ -295,7 +309,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         if (get_verdict_truth(op1)) {
           R2U2_DEBUG_PRINT("\tRight Op True\n");
           temp->edge = set_verdict_true(op1);
-          ctrl->next_time = get_verdict_time(op1) + 1;
+          advance_next_time(monitor, ctrl, get_verdict_time(op1) + 1);
           if (get_verdict_time(op1) >=  sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
             result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
             // To handle startup behavior, the truth bit of the previous result
@@ -315,7 +329,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
           }
         } else {
           if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
+            advance_next_time(monitor, ctrl, get_verdict_time(op1) + 1);
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
               if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
@@ -330,7 +344,9 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
           }
           if (op0_rdy && !(get_verdict_truth(op0))){
-            ctrl->next_time = get_verdict_time(op1) + 1;
+            // Left operand broke the chain, so an earlier true right operand no longer counts
+            temp->edge = set_verdict_false(temp->edge);
+            advance_next_time(monitor, ctrl, get_verdict_time(op1) + 1);
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
               if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
@@ -347,15 +363,17 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         }
       }
       if (op0_rdy && get_verdict_truth(op0) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
+        get_verdict_truth(temp->edge) && \
         ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
         result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
+        // The right operand is only used up to where the left operand is known and the edge is in range
+        if (op1_rdy) {
+          advance_next_time(monitor, ctrl, min(get_verdict_time(op1), get_verdict_time(result) - temp->lower_bound) + 1);
+        }
           if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
             ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
               R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
               push_result(monitor, instr, result);
-              ctrl->next_time = next;
               temp->previous = result;
               error_cond = R2U2_OK;
               break;
@@ -385,7 +403,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         if (!(get_verdict_truth(op1))) {
           R2U2_DEBUG_PRINT("\tRight Op False\n");
           temp->edge = set_verdict_true(op1);
-          ctrl->next_time = get_verdict_time(op1) + 1;
+          advance_next_time(monitor, ctrl, get_verdict_time(op1) + 1);
           if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
             result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
             // To handle startup behavior, the truth bit of the previous result
@@ -405,7 +423,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
           }
         } else {
           if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)),temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
+            advance_next_time(monitor, ctrl, get_verdict_time(op1) + 1);
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
               if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
@@ -420,7 +438,9 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
           }
           if (op0_rdy && get_verdict_truth(op0)){
-            ctrl->next_time = get_verdict_time(op1) + 1;
+            // Left operand released the right operand, so an earlier false right operand no longer counts
+            temp->edge = set_verdict_false(temp->edge);
+            advance_next_time(monitor, ctrl, get_verdict_time(op1) + 1);
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
               if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
@@ -437,16 +457,18 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         }
       }
       if (op0_rdy && !(get_verdict_truth(op0)) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
+        get_verdict_truth(temp->edge) && \
         ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
         R2U2_DEBUG_PRINT("We are here!\n");
         result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
+        // The right operand is only used up to where the left operand is known and the edge is in range
+        if (op1_rdy) {
+          advance_next_time(monitor, ctrl, min(get_verdict_time(op1), get_verdict_time(result) - temp->lower_bound) + 1);
+        }
         if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
             ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
               R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
               push_result(monitor, instr, result);
-              ctrl->next_time = next;
               temp->previous = set_verdict_true(result);
               error_cond = R2U2_OK;
               break;
-- 
2.43.0


From 10de6f31ca53a69fd16e38d7946b59c6bccb6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 003/106] fix: Until/Release flag progress when an operand was
 consumed without a result

---
 monitors/c/src/engines/mltl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index e9f09af..abca5d8 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -191,7 +191,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         }
         if (op0_rdy) {
           r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
-          ctrl->next_time = tau+1;
+          advance_next_time(monitor, ctrl, tau+1);
           if (!(get_verdict_truth(op0))){
             R2U2_DEBUG_PRINT("\tLeft and Right Op False\n");
             result = set_verdict_false(tau - temp->lower_bound);
@@ -245,7 +245,7 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         }
         if (op0_rdy) {
           r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
-          ctrl->next_time = tau+1;
+          advance_next_time(monitor, ctrl, tau+1);
           if (get_verdict_truth(op0)){
             R2U2_DEBUG_PRINT("\tLeft and Right Op True\n");
             result = set_verdict_true(tau - temp->lower_bound);
-- 
2.43.0


From 6c94e11b4d8ae50af5fb4fc3a35ce13146d94213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 004/106] fix: constant operands are read once per time step so
 that evaluation terminates

---
 monitors/c/src/engines/mltl.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index abca5d8..8bfbaa7 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -21,22 +21,20 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
     uint32_t value = (op_num == 0) ? (instr->op1_value) : (instr->op2_value);
 
     switch (op_type) {
-      case R2U2_FT_OP_DIRECT:
-        if (instr->opcode == R2U2_MLTL_OP_SINCE || instr->opcode == R2U2_MLTL_OP_TRIGGER){
+      case R2U2_FT_OP_DIRECT: {
+        r2u2_time time = monitor->time_stamp;
+        if (op_num == 0 && (instr->opcode == R2U2_MLTL_OP_SINCE || instr->opcode == R2U2_MLTL_OP_TRIGGER)){
           r2u2_scq_temporal_block_t* temp = r2u2_scq_temporal_get(monitor->queue_arena, instr->memory_reference);
-          if (value) {
-            *result = set_verdict_true(monitor->time_stamp + temp->upper_bound);
-          } else {
-            *result = set_verdict_false(monitor->time_stamp + temp->upper_bound);
-          }
+          time += temp->upper_bound;
+        }
+        if (value) {
+          *result = set_verdict_true(time);
         } else {
-          if (value) {
-            *result = set_verdict_true(monitor->time_stamp);
-          } else {
-            *result = set_verdict_false(monitor->time_stamp);
-          }
+          *result = set_verdict_false(time);
         }
-        return true;
+        // Like any other operand, a constant has no new data once it has been consumed for this time step
+        return time >= (monitor->queue_arena.control_blocks[instr->memory_reference]).next_time;
+      }
 
       case R2U2_FT_OP_ATOMIC:
         // Only load in atomics on first loop of time step
-- 
2.43.0


From 590812c84aead50aea75d5154f6513850f0529fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 005/106] fix: size queues of Once/Historically (constant left
 operand) for results that run ahead by the upper bound

---
 compiler/c2po/cpt.py | 12 ++++++++++--
 compiler/c2po/scq.py |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..8d5dd59 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -835,13 +835,21 @@ class TemporalOperator(Operator):
         operator.wpd = operand.bpd - lb
         return operator
 
+    @staticmethod
+    def past_bpd(lb: int, ub: int, lhs: Expression, rhs: Expression) -> int:
+        """Best-case propagation delay of Since/Trigger. A constant left operand is known arbitrarily far ahead, so the
+        last right operand alone determines the result up to `ub` steps ahead."""
+        if isinstance(lhs, Constant):
+            return rhs.bpd - ub
+        return min(lhs.bpd, rhs.bpd) - lb
+
     @staticmethod
     def Since(
         loc: log.FileLocation, lb: int, ub: int, lhs: Expression, rhs: Expression
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.SINCE, lb, ub, [lhs, rhs])
         operator.type = types.BoolType()
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        operator.bpd = TemporalOperator.past_bpd(lb, ub, lhs, rhs)
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
@@ -850,7 +858,7 @@ class TemporalOperator(Operator):
         loc: log.FileLocation, lb: int, ub: int, lhs: Expression, rhs: Expression
     ) -> TemporalOperator:
         operator = TemporalOperator(loc, OperatorKind.TRIGGER, lb, ub, [lhs, rhs])
-        operator.bpd = min([opnd.bpd for opnd in [lhs, rhs]]) - lb
+        operator.bpd = TemporalOperator.past_bpd(lb, ub, lhs, rhs)
         operator.wpd = max([opnd.wpd for opnd in [lhs, rhs]]) - lb
         return operator
 
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 06fbf5f..23cd1a7 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -40,7 +40,11 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             continue
 
         max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
-        expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
+        # A formula reads each result right after it was written, only operators may lag behind
+        if all(isinstance(parent, cpt.Formula) for parent in expr.parents):
+            expr.scq_size = 1 + scq_constant
+        else:
+            expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
         total_scq_size += expr.scq_size
         expr.scq = (
             total_scq_size - expr.scq_size,
-- 
2.43.0


From b6467f9b933e1738d2226bb1a33cb89ba1f4e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 006/106] fix: size queues of operators that produce several
 results in one time step

---
 compiler/c2po/scq.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 23cd1a7..a2366ff 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -11,6 +11,9 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
+    # Nodes that may produce several results in a single time step: they have an operand that can wait for another one
+    bursts: set[int] = set()
+
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
             continue
@@ -39,11 +42,21 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             )
             continue
 
+        operands = [child for child in expr.children if not isinstance(child, cpt.Constant)]
+        if expr.engine == types.R2U2Engine.TEMPORAL_LOGIC and (
+            any(id(operand) in bursts for operand in operands)
+            or len({pd for operand in operands for pd in (operand.bpd, operand.wpd)}) > 1
+        ):
+            bursts.add(id(expr))
+
         max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
         # A formula reads each result right after it was written, only operators may lag behind
         if all(isinstance(parent, cpt.Formula) for parent in expr.parents):
             expr.scq_size = 1 + scq_constant
         else:
+            # An operator with several operands may read only one result of a burst at a time
+            if id(expr) in bursts and any(not isinstance(s, cpt.Constant) for s in expr.get_siblings()):
+                max_wpd = max(max_wpd, expr.wpd)
             expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
         total_scq_size += expr.scq_size
         expr.scq = (
-- 
2.43.0


From 4ccdccf895a7e1d19b51a3eb2af31882e30167a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 007/106] fix: assemble Boolean literals that are operands of
 Booleanizer operators

---
 compiler/c2po/assemble.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 4f41874..f4f019f 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -416,7 +416,7 @@ def gen_bz_instruction(
             operator = BZOperator.FLOAD
 
     elif isinstance(expr, cpt.Constant) and types.is_integer_type(expr.type):
-        operand1 = expr.value
+        operand1 = int(expr.value)
         operand2 = 0
         operator = BZOperator.ICONST
     elif isinstance(expr, cpt.Constant):
@@ -754,12 +754,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             ft_scqs += 1
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
-        # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # so if this is a bool literal with only TL parents we should skip. Bool literals that the
+        # BZ engine uses (e.g., in "p == true" or "prev(false, p)") are constants of that engine.
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
@@ -788,12 +788,12 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
-        # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # so if this is a bool literal with only TL parents we should skip. Bool literals that the
+        # BZ engine uses (e.g., in "p == true" or "prev(false, p)") are constants of that engine.
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
-- 
2.43.0


From 3e789434479107b31e02064918d57859492d1c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 008/106] fix: report temporal-logic operands of Booleanizer
 operators instead of crashing

---
 compiler/c2po/assemble.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index f4f019f..4f26571 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -476,6 +476,20 @@ def gen_bz_instruction(
     return bz_instr
 
 
+def check_bz_operands(
+    expr: cpt.Expression, instructions: dict[cpt.Expression, BZInstruction]
+) -> bool:
+    """The Booleanizer runs before the TL engine, so its operators cannot use results of the TL engine."""
+    for child in expr.children:
+        if child not in instructions:
+            log.error(
+                f"operand '{child}' of '{expr}' is not computed by the Booleanizer, this is not supported",
+                expr.loc,
+            )
+            return False
+    return True
+
+
 def gen_tl_operand(
     operand: Optional[cpt.Expression], instructions: dict[cpt.Expression, TLInstruction]
 ) -> tuple[TLOperandType, Any]:
@@ -760,6 +774,8 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
+            if not check_bz_operands(expr, bz_instructions):
+                return None
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
@@ -794,6 +810,8 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             continue
 
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
+            if not check_bz_operands(expr, bz_instructions):
+                return None
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
-- 
2.43.0


From 4b66604738670d59b3a45289370fba8f47bf2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 009/106] fix: assemble negative integer constants (they are
 signed, ids are unsigned)

---
 compiler/c2po/assemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 4f26571..71dff60 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -862,7 +862,7 @@ def pack_bz_instruction(
         1,
         f"packing bz instruction: {instruction}\n\t"
         f"{format_strs[FieldType.ENGINE_TAG]:2} "
-        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_ID] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_INT])} "
+        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_INT] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_ID])} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_OPERATOR]:2} "
@@ -880,9 +880,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From 1816582abe82dc0ffee9ef6ac21dcd5e40e71a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 010/106] fix: the smallest integer is representable

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..ee885c4 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -39,7 +39,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
         elif isinstance(expr, cpt.Constant):
             if (
                 isinstance(expr.value, int)
-                and expr.value.bit_length() > (types.IntType.width - (1 if types.IntType.is_signed else 0))
+                and (expr.value if expr.value >= 0 else ~expr.value).bit_length() > (types.IntType.width - (1 if types.IntType.is_signed else 0))
             ):
                 log.error(
                     f"constant '{expr.value}' not representable in configured int type ({types.IntType.width} bits, {'signed' if types.IntType.is_signed else 'unsigned'})",
-- 
2.43.0


From 9df8fc3446e6ef0f76c82ca33af61dc9d525c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 011/106] fix: load float constants whose low word has its top
 bit set without sign extension

---
 monitors/c/src/instructions/booleanizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 43180bd..1c44228 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -6,7 +6,7 @@ r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
-    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24) +
+    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint64_t)spec[3] << 24) +
                 ((uint64_t)spec[4] << 32) + ((uint64_t)spec[5] << 40) + ((uint64_t)spec[6] << 48) + ((uint64_t)spec[7] << 56));
     r2u2_float val;
     memcpy(&val, &temp_val, 8);
-- 
2.43.0


From ee04fb0b2565c56bb5f2e55f63be0c1356120710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 012/106] fix: do not assemble Booleanizer expressions shared
 by both sections a second time

---
 compiler/c2po/assemble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 71dff60..e582c9c 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -809,6 +809,10 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
+        # An expression that a definition shares with the future-time section is already computed
+        if expr in bz_instructions:
+            continue
+
         if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             if not check_bz_operands(expr, bz_instructions):
                 return None
-- 
2.43.0


From 7a1e06417db4dd30b1c18dd4220db973ba26f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 013/106] fix: update a previous value that reads another
 previous value before that one

---
 compiler/c2po/assemble.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index e582c9c..a6c27ab 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -825,10 +825,13 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
-    # value after current iteration)
-    for key in list(bz_instructions):
-        if bz_instructions[key].operator is BZOperator.PREV:
-            bz_instructions[key] = bz_instructions.pop(key)
+    # value after current iteration). If one reads the value of another one, then it comes first, as
+    # it has to store the value from before the other one's update.
+    prevs = [key for key in bz_instructions if bz_instructions[key].operator is BZOperator.PREV]
+    for key in sorted(
+        prevs, key=lambda e: sum(cpt.is_prev_operator(d) for d in e.get_descendants()), reverse=True
+    ):
+        bz_instructions[key] = bz_instructions.pop(key)
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-- 
2.43.0


From a1dbfa058b94871882ac7499664020c947f35ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 014/106] fix: configure the queues of subformulas that both
 sections share in both of them

---
 compiler/c2po/assemble.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index a6c27ab..1c16887 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -741,7 +741,8 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
     bz_instructions: dict[cpt.Expression, BZInstruction] = {}
     ft_instructions: dict[cpt.Expression, TLInstruction] = {}
     pt_instructions: dict[cpt.Expression, TLInstruction] = {}
-    cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+    ft_cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+    pt_cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
 
     # For tracking scq usage across FT and PT
     ft_scqs: int = 0
@@ -764,7 +765,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
 
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
+            ft_cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
             ft_scqs += 1
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
@@ -782,7 +783,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             if not new_ft_instruction:
                 return None
             ft_instructions[expr] = new_ft_instruction
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
+            ft_cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
             ft_scqs += 1
 
     for expr in cpt.postorder(program.pt_spec_set, context):
@@ -801,7 +802,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
             log.debug(1, f"Generating: {expr}\n\t" f"{pt_instructions[expr]}")
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip. Bool literals that the
@@ -822,7 +823,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             if not new_pt_instruction:
                 return None
             pt_instructions[expr] = new_pt_instruction
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            pt_cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
     # value after current iteration). If one reads the value of another one, then it comes first, as
@@ -835,7 +836,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-    cg_instructions_ordered = [cg_instr for cg_instrs in cg_instructions.values() for cg_instr in cg_instrs]
+    cg_instructions_ordered = [cg_instr for cg_instrs in [*ft_cg_instructions.values(), *pt_cg_instructions.values()] for cg_instr in cg_instrs]
     idx = 0
     end_of_instructions = len(cg_instructions_ordered)
     while idx < end_of_instructions:
-- 
2.43.0


From 334b4bc7432809102bedfd9d0635729fce591aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 015/106] fix: start out with empty queues when a specification
 is loaded after another one

---
 monitors/c/src/engines/mltl.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 8bfbaa7..fa64564 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -648,6 +648,11 @@ r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor,
 
             }
 
+            // Start out empty, whatever an earlier specification left behind
+            ctrl->write = 0;
+            ctrl->read1 = 0;
+            ctrl->read2 = 0;
+            ctrl->next_time = 0;
             ctrl->queue[0] = r2u2_infinity;
 
             #if R2U2_DEBUG
@@ -662,6 +667,8 @@ r2u2_status_t r2u2_mltl_configure_instruction_dispatch(r2u2_monitor_t* monitor,
           ctrl->length -= R2U2_TEMPORAL_METADATA_SIZE;
           R2U2_DEBUG_PRINT("\t\tCfg SCQ %u: Reset SCQ length, len = %u\n", instr->memory_reference, ctrl->length);
           r2u2_scq_temporal_block_t* temp = r2u2_scq_temporal_get(monitor->queue_arena, instr->memory_reference);
+          temp->edge = 0;
+          temp->previous = 0;
           temp->lower_bound = instr->op1_value;
           temp->upper_bound = instr->op2_value;
           break;
-- 
2.43.0


From d997c1b9bfa88899fa4e60a1e54ab5c68e154795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 016/106] fix: read every spelling of zero in a trace field as
 false

---
 monitors/c/src/lib.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/lib.c b/monitors/c/src/lib.c
index 2288728..6e33db5 100644
--- a/monitors/c/src/lib.c
+++ b/monitors/c/src/lib.c
@@ -3,6 +3,7 @@
 #include "internals/debug.h"
 #include "internals/process_binary.h"
 #include "engines/engines.h"
+#include <stdlib.h>
 #include <string.h>
 
 #if R2U2_DEBUG
@@ -54,7 +55,10 @@ void r2u2_load_float_signal(r2u2_monitor_t* monitor, size_t index, r2u2_float va
 
 void r2u2_load_string_signal(r2u2_monitor_t* monitor, size_t index, char* value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = (strcmp(value,"0") != 0);
+    // Every spelling of the number zero is false (e.g., "0.0", " 0", or "0\r")
+    char* end;
+    double number = strtod(value, &end);
+    monitor->atomic_buffer[index] = (end == value) || (number != 0);
   } else {
     //Note that to be interpreted as a float, the string value must include a decimal point
     if (strchr(value, '.') != NULL){
-- 
2.43.0


From b1b56063d6cc4a34738fd4a55c7455da9998d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 017/106] fix: skip the whole header line of a trace, however
 long it is

---
 monitors/c/src/cli/csv_trace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index 3181ecb..d3b528e 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -14,6 +14,10 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
 
   // Skip header row, if it exists - note we only check for this on the first line
   if (monitor->time_stamp == 0 && csv_reader->in_buf[0] == '#') {
+    // The header may be longer than the buffer, so read up to the end of its line
+    while (strchr(csv_reader->in_buf, '\n') == NULL) {
+      if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
+    }
     if(fgets(csv_reader->in_buf, sizeof(csv_reader->in_buf), csv_reader->input_file) == NULL) return R2U2_END_OF_TRACE;
   }
   
-- 
2.43.0


From 4ea19acef44868d769584653a11496b839d33198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 018/106] fix: accept spaces around the colon of a map line, as
 documented

---
 compiler/c2po/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..303cf74 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -21,9 +21,9 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
-        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line):
+        if re.fullmatch(r"\s*[a-zA-Z_][a-zA-Z0-9_\[\]\.]*\s*:\s*\d+\s*", line):
             strs = line.split(":")
-            id = strs[0]
+            id = strs[0].strip()
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-- 
2.43.0


From 81a653f85f4eb822bb38e85b38ae1d06be744a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 019/106] fix: array slices in map files may have indices of
 more than one digit

---
 compiler/c2po/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 303cf74..816e9f7 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -27,7 +27,7 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
-- 
2.43.0


From 8f4052b8ccf68c43c497d0e24f6fd78f87c6de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 020/106] fix: report problems of a trace header instead of
 failing on the report itself

---
 compiler/c2po/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..6531e6e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -33,7 +33,7 @@ def parse_trace_file(
 
     cnt: int = 0
     signal_mapping: types.SignalMapping = {}
-    if lines[0][0] != "#":
+    if not lines[0].startswith("#"):
         # no header, so just set trace length
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From 491820674974a55ab0947a7d5bf168fd22a4c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 021/106] fix: report a verdict under the name stored for its
 formula number

---
 monitors/c/src/engines/aux_info.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monitors/c/src/engines/aux_info.c b/monitors/c/src/engines/aux_info.c
index d02439d..c9b9485 100644
--- a/monitors/c/src/engines/aux_info.c
+++ b/monitors/c/src/engines/aux_info.c
@@ -5,11 +5,14 @@
 r2u2_status_t r2u2_aux_formula_report(r2u2_monitor_t* monitor, r2u2_mltl_instruction_t instr, r2u2_verdict result){
 #if R2U2_AUX_STRING_SPECS
   r2u2_aux_info_arena_t aux_arena = monitor->aux_info_arena;
-  if (instr.op2_value < aux_arena.max_aux_formula){
-    fprintf(monitor->out_file, "%s:%u,%s\n", aux_arena.formula_control_blocks[instr.op2_value].spec_str, get_verdict_time(result), get_verdict_truth(result) ? "T" : "F");
-  } else {
-    fprintf(monitor->out_file, "%u:%u,%s\n", instr.op2_value, get_verdict_time(result), get_verdict_truth(result) ? "T" : "F");
+  // Names are stored in the order of the binary, which need not be the order of the formula numbers
+  for (size_t i = 0; i < aux_arena.max_aux_formula; i++) {
+    if (instr.op2_value == aux_arena.formula_control_blocks[i].spec){
+      fprintf(monitor->out_file, "%s:%u,%s\n", aux_arena.formula_control_blocks[i].spec_str, get_verdict_time(result), get_verdict_truth(result) ? "T" : "F");
+      return R2U2_OK;
+    }
   }
+  fprintf(monitor->out_file, "%u:%u,%s\n", instr.op2_value, get_verdict_time(result), get_verdict_truth(result) ? "T" : "F");
 #endif
   return R2U2_OK;
 }
-- 
2.43.0


From afbd64541f5c52b015dc1475069ace19715ee780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 022/106] fix: keep the auxiliary strings within their arena
 and load the last contract

---
 monitors/c/src/internals/process_binary.c | 51 ++++++++++++++---------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..11c1d4e 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -71,7 +71,7 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
     size_t aux_contract_num = 0;
     int length = 0;
     r2u2_aux_info_arena_t* aux_arena = &(monitor->aux_info_arena);
-    (aux_arena->formula_control_blocks)[0].spec_str = aux_arena->aux_mem;
+    size_t aux_bytes = 0; // Bytes of the string arena in use
 
     do {
       // Length encodes size of processed string not including null
@@ -82,28 +82,41 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
       if (sscanf((char*)&(spec[offset]), "%c", &type) == 1) {
         switch(type){
           case 'C': {
-            if (aux_contract_num == 0){ // All formulas always appear in binary before contracts
-              (aux_arena->contract_control_blocks)[0].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str) + 1; // Leave a Null
+            int name_start = 0, name_end = 0;
+            unsigned int spec_0, spec_1, spec_2;
+            sscanf((char*)&(spec[offset]), "%*c %n%*s%n %u %u %u%n", &name_start, &name_end, &spec_0, &spec_1, &spec_2, &length);
+            size_t name_len = (size_t)(name_end - name_start);
+            // Note: If a bound is exceeded, the contract is not reported
+            if ((aux_contract_num < R2U2_AUX_MAX_CONTRACTS) && (aux_bytes + name_len + 1 <= R2U2_MAX_AUX_BYTES)){
+              r2u2_contract_aux_info_t* block = &(aux_arena->contract_control_blocks[aux_contract_num]);
+              block->spec_str = &(aux_arena->aux_mem[aux_bytes]);
+              memcpy(block->spec_str, &(spec[offset + name_start]), name_len);
+              block->spec_str[name_len] = '\0';
+              block->spec_0 = spec_0;
+              block->spec_1 = spec_1;
+              block->spec_2 = spec_2;
+              R2U2_DEBUG_PRINT("Mapping contract: %s\n", block->spec_str);
+              aux_bytes += name_len + 1; // Leave a Null
+              aux_contract_num++;
             }
-            sscanf((char*)&(spec[offset]), "%*c %s %u %u %u%n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str, &(aux_arena->contract_control_blocks[aux_contract_num].spec_0), &(aux_arena->contract_control_blocks[aux_contract_num].spec_1), &(aux_arena->contract_control_blocks[aux_contract_num].spec_2), &length);
-            if (R2U2_AUX_MAX_CONTRACTS > (aux_contract_num + 1)){
-              (aux_arena->contract_control_blocks)[aux_contract_num+1].spec_str = (aux_arena->contract_control_blocks)[aux_contract_num].spec_str + strlen((aux_arena->contract_control_blocks)[aux_contract_num].spec_str) + 1; // Leave a Null
-              R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str);
-            } else {
-              // Done processing Formulas and ran out of space to save any more Contract information
-              length = 0;
-              break;
-            }
-            aux_contract_num++;
             break;
           }
           case 'F': {
-            sscanf((char*)&(spec[offset]), "%*c %s %u%n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str, &(aux_arena->formula_control_blocks[aux_formula_num].spec), &length);
-            if (R2U2_AUX_MAX_FORMULAS > (aux_formula_num + 1)){
-              (aux_arena->formula_control_blocks)[aux_formula_num+1].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num].spec_str) + 1; // Leave a Null
-              R2U2_DEBUG_PRINT("Mapping formula: %s\n", (aux_arena->formula_control_blocks)[aux_formula_num].spec_str);
-            } // Note: If bound is exceeded, we keep iterating to find contracts section of binary
-            aux_formula_num++;
+            int name_start = 0, name_end = 0;
+            unsigned int spec_num;
+            sscanf((char*)&(spec[offset]), "%*c %n%*s%n %u%n", &name_start, &name_end, &spec_num, &length);
+            size_t name_len = (size_t)(name_end - name_start);
+            // Note: If a bound is exceeded, the formula is reported by its number
+            if ((aux_formula_num < R2U2_AUX_MAX_FORMULAS) && (aux_bytes + name_len + 1 <= R2U2_MAX_AUX_BYTES)){
+              r2u2_formula_aux_info_t* block = &(aux_arena->formula_control_blocks[aux_formula_num]);
+              block->spec_str = &(aux_arena->aux_mem[aux_bytes]);
+              memcpy(block->spec_str, &(spec[offset + name_start]), name_len);
+              block->spec_str[name_len] = '\0';
+              block->spec = spec_num;
+              R2U2_DEBUG_PRINT("Mapping formula: %s\n", block->spec_str);
+              aux_bytes += name_len + 1; // Leave a Null
+              aux_formula_num++;
+            }
             break;
           }
           default: {
-- 
2.43.0


From 695819f09ffef7b8b067c47334a2e04f757995b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 023/106] fix: fail to assemble when the auxiliary strings
 cannot be packed

---
 compiler/c2po/assemble.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 1c16887..9f2478c 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1004,7 +1004,7 @@ def pack_instruction(
     return binary_len + binary
 
 
-def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> tuple[list[AliasInstruction], bytes]:
+def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> Optional[tuple[list[AliasInstruction], bytes]]:
     """
     `options` is a dictionary of options for the assembly.
     - `aux`: Whether to include aux data (e.g., contract status and specification naming)
@@ -1012,6 +1012,7 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     Returns a tuple of (list of AliasInstructions, bytes)
     - The list of AliasInstructions to be packed
     - The bytes of the packed AliasInstructions
+    or None if there is an error
     """
     aliases: list[AliasInstruction] = []
     binary = bytes()
@@ -1019,16 +1020,16 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     for spec in program.get_specs():
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
-            return ([], bytes())
+            return None
         elif not isinstance(spec, cpt.Formula):
-            return ([], bytes())
+            return None
 
         if options["aux"] and len(spec.symbol) > 50:
             log.error(
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
                 spec.loc,
             )
-            return ([], bytes())
+            return None
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
@@ -1083,7 +1084,10 @@ def assemble(
     binary += b"\x00"
 
     if options["aux"]:
-        (aliases, binary_aliases) = pack_aliases(program, context, options)
+        packed_aliases = pack_aliases(program, context, options)
+        if packed_aliases is None:
+            return command.ReturnCode.ASSEMBLY_ERROR
+        (aliases, binary_aliases) = packed_aliases
         assembly += aliases
         binary += binary_aliases
     else:
-- 
2.43.0


From b4ed743dc1be319a96bf633ec10679fdaeef186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 024/106] fix: a specification with illegal characters is
 rejected

---
 compiler/c2po/parse_c2po.py  | 4 +++-
 compiler/c2po/parse_equiv.py | 4 +++-
 compiler/c2po/parse_mltl.py  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..c702c0f 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -105,12 +105,14 @@ class C2POLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     # Extra action for newlines
     def ignore_newline(self, t):
         self.lineno += t.value.count("\n")
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
         self.index += 1
 
@@ -703,7 +705,7 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: C2POParser = C2POParser(options["filename"], context.mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not (lexer.status and parser.status):
         return None
 
     return cpt.Program(0, sections)
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index a394c2f..19aec09 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -79,8 +79,10 @@ class MLTLEquivLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -325,7 +327,7 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not (lexer.status and parser.status):
         return None
 
     program, signal_mapping = output
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..b3cc498 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -53,8 +53,10 @@ class MLTLLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"Illegal character '%s' {t.value[0]}", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -278,7 +280,7 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not (lexer.status and parser.status):
         return None
 
     program, signal_mapping = output
-- 
2.43.0


From 6e0de3a96aaafd095b337a9bae0c69121bf35d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 025/106] fix: the mission time reaches the MLTL parser and the
 parse commands honour --mission-time

---
 compiler/c2po/parse_c2po.py | 4 +++-
 compiler/c2po/parse_mltl.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index c702c0f..a057cff 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -701,8 +701,10 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.clear() 
     context.set_spec_filename(options["filename"])
 
+    mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
+
     lexer: C2POLexer = C2POLexer(options["filename"])
-    parser: C2POParser = C2POParser(options["filename"], context.mission_time)
+    parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
     if not (lexer.status and parser.status):
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index b3cc498..eff3b2e 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -276,8 +276,10 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.clear() 
     context.set_spec_filename(options["filename"])
 
+    mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
+
     lexer: MLTLLexer = MLTLLexer(options["filename"])
-    parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
+    parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
     if not (lexer.status and parser.status):
-- 
2.43.0


From 84f50daf3c56605928b677c43935cb694d9738ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 026/106] fix: identifiers that begin with prev are identifiers

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index a057cff..f5c5e3b 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -56,7 +56,6 @@ class C2POLexer(sly.Lexer):
     # ARITH_PM    = r"\+/-|±"
 
     # Others
-    PREV = r'prev'
     CONTRACT_ASSIGN = r"=>"
     ASSIGN  = r":="
     SYMBOL  = r"[a-zA-Z_][a-zA-Z0-9_]*"
@@ -86,6 +85,7 @@ class C2POLexer(sly.Lexer):
     SYMBOL["foratleast"] = KW_FORATLEAST
     SYMBOL["foratmost"]  = KW_FORATMOST
     SYMBOL["TAU"]  = KW_TIMESTAMP
+    SYMBOL["prev"] = PREV
     SYMBOL["pow"]  = ARITH_POW
     SYMBOL["sqrt"] = ARITH_SQRT
     SYMBOL["abs"]  = ARITH_ABS
-- 
2.43.0


From c33e0b87c9701750835b0ecafe8e71744feafb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 027/106] fix: a syntax error inside an enum made the parser
 loop forever

---
 compiler/c2po/sly/yacc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sly/yacc.py b/compiler/c2po/sly/yacc.py
index 7adda8c..fe171a9 100644
--- a/compiler/c2po/sly/yacc.py
+++ b/compiler/c2po/sly/yacc.py
@@ -2093,7 +2093,8 @@ class Parser(metaclass=ParserMeta):
             # Get the next symbol on the input.  If a lookahead symbol
             # is already set, we just use that. Otherwise, we'll pull
             # the next token off of the lookaheadstack or from the lexer
-            if self.state not in defaulted_states:
+            # (error recovery never takes a default reduction: it could undo and redo it forever)
+            if self.state not in defaulted_states or (lookahead and lookahead.type == 'error'):
                 if not lookahead:
                     if not lookaheadstack:
                         lookahead = next(tokens, None)  # Get the next token
-- 
2.43.0


From 96adf7e9355e064268202488f0de3232ceaa1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 028/106] fix: abs and sqrt as the compiler writes them, (abs
 i), can be read again

---
 compiler/c2po/parse_c2po.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f5c5e3b..36a6e88 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -481,13 +481,13 @@ class C2POParser(sly.Parser):
     def expr(self, p):
         return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_SQRT LPAREN expr RPAREN")
+    @_("ARITH_SQRT expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_ABS LPAREN expr RPAREN")
+    @_("ARITH_ABS expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[1])
         
     @_("PREV LPAREN expr COMMA expr RPAREN")
     def expr(self, p):
-- 
2.43.0


From d882ce6a4e23bf1cf62c1611fab5f5057ef06a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 029/106] fix: enum definitions are written in the syntax they
 are read in

---
 compiler/c2po/cpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 8d5dd59..d52fd69 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1162,8 +1162,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{d.symbol}: {d.expr}" for d in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context) -> EnumDefinition:
         var_defs = [v.deepcopy(context) for v in self.var_defs]
-- 
2.43.0


From 76c67c5a1c3660e3ae3704751b2d64045245481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 030/106] fix: float constants are written without exponents,
 which C2PO cannot read

---
 compiler/c2po/cpt.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d52fd69..104bd25 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1,5 +1,6 @@
 """C2PO Parse Tree (CPT) represents structure of a .c2po or .mltl file."""
 from __future__ import annotations
+import decimal
 import enum
 import pickle
 import re
@@ -151,6 +152,12 @@ class Constant(Expression):
         self.value: bool = value
         self.symbol = str(value)
 
+        if isinstance(value, float) and "e" in self.symbol:
+            # C2PO has no exponent notation, so write all the digits
+            self.symbol = format(decimal.Decimal(self.symbol), "f")
+            if "." not in self.symbol:
+                self.symbol += ".0"
+
         if isinstance(value, bool):
             self.type = types.BoolType(True)
         elif isinstance(value, int):
-- 
2.43.0


From bdb18c2e6bca6652151f46350f078f95e3c566e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 031/106] fix: forexactly, foratleast and foratmost are written
 with their number

---
 compiler/c2po/cpt.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 104bd25..4b64ea2 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2033,9 +2033,13 @@ def to_infix_str(start: Expression) -> str:
                 s += f"{expr.symbol}({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
-                s += ")("
+            elif seen == 1 and (num := expr.get_num()) is not None:
+                s += ", "
                 stack.append((seen + 1, expr))
+                stack.append((0, num))
+            elif seen <= 2:
+                s += ")("
+                stack.append((3, expr))
                 stack.append((0, expr.get_expr()))
             else:
                 s += ")"
@@ -2156,9 +2160,13 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
                 s += f"({expr.symbol} ({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
-                s = s[:-1] + ") "
+            elif seen == 1 and (num := expr.get_num()) is not None:
+                s = s[:-1] + ", "
                 stack.append((seen + 1, expr))
+                stack.append((0, num))
+            elif seen <= 2:
+                s = s[:-1] + ") "
+                stack.append((3, expr))
                 stack.append((0, expr.get_expr()))
             else:
                 s = s[:-1] + ") "  
-- 
2.43.0


From 350d5499057f703d829c6a0fa21ab09664664da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 032/106] fix: write_mltl wrote xor, which MLTL-STD does not
 have

---
 compiler/c2po/cpt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 4b64ea2..000bb2f 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2236,10 +2236,12 @@ def to_mltl_std(program: Program, context: Context) -> str:
                 else:
                     mltl += ")"
             elif is_temporal_operator(expr) or is_logical_operator(expr):
+                # MLTL-STD has no exclusive or
+                is_xor = is_operator(expr, OperatorKind.LOGICAL_XOR)
                 if seen == len(expr.children):
-                    mltl += ")"
+                    mltl += "))" if is_xor else ")"
                 elif seen == 0:
-                    mltl += "("
+                    mltl += "(!(" if is_xor else "("
                     stack.append((seen + 1, expr))
                     stack.append((0, expr.children[seen]))
                 else:
@@ -2247,6 +2249,8 @@ def to_mltl_std(program: Program, context: Context) -> str:
                         symbol = "&"
                     elif is_operator(expr, OperatorKind.LOGICAL_OR):
                         symbol = "|"
+                    elif is_xor:
+                        symbol = "<->"
                     else:
                         symbol = expr.symbol
 
-- 
2.43.0


From c23d2c8e6aea6c002026e20180d8821da855e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 033/106] fix: write_mltl refuses to mix past and future
 formulas, which MLTL-STD does not allow

---
 compiler/c2po/cpt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 000bb2f..0347d45 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2212,6 +2212,11 @@ def to_mltl_std(program: Program, context: Context) -> str:
 
     stack: list[tuple[int, Expression]] = []
 
+    exprs = list(program.postorder(context))
+    if any(is_future_time_operator(e) for e in exprs) and any(is_past_time_operator(e) for e in exprs):
+        log.error("future-time and past-time formulas cannot be mixed in MLTL standard")
+        return ""
+
     for spec in program.get_specs():
         if isinstance(spec, Contract):
             log.warning("cannot express AGCs in MLTL standard, skipping")
-- 
2.43.0


From 6f4972161a11d8a31bd1ba9f561a4df5fa694d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 034/106] fix: a set aggregation over one element is its only
 operand

(&& x) could not be read again, crashed the rewriter, and (+ x) added another value
---
 compiler/c2po/cpt.py     |  5 ++-
 compiler/c2po/desugar.py | 75 ++++++++++++++++++++--------------------
 2 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 0347d45..f4768a4 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1676,7 +1676,10 @@ def preorder(
         yield expr
 
         # if expr has been replaced since we just yielded it, need to traverse down the replacement node
-        cur = expr.replacement if expr.replacement else expr
+        # (which may have been replaced in turn)
+        cur = expr
+        while cur.replacement:
+            cur = cur.replacement
 
         visited.add(id(cur))
 
diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..799b600 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -1,4 +1,4 @@
-from typing import Any, cast
+from typing import Any, Iterator, cast
 from c2po import cpt, log, command, types
 
 def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
@@ -175,7 +175,23 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(member)
             member.type = new_type
 
-    for expr in program.preorder(context):
+    def count(expr: cpt.SetAggregation) -> cpt.Expression:
+        operands = [
+            cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+            for e in expr.get_set().children
+        ]
+        if len(operands) == 1:
+            return operands[0]
+        return cpt.Operator.ArithmeticAdd(expr.loc, operands, types.IntType())
+
+    def set_aggregations() -> Iterator[cpt.Expression]:
+        for expr in program.preorder(context):
+            # the aggregation over a set of one element may be replaced by another aggregation
+            while isinstance(expr, cpt.SetAggregation):
+                yield expr
+                expr = expr.replacement
+
+    for expr in set_aggregations():
         if not isinstance(expr, cpt.SetAggregation):
             continue
 
@@ -183,12 +199,14 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 resolve_struct_accesses(subexpr, context)
 
-            new = cpt.Operator.LogicalAnd(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            new = (
+                cpt.Operator.LogicalAnd(expr.loc, operands)
+                if len(operands) > 1
+                else operands[0]
             )
 
             expr.replace(new)
@@ -199,12 +217,14 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(expr.get_set(), context):
                 resolve_struct_accesses(subexpr, context)
 
-            new = cpt.Operator.LogicalOr(
-                expr.loc,
-                [
-                    cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                    for e in expr.get_set().children
-                ],
+            operands = [
+                cpt.rename(expr.bound_var, e, expr.get_expr(), context)
+                for e in expr.get_set().children
+            ]
+            new = (
+                cpt.Operator.LogicalOr(expr.loc, operands)
+                if len(operands) > 1
+                else operands[0]
             )
 
             expr.replace(new)
@@ -221,14 +241,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             new = cpt.Operator.Equal(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
-                ),
+                count(expr),
                 num,
             )
 
@@ -246,14 +259,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             new = cpt.Operator.GreaterThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
-                ),
+                count(expr),
                 num,
             )
 
@@ -271,14 +277,7 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
             new = cpt.Operator.LessThanOrEqual(
                 expr.loc,
-                cpt.Operator.ArithmeticAdd(
-                    expr.loc,
-                    [
-                        cpt.rename(expr.bound_var, e, expr.get_expr(), context)
-                        for e in expr.get_set().children
-                    ],
-                    types.IntType(),
-                ),
+                count(expr),
                 num,
             )
 
-- 
2.43.0


From fc2002b9a27b0f947390f4971ec07093ad783113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 035/106] fix: rewriting conjunctions and disjunctions of more
 than two operands dropped operands

---
 compiler/c2po/rewrite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..e9fc2c4 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -129,8 +129,7 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     lb = expr.interval.lb + opnd1.interval.lb
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) and len(expr.children) == 2:
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -220,8 +219,7 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         cpt.Operator.LogicalAnd(expr.loc, [lhs_lhs, rhs_lhs]),
                         lhs_rhs
                     )
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR) and len(expr.children) == 2:
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From 76376cc446d06442c73568625d685759de809d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 036/106] fix: a definition that only names another definition
 or an array was not expanded

---
 compiler/c2po/desugar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 799b600..7dee2ab 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -15,7 +15,11 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
             continue
 
         if expr.symbol in context.definitions:
-            expr.replace(context.definitions[expr.symbol])
+            # a definition that is only the name of another one has been replaced as a whole
+            define = context.definitions[expr.symbol]
+            while define.replacement:
+                define = define.replacement
+            expr.replace(define)
         elif expr.symbol in context.specifications:
             expr.replace(context.specifications[expr.symbol].get_expr())
 
-- 
2.43.0


From e835df01fc26dcc2746ab523e2d54d4f34270993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 037/106] fix: a comparison of arrays of one element is their
 only comparison

---
 compiler/c2po/desugar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 7dee2ab..98421f4 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -407,12 +407,14 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
         if isinstance(expr.children[0], cpt.ArrayExpression) and isinstance(expr.children[1], cpt.ArrayExpression):
             if cpt.is_relational_operator(expr) and isinstance(expr, cpt.Operator): # Only relational operators supported for now
-                new = cpt.Operator.LogicalAnd(
-                    expr.loc,
-                    [
-                        cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
-                        for x in range(len(expr.children[0].children))
-                    ],
+                comparisons = [
+                    cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
+                    for x in range(len(expr.children[0].children))
+                ]
+                new = (
+                    cpt.Operator.LogicalAnd(expr.loc, comparisons)
+                    if len(comparisons) > 1
+                    else comparisons[0]
                 )
 
                 expr.replace(new)
-- 
2.43.0


From c085cf3416f4a972d3d939ad6f95240607c2af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 038/106] fix: indices and slices of arrays in structs of sets
 were resolved before the array was known

indexing the array of a struct in an array or set (foreach(s : {r})(s.arr[0] > 0)) crashed or was refused as out of bounds
---
 compiler/c2po/desugar.py | 161 +++++++++++++++++++--------------------
 1 file changed, 79 insertions(+), 82 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 98421f4..d9bca8f 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -156,29 +156,33 @@ resolve_contracts_command = command.Command(
 command.CommandRegistry.register(resolve_contracts_command)
 
 
+def resolve_struct_access(expr: cpt.Expression) -> None:
+    """Replaces `expr` with the member it refers to if it is an access of a struct."""
+    if not isinstance(expr, cpt.StructAccess):
+        return
+
+    s = expr.get_struct()
+    if not isinstance(s, cpt.Struct):
+        return
+
+    member = s.get_member(expr.member)
+    if not member:
+        raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
+                         f"Please open an issue at {log.ISSUE_URL}.")
+
+    new_type = member.type
+    expr.replace(member)
+    member.type = new_type
+
+def resolve_access(expr: cpt.Expression) -> bool:
+    resolve_struct_access(expr)
+    return resolve_array_access(expr)
+
 def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """
     Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
-    def resolve_struct_accesses(expr: cpt.Expression, context: cpt.Context) -> None:
-        if not isinstance(expr, cpt.StructAccess):
-            return
-
-        s = expr.get_struct()
-        if not isinstance(s, cpt.Struct):
-            return
-
-        member = s.get_member(expr.member)
-        if not member:
-            raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
-                             f"Please open an issue at {log.ISSUE_URL}.")
-
-        new_type = member.type
-        if member:
-            expr.replace(member)
-            member.type = new_type
-
     def count(expr: cpt.SetAggregation) -> cpt.Expression:
         operands = [
             cpt.rename(expr.bound_var, e, expr.get_expr(), context)
@@ -201,7 +205,8 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
 
         if expr.operator is cpt.SetAggregationKind.FOR_EACH:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
 
             operands = [
                 cpt.rename(expr.bound_var, e, expr.get_expr(), context)
@@ -216,10 +221,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_SOME:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
 
             operands = [
                 cpt.rename(expr.bound_var, e, expr.get_expr(), context)
@@ -234,10 +241,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_EXACTLY:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
 
             num = expr.get_num()
             if not num:
@@ -252,10 +261,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_LEAST:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
 
             num = expr.get_num()
             if not num:
@@ -270,10 +281,12 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
         elif expr.operator is cpt.SetAggregationKind.FOR_AT_MOST:
             for subexpr in cpt.postorder(expr.get_set(), context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
 
             num = expr.get_num()
             if not num:
@@ -288,7 +301,8 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             expr.replace(new)
 
             for subexpr in cpt.postorder(new, context):
-                resolve_struct_accesses(subexpr, context)
+                if not resolve_access(subexpr):
+                    return command.ReturnCode.ERROR
 
     log.debug(1, f"post set aggregation unrolling:\n{repr(program)}")
 
@@ -310,22 +324,7 @@ def resolve_struct_accesses(program: cpt.Program, context: cpt.Context, options:
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
     for expr in program.postorder(context):
-        if not isinstance(expr, cpt.StructAccess):
-            continue
-
-        s = expr.get_struct()
-        if not isinstance(s, cpt.Struct):
-            continue
-
-        member = s.get_member(expr.member)
-        if not member:
-            raise ValueError(f"Member {expr.member} not found in struct {s} --- issue with type checking\n"
-                             f"Please open an issue at {log.ISSUE_URL}.")
-
-        new_type = member.type
-        if member:
-            expr.replace(member)
-            member.type = new_type
+        resolve_struct_access(expr)
 
     log.debug(1, f"post struct access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
@@ -340,50 +339,48 @@ resolve_struct_accesses_command = command.Command(
 command.CommandRegistry.register(resolve_struct_accesses_command)
 
 
+def resolve_array_access(expr: cpt.Expression) -> bool:
+    """
+    Replaces `expr` with the elements it refers to if it is an index or slice of an array expression; other arrays (e.g., those of
+    a bound variable) are only known once the set aggregations are unrolled. Returns False if an index is out of bounds.
+    """
+    if not isinstance(expr, (cpt.ArrayIndex, cpt.ArraySlice)):
+        return True
+
+    array = expr.get_array()
+    if not isinstance(array.type, types.ArrayType):
+        log.error(f"array access on a non-array expression, did you run type_check first? ({expr})", expr.loc)
+        return False
+
+    # Not all out-of-bounds errors are checked during type checking
+    # Ex: a struct has an array member type of uninterpreted size,
+    # must check this case here
+    last = expr.get_index() if isinstance(expr, cpt.ArrayIndex) else max(expr.get_indices())
+    size = len(array.children) if isinstance(array, cpt.ArrayExpression) else array.type.size
+    if size > -1 and last >= size:
+        log.error(f"out-of-bounds array index ({expr})", expr.loc)
+        return False
+
+    if not isinstance(array, cpt.ArrayExpression):
+        return True
+
+    if isinstance(expr, cpt.ArrayIndex):
+        expr.replace(array.children[expr.get_index()])
+    else:
+        (start, stop) = expr.get_indices()
+        expr.replace(cpt.ArrayExpression(expr.loc, array.children[start:stop + 1]))
+
+    return True
+
+
 def resolve_array_accesses(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """
     Resolves array access operations to the underlying member expression.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
     for expr in program.postorder(context):
-        if isinstance(expr, cpt.ArrayIndex):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            if not isinstance(expr.get_array().type, types.ArrayType):
-                log.error(f"array access on a non-array expression, did you run type_check first? ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-                
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_index() >= array_type.size:
-                log.error(f"out-of-bounds array index ({expr})", expr.loc)
-                return command.ReturnCode.ERROR
-
-            array = expr.get_array()
-            expr.replace(array.children[expr.get_index()])
-        
-        elif isinstance(expr, cpt.ArraySlice):
-
-            # Not all out-of-bounds errors are checked during type checking
-            # Ex: a struct has an array member type of uninterpreted size,
-            # must check this case here
-            array_type = cast(types.ArrayType, expr.get_array().type)
-            if expr.get_indices()[0] >= array_type.size or expr.get_indices()[1] >= array_type.size:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                context.status = False
-                continue
-
-            array = expr.get_array()
-
-            new = cpt.ArrayExpression(
-                expr.loc,
-                [
-                    array.children[i]
-                    for i in range(expr.get_indices()[0], expr.get_indices()[1]+1)
-                ],
-            )
-            expr.replace(new)
+        if not resolve_access(expr):
+            return command.ReturnCode.ERROR
 
     log.debug(1, f"post array access resolution:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
-- 
2.43.0


From e2a1c70c00c597b3dc3df8c3dbbce989295c96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 039/106] fix: copies of expressions with array slices

---
 compiler/c2po/cpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index f4768a4..74a733f 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1727,6 +1727,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = ArrayExpression(expr.loc, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, ArrayIndex):
             new = ArrayIndex(expr.loc, memo[id(expr.children[0])], expr.index)
+        elif isinstance(expr, ArraySlice):
+            new = ArraySlice(expr.loc, memo[id(expr.children[0])], expr.start, expr.stop)
         elif isinstance(expr, Struct):
             new = Struct(expr.loc, expr.symbol, expr.members, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, StructAccess):
-- 
2.43.0


From d74f8085c67d364ab7fbc07ce2cbbf8e757aa084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 040/106] fix: a set aggregation within one that binds the same
 variable crashed

---
 compiler/c2po/cpt.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 74a733f..48a5d18 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1627,6 +1627,7 @@ def postorder(
     """Performs a postorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[tuple[bool, Expression]] = []
     visited: set[int] = set()
+    outer_sets: list[Optional[ArrayExpression]] = []
 
     if isinstance(start, Expression):
         stack.append((False, start))
@@ -1637,10 +1638,15 @@ def postorder(
         (seen, expr) = stack.pop()
 
         if seen and isinstance(expr, SetAggregation):
+            # an enclosing aggregation may bind the same symbol
             del context.bound_vars[expr.bound_var.symbol]
+            outer_set = outer_sets.pop()
+            if outer_set is not None:
+                context.bound_vars[expr.bound_var.symbol] = outer_set
             yield expr
             continue
         elif seen and isinstance(expr, Bind):
+            outer_sets.append(context.bound_vars.get(expr.bound_var.symbol))
             context.bound_vars[expr.bound_var.symbol] = expr.get_set()
             continue
         elif seen:
@@ -1806,6 +1812,9 @@ def rename(
     new: Node = expr.deepcopy(context)
 
     for node in postorder(new, context):
+        # an aggregation within `expr` may bind the same symbol again
+        if isinstance(node, Variable) and node.symbol in context.bound_vars:
+            continue
         if target == node:
             node.replace(repl)
 
-- 
2.43.0


From 855f254aad01b8fa5b09b3803550bb5ac6f7c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 041/106] fix: bound variables of set aggregations named like a
 signal or definition, or used after their aggregation, were accepted

---
 compiler/c2po/type_check.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index ee885c4..d9a8d3a 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -253,9 +253,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             s: cpt.ArrayExpression = expr.get_set()
             boundvar: cpt.Variable = expr.bound_var
 
-            if isinstance(s.type, types.ArrayType):
-                context.add_variable(boundvar.symbol, s.type.member_type)
-            else:
+            if boundvar.symbol in context.signals or boundvar.symbol in context.definitions:
+                log.error(
+                    f"symbol '{boundvar.symbol}' already in use, choose another name for the bound variable",
+                    expr.loc,
+                )
+                return False
+
+            if not isinstance(s.type, types.ArrayType):
                 log.error(
                     f"set aggregation set must be Set type (found '{s.type}')",
                     expr.loc,
-- 
2.43.0


From 401cc60c96b655b4397e48823674abea65978304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 042/106] fix: the QF_UFLIA encoding checked traces one step
 too short

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..b9cc989 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -596,8 +596,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From d6dc1356c7b0e25b7e1bc995721c71c41da579e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 043/106] fix: the strict UFLIA encoding of F[0,0] and F[1,1]
 held past the end of the trace

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b9cc989..85dd036 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -800,9 +800,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -811,9 +811,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From 0bb09a420ebd87f55540d5d286298a32aebf57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 044/106] fix: check_sat answered unsat for conjunctions of
 three or more operands with a longer last operand (UFLIA)

---
 compiler/c2po/sat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 85dd036..61b54f6 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -888,9 +888,13 @@ def to_uflia_smtlib2(
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From 09cd10d958c878b19aa9b4991ede7da8d785f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 045/106] fix: check_sat with QF_UFLIA crashed on unary minus

---
 compiler/c2po/sat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 61b54f6..7789ccf 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -469,10 +469,15 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 1:
+            # FIXME: Somewhere arithmetic negation is being encoded as arithmetic subtract with one operand
+            smt_commands.append(
+                f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
+            )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MULTIPLY):
             is_nonlinear = True
             smt_commands.append(
-- 
2.43.0


From a5fbad61c0ef467cb246c9314b4a8477460822b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 046/106] fix: check_sat used Euclidean division and remainder
 where R2U2 truncates

---
 compiler/c2po/sat.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7789ccf..86b7e8b 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -168,6 +168,14 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def smt_div_expr(lhs: str, rhs: str) -> str:
+    """Returns the SMT expression for integer division, which truncates toward zero in R2U2 (`div` does not)."""
+    return f"(ite (>= {lhs} 0) (div {lhs} {rhs}) (- (div (- {lhs}) {rhs})))"
+
+def smt_mod_expr(lhs: str, rhs: str) -> str:
+    """Returns the SMT expression for the remainder, which has the sign of `lhs` in R2U2 (`mod` is never negative)."""
+    return f"(ite (>= {lhs} 0) (mod {lhs} {rhs}) (- (mod (- {lhs}) {rhs})))"
+
 def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool) -> Optional[str]:
     """Encodes the given expression into an SMT encoding using the QF_BV theory and returns it. Returns None if the encoding fails."""
     log.debug(
@@ -486,12 +494,12 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {smt_div_expr(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {smt_mod_expr(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             smt_commands.append(
@@ -736,10 +744,10 @@ def to_uflia_smtlib2(
             return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
-            return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {smt_div_expr(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
-            return f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {smt_mod_expr(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-- 
2.43.0


From cc581f3d2f566bff9e02352bf1cb471a013e28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 047/106] fix: check_equiv answered equiv when a formula could
 not be encoded

---
 compiler/c2po/sat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 86b7e8b..5975e7a 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1415,6 +1415,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
         equiv_smt = to_smt_equiv(expr1, expr2, context, theory, options["strict"])
         if equiv_smt is None:
             log.error("failed to generate SMT encoding for equivalence", spec1.loc)
+            equiv = equiv if equiv == EquivResult.NOT_EQUIV else EquivResult.UNKNOWN
             status = False
             continue
 
-- 
2.43.0


From 9a38a91b7084cd73099b9c11ea76089dbfedd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 048/106] fix: decoding a binary shifted into the sign bit of
 int

---
 monitors/c/src/instructions/booleanizer.c | 8 ++++----
 monitors/c/src/instructions/mltl.c        | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 1c44228..1570783 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
-    return (r2u2_int)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));
+    return (r2u2_int)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint32_t)spec[3] << 24));
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
@@ -15,9 +15,9 @@ r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
 
 r2u2_bz_instruction_t r2u2_bz_set_from_binary(uint8_t* spec) {
     r2u2_bz_instruction_t instr; 
-    instr.param1 = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));
-    instr.param2 = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + (spec[11] << 24));
-    instr.memory_reference = (uint32_t)(spec[12] + (spec[13] << 8) + (spec[14] << 16) + (spec[15] << 24));
+    instr.param1 = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint32_t)spec[3] << 24));
+    instr.param2 = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + ((uint32_t)spec[11] << 24));
+    instr.memory_reference = (uint32_t)(spec[12] + (spec[13] << 8) + (spec[14] << 16) + ((uint32_t)spec[15] << 24));
     instr.opcode = spec[16];
     return instr;
 }
\ No newline at end of file
diff --git a/monitors/c/src/instructions/mltl.c b/monitors/c/src/instructions/mltl.c
index cc3130e..a34be28 100644
--- a/monitors/c/src/instructions/mltl.c
+++ b/monitors/c/src/instructions/mltl.c
@@ -2,9 +2,9 @@
 
 r2u2_mltl_instruction_t r2u2_mltl_set_from_binary(uint8_t* spec) {
     r2u2_mltl_instruction_t instr; 
-    instr.op1_value = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24));
-    instr.op2_value = (uint32_t)(spec[4] + (spec[5] << 8) + (spec[6] << 16) + (spec[7] << 24));
-    instr.memory_reference = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + (spec[11] << 24));
+    instr.op1_value = (uint32_t)(spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint32_t)spec[3] << 24));
+    instr.op2_value = (uint32_t)(spec[4] + (spec[5] << 8) + (spec[6] << 16) + ((uint32_t)spec[7] << 24));
+    instr.memory_reference = (uint32_t)(spec[8] + (spec[9] << 8) + (spec[10] << 16) + ((uint32_t)spec[11] << 24));
     instr.op1_type = spec[12];
     instr.op2_type = spec[13];
     instr.opcode = spec[14];
-- 
2.43.0


From 2b9594c0a52595e495ee938675b4666d8d83a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 049/106] fix: generated bounds were too small for signal
 mappings with gaps

---
 compiler/c2po/assemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 9f2478c..7230f77 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1187,8 +1187,12 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
     num_aliases_bytes = sum([
         (len(i.symbol)) for i in assembly if isinstance(i, AliasInstruction)
     ])
-    num_signals = len(context.signals)
-    num_atomics = len(set(context.atomic_id_map.values()))
+    # The signal mapping can leave gaps, so the arrays must reach up to the largest ID in use
+    num_signals = max(
+        [len(context.signals)] + 
+        [context.signal_mapping[s] + 1 for s in context.signals if s in context.signal_mapping]
+    )
+    num_atomics = max(context.atomic_id_map.values(), default=-1) + 1
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
-- 
2.43.0


From 0d9f31ace9cbbd92cd5267d6af62e6177f515892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 050/106] fix: input columns beyond the monitor's arrays were
 written out of bounds

---
 monitors/c/src/lib.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/monitors/c/src/lib.c b/monitors/c/src/lib.c
index 6e33db5..5e6b1bc 100644
--- a/monitors/c/src/lib.c
+++ b/monitors/c/src/lib.c
@@ -29,26 +29,27 @@ r2u2_status_t r2u2_step(r2u2_monitor_t* monitor){
   return r2u2_engine_step(monitor);
 }
 
+// Note: Inputs that do not fit (e.g., further columns of a trace) are ignored
 void r2u2_load_bool_signal(r2u2_monitor_t* monitor, size_t index, r2u2_bool value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = value;
-  } else {
+    if (index < R2U2_MAX_ATOMICS) monitor->atomic_buffer[index] = value;
+  } else if (index < R2U2_MAX_SIGNALS) {
     monitor->signal_vector[index].i = (r2u2_int) value;
   }
 }
 
 void r2u2_load_int_signal(r2u2_monitor_t* monitor, size_t index, r2u2_int value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = value != 0;
-  } else {
+    if (index < R2U2_MAX_ATOMICS) monitor->atomic_buffer[index] = value != 0;
+  } else if (index < R2U2_MAX_SIGNALS) {
     monitor->signal_vector[index].i = value;
   }
 }
 
 void r2u2_load_float_signal(r2u2_monitor_t* monitor, size_t index, r2u2_float value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = value >= R2U2_FLOAT_EPSILON || value <= -R2U2_FLOAT_EPSILON;
-  } else {
+    if (index < R2U2_MAX_ATOMICS) monitor->atomic_buffer[index] = value >= R2U2_FLOAT_EPSILON || value <= -R2U2_FLOAT_EPSILON;
+  } else if (index < R2U2_MAX_SIGNALS) {
     monitor->signal_vector[index].f = value;
   }
 }
@@ -58,8 +59,8 @@ void r2u2_load_string_signal(r2u2_monitor_t* monitor, size_t index, char* value)
     // Every spelling of the number zero is false (e.g., "0.0", " 0", or "0\r")
     char* end;
     double number = strtod(value, &end);
-    monitor->atomic_buffer[index] = (end == value) || (number != 0);
-  } else {
+    if (index < R2U2_MAX_ATOMICS) monitor->atomic_buffer[index] = (end == value) || (number != 0);
+  } else if (index < R2U2_MAX_SIGNALS) {
     //Note that to be interpreted as a float, the string value must include a decimal point
     if (strchr(value, '.') != NULL){
       sscanf(value, "%lf", &(monitor->signal_vector[index].f));
-- 
2.43.0


From 050e4d5b80f24d9ed9f770d2f76cb7e8d287d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 051/106] fix: a trace row with a timestamp and no value
 crashed the monitor

---
 monitors/c/src/cli/csv_trace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/cli/csv_trace.c b/monitors/c/src/cli/csv_trace.c
index d3b528e..e801034 100644
--- a/monitors/c/src/cli/csv_trace.c
+++ b/monitors/c/src/cli/csv_trace.c
@@ -31,10 +31,11 @@ r2u2_status_t r2u2_csv_load_next_signals(r2u2_csv_reader_t* csv_reader, r2u2_mon
       char* temp_var;
       char* timechar = strtok_r(signal+1, " ", &temp_var);
       uint32_t time_signature;
-      if(sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
+      if(timechar == NULL || sscanf(timechar,"%u",&time_signature) != 1 ) return R2U2_END_OF_TRACE;
       (monitor->time_stamp) = time_signature;
       R2U2_DEBUG_PRINT("Event: %u\n",monitor->time_stamp);
       signal = strtok_r(NULL, " ", &temp_var);
+      if(signal == NULL) continue; // No value follows the timestamp
     }
     r2u2_load_string_signal(monitor, i, signal);
   }
-- 
2.43.0


From b394028d07b1bbb620813422a924b75640eb1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 052/106] fix: stepping a monitor without a specification
 returned an uninitialised status

---
 monitors/c/src/engines/engines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index ebbb6a6..e7ea35c 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -5,7 +5,7 @@
 #include "../internals/debug.h"
 
 r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
-    r2u2_status_t error_cond;
+    r2u2_status_t error_cond = R2U2_OK;
 
     // Operate over all BZ instructions first and only once on each step forward
     R2U2_DEBUG_PRINT("(BZ) %d.%zu\n",monitor->time_stamp, monitor->bz_program_count.curr_program_count);
-- 
2.43.0


From 220c6e84816a920c103256ae8ac9fbd7ab3a5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 053/106] fix: the order of the inputs of an MLTL file depended
 on the hash seed

---
 compiler/c2po/parse_equiv.py | 2 +-
 compiler/c2po/parse_mltl.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index 19aec09..ea0b63b 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -134,7 +134,7 @@ class MLTLEquivParser(sly.Parser):
     @_("constraint_list spec_list")
     def program(self, p):
         self.constraints = p[0]
-        declaration = [cpt.VariableDeclaration(0, list(self.atomics), types.BoolType())]
+        declaration = [cpt.VariableDeclaration(0, sorted(self.atomics, key=lambda a: (int(a[1:]), a)), types.BoolType())]
         input_section = cpt.InputSection(0, declaration)
         spec_section = cpt.FutureTimeSpecSection(0, p[1])
 
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index eff3b2e..ec29e71 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -102,7 +102,7 @@ class MLTLParser(sly.Parser):
 
     @_("spec_list")
     def program(self, p):
-        declaration = [cpt.VariableDeclaration(0, list(self.atomics), types.BoolType())]
+        declaration = [cpt.VariableDeclaration(0, sorted(self.atomics, key=lambda a: (int(a[1:]), a)), types.BoolType())]
         input_section = cpt.InputSection(0, declaration)
 
         if self.is_pt:
-- 
2.43.0


From f4d0d57ded514a6274a330b85b8cb0924bad6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 054/106] fix: enums of the previous specification were kept
 when another one is parsed

---
 compiler/c2po/cpt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 48a5d18..04a77f3 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1513,6 +1513,7 @@ class Context:
         """
         self.definitions.clear()
         self.structs.clear()
+        self.enums.clear()
         self.signals.clear()
         self.variables.clear()
         self.specifications.clear()
-- 
2.43.0


From 65288f457913bb664c7dfa91abb97bf5f9cd5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 055/106] fix: saved states lost transformations and shared
 expressions with the live one

push copied the sections of a program, not its specification sets, so
contracts came back unresolved and atomics detached; the copy replaced the
originals in the live context; enums, executable paths and some statistics
were not copied and the list of assembled instructions was shared.
---
 compiler/c2po/cpt.py   | 111 +++++++++++++++++++++++------------------
 compiler/c2po/stats.py |  37 +-------------
 2 files changed, 65 insertions(+), 83 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 04a77f3..ba00661 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -128,8 +128,8 @@ class Expression(Node):
     def __repr__(self) -> str:
         return to_prefix_str(self, with_internal_labels=True)
 
-    def deepcopy(self, context: Context) -> Expression:
-        return deepcopy_expr(self, context, {})
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Expression:
+        return deepcopy_expr(self, context, {} if memo is None else memo)
 
 class Match(Expression):
     def __init__(self, loc: log.FileLocation, name: str, match_function: Callable[[str], bool]) -> None:
@@ -1130,10 +1130,14 @@ class SpecificationSet(Expression):
     def __str__(self) -> str:
         return "spec_set"
 
-    def deepcopy(self, context: Context) -> SpecificationSet:
-        children = [c.deepcopy(context) for c in self.children]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> SpecificationSet:
+        memo = {} if memo is None else memo
+        if id(self) in memo:
+            return cast(SpecificationSet, memo[id(self)])
+        children = [c.deepcopy(context, memo) for c in self.children]
         new = SpecificationSet(self.loc, cast("list[Specification]", children))
         self.copy_attrs(new)
+        memo[id(self)] = new
         return new
 
 class StructDefinition(Node):
@@ -1172,8 +1176,8 @@ class EnumDefinition(Node):
         members_str_list = [f"{d.symbol}: {d.expr}" for d in self.var_defs]
         return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> EnumDefinition:
-        var_defs = [v.deepcopy(context) for v in self.var_defs]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> EnumDefinition:
+        var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
         new = EnumDefinition(self.loc, self.symbol, var_defs)
         return new
 
@@ -1200,8 +1204,8 @@ class Definition(Node):
     def __str__(self) -> str:
         return f"{self.symbol} := {self.expr}"
 
-    def deepcopy(self, context: Context) -> Definition:
-        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context))
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Definition:
+        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context, memo))
         return new
 
 class StructSection(Node):
@@ -1215,14 +1219,10 @@ class StructSection(Node):
         structs_str_list = [str(s) + ";" for s in self.struct_defs]
         return "STRUCT\n\t" + "\n\t".join(structs_str_list)
     
-    def deepcopy(self, context: Context) -> StructSection:
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> StructSection:
         struct_defs = [s.deepcopy(context) for s in self.struct_defs]
         new = StructSection(self.loc, struct_defs)
 
-        # Update context
-        for struct_def in new.struct_defs:
-            context.add_struct(struct_def.symbol, struct_def.members)
-
         return new
     
 class EnumSection(Node):
@@ -1236,14 +1236,10 @@ class EnumSection(Node):
         enums_str_list = [str(s) + ";" for s in self.enum_defs]
         return "ENUM\n\t" + "\n\t".join(enums_str_list)
     
-    def deepcopy(self, context: Context) -> EnumSection:
-        enum_defs = [s.deepcopy(context) for s in self.enum_defs]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> EnumSection:
+        enum_defs = [s.deepcopy(context, memo) for s in self.enum_defs]
         new = EnumSection(self.loc, enum_defs)
 
-        # Update context
-        for enum_def in new.enum_defs:
-            context.add_enum(enum_def.symbol, enum_def.members)
-
         return new
 
 class InputSection(Node):
@@ -1257,15 +1253,10 @@ class InputSection(Node):
         signals_str_list = [str(s) + ";" for s in self.signal_decls]
         return "INPUT\n\t" + "\n\t".join(signals_str_list)
 
-    def deepcopy(self, context: Context) -> InputSection:
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> InputSection:
         signal_decls = [s.deepcopy(context) for s in self.signal_decls]
         new = InputSection(self.loc, signal_decls)
 
-        # Update context
-        for signal_decl in new.signal_decls:
-            for signal in signal_decl.variables:
-                context.add_signal(signal, signal_decl.type)
-
         return new
 
 class DefineSection(Node):
@@ -1277,14 +1268,10 @@ class DefineSection(Node):
         defines_str_list = [str(s) + ";" for s in self.defines]
         return "DEFINE\n\t" + "\n\t".join(defines_str_list)
 
-    def deepcopy(self, context: Context) -> DefineSection:
-        defines = [d.deepcopy(context) for d in self.defines]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> DefineSection:
+        defines = [d.deepcopy(context, memo) for d in self.defines]
         new = DefineSection(self.loc, defines)
 
-        # Update context
-        for define in new.defines:
-            context.add_definition(define.symbol, define.expr)
-
         return new
 
 class SpecSection(Node):
@@ -1292,17 +1279,10 @@ class SpecSection(Node):
         super().__init__(loc)
         self.specs = specs
 
-    def deepcopy(self, context: Context) -> SpecSection:
-        specs = [cast(Specification, s.deepcopy(context)) for s in self.specs]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> SpecSection:
+        specs = [cast(Specification, s.deepcopy(context, memo)) for s in self.specs]
         new = type(self)(self.loc, specs)
 
-        # Update context
-        for spec in new.specs:
-            if isinstance(spec, Formula):
-                context.add_formula(spec.symbol, spec)
-            elif isinstance(spec, Contract):
-                context.add_contract(spec.symbol, spec)
-
         return new
 
 class FutureTimeSpecSection(SpecSection):
@@ -1437,9 +1417,14 @@ class Program(Node):
     def __repr__(self) -> str:
         return "\n".join([repr(s) for s in self.get_specs()])
 
-    def deepcopy(self, context: Context) -> Program:
-        sections = [s.deepcopy(context) for s in self.sections]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Program:
+        # The sections and the specification sets share expressions, but the specification sets may
+        # have been transformed since the program was parsed
+        memo = {} if memo is None else memo
+        sections = [s.deepcopy(context, memo) for s in self.sections]
         new = Program(self.loc, sections)
+        new.ft_spec_set = self.ft_spec_set.deepcopy(context, memo)
+        new.pt_spec_set = self.pt_spec_set.deepcopy(context, memo)
         new.total_scq_size = self.total_scq_size
         new.is_dummy = self.is_dummy
         new.is_well_typed = self.is_well_typed
@@ -1588,6 +1573,7 @@ class Context:
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
         new.structs = { k: v for k, v in self.structs.items() }
+        new.enums = { k: v for k, v in self.enums.items() }
         new.signals = { k: v for k, v in self.signals.items() }
         new.variables = { k: v for k, v in self.variables.items() }
         new.specifications = { k: v for k, v in self.specifications.items() }
@@ -1597,9 +1583,9 @@ class Context:
         new.bound_vars = { k: v for k, v in self.bound_vars.items() }
         new.signal_mapping = { k: v for k, v in self.signal_mapping.items() }
 
-        # Deepcopy is not needed for the assembly list
+        # A deep copy is not needed for the elements of the assembly list
         # TODO: Consider warning user? Or have a check that assembly matches the program?
-        new.assembly = self.assembly 
+        new.assembly = list(self.assembly)
 
         new.trace = self.trace
         new.binary = self.binary
@@ -1616,6 +1602,9 @@ class Context:
         new.map_filename = self.map_filename
         new.egglog_path = self.egglog_path
         new.smt_solver_path = self.smt_solver_path
+        new.r2u2_c_path = self.r2u2_c_path
+        new.r2u2_bin_path = self.r2u2_bin_path
+        new.r2u2_output = self.r2u2_output
         new.mission_time = self.mission_time
         new.enable_booleanizer = self.enable_booleanizer
         new.script_filename = self.script_filename
@@ -1707,9 +1696,10 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = Atomic(expr.loc, memo[id(expr.get_expr())])
 
             # Update the atomic ID mappings to reflect the new expression
-            atomic_id = context.atomic_id_map[expr]
-            context.atomic_id_map[new] = atomic_id
-            context.atomic_expr_map[atomic_id] = new
+            if expr in context.atomic_id_map:
+                atomic_id = context.atomic_id_map[expr]
+                context.atomic_id_map[new] = atomic_id
+                context.atomic_expr_map[atomic_id] = new
         elif isinstance(expr, Signal):
             new = Signal(expr.loc, expr.symbol, expr.type)
             new.signal_id = expr.signal_id
@@ -1798,8 +1788,33 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
+    """
+    Deep copies a program along with its context. Neither copy refers to the originals, expressions that
+    are shared within the program and the context are shared in the copies as well.
+    """
+    memo: dict[int, Expression] = {}
     new_context = context.deepcopy()
+    new_program = program.deepcopy(new_context, memo)
+
+    # An expression may have parents that are not part of the program (anymore), queue sizes depend on
+    # those as well
+    for expr in program.postorder(context):
+        memo[id(expr)].parents = { p.deepcopy(new_context, memo) for p in expr.parents }
+    new_context.bound_vars = { k: v for k, v in context.bound_vars.items() }
+
+    new_context.definitions = { k: v.deepcopy(new_context, memo) for k, v in context.definitions.items() }
+    new_context.enums = {
+        k: { m: e.deepcopy(new_context, memo) for m, e in v.items() } for k, v in context.enums.items()
+    }
+    new_context.specifications = {
+        k: cast(Formula, v.deepcopy(new_context, memo)) for k, v in context.specifications.items()
+    }
+    new_context.contracts = {
+        k: cast(Contract, v.deepcopy(new_context, memo)) for k, v in context.contracts.items()
+    }
+    new_context.atomic_id_map = { memo.get(id(k), k): v for k, v in context.atomic_id_map.items() }
+    new_context.atomic_expr_map = { k: memo.get(id(v), v) for k, v in context.atomic_expr_map.items() }
+
     return new_program, new_context
 
 def rename(
diff --git a/compiler/c2po/stats.py b/compiler/c2po/stats.py
index 472a63e..7470ca4 100644
--- a/compiler/c2po/stats.py
+++ b/compiler/c2po/stats.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 
 STATS_FORMAT_MAP: dict[str, str] = {
     "F": "spec_filename",
@@ -119,37 +119,4 @@ class Stats:
         )
 
     def deepcopy(self) -> "Stats":
-        return Stats(
-            spec_filename=self.spec_filename,
-            first_formula_string=self.first_formula_string,
-            total_scq_size=self.total_scq_size,
-            total_dag_size=self.total_dag_size,
-            num_temporal_operators=self.num_temporal_operators,
-            asm_num_instructions=self.asm_num_instructions,
-            asm_num_bz_instructions=self.asm_num_bz_instructions,
-            asm_num_tl_instructions=self.asm_num_tl_instructions,
-            asm_num_cg_instructions=self.asm_num_cg_instructions,
-            asm_num_scq_instructions=self.asm_num_scq_instructions,
-            asm_num_aliases=self.asm_num_aliases,
-            asm_num_signals=self.asm_num_signals,
-            asm_num_atomics=self.asm_num_atomics,
-            smt_encoding_time=self.smt_encoding_time,
-            smt_solver_time=self.smt_solver_time,
-            smt_solver_result=self.smt_solver_result,
-            smt_num_calls=self.smt_num_calls,
-            eqsat_encoding_time=self.eqsat_encoding_time,
-            eqsat_solver_time=self.eqsat_solver_time,
-            eqsat_equiv_result=self.eqsat_equiv_result,
-            eqsat_equiv_encoding_time=self.eqsat_equiv_encoding_time,
-            eqsat_equiv_solver_time=self.eqsat_equiv_solver_time,
-            eqsat_num_eclasses=self.eqsat_num_eclasses,
-            eqsat_num_enodes=self.eqsat_num_enodes,
-            eqsat_gurobi_encoding_time=self.eqsat_gurobi_encoding_time,
-            eqsat_gurobi_solver_time=self.eqsat_gurobi_solver_time,
-            eqsat_gurobi_solver_status=self.eqsat_gurobi_solver_status,
-            r2u2_median_runtime=self.r2u2_median_runtime,
-            r2u2_average_runtime=self.r2u2_average_runtime,
-            r2u2_min_runtime=self.r2u2_min_runtime,
-            r2u2_max_runtime=self.r2u2_max_runtime,
-            r2u2_status=self.r2u2_status,
-        )
+        return replace(self)
-- 
2.43.0


From eec567d20f7659e7cb20c2978a0eaec8698d3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 056/106] fix: a specification that does not parse cleared the
 context of the current one

---
 compiler/c2po/parse_c2po.py  | 6 +++---
 compiler/c2po/parse_equiv.py | 6 +++---
 compiler/c2po/parse_mltl.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 36a6e88..c888db7 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -698,9 +698,6 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if contents is None:
         return None
         
-    context.clear() 
-    context.set_spec_filename(options["filename"])
-
     mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
 
     lexer: C2POLexer = C2POLexer(options["filename"])
@@ -710,6 +707,9 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if not (lexer.status and parser.status):
         return None
 
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     return cpt.Program(0, sections)
 
 parse_c2po_command = command.Command(
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index ea0b63b..19b8011 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -320,9 +320,6 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     if contents is None:
         return None
         
-    context.clear() 
-    context.set_spec_filename(options["filename"])
-
     lexer: MLTLEquivLexer = MLTLEquivLexer(options["filename"])
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
@@ -330,6 +327,9 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     if not (lexer.status and parser.status):
         return None
 
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.bounds = parser.bounds
     context.constraints = parser.constraints
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index ec29e71..64cf768 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -273,9 +273,6 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if contents is None:
         return None
         
-    context.clear() 
-    context.set_spec_filename(options["filename"])
-
     mission_time = options["mission_time"] if options["mission_time"] >= 0 else context.mission_time
 
     lexer: MLTLLexer = MLTLLexer(options["filename"])
@@ -285,6 +282,9 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     if not (lexer.status and parser.status):
         return None
 
+    context.clear()
+    context.set_spec_filename(options["filename"])
+
     program, signal_mapping = output
     context.signal_mapping = signal_mapping
     cpt.assign_signal_ids(program, context, signal_mapping)
-- 
2.43.0


From 807c51ed394d98b2b0d0a8b7d27af7a1ee16fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 057/106] fix: a map or trace file that misses a signal
 replaced the signal mapping

---
 compiler/c2po/cpt.py   | 20 +++++++++++---------
 compiler/c2po/map.py   |  5 ++---
 compiler/c2po/trace.py |  6 +++---
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index ba00661..db02171 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1988,20 +1988,22 @@ def decompose_intervals(expr: Expression, context: Context) -> Expression:
 
 def assign_signal_ids(program: Program, context: Context, signal_mapping: types.SignalMapping) -> list[str]:
     """
-    Assign signal IDs to the signals in the program.
+    Assign signal IDs to the signals in the program. No IDs are assigned if any signal is missing.
 
     Returns:
         A list of signals that were not present in the signal mapping.
     """
-    missing_signals = []
-    for expr in program.postorder_with_definitions(context):
-        if isinstance(expr, Signal):
-            if expr.symbol not in signal_mapping:
-                missing_signals.append(expr.symbol)
-            else:
-                expr.signal_id = signal_mapping[expr.symbol]
+    signals = [
+        expr for expr in program.postorder_with_definitions(context) if isinstance(expr, Signal)
+    ]
+    missing_signals = [s.symbol for s in signals if s.symbol not in signal_mapping]
+    if len(missing_signals) > 0:
+        return missing_signals
+
+    for signal in signals:
+        signal.signal_id = signal_mapping[signal.symbol]
 
-    return missing_signals
+    return []
 
 def to_infix_str(start: Expression) -> str:
     s = ""
diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 816e9f7..e3641d4 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -16,8 +16,6 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     if content is None:
         return command.ReturnCode.ERROR
 
-    context.map_filename = options["filename"]
-
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
@@ -54,7 +52,6 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
             )
             return command.ReturnCode.ERROR
 
-    context.signal_mapping = mapping
     missing = cpt.assign_signal_ids(program, context, mapping)
     if len(missing) > 0:
         log.error(
@@ -63,6 +60,8 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
         )
         return command.ReturnCode.ERROR 
 
+    context.signal_mapping = mapping
+    context.map_filename = options["filename"]
     options['map_filename'] = options['filename']
 
     return command.ReturnCode.SUCCESS
diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 6531e6e..094a368 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -20,8 +20,6 @@ def parse_trace_file(
     content = util.read_file(options["filename"])
     if content is None:
         return command.ReturnCode.ERROR
-        
-    context.trace_filename = options["filename"]
 
     lines: list[str] = content.splitlines()
     if len(lines) < 1:
@@ -35,6 +33,7 @@ def parse_trace_file(
     signal_mapping: types.SignalMapping = {}
     if not lines[0].startswith("#"):
         # no header, so just set trace length
+        context.trace_filename = options["filename"]
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
 
@@ -55,7 +54,6 @@ def parse_trace_file(
         signal_mapping[id] = cnt
         cnt += 1
 
-    context.signal_mapping = signal_mapping
     missing = cpt.assign_signal_ids(program, context, signal_mapping)
     if len(missing) > 0:
         log.error(
@@ -64,6 +62,8 @@ def parse_trace_file(
         )
         return command.ReturnCode.ERROR
 
+    context.signal_mapping = signal_mapping
+    context.trace_filename = options["filename"]
     context.trace_length = len(lines) - 1
     return command.ReturnCode.SUCCESS
 
-- 
2.43.0


From 3c6ed3f6c41d07e6b4af998b0116e708dc5daf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 058/106] fix: type checking a program again reported its own
 enums as duplicates

---
 compiler/c2po/cpt.py        | 16 ++++++++++------
 compiler/c2po/type_check.py |  6 ++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index db02171..fd5ac34 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1491,18 +1491,22 @@ class Context:
         self.spec_filename = filename
         self.stats.set_spec_filename(filename)
 
-    def clear(self) -> None:
-        """
-        Clears the context except for the signal mapping and most global options.
-        Called when parsing a new program.
-        """
+    def clear_symbols(self) -> None:
+        """Clears all symbols that type checking a program adds to the context."""
         self.definitions.clear()
         self.structs.clear()
         self.enums.clear()
         self.signals.clear()
-        self.variables.clear()
         self.specifications.clear()
         self.contracts.clear()
+
+    def clear(self) -> None:
+        """
+        Clears the context except for the signal mapping and most global options.
+        Called when parsing a new program.
+        """
+        self.clear_symbols()
+        self.variables.clear()
         self.atomic_id_map.clear()
         self.atomic_expr_map.clear()
         self.bound_vars.clear()
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index d9a8d3a..75af0ac 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -706,6 +706,12 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
     Returns:
         None if type checking fails, the context object otherwise.
     """
+    if program.is_well_typed:
+        return command.ReturnCode.SUCCESS
+
+    # Symbols may be left over from an earlier attempt
+    context.clear_symbols()
+
     status = True
     for section in program.sections:
         is_good = type_check_section(section, set(), context, options)
-- 
2.43.0


From 0f0169bc67870ffaacb8ef4272c7b1b846ecda2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 059/106] fix: changing the Booleanizer setting kept the type
 check of the other setting

---
 compiler/c2po/command.py    | 20 ++++++++++++++------
 compiler/c2po/type_check.py |  6 +++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 8d893e2..25d6855 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -529,11 +529,15 @@ set_r2u2_bin_path_command = Command(
 CommandRegistry.register(set_r2u2_bin_path_command)
 
 
-def enable_booleanizer(context: cpt.Context) -> ReturnCode:
-    """Command to enable the booleanizer.
+def enable_booleanizer(program: cpt.Program, context: cpt.Context) -> ReturnCode:
+    """Command to enable the booleanizer. A program has to be type checked again if this changes the setting.
 
+    `program` is the current program.
     `context` is the context object.
     """
+    if not context.enable_booleanizer:
+        program.is_well_typed = False
+        context.clear_symbols()
     context.enable_booleanizer = True
     return ReturnCode.SUCCESS
 
@@ -542,17 +546,21 @@ enable_booleanizer_command = Command(
     name="enable_booleanizer",
     description="Enable Booleanizer expressions",
     options=[],
-    func=lambda program, context, options: enable_booleanizer(context),
+    func=lambda program, context, options: enable_booleanizer(program, context),
     guards=[],
 )
 CommandRegistry.register(enable_booleanizer_command)
 
 
-def disable_booleanizer(context: cpt.Context) -> ReturnCode:
-    """Command to disable the booleanizer.
+def disable_booleanizer(program: cpt.Program, context: cpt.Context) -> ReturnCode:
+    """Command to disable the booleanizer. A program has to be type checked again if this changes the setting.
 
+    `program` is the current program.
     `context` is the context object.
     """
+    if context.enable_booleanizer:
+        program.is_well_typed = False
+        context.clear_symbols()
     context.enable_booleanizer = False
     return ReturnCode.SUCCESS
 
@@ -561,7 +569,7 @@ disable_booleanizer_command = Command(
     name="disable_booleanizer",
     description="Disable Booleanizer expressions",
     options=[],
-    func=lambda program, context, options: disable_booleanizer(context),
+    func=lambda program, context, options: disable_booleanizer(program, context),
     guards=[],
 )
 CommandRegistry.register(disable_booleanizer_command)
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 75af0ac..4c6e279 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -709,14 +709,14 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
     if program.is_well_typed:
         return command.ReturnCode.SUCCESS
 
-    # Symbols may be left over from an earlier attempt
-    context.clear_symbols()
-
     status = True
     for section in program.sections:
         is_good = type_check_section(section, set(), context, options)
         status = status and is_good
 
+    if not status:
+        context.clear_symbols()
+
     log.debug(1, f"type checking result: {status}")
     program.is_well_typed = status
     return command.ReturnCode.SUCCESS if status else command.ReturnCode.ERROR
-- 
2.43.0


From c792084974f4e3112cd85964ae44af004eafce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 060/106] fix: guards of guards were not checked, commands ran
 on programs not ready for them

---
 compiler/c2po/command.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 25d6855..591cfa3 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -192,13 +192,16 @@ class Command:
         """
         # Recursively check all dependencies. No need for iterative approach because the dependency
         # graph is not very deep.
-        for guard in self.guards:
-            if not guard.predicate(program, context):
-                return guard
-            for dependency in GUARD_DEPENDENCIES[guard]:
-                if not dependency.predicate(program, context):
-                    return dependency
-        return None
+        def check(guards: list[CommandGuard]) -> Optional[CommandGuard]:
+            for guard in guards:
+                if not guard.predicate(program, context):
+                    return guard
+                failed = check(GUARD_DEPENDENCIES[guard])
+                if failed is not None:
+                    return failed
+            return None
+
+        return check(self.guards)
 
     def parse_args(self, args: list[str]) -> dict[str, Any]:
         """
-- 
2.43.0


From 3f07cce828b45af7cb19efa21e4d1ecff03a3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 061/106] fix: a file that cannot be written was reported as an
 internal error

---
 compiler/c2po/command.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 591cfa3..851b758 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -224,6 +224,10 @@ class Command:
             result = self.func(program, context, options)
             log.reset_current_command_name()
             return result
+        except OSError as e:
+            log.error(str(e))
+            log.reset_current_command_name()
+            return ReturnCode.ERROR
         except Exception as e:
             log.reset_current_command_name()
             log.internal(
-- 
2.43.0


From f8c28d0971af9c0c272ec7f6c3f4161290aca355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 062/106] fix: print_stats failed on programs that do not start
 with a formula

---
 compiler/c2po/command.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 851b758..016e065 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 import argparse
 import enum
 import traceback
-from typing import Optional, Callable, Any, TypedDict, Union, NamedTuple, cast
+from typing import Optional, Callable, Any, TypedDict, Union, NamedTuple
 from c2po import log, cpt, util
 
 
@@ -670,7 +670,9 @@ def print_stats(program: cpt.Program, context: cpt.Context, options: dict[str, A
     `options` is a dictionary containing the following key:
         - `format`: The format string to use for the statistics
     """
-    context.stats.first_formula_string = str(cast(cpt.Formula, program.get_specs()[0]).get_expr())
+    context.stats.first_formula_string = next(
+        (str(spec.get_expr()) for spec in program.get_specs() if isinstance(spec, cpt.Formula)), ""
+    )
     context.stats.total_dag_size = program.get_dag_size(context)
     context.stats.num_temporal_operators = program.get_num_temporal_operators(context)
     print(context.stats.format(options["format"]), end="")
-- 
2.43.0


From 096af075e3a7427e7b655bf47a3f7c675dfe7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 063/106] fix: generate_trace failed with an internal error on
 an empty range of values

---
 compiler/c2po/trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 094a368..5b1333e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -108,6 +108,10 @@ def generate_trace(program: cpt.Program, context: cpt.Context, options: dict[str
     print_trace = options["print"]
     float_precision = options["float_precision"] + 2
 
+    if min_val > max_val:
+        log.error(f"minimum value is greater than maximum value ({min_val} > {max_val})")
+        return command.ReturnCode.ERROR
+
     if seed is not None:
         random.seed(seed)
 
-- 
2.43.0


From cc83e6bea62b09ecdfa450d0db5afcf832517b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 064/106] fix: compute_atomics kept the atomics of an earlier
 version of the program

---
 compiler/c2po/atomics.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index b1bf758..bd37c5a 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -16,6 +16,10 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
                     parent.children[i] = new
             new.parents.add(parent)
 
+    # Any mapping from an earlier run may not match the program (or the Booleanizer setting) anymore
+    context.atomic_id_map.clear()
+    context.atomic_expr_map.clear()
+
     aid: int = 0
 
     for expr in program.postorder(context):
@@ -41,10 +45,18 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
                 else:
                     context.atomic_id_map[expr] = expr.signal_id
                     context.atomic_expr_map[expr.signal_id] = expr
-        elif not isinstance(expr, cpt.Atomic):
+        elif isinstance(expr, cpt.Atomic):
+            # added by an earlier run
+            context.atomic_id_map[expr] = aid
+            context.atomic_expr_map[aid] = expr
+            aid += 1
+        else:
             # add atomic node between any TL and BZ nodes
             tl_parents = {
-                p for p in expr.parents if p.engine == types.R2U2Engine.TEMPORAL_LOGIC
+                p
+                for p in expr.parents
+                if p.engine == types.R2U2Engine.TEMPORAL_LOGIC
+                and any(c is expr for c in p.children)
             }
 
             if expr.engine != types.R2U2Engine.BOOLEANIZER or len(tl_parents) == 0:
-- 
2.43.0


From a7fbdbe991beb2be12ac36440190b316287786ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 065/106] fix: an empty SMT encoding was written or solved if a
 signal has an unsupported type

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 5975e7a..5c138d7 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -972,14 +972,14 @@ def to_uflia_smtlib2(
     for signal, typ in context.signals.items():
         if typ != types.BoolType() and typ != types.IntType():
             log.error(f"unsupported type '{typ}' ({signal})")
-            return ""
+            return None
         atomic_map[signal] = f"f_{signal}"
         smt_commands.append(f"(declare-fun f_{signal} (Int) {to_smt_type(typ)})")
 
     for variable, typ in context.variables.items():
         if typ != types.BoolType() and typ != types.IntType():
             log.error(f"unsupported type '{typ}' ({variable})")
-            return ""
+            return None
         atomic_map[variable] = f"p_{variable}"
         smt_commands.append(f"(declare-fun p_{variable} (Int) {to_smt_type(typ)})")
 
-- 
2.43.0


From e3c36931c9fb67718bdfcaa83979f6d81963dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 066/106] fix: a program without any atomics counted as having
 computed atomics

---
 compiler/c2po/cpt.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index fd5ac34..82674c6 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2394,7 +2394,7 @@ def has_no_extended_operators(program: Program, context: Context) -> bool:
     )
 
 def has_computed_atomics(program: Program, context: Context) -> bool:
-    """Returns True if the program contains computed atomics. Computed atomics should be present for all Atomics or, if the booleanizer is disabled, for all Signals."""
+    """Returns True if the program contains computed atomics. Computed atomics should be present for all Atomics or, if the booleanizer is disabled, for all Signals. If the Booleanizer is enabled, there must be an Atomic between any TL and BZ expression."""
     return all(
         expr in context.atomic_id_map
         for expr in program.postorder(context)
@@ -2404,6 +2404,12 @@ def has_computed_atomics(program: Program, context: Context) -> bool:
                 and isinstance(expr, Signal)
             )
         )
+    ) and not any(
+        expr.engine == types.R2U2Engine.TEMPORAL_LOGIC
+        and child.engine == types.R2U2Engine.BOOLEANIZER
+        and not isinstance(child, (Atomic, Constant))
+        for expr in program.postorder(context)
+        for child in expr.children
     )
 
 
-- 
2.43.0


From 4d5fe22f1d0193fb7eb94cc02b41e00f19db289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 067/106] fix: the signals that convert_atomics_to_signals adds
 were not declared

---
 compiler/c2po/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0dd4e06..b5af242 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -575,6 +575,7 @@ def convert_atomics_to_signals(program: cpt.Program, context: cpt.Context, optio
             aid = context.atomic_id_map[child]
             signal = cpt.Signal(child.loc, f"a{aid}", types.BoolType())
             signal.signal_id = aid
+            context.add_signal(signal.symbol, signal.type)
             expr.children[i] = signal
             signal.parents.add(expr)
             replaced_count += 1
-- 
2.43.0


From 599b59da84a21c047e0feabee0805154d7bb86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 068/106] fix: a program with unexpanded definitions counted as
 desugared

---
 compiler/c2po/cpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 82674c6..111de38 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2354,6 +2354,9 @@ def is_desugared(program: Program, context: Context) -> bool:
             ),
         ):
             return False
+        # Definitions and enum members
+        if isinstance(expr, Variable) and program.is_well_typed and expr.symbol not in context.variables:
+            return False
     return True
 
 def has_valid_scq_sizes(program: Program, context: Context) -> bool:
-- 
2.43.0


From f76f79d66433764ffc1357f38866c0044375890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 069/106] fix: arithmetic on bools and modulo by zero were
 accepted, modulo of floats crashed the assembler

---
 compiler/c2po/type_check.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 4c6e279..d5714ed 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -414,7 +414,22 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
-            if expr.operator is cpt.OperatorKind.ARITHMETIC_DIVIDE:
+            for child in expr.children:
+                if types.is_bool_type(child.type):
+                    log.error(
+                        f"Invalid operands for '{expr.symbol}', found 'bool' ('{child}') but expected 'int' or 'float'\n    {expr}",
+                        expr.loc,
+                    )
+                    return False
+
+            if expr.operator is cpt.OperatorKind.ARITHMETIC_MODULO and types.is_float_type(new_type):
+                log.error(
+                    f"modulo invalid for floating point expressions\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
+            if expr.operator in {cpt.OperatorKind.ARITHMETIC_DIVIDE, cpt.OperatorKind.ARITHMETIC_MODULO}:
                 rhs = expr.children[1]
                 # TODO: disallow division by non-const expression entirely
                 if isinstance(rhs, cpt.Constant) and rhs.value == 0:
-- 
2.43.0


From 901738c3a6797a1fbb5c33822f62d64c50fbada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 070/106] fix: empty sets and aggregations over a non-set
 crashed the parser or were reported as internal errors

---
 compiler/c2po/parse_c2po.py |  2 +-
 compiler/c2po/type_check.py | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index c888db7..90f8f2b 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -413,7 +413,7 @@ class C2POParser(sly.Parser):
     # Empty array expression
     @_("LBRACE RBRACE")
     def expr(self, p):
-        return cpt.ArrayExpression(ln, [])
+        return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])
 
     # Parameterized set aggregation expression
     @_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index d5714ed..07e03ff 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -84,9 +84,9 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if symbol in context.bound_vars:
                 set_expr = context.bound_vars[symbol]
                 if not types.is_array_type(set_expr.type):
-                    log.internal(
-                        f"set aggregation set not assigned to type 'set', found '{set_expr.type}'\n    "
-                        f"{expr}",
+                    log.error(
+                        f"set aggregation set must be Set type (found '{set_expr.type}')\n    {set_expr}",
+                        expr.loc,
                     )
                     return False
 
@@ -267,6 +267,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
+            if s.type.size == 0:
+                log.error(
+                    f"set aggregation over an empty set\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             if expr.operator in {
                 cpt.SetAggregationKind.FOR_EXACTLY,
                 cpt.SetAggregationKind.FOR_AT_MOST,
-- 
2.43.0


From d5949c85a3525b91f3f661aa56715b9a1cf22557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 071/106] fix: values too large for the instruction format
 crashed the assembler

---
 compiler/c2po/assemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 7230f77..2079824 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 from dataclasses import dataclass
 from enum import Enum
-from struct import Struct as CStruct
+from struct import Struct as CStruct, error as CStructError
 from typing import Any, Optional, Union, cast
 from c2po import cpt, log, types, command, scq, atomics
 
@@ -1079,7 +1079,11 @@ def assemble(
     binary += CStruct("B").pack(len(binary_header) + 1) + binary_header
 
     for instr in assembly:
-        binary += pack_instruction(instr, field_format_str_map)
+        try:
+            binary += pack_instruction(instr, field_format_str_map)
+        except CStructError:
+            log.error(f"value not representable in the instruction format: {instr}")
+            return command.ReturnCode.ASSEMBLY_ERROR
 
     binary += b"\x00"
 
-- 
2.43.0


From 82962df3c262290cc451d49dda00867e4aeda97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 072/106] fix: definitions with future-time operators were
 rejected, and mixed-time formulas through definitions and labels crashed the
 assembler

---
 compiler/c2po/type_check.py | 43 ++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 07e03ff..a612e1b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -316,22 +316,6 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
 
-            # check for mixed-time formulas
-            if cpt.is_future_time_operator(expr):
-                if context.is_past_time():
-                    log.error(
-                        f"mixed-time formulas unsupported, found FT formula in PTSPEC\n    {expr}",
-                        expr.loc,
-                    )
-                    return False
-            elif cpt.is_past_time_operator(expr):
-                if context.is_future_time():
-                    log.error(
-                        f"mixed-time formulas unsupported, found PT formula in FTSPEC\n    {expr}",
-                        expr.loc,
-                    )
-                    return False
-
             interval = expr.interval
             if not interval:
                 log.internal(
@@ -612,6 +596,31 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
     return True
 
 
+def check_mixed_time(start: cpt.Expression, context: cpt.Context, visited: set[str]) -> bool:
+    """Returns True if `start` and all definitions and specifications that it refers to only use temporal operators of the current section."""
+    for expr in cpt.postorder(start, context):
+        if cpt.is_future_time_operator(expr):
+            if context.is_past_time():
+                log.error(
+                    f"mixed-time formulas unsupported, found FT formula in PTSPEC\n    {expr}",
+                    expr.loc,
+                )
+                return False
+        elif cpt.is_past_time_operator(expr):
+            if context.is_future_time():
+                log.error(
+                    f"mixed-time formulas unsupported, found PT formula in FTSPEC\n    {expr}",
+                    expr.loc,
+                )
+                return False
+        elif isinstance(expr, cpt.Variable) and expr.symbol not in context.bound_vars and expr.symbol not in visited:
+            visited.add(expr.symbol)
+            for symbols in (context.definitions, context.specifications):
+                if expr.symbol in symbols and not check_mixed_time(symbols[expr.symbol], context, visited):
+                    return False
+
+    return True
+
 def type_check_section(section: cpt.ProgramSection, symbols: set[str], context: cpt.Context, options: dict[str, Any]) -> bool:
     status = True
 
@@ -712,7 +721,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 )
 
             symbols.add(spec.symbol)
-            is_good_spec = type_check_expr(spec, context, options)
+            is_good_spec = type_check_expr(spec, context, options) and check_mixed_time(spec, context, set())
             status = status and is_good_spec
 
     return status
-- 
2.43.0


From bdd1ab4f91cc46115ddaeb5c470a4dbd5d577011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 073/106] fix: a name could be declared again in another
 section or twice in an enum

---
 compiler/c2po/type_check.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a612e1b..4ce0e9b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -686,23 +686,32 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
         for enum in section.enum_defs:
-            if enum.symbol in context.get_symbols():
+            if enum.symbol in symbols:
                 status = False
                 log.error(
                     f"Symbol '{enum.symbol}' already in use",
                     enum.loc,
                 )
-            for member_name, member_expr in enum.members.items():
-                if (not isinstance(member_expr, cpt.Constant)) or (not types.is_integer_type(member_expr.type)):
+            symbols.add(enum.symbol)
+            enum_members: set[str] = set().union(*context.enums.values())
+            members: set[str] = set()
+            for definition in enum.var_defs:
+                # different enums may share the names of members
+                if definition.symbol in members or (
+                    definition.symbol in symbols and definition.symbol not in enum_members
+                ):
                     status = False
                     log.error(
-                        f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
+                        f"Symbol '{definition.symbol}' already in use",
                         enum.loc,
                     )
-                if member_name in context.get_symbols() or member_name == enum.symbol:
+                members.add(definition.symbol)
+                symbols.add(definition.symbol)
+            for member_name, member_expr in enum.members.items():
+                if (not isinstance(member_expr, cpt.Constant)) or (not types.is_integer_type(member_expr.type)):
                     status = False
                     log.error(
-                        f"Symbol '{member_name}' already in use",
+                        f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
             context.add_enum(enum.symbol, enum.members)
@@ -742,7 +751,8 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
 
     status = True
     for section in program.sections:
-        is_good = type_check_section(section, set(), context, options)
+        symbols = set(context.get_symbols()).union(*context.enums.values())
+        is_good = type_check_section(section, symbols, context, options)
         status = status and is_good
 
     if not status:
-- 
2.43.0


From cbcc924d60965c1b9b2f305933ec69ccd374f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 074/106] fix: struct instantiations with too few or too many
 arguments were accepted

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 4ce0e9b..86a17df 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -230,7 +230,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             target_types = [m for m in context.structs[expr.symbol].values()]
             actual_types = [c.type for c in expr.children]
 
-            if any(
+            if len(target_types) != len(actual_types) or any(
                 [
                     target_type != actual_type
                     for target_type, actual_type in zip(target_types, actual_types)
-- 
2.43.0


From 458d5899d465433a70fdcff9da945fc2d8fcb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 075/106] fix: undefined types and repeated struct members were
 accepted, enum members of structs could not be instantiated

---
 compiler/c2po/type_check.py | 38 +++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 86a17df..a8ecfea 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -1,4 +1,4 @@
-from typing import cast, Any
+from typing import cast, Any, Optional
 from c2po import cpt, log, types, command
 
 
@@ -596,6 +596,18 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
     return True
 
 
+def resolve_type(t: types.Type, context: cpt.Context, loc: log.FileLocation) -> Optional[types.Type]:
+    """Returns the type that the declared type `t` refers to, None if it refers to an undefined symbol."""
+    if isinstance(t, types.ArrayType):
+        member_type = resolve_type(t.member_type, context, loc)
+        return types.ArrayType(member_type, t.is_const, t.size) if member_type else None
+    elif isinstance(t, types.StructType) and t.symbol in context.enums:
+        return types.EnumType(t.symbol)
+    elif isinstance(t, types.StructType) and t.symbol not in context.structs:
+        log.error(f"type '{t}' not recognized", loc)
+        return None
+    return t
+
 def check_mixed_time(start: cpt.Expression, context: cpt.Context, visited: set[str]) -> bool:
     """Returns True if `start` and all definitions and specifications that it refers to only use temporal operators of the current section."""
     for expr in cpt.postorder(start, context):
@@ -626,6 +638,10 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
 
     if isinstance(section, cpt.InputSection):
         for declaration in section.signal_decls:
+            declared_type = resolve_type(declaration.type, context, declaration.loc)
+            status = status and declared_type is not None
+            declaration.type = declared_type or declaration.type
+
             for signal in declaration.variables:
                 if signal in symbols:
                     status = False
@@ -634,9 +650,6 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         declaration.loc,
                     )
 
-                if declaration.type.symbol in context.enums:
-                    declaration.type = types.EnumType(declaration.type.symbol)
-
                 symbols.add(signal)
                 context.add_signal(signal, declaration.type)
 
@@ -683,6 +696,23 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 )
 
             symbols.add(struct.symbol)
+
+            members: set[str] = set()
+            for declaration in struct.var_decls:
+                declared_type = resolve_type(declaration.type, context, declaration.loc)
+                status = status and declared_type is not None
+                declaration.type = declared_type or declaration.type
+
+                for member in declaration.variables:
+                    if member in members:
+                        status = False
+                        log.error(
+                            f"member '{member}' already in use in struct '{struct.symbol}'",
+                            declaration.loc,
+                        )
+                    members.add(member)
+                    struct.members[member] = declaration.type
+
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
         for enum in section.enum_defs:
-- 
2.43.0


From 0cb4fa36956a8c39382edc38b5c038f07a2408bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 076/106] fix: values of enum members outside the int type were
 accepted

---
 compiler/c2po/type_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a8ecfea..4a00f62 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -738,6 +738,8 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                 members.add(definition.symbol)
                 symbols.add(definition.symbol)
             for member_name, member_expr in enum.members.items():
+                if isinstance(member_expr, cpt.Constant) and not type_check_expr(member_expr, context, options):
+                    status = False
                 if (not isinstance(member_expr, cpt.Constant)) or (not types.is_integer_type(member_expr.type)):
                     status = False
                     log.error(
-- 
2.43.0


From c812f001ec29e319e412f535e8669ba996e17c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 077/106] fix: comparisons of bools could not be compiled
 without the Booleanizer

---
 compiler/c2po/transform.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index b5af242..8c5efe7 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -396,7 +396,19 @@ def remove_extended_operators(program: cpt.Program, context: cpt.Context, option
         if not isinstance(expr, cpt.Operator):
             continue
 
-        if expr.operator is cpt.OperatorKind.LOGICAL_XOR:
+        if (
+            not context.enable_booleanizer
+            and expr.operator in {cpt.OperatorKind.EQUAL, cpt.OperatorKind.NOT_EQUAL}
+            and types.is_bool_type(expr.children[0].type)
+        ):
+            # without the Booleanizer, only the temporal logic engine can compare truth values
+            equiv = cpt.Operator.LogicalIff(expr.loc, expr.children[0], expr.children[1])
+            expr.replace(
+                equiv
+                if expr.operator is cpt.OperatorKind.EQUAL
+                else cpt.Operator.LogicalNegate(expr.loc, equiv)
+            )
+        elif expr.operator is cpt.OperatorKind.LOGICAL_XOR:
             lhs = expr.children[0]
             rhs = expr.children[1]
             # p xor q = !(p <-> q)
-- 
2.43.0


From e5e7eb02ea691d19c04284b333ee7043d7993d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 078/106] fix: arithmetic and bitwise operators on enum members
 crashed the compiler

---
 compiler/c2po/type_check.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 4a00f62..47bf98a 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -374,6 +374,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
+            for child in expr.children:
+                if types.is_enum_type(child.type) and child.type.symbol not in context.enums:
+                    log.error(
+                        f"Invalid operands for '{expr.symbol}', found enum member '{child}'\n    {expr}",
+                        expr.loc,
+                    )
+                    return False
+
             for child in expr.children:
                 if isinstance(child, cpt.ArrayExpression) or isinstance(child, cpt.ArraySlice):
                     log.error(
@@ -405,6 +413,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
+            for child in expr.children:
+                if types.is_enum_type(child.type) and child.type.symbol not in context.enums:
+                    log.error(
+                        f"Invalid operands for '{expr.symbol}', found enum member '{child}'\n    {expr}",
+                        expr.loc,
+                    )
+                    return False
+
             for child in expr.children:
                 if types.is_bool_type(child.type):
                     log.error(
-- 
2.43.0


From 4db2d68d6bec60188f9ca271cb3bae5d27d0bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 079/106] fix: a program without specifications was rejected
 without a message

---
 compiler/c2po/assemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 2079824..51fb6e0 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1069,7 +1069,11 @@ def assemble(
 
     assembly = gen_assembly(program, context)
 
-    if not assembly:
+    if assembly is None:
+        return command.ReturnCode.ASSEMBLY_ERROR
+
+    if len(assembly) == 0:
+        log.error("program has no specifications", program.loc)
         return command.ReturnCode.ASSEMBLY_ERROR
 
     binary = bytes()
-- 
2.43.0


From de62e6b308b6f6344159dd505daa3566008d5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 080/106] fix: files whose names contain spaces or quotes could
 not be compiled

---
 compiler/c2po/main.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index 24434dc..da7731d 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -295,17 +295,17 @@ def cli(
 
     spec_path = pathlib.Path(spec_filename)
     if spec_path.suffix == ".c2po":
-        script_lines.append(f"parse_c2po {spec_path}")
+        script_lines.append(f"parse_c2po {shlex.quote(str(spec_path))}")
     elif spec_path.suffix == ".mltl":
-        script_lines.append(f"parse_mltl {spec_path}")
+        script_lines.append(f"parse_mltl {shlex.quote(str(spec_path))}")
     else:
         log.error(f"invalid specification file: {spec_path}")
         return command.ReturnCode.FILE_NOT_FOUND
 
     if trace_filename:
-        script_lines.append(f"parse_trace {trace_filename}")
+        script_lines.append(f"parse_trace {shlex.quote(trace_filename)}")
     if map_filename:
-        script_lines.append(f"parse_map {map_filename}")
+        script_lines.append(f"parse_map {shlex.quote(map_filename)}")
 
     if only_parse:
         script_lines.append("exit")
@@ -325,9 +325,9 @@ def cli(
                   f"--{'no-' if not enable_eqsat_associative else ''}associative " \
                   f"--{'no-' if not enable_eqsat_commutative else ''}commutative " \
                   f"--{'no-' if not enable_eqsat_multi_arity else ''}multi-arity " \
-                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal" \
-                  f"{f'--egglog-bin {egglog_path}' if egglog_path else ''} " \
-                  f"{f'--smt-solver-path {smt_solver_path}' if smt_solver_path else ''}"
+                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal " \
+                  f"{f'--egglog-bin {shlex.quote(egglog_path)}' if egglog_path else ''} " \
+                  f"{f'--smt-solver-path {shlex.quote(smt_solver_path)}' if smt_solver_path else ''}"
         script_lines.append(cmd)
     elif enable_rewrite:
         script_lines.append("optimize_rewrites")
@@ -350,14 +350,14 @@ def cli(
     script_lines.append("remove_extended_operators")
 
     if output_filename:
-        script_lines.append(f"assemble {'--aux' if enable_aux else '--no-aux'} {'--print' if not quiet else ''} {'--scq-constant ' + str(scq_constant) if scq_constant > 0 else ''} {output_filename}")
+        script_lines.append(f"assemble {'--aux' if enable_aux else '--no-aux'} {'--print' if not quiet else ''} {'--scq-constant ' + str(scq_constant) if scq_constant > 0 else ''} {shlex.quote(output_filename)}")
 
     if write_bounds_filename:
         bounds_path = pathlib.Path(write_bounds_filename)
         if bounds_path.suffix == ".h":
-            script_lines.append(f"write_bounds_c {bounds_path}")
+            script_lines.append(f"write_bounds_c {shlex.quote(str(bounds_path))}")
         elif bounds_path.suffix == ".toml":
-            script_lines.append(f"write_bounds_rust {bounds_path}")
+            script_lines.append(f"write_bounds_rust {shlex.quote(str(bounds_path))}")
         else:
             log.error(f"invalid bounds file: {bounds_path}")
             return command.ReturnCode.FILE_NOT_FOUND
-- 
2.43.0


From a77ce0a91d51bffc7516772155092ee6b4c1e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 081/106] fix: the constant true was one bit per word in
 generated Sabre code

---
 compiler/c2po/sabre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 88ddbc1..b2de54b 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -54,7 +54,7 @@ def gen_code(
         # check if expr is a constant true/false
         if isinstance(expr, cpt.Constant) and expr.value in [True, False]:
             return line(
-                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {int(expr.value)};", indent
+                f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = {'~ 0' if expr.value else '0'};", indent
             )
         if cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             return line(
-- 
2.43.0


From bea18b0475ada6410804af474b1716f79ea1d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 082/106] fix: generated Sabre code compared the operands of
 <-> by words instead of bits

---
 compiler/c2po/sabre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index b2de54b..b65bc1b 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -83,7 +83,7 @@ def gen_code(
             rhs = expr.children[1]
             return line(
                 f"{fid[expr]}[({tau} - {word_wpd[expr]}) % {size[expr]}] = "
-                f"({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] == {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
+                f"~ ({fid[lhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}] ^ {fid[rhs]}[({tau} - {word_wpd[expr]}) % {size[expr]}]);", indent
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_XOR):
             lhs = expr.children[0]
-- 
2.43.0


From 27d2ff6ac672a659197c7fc8276befb2cfc1bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 083/106] fix: generated Sabre code shifted by more than the
 word size and read beyond its buffers

---
 compiler/c2po/sabre.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index b65bc1b..1defad3 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -236,10 +236,13 @@ uint{word_size}_t future(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+        uint64_t leftover_words = leftover_shift >> {log_word_size};
+        uint64_t leftover_bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + leftover_words < nbuf; ++i) {{ 
+            buf[i] |= (leftover_bits == 0) ?
+                buf[i + leftover_words] :
+                (buf[i + leftover_words] << leftover_bits) | 
+                    ((i + leftover_words + 1 < nbuf) ? (buf[i + leftover_words + 1] >> ({word_size} - leftover_bits)) : 0);
         }}
     }} 
   
@@ -273,10 +276,13 @@ uint{word_size}_t global(uint{word_size}_t *a, uint{word_size}_t *buf, uint64_t
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf[i + (leftover_shift >> {log_word_size})] :
-                (buf[i] << leftover_shift) | (buf[i+1] >> ({word_size} - leftover_shift));
+        uint64_t leftover_words = leftover_shift >> {log_word_size};
+        uint64_t leftover_bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + leftover_words < nbuf; ++i) {{ 
+            buf[i] &= (leftover_bits == 0) ?
+                buf[i + leftover_words] :
+                (buf[i + leftover_words] << leftover_bits) | 
+                    ((i + leftover_words + 1 < nbuf) ? (buf[i + leftover_words + 1] >> ({word_size} - leftover_bits)) : 0);
         }}
     }} 
     
@@ -319,13 +325,17 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
 
     if (((ub - lb + 1) & (j - 1)) != 0) {{
         uint64_t leftover_shift = (ub - lb + 1) & (j - 1);
-        for(i = 0; i < nbuf; ++i) {{ 
-            buf2[i] |= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i] & buf2[i + (leftover_shift >> {log_word_size})] :
-                buf1[i] & ((buf2[i] << leftover_shift) | (buf2[i+1] >> ({word_size} - leftover_shift)));
-            buf1[i] &= ((leftover_shift & {word_size - 1}) == 0) ?
-                buf1[i + (leftover_shift >> {log_word_size})] :
-                (buf1[i] << leftover_shift) | (buf1[i+1] >> ({word_size} - leftover_shift));
+        uint64_t leftover_words = leftover_shift >> {log_word_size};
+        uint64_t leftover_bits = leftover_shift & {word_size - 1};
+        for(i = 0; i + leftover_words < nbuf; ++i) {{ 
+            buf2[i] |= buf1[i] & ((leftover_bits == 0) ?
+                buf2[i + leftover_words] :
+                ((buf2[i + leftover_words] << leftover_bits) | 
+                    ((i + leftover_words + 1 < nbuf) ? (buf2[i + leftover_words + 1] >> ({word_size} - leftover_bits)) : 0)));
+            buf1[i] &= (leftover_bits == 0) ?
+                buf1[i + leftover_words] :
+                ((buf1[i + leftover_words] << leftover_bits) | 
+                    ((i + leftover_words + 1 < nbuf) ? (buf1[i + leftover_words + 1] >> ({word_size} - leftover_bits)) : 0));
         }}
     }} 
 
-- 
2.43.0


From 30c705ed6d98a700023db8cdc3f776b27248acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 084/106] fix: generated Sabre code for U with a lower bound
 above 0 used too wide a window

---
 compiler/c2po/sabre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 1defad3..53ca6d8 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -307,7 +307,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
             );
     }}
 
-    for(j = 1; j <= (({word_size // 2} < ((ub + 1) >> 1)) ? {word_size // 2} : (ub + 1) >> 1); j <<= 1) {{
+    for(j = 1; j <= (({word_size // 2} < ((ub - lb + 1) >> 1)) ? {word_size // 2} : (ub - lb + 1) >> 1); j <<= 1) {{
         for(i = 0; i < nbuf - 1; ++i) {{
             buf2[i] |= buf1[i] & ((buf2[i] << j) | (buf2[i+1] >> ({word_size} - j)));
             buf1[i] &= (buf1[i] << j) | (buf1[i+1] >> ({word_size} - j));
@@ -316,7 +316,7 @@ uint{word_size}_t until(uint{word_size}_t *a1, uint{word_size}_t *a2, uint{word_
         buf1[nbuf - 1] &= buf1[nbuf - 1] << j;
     }}
 
-    for(; j <= (ub + 1) >> 1; j <<= 1) {{
+    for(; j <= (ub - lb + 1) >> 1; j <<= 1) {{
         for(i = 0; (i + (j >> {log_word_size})) < nbuf; ++i) {{
             buf2[i] |= buf1[i] & buf2[i + (j >> {log_word_size})];
             buf1[i] &= buf1[i + (j >> {log_word_size})];
-- 
2.43.0


From 6418413dabc73755a66e32c8e1535539c211f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 085/106] fix: operators that Sabre does not support were
 reported as internal errors

---
 compiler/c2po/sabre.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 53ca6d8..f3bf0ee 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -6,6 +6,18 @@ from c2po import cpt, command, log
 TAB = "    "
 BUFSZ2 = True # force buffer size to be a power of 2 (modulo operations become bitwise-ands)
 
+SUPPORTED_OPERATORS = {
+    cpt.OperatorKind.LOGICAL_NEGATE,
+    cpt.OperatorKind.LOGICAL_AND,
+    cpt.OperatorKind.LOGICAL_OR,
+    cpt.OperatorKind.LOGICAL_IMPLIES,
+    cpt.OperatorKind.LOGICAL_EQUIV,
+    cpt.OperatorKind.LOGICAL_XOR,
+    cpt.OperatorKind.FUTURE,
+    cpt.OperatorKind.GLOBAL,
+    cpt.OperatorKind.UNTIL,
+}
+
 def ceildiv(a: int, b: int) -> int:
     return -(a // -b)
 
@@ -493,6 +505,11 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
                 log.error(f"formula symbol '{symbol}' is a contract")
                 return command.ReturnCode.ERROR
 
+    for expr in cpt.postorder(spec.get_expr(), context):
+        if isinstance(expr, cpt.Operator) and expr.operator not in SUPPORTED_OPERATORS:
+            log.error(f"operator '{expr.symbol}' not supported in Sabre code\n    {expr}", expr.loc)
+            return command.ReturnCode.ERROR
+
     code = gen_code(spec.get_expr(), context, options["word_size"], nsigs, options["raw_bytes"], options["profile"])
     if code is None:
         log.error(f"failed to generate Sabre code for {spec.symbol}")
-- 
2.43.0


From bd9ba0bacc5265ff625d8ceac35aab3a9e1157f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 086/106] fix: generated Sabre code confused signals and wrote
 beyond its inputs depending on the names of the signals

---
 compiler/c2po/sabre.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index f3bf0ee..3fa451c 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -1,4 +1,5 @@
 import math
+import re
 from typing import cast, Any
 
 from c2po import cpt, command, log
@@ -27,6 +28,12 @@ def hexlit(value: int, word_size: int) -> str:
 def line(s: str, indent: int = 0) -> str:
     return f"{TAB*indent}{s}\n"
 
+def get_signal_index(signal: cpt.Signal) -> int:
+    """Returns the index of `signal` in the input: its ID in the signal mapping or, for unmapped signals `a0`, `a1`, ..., the number in its name. Returns -1 if it has none."""
+    if signal.signal_id < 0 and re.fullmatch("a[0-9]+", signal.symbol):
+        return int(signal.symbol[1:])
+    return signal.signal_id
+
 def gen_code(
     formula: cpt.Expression,
     context: cpt.Context,
@@ -145,7 +152,7 @@ def gen_code(
     cnt = 0
     for expr in cpt.postorder(formula, context):
         if isinstance(expr, cpt.Signal):
-            aid = int(str(expr)[1:])
+            aid = get_signal_index(expr)
             fid[expr] = f"atomics[{aid}]"
         else:
             fid[expr] = f"f_{cnt}"
@@ -471,11 +478,6 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
     Returns:
         A ReturnCode.SUCCESS if the Sabre code was generated successfully, ReturnCode.ERROR otherwise.
     """
-    if options["nsigs"] == -1:
-        nsigs = program.get_num_signals(context)
-    else:
-        nsigs = options["nsigs"]
-    
     spec = None
     if options["formula"] is None:
         for spec_ in program.ft_spec_set.get_specs():
@@ -505,7 +507,17 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
                 log.error(f"formula symbol '{symbol}' is a contract")
                 return command.ReturnCode.ERROR
 
+    nsigs = 1 + max([get_signal_index(s) for s in program.postorder(context) if isinstance(s, cpt.Signal)] + [0])
+    if options["nsigs"] != -1:
+        nsigs = options["nsigs"]
+
     for expr in cpt.postorder(spec.get_expr(), context):
+        if isinstance(expr, cpt.Signal) and get_signal_index(expr) < 0:
+            log.error(f"signal '{expr.symbol}' not found in mapping", expr.loc)
+            return command.ReturnCode.ERROR
+        if isinstance(expr, cpt.Signal) and get_signal_index(expr) >= nsigs:
+            log.error(f"signal '{expr.symbol}' has ID {get_signal_index(expr)}, number of signals must be larger", expr.loc)
+            return command.ReturnCode.ERROR
         if isinstance(expr, cpt.Operator) and expr.operator not in SUPPORTED_OPERATORS:
             log.error(f"operator '{expr.symbol}' not supported in Sabre code\n    {expr}", expr.loc)
             return command.ReturnCode.ERROR
-- 
2.43.0


From 0591ebc930e105ba8734b64819a2cf01c43bdf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 087/106] fix: generate_sabre_code failed if the output is a
 directory

---
 compiler/c2po/sabre.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/sabre.py b/compiler/c2po/sabre.py
index 3fa451c..e9f46cc 100644
--- a/compiler/c2po/sabre.py
+++ b/compiler/c2po/sabre.py
@@ -1,4 +1,5 @@
 import math
+import pathlib
 import re
 from typing import cast, Any
 
@@ -526,7 +527,10 @@ def generate_sabre_code(program: cpt.Program, context: cpt.Context, options: dic
     if code is None:
         log.error(f"failed to generate Sabre code for {spec.symbol}")
         return command.ReturnCode.ERROR
-    with open(options["output"], "w") as f:
+    output_path = pathlib.Path(options["output"])
+    if output_path.is_dir():
+        output_path = output_path / f"{spec.symbol}.c"
+    with open(output_path, "w") as f:
         f.write(code)
     
     return command.ReturnCode.SUCCESS
-- 
2.43.0


From 265f37e1aa7f8b3f87acab3fbdd793438f16d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:47 +0000
Subject: [PATCH 088/106] fix: the Rust Since/Trigger forget the edge when the
 chain breaks and consume operands that run ahead

---
 monitors/rust/r2u2_core/src/engines/mltl.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/mltl.rs b/monitors/rust/r2u2_core/src/engines/mltl.rs
index 03f8ade..a5ce957 100644
--- a/monitors/rust/r2u2_core/src/engines/mltl.rs
+++ b/monitors/rust/r2u2_core/src/engines/mltl.rs
@@ -758,6 +758,8 @@ fn since_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2u2
                 }
             }
             if ready_op0 && !value_op0.truth {
+                // Left operand broke the chain, so an earlier true right operand no longer counts
+                queue_ctrl.temporal_block.edge.truth = false;
                 queue_ctrl.next_time = value_op1.time.saturating_add(1);
                 if value_op1.time >= queue_ctrl.temporal_block.previous.time.saturating_sub(queue_ctrl.temporal_block.lower_bound){
                     verdict.time = value_op1.time.saturating_add(queue_ctrl.temporal_block.lower_bound);
@@ -775,16 +777,20 @@ fn since_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2u2
         }
     }
     let start_interval = queue_ctrl.temporal_block.previous.time.checked_sub(queue_ctrl.temporal_block.upper_bound);
-    if ready_op0 && value_op0.truth && value_op0.time >= queue_ctrl.temporal_block.previous.time.saturating_sub(queue_ctrl.temporal_block.lower_bound) &&
+    if ready_op0 && value_op0.truth &&
         ((queue_ctrl.temporal_block.edge.truth) && (start_interval.is_none() || queue_ctrl.temporal_block.edge.time > start_interval.unwrap_or(0))){
         verdict.time = min(value_op0.time.saturating_add(queue_ctrl.temporal_block.lower_bound), queue_ctrl.temporal_block.edge.time.saturating_add(queue_ctrl.temporal_block.upper_bound));
         verdict.truth = true;
 
+        // The right operand is only used up to where the left operand is known and the edge is in range
+        if ready_op1 {
+            queue_ctrl.next_time = max(queue_ctrl.next_time, min(value_op1.time, verdict.time - queue_ctrl.temporal_block.lower_bound).saturating_add(1));
+        }
+
         if verdict.time > queue_ctrl.temporal_block.previous.time ||
         (verdict.time == 0 && !queue_ctrl.temporal_block.previous.truth) {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("Left Op True Since Right Op True");
-            queue_ctrl.next_time = max(queue_ctrl.next_time, verdict.time.saturating_sub(queue_ctrl.temporal_block.upper_bound).saturating_add(1));
             queue_ctrl.temporal_block.previous = r2u2_verdict{time: verdict.time, truth: true};
             return Some(verdict);
         }
@@ -972,6 +978,8 @@ fn trigger_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2
                 }
             }
             if ready_op0 && value_op0.truth {
+                // Left operand released the right operand, so an earlier false right operand no longer counts
+                queue_ctrl.temporal_block.edge.truth = false;
                 queue_ctrl.next_time = value_op1.time.saturating_add(1);
                 if value_op1.time >= queue_ctrl.temporal_block.previous.time.saturating_sub(queue_ctrl.temporal_block.lower_bound){
                     verdict.time = value_op1.time.saturating_add(queue_ctrl.temporal_block.lower_bound);
@@ -989,16 +997,20 @@ fn trigger_operator(ready_op0: r2u2_bool, value_op0: r2u2_verdict, ready_op1: r2
         }
     }
     let start_interval = queue_ctrl.temporal_block.previous.time.checked_sub(queue_ctrl.temporal_block.upper_bound);
-    if ready_op0 && !value_op0.truth && value_op0.time >= queue_ctrl.temporal_block.previous.time.saturating_sub(queue_ctrl.temporal_block.lower_bound) &&
+    if ready_op0 && !value_op0.truth &&
         ((queue_ctrl.temporal_block.edge.truth) && (start_interval.is_none() || queue_ctrl.temporal_block.edge.time > start_interval.unwrap_or(0))){
         verdict.time = min(value_op0.time.saturating_add(queue_ctrl.temporal_block.lower_bound), queue_ctrl.temporal_block.edge.time.saturating_add(queue_ctrl.temporal_block.upper_bound));
         verdict.truth = false;
 
+        // The right operand is only used up to where the left operand is known and the edge is in range
+        if ready_op1 {
+            queue_ctrl.next_time = max(queue_ctrl.next_time, min(value_op1.time, verdict.time - queue_ctrl.temporal_block.lower_bound).saturating_add(1));
+        }
+
         if verdict.time > queue_ctrl.temporal_block.previous.time ||
         (verdict.time == 0 && !queue_ctrl.temporal_block.previous.truth) {
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("Left Op False Since Right Op False");
-            queue_ctrl.next_time = max(queue_ctrl.next_time, verdict.time.saturating_sub(queue_ctrl.temporal_block.upper_bound).saturating_add(1));
             queue_ctrl.temporal_block.previous = r2u2_verdict{time: verdict.time, truth: true};
             return Some(verdict);
         }
-- 
2.43.0


From 3cc9c6394d9669abf1a00596f030c994001a3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 089/106] fix: the Rust monitor never finished a step with a
 constant operand

---
 monitors/rust/r2u2_core/src/engines/mltl.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/mltl.rs b/monitors/rust/r2u2_core/src/engines/mltl.rs
index a5ce957..08c89fa 100644
--- a/monitors/rust/r2u2_core/src/engines/mltl.rs
+++ b/monitors/rust/r2u2_core/src/engines/mltl.rs
@@ -31,11 +31,14 @@ fn check_operand_data(instr: MLTLInstruction, monitor: &mut Monitor, op_num: u8)
             }
         }
         MLTL_OP_TYPE_DIRECT => {
-            if instr.opcode == MLTL_OP_SINCE || instr.opcode == MLTL_OP_TRIGGER {
-                let queue_ctrl = monitor.queue_arena.control_blocks[instr.memory_reference as usize];
-                return Some(r2u2_verdict{time: monitor.time_stamp.saturating_add(queue_ctrl.temporal_block.upper_bound), truth: value != 0});
-            } else {
-                return Some(r2u2_verdict{time: monitor.time_stamp, truth: value != 0});
+            let queue_ctrl = monitor.queue_arena.control_blocks[instr.memory_reference as usize];
+            let mut time = monitor.time_stamp;
+            if op_num == 0 && (instr.opcode == MLTL_OP_SINCE || instr.opcode == MLTL_OP_TRIGGER) {
+                time = time.saturating_add(queue_ctrl.temporal_block.upper_bound);
+            }
+            // Like any other operand, a constant has no new data once it has been consumed for this time step
+            if time >= queue_ctrl.next_time {
+                return Some(r2u2_verdict{time: time, truth: value != 0});
             }
         }
         MLTL_OP_TYPE_SUBFORMULA => {
-- 
2.43.0


From 251bf87502375afbc5bcc3101745c2256af112ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 090/106] fix: the Rust monitor reported an overflow only if it
 was in the last integer operation of the step

---
 .../rust/r2u2_core/src/engines/booleanizer.rs | 32 ++++++++++++++-----
 monitors/rust/r2u2_core/src/engines/mod.rs    |  3 ++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index 5d1d647..6f9b12a 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -192,7 +192,9 @@ pub fn bz_update(monitor: &mut Monitor){
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("BZ INEG");
             let op = monitor.value_buffer[instr.param1 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_negative(op);
+            let (result, overflow) = integer_negative(op);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = (-1 * {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op);
         }
@@ -209,7 +211,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IADD");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_add(op0, op1);
+            let (result, overflow) = integer_add(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} + {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -227,7 +231,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ ISUB");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_subtract(op0, op1);
+            let (result, overflow) = integer_subtract(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} - {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -245,7 +251,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IMUL");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_multiply(op0, op1);
+            let (result, overflow) = integer_multiply(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} * {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -263,7 +271,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IDIV");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_divide(op0, op1);
+            let (result, overflow) = integer_divide(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} / {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -281,7 +291,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ MOD");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_mod(op0, op1);
+            let (result, overflow) = integer_mod(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} % {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -290,7 +302,9 @@ pub fn bz_update(monitor: &mut Monitor){
             debug_print!("BZ IPOW");
             let op0 = monitor.value_buffer[instr.param1 as usize].i;
             let op1 = monitor.value_buffer[instr.param2 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_power(op0, op1);
+            let (result, overflow) = integer_power(op0, op1);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = ({} pow {})", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op0, op1);
         }
@@ -323,7 +337,9 @@ pub fn bz_update(monitor: &mut Monitor){
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("BZ IABS");
             let op = monitor.value_buffer[instr.param1 as usize].i;
-            (monitor.value_buffer[instr.memory_reference as usize].i, monitor.overflow_error) = integer_absolute_value(op);
+            let (result, overflow) = integer_absolute_value(op);
+            monitor.value_buffer[instr.memory_reference as usize].i = result;
+            monitor.overflow_error |= overflow;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             debug_print!("b{} = {} = (|{}|)", instr.memory_reference, monitor.value_buffer[instr.memory_reference as usize].i, op);
         }
diff --git a/monitors/rust/r2u2_core/src/engines/mod.rs b/monitors/rust/r2u2_core/src/engines/mod.rs
index 0fb88aa..37018f1 100644
--- a/monitors/rust/r2u2_core/src/engines/mod.rs
+++ b/monitors/rust/r2u2_core/src/engines/mod.rs
@@ -32,6 +32,9 @@ pub fn r2u2_engine_step(monitor: &mut Monitor) -> r2u2_bool{
     #[cfg(feature = "aux_string_specs")]
     (monitor.contract_buffer_idx = 0);
     
+    // Overflow is reported per step, for any of its operations
+    monitor.overflow_error = false;
+
     // Run booleanizer instructions (once)
     while monitor.bz_program_count.curr_program_count < monitor.bz_program_count.max_program_count {
         bz_update(monitor);
-- 
2.43.0


From 834ac71d2fbe271354659f075e18d9b652442be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 091/106] fix: the Rust monitor saturated powers of negative
 numbers according to the parity of the base

---
 monitors/rust/r2u2_core/src/engines/booleanizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index 6f9b12a..07e7ea9 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -707,7 +707,7 @@ fn integer_mod(op0: r2u2_int, op1: r2u2_int) -> (result: (r2u2_int, r2u2_bool))
     }
 }
 
-#[verifier::external] // Verus doesn't support mod functionality (i.e., op0 % 2)
+#[verifier::external] // Verus doesn't support mod functionality (i.e., op1 % 2)
 #[inline(always)]
 fn integer_power(op0: r2u2_int, op1: r2u2_int) -> (result: (r2u2_int, r2u2_bool))
 {
@@ -715,7 +715,7 @@ fn integer_power(op0: r2u2_int, op1: r2u2_int) -> (result: (r2u2_int, r2u2_bool)
     match op0.checked_pow(op1 as u32) {
         Some(n) => { return (n, false); },
         None => {
-            if op0 < 0 && ((op0 % 2) != 0){
+            if op0 < 0 && ((op1 % 2) != 0){
                 return (r2u2_int::MIN, true);
             } else {
                 return (r2u2_int::MAX, true);
-- 
2.43.0


From a05860213e4b2b56ec75c77fcfceb9a542302dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 092/106] fix: the Rust monitor panicked on the remainder of
 the smallest integer and -1

---
 monitors/rust/r2u2_core/src/engines/booleanizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/rust/r2u2_core/src/engines/booleanizer.rs b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
index 07e7ea9..ab49b24 100644
--- a/monitors/rust/r2u2_core/src/engines/booleanizer.rs
+++ b/monitors/rust/r2u2_core/src/engines/booleanizer.rs
@@ -703,7 +703,8 @@ fn integer_mod(op0: r2u2_int, op1: r2u2_int) -> (result: (r2u2_int, r2u2_bool))
     if op1 == 0 {
         return (0, true);
     } else {
-        return (op0 % op1, false);
+        // The remainder of MIN and -1 is 0, although their quotient overflows
+        return (op0.wrapping_rem(op1), false);
     }
 }
 
-- 
2.43.0


From 78a1d8cfaaa8584651ed1c3d8f6b8058acdf1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 093/106] fix: the Rust monitor kept programs, inputs and names
 when another specification was loaded

---
 monitors/rust/r2u2_core/src/memory/monitor.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/monitors/rust/r2u2_core/src/memory/monitor.rs b/monitors/rust/r2u2_core/src/memory/monitor.rs
index 3079430..09fa343 100644
--- a/monitors/rust/r2u2_core/src/memory/monitor.rs
+++ b/monitors/rust/r2u2_core/src/memory/monitor.rs
@@ -87,9 +87,20 @@ impl Monitor{
     pub fn reset(&mut self) {
         self.clock_reset();
         self.bz_program_count.max_program_count = 0;
-        self.bz_program_count.max_program_count = 0;
+        self.mltl_program_count.max_program_count = 0;
         for elem in self.queue_arena.control_blocks.iter_mut() {
             *elem = SCQCtrlBlock::default();
         }
+        self.signal_buffer = [r2u2_value::default(); R2U2_MAX_SIGNALS];
+        self.value_buffer = [r2u2_value::default(); R2U2_MAX_BZ_INSTRUCTIONS];
+        self.atomic_buffer = [false; R2U2_MAX_ATOMICS];
+        self.output_buffer_idx = 0;
+        self.overflow_error = false;
+        #[cfg(feature = "aux_string_specs")]
+        {
+            self.formula_aux_string_table = [FormulaAuxiliaryInfo::default(); R2U2_AUX_MAX_FORMULAS];
+            self.contract_aux_string_table = [ContractAuxiliaryInfo::default(); R2U2_AUX_MAX_CONTRACTS];
+            self.contract_buffer_idx = 0;
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From fa89ef805a7247b105301d16b9b08158abb569e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:22 +0000
Subject: [PATCH 094/106] fix: the Rust monitor did not compile with debug
 output and auxiliary strings together

---
 .../rust/r2u2_core/src/internals/process_binary.rs     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/internals/process_binary.rs b/monitors/rust/r2u2_core/src/internals/process_binary.rs
index 8affc7b..a3f688b 100644
--- a/monitors/rust/r2u2_core/src/internals/process_binary.rs
+++ b/monitors/rust/r2u2_core/src/internals/process_binary.rs
@@ -102,16 +102,16 @@ pub fn process_binary_file(spec_file: &[u8], monitor: &mut memory::monitor::Moni
             match spec_file[offset] as char {
                 'C' => { // Contract auxiliary info
                     (monitor.contract_aux_string_table[aux_contract_num], length) = ContractAuxiliaryInfo::set_contract(&spec_file[offset..]);
-                    aux_contract_num += 1;
                     #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
-                    debug_print!("Mapping contract: {} to {}, {}, and {}", monitor.aux_string_table[i].spec_str, monitor.aux_string_table[i].spec_0,
-                    monitor.aux_string_table[i].spec_1,  monitor.aux_string_table[i].spec_2);
+                    debug_print!("Mapping contract: {} to {}, {}, and {}", monitor.contract_aux_string_table[aux_contract_num].spec_str, monitor.contract_aux_string_table[aux_contract_num].spec_0,
+                    monitor.contract_aux_string_table[aux_contract_num].spec_1, monitor.contract_aux_string_table[aux_contract_num].spec_2);
+                    aux_contract_num += 1;
                 },
                 'F' => { // Function auxiliary info
                     (monitor.formula_aux_string_table[aux_formula_num], length) = FormulaAuxiliaryInfo::set_function(&spec_file[offset..]);
-                    aux_formula_num += 1;
                     #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
-                    debug_print!("Mapping function: {} to {}", monitor.aux_string_table[i].spec_str, monitor.aux_string_table[i].spec_0);
+                    debug_print!("Mapping function: {} to {}", monitor.formula_aux_string_table[aux_formula_num].spec_str, monitor.formula_aux_string_table[aux_formula_num].spec);
+                    aux_formula_num += 1;
                 },
                 _ => { 
                     #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
-- 
2.43.0


From 5ad724423048fac917a3f50e7c5f09feceecc1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 095/106] fix: the Rust monitor looked up the names of formulas
 by position instead of by number

---
 monitors/rust/r2u2_core/src/engines/mltl.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/engines/mltl.rs b/monitors/rust/r2u2_core/src/engines/mltl.rs
index 08c89fa..eac89be 100644
--- a/monitors/rust/r2u2_core/src/engines/mltl.rs
+++ b/monitors/rust/r2u2_core/src/engines/mltl.rs
@@ -92,10 +92,19 @@ pub fn mltl_update(monitor: &mut Monitor){
                 
                 #[cfg(feature = "aux_string_specs")]
                 // Set auxiliary data for function output
-                if (instr.op2_value as usize) < monitor.formula_aux_string_table.len(){
-                    monitor.output_buffer[monitor.output_buffer_idx] = r2u2_output{spec_num: instr.op2_value, spec_str: monitor.formula_aux_string_table[instr.op2_value as usize].spec_str, verdict: verdict.unwrap()};
-                } else { // Reached end of aux_string_table
-                    monitor.output_buffer[monitor.output_buffer_idx] = r2u2_output{spec_num: instr.op2_value, spec_str: ztr64::from(""), verdict: verdict.unwrap()};
+                {
+                    let mut spec_str = ztr64::from("");
+                    // The table follows the order of the specification, which is not that of the numbers
+                    for aux_data in monitor.formula_aux_string_table.iter() {
+                        if aux_data.spec_str.is_empty() {
+                            break; // Reached end of aux_string_table
+                        }
+                        if aux_data.spec == instr.op2_value {
+                            spec_str = aux_data.spec_str;
+                            break;
+                        }
+                    }
+                    monitor.output_buffer[monitor.output_buffer_idx] = r2u2_output{spec_num: instr.op2_value, spec_str: spec_str, verdict: verdict.unwrap()};
                 }
                 #[cfg(all(any(feature = "debug_print_semihosting", feature = "debug_print_std"), feature = "aux_string_specs"))]
                 debug_print!("{} ({}):{},{}",  monitor.output_buffer[monitor.output_buffer_idx].spec_str, instr.op2_value, verdict.unwrap().time, if verdict.unwrap().truth {"T"} else {"F"});
-- 
2.43.0


From 74ac7edaf297868f0cbf0eeabc54d76a78662940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 096/106] fix: the Rust monitor panicked on a signal beyond its
 bounds, e.g. a surplus column of the trace

---
 monitors/rust/r2u2_core/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/monitors/rust/r2u2_core/src/lib.rs b/monitors/rust/r2u2_core/src/lib.rs
index b16e2e3..d81e3f0 100644
--- a/monitors/rust/r2u2_core/src/lib.rs
+++ b/monitors/rust/r2u2_core/src/lib.rs
@@ -110,10 +110,12 @@ pub fn monitor_step(monitor: &mut Monitor) -> r2u2_bool{
 /// 
 pub fn load_bool_signal(monitor: &mut Monitor, index: usize, value: r2u2_bool){
     if monitor.bz_program_count.max_program_count == 0 {
+        if index >= R2U2_MAX_ATOMICS { return; }
         monitor.atomic_buffer[index] = value;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index, monitor.atomic_buffer[index]);
     } else{
+        if index >= R2U2_MAX_SIGNALS { return; }
         monitor.signal_buffer[index].i = value as r2u2_int;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loading in signal {}: {}", index, monitor.signal_buffer[index].i != 0);
@@ -130,13 +132,13 @@ pub fn load_bool_signal(monitor: &mut Monitor, index: usize, value: r2u2_bool){
 /// 
 pub fn load_bool_array(monitor: &mut Monitor, index: usize, array: &[r2u2_bool]){
     if monitor.bz_program_count.max_program_count == 0 {
-        for n in 0..array.len(){
+        for n in 0..array.len().min(R2U2_MAX_ATOMICS.saturating_sub(index)){
             monitor.atomic_buffer[index+n] = array[n];
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index+n, monitor.atomic_buffer[index+n]);
         }
     } else{
-        for n in 0..array.len(){
+        for n in 0..array.len().min(R2U2_MAX_SIGNALS.saturating_sub(index)){
             monitor.signal_buffer[index+n].i = array[n] as r2u2_int;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             internals::debug::debug_print!("Loading in signal {}: {}", index+n, monitor.signal_buffer[index+n].i != 0);
@@ -154,10 +156,12 @@ pub fn load_bool_array(monitor: &mut Monitor, index: usize, array: &[r2u2_bool])
 /// 
 pub fn load_int_signal(monitor: &mut Monitor, index: usize, value: r2u2_int){
     if monitor.bz_program_count.max_program_count == 0 {
+        if index >= R2U2_MAX_ATOMICS { return; }
         monitor.atomic_buffer[index] = value != 0;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index, monitor.atomic_buffer[index]);
     } else{
+        if index >= R2U2_MAX_SIGNALS { return; }
         monitor.signal_buffer[index].i = value;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loading in signal {}: {}", index, monitor.signal_buffer[index].i);
@@ -174,13 +178,13 @@ pub fn load_int_signal(monitor: &mut Monitor, index: usize, value: r2u2_int){
 /// 
 pub fn load_int_array(monitor: &mut Monitor, index: usize, array: &[r2u2_int]){
     if monitor.bz_program_count.max_program_count == 0 {
-        for n in 0..array.len(){
+        for n in 0..array.len().min(R2U2_MAX_ATOMICS.saturating_sub(index)){
             monitor.atomic_buffer[index+n] = array[n] != 0;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index+n, monitor.atomic_buffer[index+n]);
         }
     } else{
-        for n in 0..array.len(){
+        for n in 0..array.len().min(R2U2_MAX_SIGNALS.saturating_sub(index)){
             monitor.signal_buffer[index+n].i = array[n];
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             internals::debug::debug_print!("Loading in signal {}: {}", index+n, monitor.signal_buffer[index+n].i);
@@ -198,10 +202,12 @@ pub fn load_int_array(monitor: &mut Monitor, index: usize, array: &[r2u2_int]){
 /// 
 pub fn load_float_signal(monitor: &mut Monitor, index: usize, value: r2u2_float){
     if monitor.bz_program_count.max_program_count == 0 {
+        if index >= R2U2_MAX_ATOMICS { return; }
         monitor.atomic_buffer[index] = value >= R2U2_FLOAT_EPSILON || value <= -R2U2_FLOAT_EPSILON;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index, monitor.atomic_buffer[index]);
     } else{
+        if index >= R2U2_MAX_SIGNALS { return; }
         monitor.signal_buffer[index].f = value;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loading in signal {}: {}", index, monitor.signal_buffer[index].f);
@@ -219,13 +225,13 @@ pub fn load_float_signal(monitor: &mut Monitor, index: usize, value: r2u2_float)
 /// 
 pub fn load_float_array(monitor: &mut Monitor, index: usize, array: &[r2u2_float]){
     if monitor.bz_program_count.max_program_count == 0 {
-        for n in 0..array.len(){
+        for n in 0..array.len().min(R2U2_MAX_ATOMICS.saturating_sub(index)){
             monitor.atomic_buffer[index+n] = array[n] >= R2U2_FLOAT_EPSILON || array[n] <= -R2U2_FLOAT_EPSILON;
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index+n, monitor.atomic_buffer[index+n]);
         }
     } else{
-        for n in 0..array.len(){
+        for n in 0..array.len().min(R2U2_MAX_SIGNALS.saturating_sub(index)){
             monitor.signal_buffer[index+n].f = array[n];
             #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
             internals::debug::debug_print!("Loading in signal {}: {}", index+n, monitor.signal_buffer[index+n].f);
@@ -243,10 +249,12 @@ pub fn load_float_array(monitor: &mut Monitor, index: usize, array: &[r2u2_float
 /// 
 pub fn load_string_signal(monitor: &mut Monitor, index: usize, value: &str){
     if monitor.bz_program_count.max_program_count == 0 {
+        if index >= R2U2_MAX_ATOMICS { return; }
         monitor.atomic_buffer[index] = value.parse::<r2u2_int>().expect("Please provide a 0 or 1") != 0;
         #[cfg(any(feature = "debug_print_semihosting", feature = "debug_print_std"))]
         internals::debug::debug_print!("Loaded atomic in directly at {}: {}", index, monitor.atomic_buffer[index]);
     } else{
+        if index >= R2U2_MAX_SIGNALS { return; }
         match value.parse::<r2u2_int>() {
             Ok(n) => {
                 monitor.signal_buffer[index].i = n;
-- 
2.43.0


From 886abc0848fd34367f4f41f97fc20ce961292668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 097/106] fix: the generated config.toml reserved too few
 verdicts and contract reports per step

---
 compiler/c2po/assemble.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 51fb6e0..ac1dc9f 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1201,6 +1201,11 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
         [context.signal_mapping[s] + 1 for s in context.signals if s in context.signal_mapping]
     )
     num_atomics = max(context.atomic_id_map.values(), default=-1) + 1
+    # Every verdict of a step is for a timestamp between its best and its worst propagation delay
+    num_verdicts = {
+        i.formula_number: max(i.get_expr().wpd, 0) - min(i.get_expr().bpd, 0) + 1
+        for i in program.get_specs() if isinstance(i, cpt.Formula)
+    }
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
@@ -1212,14 +1217,12 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
             "c"
         ),  
         "R2U2_MAX_OUTPUT_VERDICTS": (
-            # TODO: This is currently just an estimate
-            2 * len([i for i in program.get_specs() if isinstance(i, cpt.Formula)]), 
+            sum(num_verdicts.values()),
             "Maximum number of output verdicts that can be returned at a single timestamp",
             "rust"
         ),  
         "R2U2_MAX_OUTPUT_CONTRACTS": (
-            # TODO: This is currently just an estimate
-            2 * len([i for i in context.contracts.items()]), 
+            sum([num_verdicts.get(n, 0) for c in context.contracts.values() for n in c.formula_numbers]),
             "Maximum number of output contract statuses that can be returned at a single timestamp (only utilized when aux_string_specs feature is enabled)",
             "rust"
         ),  
-- 
2.43.0


From b0efc0fc8ad29e93efc0716741035f2bcba3533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 098/106] fix: --eqsat was always rejected because the atomics
 were not computed

---
 compiler/c2po/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index da7731d..54fcd07 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -317,6 +317,7 @@ def cli(
     script_lines.append("desugar")
     
     if enable_eqsat:
+        script_lines.append("compute_atomics")
         cmd = f"optimize_eqsat --egglog-max-time {eqsat_max_time} --egglog-max-memory {eqsat_max_memory} " \
                   f"--num-gurobi-threads {num_gurobi_threads} " \
                   f"--theory {smt_theory} --smt-max-time {smt_max_time} --smt-max-memory {smt_max_memory} " \
-- 
2.43.0


From c33bc5a6593314e8a93958e9ae019be9b8626fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 099/106] fix: the path given with --smt-solver or
 set_smt_solver_path was ignored

---
 compiler/c2po/eqsat.py |  2 +-
 compiler/c2po/main.py  |  5 +++--
 compiler/c2po/sat.py   | 20 ++++++++++++--------
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 4ff23f2..1b33b3b 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -585,7 +585,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
 
         if sat_result is sat.SatResult.UNSAT:
diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index 54fcd07..9adc5c6 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -286,6 +286,8 @@ def cli(
     """Command line interface for the C2PO compiler."""
     script_lines: list[str] = []
 
+    if smt_solver_path:
+        script_lines.append(f"set_smt_solver_path {shlex.quote(smt_solver_path)}")
     if enable_booleanizer:
         script_lines.append("enable_booleanizer")
     if mission_time > -1:
@@ -327,8 +329,7 @@ def cli(
                   f"--{'no-' if not enable_eqsat_commutative else ''}commutative " \
                   f"--{'no-' if not enable_eqsat_multi_arity else ''}multi-arity " \
                   f"--{'no-' if not enable_eqsat_temporal else ''}temporal " \
-                  f"{f'--egglog-bin {shlex.quote(egglog_path)}' if egglog_path else ''} " \
-                  f"{f'--smt-solver-path {shlex.quote(smt_solver_path)}' if smt_solver_path else ''}"
+                  f"{f'--egglog-bin {shlex.quote(egglog_path)}' if egglog_path else ''}"
         script_lines.append(cmd)
     elif enable_rewrite:
         script_lines.append("optimize_rewrites")
diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 5c138d7..0338d56 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -6,7 +6,7 @@ import pathlib
 import shutil
 import tempfile
 from typing import cast, Any, Optional
-from c2po import cpt, log, util, types, stats, command
+from c2po import cpt, log, util, types, command
 
 PREAMBLE = f"""(set-info :source |SMT encoding for satisfiability checking of Mission-time Linear Temporal Logic (MLTL) formulas.
 Encoded by C2PO v{log.VERSION}, see https://github.com/R2U2/r2u2/tree/develop/compiler.|)"""
@@ -28,8 +28,11 @@ class SMTTheory(enum.Enum):
     QF_UFLIA = "qf_uflia"
     QF_BV = "qf_bv"
 
-def find_smt_solver() -> Optional[str]:
-    """Finds the SMT solver in the PATH. Returns the path to the SMT solver if found, otherwise returns None."""
+def find_smt_solver(context: cpt.Context) -> Optional[str]:
+    """Finds the SMT solver by checking the context first, then the PATH. Returns the path to the SMT solver if found, otherwise returns None."""
+    if context.smt_solver_path is not None:
+        return context.smt_solver_path if util.check_executable(context.smt_solver_path) else None
+
     for solver in ["z3", "cvc5", "yices-smt2", "mathsat", "bitwuzla"]:
         smt_solver_path = shutil.which(solver)
         if smt_solver_path is not None:
@@ -41,12 +44,13 @@ def run_smt_solver(
     theory: SMTTheory,
     max_time: int,
     max_memory: int,
-    stats: stats.Stats,
+    context: cpt.Context,
 ) -> SatResult:
     """Runs the SMT solver on the given SMT-LIB2 encoding string and returns the result."""
     log.debug(2, "running SMT solver.")
 
-    smt_solver_path = find_smt_solver()
+    stats = context.stats
+    smt_solver_path = find_smt_solver(context)
     if smt_solver_path is None:
         log.error("could not find SMT solver")
         return SatResult.FAILURE
@@ -1184,7 +1188,7 @@ def check_sat(program: cpt.Program, context: cpt.Context, options: dict[str, Any
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
         status = status and check_sat_result(result)
         spec_str_reference = cpt.get_spec_str_reference(spec)
@@ -1215,7 +1219,7 @@ def check_sat(program: cpt.Program, context: cpt.Context, options: dict[str, Any
         theory,
         options["smt_max_time"],
         options["smt_max_memory"],
-        context.stats,
+        context,
     )
     status = status and check_sat_result(result)
 
@@ -1424,7 +1428,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
         status = status and check_sat_result(result)
         spec_str_reference = f"{cpt.get_spec_str_reference(spec1)} = {cpt.get_spec_str_reference(spec2)}"
-- 
2.43.0


From 56f9b6badb9031d1ada3905672720f5103ea0763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 100/106] fix: the path given with --egglog-path was ignored

---
 compiler/c2po/eqsat.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 1b33b3b..54525e3 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -43,16 +43,19 @@ REWRITE_PATHS = {
     "temporal": REWRITES_DIR / "temporal.egg",
 }
 
-def find_egglog(context: cpt.Context, use_experimental: bool = False) -> Optional[str]:
-    """Find egglog executable by checking the context first, then checking PATH, then compiler/deps/egglog[-experimental]/target/release.
+def find_egglog(context: cpt.Context, use_experimental: bool = False, egglog_bin: Optional[str] = None) -> Optional[str]:
+    """Find egglog executable by checking `egglog_bin` first, then the context, then checking PATH, then compiler/deps/egglog[-experimental]/target/release.
 
     Args:
         `use_experimental`: Whether to check for egglog-experimental executable (default: False)
+        `egglog_bin`: The path given to the command, if any
 
     Returns:
         The path to egglog if found, otherwise returns None.
     """
-    # First, check if the egglog path is set in the context and is executable
+    # First, check if a path was given to the command or is set in the context and is executable
+    if egglog_bin is not None and util.check_executable(egglog_bin):
+        return egglog_bin
     if context.egglog_path is not None and util.check_executable(context.egglog_path):
         return context.egglog_path
 
@@ -189,6 +192,7 @@ def run_egglog(
     max_memory: int,
     context: cpt.Context,
     use_experimental_egglog: bool = False,
+    egglog_path: Optional[str] = None,
 ) -> tuple[str, dict, str, float]:
     """Runs egglog on the given egglog encoding file and returns the result as a string and the time taken.
     
@@ -198,11 +202,12 @@ def run_egglog(
         `max_memory`: The maximum memory to allow for egglog in MB, use 0 for no maximum
         `context`: The context to use for finding the egglog executable
         `use_experimental_egglog`: Whether to use the experimental egglog executable
+        `egglog_path`: The path to the egglog executable given to the command, if any
 
     Returns:
         A tuple containing the egglog output, the status of the egglog run, and the time taken
     """
-    egglog_bin = find_egglog(context, use_experimental_egglog) 
+    egglog_bin = find_egglog(context, use_experimental_egglog, egglog_path)
     if egglog_bin is None:
         log.error("could not find egglog executable, please set the `egglog-path` option")
         return "", {}, "failure", -1.0
@@ -445,6 +450,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             options["egglog_max_memory"],
             context,
             options["extraction_method"] == "greedy", # Use experimental egglog if we are using greedy extraction
+            options["egglog_bin"],
         )
         context.stats.eqsat_solver_time += time
         context.stats.eqsat_solver_status = status
-- 
2.43.0


From 48d210c1ddecf2d6dfcf6091fe528c286fb16809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 101/106] fix: equality saturation crashed when the optimized
 formula is a single proposition

---
 compiler/c2po/parse_egglog_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/parse_egglog_output.py b/compiler/c2po/parse_egglog_output.py
index 97068ec..367b8f8 100644
--- a/compiler/c2po/parse_egglog_output.py
+++ b/compiler/c2po/parse_egglog_output.py
@@ -187,6 +187,8 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
         aid = int(str(expr)[1:]) # atomics are of the form 'a<id>'
         new_expr = context.atomic_expr_map[aid]
         expr.replace(new_expr)
+        if expr is output:
+            output = new_expr
 
         # Clear unused parents of atomic expression from the original expression
         to_remove = set()
-- 
2.43.0


From 3d9b6053106d3237d4e621abec9d4219fb632140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 102/106] fix: a non-equivalent result of equality saturation
 was only reported for the last formula

---
 compiler/c2po/eqsat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 54525e3..407ad55 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -426,7 +426,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
     Returns:
         a ReturnCode.SUCCESS if the optimization was successful, ReturnCode.ERROR otherwise
     """
-    status = True
+    all_equiv = True
 
     for formula in program.ft_spec_set.get_specs():
         if isinstance(formula, cpt.Contract):
@@ -603,7 +603,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             log.warning(f"original: {repr(old)}")
             log.warning(f"optimized: {repr(new)}")
             equiv_result = "not-equiv"
-            status = False
+            all_equiv = False
         else:
             if options["check_equiv"]:
                 log.warning("equality saturation could not be validated, still using optimized formula")
@@ -613,7 +613,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
         context.stats.eqsat_equiv_result = equiv_result
 
     log.debug(2, f"post EQSat:\n{repr(program)}")
-    return command.ReturnCode.SUCCESS if status else command.ReturnCode.ERROR
+    return command.ReturnCode.SUCCESS if all_equiv else command.ReturnCode.ERROR
 
 optimize_eqsat_command = command.Command(
     name="optimize_eqsat",
-- 
2.43.0


From 05b1154b2c922097209fb87823fddc0461ed6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:54 +0000
Subject: [PATCH 103/106] fix: equality saturation of several formulas sharing
 a proposition made their queues too small

---
 compiler/c2po/eqsat.py               | 17 ++++++++++++++---
 compiler/c2po/parse_egglog_output.py | 12 ------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 407ad55..380dd4e 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -397,6 +397,17 @@ write_eqsat_encoding_command = command.Command(
 )
 command.CommandRegistry.register(write_eqsat_encoding_command)
 
+def replace_expr(old: cpt.Expression, new: cpt.Expression, program: cpt.Program, context: cpt.Context) -> None:
+    """Replaces `old` with `new` in `program` and removes the expressions of `old` that are no longer used from the parents of those that are."""
+    old_exprs = list(cpt.postorder(old, context))
+    old.replace(new)
+
+    exprs = list(program.postorder(context))
+    in_use = {id(expr) for expr in exprs}
+    unused = {id(expr) for expr in old_exprs if id(expr) not in in_use}
+    for expr in exprs:
+        expr.parents = {parent for parent in expr.parents if id(parent) not in unused}
+
 def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """Performs equality saturation using the egglog encodings stored in `context`. Fails if equivalence checking is enabled and the optimized formula is not equivalent to the original formula.
     
@@ -572,7 +583,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
 
         # If equivalence checking is disabled, we can just replace the old expression with the new one
         if not options["check_equiv"]:
-            old.replace(new)
+            replace_expr(old, new, program, context)
             continue
 
         # Otherwise, we check if the new expression is equivalent to the old expression
@@ -597,7 +608,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
         if sat_result is sat.SatResult.UNSAT:
             log.debug(2, "equality saturation produced equivalent formula")
             equiv_result = "equiv"
-            old.replace(new)
+            replace_expr(old, new, program, context)
         elif sat_result is sat.SatResult.SAT:
             log.warning("equality saturation produced non-equivalent formula, defaulting to non-optimized formula")
             log.warning(f"original: {repr(old)}")
@@ -608,7 +619,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             if options["check_equiv"]:
                 log.warning("equality saturation could not be validated, still using optimized formula")
             equiv_result = "unknown"
-            old.replace(new)
+            replace_expr(old, new, program, context)
 
         context.stats.eqsat_equiv_result = equiv_result
 
diff --git a/compiler/c2po/parse_egglog_output.py b/compiler/c2po/parse_egglog_output.py
index 367b8f8..e5f6071 100644
--- a/compiler/c2po/parse_egglog_output.py
+++ b/compiler/c2po/parse_egglog_output.py
@@ -175,10 +175,6 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
     if not parser.status:
         return None
 
-    exprs_in_use: set[cpt.Expression] = set()
-    for expr in cpt.postorder(output, context):
-        exprs_in_use.add(expr)
-
     # Replace atomics with their corresponding expressions
     for expr in cpt.postorder(output, context):
         if not isinstance(expr, cpt.Signal):
@@ -190,14 +186,6 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
         if expr is output:
             output = new_expr
 
-        # Clear unused parents of atomic expression from the original expression
-        to_remove = set()
-        for parent in new_expr.parents:
-            if parent not in exprs_in_use:
-                to_remove.add(parent)
-        for parent in to_remove:
-            new_expr.parents.remove(parent)
-
     # Compute types for the new expression
     if not type_check.type_check_expr(output, context, options):
         log.error("failed to type check egglog output")
-- 
2.43.0


From 949f508e5617f8ab7f79072ec27063d5ba0ec1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 104/106] fix: ILP extraction: an atomic used several times
 lost all parents but the last, so queues were too small

---
 compiler/c2po/egraph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/egraph.py b/compiler/c2po/egraph.py
index b2bce83..2b936a6 100644
--- a/compiler/c2po/egraph.py
+++ b/compiler/c2po/egraph.py
@@ -590,10 +590,9 @@ class EGraph:
                 if expr is None:
                     raise ValueError(f"No expression found for atomic {enode.string}")
 
-                # Clear the parents since we are building a new expression.
-                # If we keep the old parents, the new expression will have the old expression's
-                # parents, which will cause incorrect sibling relationships during SCQ computation.
-                expr.parents.clear()
+                # The parents of the old expression are removed once it is replaced. Do not clear
+                # them here: the new expression may use an atomic more than once, and the parents
+                # it already has in the new expression are needed for SCQ computation.
                 return expr
             elif enode.op == "Not":
                 return cpt.Operator.LogicalNegate(
-- 
2.43.0


From 9d857ea19cd3d4aaa482134dc612b91ce708ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 105/106] fix: ILP extraction: values of binary variables are
 integral only up to Gurobi's tolerance, a value of 0.9999999 crashed the
 extraction

---
 compiler/c2po/egraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/egraph.py b/compiler/c2po/egraph.py
index 2b936a6..bc70baa 100644
--- a/compiler/c2po/egraph.py
+++ b/compiler/c2po/egraph.py
@@ -549,16 +549,16 @@ class EGraph:
         """
         Builds a map of ENode representative for each active EClass based on the Gurobi variables.
         The representative is the ENode that is active in the EClass. An EClass or ENode is active
-        if its Gurobi variable value is 1.
+        if its Gurobi variable value is 1 (up to Gurobi's integer feasibility tolerance).
         """
         log.debug(2, "building repr map")
 
         repr_map: dict[EClassID, ENode] = {}
         for eclass_id in [
-            c for c in self.eclasses if self.gurobi_eclass_vars_[c].X == 1
+            c for c in self.eclasses if self.gurobi_eclass_vars_[c].X > 0.5
         ]:
             for enode in self.eclasses[eclass_id]:
-                if self.gurobi_enode_vars_[enode].X == 1:
+                if self.gurobi_enode_vars_[enode].X > 0.5:
                     repr_map[eclass_id] = enode
                     break
 
-- 
2.43.0


From 4889e7cc16b9be2b9ee2790c3e0dced556c0c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 106/106] fix: an egglog that exits successfully with a
 truncated or missing e-graph crashed the compiler

---
 compiler/c2po/eqsat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 380dd4e..669b143 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -249,8 +249,12 @@ def run_egglog(
             return "", {}, "failure", -1.0
 
         json_output_path = pathlib.Path(temp_dir) / "tmp.json"
-        with open(json_output_path, "r") as f:
-            json_output = json.loads(f.read())
+        try:
+            with open(json_output_path, "r") as f:
+                json_output = json.loads(f.read())
+        except (OSError, ValueError) as e:
+            log.error(f"error reading the output of egglog: {e}")
+            return "", {}, "failure", -1.0
 
     return stdout.decode(), json_output, "ok", end_time - start_time
 
-- 
2.43.0

