From 378524a046cdc1519c18a9b91971af5357281b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 01/55] fix: constant shifts by at least the field size give
 zero instead of hanging or failing

---
 circom_algebra/src/modular_arithmetic.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..0a3e00f 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -112,10 +112,13 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
+        // shifting by at least the number of bits of the field clears every bit under the mask
+        let value = match right.to_usize() {
+            Some(shift) if shift < field.bits() => {
+                modulus(&((left * &num_traits::pow(two, shift)) & &mask(field)), field)
+            }
+            _ => BigInt::from(0),
+        };
         Result::Ok(value)
     } else {
         shift_r(left, &(field - right), field)
@@ -125,10 +128,11 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = left / &num_traits::pow(two, usize_repr);
+        // shifting by at least the number of bits of the field leaves no bit
+        let value = match right.to_usize() {
+            Some(shift) if shift < field.bits() => left / &num_traits::pow(two, shift),
+            _ => BigInt::from(0),
+        };
         Result::Ok(value)
     } else {
         shift_l(left, &(field - right), field)
-- 
2.43.0


From 6335aea06b4d74ddb3a6bec96c635d63d2342838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 02/55] fix: constant remainder by zero is reported as a
 division by zero instead of crashing the compiler

---
 circom_algebra/src/modular_arithmetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 0a3e00f..7688518 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
-- 
2.43.0


From 618ab3238bb964c0942a8cd817fb0b7cfbeb9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:25 +0000
Subject: [PATCH 03/55] fix: conditions of ternary expressions may contain
 calls and other ternaries

---
 compiler/src/hir/merger.rs        |  6 ++++--
 compiler/src/hir/sugar_cleaner.rs | 10 +++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/merger.rs b/compiler/src/hir/merger.rs
index 100dcdd..4ef7a47 100644
--- a/compiler/src/hir/merger.rs
+++ b/compiler/src/hir/merger.rs
@@ -313,7 +313,8 @@ fn produce_vcf_variable(expr: &Expression, state: &mut State, environment: &E) {
 
 fn produce_vcf_switch(expr: &Expression, state: &mut State, environment: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        produce_vcf_expr(cond, state, environment);
         produce_vcf_expr(if_true, state, environment);
         produce_vcf_expr(if_false, state, environment);
     } else {
@@ -580,7 +581,8 @@ fn link_variable(expr: &mut Expression, state: &State, env: &E) {
 
 fn link_switch(expr: &mut Expression, state: &State, env: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        link_expression(cond, state, env);
         link_expression(if_true, state, env);
         link_expression(if_false, state, env);
     } else {
diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 3fefc25..90c9545 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -368,11 +368,15 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
 
 fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        let mut extended = extend_expression(cond, state, context);
+        let mut cond_expr = vec![*cond.clone()];
+        sugar_filter(&mut cond_expr, state, &mut extended.initializations);
+        *cond = Box::new(cond_expr.pop().unwrap());
         let mut true_expand = extend_expression(if_true, state, context);
         let mut false_expand = extend_expression(if_false, state, context);
-        true_expand.initializations.append(&mut false_expand.initializations);
-        let mut extended = true_expand;
+        extended.initializations.append(&mut true_expand.initializations);
+        extended.initializations.append(&mut false_expand.initializations);
         let mut expr = vec![*if_true.clone(), *if_false.clone()];
         sugar_filter(&mut expr, state, &mut extended.initializations);
         *if_false = Box::new(expr.pop().unwrap());
-- 
2.43.0


From 66bc7d798c9521c8517ad066ca4d303ac5a6d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:09 +0000
Subject: [PATCH 04/55] fix: log and assert accept a ternary expression at top
 level

---
 compiler/src/hir/sugar_cleaner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 90c9545..2691aba 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -197,6 +197,9 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
             if let LogArgument::LogExp(arg) = arglog {
                 let mut exp = extend_expression(arg, state, context);
                 initializations.append(&mut exp.initializations);
+                let mut expr = vec![arg.clone()];
+                sugar_filter(&mut expr, state, &mut initializations);
+                *arg = expr.pop().unwrap();
             }
         }
         initializations
@@ -208,7 +211,11 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
 fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Assert;
     if let Assert { arg, .. } = stmt {
-        extend_expression(arg, state, context).initializations
+        let mut initializations = extend_expression(arg, state, context).initializations;
+        let mut expr = vec![arg.clone()];
+        sugar_filter(&mut expr, state, &mut initializations);
+        *arg = expr.pop().unwrap();
+        initializations
     } else {
         unreachable!()
     }
-- 
2.43.0


From 5b7ab30ba83ab57f094e657952e195042760a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 05/55] fix: array values chosen by a ternary with an unknown
 condition are unknown in every position

---
 constraint_generation/src/execute.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..b66c8a3 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1588,6 +1588,11 @@ fn perform_assign(
             r_slice = AExpressionSlice::new_with_route(r_slice.route(), &AExpr::NonQuadratic);
             r_tags = TagWire::default();
         }
+        if r_slice.is_single() && accessing_information.before_signal.len() < symbol_content.route().len() {
+            // value of an array whose content is not known (ternary with unknown condition)
+            let remaining_route = &symbol_content.route()[accessing_information.before_signal.len()..];
+            r_slice = AExpressionSlice::new_with_route(remaining_route, &AExpr::NonQuadratic);
+        }
         if accessing_information.undefined {
             let new_value =
                 AExpressionSlice::new_with_route(symbol_content.route(), &AExpr::NonQuadratic);
-- 
2.43.0


From 94ab2653ae0c1e038c297c4719b2a795447dedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:24 +0000
Subject: [PATCH 06/55] fix: ternaries evaluate only the chosen case and are
 accepted in constraint equalities

---
 compiler/src/hir/sugar_cleaner.rs | 45 +++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 2691aba..9759184 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -375,25 +375,42 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
 
 fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
-        let mut extended = extend_expression(cond, state, context);
-        let mut cond_expr = vec![*cond.clone()];
-        sugar_filter(&mut cond_expr, state, &mut extended.initializations);
-        *cond = Box::new(cond_expr.pop().unwrap());
-        let mut true_expand = extend_expression(if_true, state, context);
-        let mut false_expand = extend_expression(if_false, state, context);
-        extended.initializations.append(&mut true_expand.initializations);
-        extended.initializations.append(&mut false_expand.initializations);
-        let mut expr = vec![*if_true.clone(), *if_false.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
-        *if_false = Box::new(expr.pop().unwrap());
-        *if_true = Box::new(expr.pop().unwrap());
-        extended
+    use Statement::{Block, IfThenElse};
+    if expr.is_switch() {
+        // The value of the switch is stored in a fresh variable by a conditional
+        // statement: the sugar of each case is evaluated only if the case is taken
+        let id = state.produce_id();
+        let mut initializations = vec![];
+        let new_expr = rmv_sugar(&id, expr.clone(), &mut initializations);
+        let switch = std::mem::replace(expr, new_expr);
+        let assignment = initializations.pop().unwrap();
+        if let InlineSwitchOp { meta, cond, if_true, if_false } = switch {
+            let if_body = Block { meta: meta.clone(), stmts: vec![with_value(&assignment, *if_true)] };
+            let else_body = Block { meta: meta.clone(), stmts: vec![with_value(&assignment, *if_false)] };
+            let mut conditional = IfThenElse {
+                meta,
+                cond: *cond,
+                if_case: Box::new(if_body),
+                else_case: Option::Some(Box::new(else_body)),
+            };
+            initializations.append(&mut extend_statement(&mut conditional, state, context));
+            initializations.push(conditional);
+        }
+        ExtendedSyntax { initializations }
     } else {
         unreachable!()
     }
 }
 
+fn with_value(assignment: &Statement, value: Expression) -> Statement {
+    use Statement::Substitution;
+    let mut assignment = assignment.clone();
+    if let Substitution { rhe, .. } = &mut assignment {
+        *rhe = value;
+    }
+    assignment
+}
+
 fn extend_array(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::{ArrayInLine, UniformArray, Number};
     use num_bigint_dig::BigInt;
-- 
2.43.0


From 03cedadcda954c682139107707eb7a62eb35554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:05 +0000
Subject: [PATCH 07/55] fix: calls and ternaries in loop conditions and in
 bodies without braces are evaluated in place

---
 compiler/src/hir/sugar_cleaner.rs | 33 ++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 9759184..9dd882f 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -102,14 +102,22 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
 }
 
 fn extend_while(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
-    use Statement::While;
-    if let While { cond, stmt, .. } = stmt {
-        let mut expands = extend_statement(stmt, state, context);
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
+    use Statement::{Block, While};
+    if let While { meta, cond, stmt } = stmt {
+        wrap_in_block(stmt);
+        let mut expands = extend_expression(cond, state, context).initializations;
         let mut expr = vec![cond.clone()];
         sugar_filter(&mut expr, state, &mut expands);
         *cond = expr.pop().unwrap();
+        let trash = extend_statement(stmt, state, context);
+        assert!(trash.is_empty());
+        if !expands.is_empty() {
+            // the auxiliary values of the condition are computed again after each iteration
+            let mut stmts = vec![(**stmt).clone()];
+            stmts.extend(expands.iter().filter(|s| !s.is_declaration()).cloned());
+            map_substitutions(&mut stmts);
+            **stmt = Block { meta: meta.clone(), stmts };
+        }
         expands
     } else {
         unreachable!()
@@ -124,8 +132,10 @@ fn extend_conditional(
     use Statement::IfThenElse;
     if let IfThenElse { cond, if_case, else_case, .. } = stmt {
         let mut expands = vec![];
+        wrap_in_block(if_case);
         expands.append(&mut extend_statement(if_case, state, context));
         if let Option::Some(s) = else_case {
+            wrap_in_block(s);
             expands.append(&mut extend_statement(s, state, context));
         }
         let mut cond_extension = extend_expression(cond, state, context);
@@ -139,6 +149,19 @@ fn extend_conditional(
     }
 }
 
+// The auxiliary statements of the body of a loop or a conditional
+// have to be executed inside that body
+fn wrap_in_block(stmt: &mut Statement) {
+    use Statement::Block;
+    if !stmt.is_block() {
+        let meta = stmt.get_meta().clone();
+        let body = std::mem::replace(stmt, Block { meta, stmts: vec![] });
+        if let Block { stmts, .. } = stmt {
+            stmts.push(body);
+        }
+    }
+}
+
 fn extend_substitution(
     stmt: &mut Statement,
     state: &mut State,
-- 
2.43.0


From 6fcb69bd523fbb3b736c72a6d52177ad8c71e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:52 +0000
Subject: [PATCH 08/55] fix: an array literal that mentions the assigned array
 is evaluated before the assignment

---
 compiler/src/hir/sugar_cleaner.rs | 42 +++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 9dd882f..0c75672 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -168,9 +168,12 @@ fn extend_substitution(
     context: &Context,
 ) -> Vec<Statement> {
     use Statement::Substitution;
-    if let Substitution { rhe, access, .. } = stmt {
+    if let Substitution { var, rhe, access, op, .. } = stmt {
         let mut expands = extend_expression(rhe, state, context).initializations;
-        
+        if let AssignOp::AssignVar = op {
+            extract_self_references(var, rhe, state, &mut expands);
+        }
+
         let mut inits = vec![];
         for acc in access {
             if let Access::ArrayAccess(e) = acc {
@@ -188,6 +191,41 @@ fn extend_substitution(
     }
 }
 
+// The positions of an array are assigned one by one: the values that mention
+// the assigned symbol are computed before the first assignment
+fn extract_self_references(
+    var: &str,
+    rhe: &mut Expression,
+    state: &mut State,
+    inits: &mut Vec<Statement>,
+) {
+    use Expression::ArrayInLine;
+    if let ArrayInLine { values, .. } = rhe {
+        for value in values {
+            if mentions(value, var) {
+                let id = state.produce_id();
+                *value = rmv_sugar(&id, value.clone(), inits);
+            }
+        }
+    }
+}
+
+fn mentions(expr: &Expression, var: &str) -> bool {
+    use Expression::*;
+    match expr {
+        Variable { name, access, .. } => {
+            name == var
+                || access.iter().any(|acc| match acc {
+                    Access::ArrayAccess(e) => mentions(e, var),
+                    Access::ComponentAccess(_) => false,
+                })
+        }
+        InfixOp { lhe, rhe, .. } => mentions(lhe, var) || mentions(rhe, var),
+        PrefixOp { rhe, .. } => mentions(rhe, var),
+        _ => false,
+    }
+}
+
 fn extend_constraint_equality(
     stmt: &mut Statement,
     state: &mut State,
-- 
2.43.0


From 46d2e53b8c55b361b7863519311b068443016583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:15 +0000
Subject: [PATCH 09/55] fix: calls as a side of a constraint equality do not
 crash the compiler

---
 compiler/src/hir/sugar_cleaner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 0c75672..6a19de1 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -235,6 +235,12 @@ fn extend_constraint_equality(
     if let ConstraintEquality { lhe, rhe, .. } = stmt {
         let mut expands = extend_expression(lhe, state, context).initializations;
         expands.append(&mut extend_expression(rhe, state, context).initializations);
+        for side in [lhe, rhe] {
+            if side.is_call() {
+                let id = state.produce_id();
+                *side = rmv_sugar(&id, side.clone(), &mut expands);
+            }
+        }
         expands
     } else {
         unreachable!()
-- 
2.43.0


From 02d27434e4a3804cd26e1b5e93f46c5993abee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 10/55] fix: simplification keeps the contradiction between two
 constant values of a signal

---
 constraint_list/src/constraint_simplification.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..57ef325 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -258,13 +258,22 @@ fn constant_eq_simplification(
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut assigned: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(sub) = assigned.get(&signal) {
+            // the signal already has a value: both values have to be equal
+            C::apply_substitution(&mut constraint, sub, field);
+            C::fix_constraint(&mut constraint, field);
+            if !C::is_empty(&constraint) {
+                LinkedList::push_back(&mut cons, constraint);
+            }
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            assigned.insert(signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From 2b104d3070704665a5931519b1709cdce9ff6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 11/55] fix: the result of simplification does not depend on
 thread timing or hash order

---
 circom_algebra/src/simplification_utils.rs    |  9 ++++---
 .../src/constraint_simplification.rs          | 25 +++++++++++--------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/circom_algebra/src/simplification_utils.rs b/circom_algebra/src/simplification_utils.rs
index 6219843..5b2f2a3 100644
--- a/circom_algebra/src/simplification_utils.rs
+++ b/circom_algebra/src/simplification_utils.rs
@@ -377,13 +377,13 @@ fn take_signal_3(signals: &SignalDefinition, constraint: &C) -> Option<usize> {
 }
 
 fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformation, constraint: &C) -> Option<usize> {
+    let mut deleted: Option<usize> = Option::None;
     let mut ret = Option::None;
     let mut ocurrences_ret: Option<usize> = Option::None;
     for k in constraint.c().keys() {
         if signals.can_be_taken(*k) {
             if signals.is_deleted(*k) {
-                ret = Some(*k);
-                break;
+                deleted = deleted.max(Some(*k));
             }
             else {
                 let new_ocurrences = info_ocurrences.signal_to_ocurrences.get(k).unwrap();
@@ -407,7 +407,7 @@ fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformati
             }
         }
     }
-    ret
+    deleted.or(ret)
 }
 
 
@@ -572,7 +572,8 @@ where
     }
     let mut substitutions = LinkedList::new();
     let mut removed = LinkedList::new();
-    for (s, v) in non_overlapping {
+    let ordered: BTreeMap<usize, S> = non_overlapping.into_iter().collect();
+    for (s, v) in ordered {
         LinkedList::push_back(&mut removed, s);
         LinkedList::push_back(&mut substitutions, v);
     }
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 57ef325..75b4fa1 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -156,7 +156,7 @@ fn eq_cluster_simplification(
         let mut cons = LinkedList::new();
         let mut subs = LinkedList::new();
         let (mut remains, mut min_remains) = (BTreeSet::new(), None);
-        let (mut remove, mut min_remove) = (HashSet::new(), None);
+        let (mut remove, mut min_remove) = (BTreeSet::new(), None);
         for c in cluster.constraints {
             for signal in C::take_cloned_signals_ordered(&c) {
                 if HashSet::contains(&forbidden, &signal) {
@@ -164,7 +164,7 @@ fn eq_cluster_simplification(
                     min_remains = Some(min_remains.map_or(signal, |s| std::cmp::min(s, signal)));
                 } else {
                     min_remove = Some(min_remove.map_or(signal, |s| std::cmp::min(s, signal)));
-                    HashSet::insert(&mut remove, signal);
+                    BTreeSet::insert(&mut remove, signal);
                 }
             }
         }
@@ -174,7 +174,7 @@ fn eq_cluster_simplification(
             signal
         } else {
             let signal = min_remove.unwrap();
-            HashSet::remove(&mut remove, &signal);
+            BTreeSet::remove(&mut remove, &signal);
             signal
         };
 
@@ -215,11 +215,12 @@ fn eq_simplification(
     let mut single_clusters = 0;
     let mut id = 0;
     let mut aux_constraints = vec![LinkedList::new(); clusters.len()];
+    let mut aux_substitutions = vec![LinkedList::new(); clusters.len()];
     for cluster in clusters {
         if Cluster::size(&cluster) == 1 {
-            let (mut subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
+            let (subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
             aux_constraints[id] = cons;
-            LinkedList::append(&mut substitutions, &mut subs);
+            aux_substitutions[id] = subs;
             single_clusters += 1;
         } else {
             let cluster_tx = cluster_tx.clone();
@@ -239,12 +240,14 @@ fn eq_simplification(
     // println!("{} clusters were of size 1", single_clusters);
     ThreadPool::join(&pool);
     for _ in 0..(no_clusters - single_clusters) {
-        let (id, (mut subs, cons)) = simplified_rx.recv().unwrap();
+        let (id, (subs, cons)) = simplified_rx.recv().unwrap();
         aux_constraints[id] = cons;
-        LinkedList::append(&mut substitutions, &mut subs);
+        aux_substitutions[id] = subs;
     }
+    // the result does not depend on the order in which the clusters finish
     for id in 0..no_clusters {
         LinkedList::append(&mut constraints, &mut aux_constraints[id]);
+        LinkedList::append(&mut substitutions, &mut aux_substitutions[id]);
     }
     log_substitutions(&substitutions, substitution_log);
     (substitutions, constraints)
@@ -316,7 +319,7 @@ fn linear_simplification(
             // println!("cluster: {}", id);
             let result = full_simplification(config);
             // println!("End of cluster: {}", id);
-            cluster_tx.send(result).unwrap();
+            cluster_tx.send((id, result)).unwrap();
         };
         ThreadPool::execute(&pool, job);
         let _ = id;
@@ -324,8 +327,10 @@ fn linear_simplification(
     }
     ThreadPool::join(&pool);
 
-    for _ in 0..no_clusters {
-        let mut result = simplified_rx.recv().unwrap();
+    let mut results: Vec<_> = (0..no_clusters).map(|_| simplified_rx.recv().unwrap()).collect();
+    // the result does not depend on the order in which the clusters finish
+    results.sort_by_key(|(id, _)| *id);
+    for (_, mut result) in results {
         log_substitutions(&result.substitutions, log);
         LinkedList::append(&mut cons, &mut result.constraints);
         LinkedList::append(&mut substitutions, &mut result.substitutions);
-- 
2.43.0


From 13f550214d6a3c8331518ae5adb63b559f136ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:42 +0000
Subject: [PATCH 12/55] fix: a hexadecimal literal without digits is a syntax
 error instead of a crash

---
 parser/src/lang.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 681db7f..67a1aa5 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -840,7 +840,7 @@ DECNUMBER: BigInt = {
 };
 
 HEXNUMBER : BigInt = {
-    r"0x[0-9A-Fa-f]*" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
+    r"0x[0-9A-Fa-f]+" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
 };
 
 IDENTIFIER : String = {
-- 
2.43.0


From da7ed27b37bf30a327d98b8d87d29dfa9dc07fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:42 +0000
Subject: [PATCH 13/55] fix: a huge version number in a pragma does not crash
 the compiler

---
 parser/src/lang.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 67a1aa5..04411c0 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -852,7 +852,7 @@ STRING : String = {
 };
 
 SMALL_DECNUMBER: usize = {
-    r"[0-9]+" => usize::from_str(<>).expect("failed to parse number")
+    r"[0-9]+" => usize::from_str(<>).unwrap_or(usize::MAX)
 };
 
 
-- 
2.43.0


From a09b7cd655d60d822ae2e4df30078f3640cde3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 14/55] fix: comment marks inside a string are part of the
 string

---
 parser/src/parser_logic.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..3a45c72 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -31,6 +31,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                         pp.push(' ');
                     }
                     Some(c1) => {
+                        if c1 == '"' {
+                            state = 3;
+                        }
                         pp.push(c0);
                         pp.push(c1);
                     }
@@ -40,7 +43,18 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     }
                 }
             }
+            (0, '"') => {
+                // comment marks inside a string are part of the string
+                state = 3;
+                pp.push(c0);
+            }
             (0, _) => pp.push(c0),
+            (3, _) => {
+                if c0 == '"' || c0 == '\n' {
+                    state = 0;
+                }
+                pp.push(c0);
+            }
             (1, '\n') => {
                 pp.push(c0);
                 state = 0;
-- 
2.43.0


From 9aabcd26f3e8271cf6934c951110423d1f493bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 15/55] fix: room for every field of a bus in the generated C++
 program

---
 code_producers/src/c_elements/common/main.cpp   | 2 +-
 code_producers/src/c_elements/common64/main.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index c286558..e9b1cb7 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -108,7 +108,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 18ec889..5588bb7 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -101,7 +101,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
-- 
2.43.0


From 89f744822c3d695506738c9409875b2383318b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 16/55] fix: a function called in its own arguments inside a
 return does not crash the compiler

---
 compiler/src/hir/type_inference.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/compiler/src/hir/type_inference.rs b/compiler/src/hir/type_inference.rs
index fb633ba..6c91e7c 100644
--- a/compiler/src/hir/type_inference.rs
+++ b/compiler/src/hir/type_inference.rs
@@ -252,16 +252,13 @@ fn infer_type_call(expr: &Expression, state: &State, context: &mut SearchInfo) -
         if context.open_calls.contains(id) {
             Option::None
         } else {
+            // the arguments belong to the caller: they may call the same function
+            let arg_types = infer_args(args, state, context)?;
             context.open_calls.insert(id.clone());
             context.environment.add_variable_block();
             let mut index = 0;
             let body = &state.generic_functions.get(id).unwrap().body;
             let names = &state.generic_functions.get(id).unwrap().params_names;
-            let arg_types = infer_args(args, state, context);
-            if arg_types.is_none() {
-                return Option::None;
-            }
-            let arg_types = arg_types.unwrap();
             for arg_type in arg_types {
                 context.environment.add_variable(&names[index], arg_type);
                 index += 1;
-- 
2.43.0


From c5cfeaab9e55e6df410f8785c5aafb9dddd0c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:46 +0000
Subject: [PATCH 17/55] fix: parallel components without inputs compile and run
 in the generated C++

---
 compiler/src/circuit_design/template.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index c642354..b912773 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -272,7 +272,15 @@ impl TemplateCodeInfo {
 	}
 	// if has no inputs should be runned
 	if self.number_of_inputs == 0 {
-	    let cmp_call_name = format!("{}_run", self.header);
+	    let cmp_call_name = if parallel {
+	        // it counts as running until it ends, as any other parallel component
+	        create_body.push("ctx->numThreadMutex.lock();".to_string());
+	        create_body.push("ctx->numThread++;".to_string());
+	        create_body.push("ctx->numThreadMutex.unlock();".to_string());
+	        format!("{}_run_parallel", self.header)
+	    } else {
+	        format!("{}_run", self.header)
+	    };
 	    let cmp_call_arguments = vec![component_offset(), CIRCOM_CALC_WIT.to_string()]; 
 	    create_body.push(format!("{};",build_call(cmp_call_name, cmp_call_arguments)));
         }
-- 
2.43.0


From e65dc46d1195e43e191678632945a081135c8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:46 +0000
Subject: [PATCH 18/55] fix: a parallel main component compiles in the
 generated C++

---
 compiler/src/circuit_design/build.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 4d41226..528da20 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -263,6 +263,7 @@ fn initialize_c_producer(vcp: &VCP, database: &TemplateDB, no_asm_flag: bool, sa
     let mut producer = CProducer::default();
     let stats = vcp.get_stats();
     producer.main_header = vcp.get_main_instance().unwrap().template_header.clone();
+    producer.main_is_parallel = vcp.get_main_instance().unwrap().is_parallel;
     producer.main_signal_offset = 1;
     producer.prime = prime.to_str_radix(10);
     producer.prime_str = vcp.prime.clone();
-- 
2.43.0


From b615ec5318e0ebf2b6e63f859cce8f3b50a06fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:28 +0000
Subject: [PATCH 19/55] fix: the WASM witness program honours --sanity_check 0
 for constraint equalities

---
 compiler/src/intermediate_representation/assert_bucket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/intermediate_representation/assert_bucket.rs b/compiler/src/intermediate_representation/assert_bucket.rs
index 3e6def3..d285c68 100644
--- a/compiler/src/intermediate_representation/assert_bucket.rs
+++ b/compiler/src/intermediate_representation/assert_bucket.rs
@@ -45,6 +45,9 @@ impl WriteWasm for AssertBucket {
     fn produce_wasm(&self, producer: &WASMProducer) -> Vec<String> {
         use code_producers::wasm_elements::wasm_code_generator::*;
         let mut instructions = vec![];
+        if self.is_constraint_equality && producer.sanity_check_style < 1 {
+            return instructions;
+        }
         if producer.needs_comments() {
             instructions.push(";; assert bucket".to_string());
 	}
-- 
2.43.0


From 32284b4985d38d17524c25779ce57fe45938cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:49 +0000
Subject: [PATCH 20/55] fix: log strings are printed as written by both witness
 programs

---
 code_producers/src/components/mod.rs          | 23 ++++++++++++++++
 .../common/witness_calculator.js              | 26 ++++++-------------
 code_producers/src/wasm_elements/mod.rs       |  7 +++++
 .../src/wasm_elements/wasm_code_generator.rs  | 20 +++++---------
 .../intermediate_representation/log_bucket.rs | 10 ++++++-
 5 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/code_producers/src/components/mod.rs b/code_producers/src/components/mod.rs
index b2182e2..46fa835 100644
--- a/code_producers/src/components/mod.rs
+++ b/code_producers/src/components/mod.rs
@@ -53,3 +53,26 @@ pub fn hasher(value: &str) -> u64 {
     fnv_hasher.write(value.as_bytes());
     fnv_hasher.finish()
 }
+
+/// Bytes that printing a string of the program has to write: the escapes \n, \t, \r, \' and
+/// \\ stand for the usual characters, any other backslash for itself.
+pub fn string_bytes(s: &str) -> Vec<u8> {
+    let mut bytes = vec![];
+    let mut chars = s.chars().peekable();
+    let mut buffer = [0; 4];
+    while let Some(c) = chars.next() {
+        let escaped = match (c, chars.peek()) {
+            ('\\', Some('n')) => Some('\n'),
+            ('\\', Some('t')) => Some('\t'),
+            ('\\', Some('r')) => Some('\r'),
+            ('\\', Some('\'')) => Some('\''),
+            ('\\', Some('\\')) => Some('\\'),
+            _ => None,
+        };
+        if escaped.is_some() {
+            chars.next();
+        }
+        bytes.extend_from_slice(escaped.unwrap_or(c).encode_utf8(&mut buffer).as_bytes());
+    }
+    bytes
+}
diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index 4f16502..605d49c 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -14,7 +14,7 @@ module.exports = async function builder(code, options) {
     let wc;
 
     let errStr = "";
-    let msgStr = "";
+    let msgItems = []; // the items of the log line being built
     
     const instance = await WebAssembly.instantiate(wasmModule, {
         runtime: {
@@ -45,15 +45,10 @@ module.exports = async function builder(code, options) {
 			const msg = getMessage();
 			// Any calls to `log()` will always end with a `\n`, so that's when we print and reset
 			if (msg === "\n") {
-				console.log(msgStr);
-				msgStr = "";
+				console.log(msgItems.join(" "));
+				msgItems = [];
 			} else {
-				// If we've buffered other content, put a space in between the items
-				if (msgStr !== "") {
-					msgStr += " "
-				}
-				// Then append the message to the message we are creating
-				msgStr += msg;
+				msgItems.push(msg);
 			}
 	    },
 	    showSharedRWMemory : function() {
@@ -79,13 +74,13 @@ module.exports = async function builder(code, options) {
     return wc;
 
     function getMessage() {
-        var message = "";
+        var bytes = [];
 	var c = instance.exports.getMessageChar();
         while ( c != 0 ) {
-	    message += String.fromCharCode(c);
+	    bytes.push(c);
 	    c = instance.exports.getMessageChar();
 	}
-        return message;
+        return new TextDecoder().decode(new Uint8Array(bytes));
     }
 	
     function printSharedRWMemory () {
@@ -95,12 +90,7 @@ module.exports = async function builder(code, options) {
 	    arr[shared_rw_memory_size-1-j] = instance.exports.readSharedRWMemory(j);
 	}
 
-	// If we've buffered other content, put a space in between the items
-	if (msgStr !== "") {
-		msgStr += " "
-	}
-	// Then append the value to the message we are creating
-	msgStr += (fromArray32(arr).toString());
+	msgItems.push(fromArray32(arr).toString());
 	}
 
 };
diff --git a/code_producers/src/wasm_elements/mod.rs b/code_producers/src/wasm_elements/mod.rs
index 9ceb0d0..1429f59 100644
--- a/code_producers/src/wasm_elements/mod.rs
+++ b/code_producers/src/wasm_elements/mod.rs
@@ -500,6 +500,13 @@ impl WASMProducer {
     }
 
     pub fn set_string_table(&mut self, string_table: Vec<String>) {
+        // the space reserved for a message has to hold the longest string and its final zero
+        let longest = string_table.iter().map(|s| s.len() + 1).max().unwrap_or(0);
+        if longest > self.size_of_message_in_bytes {
+            let extra = (longest - self.size_of_message_in_bytes + 7) / 8 * 8;
+            self.size_of_message_in_bytes += extra;
+            self.size_of_message_buffer_in_bytes += extra;
+        }
         self.string_table = string_table;
     }
 }
diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index ba1ca86..7369da9 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -764,19 +764,13 @@ pub fn generate_data_list(producer: &WASMProducer) -> Vec<WasmInstruction> {
     let st = producer.get_string_table();
     let s = producer.get_string_list_start();
     for i in 0..st.len() {
-        if st[i].len() < producer.get_size_of_message_in_bytes() {
-            wdata.push(format!(
-                "(data (i32.const {}) \"{}\\00\")",
-                s + i * producer.get_size_of_message_in_bytes(),
-                st[i]
-            ));
-        } else {
-            wdata.push(format!(
-                "(data (i32.const {}) \"{}\\00\")",
-                s + i * producer.get_size_of_message_in_bytes(),
-                &st[i][..producer.get_size_of_message_in_bytes()-1]
-            ));
-        }
+        let bytes: Vec<String> =
+            string_bytes(&st[i]).iter().map(|b| format!("\\{:02x}", b)).collect();
+        wdata.push(format!(
+            "(data (i32.const {}) \"{}\\00\")",
+            s + i * producer.get_size_of_message_in_bytes(),
+            bytes.concat()
+        ));
     }
     wdata.push(format!(";; constants"));
     wdata.push(format!(
diff --git a/compiler/src/intermediate_representation/log_bucket.rs b/compiler/src/intermediate_representation/log_bucket.rs
index 3004414..87bc9c8 100644
--- a/compiler/src/intermediate_representation/log_bucket.rs
+++ b/compiler/src/intermediate_representation/log_bucket.rs
@@ -125,11 +125,19 @@ impl WriteC for LogBucket {
             }
             else if let LogBucketArg::LogStr(string_id) = logarg {
                 let string_value = &producer.get_string_table()[*string_id];
+                let literal: String = string_bytes(string_value)
+                    .iter()
+                    .map(|b| match b {
+                        b'"' | b'\\' | b'?' => format!("\\{:03o}", b),
+                        b' '..=b'~' => (*b as char).to_string(),
+                        _ => format!("\\{:03o}", b),
+                    })
+                    .collect();
 
                 let print_c =
                     build_call(
                         "printf".to_string(), 
-                        vec![format!("\"{}\"", string_value)]
+                        vec!["\"%s\"".to_string(), format!("\"{}\"", literal)]
                     );
                 log_c.push("{".to_string());
                 log_c.push(format!("{};", print_c));
-- 
2.43.0


From 7b87d904b7e09892e1dd9d9e6e7527fec01cd3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 21/55] fix: long log strings are not split

---
 .../src/abstract_syntax_tree/statement_builders.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/program_structure/src/abstract_syntax_tree/statement_builders.rs b/program_structure/src/abstract_syntax_tree/statement_builders.rs
index 3c51078..aaf19cd 100644
--- a/program_structure/src/abstract_syntax_tree/statement_builders.rs
+++ b/program_structure/src/abstract_syntax_tree/statement_builders.rs
@@ -59,24 +59,12 @@ pub fn build_log_call(meta: Meta, args: Vec<LogArgument>) -> Statement {
     for arg in args {
         match arg {
             LogArgument::LogExp(..) => { new_args.push(arg);}
-            LogArgument::LogStr(str) => { new_args.append(&mut split_string(str));}
+            LogArgument::LogStr(ref str) => { if !str.is_empty() { new_args.push(arg); } }
         }
     }
     LogCall { meta, args: new_args }
 }
 
-fn split_string(str: String) -> Vec<LogArgument> {
-    let mut v = vec![];
-    let sub_len = 230;
-    let mut cur = str;
-    while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_len, cur.len()));
-        v.push(LogArgument::LogStr(chunk.to_string()));
-        cur = rest.to_string();
-    }
-    v
-}
-
 pub fn build_assert(meta: Meta, arg: Expression) -> Statement {
     Assert { meta, arg }
 }
-- 
2.43.0


From 55b206ef7c446107119a5ac8779d0950f6dc5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:34 +0000
Subject: [PATCH 22/55] fix: signals whose last occurrence a later substitution
 cancels get no witness position

---
 constraint_list/src/constraint_simplification.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 75b4fa1..d6da806 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -710,6 +710,10 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
     let _trash = constraint_storage.extract_with(&|c| C::is_empty(c));
 
+    // substitutions may have cancelled the last occurrence of a signal
+    if remove_unused {
+        non_linear_map = build_non_linear_signal_map(&constraint_storage);
+    }
 
     let signal_map = {
         // println!("Rebuild witness");
-- 
2.43.0


From eca686fc69c118f1bcb09532c49db0cbd4008a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 23/55] fix: exported substitutions mention no eliminated
 signal and no zero coefficient

---
 .../src/constraint_simplification.rs          | 48 ++++++++++++-------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index d6da806..030271f 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -6,13 +6,30 @@ use constraint_writers::json_writer::SubstitutionJSON;
 use std::collections::{HashMap, HashSet, LinkedList, BTreeSet};
 use std::sync::Arc;
 
-fn log_substitutions(substitutions: &LinkedList<S>, writer: &mut Option<SubstitutionJSON>) {
+type SubstitutionLog = LinkedList<S>;
+
+fn log_substitutions(substitutions: &LinkedList<S>, log: &mut Option<SubstitutionLog>) {
+    if let Some(l) = log {
+        l.extend(substitutions.iter().cloned());
+    }
+}
+
+// signals eliminated by a later substitution are replaced in the earlier ones, so that
+// no substitution mentions an eliminated signal
+fn write_substitutions(log: SubstitutionLog, writer: &mut SubstitutionJSON, field: &BigInt) {
     use super::json_porting::port_substitution;
-    if let Some(w) = writer {
-        for s in substitutions {
-            let (from, to) = port_substitution(s);
-            w.write_substitution(&from, &to).unwrap();
-        }
+    use circom_algebra::simplification_utils::fast_encoded_substitution_substitution;
+    let mut later = SEncoded::new();
+    let mut resolved = LinkedList::new();
+    for mut substitution in log.into_iter().rev() {
+        fast_encoded_substitution_substitution(&mut substitution, &later, field);
+        let (from, to) = S::decompose(substitution.clone());
+        later.insert(from, to);
+        resolved.push_front(substitution);
+    }
+    for substitution in &resolved {
+        let (from, to) = port_substitution(substitution);
+        writer.write_substitution(&from, &to).unwrap();
     }
 }
 
@@ -200,7 +217,7 @@ fn eq_simplification(
     forbidden: Arc<HashSet<usize>>,
     no_vars: usize,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut Option<SubstitutionLog>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     use std::sync::mpsc;
     use threadpool::ThreadPool;
@@ -257,7 +274,7 @@ fn constant_eq_simplification(
     c_eq: LinkedList<C>,
     forbidden: &HashSet<usize>,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut Option<SubstitutionLog>,
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
@@ -285,7 +302,7 @@ fn constant_eq_simplification(
 }
 
 fn linear_simplification(
-    log: &mut Option<SubstitutionJSON>,
+    log: &mut Option<SubstitutionLog>,
     linear: LinkedList<C>,
     forbidden: Arc<HashSet<usize>>,
     no_labels: usize,
@@ -459,12 +476,7 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     use circom_algebra::simplification_utils::fast_encoded_constraint_substitution;
     use std::time::SystemTime;
 
-    let mut substitution_log =
-        if smp.port_substitution { 
-            Some(SubstitutionJSON::new(&smp.json_substitutions).unwrap()) 
-        } else {
-             None 
-        };
+    let mut substitution_log = if smp.port_substitution { Some(SubstitutionLog::new()) } else { None };
     let apply_linear = !smp.flag_s;
     let use_old_heuristics = smp.flag_old_heuristics;
     let field = smp.field.clone();
@@ -740,8 +752,10 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     }
 
 
-    if let Some(w) = substitution_log {
-        w.end().unwrap();
+    if let Some(log) = substitution_log {
+        let mut writer = SubstitutionJSON::new(&smp.json_substitutions).unwrap();
+        write_substitutions(log, &mut writer, &field);
+        writer.end().unwrap();
     }
     // println!("NO CONSTANTS: {}", constraint_storage.no_constants());
     (constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs)
-- 
2.43.0


From 0030c820f61ff26d7ef92f4765f87ca317325f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 24/55] fix: strings of field elements are allocated the way
 the generated log code frees them

---
 code_producers/src/c_elements/bls12377/fr.cpp  | 3 ++-
 code_producers/src/c_elements/bls12381/fr.cpp  | 3 ++-
 code_producers/src/c_elements/bn128/fr.cpp     | 3 ++-
 code_producers/src/c_elements/generic/fr.cpp   | 3 ++-
 code_producers/src/c_elements/grumpkin/fr.cpp  | 3 ++-
 code_producers/src/c_elements/pallas/fr.cpp    | 3 ++-
 code_producers/src/c_elements/secq256r1/fr.cpp | 3 ++-
 code_producers/src/c_elements/vesta/fr.cpp     | 3 ++-
 8 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/code_producers/src/c_elements/bls12377/fr.cpp b/code_producers/src/c_elements/bls12377/fr.cpp
index 14864de..4ba6cf8 100644
--- a/code_producers/src/c_elements/bls12377/fr.cpp
+++ b/code_producers/src/c_elements/bls12377/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/bls12381/fr.cpp b/code_producers/src/c_elements/bls12381/fr.cpp
index 14864de..4ba6cf8 100644
--- a/code_producers/src/c_elements/bls12381/fr.cpp
+++ b/code_producers/src/c_elements/bls12381/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/bn128/fr.cpp b/code_producers/src/c_elements/bn128/fr.cpp
index 14864de..4ba6cf8 100644
--- a/code_producers/src/c_elements/bn128/fr.cpp
+++ b/code_producers/src/c_elements/bn128/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/generic/fr.cpp b/code_producers/src/c_elements/generic/fr.cpp
index 1cb399f..3d18bb5 100644
--- a/code_producers/src/c_elements/generic/fr.cpp
+++ b/code_producers/src/c_elements/generic/fr.cpp
@@ -2827,7 +2827,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/grumpkin/fr.cpp b/code_producers/src/c_elements/grumpkin/fr.cpp
index 14864de..4ba6cf8 100644
--- a/code_producers/src/c_elements/grumpkin/fr.cpp
+++ b/code_producers/src/c_elements/grumpkin/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/pallas/fr.cpp b/code_producers/src/c_elements/pallas/fr.cpp
index 14864de..4ba6cf8 100644
--- a/code_producers/src/c_elements/pallas/fr.cpp
+++ b/code_producers/src/c_elements/pallas/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/secq256r1/fr.cpp b/code_producers/src/c_elements/secq256r1/fr.cpp
index 44353c6..6a58bb8 100644
--- a/code_producers/src/c_elements/secq256r1/fr.cpp
+++ b/code_producers/src/c_elements/secq256r1/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
diff --git a/code_producers/src/c_elements/vesta/fr.cpp b/code_producers/src/c_elements/vesta/fr.cpp
index 14864de..4ba6cf8 100644
--- a/code_producers/src/c_elements/vesta/fr.cpp
+++ b/code_producers/src/c_elements/vesta/fr.cpp
@@ -78,7 +78,8 @@ char *Fr_element2str(PFrElement pE) {
         mpz_init(r);
         mpz_import(r, Fr_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
     }
-    char *res = mpz_get_str (0, 10, r);
+    char *res = new char[mpz_sizeinbase(r, 10) + 2];
+    mpz_get_str(res, 10, r);
     mpz_clear(r);
     return res;
 }
-- 
2.43.0


From a59615ca809ecc13fd4fb0af27ac1ddd69a63ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 25/55] fix: signals, buses and components are declared once
 and hide nothing in a template

---
 a.circom                                      |   7 +
 a.r1cs                                        | Bin 0 -> 312 bytes
 a.sym                                         |   3 +
 a_constraints.json                            |   6 +
 a_js/a.wasm                                   | Bin 0 -> 34560 bytes
 a_js/generate_witness.js                      |  21 +
 a_js/witness_calculator.js                    | 371 ++++++++++++++++++
 constraint_generation/src/execute.rs          |  21 +-
 .../src/analyzers/symbol_analysis.rs          |  59 ++-
 9 files changed, 479 insertions(+), 9 deletions(-)
 create mode 100644 a.circom
 create mode 100644 a.r1cs
 create mode 100644 a.sym
 create mode 100644 a_constraints.json
 create mode 100644 a_js/a.wasm
 create mode 100644 a_js/generate_witness.js
 create mode 100644 a_js/witness_calculator.js

diff --git a/a.circom b/a.circom
new file mode 100644
index 0000000..21ad869
--- /dev/null
+++ b/a.circom
@@ -0,0 +1,7 @@
+pragma circom 2.1.6;
+bus B() { signal x; }
+bus C() { signal x[2]; }
+template S() { signal input in; signal output out; out <== in*in; }
+template S2() { signal input in2; signal output out2; out2 <== in2; }
+template T(n) { signal input in; signal output o; for (var a = 0; a < 2; a++) { var n2 = a; }  signal a; a <== 4; o <== a; }
+component main = T(1);
diff --git a/a.r1cs b/a.r1cs
new file mode 100644
index 0000000000000000000000000000000000000000..0ee3cd2cf884b2aa5e7a619ddde789d1340a0030
GIT binary patch
literal 312
zcmXRiOfF_*U|?VdVkRJ70mR4vBnAR35DF&=(hme5CVzeCJh5PBrN;|njo66B#%-<v
zJ2V#<J}mM}F@Pw6*aNZ?2=J;0nF&<~R*a1R$vZ$L6o534kJn6)KVW8pXqdl1{sh^l
Q0K~`urWO_sP=7K20I^Rkm;e9(

literal 0
HcmV?d00001

diff --git a/a.sym b/a.sym
new file mode 100644
index 0000000..11b8a67
--- /dev/null
+++ b/a.sym
@@ -0,0 +1,3 @@
+1,1,0,main.o
+2,2,0,main.in
+3,3,0,main.a
diff --git a/a_constraints.json b/a_constraints.json
new file mode 100644
index 0000000..f7bbebe
--- /dev/null
+++ b/a_constraints.json
@@ -0,0 +1,6 @@
+{
+"constraints": [
+[{},{},{"0":"4","3":"21888242871839275222246405745257275088548364400416034343698204186575808495616"}],
+[{},{},{"1":"21888242871839275222246405745257275088548364400416034343698204186575808495616","3":"1"}]
+]
+}
\ No newline at end of file
diff --git a/a_js/a.wasm b/a_js/a.wasm
new file mode 100644
index 0000000000000000000000000000000000000000..15c021e031f7ad8aeeaa0132c021c0018e748b27
GIT binary patch
literal 34560
zcmeHwd5|2}d0)Top0nrZJvn=#X9$P@Nf3MC5X}R<AV5+CKoH;|9wM;V9RRbKV|Qi%
z?5ap$Wl*G)Fja9$KFW55P*g7Z56ZC;Mv<dfS=+KpuGkeNm84jXltAUgM{LC`M|ROi
z8Toy$kLl~pE+H0N<-(Hae(!zneee5z-}hd>Yr3VmR*gxL#Lo1clCNBmPBH$EU7;AR
z$`$t}A#xd1`O0PKl!|l;U%t#P^Q@OoNzy3^C0qvVvc-i;IIJYOsV15i>g`Icte02j
z%S-J_qyE@jeW6-zN?C{0v(&8A+XtJ?M)OFy)tWn7mNbXfd#PDzmuD}WIa7`xw$3#!
zoj5nwEH4~??nt@TXs$|{a(+=_GE)>qRb!GAPb6b8-0{C8$r6htleop?1Y=B=WH}a7
z6lAdeq*yGKO2=Z%N#G@8QcnhdIX#!n=X!fIgtOUfM$hJQYK$#`QA}YF`5()AyvC)F
zrS#cy``L1{1%0Jw^N1X&)EiAF<vB_@HrJj%=cIgc5Gj6DPPFHmZRz>mW_fPGPmx~e
z<FEu$UsNmgN?ZC=u2pV7USGP<K2bSapQ}ozdcoV1aH8_*vNWe5@%Y@OV@()GI;|si
zs8X&j9KBFGT&_<~N%J`*Jy&VhVG>@VoawLug9TF2rb}livu(TsFo;x1C75JN8mpzh
z`WtNVZpmPVv_p~hDt0KjS4moF`d&r1LWR9bK^vD0X_n{Xx1<%*ty@8x26=~4IHvBW
zyKdi;_FX!bkC{?l>s%<tSu(0RlI5coOM`*$Q#N0U=yn8h?og6;1mZ)Dr=qHP)x+m$
zbw6s3aalRzXOY0H1ZWH9o*Y(!Cx=y|Cx?~b$zh4{Y+mDkq~xuy{RL0${{^k!vLWr3
zAs8;N6cs}@l!p*Sno4QvD~2*_e9on)M1fwo1Sl~1ZaG7gOn{Oh3edtOK!Jbkmivj)
zAE5LTr9hNIfKnjJC{acOlu<6~+uED5Ppelgt!8iFFMrji+^baL4O=-kgGa~c3?5aZ
zGk7$P&frlzI)g|5=nNhhqBC$b-gsO4L7w$qhMt!C1fEoi5qwf9ewkEPZ40Z8?Nu0@
z(w!naw^~XfH}WFg@&}g=mTD<s5H~MfHq?jUMC3k{?&Fp$r2}=l^n^hbdBt)`s3=)V
z@rt~3?y^ZPS4iwkDH9OO6+2;&3|@&{Qi{tENrDWSk`}FOCR$m&loM%`Fi1SFGOn^I
zE?y)_>k5%x%0@$^M?=(K(nUBV43az&hZL7QlB9`&&2|O0zm$&#wm%x!LaA4TUcw-y
zBGF56r6Nh1*c@50Ir3f2Q7H99o1+kIj?q%T2=jzN`bJ`&;`&CCG_eu0Vk73oM(pWo
z#L-e;v=OcD+1nK)3{o}H5-F}~BuNvSHY+x5UToSPv1$84rsbWD5i(tht0KT(Xtk`^
zYI(8Mdc;=i3t5f#!dpY_M-xMz6+@pFL*FBYzApql2XT7{#H<*^yx8@7#31&CK;&@T
z8-gP*hNDLeM_&jIuGmCKu^zEveIdoTh%+G(`$8h}%Jw;x@nR2Xf7!z_muID-jDHx-
z*-zbB_IeT7aYK?loO2$?d_)lEZ5CNvIx}P%D=BEOd_WKjF*V{en!uwUjo4dqGnG1z
zT2DzMMtuRV7VT)GYLk3C@?on@7$RYzq%}f{mMFQgM43`b0EA(UX+Es5-6g_cV<U`o
zKFW%!77~es?dB>;-W^6V>@KXnv9SFmO$;B6)FP`*-jp8Qg~e!NBV-GFSQ#l%!Vv0_
z<h^rLscxXBgeq>}vxSZI7%gQ*$XY|wC}EAHSVe2p8da*BirwvjfkPL2Bn+VnN&eu8
z62?dgRp=&XT4=xxOks3YAt_eD8fHhTkiIDux<ieDLKmo0VmZ@7sJr2*302qt&+T31
zOpE2TM)*;9c9XL^Xc$g(0ZkJM)2+sg5YG*endmA^=B9+{u0Dn;V)eV}m=y}MfsXq;
zHDbVkWrhc|G}f%}AJeni*X&g-3DL_m2*Q#U!qRRDOIoxP(pk?!3X-v&6-cHP9tn$C
zfn-|Ok+6~#NT$^s3Cmc4WLm?Ku!a>#rj;8B3s`~VQSGQq%kc({+mziTy#350;c3)X
zl;!=(enUQ%Wrkv^i%vc{lrJM;f$<k*MZF>uM;XhbaxoS&*I6;98498>S<Jl7imGNv
zhN=S?^BTh~rpL@R8J8`^IQ}K5Mo^5z;!a4BFqK11)SfWe`C@`<v1q1p9s<uoV2luE
z85Uh<v1YqAtWj|;v}(jThq#&G9OA?wP8_iQ6kjwG=XXd_5sx|}xrSTZNSrs-^TjkT
zoSI$3-_q4%M%t8)E<=FSZ1Qu+mNwa9G0nN8Xf0VKCDI48@+>Q+OsSaW@}<mcvW~?M
z+>G>jXqy=}Vn%w=Na;NssV~V)yJD`(MFkh=E)_NNIsgMG*JWKb*MJr-dIFS;c};<q
z5^kWZD}d>`QcRfZsx53%k3+y19+FT(@5L2mRXuBH5HN%F<TZ?L^|T!@(vSvhvoV+y
z6dq;8EY`v)AL81u$>VNWE6puJtUP5Y-6;yrR1_F10853xq|s7SMRe9hbW6pI5kq<s
ziYA~^%CabzlhH%~l0homRZY8>H!g%p3)#Gm#X?S|AeX>RLv?pJnW3(eSsMmHGS@I?
zKqDQ{ex`>hm-&!8SCsi&h2|lKY^CL|LQtN-TPrFdqKdJKg7Tde>JC-)QtcJo4i&3|
zowD}wZHJoiQZrO9#;epz@Ot4nowD}AZHL<LrP`~u9V*s%I%Vx8+YWWqOC2?@CwQ%x
zbvbwdWj`Kp30E#39wCi=c!V_e;Sti<het?bA08o%eRza4_Te!~NMmH=YUIPi=-{C`
zcqD^(U|Qyu_TdrI*oQ|*V;>$NjeU58H1^>U(%6SbNMj!!2H~;Qqmd7ftsOj)4j!2x
z9@Yx9<+naOLK^$<2x;uYBc!npkC4VbJVF}#@Ca$_!(%JqfsvkTVILmbJ9uOqJoF$Q
z-gfN6Bc!npkC4VbJVF}#@Ca$_!y}}z508+>K0LM)9@g5GWnmv4_jd5m9X$GjcvuVR
z5&jX<*oQ|*V;>$NjeU58H1^>U(%6SbNMj!!_Yxi$??(H_L<f(42aiG!4@{BW(mwwP
zY3#!zq_Gc=kj6edLK^$<2x;uYBc!npj|sxVS~!gGkC_f01qYAOARg8leT096H1^>U
z(%6SbNMj!!A&q@_gf#Zy5z^R)#|+_txq@q9Uwhft!DEzyl4&erWYVww^*FoJ8JS@G
z6IdqY8>h607`ZnQb063AWU>|%O-ONF#lB^5Uo*JR8mC=Zl`n(Q&@XzQHO*Hrqv%x6
z|5CB}C)}v*NCyizdWARg2rvx49QiSVg<Q!}UZk|O5D|$7L`s%&T;xc)wE-1HB5nRi
z#ok#EHCL>THq^`8+uPPYn3rKB%9&Chw24B|NE@VRBq_(2D<VmdHdE>q+Q#Uz(<9!_
zAq@UhEe&kOqG%T#41zm|krvfUcZe-Y@OV*l0nTxFB1yd*o=6fD(MyBf{6M%9Xl?IA
zavcb5EIDEla__69q0M*?Jp)|tDFpP6^q&6Gh{#3K27wysA~{3obG>4p8|><H{iWe<
zK1bR_%F<;+YCyc5HpKCcVn}%ZP%VvZ##7M?ckmt!NEqp<h0+#ei*$jsL8gc#<+v##
zNxj?@k)%Pfe-C%{??P$3n}3s{krnnBL7#KoaUiti=aPm(TaPYjtZS?IKrIzF(<*3Q
z=C%qWAbe!27%kn2Y*F5UK9vj@Ny>2pMv{8PZD~;4mWIV`X}oJ&8ZDK&wI#wJQp_GB
z=)|sn4{+N?mKqXo36F_eV6kfp{9CoOZ8I%!tG5Mi4d@kYfoX%x8tJ+@Zq`Uruee<f
zireL|xLuBm+hs}IF0%%y7b#(n5%g-;;Rm=yBTEg5TkDv(wHC##bz7*l(sDH|cF`yd
zGB~X;$L$d5OTFUeH7IUg!{X*OE^b~War5foU`I+gz`>3r4T+o2n7H{A#m#41sQK`t
z5vV*cuI&|j_Mq6ahsB;fF81t_*s}-3J~|}!(J`@)7R5fgE##xz+b~@Vc-x@Z+lIy7
zHZJzIlGxjZ#C|g-_M4*EZ?=W}hI@duI7Xeg)24>S9xyKUfRfk)#>BQPify?qWJ_)p
zOoRhg85dinB(_RXjPJG(z8ooQnaGP&NsQFCkj`9sOvNqfIY%rkyxrLhppAvdor9}I
zHs;K|<5;Dzb_O<cpa=s{35Sq{$9v+QnYqJ{My>A5974NipSo;l8dxcyS-R*%O1BM9
zr!V)MWw8!Dc?H50KEog4UV)qpIHhI#E;ex7#PDH;4HZZV4}Nr0;AYN0xKd{LV>(JJ
zvIFM&);Zd!3?8*}UbX3TvN!*RYG?RaXKxW#Jn^A{ZisAXQX|99AVyZ1?}`X!{=J)V
zgdQ&<Js%bkov(yMikIdO(kN0lL~dqR-!($U2rA%`tOK!8(iqmlLlntg2e4L9qB3|q
z3ybB>bHO^z>&?HRXZ4o`1JJwN()`))<>r#CWuYiiH;6ambhMrl#n;G-A?_8s>Ofal
z#nivB8CSi-3o$K}cqQBr;zDUCP{hSCZ3xlN3eoQdu`cv|cSP=y-rtL($p>|F1+@+u
zd)0PHy<)=*hz(QdY8cG+M>b=aVXt9^11N83n9&l=fFqSk8$z39#WvG#%4VBs7D3%y
z^z&ky_3}Y;q<RBln-#=18|i8@%;Lv4W3w@@&Bg)-=w`DtA8tnKlNFmw7n-YEJL(f!
za#QUnsFufELQ7i9Mv>}S3u=+1g4mKHVoO>pN?wL+<74w#G5)$3|Gt~Tf8#chH-sSf
z8bXi<#LcB3ZZ0EYkjFzHb0jfY!!(4?BqDx*po@|06C&BoT?d6AZ^B)B#Yhf_kt~Rj
z91$Zq9zv4Cg<Z!kaP^7d8oVjEHukOoF(w5uCL>}@#zUBJ#WA<<qWGXt@ovsAB*bJB
z&QK65J|b4!T0si+C)nWZqMfyZ<}KuOlijr2*mfgg6~;p<a4TTlKrClBVMc`p+62_&
zAvw7)*w=G~u}%q(8Zlagz^P80cjd<yDaem6x@kD2=pH35;KZVVlb$#Tsu#2Y3SZag
zJZJ`oM6YW|y+iBeIWqdFc`dVDmQ1#6AAi(w#Mi2*54AIWL`$JK-YtORl)uTCietIp
zV&L#44*c?CuBhgTERK$v#vz;zUC-!SaAFtdP3emIamW*~>j=`?366g0fE$Mvut<y|
zi^Ui}2g^)jiPS!*?$6^CD@iI9<D5TEq8<YOxS{Nnr28eXQ0V-uV&E|DqJ0=wR5>_>
zYS%__loPV7Wpx7=x{m;&wJgrJ7PMcGnT*5C=Cv%26)XA{LoTXZ43&=l!T^R!CxW3r
zjyvl^&|!@|3G2}Pd@+V{oIrZp^mWOiuS?N%!y+5eRNbQL(bS|xO-55yi;4ruQF6%^
zRgR|GN(FRM4`vxZd;EKhDS%0jlVj>J*le^Yo7Zrlm~aD{2@@wFvw8{PbqcTL^b+BS
zM7Wcl%)-mE=CzzYWHQT<5OF975ydt%RS3T3dJe47U!3Qbu#5tEkWQo_99Sj`ad%Q6
z3?*m59@U^QWGO%hN?pt81<n(JF*?wkg9?K%Al-3j7)N!vVt9oH!sfL&sRHqF;R0$i
z$iUys!Qb*hA^w69p2lA=!b9|e5i6guS245)2{5Q?Nbn-8*_qp`aDJ`@S^{}ElI@q4
zsAh7Ja?wrUcyB?KJEa7iY#E44An5UfBpx+h=~3+%s+^UcA(|n4`3Qz0279&0y5#{)
z(g!u|IozqjbqN*Ht3<rD)4BFn_Q+)D<f0|b2(s|Vj4bIm9MvHpO!-yhM=v$$<s0U@
z;^#Vw5|7&@Y}H+%Y`&oqK|!c;%A{%A{G9Z=xtQi!UQfADKBj#J@9Md1u#Ubw$Z@c%
zB-N=FmovId2ZuopGC+70GfR1P%Nww`atv$t?3H6pZXW*oR2VJ5gv)~7aXVBlh6UX&
zC&>yhH`<z{kw577!g-Up?=%6oe&2b@px?*o?<fH!<VbyZYEU&x8`)K<AFJN_4v+4k
z3>tED?83Td_97SN1XdorH>lUk%ET#J%lF6_h>;88T%04D<vuqjCb%)qn=0wxLb4*6
z*Gt>A3Yi-Zv154pyXLk|{R_;kaC2)PrL_h&vetluh-LTg)&jSVp9ifqK;UlLT0U0M
z*5V93p1Nsk1$jqUi_~_lMK9O6X={C+-t81<PTadt0Xc_NIl`U(q0^Om@#38%715Ju
z$#`KCf14EAu+=efZeEffZ6?Y_CL=Kdj9p`SI#OF~o?o(BPsiMNx_BCOCm6{cm5Su~
z(Z!~2&tSOF2-C(1V**Kg3+W%$6cCd`N8KkvbnR%A>QrD`gXgf`rsbmQ$#pZRe)JN!
z0DYn(KL=<SxS{u+A|+>OU;sPu7oKUFk3{c4BNAoNw0pdzED~{<j^N_YYt^v1yg|Nx
z5xVmY<oy>P;nS`_&BtlER)g+z`33m0r&H>Z(c!{}NxWO|a52}3><k$&U;7Z<DCFxr
z75U&N$eq~TOeYG?orgg*XHOSOKT*BuE_4YF=JufCZj;(+M-ym8nAuNxOyKax2X+92
zdQ2xCFq*0Bz1l6R&>430YG*g8AvB`tHhF`N8Mn8WC4Jmcw&OCo&p$P-m&SP*g6I#@
z$Q=f}Upq{<9Ul@nzn_|hB~eN11GCw6=>__2EDe$k_IgCx=d=PSrusPb5QKkq5mTAG
zHY;hh7`sA05T<`71U2Iq&y(xWWDOSm%Iw2eiz;d`)K~GNRLT17u8}bLq@RAf3ts5M
z6#SM~pT)0W_alN|eo`c^o3GIn48QALw0;GuEqZF>by-zmrgallnck}Q2dm<<K)e>x
z;M=cs==9;MnCNlfob?$pt83m2eoOiWmKXe!3+}r1;~Hi>famBzk26!7<PWM%G#B?V
z7Rg68$De?CHq-99GqOfeUwQpU=>W8!WbhMLCn)I|^FaJZJ^~2*JY>_by^{tL^2I%P
zF)J#;G)$sdK266k^TIq@=JTov+;^HubHaR2()XE36taDLLf@r7ilTZ9zjnq?JA)Ze
zaF>3_%CKpMc78EKyG9L73Tq(rc2m9r0gtoe)>}Ifhe-Twr9{^e$CRb>W>CZn+Evw$
zy=#V#rY8<Ok3QisB{}zp@#qip0NAkF&XdIBdACSq?o_wFTG*L;J1)y`^p2kg{fKvN
z+)pe&Lfq#^i2M8q@muXjhyQ;3C|vEW^P`BmH~ld95t>f8T8|$!yZX^*1N{-=K0iX-
z=SPU&YCk&q_v1(5YHyt%Mbv#O{3u+l$B$Y8KiUHtf3D45;ZDRONghF$#Ghz9f~7eA
zIOCCmb`Zrj`TXJ!2tLq07H|P=3|#cP@Z`RWFRuq?${i|S!3|Jp<g4Gsr^fziX}@It
zyGcV@q#hV!<0=I-RWfDwqG&P6{B~Z;(G@b;dGt=yU^G5CfV~5g=J-WM+AkJm8cBol
zuw?3OjKi=iLSs9=IdbEMg5}SP`z7-VEtkY}dRq<C9>Tts`Tj1G7@9xaRb+hYfterd
zqP+*k2SOy~Vv+CgnD0!QzdT8K-<{B_!`icazvpf923sZ}te5(j@8=EK)UlC)0X+>#
zq^BT-f_VbP@M;@c&_WKj$jf0t++ZXVQuzi9BqLcYjI`fkEKVYlp5TYAKvULfkoJ{X
z<8_05<u(1~5^WHgj8btvd%K*$9+nxWC?e=+7E3WxKChodszRwT?6R0|PGFl5yM^m{
zeOD1@t)UcRG~mMx)2^6Bqcsw|`zA!S$=hfr^9nSDgoZ-7xP-qvsn<$azB7`9Gym%W
z4jqvpB(`SFYk8O$yGyWtk}ixcs<w?`R`dZ7Fy%J+ha)d`weoPQZ6x$P+TE5zkTt%Y
z=aS=2%Q#8<uG{wlxe`iBPRR-4zdlKjLMpr?i2%d9;>~Z7XYQ1c8vz&yy!pn#Ka;V?
zYkq4QiSIKQRz^;Hf9~CBLndEAzeRgkv=@kJnR>qjU!)lrypL{t!wNxz2v!Pie~PVJ
zPxO!d(f{j@{%?QueqT|e6EpE*DDK8FGhKDIq0?1sPuU_^LSo8THzyW5CDDvxOGVnX
zPS-uz6=+T>DyByQ?yBpPyoG2Byd4x7!6H)?CSYN_2@x#hw<r%Ns4hl$AjZ)lHe4n^
z$}5qrN;*{7!m8vxYOC*Xt1-7}8r);Sa*vz@5$PGS8k+X6GB#lM59H?`po2)5-)8zt
zs2fg3eg!*{Z_zue-rWu7V0PrYh;X6slBh*D^|d|vKFq46Mg1<?V5PlEDrpz$6z6%I
zWMVvFmD<K3<Hh7f^PN2?!D~mvPNWpxw_y=i`>DIeB+R0;<ljm5AND!XXE`y^9W!g5
z>-{hM#rF^V#L};<KK4h`+duWm&wS=<2akPy$F<4tH;*n%!0GYwu)n!+<H^yPpL%D<
z@1A<=Colf(p8F21t~9<}KeOw9CVuwUE~U|Gt|8akwc;-w{DZHL{QmPV{r*?)|GN{P
zUHis~2d_T<<}W;Q^vYMiGl=H5j$HetfB)|H-}~arU;o<QjDGXyAG`Yp|M9IaE&SF4
zpMRzNJ6E1~{(}sim)J~=YjI3GH~Pc&Gtc$GZ~yiCUwZ88-+f@~4~M>Z-#hF3|9ffs
zcl*EdGfN-8YpMXbkPCQikn1{f{lSeJZ~av+JM!>P-2LS*pZmA}=kxLJy?60X-h1>n
zzVR2vGs*7^0I!5*JpBBYhx$`L{c~@;_R!V;{MmuRxfj*X{+vAAci$gA5?4rO?DcEL
z&p-H|)}CqA=l|P{gInAG@1B4Dp7Jlp*Y7^~>>vKs{EjdF*(s6>xvssF-|~-M`wzc+
zVD>HZkAFR#d3WcJ|N0U3Pf|bKDqZC^#t!Uebi~8+=@DKvvZLSzW?#>1NgLfYbY^*N
z&9I}lZ?_S+jlgXLZX<9Tf!he&M&LFAw-LCFz&`*4zWKyU|2nbn-y~(|!e<u$0Cc*o
z!fga@Bk&O+fTdPVCtlP$P%mMvWxP3|ZKqWHt!>zEU{N1yxAcegI<3p~ThrPg|In;a
zsT=KbZK*ofE*npuoIsg(cWc*}UDf^#7pHh_(thhEzLG-t+y9qX;@NlZ-seyJ?5{m^
z&ksJRz4YdvzyCiDeeZW({$_sW>Yw$GTGC7V{{)L--}}9b^?`5wwvzkvU;S4vuFs!J
zJhu4#FMRh0uYcj6{$@h@#<*IatCiV*)#_5{o4PFgDP1|@3%W{g_`|uXcBpw0pW!_@
z-&k6WIgwA7n~iwZrc_!lAeu<q(MG+TOxfY`a>@ywZKs_aXWM1X3C}GoWSns8!s)CN
zu3f0+oC;dY7w|3LylykKqEA*A^o*Ty61gXP+!%OH_BxCfDi`~D?0l8_MSOd=e5A3^
zPvk?BwUfv@;Dk~CpcAf_&)$)<^VE))7cR`V3l0sn4UueA-V$b*Wa~sB+en|C(rz4S
z)Z1qpwQ_THbihtL(`?i_$zvoRm9Dgome0<$D;LY-PTjW1Tb#Oqu0d9y?A6BHLb2DW
z2jA;$otU4i&NWL;=JLwYolfS~a<jcP?^bkzW4aCBO5m3LSkeyE@8Sk)J>9%e-cCw3
z=Pn(9=}$}@-a)0k>fBAd+l`}*W^Jx|k3~J)sGqeG?&aolHQE_RW}tc>6~b4654TQF
zPwk>=+l|NT?Fk~2;ph%SOwql(e0-YjXWPeTVm!W^qV@9f9*UlA@8#6;@;-`I+aITB
zwY+>k-C?C4BlRlqfCqR&W8p!%1JZ}+j`WA=zSOw1pM*M7St;X-%2m@7Y0i=%fB__)
zKX;*i{s3W%c<WrX`iL8DRu7UL<`xz&wA!<k`tfq>LbZK}ptSNn>IR#SQJpCMxOH!S
zf~rHV)Aar8CrDxn9kzL&ZZxY$C?^6(ot!I3e3Iux=$MmQZ?vmV@l=G4Q=ke)C#Z0>
z(R`XGfbtA|Qu@g=XXtCtPoB7N`aq+$1g~m8>-jb{{}8qJ)6|~~ewq4t!H20|i1;q`
zi&3AYeks>1x5~|nWqi+i{`{flr}$T@Umk*Ro^MhgnOi#6XjSO@;3o&>&z0xTKYqqT
zK2dI;3VhajF5;`!r@bGwo)3M~dcpSv>vG@&*JnH*v_3mX-Qe_8rSAX6_PGH{Kh&J^
zCszWWzh3M;eW6la@O`%Ye4eKrZk)BhlU+^YxpQ(JpZCUtC_!O-Dqa2+{j@4e^3n>E
zmzpt#P%}=~l>`rC9Bt87Q*J2jhVT$%D~zqmtf{d1j4zfQ=+NZ(300n-jL9n#ad~wj
zA+Jm(<<-fQyfT%RSEn?2WjZ6TPG{wnnVh^jlb2U^>+<UE9(iR?ue`daPhQ#EFR$*+
z<v7cx41Nmusqy)Vla1;^EIvO;_c-`lyjP~cdpZq%;JrHoKH$AKkMFTV+@`K_r64!7
zh2TA|;PVQ!?bRH~=M~me<z_P`&(Fu@@+T8=`T3;W0v4^6v|OI=%h~AEEKY4zt(Pyg
zW2_mMmzNXrax+N@&6Lu*w3KEmTC9anq_;Ckx>3$7Pgv<!oEn=0ogg-wxVU%3B-V!5
zvRYr7o`Sq8s}(-xmH-kKx}0obusV^HYZEDXc>)+rYQQ=p*Cw;_@?;K}=YhE{*QR>p
z<*8oa)CcVQ<=XUsygWS!%<g~<3UX~`NM4>927V*3#i(4{Jti;j9tW0NU=u^G?J3I3
zdrH9dPS|FvT-&=%Ufw&j#S&U*BQ7PZ6p*k636~+^%2W=L<sq34$$B7FFQkG8%s|2!
zNH_xtci#bN3Xo<9(hNhA5lAu$NyZ?>IHVZ1p&PO9qxOA_LAr4}vW0uNk&xmo{&-_4
z>yGcybBA71SvAHgactmn2eGrsoosNAQe09`&$Y_Tp=MkrXWQq<e^@2PPTvU|*2#vf
zrm%|27Pmr@`Zj7wO|-m~kHwvk%<2kjscaz@YgOl3?Ynqu#Qv?kbeyq^J1BbmZhpOo
zU+<->xs!bQI9Qn^d$NH6$(d^7(tVt`i(e;VZWeiImPB*2O^QiVRI>@jv(s*9M)7jm
z?ThX4#c&qP5eppl`C=dU#qJl2@MFG=5BOpaTEIZWhr|pX_7&L=`_D0U+O+SpmR_uK
zAn6JVBP1HnHJS@8^fHavO1m`~vlFJ`R>D+*RUY}!B@S{^9O}qQ=Jr_P(T=FB{#Yjh
z^d9%cK0z^V7xX>HpYYKR`)Egew4*-SlRnxp$HK>-a$!C0%W=XNd)m$Q49-T+<AKkV
zN~84xe0%9dpt}TzeMyz#_0y~Ea*HJ^^-7DL%5oB&-|1H6(`7}gm1~XWDvx{$eIGiy
ziX6wFw%KUD44*z%2g`azW)(%5yRdSSNlL4-bSfpO=W4CfOg&d^otBlQMoW?FEmf{9
z#fTnPaj7NLi<n^~ZEkZAu~X)ZCEom5lJy*2D!9xq#wAu`tSZapnj)XBf#ZBkS(=<U
zk1n9bkSZfpL26ZzGSrRFRU3TF!{XN65xzDk*(oeOZ)vSr`4MThl{f~Y^R*>4ZQW_i
z9g9~QmHL@RT&-T5YbN3tW<%wqN)yMFir_?=u9$n`I+aPxH!jrM<z_b3YB%s$2PNkQ
zr}7#N9qcT65<Og%xc2DQ2%y?%ELk=8dQvPE`g%HfYzF-{hy!Vit}p~8+o^BJeUf$(
zN}a4==rTRUl1@a<IH4xemAn%}gc8(VPlBBm%lXsdo%o&^<VkdD+B1{v@n;4-WmkgC
zduE#Wm-g4XXGTk$Y@fW?s4QeCKyqZ`2;iPeTX#y!^DwcPp3+lRI)Xh}H%OG;j2lHP
RmS$1{qp4PHZYk*r|9_qePbL5W

literal 0
HcmV?d00001

diff --git a/a_js/generate_witness.js b/a_js/generate_witness.js
new file mode 100644
index 0000000..a059e66
--- /dev/null
+++ b/a_js/generate_witness.js
@@ -0,0 +1,21 @@
+const wc  = require("./witness_calculator.js");
+const { readFileSync, writeFile } = require("fs");
+
+if (process.argv.length != 5) {
+    console.log("Usage: node generate_witness.js <file.wasm> <input.json> <output.wtns>");
+} else {
+    const input = JSON.parse(readFileSync(process.argv[3], "utf8"));
+    
+    const buffer = readFileSync(process.argv[2]);
+    wc(buffer).then(async witnessCalculator => {
+		/*
+	    const w= await witnessCalculator.calculateWitness(input,0);
+	    for (let i=0; i< w.length; i++){
+		console.log(w[i]);
+	    }*/
+	const buff= await witnessCalculator.calculateWTNSBin(input,0);
+	writeFile(process.argv[4], buff, function(err) {
+	    if (err) throw err;
+	});
+    });
+}
diff --git a/a_js/witness_calculator.js b/a_js/witness_calculator.js
new file mode 100644
index 0000000..605d49c
--- /dev/null
+++ b/a_js/witness_calculator.js
@@ -0,0 +1,371 @@
+module.exports = async function builder(code, options) {
+
+    options = options || {};
+
+    let wasmModule;
+    try {
+	wasmModule = await WebAssembly.compile(code);
+    }  catch (err) {
+	console.log(err);
+	console.log("\nTry to run circom --c in order to generate c++ code instead\n");
+	throw new Error(err);
+    }
+
+    let wc;
+
+    let errStr = "";
+    let msgItems = []; // the items of the log line being built
+    
+    const instance = await WebAssembly.instantiate(wasmModule, {
+        runtime: {
+            exceptionHandler : function(code) {
+		let err;
+                if (code == 1) {
+                    err = "Signal not found.\n";
+                } else if (code == 2) {
+                    err = "Too many signals set.\n";
+                } else if (code == 3) {
+                    err = "Signal already set.\n";
+		} else if (code == 4) {
+                    err = "Assert Failed.\n";
+		} else if (code == 5) {
+                    err = "Not enough memory.\n";
+		} else if (code == 6) {
+                    err = "Input signal array access exceeds the size.\n";
+		} else {
+		    err = "Unknown error.\n";
+                }
+                throw new Error(err + errStr);
+            },
+	    printErrorMessage : function() {
+		errStr += getMessage() + "\n";
+                // console.error(getMessage());
+	    },
+	    writeBufferMessage : function() {
+			const msg = getMessage();
+			// Any calls to `log()` will always end with a `\n`, so that's when we print and reset
+			if (msg === "\n") {
+				console.log(msgItems.join(" "));
+				msgItems = [];
+			} else {
+				msgItems.push(msg);
+			}
+	    },
+	    showSharedRWMemory : function() {
+		printSharedRWMemory ();
+            }
+
+        }
+    });
+
+    const sanityCheck =
+        options
+//        options &&
+//        (
+//            options.sanityCheck ||
+//            options.logGetSignal ||
+//            options.logSetSignal ||
+//            options.logStartComponent ||
+//            options.logFinishComponent
+//        );
+
+    
+    wc = new WitnessCalculator(instance, sanityCheck);
+    return wc;
+
+    function getMessage() {
+        var bytes = [];
+	var c = instance.exports.getMessageChar();
+        while ( c != 0 ) {
+	    bytes.push(c);
+	    c = instance.exports.getMessageChar();
+	}
+        return new TextDecoder().decode(new Uint8Array(bytes));
+    }
+	
+    function printSharedRWMemory () {
+	const shared_rw_memory_size = instance.exports.getFieldNumLen32();
+	const arr = new Uint32Array(shared_rw_memory_size);
+	for (let j=0; j<shared_rw_memory_size; j++) {
+	    arr[shared_rw_memory_size-1-j] = instance.exports.readSharedRWMemory(j);
+	}
+
+	msgItems.push(fromArray32(arr).toString());
+	}
+
+};
+
+class WitnessCalculator {
+    constructor(instance, sanityCheck) {
+        this.instance = instance;
+
+	this.version = this.instance.exports.getVersion();
+        this.n32 = this.instance.exports.getFieldNumLen32();
+
+        this.instance.exports.getRawPrime();
+        const arr = new Uint32Array(this.n32);
+        for (let i=0; i<this.n32; i++) {
+            arr[this.n32-1-i] = this.instance.exports.readSharedRWMemory(i);
+        }
+        this.prime = fromArray32(arr);
+
+        this.witnessSize = this.instance.exports.getWitnessSize();
+
+        this.sanityCheck = sanityCheck;
+    }
+    
+    circom_version() {
+	return this.instance.exports.getVersion();
+    }
+
+    async _doCalculateWitness(input_orig, sanityCheck) {
+	//input is assumed to be a map from signals to arrays of bigints
+        this.instance.exports.init((this.sanityCheck || sanityCheck) ? 1 : 0);
+	let prefix = "";
+	var input = new Object();
+	//console.log("Input: ", input_orig);
+	qualify_input(prefix,input_orig,input);
+	//console.log("Input after: ",input);	
+        const keys = Object.keys(input);
+	var input_counter = 0;
+        keys.forEach( (k) => {
+            const h = fnvHash(k);
+            const hMSB = parseInt(h.slice(0,8), 16);
+            const hLSB = parseInt(h.slice(8,16), 16);
+            const fArr = flatArray(input[k]);
+	    let signalSize = this.instance.exports.getInputSignalSize(hMSB, hLSB);
+	    if (signalSize < 0){
+		throw new Error(`Signal ${k} not found\n`);
+	    }
+	    if (fArr.length < signalSize) {
+		throw new Error(`Not enough values for input signal ${k}\n`);
+	    }
+	    if (fArr.length > signalSize) {
+		throw new Error(`Too many values for input signal ${k}\n`);
+	    }
+            for (let i=0; i<fArr.length; i++) {
+                const arrFr = toArray32(normalize(fArr[i],this.prime),this.n32)
+                for (let j=0; j<this.n32; j++) {
+		    this.instance.exports.writeSharedRWMemory(j,arrFr[this.n32-1-j]);
+		}
+		try {
+                    this.instance.exports.setInputSignal(hMSB, hLSB,i);
+		    input_counter++;
+		} catch (err) {
+		    // console.log(`After adding signal ${i} of ${k}`)
+                    throw new Error(err);
+		}
+            }
+
+        });
+	if (input_counter < this.instance.exports.getInputSize()) {
+	    throw new Error(`Not all inputs have been set. Only ${input_counter} out of ${this.instance.exports.getInputSize()}`);
+	}
+    }
+
+    async calculateWitness(input, sanityCheck) {
+
+        const w = [];
+        await this._doCalculateWitness(input, sanityCheck);
+
+        for (let i=0; i<this.witnessSize; i++) {
+            this.instance.exports.getWitness(i);
+	    const arr = new Uint32Array(this.n32);
+            for (let j=0; j<this.n32; j++) {
+            arr[this.n32-1-j] = this.instance.exports.readSharedRWMemory(j);
+            }
+            w.push(fromArray32(arr));
+        }
+
+        return w;
+    }
+    
+
+    async calculateBinWitness(input, sanityCheck) {
+
+        const buff32 = new Uint32Array(this.witnessSize*this.n32);
+	const buff = new  Uint8Array( buff32.buffer);
+        await this._doCalculateWitness(input, sanityCheck);
+
+        for (let i=0; i<this.witnessSize; i++) {
+            this.instance.exports.getWitness(i);
+	    const pos = i*this.n32;
+            for (let j=0; j<this.n32; j++) {
+		buff32[pos+j] = this.instance.exports.readSharedRWMemory(j);
+            }
+        }
+
+	return buff;
+    }
+    
+
+    async calculateWTNSBin(input, sanityCheck) {
+
+        const buff32 = new Uint32Array(this.witnessSize*this.n32+this.n32+11);
+	const buff = new  Uint8Array( buff32.buffer);
+        await this._doCalculateWitness(input, sanityCheck);
+  
+	//"wtns"
+	buff[0] = "w".charCodeAt(0)
+	buff[1] = "t".charCodeAt(0)
+	buff[2] = "n".charCodeAt(0)
+	buff[3] = "s".charCodeAt(0)
+
+	//version 2
+	buff32[1] = 2;
+
+	//number of sections: 2
+	buff32[2] = 2;
+
+	//id section 1
+	buff32[3] = 1;
+
+	const n8 = this.n32*4;
+	//id section 1 length in 64bytes
+	const idSection1length = 8 + n8;
+	const idSection1lengthHex = idSection1length.toString(16);
+        buff32[4] = parseInt(idSection1lengthHex.slice(0,8), 16);
+        buff32[5] = parseInt(idSection1lengthHex.slice(8,16), 16);
+
+	//this.n32
+	buff32[6] = n8;
+
+	//prime number
+	this.instance.exports.getRawPrime();
+
+	var pos = 7;
+        for (let j=0; j<this.n32; j++) {
+	    buff32[pos+j] = this.instance.exports.readSharedRWMemory(j);
+        }
+	pos += this.n32;
+
+	// witness size
+	buff32[pos] = this.witnessSize;
+	pos++;
+
+	//id section 2
+	buff32[pos] = 2;
+	pos++;
+
+	// section 2 length
+	const idSection2length = n8*this.witnessSize;
+	const idSection2lengthHex = idSection2length.toString(16);
+        buff32[pos] = parseInt(idSection2lengthHex.slice(0,8), 16);
+        buff32[pos+1] = parseInt(idSection2lengthHex.slice(8,16), 16);
+
+	pos += 2;
+        for (let i=0; i<this.witnessSize; i++) {
+            this.instance.exports.getWitness(i);
+            for (let j=0; j<this.n32; j++) {
+		buff32[pos+j] = this.instance.exports.readSharedRWMemory(j);
+            }
+	    pos += this.n32;
+        }
+
+	return buff;
+    }
+
+}
+
+
+function qualify_input_list(prefix,input,input1){
+    if (Array.isArray(input)) {
+	for (let i = 0; i<input.length; i++) {
+	    let new_prefix = prefix + "[" + i + "]";
+	    qualify_input_list(new_prefix,input[i],input1);
+	}
+    } else {
+	qualify_input(prefix,input,input1);
+    }
+}
+
+function qualify_input(prefix,input,input1) {
+    if (Array.isArray(input)) {
+	a = flatArray(input);
+	if (a.length > 0) {
+	    let t = typeof a[0];
+	    for (let i = 1; i<a.length; i++) {
+		if (typeof a[i] != t){
+		    throw new Error(`Types are not the same in the key ${prefix}`);
+		}
+	    }
+	    if (t == "object") {
+		qualify_input_list(prefix,input,input1);
+	    } else {
+		input1[prefix] = input;
+	    }
+	} else {	    
+	    input1[prefix] = input;
+	}
+    } else if (typeof input == "object") {
+        const keys = Object.keys(input);
+	keys.forEach( (k) => {
+	    let new_prefix = prefix == ""? k : prefix + "." + k;
+	    qualify_input(new_prefix,input[k],input1);
+	});
+    } else {
+	input1[prefix] = input;
+    }
+}
+
+function toArray32(rem,size) {
+    const res = []; //new Uint32Array(size); //has no unshift
+    const radix = BigInt(0x100000000);
+    while (rem) {
+        res.unshift( Number(rem % radix));
+        rem = rem / radix;
+    }
+    if (size) {
+	var i = size - res.length;
+	while (i>0) {
+	    res.unshift(0);
+	    i--;
+	}
+    }
+    return res;
+}
+
+function fromArray32(arr) { //returns a BigInt
+    var res = BigInt(0);
+    const radix = BigInt(0x100000000);
+    for (let i = 0; i<arr.length; i++) {
+        res = res*radix + BigInt(arr[i]);
+    }
+    return res;
+}
+
+function flatArray(a) {
+    var res = [];
+    fillArray(res, a);
+    return res;
+
+    function fillArray(res, a) {
+        if (Array.isArray(a)) {
+            for (let i=0; i<a.length; i++) {
+                fillArray(res, a[i]);
+            }
+        } else {
+            res.push(a);
+        }
+    }
+}
+
+function normalize(n, prime) {
+    let res = BigInt(n) % prime
+    if (res < 0) res += prime
+    return res
+}
+
+function fnvHash(str) {
+    const uint64_max = BigInt(2) ** BigInt(64);
+    let hash = BigInt("0xCBF29CE484222325");
+    for (var i = 0; i < str.length; i++) {
+	hash ^= BigInt(str[i].charCodeAt());
+	hash *= BigInt(0x100000001B3);
+	hash %= uint64_max;
+    }
+    let shash = hash.toString(16);
+    let n = 16 - shash.length;
+    shash = '0'.repeat(n).concat(shash);
+    return shash;
+}
diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index b66c8a3..a7b8589 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -152,7 +152,8 @@ enum ExecutionError {
     UnknownTemplate,
     NonValidTagAssignment,
     FalseAssert,
-    ArraySizeTooBig
+    ArraySizeTooBig,
+    SymbolDeclaredTwice
 }
 
 enum ExecutionWarning {
@@ -277,6 +278,20 @@ fn execute_statement(
                     );
                 }
                 _ => {
+                    if *xtype != VariableType::Var
+                        && (ExecutionEnvironment::has_signal(&runtime.environment, name)
+                            || ExecutionEnvironment::has_bus(&runtime.environment, name)
+                            || ExecutionEnvironment::has_component(&runtime.environment, name))
+                    {
+                        // declared in another block that has been executed too
+                        let err = Result::Err(ExecutionError::SymbolDeclaredTwice);
+                        treat_result_with_execution_error(
+                            err,
+                            meta,
+                            &mut runtime.runtime_errors,
+                            &runtime.call_trace,
+                        )?;
+                    }
                     let mut arithmetic_values = Vec::new();
                     for dimension in dimensions.iter() {
                         let f_dimensions = 
@@ -4292,6 +4307,10 @@ fn treat_result_with_execution_error<C>(
                 FalseAssert => {
                     Report::error("False assert reached".to_string(), ReportCode::RuntimeError)
                 }
+                SymbolDeclaredTwice => Report::error(
+                    "Symbol declared twice: signals, buses and components have global scope in their template".to_string(),
+                    ReportCode::SameSymbolDeclaredTwice,
+                ),
                 ArraySizeTooBig => Report::error(
                     "The size of the array is expected to be a usize".to_string(),
                     ReportCode::RuntimeError,
diff --git a/type_analysis/src/analyzers/symbol_analysis.rs b/type_analysis/src/analyzers/symbol_analysis.rs
index 94a9ad0..5d13d49 100644
--- a/type_analysis/src/analyzers/symbol_analysis.rs
+++ b/type_analysis/src/analyzers/symbol_analysis.rs
@@ -6,9 +6,29 @@ use program_structure::program_archive::ProgramArchive;
 use program_structure::function_data::FunctionInfo;
 use program_structure::template_data::TemplateInfo;
 use program_structure::bus_data::BusInfo;
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 type Block = HashSet<String>;
-type Environment = Vec<Block>;
+
+// Kind of a symbol with global scope in its template
+#[derive(Clone, Copy, PartialEq, Eq)]
+enum GlobalSymbol {
+    Signal,
+    Bus,
+    Component,
+}
+
+#[derive(Default)]
+struct Environment {
+    blocks: Vec<Block>,
+    // signals, buses and components declared so far, in any block
+    globals: HashMap<String, GlobalSymbol>,
+}
+
+impl Environment {
+    fn new() -> Environment {
+        Environment::default()
+    }
+}
 
 pub fn check_naming_correctness(program_archive: &ProgramArchive) -> Result<(), ReportCollection> {
     let template_info = program_archive.get_templates();
@@ -120,7 +140,7 @@ pub fn analyze_symbols(
     let mut param_name_collision = false;
     let mut reports = ReportCollection::new();
     let mut environment = Environment::new();
-    environment.push(Block::new());
+    environment.blocks.push(Block::new());
     for param in params_names.iter() {
         let success = add_symbol_to_block(&mut environment, param);
         param_name_collision = param_name_collision || !success;
@@ -154,7 +174,7 @@ pub fn analyze_symbols(
 }
 
 fn symbol_in_environment(environment: &Environment, symbol: &String) -> bool {
-    for block in environment.iter() {
+    for block in environment.blocks.iter() {
         if block.contains(symbol) {
             return true;
         }
@@ -163,7 +183,7 @@ fn symbol_in_environment(environment: &Environment, symbol: &String) -> bool {
 }
 
 fn add_symbol_to_block(environment: &mut Environment, symbol: &String) -> bool {
-    let last_block = environment.last_mut().unwrap();
+    let last_block = environment.blocks.last_mut().unwrap();
     if last_block.contains(symbol) {
         return false;
     }
@@ -171,6 +191,29 @@ fn add_symbol_to_block(environment: &mut Environment, symbol: &String) -> bool {
     true
 }
 
+// Signals, buses and components have global scope in their template: they neither hide a
+// visible symbol nor are hidden by a variable, and branches that reuse their name keep their kind.
+fn add_declaration_to_block(
+    environment: &mut Environment,
+    symbol: &String,
+    xtype: &VariableType,
+) -> bool {
+    let kind = match xtype {
+        VariableType::Var => None,
+        VariableType::Signal(..) => Some(GlobalSymbol::Signal),
+        VariableType::Bus(..) => Some(GlobalSymbol::Bus),
+        VariableType::Component | VariableType::AnonymousComponent => Some(GlobalSymbol::Component),
+    };
+    let correct = match kind {
+        None => !environment.globals.contains_key(symbol),
+        Some(kind) => {
+            let visible = symbol_in_environment(environment, symbol);
+            *environment.globals.entry(symbol.clone()).or_insert(kind) == kind && !visible
+        }
+    };
+    add_symbol_to_block(environment, symbol) && correct
+}
+
 fn analyze_statement(
     stmt: &Statement,
     file_id: FileID,
@@ -231,7 +274,7 @@ fn analyze_statement(
                     environment,
                 );
             }
-            if !add_symbol_to_block(environment, name) {
+            if !add_declaration_to_block(environment, name, xtype) {
                 let mut report = Report::error(
                     format!("Symbol declared twice"),
                     ReportCode::SameSymbolDeclaredTwice,
@@ -273,7 +316,7 @@ fn analyze_statement(
             analyze_expression(arg, file_id, function_info, template_info, bus_info, reports, environment)
         }
         Statement::Block { stmts, .. } => {
-            environment.push(Block::new());
+            environment.blocks.push(Block::new());
             for block_stmt in stmts.iter() {
                 analyze_statement(
                     block_stmt,
@@ -285,7 +328,7 @@ fn analyze_statement(
                     environment,
                 );
             }
-            environment.pop();
+            environment.blocks.pop();
         }
         Statement::While { stmt, cond, .. } => {
             analyze_expression(cond, file_id, function_info, template_info, bus_info, reports, environment);
-- 
2.43.0


From c4577cd576e8997b8a74e31d483eec1420cc3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 26/55] fix: too many indices on a component are reported
 instead of underflowing

---
 type_analysis/src/analyzers/type_check.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 3ad2271..5114b34 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1090,6 +1090,9 @@ fn check_if_it_is_a_tag(
     let (mut kind, mut tags) = if environment.has_component(symbol){ 
         // we are inside component
         let (name, dim) = environment.get_component_or_break(symbol, file!(), line!()).clone();
+        if access_information.0 > dim {
+            return Result::Ok(false); // reported as an invalid array access by the caller
+        }
         let current_dim = dim - access_information.0;
         if current_dim != 0{ // only allowed complete accesses to component
             return add_report_and_end(ReportCode::InvalidPartialArray, meta, reports);
-- 
2.43.0


From 3bc2c0f9d3da9a076fb70a1515c246c010396738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 27/55] fix: buses with fields of size zero do not crash the
 code generation

---
 compiler/src/circuit_design/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 528da20..f8719c6 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -609,7 +609,7 @@ fn get_info_buses(buses: &Vec<BusInstance>)->(usize, FieldMap){
             for len in &field_info.dimensions{
                 total_array_size *= len;
             }
-            let individual_size = field_info.size / total_array_size;
+            let individual_size = if total_array_size == 0 { 0 } else { field_info.size / total_array_size };
             let data = FieldData{
                 offset: field_info.offset,
                 size: individual_size,
-- 
2.43.0


From be03060dbe99ec947dda84ec79ae681e1a25663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 28/55] fix: a bus that contains itself is rejected instead of
 overflowing the stack

---
 .../buses_free_of_invalid_statements.rs       | 27 +++++++++++++++++++
 type_analysis/src/analyzers/mod.rs            |  2 +-
 type_analysis/src/check_types.rs              |  3 +++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/type_analysis/src/analyzers/buses_free_of_invalid_statements.rs b/type_analysis/src/analyzers/buses_free_of_invalid_statements.rs
index b5a71dd..adb9322 100644
--- a/type_analysis/src/analyzers/buses_free_of_invalid_statements.rs
+++ b/type_analysis/src/analyzers/buses_free_of_invalid_statements.rs
@@ -1,5 +1,7 @@
 use program_structure::ast::*;
+use program_structure::program_archive::ProgramArchive;
 use program_structure::program_library::bus_data::BusData;
+use program_structure::wire_data::WireType;
 use program_structure::error_code::ReportCode;
 use program_structure::error_definition::{Report, ReportCollection};
 use program_structure::file_definition;
@@ -19,6 +21,31 @@ pub fn free_of_invalid_statements(
     }
 }
 
+// A bus that contains itself, directly or inside of other buses, would have infinitely many signals
+pub fn free_of_recursion(bus_data: &BusData, program_archive: &ProgramArchive) -> Result<(), Report> {
+    let mut reached = HashSet::new();
+    let mut pending = vec![bus_data];
+    while let Option::Some(bus) = pending.pop() {
+        for (_, info) in bus.get_fields() {
+            if let WireType::Bus(field_bus) = info.get_type() {
+                if field_bus == bus_data.get_name() {
+                    let mut report = Report::error("Recursive bus".to_string(), ReportCode::UndefinedBus);
+                    report.add_primary(
+                        bus_data.get_param_location(),
+                        bus_data.get_file_id(),
+                        format!("The bus {} contains itself", bus_data.get_name()),
+                    );
+                    return Result::Err(report);
+                }
+                if program_archive.contains_bus(&field_bus) && reached.insert(field_bus.clone()) {
+                    pending.push(program_archive.get_bus_data(&field_bus));
+                }
+            }
+        }
+    }
+    Result::Ok(())
+}
+
 fn analyse_statement(
     stmt: &Statement,
     function_names: &HashSet<String>,
diff --git a/type_analysis/src/analyzers/mod.rs b/type_analysis/src/analyzers/mod.rs
index ea4dc9f..8f663d2 100644
--- a/type_analysis/src/analyzers/mod.rs
+++ b/type_analysis/src/analyzers/mod.rs
@@ -1,4 +1,4 @@
-pub use buses_free_of_invalid_statements::free_of_invalid_statements;
+pub use buses_free_of_invalid_statements::{free_of_invalid_statements, free_of_recursion};
 pub use custom_gate_analysis::custom_gate_analysis;
 pub use functions_all_paths_with_return_statement::all_paths_with_return_check;
 pub use functions_free_of_template_elements::free_of_template_elements;
diff --git a/type_analysis/src/check_types.rs b/type_analysis/src/check_types.rs
index 35a9e7d..0f9396f 100644
--- a/type_analysis/src/check_types.rs
+++ b/type_analysis/src/check_types.rs
@@ -162,6 +162,9 @@ fn bus_level_analyses(program_archive: &ProgramArchive, reports: &mut ReportColl
         if let Result::Err(mut free_of_invalid_statements_reports) = free_of_invalid_statements_result {
             reports.append(&mut free_of_invalid_statements_reports);
         }
+        if let Result::Err(recursive_bus_report) = free_of_recursion(bus_data, program_archive) {
+            reports.push(recursive_bus_report);
+        }
     }
 }
 
-- 
2.43.0


From d69f2a59e18db5c521c33c07d2edcf5b777ab880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 29/55] fix: an error in an argument of main is reported
 instead of crashing the compiler

---
 constraint_generation/src/execute.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index a7b8589..23763ad 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -178,9 +178,10 @@ pub fn constraint_execution(
         if let Call { id, args, .. } = &program_archive.get_main_expression() {
             let mut arg_values = Vec::new();
             for arg_expression in args.iter() {
-                let f_arg = execute_expression(arg_expression, program_archive, &mut runtime_information, flags);
-                arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg.unwrap(), line!()));
-                // improve
+                match execute_expression(arg_expression, program_archive, &mut runtime_information, flags) {
+                    Result::Ok(f_arg) => arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg, line!())),
+                    Result::Err(_) => return Result::Err(runtime_information.runtime_errors),
+                }
             }
             execute_template_call_complete(
                 id,
-- 
2.43.0


From 3b6a34eeafc7f6227ef38c3025b239dd14e3c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 30/55] fix: deep recursion of functions and templates does not
 overflow the stack of the compiler

---
 circom/src/main.rs                   |  7 ++++++-
 constraint_generation/src/execute.rs | 30 +++++++++++++++++++++++++++-
 constraint_generation/src/lib.rs     |  3 +++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/circom/src/main.rs b/circom/src/main.rs
index 9bc5b65..bee2145 100644
--- a/circom/src/main.rs
+++ b/circom/src/main.rs
@@ -10,7 +10,12 @@ const VERSION: &'static str = env!("CARGO_PKG_VERSION");
 use ansi_term::Colour;
 use input_user::Input;
 fn main() {
-    let result = start();
+    // The compilation of recursive programs needs a large stack
+    let compilation = std::thread::Builder::new().stack_size(constraint_generation::STACK_SIZE).spawn(start);
+    let result = match compilation.expect("the compilation thread cannot be created").join() {
+        Ok(result) => result,
+        Err(_) => std::process::exit(101), // it panicked
+    };
     if result.is_err() {
         eprintln!("{}", Colour::Red.paint("previous errors were found"));
         std::process::exit(1);
diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 23763ad..185d9e3 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -55,6 +55,7 @@ struct RuntimeInformation {
     pub environment: ExecutionEnvironment,
     pub exec_program: ExecutedProgram,
     pub anonymous_components: AnonymousComponentsInfo,
+    stack_base: usize, // address in the stack at the start of the execution
 }
 impl RuntimeInformation {
     pub fn new(current_file: FileID, id_max: usize, prime: &String) -> RuntimeInformation {
@@ -71,8 +72,21 @@ impl RuntimeInformation {
             anonymous_components: AnonymousComponentsInfo::new(),
             conditions_state: Vec::new(),
             unknown_counter: 0,
+            stack_base: stack_position(),
         }
     }
+
+    // true if the calls in course are using too much of the stack (see STACK_SIZE)
+    pub fn is_recursion_too_deep(&self) -> bool {
+        let used = self.stack_base.abs_diff(stack_position());
+        used > crate::STACK_SIZE / 4 * 3
+    }
+}
+
+#[inline(never)]
+fn stack_position() -> usize {
+    let local: u8 = 0;
+    std::hint::black_box(&local) as *const u8 as usize
 }
 
 
@@ -153,7 +167,8 @@ enum ExecutionError {
     NonValidTagAssignment,
     FalseAssert,
     ArraySizeTooBig,
-    SymbolDeclaredTwice
+    SymbolDeclaredTwice,
+    RecursionTooDeep
 }
 
 enum ExecutionWarning {
@@ -243,6 +258,15 @@ fn execute_statement(
     let id = stmt.get_meta().elem_id;
     Analysis::reached(&mut runtime.analysis, id);
     let mut can_be_simplified = true;
+    if runtime.is_recursion_too_deep() {
+        let last_calls = runtime.call_trace.len().saturating_sub(10);
+        treat_result_with_execution_error(
+            Result::Err(ExecutionError::RecursionTooDeep),
+            stmt.get_meta(),
+            &mut runtime.runtime_errors,
+            &runtime.call_trace[last_calls..],
+        )?
+    }
     let res = match stmt {
         MultSubstitution { .. } => unreachable!(),
         InitializationBlock { initializations, .. } => {
@@ -4312,6 +4336,10 @@ fn treat_result_with_execution_error<C>(
                     "Symbol declared twice: signals, buses and components have global scope in their template".to_string(),
                     ReportCode::SameSymbolDeclaredTwice,
                 ),
+                RecursionTooDeep => Report::error(
+                    "The recursion is too deep: too many nested calls to functions or templates".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 ArraySizeTooBig => Report::error(
                     "The size of the array is expected to be a usize".to_string(),
                     ReportCode::RuntimeError,
diff --git a/constraint_generation/src/lib.rs b/constraint_generation/src/lib.rs
index 90eb2f5..1439a01 100644
--- a/constraint_generation/src/lib.rs
+++ b/constraint_generation/src/lib.rs
@@ -22,6 +22,9 @@ use program_structure::file_definition::FileID;
 use program_structure::program_archive::ProgramArchive;
 use std::rc::Rc;
 
+// Size of the stack needed to execute the programs: build_circuit has to be called in a thread with (at least) this stack
+pub const STACK_SIZE: usize = 1 << 29;
+
 pub struct BuildConfig {
     pub no_rounds: usize,
     pub flag_json_sub: bool,
-- 
2.43.0


From 5fbe16a9a042771adf24a7c394b2556d9377fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:19 +0000
Subject: [PATCH 31/55] fix: signals of components that are declared but never
 created and misused parallel do not crash the type analysis

---
 type_analysis/src/analyzers/type_check.rs      | 6 ++++++
 type_analysis/src/decorators/type_reduction.rs | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 5114b34..c8ae3d4 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1093,6 +1093,9 @@ fn check_if_it_is_a_tag(
         if access_information.0 > dim {
             return Result::Ok(false); // reported as an invalid array access by the caller
         }
+        if name.is_none() {
+            return Result::Ok(false); // reported as an uninitialized component by the caller
+        }
         let current_dim = dim - access_information.0;
         if current_dim != 0{ // only allowed complete accesses to component
             return add_report_and_end(ReportCode::InvalidPartialArray, meta, reports);
@@ -1122,6 +1125,9 @@ fn check_if_it_is_a_tag(
         let (kind, possible_tags) = if environment.has_variable(symbol) { return Result::Ok(false); }
         else if environment.has_bus(symbol){
             let (current_bus,_,possible_tags) = environment.get_bus_or_break(symbol, file!(), line!()).clone();
+            if current_bus.is_none() {
+                return Result::Ok(false); // reported as an invalid access by the caller
+            }
             let kind = WireType::Bus(current_bus.unwrap());
             (kind, possible_tags)
         } else {
diff --git a/type_analysis/src/decorators/type_reduction.rs b/type_analysis/src/decorators/type_reduction.rs
index b14f4ce..2b4b120 100644
--- a/type_analysis/src/decorators/type_reduction.rs
+++ b/type_analysis/src/decorators/type_reduction.rs
@@ -91,7 +91,9 @@ fn reduce_types_in_expression(expression: &mut Expression, environment: &Environ
         PrefixOp { rhe, .. } => reduce_types_in_expression(rhe, environment,program_archive),
         ParallelOp { meta, rhe, .. } => {
             let report = reduce_types_in_expression(rhe, environment,program_archive);
-            meta.get_mut_type_knowledge().set_reduces_to(rhe.get_meta().get_type_knowledge().get_reduces_to());
+            if rhe.get_meta().get_type_knowledge().is_initialized() {
+                meta.get_mut_type_knowledge().set_reduces_to(rhe.get_meta().get_type_knowledge().get_reduces_to());
+            }
             report
         }
         InlineSwitchOp { cond, if_true, if_false, .. } => {
-- 
2.43.0


From d10c9bc0c3ca5a31ce29bb25ed4fbecceade013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 32/55] fix: tuples and anonymous components in buses and in
 the main expression are reported instead of crashing

---
 parser/src/syntax_sugar_remover.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index a2ed76b..e70d2e3 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -12,10 +12,13 @@ use num_bigint::BigInt;
 
 
 pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(), Report> {
-    if program_archive.get_main_expression().is_anonymous_comp() {
+    if program_archive.get_main_expression().contains_anonymous_comp() {
         return Result::Err(anonymous_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain an anonymous call  ".to_string()));
      
     }
+    if program_archive.get_main_expression().contains_tuple() {
+        return Result::Err(tuple_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain a tuple".to_string()));
+    }
     let old_templates = program_archive.templates.clone();
 
     for (_name, t) in &mut program_archive.templates {
@@ -48,6 +51,17 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
             t.set_body(new_body);
         }            
     }
+
+    for (_, b) in &mut program_archive.buses {
+        let old_body = b.get_body().clone();
+        if old_body.contains_anonymous_comp(){
+            return Result::Err(anonymous_general_error(old_body.get_meta().clone(),"Buses cannot contain calls to anonymous templates".to_string()));
+        } else{
+            check_tuples_statement(&old_body)?;
+            let new_body = remove_tuples_from_statement(old_body)?;
+            b.set_body(new_body);
+        }
+    }
     Result::Ok(())
 }
 
-- 
2.43.0


From 2cf4ecb5b707104e4549933a8a444bb915bed3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 33/55] fix: a component initialised with a function call does
 not crash the type reduction

---
 type_analysis/src/decorators/type_reduction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/type_analysis/src/decorators/type_reduction.rs b/type_analysis/src/decorators/type_reduction.rs
index 2b4b120..520890e 100644
--- a/type_analysis/src/decorators/type_reduction.rs
+++ b/type_analysis/src/decorators/type_reduction.rs
@@ -244,6 +244,7 @@ fn reduce_types_in_variable(
             ComponentAccess(name) => {
                 match reduction{
                     Variable => {}, //Check type will return the corresponding error. 
+                    Component(Some(ref comp)) if !program_archive.contains_template(comp) => {}, //Check type will return the corresponding error.
                     Component(ref comp) => {
                         if let Some(comp) = comp {
                             let template = program_archive.get_template_data(comp.as_str());
-- 
2.43.0


From d6404c13412892c79715c3aa9ec6a3e6300fff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 34/55] fix: inspection accepts <-- assignments to bus fields
 at unknown positions

---
 constraint_generation/src/execute.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 185d9e3..4ef2063 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -452,7 +452,8 @@ fn execute_statement(
 
 
             if let Option::Some(node) = actual_node {
-                if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && flags.inspect){
+                if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && flags.inspect && possible_constraint.is_some()){
+                    // (the position assigned by <-- may be unknown, then there is nothing to inspect)
                     debug_assert!(possible_constraint.is_some());
                     
                     if *op == AssignOp::AssignConstraintSignal && runtime.block_type == BlockType::Unknown{
-- 
2.43.0


From a1efa81da7fc3175bedadefa99d6659bade9a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:59 +0000
Subject: [PATCH 35/55] fix: a failure to write the substitutions is reported
 instead of crashing or being ignored

---
 constraint_generation/src/lib.rs                | 17 +++++++++++------
 .../src/constraint_simplification.rs            | 15 ++++++++-------
 constraint_list/src/lib.rs                      |  9 +++++----
 dag/src/lib.rs                                  |  2 +-
 dag/src/map_to_constraint_list.rs               |  2 +-
 5 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/constraint_generation/src/lib.rs b/constraint_generation/src/lib.rs
index 1439a01..bc0f67d 100644
--- a/constraint_generation/src/lib.rs
+++ b/constraint_generation/src/lib.rs
@@ -66,14 +66,15 @@ pub fn build_circuit(program: ProgramArchive, config: BuildConfig) -> BuildRespo
         sync_dag_and_vcp(&mut vcp, &mut dag);
         if config.flag_json_sub { 
             use constraint_writers::json_writer::SubstitutionJSON;
-            let substitution_log = SubstitutionJSON::new(&config.json_substitutions).unwrap();
-            let _ = substitution_log.end();
+            SubstitutionJSON::new(&config.json_substitutions)
+                .and_then(|substitution_log| substitution_log.end())
+                .map_err(|()| report_unwritten_substitutions())?;
             println!("{} {}", Colour::Green.paint("Written successfully:"), config.json_substitutions);
         };
 
         Result::Ok((Box::new(dag), vcp))
     } else {
-        let list = simplification_process(&mut vcp, dag, &config);
+        let list = simplification_process(&mut vcp, dag, &config).map_err(|()| report_unwritten_substitutions())?;
         if config.flag_json_sub { 
             println!("{} {}", Colour::Green.paint("Written successfully:"), config.json_substitutions);
         };
@@ -81,6 +82,10 @@ pub fn build_circuit(program: ProgramArchive, config: BuildConfig) -> BuildRespo
     }
 }
 
+fn report_unwritten_substitutions() {
+    eprintln!("{}", Colour::Red.paint("Could not write the output in the given path"));
+}
+
 type InstantiationResponse = Result<(ExecutedProgram, ReportCollection), ReportCollection>;
 fn instantiation(program: &ProgramArchive, flags: FlagsExecution, prime: &String) -> InstantiationResponse {
     let execution_result = execute::constraint_execution(&program, flags, prime);
@@ -106,7 +111,7 @@ fn sync_dag_and_vcp(vcp: &mut VCP, dag: &mut DAG) {
     VCP::add_witness_list(vcp, Rc::clone(&witness));
 }
 
-fn simplification_process(vcp: &mut VCP, dag: DAG, config: &BuildConfig) -> ConstraintList {
+fn simplification_process(vcp: &mut VCP, dag: DAG, config: &BuildConfig) -> Result<ConstraintList, ()> {
     use dag::SimplificationFlags;
     let flags = SimplificationFlags {
         flag_s: config.flag_s,
@@ -117,7 +122,7 @@ fn simplification_process(vcp: &mut VCP, dag: DAG, config: &BuildConfig) -> Cons
         flag_old_heuristics: config.flag_old_heuristics,
         prime : config.prime.clone(),
     };
-    let list = DAG::map_to_list(dag, flags);
+    let list = DAG::map_to_list(dag, flags)?;
     VCP::add_witness_list(vcp, Rc::new(list.get_witness_as_vec()));
-    list
+    Result::Ok(list)
 }
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 030271f..9b922ab 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -16,7 +16,7 @@ fn log_substitutions(substitutions: &LinkedList<S>, log: &mut Option<Substitutio
 
 // signals eliminated by a later substitution are replaced in the earlier ones, so that
 // no substitution mentions an eliminated signal
-fn write_substitutions(log: SubstitutionLog, writer: &mut SubstitutionJSON, field: &BigInt) {
+fn write_substitutions(log: SubstitutionLog, writer: &mut SubstitutionJSON, field: &BigInt) -> Result<(), ()> {
     use super::json_porting::port_substitution;
     use circom_algebra::simplification_utils::fast_encoded_substitution_substitution;
     let mut later = SEncoded::new();
@@ -29,8 +29,9 @@ fn write_substitutions(log: SubstitutionLog, writer: &mut SubstitutionJSON, fiel
     }
     for substitution in &resolved {
         let (from, to) = port_substitution(substitution);
-        writer.write_substitution(&from, &to).unwrap();
+        writer.write_substitution(&from, &to)?;
     }
+    Result::Ok(())
 }
 
 #[derive(Default, Clone)]
@@ -470,7 +471,7 @@ fn remove_not_relevant(substitutions: &mut SEncoded, relevant: &HashSet<usize>)
 
 
 // returns the constraints, the assignment of the witness and the number of inputs in the witness
-pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, usize) {
+pub fn simplification(smp: &mut Simplifier) -> Result<(ConstraintStorage, SignalMap, usize), ()> {
     use super::non_linear_utils::obtain_and_simplify_non_linear;
     use circom_algebra::simplification_utils::build_encoded_fast_substitutions;
     use circom_algebra::simplification_utils::fast_encoded_constraint_substitution;
@@ -753,12 +754,12 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
 
 
     if let Some(log) = substitution_log {
-        let mut writer = SubstitutionJSON::new(&smp.json_substitutions).unwrap();
-        write_substitutions(log, &mut writer, &field);
-        writer.end().unwrap();
+        let mut writer = SubstitutionJSON::new(&smp.json_substitutions)?;
+        write_substitutions(log, &mut writer, &field)?;
+        writer.end()?;
     }
     // println!("NO CONSTANTS: {}", constraint_storage.no_constants());
-    (constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs)
+    Result::Ok((constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs))
 }
 
 
diff --git a/constraint_list/src/lib.rs b/constraint_list/src/lib.rs
index 969400b..2bee5dd 100644
--- a/constraint_list/src/lib.rs
+++ b/constraint_list/src/lib.rs
@@ -128,9 +128,10 @@ pub struct Simplifier {
     pub json_substitutions: String,
 }
 impl Simplifier {
-    pub fn simplify_constraints(mut self) -> ConstraintList {
-        let (portable, map, private_inputs_witness) = constraint_simplification::simplification(&mut self);
-        ConstraintList {
+    // It fails when the substitutions cannot be written
+    pub fn simplify_constraints(mut self) -> Result<ConstraintList, ()> {
+        let (portable, map, private_inputs_witness) = constraint_simplification::simplification(&mut self)?;
+        Result::Ok(ConstraintList {
             field: self.field,
             dag_encoding: self.dag_encoding,
             no_public_outputs: self.no_public_outputs,
@@ -140,7 +141,7 @@ impl Simplifier {
             no_labels: self.max_signal,
             constraints: portable,
             signal_map: map,
-        }
+        })
     }
 
     pub fn no_labels(&self) -> usize {
diff --git a/dag/src/lib.rs b/dag/src/lib.rs
index 19d325d..6afe655 100644
--- a/dag/src/lib.rs
+++ b/dag/src/lib.rs
@@ -538,7 +538,7 @@ impl DAG {
         }
     }
 
-    pub fn map_to_list(self, flags: SimplificationFlags) -> ConstraintList {
+    pub fn map_to_list(self, flags: SimplificationFlags) -> Result<ConstraintList, ()> {
         map_to_constraint_list::map(self, flags)
     }
 }
diff --git a/dag/src/map_to_constraint_list.rs b/dag/src/map_to_constraint_list.rs
index bccec4c..0e30b79 100644
--- a/dag/src/map_to_constraint_list.rs
+++ b/dag/src/map_to_constraint_list.rs
@@ -107,7 +107,7 @@ fn map_edge_to_encoding(edge: Edge) -> EncodingEdge {
     EncodingEdge { goes_to: edge.goes_to, path: edge.label, offset: edge.in_number }
 }
 
-pub fn map(dag: DAG, flags: SimplificationFlags) -> ConstraintList {
+pub fn map(dag: DAG, flags: SimplificationFlags) -> Result<ConstraintList, ()> {
     use std::time::SystemTime;
     // println!("Start of dag to list mapping");
     let now = SystemTime::now();
-- 
2.43.0


From cd550372abe9b415c6971ecdb0d67fb27bbcfc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 36/55] fix: the C++ witness program reports a witness file it
 cannot open or write completely

---
 code_producers/src/c_elements/common/main.cpp   | 8 +++++++-
 code_producers/src/c_elements/common64/main.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index e9b1cb7..c1a3b31 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -289,6 +289,9 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     FILE *write_ptr;
 
     write_ptr = fopen(wtnsFileName.c_str(),"wb");
+    if (write_ptr == NULL) {
+        handle_error("Could not open the witness file");
+    }
 
     fwrite("wtns", 4, 1, write_ptr);
 
@@ -330,7 +333,10 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
         Fr_toLongNormal(&v, &v);
         fwrite(v.longVal, Fr_N64*8, 1, write_ptr);
     }
-    fclose(write_ptr);
+    bool failed = ferror(write_ptr) != 0;
+    if (fclose(write_ptr) != 0 || failed) {
+        handle_error("Could not write the witness file");
+    }
 }
 
 int main (int argc, char *argv[]) {
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 5588bb7..7f0126f 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -313,6 +313,9 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     FILE *write_ptr;
 
     write_ptr = fopen(wtnsFileName.c_str(),"wb");
+    if (write_ptr == NULL) {
+        handle_error("Could not open the witness file");
+    }
 
     fwrite("wtns", 4, 1, write_ptr);
 
@@ -355,7 +358,10 @@ void writeBinWitness(Circom_CalcWit *ctx, std::string wtnsFileName) {
     }
     fwrite(v, 8, Nwtns, write_ptr);
 
-    fclose(write_ptr);
+    bool failed = ferror(write_ptr) != 0;
+    if (fclose(write_ptr) != 0 || failed) {
+        handle_error("Could not write the witness file");
+    }
 }
 
 int main (int argc, char *argv[]) {
-- 
2.43.0


From d1cdaa849a45598b71fbee26b7179de089663b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 37/55] fix: arrays with more elements than fit in 32 bits are
 reported instead of overflowing

---
 constraint_generation/src/execute.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 4ef2063..4d1c748 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -331,7 +331,7 @@ fn execute_statement(
                         &runtime.call_trace,
                     )?;
                     let usable_dimensions =
-                        if let Option::Some(dimensions) = cast_indexing(&arithmetic_values) {
+                        if let Option::Some(dimensions) = cast_dimensions(&arithmetic_values) {
                             dimensions
                         } else {
                             let err = Result::Err(ExecutionError::ArraySizeTooBig);
@@ -935,7 +935,7 @@ fn execute_bus_statement(
                 &runtime.call_trace,
             )?;
             let usable_dimensions =
-            if let Option::Some(dimensions) = cast_indexing(&arithmetic_values) {
+            if let Option::Some(dimensions) = cast_dimensions(&arithmetic_values) {
                 dimensions
             } else {
                 let err = Result::Err(ExecutionError::ArraySizeTooBig);
@@ -2803,7 +2803,7 @@ fn execute_delayed_declarations(
             &runtime.call_trace,
         )?;
         let usable_dimensions =
-            if let Option::Some(dimensions) = cast_indexing(&arithmetic_values) {
+            if let Option::Some(dimensions) = cast_dimensions(&arithmetic_values) {
                 dimensions
             } else {
                 let err = Result::Err(ExecutionError::ArraySizeTooBig);
@@ -3814,6 +3814,18 @@ fn cast_indexing(ae_indexes: &[AExpr]) -> Option<Vec<SliceCapacity>> {
     Option::Some(sc_indexes)
 }
 
+// None when the dimensions are not numbers or the array would have more elements than a u32 can count
+fn cast_dimensions(ae_dimensions: &[AExpr]) -> Option<Vec<SliceCapacity>> {
+    let dimensions = cast_indexing(ae_dimensions)?;
+    let mut size: u128 = 1;
+    for dimension in dimensions.iter().filter(|d| **d != 0) {
+        size *= *dimension as u128;
+        if size > u32::MAX as u128 {
+            return Option::None;
+        }
+    }
+    Option::Some(dimensions)
+}
 fn cast_index(ae_index: &AExpr) -> Option<SliceCapacity> {
     if !ae_index.is_number() {
         return Option::None;
@@ -4342,7 +4354,7 @@ fn treat_result_with_execution_error<C>(
                     ReportCode::RuntimeError,
                 ),
                 ArraySizeTooBig => Report::error(
-                    "The size of the array is expected to be a usize".to_string(),
+                    "The size of the array is expected to be a number of 32 bits".to_string(),
                     ReportCode::RuntimeError,
                 ),
                 ConstraintInUnknown => Report::error(
-- 
2.43.0


From 2f1d1b3722b7a8a339e13493c20c31be5a5315bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:19 +0000
Subject: [PATCH 38/55] fix: a bus assigned twice is reported instead of
 underflowing

---
 constraint_generation/src/assignment_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/assignment_utils.rs b/constraint_generation/src/assignment_utils.rs
index b090e9b..d82c749 100644
--- a/constraint_generation/src/assignment_utils.rs
+++ b/constraint_generation/src/assignment_utils.rs
@@ -129,7 +129,8 @@ pub fn perform_tag_propagation(tags_values: &mut TagInfo, tags_definitions: &mut
 
 pub fn perform_tag_propagation_bus(tag_data: &mut BusTagInfo, assigned_tags: &TagWire, n_inserts: usize){
     perform_tag_propagation(&mut tag_data.tags, &mut tag_data.definitions, &assigned_tags.tags, tag_data.is_init);
-    tag_data.remaining_inserts -= n_inserts; 
+    // an assignment that exceeds the pending ones is a double assignment, reported by the memory
+    tag_data.remaining_inserts = tag_data.remaining_inserts.saturating_sub(n_inserts);
     tag_data.is_init = true;
 
     for (field_name, field_data) in &mut tag_data.fields{
-- 
2.43.0


From a120b19a495dd298d116f48c3511c958ae0327df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:19 +0000
Subject: [PATCH 39/55] fix: components created under conditions that are
 unknown for lack of initialization are reported

---
 constraint_generation/src/execute.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 4d1c748..216b2db 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1361,6 +1361,15 @@ fn execute_call(
         runtime.call_trace.pop();
         Ok(folded_result)
     } else { // in this case we preexecute and check if it needs tags
+        if runtime.block_type == BlockType::Unknown{
+            // without initialization of the variables the type analysis cannot detect every unknown condition
+            treat_result_with_execution_error(
+                Result::Err(ExecutionError::UnknownTemplate),
+                meta,
+                &mut runtime.runtime_errors,
+                &runtime.call_trace,
+            )?;
+        }
         let folded_result = preexecute_template_call(id, &arg_values, program_archive, runtime)?;
         Ok((folded_result, true))
     }
-- 
2.43.0


From 0a64c3a18f8ae3c0ac8668bd7dddb6704195bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 40/55] fix: assignments at unknown positions that only the
 execution detects are reported instead of crashing or being ignored

---
 constraint_generation/src/execute.rs | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 216b2db..6b6ffae 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -164,6 +164,7 @@ enum ExecutionError {
     DeclarationInUnknown,
     TagAssignmentInUnknown,
     UnknownTemplate,
+    UnknownComponentAssignment,
     NonValidTagAssignment,
     FalseAssert,
     ArraySizeTooBig,
@@ -425,8 +426,28 @@ fn execute_statement(
                     let access_other = treat_accessing(meta, access, program_archive, runtime, flags)?;
                     TypesAccess{bus_access: None, other_access: Some(access_other)}
                 };
-            
-            
+
+            // positions that are unknown because they depend on the content of an array are only detected here
+            let undefined_position = access_information.bus_access.as_ref().map_or(false, |access| access.undefined)
+                || access_information.other_access.as_ref().map_or(false, |access| access.undefined);
+            if undefined_position && *op == AssignOp::AssignConstraintSignal {
+                treat_result_with_execution_error(
+                    Result::Err(ExecutionError::NonQuadraticConstraint),
+                    meta,
+                    &mut runtime.runtime_errors,
+                    &runtime.call_trace,
+                )?;
+            }
+            if undefined_position 
+                && ExecutionEnvironment::has_component(&runtime.environment, var)
+                && !runtime.anonymous_components.contains_key(var) {
+                treat_result_with_execution_error(
+                    Result::Err(ExecutionError::UnknownComponentAssignment),
+                    meta,
+                    &mut runtime.runtime_errors,
+                    &runtime.call_trace,
+                )?;
+            }
             
             let r_folded = execute_expression(rhe, program_archive, runtime, flags)?;
             
@@ -4347,6 +4368,10 @@ fn treat_result_with_execution_error<C>(
                     "Every component instantiation must be resolved during the constraint generation phase. This component declaration uses a value that can be unknown during the constraint generation phase.".to_string(),
                     ReportCode::RuntimeError,
                 ),
+                UnknownComponentAssignment => Report::error(
+                    "Assignments to components or their signals within an unknown access to an array of components are not allowed".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 NonValidTagAssignment => Report::error(
                     "Tags cannot be assigned to values that can be unknown during the constraint generation phase".to_string(),
                     ReportCode::RuntimeError,
-- 
2.43.0


From 9498f7617b62ac5a50fea72fca67f3dd357cc19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 41/55] fix: the initial file is taken once when other files
 include it

---
 parser/src/include_logic.rs | 5 +++++
 parser/src/lib.rs           | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..c2cc0f4 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -45,6 +45,11 @@ impl FileStack {
         Result::Err(produce_report_with_message(ReportCode::IncludeNotFound, name))
     }
 
+    // a file is taken once, whichever path leads to it
+    pub fn mark_as_taken(f_stack: &mut FileStack, file: PathBuf) {
+        f_stack.black_paths.insert(file);
+    }
+
     pub fn take_next(f_stack: &mut FileStack) -> Option<PathBuf> {
         loop {
             match f_stack.stack.pop() {
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 2bd500a..7733064 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -79,6 +79,9 @@ pub fn run_parser(
         if !found {
             return Result::Err((file_library.clone(), reports));
         }
+        // the initial file is not given by its canonical path, as the included ones are
+        let crr_str_file = std::fs::canonicalize(&crr_str_file).unwrap_or(crr_str_file);
+        FileStack::mark_as_taken(&mut file_stack, crr_str_file.clone());
         let file_id = file_library.add_file(path.clone(), src.clone());
         let program =
             parser_logic::parse_file(&src, file_id, field, flag_no_init).map_err(|e| (file_library.clone(), e))?;
-- 
2.43.0


From e4b9e7048844080f01e0fbc448fe0f8dd16ceef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 42/55] fix: checking the custom templates pragma visits each
 file once

---
 parser/src/include_logic.rs | 45 +++++++++++++------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index c2cc0f4..a8e91c9 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -102,10 +102,12 @@ impl IncludesGraph {
         Ok(())
     }
 
+    // for each file that uses custom templates, one chain of includes to each file that reaches it without the pragma
     pub fn get_problematic_paths(&self) -> Vec<Vec<PathBuf>> {
         let mut problematic_paths = Vec::new();
         for from in &self.custom_gates_nodes {
-            problematic_paths.append(&mut self.traverse(*from, Vec::new(), HashSet::new()));
+            let mut visited = HashSet::from([*from]);
+            self.traverse(*from, &mut Vec::new(), &mut visited, &mut problematic_paths);
         }
         problematic_paths
     }
@@ -113,40 +115,23 @@ impl IncludesGraph {
     fn traverse(
         &self,
         from: usize,
-        path: Vec<PathBuf>,
-        traversed_edges: HashSet<(usize, usize)>,
-    ) -> Vec<Vec<PathBuf>> {
-        let mut problematic_paths = Vec::new();
-        let (from_path, using_pragma) = {
-            let node = &self.nodes[from];
-            (&node.path, node.custom_gates_pragma)
-        };
-        let new_path = {
-            let mut new_path = path.clone();
-            new_path.push(from_path.clone());
-            new_path
-        };
-        if !using_pragma {
-            problematic_paths.push(new_path.clone());
+        path: &mut Vec<PathBuf>,
+        visited: &mut HashSet<usize>,
+        problematic_paths: &mut Vec<Vec<PathBuf>>,
+    ) {
+        let node = &self.nodes[from];
+        path.push(node.path.clone());
+        if !node.custom_gates_pragma {
+            problematic_paths.push(path.clone());
         }
-        if let Some(edges) = self.adjacency.get(from_path) {
+        if let Some(edges) = self.adjacency.get(&node.path) {
             for to in edges {
-                let edge = (from, *to);
-                if !traversed_edges.contains(&edge) {
-                    let new_traversed_edges = {
-                        let mut new_traversed_edges = traversed_edges.clone();
-                        new_traversed_edges.insert(edge);
-                        new_traversed_edges
-                    };
-                    problematic_paths.append(&mut self.traverse(
-                        *to,
-                        new_path.clone(),
-                        new_traversed_edges,
-                    ));
+                if visited.insert(*to) {
+                    self.traverse(*to, path, visited, problematic_paths);
                 }
             }
         }
-        problematic_paths
+        path.pop();
     }
 
     pub fn display_path(path: &Vec<PathBuf>) -> String {
-- 
2.43.0


From 4fb45268d613035e14b598044199cdc50611f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 43/55] fix: a false assert under unknown conditions is left to
 the witness generation

---
 constraint_generation/src/execute.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 6b6ffae..839a7ad 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -46,6 +46,7 @@ struct RuntimeInformation {
     pub block_type: BlockType,
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
+    pub unknown_depth: usize, // conditions in course, also those of the callers, that are unknown
     pub analysis: Analysis,
     pub public_inputs: Vec<String>,
     pub constants: UsefulConstants,
@@ -72,6 +73,7 @@ impl RuntimeInformation {
             anonymous_components: AnonymousComponentsInfo::new(),
             conditions_state: Vec::new(),
             unknown_counter: 0,
+            unknown_depth: 0,
             stack_base: stack_position(),
         }
     }
@@ -828,7 +830,8 @@ fn execute_statement(
             let arith = safe_unwrap_to_single_arithmetic_expression(f_result, line!());
             let possible_bool = AExpr::get_boolean_equivalence(&arith, runtime.constants.get_p());
             let result = match possible_bool {
-                Some(b) if !b => Err(ExecutionError::FalseAssert),
+                // under unknown conditions the assert might not be reached: it is left to the witness generation
+                Some(b) if !b && runtime.unknown_depth == 0 => Err(ExecutionError::FalseAssert),
                 Some(b) if b => Ok(None),
                 _ => {
                     can_be_simplified = false;
@@ -2728,6 +2731,7 @@ fn execute_conditional_statement(
     } else {
         let previous_block_type = runtime.block_type;
         runtime.block_type = BlockType::Unknown;
+        runtime.unknown_depth += 1;
         // TODO: here instead of executing both branches what we do is to store the values
         // that we assign in each one of the branches and assign later: if we assign in both 
         // of them a signal we return an error. If we assign in just one then we dont return error
@@ -2773,6 +2777,7 @@ fn execute_conditional_statement(
         }
         // remove the last condition added
         runtime.conditions_state.pop();
+        runtime.unknown_depth -= 1;
         runtime.block_type = previous_block_type;
         return Result::Ok((ret_value, can_simplify, Option::None));
     }
-- 
2.43.0


From 23166cc71279cc56d2a2cbdf482251feb47f8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:49 +0000
Subject: [PATCH 44/55] fix: a non-quadratic expression constrained to an
 underscore is reported instead of crashing

---
 constraint_generation/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 839a7ad..901a7a2 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -857,6 +857,14 @@ fn execute_statement(
                             &mut runtime.runtime_errors,
                             &runtime.call_trace,
                         )?;
+                        if value_cell.is_nonquadratic() {
+                            treat_result_with_execution_error(
+                                Result::Err(ExecutionError::NonQuadraticConstraint),
+                                meta,
+                                &mut runtime.runtime_errors,
+                                &runtime.call_trace,
+                            )?;
+                        }
                         let constraint_expression = AExpr::transform_expression_to_constraint_form(
                             value_cell,
                             runtime.constants.get_p(),
-- 
2.43.0


From c9a8398ae187221011f63467f7cf1975035ec7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 45/55] fix: instances of a template that differ in tag values
 are all inspected

---
 constraint_generation/src/execute.rs | 32 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 901a7a2..7f69bd9 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -3465,6 +3465,21 @@ fn execute_function_call(
 
 
 
+// the values of the tags of some wires, also inside of buses, in an order that does not
+// change: different instances of a template have different names
+fn add_tag_names(wires: &HashMap<String, TagWire>, names: &mut Vec<String>) {
+    let sorted_wires: BTreeMap<&String, &TagWire> = wires.iter().collect();
+    for wire in sorted_wires.values() {
+        let sorted_tags: BTreeMap<&String, &Option<BigInt>> = wire.tags.iter().collect();
+        for value in sorted_tags.values() {
+            names.push(value.as_ref().map_or("null".to_string(), |v| v.to_string()));
+        }
+        if let Some(fields) = &wire.fields {
+            add_tag_names(fields, names);
+        }
+    }
+}
+
 fn execute_template_call(
     id: &str,
     parameter_values: Vec<AExpressionSlice>,
@@ -3489,18 +3504,11 @@ fn execute_template_call(
         not_empty_name = true;
         args_to_values.insert(name.clone(), value.clone());
     }
-    for (_input, input_tags) in &tag_values{
-        // TODO: does not got inside bus
-        for (_tag, value) in &input_tags.tags {
-            if value.is_none(){
-                instantiation_name.push_str("null,");
-            }
-            else{
-                let value = value.clone().unwrap();
-                instantiation_name.push_str(&format!("{},", value.to_string()));
-            }
-            not_empty_name = true;
-        }
+    let mut tag_names = Vec::new();
+    add_tag_names(&tag_values, &mut tag_names);
+    for name in tag_names {
+        instantiation_name.push_str(&format!("{},", name));
+        not_empty_name = true;
     }
 
     if not_empty_name  {
-- 
2.43.0


From bf8789d7094b7a55b2443083a53b51cfc6704198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:26 +0000
Subject: [PATCH 46/55] fix: sizes of the instances of a component array are
 listed in a fixed order

The generated WASM and C++ code depended on the iteration order of a
hash set and differed between runs on the same sources.
---
 compiler/src/intermediate_representation/translate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 04e13d4..1499a4b 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -7,7 +7,7 @@ use num_bigint_dig::BigInt;
 use program_structure::ast::*;
 use program_structure::file_definition::FileLibrary;
 use program_structure::utils::environment::VarEnvironment;
-use std::collections::{HashMap, BTreeMap, HashSet};
+use std::collections::{HashMap, BTreeMap, HashSet, BTreeSet};
 use std::mem;
 
 type Length = usize;
@@ -131,7 +131,7 @@ struct State {
     field_tracker: FieldTracker,
     environment: E,
     component_to_parallel:  HashMap<String, ParallelClusters>,
-    component_to_instance: HashMap<String, HashSet<usize>>,
+    component_to_instance: HashMap<String, BTreeSet<usize>>,
     signal_to_type: HashMap<String, SignalType>,
     signal_to_tags: HashMap<Vec<String>, BigInt>,
     message_id: usize,
@@ -370,7 +370,7 @@ fn create_components(state: &mut State, triggers: &[Trigger], clusters: Vec<Trig
                 info.insert(trigger.template_id);
             }
             None =>{
-                let mut new_info = HashSet::new();
+                let mut new_info = BTreeSet::new();
                 new_info.insert(trigger.template_id);
                 state.component_to_instance.insert(trigger.component_name.clone(), new_info);
             }
-- 
2.43.0


From a77e10001bcae47c08c54d3a196076a50648920a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:50 +0000
Subject: [PATCH 47/55] fix: clusters of linear constraints are built in a
 fixed order

Constraints that link several clusters merged them in the iteration order
of a hash set, so the order of the emitted constraints differed between runs.
---
 constraint_list/src/constraint_simplification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 9b922ab..7f3f95d 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -92,7 +92,7 @@ fn build_clusters(linear: LinkedList<C>, no_vars: usize) -> Vec<Cluster> {
     let mut signal_to_cluster = vec![no_linear; no_vars];
     for constraint in linear {
         if !constraint.is_empty(){
-            let signals = C::take_cloned_signals(&constraint);
+            let signals = C::take_cloned_signals_ordered(&constraint);
             let dest = ClusterArena::len(&arena);
             ClusterArena::push(&mut arena, Some(Cluster::new(constraint, signals.len())));
             Vec::push(&mut cluster_to_current, dest);
-- 
2.43.0


From 6eaf51b06693c23e62090067371870ed0027c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:12 +0000
Subject: [PATCH 48/55] fix: among several errors of anonymous components and
 tuples the same one is reported every time

---
 parser/src/syntax_sugar_remover.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index e70d2e3..8e8a805 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -21,7 +21,8 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
     }
     let old_templates = program_archive.templates.clone();
 
-    for (_name, t) in &mut program_archive.templates {
+    // only the first error is reported: the definitions are treated in a fixed order
+    for (_name, t) in in_order(&mut program_archive.templates) {
         let old_body = t.get_body().clone();
         check_anonymous_components_statement(&old_body)?;
         let (new_body, component_decs, variable_decs, mut substitutions) = remove_anonymous_from_statement(&old_templates, &program_archive.file_library, old_body, &None)?;
@@ -41,7 +42,7 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
     }
 
 
-    for (_, t) in &mut program_archive.functions {
+    for (_, t) in in_order(&mut program_archive.functions) {
         let old_body = t.get_body().clone();
         if old_body.contains_anonymous_comp(){
             return Result::Err(anonymous_general_error(old_body.get_meta().clone(),"Functions cannot contain calls to anonymous templates".to_string()));
@@ -52,7 +53,7 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
         }            
     }
 
-    for (_, b) in &mut program_archive.buses {
+    for (_, b) in in_order(&mut program_archive.buses) {
         let old_body = b.get_body().clone();
         if old_body.contains_anonymous_comp(){
             return Result::Err(anonymous_general_error(old_body.get_meta().clone(),"Buses cannot contain calls to anonymous templates".to_string()));
@@ -65,6 +66,10 @@ pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(
     Result::Ok(())
 }
 
+fn in_order<T>(definitions: &mut HashMap<String, T>) -> BTreeMap<&String, &mut T> {
+    definitions.iter_mut().collect()
+}
+
 
 fn check_anonymous_components_statement(
     stm : &Statement,
-- 
2.43.0


From 88fc5c429b40beaac189715ce5cd738efec6c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:37 +0000
Subject: [PATCH 49/55] fix: substitutions applied to expressions and
 constraints taken apart keep the constant term's entry

---
 circom_algebra/src/algebra.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/circom_algebra/src/algebra.rs b/circom_algebra/src/algebra.rs
index 235b7e9..0a19835 100644
--- a/circom_algebra/src/algebra.rs
+++ b/circom_algebra/src/algebra.rs
@@ -765,17 +765,23 @@ impl<C: Default + Clone + Display + Hash + Eq> ArithmeticExpression<C> {
             Linear { coefficients } => {
                raw_substitution(coefficients, substitution, field);
                *coefficients = remove_zero_value_coefficients(std::mem::take(coefficients));
+               ArithmeticExpression::initialize_hashmap_for_expression(coefficients);
             }
             Signal { symbol } if *symbol == substitution.from => {
-                *expr = Linear { coefficients: substitution.to.clone() };
+                let mut coefficients = substitution.to.clone();
+                ArithmeticExpression::initialize_hashmap_for_expression(&mut coefficients);
+                *expr = Linear { coefficients };
             }
             Quadratic { a, b, c } => {
                 raw_substitution(a, substitution, field);
                 *a = remove_zero_value_coefficients(std::mem::take(a));
+                ArithmeticExpression::initialize_hashmap_for_expression(a);
                 raw_substitution(b, substitution, field);
                 *b = remove_zero_value_coefficients(std::mem::take(b));
+                ArithmeticExpression::initialize_hashmap_for_expression(b);
                 raw_substitution(c, substitution, field);
                 *c = remove_zero_value_coefficients(std::mem::take(c));
+                ArithmeticExpression::initialize_hashmap_for_expression(c);
             }
             _ => {}
         }
@@ -1185,7 +1191,10 @@ impl<C: Default + Clone + Display + Hash + Eq> Constraint<C> {
         signal_equals_constant(&self.a, &self.b, &self.c)
     }
 
-    pub fn into_arithmetic_expressions(self) -> (ArithmeticExpression<C>, ArithmeticExpression<C>, ArithmeticExpression<C>) {
+    pub fn into_arithmetic_expressions(mut self) -> (ArithmeticExpression<C>, ArithmeticExpression<C>, ArithmeticExpression<C>) {
+        ArithmeticExpression::initialize_hashmap_for_expression(&mut self.a);
+        ArithmeticExpression::initialize_hashmap_for_expression(&mut self.b);
+        ArithmeticExpression::initialize_hashmap_for_expression(&mut self.c);
         (
             ArithmeticExpression::Linear { coefficients: self.a },
             ArithmeticExpression::Linear { coefficients: self.b },
-- 
2.43.0


From 4144971ae6b9ddc25e85e39b940ccdae91c8d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:37 +0000
Subject: [PATCH 50/55] fix: positions computed in arrays of different
 component instances are parenthesised in the C++ program

---
 compiler/src/intermediate_representation/call_bucket.rs  | 4 ++--
 compiler/src/intermediate_representation/load_bucket.rs  | 2 +-
 compiler/src/intermediate_representation/store_bucket.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index c881a8b..af36e66 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -601,12 +601,12 @@ impl WriteC for CallBucket {
 					// must be last access
 					assert!(idxpos+1 == indexes.len());
 					for i in index_list.len()..dim {
-					    map_index = format!("{}*cur_def->lengths[{}]",
+					    map_index = format!("({})*cur_def->lengths[{}]",
 								map_index, (i-1).to_string());
 					} // after this we have multiplied by the remaining dimensions
 				    }
 				    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-				    map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+				    map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 				    map_prologue.push(format!("}}"));
 				} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 				    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index e1c1acc..c796689 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -296,7 +296,7 @@ impl WriteC for LoadBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*{}.lengths[{}]",
+				    map_index = format!("({})*{}.lengths[{}]",
 							map_index, cur_def, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 148d793..9483c25 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -541,12 +541,12 @@ impl WriteC for StoreBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*cur_def->lengths[{}]",
+				    map_index = format!("({})*cur_def->lengths[{}]",
 							map_index, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
 			    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-		            map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+		            map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 			    map_prologue.push(format!("}}"));
 			} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 			    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
-- 
2.43.0


From 38ff9680bc1ce889c3627b00ddb78c6a8d988218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:37 +0000
Subject: [PATCH 51/55] fix: component arrays may mix instances of a template
 that declare different signals

---
 compiler/src/circuit_design/build.rs           | 11 +++++++++--
 .../intermediate_representation/translate.rs   | 18 +++++++++++++-----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index f8719c6..a1bc0f7 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -498,7 +498,7 @@ fn build_io_map(vcp: &VCP, database: &TemplateDB) -> TemplateInstanceIOMap {
 
 fn build_input_output_list(instance: &TemplateInstance, database: &TemplateDB) -> InputOutputList {
     use program_structure::ast::SignalType::*;
-    let mut io_list = vec![];
+    let mut io_list = InputOutputList::new();
     for s in &instance.wires {
         let mut total_array_size = 1;
         for len in s.lengths(){
@@ -513,7 +513,14 @@ fn build_input_output_list(instance: &TemplateInstance, database: &TemplateDB) -
                 size: individual_size,
 		bus_id: s.bus_id()
             };
-            io_list.push(def);
+            // the list is indexed by code: signals of other instances of the
+            // template that this one does not declare leave an unused entry
+            while io_list.len() <= def.code {
+                let code = io_list.len();
+                io_list.push(IODef { code, offset: 0, lengths: vec![], size: 1, bus_id: None });
+            }
+            let code = def.code;
+            io_list[code] = def;
         }
     }
 
diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 1499a4b..42cb1c7 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -78,11 +78,16 @@ impl TemplateDB {
         if !db.indexes.contains_key(&instance.template_name) {
             let index = db.signals_id.len();
             db.indexes.insert(instance.template_name.clone(), index);
-            let mut correspondence = HashMap::new();
-            for (id, signal) in instance.wires.iter().enumerate() {
-                correspondence.insert(signal.name().clone(), id);
+            db.signals_id.push(HashMap::new());
+        }
+        // The instances of a template may declare different signals: a name has
+        // the same id in all of them
+        let correspondence = &mut db.signals_id[db.indexes[&instance.template_name]];
+        for signal in &instance.wires {
+            if signal.xtype() != SignalType::Intermediate {
+                let id = correspondence.len();
+                correspondence.entry(signal.name().clone()).or_insert(id);
             }
-            db.signals_id.push(correspondence);
         }
         let mut state = State::new(
             instance.template_id,
@@ -1168,7 +1173,10 @@ impl ProcessedSymbol {
 
                         for cmp_id in possible_cmp_id{
                             // aux contains the info about the accessed wire
-                            let aux = context.tmp_database.wire_info[cmp_id].get(&name).unwrap();  
+                            // (an instance may not declare it: then it is not accessed in that instance)
+                            let Some(aux) = context.tmp_database.wire_info[cmp_id].get(&name) else {
+                                continue;
+                            };
                             signal_type = Some(aux.signal_type);
                             // update the possible status
                             let mut new_length = aux.lengths.clone();
-- 
2.43.0


From 92e6f733f2c047fc13ca8e3a80ed1b6e2d50a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:37 +0000
Subject: [PATCH 52/55] hook: R1CSData hands out its parts under cfg(vp_hooks)

---
 constraint_writers/src/lib.rs         |  1 +
 constraint_writers/src/r1cs_reader.rs | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/constraint_writers/src/lib.rs b/constraint_writers/src/lib.rs
index d373794..d6e3f8d 100644
--- a/constraint_writers/src/lib.rs
+++ b/constraint_writers/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // vp_hooks
 pub mod debug_writer;
 pub mod json_writer;
 pub mod log_writer;
diff --git a/constraint_writers/src/r1cs_reader.rs b/constraint_writers/src/r1cs_reader.rs
index 7375182..abe4562 100644
--- a/constraint_writers/src/r1cs_reader.rs
+++ b/constraint_writers/src/r1cs_reader.rs
@@ -449,6 +449,28 @@ impl R1CSData {
     }
 }
 
+// What a file holds, for the monitors of the round trip between the writer and this reader.
+#[cfg(vp_hooks)]
+impl R1CSData {
+    pub fn vp_parts(
+        &self,
+    ) -> (
+        &HeaderData,
+        &[(HashMap<usize, BigInt>, HashMap<usize, BigInt>, HashMap<usize, BigInt>)],
+        &[usize],
+        Option<&CustomGatesUsedData>,
+        Option<&CustomGatesAppliedData>,
+    ) {
+        (
+            &self.header_data,
+            &self.constraints,
+            &self.signals,
+            self.custom_gates_used_data.as_ref(),
+            self.custom_gates_applied_data.as_ref(),
+        )
+    }
+}
+
 
 pub fn read_r1cs(input: &str) -> Result<R1CSData, std::io::Error> {
     let mut info = R1CSData::new();
-- 
2.43.0


From 754a8872fee6016f7c816e0e166df57f6ca18bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:57 +0000
Subject: [PATCH 53/55] remove compiler outputs committed by accident

---
 a.circom                   |   7 -
 a.r1cs                     | Bin 312 -> 0 bytes
 a.sym                      |   3 -
 a_constraints.json         |   6 -
 a_js/a.wasm                | Bin 34560 -> 0 bytes
 a_js/generate_witness.js   |  21 ---
 a_js/witness_calculator.js | 371 -------------------------------------
 7 files changed, 408 deletions(-)
 delete mode 100644 a.circom
 delete mode 100644 a.r1cs
 delete mode 100644 a.sym
 delete mode 100644 a_constraints.json
 delete mode 100644 a_js/a.wasm
 delete mode 100644 a_js/generate_witness.js
 delete mode 100644 a_js/witness_calculator.js

diff --git a/a.circom b/a.circom
deleted file mode 100644
index 21ad869..0000000
--- a/a.circom
+++ /dev/null
@@ -1,7 +0,0 @@
-pragma circom 2.1.6;
-bus B() { signal x; }
-bus C() { signal x[2]; }
-template S() { signal input in; signal output out; out <== in*in; }
-template S2() { signal input in2; signal output out2; out2 <== in2; }
-template T(n) { signal input in; signal output o; for (var a = 0; a < 2; a++) { var n2 = a; }  signal a; a <== 4; o <== a; }
-component main = T(1);
diff --git a/a.r1cs b/a.r1cs
deleted file mode 100644
index 0ee3cd2cf884b2aa5e7a619ddde789d1340a0030..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 312
zcmXRiOfF_*U|?VdVkRJ70mR4vBnAR35DF&=(hme5CVzeCJh5PBrN;|njo66B#%-<v
zJ2V#<J}mM}F@Pw6*aNZ?2=J;0nF&<~R*a1R$vZ$L6o534kJn6)KVW8pXqdl1{sh^l
Q0K~`urWO_sP=7K20I^Rkm;e9(

diff --git a/a.sym b/a.sym
deleted file mode 100644
index 11b8a67..0000000
--- a/a.sym
+++ /dev/null
@@ -1,3 +0,0 @@
-1,1,0,main.o
-2,2,0,main.in
-3,3,0,main.a
diff --git a/a_constraints.json b/a_constraints.json
deleted file mode 100644
index f7bbebe..0000000
--- a/a_constraints.json
+++ /dev/null
@@ -1,6 +0,0 @@
-{
-"constraints": [
-[{},{},{"0":"4","3":"21888242871839275222246405745257275088548364400416034343698204186575808495616"}],
-[{},{},{"1":"21888242871839275222246405745257275088548364400416034343698204186575808495616","3":"1"}]
-]
-}
\ No newline at end of file
diff --git a/a_js/a.wasm b/a_js/a.wasm
deleted file mode 100644
index 15c021e031f7ad8aeeaa0132c021c0018e748b27..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 34560
zcmeHwd5|2}d0)Top0nrZJvn=#X9$P@Nf3MC5X}R<AV5+CKoH;|9wM;V9RRbKV|Qi%
z?5ap$Wl*G)Fja9$KFW55P*g7Z56ZC;Mv<dfS=+KpuGkeNm84jXltAUgM{LC`M|ROi
z8Toy$kLl~pE+H0N<-(Hae(!zneee5z-}hd>Yr3VmR*gxL#Lo1clCNBmPBH$EU7;AR
z$`$t}A#xd1`O0PKl!|l;U%t#P^Q@OoNzy3^C0qvVvc-i;IIJYOsV15i>g`Icte02j
z%S-J_qyE@jeW6-zN?C{0v(&8A+XtJ?M)OFy)tWn7mNbXfd#PDzmuD}WIa7`xw$3#!
zoj5nwEH4~??nt@TXs$|{a(+=_GE)>qRb!GAPb6b8-0{C8$r6htleop?1Y=B=WH}a7
z6lAdeq*yGKO2=Z%N#G@8QcnhdIX#!n=X!fIgtOUfM$hJQYK$#`QA}YF`5()AyvC)F
zrS#cy``L1{1%0Jw^N1X&)EiAF<vB_@HrJj%=cIgc5Gj6DPPFHmZRz>mW_fPGPmx~e
z<FEu$UsNmgN?ZC=u2pV7USGP<K2bSapQ}ozdcoV1aH8_*vNWe5@%Y@OV@()GI;|si
zs8X&j9KBFGT&_<~N%J`*Jy&VhVG>@VoawLug9TF2rb}livu(TsFo;x1C75JN8mpzh
z`WtNVZpmPVv_p~hDt0KjS4moF`d&r1LWR9bK^vD0X_n{Xx1<%*ty@8x26=~4IHvBW
zyKdi;_FX!bkC{?l>s%<tSu(0RlI5coOM`*$Q#N0U=yn8h?og6;1mZ)Dr=qHP)x+m$
zbw6s3aalRzXOY0H1ZWH9o*Y(!Cx=y|Cx?~b$zh4{Y+mDkq~xuy{RL0${{^k!vLWr3
zAs8;N6cs}@l!p*Sno4QvD~2*_e9on)M1fwo1Sl~1ZaG7gOn{Oh3edtOK!Jbkmivj)
zAE5LTr9hNIfKnjJC{acOlu<6~+uED5Ppelgt!8iFFMrji+^baL4O=-kgGa~c3?5aZ
zGk7$P&frlzI)g|5=nNhhqBC$b-gsO4L7w$qhMt!C1fEoi5qwf9ewkEPZ40Z8?Nu0@
z(w!naw^~XfH}WFg@&}g=mTD<s5H~MfHq?jUMC3k{?&Fp$r2}=l^n^hbdBt)`s3=)V
z@rt~3?y^ZPS4iwkDH9OO6+2;&3|@&{Qi{tENrDWSk`}FOCR$m&loM%`Fi1SFGOn^I
zE?y)_>k5%x%0@$^M?=(K(nUBV43az&hZL7QlB9`&&2|O0zm$&#wm%x!LaA4TUcw-y
zBGF56r6Nh1*c@50Ir3f2Q7H99o1+kIj?q%T2=jzN`bJ`&;`&CCG_eu0Vk73oM(pWo
z#L-e;v=OcD+1nK)3{o}H5-F}~BuNvSHY+x5UToSPv1$84rsbWD5i(tht0KT(Xtk`^
zYI(8Mdc;=i3t5f#!dpY_M-xMz6+@pFL*FBYzApql2XT7{#H<*^yx8@7#31&CK;&@T
z8-gP*hNDLeM_&jIuGmCKu^zEveIdoTh%+G(`$8h}%Jw;x@nR2Xf7!z_muID-jDHx-
z*-zbB_IeT7aYK?loO2$?d_)lEZ5CNvIx}P%D=BEOd_WKjF*V{en!uwUjo4dqGnG1z
zT2DzMMtuRV7VT)GYLk3C@?on@7$RYzq%}f{mMFQgM43`b0EA(UX+Es5-6g_cV<U`o
zKFW%!77~es?dB>;-W^6V>@KXnv9SFmO$;B6)FP`*-jp8Qg~e!NBV-GFSQ#l%!Vv0_
z<h^rLscxXBgeq>}vxSZI7%gQ*$XY|wC}EAHSVe2p8da*BirwvjfkPL2Bn+VnN&eu8
z62?dgRp=&XT4=xxOks3YAt_eD8fHhTkiIDux<ieDLKmo0VmZ@7sJr2*302qt&+T31
zOpE2TM)*;9c9XL^Xc$g(0ZkJM)2+sg5YG*endmA^=B9+{u0Dn;V)eV}m=y}MfsXq;
zHDbVkWrhc|G}f%}AJeni*X&g-3DL_m2*Q#U!qRRDOIoxP(pk?!3X-v&6-cHP9tn$C
zfn-|Ok+6~#NT$^s3Cmc4WLm?Ku!a>#rj;8B3s`~VQSGQq%kc({+mziTy#350;c3)X
zl;!=(enUQ%Wrkv^i%vc{lrJM;f$<k*MZF>uM;XhbaxoS&*I6;98498>S<Jl7imGNv
zhN=S?^BTh~rpL@R8J8`^IQ}K5Mo^5z;!a4BFqK11)SfWe`C@`<v1q1p9s<uoV2luE
z85Uh<v1YqAtWj|;v}(jThq#&G9OA?wP8_iQ6kjwG=XXd_5sx|}xrSTZNSrs-^TjkT
zoSI$3-_q4%M%t8)E<=FSZ1Qu+mNwa9G0nN8Xf0VKCDI48@+>Q+OsSaW@}<mcvW~?M
z+>G>jXqy=}Vn%w=Na;NssV~V)yJD`(MFkh=E)_NNIsgMG*JWKb*MJr-dIFS;c};<q
z5^kWZD}d>`QcRfZsx53%k3+y19+FT(@5L2mRXuBH5HN%F<TZ?L^|T!@(vSvhvoV+y
z6dq;8EY`v)AL81u$>VNWE6puJtUP5Y-6;yrR1_F10853xq|s7SMRe9hbW6pI5kq<s
ziYA~^%CabzlhH%~l0homRZY8>H!g%p3)#Gm#X?S|AeX>RLv?pJnW3(eSsMmHGS@I?
zKqDQ{ex`>hm-&!8SCsi&h2|lKY^CL|LQtN-TPrFdqKdJKg7Tde>JC-)QtcJo4i&3|
zowD}wZHJoiQZrO9#;epz@Ot4nowD}AZHL<LrP`~u9V*s%I%Vx8+YWWqOC2?@CwQ%x
zbvbwdWj`Kp30E#39wCi=c!V_e;Sti<het?bA08o%eRza4_Te!~NMmH=YUIPi=-{C`
zcqD^(U|Qyu_TdrI*oQ|*V;>$NjeU58H1^>U(%6SbNMj!!2H~;Qqmd7ftsOj)4j!2x
z9@Yx9<+naOLK^$<2x;uYBc!npkC4VbJVF}#@Ca$_!(%JqfsvkTVILmbJ9uOqJoF$Q
z-gfN6Bc!npkC4VbJVF}#@Ca$_!y}}z508+>K0LM)9@g5GWnmv4_jd5m9X$GjcvuVR
z5&jX<*oQ|*V;>$NjeU58H1^>U(%6SbNMj!!_Yxi$??(H_L<f(42aiG!4@{BW(mwwP
zY3#!zq_Gc=kj6edLK^$<2x;uYBc!npj|sxVS~!gGkC_f01qYAOARg8leT096H1^>U
z(%6SbNMj!!A&q@_gf#Zy5z^R)#|+_txq@q9Uwhft!DEzyl4&erWYVww^*FoJ8JS@G
z6IdqY8>h607`ZnQb063AWU>|%O-ONF#lB^5Uo*JR8mC=Zl`n(Q&@XzQHO*Hrqv%x6
z|5CB}C)}v*NCyizdWARg2rvx49QiSVg<Q!}UZk|O5D|$7L`s%&T;xc)wE-1HB5nRi
z#ok#EHCL>THq^`8+uPPYn3rKB%9&Chw24B|NE@VRBq_(2D<VmdHdE>q+Q#Uz(<9!_
zAq@UhEe&kOqG%T#41zm|krvfUcZe-Y@OV*l0nTxFB1yd*o=6fD(MyBf{6M%9Xl?IA
zavcb5EIDEla__69q0M*?Jp)|tDFpP6^q&6Gh{#3K27wysA~{3obG>4p8|><H{iWe<
zK1bR_%F<;+YCyc5HpKCcVn}%ZP%VvZ##7M?ckmt!NEqp<h0+#ei*$jsL8gc#<+v##
zNxj?@k)%Pfe-C%{??P$3n}3s{krnnBL7#KoaUiti=aPm(TaPYjtZS?IKrIzF(<*3Q
z=C%qWAbe!27%kn2Y*F5UK9vj@Ny>2pMv{8PZD~;4mWIV`X}oJ&8ZDK&wI#wJQp_GB
z=)|sn4{+N?mKqXo36F_eV6kfp{9CoOZ8I%!tG5Mi4d@kYfoX%x8tJ+@Zq`Uruee<f
zireL|xLuBm+hs}IF0%%y7b#(n5%g-;;Rm=yBTEg5TkDv(wHC##bz7*l(sDH|cF`yd
zGB~X;$L$d5OTFUeH7IUg!{X*OE^b~War5foU`I+gz`>3r4T+o2n7H{A#m#41sQK`t
z5vV*cuI&|j_Mq6ahsB;fF81t_*s}-3J~|}!(J`@)7R5fgE##xz+b~@Vc-x@Z+lIy7
zHZJzIlGxjZ#C|g-_M4*EZ?=W}hI@duI7Xeg)24>S9xyKUfRfk)#>BQPify?qWJ_)p
zOoRhg85dinB(_RXjPJG(z8ooQnaGP&NsQFCkj`9sOvNqfIY%rkyxrLhppAvdor9}I
zHs;K|<5;Dzb_O<cpa=s{35Sq{$9v+QnYqJ{My>A5974NipSo;l8dxcyS-R*%O1BM9
zr!V)MWw8!Dc?H50KEog4UV)qpIHhI#E;ex7#PDH;4HZZV4}Nr0;AYN0xKd{LV>(JJ
zvIFM&);Zd!3?8*}UbX3TvN!*RYG?RaXKxW#Jn^A{ZisAXQX|99AVyZ1?}`X!{=J)V
zgdQ&<Js%bkov(yMikIdO(kN0lL~dqR-!($U2rA%`tOK!8(iqmlLlntg2e4L9qB3|q
z3ybB>bHO^z>&?HRXZ4o`1JJwN()`))<>r#CWuYiiH;6ambhMrl#n;G-A?_8s>Ofal
z#nivB8CSi-3o$K}cqQBr;zDUCP{hSCZ3xlN3eoQdu`cv|cSP=y-rtL($p>|F1+@+u
zd)0PHy<)=*hz(QdY8cG+M>b=aVXt9^11N83n9&l=fFqSk8$z39#WvG#%4VBs7D3%y
z^z&ky_3}Y;q<RBln-#=18|i8@%;Lv4W3w@@&Bg)-=w`DtA8tnKlNFmw7n-YEJL(f!
za#QUnsFufELQ7i9Mv>}S3u=+1g4mKHVoO>pN?wL+<74w#G5)$3|Gt~Tf8#chH-sSf
z8bXi<#LcB3ZZ0EYkjFzHb0jfY!!(4?BqDx*po@|06C&BoT?d6AZ^B)B#Yhf_kt~Rj
z91$Zq9zv4Cg<Z!kaP^7d8oVjEHukOoF(w5uCL>}@#zUBJ#WA<<qWGXt@ovsAB*bJB
z&QK65J|b4!T0si+C)nWZqMfyZ<}KuOlijr2*mfgg6~;p<a4TTlKrClBVMc`p+62_&
zAvw7)*w=G~u}%q(8Zlagz^P80cjd<yDaem6x@kD2=pH35;KZVVlb$#Tsu#2Y3SZag
zJZJ`oM6YW|y+iBeIWqdFc`dVDmQ1#6AAi(w#Mi2*54AIWL`$JK-YtORl)uTCietIp
zV&L#44*c?CuBhgTERK$v#vz;zUC-!SaAFtdP3emIamW*~>j=`?366g0fE$Mvut<y|
zi^Ui}2g^)jiPS!*?$6^CD@iI9<D5TEq8<YOxS{Nnr28eXQ0V-uV&E|DqJ0=wR5>_>
zYS%__loPV7Wpx7=x{m;&wJgrJ7PMcGnT*5C=Cv%26)XA{LoTXZ43&=l!T^R!CxW3r
zjyvl^&|!@|3G2}Pd@+V{oIrZp^mWOiuS?N%!y+5eRNbQL(bS|xO-55yi;4ruQF6%^
zRgR|GN(FRM4`vxZd;EKhDS%0jlVj>J*le^Yo7Zrlm~aD{2@@wFvw8{PbqcTL^b+BS
zM7Wcl%)-mE=CzzYWHQT<5OF975ydt%RS3T3dJe47U!3Qbu#5tEkWQo_99Sj`ad%Q6
z3?*m59@U^QWGO%hN?pt81<n(JF*?wkg9?K%Al-3j7)N!vVt9oH!sfL&sRHqF;R0$i
z$iUys!Qb*hA^w69p2lA=!b9|e5i6guS245)2{5Q?Nbn-8*_qp`aDJ`@S^{}ElI@q4
zsAh7Ja?wrUcyB?KJEa7iY#E44An5UfBpx+h=~3+%s+^UcA(|n4`3Qz0279&0y5#{)
z(g!u|IozqjbqN*Ht3<rD)4BFn_Q+)D<f0|b2(s|Vj4bIm9MvHpO!-yhM=v$$<s0U@
z;^#Vw5|7&@Y}H+%Y`&oqK|!c;%A{%A{G9Z=xtQi!UQfADKBj#J@9Md1u#Ubw$Z@c%
zB-N=FmovId2ZuopGC+70GfR1P%Nww`atv$t?3H6pZXW*oR2VJ5gv)~7aXVBlh6UX&
zC&>yhH`<z{kw577!g-Up?=%6oe&2b@px?*o?<fH!<VbyZYEU&x8`)K<AFJN_4v+4k
z3>tED?83Td_97SN1XdorH>lUk%ET#J%lF6_h>;88T%04D<vuqjCb%)qn=0wxLb4*6
z*Gt>A3Yi-Zv154pyXLk|{R_;kaC2)PrL_h&vetluh-LTg)&jSVp9ifqK;UlLT0U0M
z*5V93p1Nsk1$jqUi_~_lMK9O6X={C+-t81<PTadt0Xc_NIl`U(q0^Om@#38%715Ju
z$#`KCf14EAu+=efZeEffZ6?Y_CL=Kdj9p`SI#OF~o?o(BPsiMNx_BCOCm6{cm5Su~
z(Z!~2&tSOF2-C(1V**Kg3+W%$6cCd`N8KkvbnR%A>QrD`gXgf`rsbmQ$#pZRe)JN!
z0DYn(KL=<SxS{u+A|+>OU;sPu7oKUFk3{c4BNAoNw0pdzED~{<j^N_YYt^v1yg|Nx
z5xVmY<oy>P;nS`_&BtlER)g+z`33m0r&H>Z(c!{}NxWO|a52}3><k$&U;7Z<DCFxr
z75U&N$eq~TOeYG?orgg*XHOSOKT*BuE_4YF=JufCZj;(+M-ym8nAuNxOyKax2X+92
zdQ2xCFq*0Bz1l6R&>430YG*g8AvB`tHhF`N8Mn8WC4Jmcw&OCo&p$P-m&SP*g6I#@
z$Q=f}Upq{<9Ul@nzn_|hB~eN11GCw6=>__2EDe$k_IgCx=d=PSrusPb5QKkq5mTAG
zHY;hh7`sA05T<`71U2Iq&y(xWWDOSm%Iw2eiz;d`)K~GNRLT17u8}bLq@RAf3ts5M
z6#SM~pT)0W_alN|eo`c^o3GIn48QALw0;GuEqZF>by-zmrgallnck}Q2dm<<K)e>x
z;M=cs==9;MnCNlfob?$pt83m2eoOiWmKXe!3+}r1;~Hi>famBzk26!7<PWM%G#B?V
z7Rg68$De?CHq-99GqOfeUwQpU=>W8!WbhMLCn)I|^FaJZJ^~2*JY>_by^{tL^2I%P
zF)J#;G)$sdK266k^TIq@=JTov+;^HubHaR2()XE36taDLLf@r7ilTZ9zjnq?JA)Ze
zaF>3_%CKpMc78EKyG9L73Tq(rc2m9r0gtoe)>}Ifhe-Twr9{^e$CRb>W>CZn+Evw$
zy=#V#rY8<Ok3QisB{}zp@#qip0NAkF&XdIBdACSq?o_wFTG*L;J1)y`^p2kg{fKvN
z+)pe&Lfq#^i2M8q@muXjhyQ;3C|vEW^P`BmH~ld95t>f8T8|$!yZX^*1N{-=K0iX-
z=SPU&YCk&q_v1(5YHyt%Mbv#O{3u+l$B$Y8KiUHtf3D45;ZDRONghF$#Ghz9f~7eA
zIOCCmb`Zrj`TXJ!2tLq07H|P=3|#cP@Z`RWFRuq?${i|S!3|Jp<g4Gsr^fziX}@It
zyGcV@q#hV!<0=I-RWfDwqG&P6{B~Z;(G@b;dGt=yU^G5CfV~5g=J-WM+AkJm8cBol
zuw?3OjKi=iLSs9=IdbEMg5}SP`z7-VEtkY}dRq<C9>Tts`Tj1G7@9xaRb+hYfterd
zqP+*k2SOy~Vv+CgnD0!QzdT8K-<{B_!`icazvpf923sZ}te5(j@8=EK)UlC)0X+>#
zq^BT-f_VbP@M;@c&_WKj$jf0t++ZXVQuzi9BqLcYjI`fkEKVYlp5TYAKvULfkoJ{X
z<8_05<u(1~5^WHgj8btvd%K*$9+nxWC?e=+7E3WxKChodszRwT?6R0|PGFl5yM^m{
zeOD1@t)UcRG~mMx)2^6Bqcsw|`zA!S$=hfr^9nSDgoZ-7xP-qvsn<$azB7`9Gym%W
z4jqvpB(`SFYk8O$yGyWtk}ixcs<w?`R`dZ7Fy%J+ha)d`weoPQZ6x$P+TE5zkTt%Y
z=aS=2%Q#8<uG{wlxe`iBPRR-4zdlKjLMpr?i2%d9;>~Z7XYQ1c8vz&yy!pn#Ka;V?
zYkq4QiSIKQRz^;Hf9~CBLndEAzeRgkv=@kJnR>qjU!)lrypL{t!wNxz2v!Pie~PVJ
zPxO!d(f{j@{%?QueqT|e6EpE*DDK8FGhKDIq0?1sPuU_^LSo8THzyW5CDDvxOGVnX
zPS-uz6=+T>DyByQ?yBpPyoG2Byd4x7!6H)?CSYN_2@x#hw<r%Ns4hl$AjZ)lHe4n^
z$}5qrN;*{7!m8vxYOC*Xt1-7}8r);Sa*vz@5$PGS8k+X6GB#lM59H?`po2)5-)8zt
zs2fg3eg!*{Z_zue-rWu7V0PrYh;X6slBh*D^|d|vKFq46Mg1<?V5PlEDrpz$6z6%I
zWMVvFmD<K3<Hh7f^PN2?!D~mvPNWpxw_y=i`>DIeB+R0;<ljm5AND!XXE`y^9W!g5
z>-{hM#rF^V#L};<KK4h`+duWm&wS=<2akPy$F<4tH;*n%!0GYwu)n!+<H^yPpL%D<
z@1A<=Colf(p8F21t~9<}KeOw9CVuwUE~U|Gt|8akwc;-w{DZHL{QmPV{r*?)|GN{P
zUHis~2d_T<<}W;Q^vYMiGl=H5j$HetfB)|H-}~arU;o<QjDGXyAG`Yp|M9IaE&SF4
zpMRzNJ6E1~{(}sim)J~=YjI3GH~Pc&Gtc$GZ~yiCUwZ88-+f@~4~M>Z-#hF3|9ffs
zcl*EdGfN-8YpMXbkPCQikn1{f{lSeJZ~av+JM!>P-2LS*pZmA}=kxLJy?60X-h1>n
zzVR2vGs*7^0I!5*JpBBYhx$`L{c~@;_R!V;{MmuRxfj*X{+vAAci$gA5?4rO?DcEL
z&p-H|)}CqA=l|P{gInAG@1B4Dp7Jlp*Y7^~>>vKs{EjdF*(s6>xvssF-|~-M`wzc+
zVD>HZkAFR#d3WcJ|N0U3Pf|bKDqZC^#t!Uebi~8+=@DKvvZLSzW?#>1NgLfYbY^*N
z&9I}lZ?_S+jlgXLZX<9Tf!he&M&LFAw-LCFz&`*4zWKyU|2nbn-y~(|!e<u$0Cc*o
z!fga@Bk&O+fTdPVCtlP$P%mMvWxP3|ZKqWHt!>zEU{N1yxAcegI<3p~ThrPg|In;a
zsT=KbZK*ofE*npuoIsg(cWc*}UDf^#7pHh_(thhEzLG-t+y9qX;@NlZ-seyJ?5{m^
z&ksJRz4YdvzyCiDeeZW({$_sW>Yw$GTGC7V{{)L--}}9b^?`5wwvzkvU;S4vuFs!J
zJhu4#FMRh0uYcj6{$@h@#<*IatCiV*)#_5{o4PFgDP1|@3%W{g_`|uXcBpw0pW!_@
z-&k6WIgwA7n~iwZrc_!lAeu<q(MG+TOxfY`a>@ywZKs_aXWM1X3C}GoWSns8!s)CN
zu3f0+oC;dY7w|3LylykKqEA*A^o*Ty61gXP+!%OH_BxCfDi`~D?0l8_MSOd=e5A3^
zPvk?BwUfv@;Dk~CpcAf_&)$)<^VE))7cR`V3l0sn4UueA-V$b*Wa~sB+en|C(rz4S
z)Z1qpwQ_THbihtL(`?i_$zvoRm9Dgome0<$D;LY-PTjW1Tb#Oqu0d9y?A6BHLb2DW
z2jA;$otU4i&NWL;=JLwYolfS~a<jcP?^bkzW4aCBO5m3LSkeyE@8Sk)J>9%e-cCw3
z=Pn(9=}$}@-a)0k>fBAd+l`}*W^Jx|k3~J)sGqeG?&aolHQE_RW}tc>6~b4654TQF
zPwk>=+l|NT?Fk~2;ph%SOwql(e0-YjXWPeTVm!W^qV@9f9*UlA@8#6;@;-`I+aITB
zwY+>k-C?C4BlRlqfCqR&W8p!%1JZ}+j`WA=zSOw1pM*M7St;X-%2m@7Y0i=%fB__)
zKX;*i{s3W%c<WrX`iL8DRu7UL<`xz&wA!<k`tfq>LbZK}ptSNn>IR#SQJpCMxOH!S
zf~rHV)Aar8CrDxn9kzL&ZZxY$C?^6(ot!I3e3Iux=$MmQZ?vmV@l=G4Q=ke)C#Z0>
z(R`XGfbtA|Qu@g=XXtCtPoB7N`aq+$1g~m8>-jb{{}8qJ)6|~~ewq4t!H20|i1;q`
zi&3AYeks>1x5~|nWqi+i{`{flr}$T@Umk*Ro^MhgnOi#6XjSO@;3o&>&z0xTKYqqT
zK2dI;3VhajF5;`!r@bGwo)3M~dcpSv>vG@&*JnH*v_3mX-Qe_8rSAX6_PGH{Kh&J^
zCszWWzh3M;eW6la@O`%Ye4eKrZk)BhlU+^YxpQ(JpZCUtC_!O-Dqa2+{j@4e^3n>E
zmzpt#P%}=~l>`rC9Bt87Q*J2jhVT$%D~zqmtf{d1j4zfQ=+NZ(300n-jL9n#ad~wj
zA+Jm(<<-fQyfT%RSEn?2WjZ6TPG{wnnVh^jlb2U^>+<UE9(iR?ue`daPhQ#EFR$*+
z<v7cx41Nmusqy)Vla1;^EIvO;_c-`lyjP~cdpZq%;JrHoKH$AKkMFTV+@`K_r64!7
zh2TA|;PVQ!?bRH~=M~me<z_P`&(Fu@@+T8=`T3;W0v4^6v|OI=%h~AEEKY4zt(Pyg
zW2_mMmzNXrax+N@&6Lu*w3KEmTC9anq_;Ckx>3$7Pgv<!oEn=0ogg-wxVU%3B-V!5
zvRYr7o`Sq8s}(-xmH-kKx}0obusV^HYZEDXc>)+rYQQ=p*Cw;_@?;K}=YhE{*QR>p
z<*8oa)CcVQ<=XUsygWS!%<g~<3UX~`NM4>927V*3#i(4{Jti;j9tW0NU=u^G?J3I3
zdrH9dPS|FvT-&=%Ufw&j#S&U*BQ7PZ6p*k636~+^%2W=L<sq34$$B7FFQkG8%s|2!
zNH_xtci#bN3Xo<9(hNhA5lAu$NyZ?>IHVZ1p&PO9qxOA_LAr4}vW0uNk&xmo{&-_4
z>yGcybBA71SvAHgactmn2eGrsoosNAQe09`&$Y_Tp=MkrXWQq<e^@2PPTvU|*2#vf
zrm%|27Pmr@`Zj7wO|-m~kHwvk%<2kjscaz@YgOl3?Ynqu#Qv?kbeyq^J1BbmZhpOo
zU+<->xs!bQI9Qn^d$NH6$(d^7(tVt`i(e;VZWeiImPB*2O^QiVRI>@jv(s*9M)7jm
z?ThX4#c&qP5eppl`C=dU#qJl2@MFG=5BOpaTEIZWhr|pX_7&L=`_D0U+O+SpmR_uK
zAn6JVBP1HnHJS@8^fHavO1m`~vlFJ`R>D+*RUY}!B@S{^9O}qQ=Jr_P(T=FB{#Yjh
z^d9%cK0z^V7xX>HpYYKR`)Egew4*-SlRnxp$HK>-a$!C0%W=XNd)m$Q49-T+<AKkV
zN~84xe0%9dpt}TzeMyz#_0y~Ea*HJ^^-7DL%5oB&-|1H6(`7}gm1~XWDvx{$eIGiy
ziX6wFw%KUD44*z%2g`azW)(%5yRdSSNlL4-bSfpO=W4CfOg&d^otBlQMoW?FEmf{9
z#fTnPaj7NLi<n^~ZEkZAu~X)ZCEom5lJy*2D!9xq#wAu`tSZapnj)XBf#ZBkS(=<U
zk1n9bkSZfpL26ZzGSrRFRU3TF!{XN65xzDk*(oeOZ)vSr`4MThl{f~Y^R*>4ZQW_i
z9g9~QmHL@RT&-T5YbN3tW<%wqN)yMFir_?=u9$n`I+aPxH!jrM<z_b3YB%s$2PNkQ
zr}7#N9qcT65<Og%xc2DQ2%y?%ELk=8dQvPE`g%HfYzF-{hy!Vit}p~8+o^BJeUf$(
zN}a4==rTRUl1@a<IH4xemAn%}gc8(VPlBBm%lXsdo%o&^<VkdD+B1{v@n;4-WmkgC
zduE#Wm-g4XXGTk$Y@fW?s4QeCKyqZ`2;iPeTX#y!^DwcPp3+lRI)Xh}H%OG;j2lHP
RmS$1{qp4PHZYk*r|9_qePbL5W

diff --git a/a_js/generate_witness.js b/a_js/generate_witness.js
deleted file mode 100644
index a059e66..0000000
--- a/a_js/generate_witness.js
+++ /dev/null
@@ -1,21 +0,0 @@
-const wc  = require("./witness_calculator.js");
-const { readFileSync, writeFile } = require("fs");
-
-if (process.argv.length != 5) {
-    console.log("Usage: node generate_witness.js <file.wasm> <input.json> <output.wtns>");
-} else {
-    const input = JSON.parse(readFileSync(process.argv[3], "utf8"));
-    
-    const buffer = readFileSync(process.argv[2]);
-    wc(buffer).then(async witnessCalculator => {
-		/*
-	    const w= await witnessCalculator.calculateWitness(input,0);
-	    for (let i=0; i< w.length; i++){
-		console.log(w[i]);
-	    }*/
-	const buff= await witnessCalculator.calculateWTNSBin(input,0);
-	writeFile(process.argv[4], buff, function(err) {
-	    if (err) throw err;
-	});
-    });
-}
diff --git a/a_js/witness_calculator.js b/a_js/witness_calculator.js
deleted file mode 100644
index 605d49c..0000000
--- a/a_js/witness_calculator.js
+++ /dev/null
@@ -1,371 +0,0 @@
-module.exports = async function builder(code, options) {
-
-    options = options || {};
-
-    let wasmModule;
-    try {
-	wasmModule = await WebAssembly.compile(code);
-    }  catch (err) {
-	console.log(err);
-	console.log("\nTry to run circom --c in order to generate c++ code instead\n");
-	throw new Error(err);
-    }
-
-    let wc;
-
-    let errStr = "";
-    let msgItems = []; // the items of the log line being built
-    
-    const instance = await WebAssembly.instantiate(wasmModule, {
-        runtime: {
-            exceptionHandler : function(code) {
-		let err;
-                if (code == 1) {
-                    err = "Signal not found.\n";
-                } else if (code == 2) {
-                    err = "Too many signals set.\n";
-                } else if (code == 3) {
-                    err = "Signal already set.\n";
-		} else if (code == 4) {
-                    err = "Assert Failed.\n";
-		} else if (code == 5) {
-                    err = "Not enough memory.\n";
-		} else if (code == 6) {
-                    err = "Input signal array access exceeds the size.\n";
-		} else {
-		    err = "Unknown error.\n";
-                }
-                throw new Error(err + errStr);
-            },
-	    printErrorMessage : function() {
-		errStr += getMessage() + "\n";
-                // console.error(getMessage());
-	    },
-	    writeBufferMessage : function() {
-			const msg = getMessage();
-			// Any calls to `log()` will always end with a `\n`, so that's when we print and reset
-			if (msg === "\n") {
-				console.log(msgItems.join(" "));
-				msgItems = [];
-			} else {
-				msgItems.push(msg);
-			}
-	    },
-	    showSharedRWMemory : function() {
-		printSharedRWMemory ();
-            }
-
-        }
-    });
-
-    const sanityCheck =
-        options
-//        options &&
-//        (
-//            options.sanityCheck ||
-//            options.logGetSignal ||
-//            options.logSetSignal ||
-//            options.logStartComponent ||
-//            options.logFinishComponent
-//        );
-
-    
-    wc = new WitnessCalculator(instance, sanityCheck);
-    return wc;
-
-    function getMessage() {
-        var bytes = [];
-	var c = instance.exports.getMessageChar();
-        while ( c != 0 ) {
-	    bytes.push(c);
-	    c = instance.exports.getMessageChar();
-	}
-        return new TextDecoder().decode(new Uint8Array(bytes));
-    }
-	
-    function printSharedRWMemory () {
-	const shared_rw_memory_size = instance.exports.getFieldNumLen32();
-	const arr = new Uint32Array(shared_rw_memory_size);
-	for (let j=0; j<shared_rw_memory_size; j++) {
-	    arr[shared_rw_memory_size-1-j] = instance.exports.readSharedRWMemory(j);
-	}
-
-	msgItems.push(fromArray32(arr).toString());
-	}
-
-};
-
-class WitnessCalculator {
-    constructor(instance, sanityCheck) {
-        this.instance = instance;
-
-	this.version = this.instance.exports.getVersion();
-        this.n32 = this.instance.exports.getFieldNumLen32();
-
-        this.instance.exports.getRawPrime();
-        const arr = new Uint32Array(this.n32);
-        for (let i=0; i<this.n32; i++) {
-            arr[this.n32-1-i] = this.instance.exports.readSharedRWMemory(i);
-        }
-        this.prime = fromArray32(arr);
-
-        this.witnessSize = this.instance.exports.getWitnessSize();
-
-        this.sanityCheck = sanityCheck;
-    }
-    
-    circom_version() {
-	return this.instance.exports.getVersion();
-    }
-
-    async _doCalculateWitness(input_orig, sanityCheck) {
-	//input is assumed to be a map from signals to arrays of bigints
-        this.instance.exports.init((this.sanityCheck || sanityCheck) ? 1 : 0);
-	let prefix = "";
-	var input = new Object();
-	//console.log("Input: ", input_orig);
-	qualify_input(prefix,input_orig,input);
-	//console.log("Input after: ",input);	
-        const keys = Object.keys(input);
-	var input_counter = 0;
-        keys.forEach( (k) => {
-            const h = fnvHash(k);
-            const hMSB = parseInt(h.slice(0,8), 16);
-            const hLSB = parseInt(h.slice(8,16), 16);
-            const fArr = flatArray(input[k]);
-	    let signalSize = this.instance.exports.getInputSignalSize(hMSB, hLSB);
-	    if (signalSize < 0){
-		throw new Error(`Signal ${k} not found\n`);
-	    }
-	    if (fArr.length < signalSize) {
-		throw new Error(`Not enough values for input signal ${k}\n`);
-	    }
-	    if (fArr.length > signalSize) {
-		throw new Error(`Too many values for input signal ${k}\n`);
-	    }
-            for (let i=0; i<fArr.length; i++) {
-                const arrFr = toArray32(normalize(fArr[i],this.prime),this.n32)
-                for (let j=0; j<this.n32; j++) {
-		    this.instance.exports.writeSharedRWMemory(j,arrFr[this.n32-1-j]);
-		}
-		try {
-                    this.instance.exports.setInputSignal(hMSB, hLSB,i);
-		    input_counter++;
-		} catch (err) {
-		    // console.log(`After adding signal ${i} of ${k}`)
-                    throw new Error(err);
-		}
-            }
-
-        });
-	if (input_counter < this.instance.exports.getInputSize()) {
-	    throw new Error(`Not all inputs have been set. Only ${input_counter} out of ${this.instance.exports.getInputSize()}`);
-	}
-    }
-
-    async calculateWitness(input, sanityCheck) {
-
-        const w = [];
-        await this._doCalculateWitness(input, sanityCheck);
-
-        for (let i=0; i<this.witnessSize; i++) {
-            this.instance.exports.getWitness(i);
-	    const arr = new Uint32Array(this.n32);
-            for (let j=0; j<this.n32; j++) {
-            arr[this.n32-1-j] = this.instance.exports.readSharedRWMemory(j);
-            }
-            w.push(fromArray32(arr));
-        }
-
-        return w;
-    }
-    
-
-    async calculateBinWitness(input, sanityCheck) {
-
-        const buff32 = new Uint32Array(this.witnessSize*this.n32);
-	const buff = new  Uint8Array( buff32.buffer);
-        await this._doCalculateWitness(input, sanityCheck);
-
-        for (let i=0; i<this.witnessSize; i++) {
-            this.instance.exports.getWitness(i);
-	    const pos = i*this.n32;
-            for (let j=0; j<this.n32; j++) {
-		buff32[pos+j] = this.instance.exports.readSharedRWMemory(j);
-            }
-        }
-
-	return buff;
-    }
-    
-
-    async calculateWTNSBin(input, sanityCheck) {
-
-        const buff32 = new Uint32Array(this.witnessSize*this.n32+this.n32+11);
-	const buff = new  Uint8Array( buff32.buffer);
-        await this._doCalculateWitness(input, sanityCheck);
-  
-	//"wtns"
-	buff[0] = "w".charCodeAt(0)
-	buff[1] = "t".charCodeAt(0)
-	buff[2] = "n".charCodeAt(0)
-	buff[3] = "s".charCodeAt(0)
-
-	//version 2
-	buff32[1] = 2;
-
-	//number of sections: 2
-	buff32[2] = 2;
-
-	//id section 1
-	buff32[3] = 1;
-
-	const n8 = this.n32*4;
-	//id section 1 length in 64bytes
-	const idSection1length = 8 + n8;
-	const idSection1lengthHex = idSection1length.toString(16);
-        buff32[4] = parseInt(idSection1lengthHex.slice(0,8), 16);
-        buff32[5] = parseInt(idSection1lengthHex.slice(8,16), 16);
-
-	//this.n32
-	buff32[6] = n8;
-
-	//prime number
-	this.instance.exports.getRawPrime();
-
-	var pos = 7;
-        for (let j=0; j<this.n32; j++) {
-	    buff32[pos+j] = this.instance.exports.readSharedRWMemory(j);
-        }
-	pos += this.n32;
-
-	// witness size
-	buff32[pos] = this.witnessSize;
-	pos++;
-
-	//id section 2
-	buff32[pos] = 2;
-	pos++;
-
-	// section 2 length
-	const idSection2length = n8*this.witnessSize;
-	const idSection2lengthHex = idSection2length.toString(16);
-        buff32[pos] = parseInt(idSection2lengthHex.slice(0,8), 16);
-        buff32[pos+1] = parseInt(idSection2lengthHex.slice(8,16), 16);
-
-	pos += 2;
-        for (let i=0; i<this.witnessSize; i++) {
-            this.instance.exports.getWitness(i);
-            for (let j=0; j<this.n32; j++) {
-		buff32[pos+j] = this.instance.exports.readSharedRWMemory(j);
-            }
-	    pos += this.n32;
-        }
-
-	return buff;
-    }
-
-}
-
-
-function qualify_input_list(prefix,input,input1){
-    if (Array.isArray(input)) {
-	for (let i = 0; i<input.length; i++) {
-	    let new_prefix = prefix + "[" + i + "]";
-	    qualify_input_list(new_prefix,input[i],input1);
-	}
-    } else {
-	qualify_input(prefix,input,input1);
-    }
-}
-
-function qualify_input(prefix,input,input1) {
-    if (Array.isArray(input)) {
-	a = flatArray(input);
-	if (a.length > 0) {
-	    let t = typeof a[0];
-	    for (let i = 1; i<a.length; i++) {
-		if (typeof a[i] != t){
-		    throw new Error(`Types are not the same in the key ${prefix}`);
-		}
-	    }
-	    if (t == "object") {
-		qualify_input_list(prefix,input,input1);
-	    } else {
-		input1[prefix] = input;
-	    }
-	} else {	    
-	    input1[prefix] = input;
-	}
-    } else if (typeof input == "object") {
-        const keys = Object.keys(input);
-	keys.forEach( (k) => {
-	    let new_prefix = prefix == ""? k : prefix + "." + k;
-	    qualify_input(new_prefix,input[k],input1);
-	});
-    } else {
-	input1[prefix] = input;
-    }
-}
-
-function toArray32(rem,size) {
-    const res = []; //new Uint32Array(size); //has no unshift
-    const radix = BigInt(0x100000000);
-    while (rem) {
-        res.unshift( Number(rem % radix));
-        rem = rem / radix;
-    }
-    if (size) {
-	var i = size - res.length;
-	while (i>0) {
-	    res.unshift(0);
-	    i--;
-	}
-    }
-    return res;
-}
-
-function fromArray32(arr) { //returns a BigInt
-    var res = BigInt(0);
-    const radix = BigInt(0x100000000);
-    for (let i = 0; i<arr.length; i++) {
-        res = res*radix + BigInt(arr[i]);
-    }
-    return res;
-}
-
-function flatArray(a) {
-    var res = [];
-    fillArray(res, a);
-    return res;
-
-    function fillArray(res, a) {
-        if (Array.isArray(a)) {
-            for (let i=0; i<a.length; i++) {
-                fillArray(res, a[i]);
-            }
-        } else {
-            res.push(a);
-        }
-    }
-}
-
-function normalize(n, prime) {
-    let res = BigInt(n) % prime
-    if (res < 0) res += prime
-    return res
-}
-
-function fnvHash(str) {
-    const uint64_max = BigInt(2) ** BigInt(64);
-    let hash = BigInt("0xCBF29CE484222325");
-    for (var i = 0; i < str.length; i++) {
-	hash ^= BigInt(str[i].charCodeAt());
-	hash *= BigInt(0x100000001B3);
-	hash %= uint64_max;
-    }
-    let shash = hash.toString(16);
-    let n = 16 - shash.length;
-    shash = '0'.repeat(n).concat(shash);
-    return shash;
-}
-- 
2.43.0


From 5e7fbc969ecfebe7a4f045001f7306ce25173162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 54/55] fix: assigning an array of other dimensions to a
 variable copies the common positions

The witness programs copied as many values as the destination (calls) or the
source has, in a flat way, so that they read or wrote other memory and computed
other values than the constraint generation.
---
 .../intermediate_representation/translate.rs  | 112 +++++++++++++++++-
 1 file changed, 108 insertions(+), 4 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 42cb1c7..77cb9aa 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -202,7 +202,7 @@ struct Context<'a> {
     _translating: String,
     files: &'a FileLibrary,
     tmp_database: &'a TemplateDB,
-    _functions: &'a HashMap<String, Vec<Length>>,
+    functions: &'a HashMap<String, Vec<Length>>,
     cmp_to_type: HashMap<String, ClusterType>,
     buses: &'a Vec<BusInstance>
 }
@@ -589,6 +589,15 @@ fn translate_substitution(stmt: Statement, state: &mut State, context: &Context)
     if let Substitution { meta, var, access, rhe, .. } = stmt {
         debug_assert!(!meta.get_type_knowledge().is_component());
         let def = SymbolDef { meta: meta.clone(), symbol: var, acc: access };
+        if meta.get_type_knowledge().is_var() {
+            let dest_dimensions = ProcessedSymbol::new(def.clone(), state, context).dimensions;
+            let src_dimensions = get_expression_dimensions(&rhe, state, context);
+            if let (Some(dest), Some(src)) = (dest_dimensions, src_dimensions) {
+                if dest != src && dest.len() == src.len() {
+                    return translate_mismatched_substitution(def, rhe, dest, src, state, context);
+                }
+            }
+        }
         let str_info =
             StoreInfo { prc_symbol: ProcessedSymbol::new(def, state, context), src: rhe };
         let store_instruction = if str_info.src.is_call() {
@@ -631,6 +640,69 @@ fn translate_standard_case(
     info.prc_symbol.into_store(src, state, src_size, src_address, context)
 }
 
+// Assigning to an array an array with other dimensions: only the positions that
+// both have are assigned
+fn translate_mismatched_substitution(
+    dest: SymbolDef,
+    src: Expression,
+    dest_dimensions: Vec<Length>,
+    src_dimensions: Vec<Length>,
+    state: &mut State,
+    context: &Context,
+) {
+    fn substitution(meta: &Meta, var: &str, access: &[Access], rhe: Expression) -> Statement {
+        Statement::Substitution {
+            meta: meta.clone(),
+            var: var.to_string(),
+            access: access.to_vec(),
+            op: AssignOp::AssignVar,
+            rhe,
+        }
+    }
+    let src = if src.is_call() {
+        // the result of the call is stored in an auxiliary variable
+        let size = src_dimensions.iter().product();
+        let address = state.reserve_variable(size);
+        let name = format!("result of call {}", address);
+        let instruction = ValueBucket {
+            line: context.files.get_line(dest.meta.start, dest.meta.get_file_id()).unwrap(),
+            message_id: state.message_id,
+            parse_as: ValueType::U32,
+            value: address,
+            op_aux_no: 0,
+        }
+        .allocate();
+        let info = SymbolInfo {
+            access_instruction: instruction,
+            dimensions: src_dimensions.clone(),
+            is_component: false,
+            is_bus: false,
+            bus_id: None,
+            size,
+        };
+        state.environment.add_variable(&name, info);
+        translate_substitution(substitution(&dest.meta, &name, &[], src), state, context);
+        Expression::Variable { meta: dest.meta.clone(), name, access: vec![] }
+    } else {
+        src
+    };
+    if let Expression::Variable { meta: src_meta, name: src_name, access: src_access } = src {
+        let common = std::cmp::min(dest_dimensions[0], src_dimensions[0]);
+        for i in 0..common {
+            let index = Access::ArrayAccess(Expression::Number(dest.meta.clone(), BigInt::from(i)));
+            let mut dest_access = dest.acc.clone();
+            dest_access.push(index.clone());
+            let mut access = src_access.clone();
+            access.push(index);
+            let rhe = Expression::Variable { meta: src_meta.clone(), name: src_name.clone(), access };
+            let stmt = substitution(&dest.meta, &dest.symbol, &dest_access, rhe);
+            translate_substitution(stmt, state, context);
+        }
+    } else {
+        unreachable!()
+    }
+}
+
 // End of substitution utils
 
 fn translate_declaration(stmt: Statement, state: &mut State, context: &Context) {
@@ -1066,6 +1138,7 @@ fn build_signal_location(
     }
 }
 
+#[derive(Clone)]
 struct SymbolDef {
     meta: Meta,
     symbol: String,
@@ -1102,6 +1175,8 @@ struct ProcessedSymbol {
     before_signal: Vec<Vec<InstructionPointer>>,
     // in case it is a bus indicate the bus accesses info
     bus_accesses: Vec<BusAccessInfo>, 
+    // the dimensions of the accessed element, in case they are always the same
+    dimensions: Option<Vec<usize>>,
 }
 
 impl ProcessedSymbol {
@@ -1278,6 +1353,13 @@ impl ProcessedSymbol {
         let aux_index = std::mem::take(&mut current_index);
         after_indexes.push(aux_index);
 
+        let mut dimensions = possible_status.possible_lengths.first().cloned();
+        if possible_status.possible_lengths.iter().any(|l| Some(l) != dimensions.as_ref()) {
+            dimensions = None;
+        }
+        if let Some(lengths) = &mut dimensions {
+            lengths.reverse();
+        }
 
         if accessed_component_signal.is_some(){
             // Case accessing a io signal of a subcomponent
@@ -1336,7 +1418,8 @@ impl ProcessedSymbol {
                 before_signal: vec![before_index],
                 signal: Some(signal_location),
                 signal_type,
-                bus_accesses: Vec::new()
+                bus_accesses: Vec::new(),
+                dimensions,
             }
         } else{
 
@@ -1355,7 +1438,8 @@ impl ProcessedSymbol {
                 before_signal: after_indexes,
                 signal: None,
                 signal_type,
-                bus_accesses: accessed_fields_info 
+                bus_accesses: accessed_fields_info,
+                dimensions,
             }
         }
 
@@ -1865,6 +1949,26 @@ fn get_expression_size(expression: &Expression, state: &mut State, context: &Con
     }
 }
 
+// the dimensions of the value of an expression, in case they are always the same
+fn get_expression_dimensions(
+    expression: &Expression,
+    state: &mut State,
+    context: &Context,
+) -> Option<Vec<usize>> {
+    match expression {
+        Expression::Call { id, .. } => context.functions.get(id).cloned(),
+        Expression::Variable { meta, name, access } => {
+            if check_tag_access(name, access, state).is_some() {
+                Some(vec![])
+            } else {
+                let def = SymbolDef { meta: meta.clone(), symbol: name.clone(), acc: access.clone() };
+                ProcessedSymbol::new(def, state, context).dimensions
+            }
+        }
+        _ => Some(vec![]),
+    }
+}
+
 fn get_variable_size(
     expression: &Expression,
     state: &mut State,
@@ -1959,7 +2063,7 @@ pub fn translate_code(body: Statement, code_info: CodeInfo) -> CodeOutput {
     let context = Context {
         files: code_info.files,
         _translating: code_info.header,
-        _functions: code_info.functions,
+        functions: code_info.functions,
         cmp_to_type: code_info.cmp_to_type,
         tmp_database: code_info.template_database,
         buses: code_info.buses
-- 
2.43.0


From 8609209b712287ff20297a9425de228fc0e6f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:51 +0000
Subject: [PATCH 55/55] fix: count an input assigned in two branches once

The number of inputs of a component without value was decremented by every
assignment: a component with inputs that are never assigned was accepted, or the
counter underflowed, when an input is assigned in both branches of an unknown
condition.
---
 constraint_generation/src/assignment_utils.rs | 16 +++++++---
 .../environment_utils/bus_representation.rs   | 30 +++++--------------
 .../component_representation.rs               | 23 +++++++-------
 constraint_generation/src/execute.rs          |  4 +--
 4 files changed, 32 insertions(+), 41 deletions(-)

diff --git a/constraint_generation/src/assignment_utils.rs b/constraint_generation/src/assignment_utils.rs
index d82c749..fab8e2a 100644
--- a/constraint_generation/src/assignment_utils.rs
+++ b/constraint_generation/src/assignment_utils.rs
@@ -195,12 +195,13 @@ pub fn join_tags_propagation(tags: Option<TagWire>, new_tags: &TagWire)-> Option
 
 
 
+// returns the number of signals that had no assignment before
 pub fn perform_signal_assignment(
     signal_slice: &mut SignalSlice, 
     array_access: &[SliceCapacity], 
     new_route: &[SliceCapacity],
     conditions_assignment: &AssignmentState
-)-> Result<(), MemoryError>{
+)-> Result<usize, MemoryError>{
     let memory_response_for_signal_previous_value = SignalSlice::access_values(
         signal_slice,
         array_access,
@@ -232,11 +233,13 @@ pub fn perform_signal_assignment(
         Err(err) => return Err(err)
     };
 
+    let mut first_assignments = 0;
     for i in 0..signal_previous_value.len(){
         let signal_was_assigned = signal_previous_value.get_mut(i).unwrap();
         match signal_was_assigned{
             AssignmentState::NoAssigned =>{
                 **signal_was_assigned = conditions_assignment.clone();
+                first_assignments += 1;
             }
             AssignmentState::Assigned(meta) =>{
                 return Result::Err(MemoryError::AssignmentError(TypeAssignmentError::MultipleAssignments(meta.as_ref().unwrap().clone())));
@@ -310,17 +313,18 @@ pub fn perform_signal_assignment(
 
     }
 
-    Result::Ok(())
+    Result::Ok(first_assignments)
 }
 
 
+// returns the number of buses that were not completely assigned before
 pub fn perform_bus_assignment(
     bus_slice: &mut BusSlice, 
     array_access: &[SliceCapacity], 
     assigned_bus_slice: &BusSlice, 
     is_input: bool, 
     conditions_assignment: &AssignmentState
-)-> Result<(), MemoryError>{
+)-> Result<usize, MemoryError>{
 
     let correct_dims_result = BusSlice::check_correct_dims(
         &bus_slice, 
@@ -342,7 +346,11 @@ pub fn perform_bus_assignment(
 
 
     let mut index = 0;
+    let mut first_assignments = 0;
     for accessed_bus in value_left{
+        if accessed_bus.has_unassigned_fields(){
+            first_assignments += 1;
+        }
         // We completely assign each one of them
         let memory_response_assign = BusSlice::get_reference_to_single_value_by_index(&assigned_bus_slice, index);
         let assigned_bus = match memory_response_assign{
@@ -358,5 +366,5 @@ pub fn perform_bus_assignment(
 
     }
     
-    Ok(())
+    Ok(first_assignments)
 }
diff --git a/constraint_generation/src/environment_utils/bus_representation.rs b/constraint_generation/src/environment_utils/bus_representation.rs
index 16e123e..f521172 100644
--- a/constraint_generation/src/environment_utils/bus_representation.rs
+++ b/constraint_generation/src/environment_utils/bus_representation.rs
@@ -85,7 +85,7 @@ impl BusRepresentation {
                 )?;
                 let bus_slice = BusSlice::new_with_route(&route, &bus_field);
                 let bus_slice_size = BusSlice::get_number_of_cells(&bus_slice);
-                if bus_slice_size > 0{
+                if bus_slice_size > 0 && bus_field.has_unassigned_fields(){
                     component.unassigned_fields
                         .insert(symbol.clone(), bus_slice_size);
                 }
@@ -229,6 +229,7 @@ impl BusRepresentation {
                             Result::Ok(mut bus_slice) =>{
                                 assert!(bus_slice.len() == 1);
                                 let resulting_bus = bus_slice.get_mut(0).unwrap();
+                                let was_unassigned = resulting_bus.has_unassigned_fields();
                                 resulting_bus.assign_value_to_field( 
                                     remaining_access.field_access.as_ref().unwrap(), 
                                     &remaining_access.remaining_access.as_ref().unwrap(),
@@ -238,7 +239,7 @@ impl BusRepresentation {
                                 )?;
 
                                 // Update from unassigned if it is completely assigned
-                                if !resulting_bus.has_unassigned_fields(){
+                                if was_unassigned && !resulting_bus.has_unassigned_fields(){
                                     match self.unassigned_fields.get_mut(field_name){
                                         Some(left) => {
                                             *left -= 1;
@@ -268,7 +269,7 @@ impl BusRepresentation {
 
             } else{
                 // assign the values to the signal or bus
-                match field{
+                let first_assignments = match field{
                     FieldTypes::Signal(signal_slice) =>{
                         let route = match assigned_value{
                             FoldedArgument::Signal(signal_slice_route) =>{
@@ -276,7 +277,7 @@ impl BusRepresentation {
                             },
                             _ => unreachable!()
                         };
-                        perform_signal_assignment(signal_slice, &remaining_access.array_access, route, conditions_assignment)?;
+                        perform_signal_assignment(signal_slice, &remaining_access.array_access, route, conditions_assignment)?
                     },
                     FieldTypes::Bus(bus_slice) =>{
                         let assigned_bus_slice = match assigned_value{
@@ -285,29 +286,14 @@ impl BusRepresentation {
                             },
                             _ => unreachable!()
                         };
-                        perform_bus_assignment(bus_slice, &remaining_access.array_access, assigned_bus_slice, is_input, conditions_assignment)?;
-
+                        perform_bus_assignment(bus_slice, &remaining_access.array_access, assigned_bus_slice, is_input, conditions_assignment)?
                     }
-                }
-
-                // Update the value of unnasigned fields
-                let slice_route = match assigned_value{
-                    FoldedArgument::Signal(signal_slice_route) =>{
-                        signal_slice_route
-                    },
-                    FoldedArgument::Bus(bus_slice) =>{
-                        bus_slice.route()
-                    },
                 };
 
-                let mut dim_slice = 1;
-                for i in slice_route {
-                    dim_slice *= *i;
-                }
-                    
+                // Update the value of unnasigned fields
                 match self.unassigned_fields.get_mut(field_name){
                     Some(left) => {
-                        *left -= dim_slice;
+                        *left -= first_assignments;
                         if *left == 0 {
                             self.unassigned_fields.remove(field_name);
                         }
diff --git a/constraint_generation/src/environment_utils/component_representation.rs b/constraint_generation/src/environment_utils/component_representation.rs
index 1b40bbb..cf5ceda 100644
--- a/constraint_generation/src/environment_utils/component_representation.rs
+++ b/constraint_generation/src/environment_utils/component_representation.rs
@@ -184,7 +184,7 @@ impl ComponentRepresentation {
                 )?;
                 let bus_slice = BusSlice::new_with_route(route, &initial_value_bus);
                 let bus_slice_size = BusSlice::get_number_of_cells(&bus_slice);
-                if bus_slice_size > 0{
+                if bus_slice_size > 0 && initial_value_bus.has_unassigned_fields(){
                     component.unassigned_inputs
                         .insert(symbol.clone(), bus_slice_size);
                 }
@@ -480,10 +480,10 @@ impl ComponentRepresentation {
         
         // Perform the assignment
         let inputs_response = self.inputs.get_mut(signal_name).unwrap();
-        perform_signal_assignment(inputs_response, &access, slice_route, conditions_assignment)?;
+        let first_assignments = perform_signal_assignment(inputs_response, &access, slice_route, conditions_assignment)?;
         
         // Update the value of unnasigned fields
-        ComponentRepresentation::update_unassigned_inputs(self, signal_name, slice_route);
+        ComponentRepresentation::update_unassigned_inputs(self, signal_name, first_assignments);
 
         Result::Ok(())
 
@@ -558,10 +558,10 @@ impl ComponentRepresentation {
         
         // Perform the assignment
         let inputs_response = self.input_buses.get_mut(bus_name).unwrap();
-        perform_bus_assignment(inputs_response, &access, bus_slice, true, conditions_assignment)?;
+        let first_assignments = perform_bus_assignment(inputs_response, &access, bus_slice, true, conditions_assignment)?;
         
         // Update the value of unnasigned fields
-        ComponentRepresentation::update_unassigned_inputs(self, bus_name, bus_slice.route());
+        ComponentRepresentation::update_unassigned_inputs(self, bus_name, first_assignments);
 
         Result::Ok(())
 
@@ -692,6 +692,7 @@ impl ComponentRepresentation {
             },
         };
 
+        let was_unassigned = single_bus.has_unassigned_fields();
         single_bus.assign_value_to_field(
             access.field_access.as_ref().unwrap(),
             access.remaining_access.as_ref().unwrap(),
@@ -702,8 +703,8 @@ impl ComponentRepresentation {
         
         
         // In case it is completely assigned update unassigned
-        if !single_bus.has_unassigned_fields(){
-            ComponentRepresentation::update_unassigned_inputs(self, bus_name, &[1]);
+        if was_unassigned && !single_bus.has_unassigned_fields(){
+            ComponentRepresentation::update_unassigned_inputs(self, bus_name, 1);
         }
 
         Result::Ok(())
@@ -868,14 +869,10 @@ impl ComponentRepresentation {
 
     // Auxiliar function to update the unassigned inputs
 
-    fn update_unassigned_inputs(component: &mut ComponentRepresentation, signal_name: &str, slice_route: &[usize]){
-        let mut dim_slice = 1;
-        for i in slice_route {
-            dim_slice *= *i;
-        }
+    fn update_unassigned_inputs(component: &mut ComponentRepresentation, signal_name: &str, first_assignments: usize){
         match component.unassigned_inputs.get_mut(signal_name){
             Some(left) => {
-                *left -= dim_slice;
+                *left -= first_assignments;
                 if *left == 0 {
                     component.unassigned_inputs.remove(signal_name);
                 }
diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 7f69bd9..9bd21ee 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1826,7 +1826,7 @@ fn perform_assign(
         reference_to_tags.is_init = true;
         
         // Perform the signal assignment
-        let signal_assignment_response = perform_signal_assignment(reference_to_signal_content, &accessing_information.before_signal, &r_slice.route(), &conditions_assignment);
+        let signal_assignment_response = perform_signal_assignment(reference_to_signal_content, &accessing_information.before_signal, &r_slice.route(), &conditions_assignment).map(|_| ());
         
         treat_result_with_memory_error_void(
             signal_assignment_response,
@@ -2518,7 +2518,7 @@ fn perform_assign(
                 perform_tag_propagation_bus(tag_data, &new_tags, MemorySlice::get_number_of_cells(&assigned_bus_slice));
 
                 // We assign the original buses
-                let bus_assignment_response = perform_bus_assignment(bus_slice, &accessing_information.array_access, assigned_bus_slice, false, &conditions_assignment);
+                let bus_assignment_response = perform_bus_assignment(bus_slice, &accessing_information.array_access, assigned_bus_slice, false, &conditions_assignment).map(|_| ());
                 treat_result_with_memory_error_void(
                     bus_assignment_response,
                     meta,
-- 
2.43.0

