From 2e0198bc6a0da3e1f81a552b674d54a078ba8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:25 +0000
Subject: [PATCH 01/40] fix: read &=, |=, ^=, <<= and >>= assignments instead
 of dropping the statement

---
 crates/decy-parser/src/extract/statements.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 331ee8d..f4cc355 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -454,7 +454,7 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=).
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
@@ -491,6 +491,11 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                         "*=" => Some(BinaryOperator::Multiply),
                         "/=" => Some(BinaryOperator::Divide),
                         "%=" => Some(BinaryOperator::Modulo),
+                        "&=" => Some(BinaryOperator::BitwiseAnd),
+                        "|=" => Some(BinaryOperator::BitwiseOr),
+                        "^=" => Some(BinaryOperator::BitwiseXor),
+                        "<<=" => Some(BinaryOperator::LeftShift),
+                        ">>=" => Some(BinaryOperator::RightShift),
                         _ => None,
                     };
                     if operator.is_some() {
-- 
2.43.0


From 41a1b341167e4b191cde06dd08b05999bbc07c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:25 +0000
Subject: [PATCH 02/40] fix: parenthesise the cast of a chained comparison
 operand (`(x) as i32 < y` is not valid Rust)

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 6e41df2..537fb66 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -633,14 +633,14 @@ impl CodeGenerator {
 
         if left_is_bool || right_is_bool {
             let left_code = if left_is_bool {
-                format!("({}) as i32", left_str)
+                format!("(({}) as i32)", left_str)
             } else if left_is_unsigned {
                 format!("({} as i32)", left_str)
             } else {
                 left_str.to_string()
             };
             let right_code = if right_is_bool {
-                format!("({}) as i32", right_str)
+                format!("(({}) as i32)", right_str)
             } else if right_is_unsigned {
                 format!("({} as i32)", right_str)
             } else {
-- 
2.43.0


From 348469793668eb835e3036c54fe254a40d35838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:25 +0000
Subject: [PATCH 03/40] fix: a compound assignment through a pointer reads the
 pointed-to value, not the pointer

---
 crates/decy-hir/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 7a345ef..e235c32 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -1419,11 +1419,18 @@ impl HirStatement {
             // These become DerefAssignment with a BinaryOp value
             Statement::DerefCompoundAssignment { target, op, value } => {
                 let hir_target = HirExpression::from_ast_expression(target);
+                // `*p op= v` reads through the pointer; fields and elements are lvalues themselves
+                let current = match &hir_target {
+                    HirExpression::PointerFieldAccess { .. }
+                    | HirExpression::FieldAccess { .. }
+                    | HirExpression::ArrayIndex { .. } => hir_target.clone(),
+                    _ => HirExpression::Dereference(Box::new(hir_target.clone())),
+                };
                 HirStatement::DerefAssignment {
-                    target: hir_target.clone(),
+                    target: hir_target,
                     value: HirExpression::BinaryOp {
                         op: convert_binary_operator(*op),
-                        left: Box::new(hir_target),
+                        left: Box::new(current),
                         right: Box::new(HirExpression::from_ast_expression(value)),
                     },
                 }
-- 
2.43.0


From 44f7e73438f6e59be60392f5f6bb3b8bf1b4fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 04/40] fix: keep the condition of an else-if branch

---
 crates/decy-parser/src/extract/statements.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index f4cc355..7372659 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -676,13 +676,8 @@ pub(crate) extern "C" fn visit_if_children(
                 }
                 if_data.else_block = Some(else_stmts);
             } else if kind == CXCursor_IfStmt {
-                // else if chain
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
+                // else if chain: the nested if, with its own condition, is the else block
+                if_data.else_block = extract_if_stmt(cursor).map(|nested| vec![nested]);
             } else {
                 // Single statement in else: else return 0;
                 if let Some(stmt) = extract_single_statement(cursor) {
-- 
2.43.0


From cc0e4511f258c56860575f7a60d52edfbf03e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 05/40] fix: keep the body of a while loop written without
 braces

---
 crates/decy-parser/src/extract/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 7372659..2b9658f 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1004,6 +1004,9 @@ pub(crate) extern "C" fn visit_while_children(
                 unsafe {
                     clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
                 }
+            } else if let Some(stmt) = extract_single_statement(cursor) {
+                // Single statement without braces: while (cond) i++;
+                while_data.body.push(stmt);
             }
             while_data.child_index += 1;
             CXChildVisit_Continue
-- 
2.43.0


From ae19803564bbd211baa1b607dae1144ce5f8a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 06/40] fix: a conditional, cast, element or field used as a
 loop or if condition is kept whole

---
 crates/decy-parser/src/extract/expressions.rs |  6 ++++++
 crates/decy-parser/src/extract/statements.rs  | 20 +++----------------
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 2df955f..92058d9 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -108,6 +108,12 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         CXCursor_DeclRefExpr => extract_variable_ref(cursor),
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
+        // A conditional or a cast is itself the expression: taking the last of its children
+        // would lose the condition or the conversion
+        116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
+        117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
+        CXCursor_ArraySubscriptExpr => extract_array_index(cursor),
+        CXCursor_MemberRefExpr => extract_field_access(cursor),
         _ => {
             let mut expr: Option<Expression> = None;
             let expr_ptr = &mut expr as *mut Option<Expression>;
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 2b9658f..3462714 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -635,15 +635,8 @@ pub(crate) extern "C" fn visit_if_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    // For other expression types, try visiting children
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
+                // For other expression types, extract the expression itself
+                _ => extract_expression_from_cursor(cursor),
             };
             if_data.child_index += 1;
             CXChildVisit_Continue
@@ -985,14 +978,7 @@ pub(crate) extern "C" fn visit_while_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
-                _ => {
-                    let mut cond_expr: Option<Expression> = None;
-                    let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-                    unsafe {
-                        clang_visitChildren(cursor, visit_expression, expr_ptr as CXClientData);
-                    }
-                    cond_expr
-                }
+                _ => extract_expression_from_cursor(cursor),
             };
             while_data.child_index += 1;
             CXChildVisit_Continue
-- 
2.43.0


From 43717cd16046c0e9fc36dd7eb29867911296c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 07/40] fix: keep the declaration of a for loop that has
 neither condition nor increment

---
 crates/decy-parser/src/extract/statements.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 3462714..8bb1ba5 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -841,8 +841,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
             let child = &pre_body[0];
             if child.kind == CXCursor_DeclStmt {
                 // DeclStmt - always init
-                let mut init_stmts = Vec::new();
-                let ptr = &mut init_stmts as *mut Vec<Statement>;
+                let ptr = &mut init as *mut Vec<Statement>;
                 unsafe {
                     clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
                 }
-- 
2.43.0


From 5008c3aac5a841a0dcfc45c87505394bda5007fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:11 +0000
Subject: [PATCH 08/40] fix: keep compound assignments and calls in for
 increments, unbraced bodies and case bodies

---
 crates/decy-parser/src/extract/expressions.rs | 7 +++++--
 crates/decy-parser/src/extract/statements.rs  | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 92058d9..918b8a0 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,8 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
+    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
+    extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -84,6 +85,7 @@ pub(crate) fn extract_statement(cursor: CXCursor) -> Option<Statement> {
         CXCursor_ContinueStmt => Some(Statement::Continue),
         CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
         CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_stmt(cursor),
         CXCursor_CallExpr => {
             // Function call as statement
             if let Some(Expression::FunctionCall { function, arguments }) =
@@ -136,6 +138,7 @@ pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
         CXCursor_SwitchStmt => extract_switch_stmt(cursor),
         CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
         CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_stmt(cursor),
         CXCursor_CallExpr => {
             if let Some(Expression::FunctionCall { function, arguments }) =
                 extract_function_call(cursor)
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 8bb1ba5..b62690a 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -802,6 +802,9 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
             if let Some(stmt) = extract_inc_dec_stmt(cursor) {
                 stmts.push(stmt);
             }
+        } else if let Some(stmt) = extract_statement(cursor) {
+            // Compound assignments (i += 2) and calls (advance(&it))
+            stmts.push(stmt);
         }
         stmts
     }
@@ -858,7 +861,9 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
                     // Ambiguous - default to condition
                     condition = extract_binary_op(child.cursor);
                 }
-            } else if child.kind == CXCursor_UnaryOperator {
+            } else if child.kind == CXCursor_UnaryOperator
+                || child.kind == CXCursor_CompoundAssignOperator
+            {
                 increment = extract_increment_stmts(child.cursor);
             } else {
                 // Treat as condition by default
-- 
2.43.0


From 10f62e5bc4de40969ca39f0f69c3bfbde08d228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:40 +0000
Subject: [PATCH 09/40] fix: keep every assignment of a comma expression used
 as statement or for initialiser

---
 crates/decy-parser/src/extract/mod.rs        |  6 +++++-
 crates/decy-parser/src/extract/statements.rs | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index a616ccb..262e7e6 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -22,7 +22,7 @@ use clang_sys::*;
 use std::ffi::CStr;
 use std::ptr;
 
-use self::expressions::extract_statement;
+use self::expressions::{extract_binary_operator, extract_statement};
 use self::statements::{
     extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
     extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
@@ -294,6 +294,10 @@ pub(crate) extern "C" fn visit_statement(
             CXChildVisit_Continue
         }
         CXCursor_BinaryOperator => {
+            // A comma expression is a sequence of statements (i = 0, j = 1)
+            if let Some(BinaryOperator::Comma) = extract_binary_operator(cursor) {
+                return CXChildVisit_Recurse;
+            }
             // Could be an assignment statement (x = 42)
             if let Some(stmt) = extract_assignment_stmt(cursor) {
                 statements.push(stmt);
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index b62690a..ab51f8c 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -743,6 +743,14 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
         }
     }
 
+    // Helper to check if a BinaryOperator is an assignment, or several joined by commas
+    fn is_init_op(cursor: CXCursor) -> bool {
+        matches!(
+            extract_binary_operator(cursor),
+            Some(BinaryOperator::Assign | BinaryOperator::Comma)
+        )
+    }
+
     // Helper to check if a BinaryOperator is a comparison/logical (condition)
     fn is_condition_op(cursor: CXCursor) -> bool {
         if let Some(op) = extract_binary_operator(cursor) {
@@ -878,7 +886,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
 
             // Check if first child is init (DeclStmt or assignment)
             let first_is_init = child0.kind == CXCursor_DeclStmt
-                || (child0.kind == CXCursor_BinaryOperator && is_assignment_op(child0.cursor));
+                || (child0.kind == CXCursor_BinaryOperator && is_init_op(child0.cursor));
 
             if first_is_init {
                 // child0 = init, child1 = condition (skip increment)
@@ -888,8 +896,8 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
                     unsafe {
                         clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
                     }
-                } else if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
+                } else {
+                    init = extract_increment_stmts(child0.cursor);
                 }
                 condition = extract_expression_from_cursor(child1.cursor);
             } else {
@@ -910,10 +918,8 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
                 unsafe {
                     clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
                 }
-            } else if child0.kind == CXCursor_BinaryOperator {
-                if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
-                }
+            } else {
+                init = extract_increment_stmts(child0.cursor);
             }
 
             // Condition
-- 
2.43.0


From b60ae2d543a4a59f654d774af976bab38b2d259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:29 +0000
Subject: [PATCH 10/40] fix: keep every statement and label of a switch body,
 and fall through as C does

---
 crates/decy-parser/src/extract/statements.rs | 226 ++++++-------------
 1 file changed, 66 insertions(+), 160 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index ab51f8c..965ef40 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1018,194 +1018,100 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
     // Switch has 2 children:
     // 1. Condition expression
     // 2. Body (compound statement containing case/default labels)
+    let children = child_cursors(cursor);
+    let condition = try_extract_expression(*children.first()?)?;
 
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
-    let mut switch_data =
-        SwitchData { condition: None, cases: Vec::new(), default_case: None, child_index: 0 };
-
-    let data_ptr = &mut switch_data as *mut SwitchData;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_switch_children, data_ptr as CXClientData);
+    let mut labels = SwitchLabels::default();
+    for child in &children[1..] {
+        extract_switch_body(*child, &mut labels);
     }
 
-    Some(Statement::Switch {
-        condition: switch_data.condition?,
-        cases: switch_data.cases,
-        default_case: switch_data.default_case,
-    })
+    Some(Statement::Switch { condition, cases: labels.cases, default_case: labels.default_case })
 }
 
-/// Visitor callback for switch statement children (condition and body).
-pub(crate) extern "C" fn visit_switch_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
-    let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
+/// Labels of a switch body, and which of them the next statement belongs to.
+#[derive(Default)]
+struct SwitchLabels {
+    cases: Vec<SwitchCase>,
+    default_case: Option<Vec<Statement>>,
+    /// Index of the first case that control can still flow out of
+    first_open: usize,
+    default_open: bool,
+}
 
-    match switch_data.child_index {
-        0 => {
-            // First child: condition expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                switch_data.condition = Some(expr);
-            }
-            switch_data.child_index += 1;
-            CXChildVisit_Continue
+impl SwitchLabels {
+    /// Append statements to every label that reaches them (a label that does not
+    /// end in a jump falls through to the statements of the next one).
+    fn push(&mut self, statements: &[Statement]) {
+        for case in &mut self.cases[self.first_open..] {
+            case.body.extend_from_slice(statements);
         }
-        1 => {
-            // Second child: compound statement body containing cases
-            // Need to visit this recursively to find case/default labels
-            if kind == CXCursor_CompoundStmt {
-                unsafe {
-                    clang_visitChildren(cursor, visit_switch_body, client_data);
-                }
-            }
-            switch_data.child_index += 1;
-            CXChildVisit_Continue
+        if let (true, Some(body)) = (self.default_open, &mut self.default_case) {
+            body.extend_from_slice(statements);
+        }
+        if let Some(Statement::Break | Statement::Continue | Statement::Return(_)) =
+            statements.last()
+        {
+            self.first_open = self.cases.len();
+            self.default_open = false;
         }
-        _ => CXChildVisit_Continue,
     }
 }
 
-/// Visitor callback for switch body to extract cases and default.
-pub(crate) extern "C" fn visit_switch_body(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
-    let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
+/// Extract one part of a switch body: a label with its statement, a block, or a statement.
+fn extract_switch_body(cursor: CXCursor, labels: &mut SwitchLabels) {
     let kind = unsafe { clang_getCursorKind(cursor) };
-
     match kind {
         CXCursor_CaseStmt => {
-            // Extract case statement
-            if let Some(case) = extract_case_stmt(cursor) {
-                switch_data.cases.push(case);
+            // Case statement has 2 children: the value, and the statement after the label
+            // (which is another label in `case 1: case 2: ...`)
+            let children = child_cursors(cursor);
+            let value = children.first().and_then(|c| try_extract_expression(*c));
+            labels.cases.push(SwitchCase { value, body: Vec::new() });
+            for child in children.iter().skip(1) {
+                extract_switch_body(*child, labels);
             }
-            CXChildVisit_Continue
         }
         CXCursor_DefaultStmt => {
-            // Extract default statement
-            if let Some(body) = extract_default_stmt(cursor) {
-                switch_data.default_case = Some(body);
+            labels.default_case = Some(Vec::new());
+            labels.default_open = true;
+            for child in child_cursors(cursor) {
+                extract_switch_body(child, labels);
             }
-            CXChildVisit_Continue
         }
-        _ => CXChildVisit_Continue,
-    }
-}
-
-/// Extract a case statement from a cursor.
-pub(crate) fn extract_case_stmt(cursor: CXCursor) -> Option<SwitchCase> {
-    // Case statement has 2 children:
-    // 1. Case value expression
-    // 2. Body (statements following the case label)
-
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
-    }
-
-    let mut case_data = CaseData { value: None, body: Vec::new(), child_index: 0 };
-
-    let data_ptr = &mut case_data as *mut CaseData;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_case_children, data_ptr as CXClientData);
-    }
-
-    Some(SwitchCase { value: case_data.value, body: case_data.body })
-}
-
-/// Visitor for case statement children.
-pub(crate) extern "C" fn visit_case_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
-    }
-
-    let case_data = unsafe { &mut *(client_data as *mut CaseData) };
-    let _kind = unsafe { clang_getCursorKind(cursor) };
-
-    match case_data.child_index {
-        0 => {
-            // First child: case value expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                case_data.value = Some(expr);
+        CXCursor_CompoundStmt => {
+            for child in child_cursors(cursor) {
+                extract_switch_body(child, labels);
             }
-            case_data.child_index += 1;
-            CXChildVisit_Continue
         }
         _ => {
-            // Subsequent children: statements in case body
-            // Extract statements until we hit another case or default
-            if let Some(stmt) = extract_statement(cursor) {
-                case_data.body.push(stmt);
+            let mut statements: Vec<Statement> = Vec::new();
+            let data = &mut statements as *mut Vec<Statement> as CXClientData;
+            if visit_statement(cursor, cursor, data) == CXChildVisit_Recurse {
+                unsafe {
+                    clang_visitChildren(cursor, visit_statement, data);
+                }
             }
-            // Continue recursing to find all statements in the case body
-            CXChildVisit_Recurse
+            labels.push(&statements);
         }
     }
 }
 
-/// Extract a default statement from a cursor.
-pub(crate) fn extract_default_stmt(cursor: CXCursor) -> Option<Vec<Statement>> {
-    // Default statement has body statements as children
-    let mut body: Vec<Statement> = Vec::new();
-    let body_ptr = &mut body as *mut Vec<Statement>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_default_children, body_ptr as CXClientData);
+/// Collect the direct children of a cursor.
+fn child_cursors(cursor: CXCursor) -> Vec<CXCursor> {
+    extern "C" fn collect(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
     }
 
-    Some(body)
-}
-
-/// Visitor for default statement children.
-pub(crate) extern "C" fn visit_default_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    let body = unsafe { &mut *(client_data as *mut Vec<Statement>) };
-
-    // Extract all statements in default body
-    if let Some(stmt) = extract_statement(cursor) {
-        body.push(stmt);
+    let mut children: Vec<CXCursor> = Vec::new();
+    unsafe {
+        clang_visitChildren(cursor, collect, &mut children as *mut Vec<CXCursor> as CXClientData);
     }
-
-    CXChildVisit_Continue
+    children
 }
-- 
2.43.0


From 590f213f42c773f50f0c62fe1d0f8a6bf3e6420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:54 +0000
Subject: [PATCH 11/40] fix: keep arithmetic casts of operands; (*p)++ changes
 the pointed-to value

---
 crates/decy-parser/src/extract/expressions.rs | 13 +++++++++++++
 crates/decy-parser/src/extract/statements.rs  | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 918b8a0..13a4a7a 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -711,6 +711,19 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        117 => {
+            // CXCursor_CStyleCastExpr: an arithmetic cast converts the operand; a pointer cast
+            // only relabels it (e.g. (int*)malloc(size)), so its operand stands for it
+            match extract_cast(cursor) {
+                Some(Expression::Cast { target_type: Type::Pointer(_), .. }) | None => {
+                    CXChildVisit_Recurse
+                }
+                Some(expr) => {
+                    operands.push(expr);
+                    CXChildVisit_Continue
+                }
+            }
+        }
         _ => CXChildVisit_Recurse,
     }
 }
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 965ef40..43955f4 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -316,6 +316,14 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
             }
         }
 
+        // Check for a dereferenced pointer ((*p)++)
+        if kind == CXCursor_UnaryOperator {
+            if let Some(expr @ Expression::Dereference(_)) = extract_unary_op(cursor) {
+                data.0 = Some(expr);
+                return CXChildVisit_Break;
+            }
+        }
+
         // Fall back to simple variable reference
         if kind == CXCursor_DeclRefExpr {
             let name_cxstring = unsafe { clang_getCursorSpelling(cursor) };
@@ -428,6 +436,16 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
 
                 return Some(Statement::ArrayIndexAssignment { array, index, value });
             }
+            // (*p)++ changes the pointed-to value: *p += 1
+            Expression::Dereference(target) => {
+                let op =
+                    if delta > 0 { BinaryOperator::Add } else { BinaryOperator::Subtract };
+                return Some(Statement::DerefCompoundAssignment {
+                    target: *target,
+                    op,
+                    value: Expression::IntLiteral(1),
+                });
+            }
             _ => {} // Fall through to simple variable handling
         }
     }
-- 
2.43.0


From e156a8b6ffca4d5c17c79524c0075ad3bb9bbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:00 +0000
Subject: [PATCH 12/40] fix: an operand that is itself a compound expression
 keeps its grouping in the emitted text

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 23 +++++++--
 crates/decy-codegen/src/expr_gen/calls.rs     | 26 +++++++---
 crates/decy-codegen/src/expr_gen/misc.rs      | 49 ++++++++++++++++---
 crates/decy-codegen/src/expr_gen/mod.rs       | 10 +++-
 crates/decy-codegen/src/stmt_gen.rs           | 11 +++--
 5 files changed, 97 insertions(+), 22 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 537fb66..7e34bd0 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -56,6 +56,9 @@ impl CodeGenerator {
 
         let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) {
             format!("({})", left_code)
+        } else if matches!(op, BinaryOperator::LessThan | BinaryOperator::LeftShift) {
+            // `x as i32 < y` does not parse: the `<` would open generic arguments
+            Self::parenthesize_operand(left, left_code.clone())
         } else {
             left_code.clone()
         };
@@ -259,7 +262,10 @@ impl CodeGenerator {
         if let HirExpression::IntLiteral(0) = right {
             if let Some(left_type) = ctx.infer_expression_type(left) {
                 if matches!(left_type, HirType::Pointer(_)) {
-                    let left_code = self.generate_expression_with_context(left, ctx);
+                    let left_code = Self::parenthesize_operand(
+                        left,
+                        self.generate_expression_with_context(left, ctx),
+                    );
                     let op_str = Self::binary_operator_to_string(op);
                     return Some(format!("{} {} std::ptr::null_mut()", left_code, op_str));
                 }
@@ -268,7 +274,10 @@ impl CodeGenerator {
         if let HirExpression::IntLiteral(0) = left {
             if let Some(right_type) = ctx.infer_expression_type(right) {
                 if matches!(right_type, HirType::Pointer(_)) {
-                    let right_code = self.generate_expression_with_context(right, ctx);
+                    let right_code = Self::parenthesize_operand(
+                        right,
+                        self.generate_expression_with_context(right, ctx),
+                    );
                     let op_str = Self::binary_operator_to_string(op);
                     return Some(format!("std::ptr::null_mut() {} {}", op_str, right_code));
                 }
@@ -365,7 +374,10 @@ impl CodeGenerator {
         if let HirExpression::CharLiteral(c) = right {
             let left_type = ctx.infer_expression_type(left);
             if matches!(left_type, Some(HirType::Int)) {
-                let left_code = self.generate_expression_with_context(left, ctx);
+                let left_code = Self::parenthesize_operand(
+                    left,
+                    self.generate_expression_with_context(left, ctx),
+                );
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({} {} {}i32)", left_code, op_str, *c as i32));
             }
@@ -373,7 +385,10 @@ impl CodeGenerator {
         if let HirExpression::CharLiteral(c) = left {
             let right_type = ctx.infer_expression_type(right);
             if matches!(right_type, Some(HirType::Int)) {
-                let right_code = self.generate_expression_with_context(right, ctx);
+                let right_code = Self::parenthesize_operand(
+                    right,
+                    self.generate_expression_with_context(right, ctx),
+                );
                 let op_str = Self::binary_operator_to_string(op);
                 return Some(format!("({}i32 {} {})", *c as i32, op_str, right_code));
             }
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 221aefd..bb5f052 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -27,7 +27,10 @@ impl CodeGenerator {
             }
         }
 
-        let inner_code = self.generate_expression_with_context(inner, ctx);
+        let inner_code = Self::parenthesize_operand(
+            inner,
+            self.generate_expression_with_context(inner, ctx),
+        );
 
         let needs_unsafe = match inner {
             HirExpression::Variable(var_name) => ctx.is_pointer(var_name),
@@ -65,7 +68,9 @@ impl CodeGenerator {
                 if matches!(operand_type, Some(HirType::Pointer(_))) {
                     format!(
                         "{{ let __tmp = {}; {} = {}.wrapping_add(1); __tmp }}",
-                        operand_code, operand_code, operand_code
+                        operand_code,
+                        operand_code,
+                        Self::parenthesize_receiver(operand, operand_code.clone())
                     )
                 } else {
                     format!("{{ let __tmp = {}; {} += 1; __tmp }}", operand_code, operand_code)
@@ -77,7 +82,9 @@ impl CodeGenerator {
                 if matches!(operand_type, Some(HirType::Pointer(_))) {
                     format!(
                         "{{ let __tmp = {}; {} = {}.wrapping_sub(1); __tmp }}",
-                        operand_code, operand_code, operand_code
+                        operand_code,
+                        operand_code,
+                        Self::parenthesize_receiver(operand, operand_code.clone())
                     )
                 } else {
                     format!("{{ let __tmp = {}; {} -= 1; __tmp }}", operand_code, operand_code)
@@ -89,7 +96,9 @@ impl CodeGenerator {
                 if matches!(operand_type, Some(HirType::Pointer(_))) {
                     format!(
                         "{{ {} = {}.wrapping_add(1); {} }}",
-                        operand_code, operand_code, operand_code
+                        operand_code,
+                        Self::parenthesize_receiver(operand, operand_code.clone()),
+                        operand_code
                     )
                 } else {
                     format!("{{ {} += 1; {} }}", operand_code, operand_code)
@@ -101,7 +110,9 @@ impl CodeGenerator {
                 if matches!(operand_type, Some(HirType::Pointer(_))) {
                     format!(
                         "{{ {} = {}.wrapping_sub(1); {} }}",
-                        operand_code, operand_code, operand_code
+                        operand_code,
+                        Self::parenthesize_receiver(operand, operand_code.clone()),
+                        operand_code
                     )
                 } else {
                     format!("{{ {} -= 1; {} }}", operand_code, operand_code)
@@ -117,7 +128,10 @@ impl CodeGenerator {
             }
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
-                let operand_code = self.generate_expression_with_context(operand, ctx);
+                let operand_code = Self::parenthesize_operand(
+                    operand,
+                    self.generate_expression_with_context(operand, ctx),
+                );
                 format!("{}{}", op_str, operand_code)
             }
         }
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 04bf3b8..6a5d65e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -18,7 +18,10 @@ impl CodeGenerator {
                 format!("{}.{}", self.generate_expression_with_context(pointer, ctx), escaped_field)
             }
             _ => {
-                let ptr_code = self.generate_expression_with_context(pointer, ctx);
+                let ptr_code = Self::parenthesize_operand(
+                    pointer,
+                    self.generate_expression_with_context(pointer, ctx),
+                );
                 if let HirExpression::Variable(var_name) = pointer {
                     if ctx.is_pointer(var_name) {
                         return Self::unsafe_block(
@@ -57,7 +60,7 @@ impl CodeGenerator {
                 self.generate_expression_with_context(array, ctx)
             }
         } else {
-            self.generate_expression_with_context(array, ctx)
+            Self::parenthesize_receiver(array, self.generate_expression_with_context(array, ctx))
         };
         let index_code = self.generate_expression_with_context(index, ctx);
 
@@ -359,7 +362,8 @@ impl CodeGenerator {
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
-                "{{ let __tmp = {operand}; {operand} = {operand}.wrapping_add(1); __tmp }}",
+                "{{ let __tmp = {operand}; {operand} = {receiver}.wrapping_add(1); __tmp }}",
+                receiver = Self::parenthesize_receiver(operand, operand_code.clone()),
                 operand = operand_code
             )
         } else {
@@ -387,7 +391,8 @@ impl CodeGenerator {
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
-                "{{ {operand} = {operand}.wrapping_add(1); {operand} }}",
+                "{{ {operand} = {receiver}.wrapping_add(1); {operand} }}",
+                receiver = Self::parenthesize_receiver(operand, operand_code.clone()),
                 operand = operand_code
             )
         } else {
@@ -415,7 +420,8 @@ impl CodeGenerator {
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
-                "{{ let __tmp = {operand}; {operand} = {operand}.wrapping_sub(1); __tmp }}",
+                "{{ let __tmp = {operand}; {operand} = {receiver}.wrapping_sub(1); __tmp }}",
+                receiver = Self::parenthesize_receiver(operand, operand_code.clone()),
                 operand = operand_code
             )
         } else {
@@ -443,7 +449,8 @@ impl CodeGenerator {
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
-                "{{ {operand} = {operand}.wrapping_sub(1); {operand} }}",
+                "{{ {operand} = {receiver}.wrapping_sub(1); {operand} }}",
+                receiver = Self::parenthesize_receiver(operand, operand_code.clone()),
                 operand = operand_code
             )
         } else {
@@ -472,6 +479,36 @@ impl CodeGenerator {
         format!("if {} {{ {} }} else {{ {} }}", cond_bool, then_code, else_code)
     }
 
+    /// Text of an operand next to an operator that binds tighter than the operand's own.
+    pub(crate) fn parenthesize_operand(expr: &HirExpression, code: String) -> String {
+        let binds_loosely = match expr {
+            HirExpression::BinaryOp { .. }
+            | HirExpression::Cast { .. }
+            | HirExpression::Sizeof { .. }
+            | HirExpression::StringMethodCall { .. } => true,
+            HirExpression::FunctionCall { function, .. } => function == "strlen",
+            // `*s` of a string is emitted as `s.as_bytes()[0] as i32`
+            HirExpression::Dereference(inner) => matches!(**inner, HirExpression::Variable(_)),
+            _ => false,
+        };
+        if binds_loosely {
+            format!("({})", code)
+        } else {
+            code
+        }
+    }
+
+    /// Text of an operand that is followed by a method call, field access or index.
+    pub(crate) fn parenthesize_receiver(expr: &HirExpression, code: String) -> String {
+        match expr {
+            HirExpression::Dereference(_)
+            | HirExpression::AddressOf(_)
+            | HirExpression::UnaryOp { .. }
+            | HirExpression::Ternary { .. } => format!("({})", code),
+            _ => Self::parenthesize_operand(expr, code),
+        }
+    }
+
     /// Convert unary operator to string.
     pub(crate) fn unary_operator_to_string(op: &decy_hir::UnaryOperator) -> &'static str {
         use decy_hir::UnaryOperator;
diff --git a/crates/decy-codegen/src/expr_gen/mod.rs b/crates/decy-codegen/src/expr_gen/mod.rs
index f9d5618..34aac02 100644
--- a/crates/decy-codegen/src/expr_gen/mod.rs
+++ b/crates/decy-codegen/src/expr_gen/mod.rs
@@ -62,7 +62,10 @@ impl CodeGenerator {
             HirExpression::FieldAccess { object, field } => {
                 format!(
                     "{}.{}",
-                    self.generate_expression_with_context(object, ctx),
+                    Self::parenthesize_receiver(
+                        object,
+                        self.generate_expression_with_context(object, ctx)
+                    ),
                     escape_rust_keyword(field)
                 )
             }
@@ -73,7 +76,10 @@ impl CodeGenerator {
                 self.gen_expr_array_index(array, index, ctx)
             }
             HirExpression::SliceIndex { slice, index, .. } => {
-                let slice_code = self.generate_expression_with_context(slice, ctx);
+                let slice_code = Self::parenthesize_receiver(
+                    slice,
+                    self.generate_expression_with_context(slice, ctx),
+                );
                 let index_code = self.generate_expression_with_context(index, ctx);
                 format!("{}[({}) as usize]", slice_code, index_code)
             }
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 718e1df..2ac2a41 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -374,7 +374,10 @@ impl CodeGenerator {
                 let expr_type = ctx.infer_expression_type(expr);
                 let needs_cast = matches!(expr_type, Some(HirType::Char));
                 if needs_cast {
-                    format!("std::process::exit({} as i32);", expr_code)
+                    format!(
+                        "std::process::exit({} as i32);",
+                        Self::parenthesize_operand(expr, expr_code)
+                    )
                 } else {
                     format!("std::process::exit({});", expr_code)
                 }
@@ -410,7 +413,7 @@ impl CodeGenerator {
             // DECY-238: Check if condition is a pointer type - use !ptr.is_null()
             if let Some(cond_type) = ctx.infer_expression_type(condition) {
                 if matches!(cond_type, HirType::Pointer(_)) {
-                    format!("!{}.is_null()", cond_code)
+                    format!("!{}.is_null()", Self::parenthesize_receiver(condition, cond_code))
                 } else {
                     format!("({}) != 0", cond_code)
                 }
@@ -475,7 +478,7 @@ impl CodeGenerator {
                 // DECY-238: Check if condition is a pointer type - use !ptr.is_null()
                 if let Some(cond_type) = ctx.infer_expression_type(condition) {
                     if matches!(cond_type, HirType::Pointer(_)) {
-                        format!("!{}.is_null()", cond_code)
+                        format!("!{}.is_null()", Self::parenthesize_receiver(condition, cond_code))
                     } else {
                         format!("({}) != 0", cond_code)
                     }
@@ -900,7 +903,7 @@ impl CodeGenerator {
                 self.generate_expression_with_context(array, ctx)
             }
         } else {
-            self.generate_expression_with_context(array, ctx)
+            Self::parenthesize_receiver(array, self.generate_expression_with_context(array, ctx))
         };
         let index_code = self.generate_expression_with_context(index, ctx);
         let mut value_code =
-- 
2.43.0


From 2f7454ae103d9f3c643e5f6576cc10329797272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:05 +0000
Subject: [PATCH 13/40] fix: run the body of a do-while loop once, then until
 its condition fails

---
 crates/decy-parser/src/extract/mod.rs        |  8 ++-
 crates/decy-parser/src/extract/statements.rs | 68 +++++++++++++++++---
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 262e7e6..7c14780 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,7 +24,8 @@ use std::ptr;
 
 use self::expressions::{extract_binary_operator, extract_statement};
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt,
     extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
     extract_while_stmt,
 };
@@ -325,6 +326,11 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_DoStmt => {
+            // Do-while loop
+            statements.extend(extract_do_stmt(cursor));
+            CXChildVisit_Continue
+        }
         CXCursor_SwitchStmt => {
             // Switch statement
             if let Some(stmt) = extract_switch_stmt(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 43955f4..1d235f9 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -669,9 +669,7 @@ pub(crate) extern "C" fn visit_if_children(
                 }
             } else {
                 // Single statement without braces: if (cond) return 1;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.then_block.push(stmt);
-                }
+                if_data.then_block.extend(extract_unbraced_body(cursor));
             }
             if_data.child_index += 1;
             CXChildVisit_Continue
@@ -691,8 +689,9 @@ pub(crate) extern "C" fn visit_if_children(
                 if_data.else_block = extract_if_stmt(cursor).map(|nested| vec![nested]);
             } else {
                 // Single statement in else: else return 0;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.else_block = Some(vec![stmt]);
+                let else_stmts = extract_unbraced_body(cursor);
+                if !else_stmts.is_empty() {
+                    if_data.else_block = Some(else_stmts);
                 }
             }
             if_data.child_index += 1;
@@ -852,9 +851,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
         }
     } else {
         // Single statement body - extract it
-        if let Some(stmt) = extract_single_statement(body_child.cursor) {
-            body.push(stmt);
-        }
+        body.extend(extract_unbraced_body(body_child.cursor));
     }
 
     // Process children before body
@@ -1018,9 +1015,9 @@ pub(crate) extern "C" fn visit_while_children(
                 unsafe {
                     clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
                 }
-            } else if let Some(stmt) = extract_single_statement(cursor) {
+            } else {
                 // Single statement without braces: while (cond) i++;
-                while_data.body.push(stmt);
+                while_data.body.extend(extract_unbraced_body(cursor));
             }
             while_data.child_index += 1;
             CXChildVisit_Continue
@@ -1115,6 +1112,57 @@ fn extract_switch_body(cursor: CXCursor, labels: &mut SwitchLabels) {
     }
 }
 
+/// Extract the statements of a body written without braces.
+fn extract_unbraced_body(cursor: CXCursor) -> Vec<Statement> {
+    if unsafe { clang_getCursorKind(cursor) } == CXCursor_DoStmt {
+        extract_do_stmt(cursor)
+    } else {
+        extract_single_statement(cursor).into_iter().collect()
+    }
+}
+
+/// Extract a do-while loop, whose body runs once before the condition is first evaluated:
+/// `do body while (cond)` is read as `int first = 1; while (first || cond) { first = 0; body }`.
+pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Vec<Statement> {
+    const FIRST: &str = "do_first_pass";
+
+    // Do has 2 children: body and condition
+    let children = child_cursors(cursor);
+    let (Some(body_cursor), Some(cond_cursor)) = (children.first(), children.get(1)) else {
+        return Vec::new();
+    };
+    let Some(condition) = extract_expression_from_cursor(*cond_cursor) else {
+        return Vec::new();
+    };
+
+    let mut body =
+        vec![Statement::Assignment { target: FIRST.to_string(), value: Expression::IntLiteral(0) }];
+    if unsafe { clang_getCursorKind(*body_cursor) } == CXCursor_CompoundStmt {
+        let body_ptr = &mut body as *mut Vec<Statement>;
+        unsafe {
+            clang_visitChildren(*body_cursor, visit_statement, body_ptr as CXClientData);
+        }
+    } else {
+        body.extend(extract_unbraced_body(*body_cursor));
+    }
+
+    vec![
+        Statement::VariableDeclaration {
+            name: FIRST.to_string(),
+            var_type: Type::Int,
+            initializer: Some(Expression::IntLiteral(1)),
+        },
+        Statement::While {
+            condition: Expression::BinaryOp {
+                op: BinaryOperator::LogicalOr,
+                left: Box::new(Expression::Variable(FIRST.to_string())),
+                right: Box::new(condition),
+            },
+            body,
+        },
+    ]
+}
+
 /// Collect the direct children of a cursor.
 fn child_cursors(cursor: CXCursor) -> Vec<CXCursor> {
     extern "C" fn collect(
-- 
2.43.0


From bb92400b93313db181cbe5786bfaecb51f105a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:05 +0000
Subject: [PATCH 14/40] fix: continue in a for loop runs the increment; a for
 condition that is not a comparison is tested against zero

---
 crates/decy-codegen/src/stmt_gen.rs | 56 +++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 2ac2a41..c5c7098 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -654,16 +654,21 @@ impl CodeGenerator {
 
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
-            code.push_str(&format!(
-                "while {} {{\n",
-                self.generate_expression_with_context(cond, ctx)
-            ));
+            let cond_code = self.generate_expression_with_context(cond, ctx);
+            let cond_str = if Self::is_boolean_expression(cond) {
+                cond_code
+            } else if matches!(ctx.infer_expression_type(cond), Some(HirType::Pointer(_))) {
+                format!("!{}.is_null()", Self::parenthesize_receiver(cond, cond_code))
+            } else {
+                format!("({}) != 0", cond_code)
+            };
+            code.push_str(&format!("while {} {{\n", cond_str));
         } else {
             code.push_str("loop {\n");
         }
 
-        // Generate loop body
-        for stmt in body {
+        // Generate loop body (a `continue` in C still runs the increment)
+        for stmt in &Self::increment_before_continue(body, increment) {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
@@ -690,6 +695,45 @@ impl CodeGenerator {
         code
     }
 
+    /// Body of a for loop with the increment repeated before each `continue` that belongs to it.
+    fn increment_before_continue(
+        body: &[HirStatement],
+        increment: &[HirStatement],
+    ) -> Vec<HirStatement> {
+        let rewrite = |block: &[HirStatement]| Self::increment_before_continue(block, increment);
+        let mut out = Vec::new();
+        for stmt in body {
+            match stmt {
+                HirStatement::Continue => {
+                    out.extend(increment.iter().cloned());
+                    out.push(HirStatement::Continue);
+                }
+                HirStatement::If { condition, then_block, else_block } => {
+                    out.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: rewrite(then_block),
+                        else_block: else_block.as_deref().map(rewrite),
+                    });
+                }
+                HirStatement::Switch { condition, cases, default_case } => {
+                    out.push(HirStatement::Switch {
+                        condition: condition.clone(),
+                        cases: cases
+                            .iter()
+                            .map(|case| decy_hir::SwitchCase {
+                                value: case.value.clone(),
+                                body: rewrite(&case.body),
+                            })
+                            .collect(),
+                        default_case: default_case.as_deref().map(rewrite),
+                    });
+                }
+                _ => out.push(stmt.clone()),
+            }
+        }
+        out
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
-- 
2.43.0


From 4078c216646aefd0c6e084a1ec5103e4d94e0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:05 +0000
Subject: [PATCH 15/40] fix: the first character of a string keeps its cast
 grouped

---
 crates/decy-codegen/src/expr_gen/calls.rs | 2 +-
 crates/decy-codegen/src/expr_gen/misc.rs  | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index bb5f052..6f97bc6 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -12,7 +12,7 @@ impl CodeGenerator {
 
             if let Some(var_type) = ctx.get_type(var_name) {
                 if matches!(var_type, HirType::StringReference | HirType::StringLiteral) {
-                    return format!("{}.as_bytes()[0] as i32", var_name);
+                    return format!("({}.as_bytes()[0] as i32)", var_name);
                 }
             }
         }
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 6a5d65e..5300a96 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -487,8 +487,6 @@ impl CodeGenerator {
             | HirExpression::Sizeof { .. }
             | HirExpression::StringMethodCall { .. } => true,
             HirExpression::FunctionCall { function, .. } => function == "strlen",
-            // `*s` of a string is emitted as `s.as_bytes()[0] as i32`
-            HirExpression::Dereference(inner) => matches!(**inner, HirExpression::Variable(_)),
             _ => false,
         };
         if binds_loosely {
-- 
2.43.0


From 577a1e29b58f5d6016bd90413c4182d033c18302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:17 +0000
Subject: [PATCH 16/40] fix: arguments of strlen, strcpy, calloc, realloc,
 fputc, fputs, atoi and wait-status macros keep their grouping

---
 crates/decy-codegen/src/expr_gen/calls.rs | 52 ++++++++++++++++++-----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 6f97bc6..a28b84e 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -228,7 +228,11 @@ impl CodeGenerator {
         ctx: &TypeContext,
     ) -> String {
         if arguments.len() == 1 {
-            format!("{}.len() as i32", self.generate_expression_with_context(&arguments[0], ctx))
+            let str_code = Self::parenthesize_receiver(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
+            format!("{}.len() as i32", str_code)
         } else {
             let args: Vec<String> = arguments
                 .iter()
@@ -248,6 +252,7 @@ impl CodeGenerator {
             let src_code = self.generate_expression_with_context(&arguments[1], ctx);
             let is_raw_pointer =
                 src_code.contains("(*") || src_code.contains(").") || src_code.contains("as *");
+            let src_code = Self::parenthesize_receiver(&arguments[1], src_code);
             if is_raw_pointer {
                 format!(
                     "unsafe {{ std::ffi::CStr::from_ptr({} as *const i8).to_str().unwrap_or(\"\").to_string() }}",
@@ -338,7 +343,10 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         if arguments.len() == 2 {
-            let count_code = self.generate_expression_with_context(&arguments[0], ctx);
+            let count_code = Self::parenthesize_operand(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
 
             if let Some(HirType::Vec(elem_type)) = target_type {
                 let default_val = Self::default_value_for_type(elem_type);
@@ -367,7 +375,10 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         if arguments.len() == 2 {
-            let ptr_code = self.generate_expression_with_context(&arguments[0], ctx);
+            let ptr_code = Self::parenthesize_operand(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
             let size_code = self.generate_expression_with_context(&arguments[1], ctx);
             let realloc_call = format!("realloc({} as *mut (), {})", ptr_code, size_code);
 
@@ -416,7 +427,10 @@ impl CodeGenerator {
 
     pub(crate) fn gen_call_fgetc(&self, arguments: &[HirExpression], ctx: &TypeContext) -> String {
         if arguments.len() == 1 {
-            let file_code = self.generate_expression_with_context(&arguments[0], ctx);
+            let file_code = Self::parenthesize_receiver(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
             format!(
                 "{{ use std::io::Read; let mut buf = [0u8; 1]; {}.read(&mut buf).map(|_| buf[0] as i32).unwrap_or(-1) }}",
                 file_code
@@ -428,8 +442,14 @@ impl CodeGenerator {
 
     pub(crate) fn gen_call_fputc(&self, arguments: &[HirExpression], ctx: &TypeContext) -> String {
         if arguments.len() == 2 {
-            let char_code = self.generate_expression_with_context(&arguments[0], ctx);
-            let file_code = self.generate_expression_with_context(&arguments[1], ctx);
+            let char_code = Self::parenthesize_operand(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
+            let file_code = Self::parenthesize_receiver(
+                &arguments[1],
+                self.generate_expression_with_context(&arguments[1], ctx),
+            );
             format!(
                 "{{ use std::io::Write; {}.write(&[{} as u8]).map(|_| {} as i32).unwrap_or(-1) }}",
                 file_code, char_code, char_code
@@ -535,8 +555,14 @@ impl CodeGenerator {
 
     pub(crate) fn gen_call_fputs(&self, arguments: &[HirExpression], ctx: &TypeContext) -> String {
         if arguments.len() == 2 {
-            let str_code = self.generate_expression_with_context(&arguments[0], ctx);
-            let file_code = self.generate_expression_with_context(&arguments[1], ctx);
+            let str_code = Self::parenthesize_receiver(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
+            let file_code = Self::parenthesize_receiver(
+                &arguments[1],
+                self.generate_expression_with_context(&arguments[1], ctx),
+            );
             format!(
                 "{{ use std::io::Write; {}.write_all({}.as_bytes()).map(|_| 0).unwrap_or(-1) }}",
                 file_code, str_code
@@ -579,7 +605,10 @@ impl CodeGenerator {
         fmt_fn: impl Fn(String) -> String,
     ) -> String {
         if !arguments.is_empty() {
-            let status_var = self.generate_expression_with_context(&arguments[0], ctx);
+            let status_var = Self::parenthesize_receiver(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
             fmt_fn(status_var)
         } else {
             "/* macro requires status arg */".to_string()
@@ -594,7 +623,10 @@ impl CodeGenerator {
         default: &str,
     ) -> String {
         if arguments.len() == 1 {
-            let s = self.generate_expression_with_context(&arguments[0], ctx);
+            let s = Self::parenthesize_receiver(
+                &arguments[0],
+                self.generate_expression_with_context(&arguments[0], ctx),
+            );
             format!("{}.parse::<{}>().unwrap_or({})", s, rust_type, default)
         } else {
             format!("{} /* parse requires 1 arg */", default)
-- 
2.43.0


From 181bc325a54cea6a4e1bfb537d8b2cad760c6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 17/40] fix: read integer literals in any base and with
 suffixes, all parts and escapes of string and character literals

---
 crates/decy-codegen/src/expr_gen/literals.rs  |  15 +++
 crates/decy-parser/src/extract/expressions.rs | 117 ++++++++++++++----
 2 files changed, 109 insertions(+), 23 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 7b106e9..f23d9b9 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -22,6 +22,19 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         let val_stripped = val.trim_end_matches(['f', 'F', 'l', 'L']);
+        // C allows `.5`, `2.` and `2.e3`; Rust wants digits on both sides of the point
+        let with_integer_part = if val_stripped.starts_with('.') {
+            format!("0{}", val_stripped)
+        } else {
+            val_stripped.to_string()
+        };
+        let with_fraction =
+            with_integer_part.replace(".e", ".0e").replace(".E", ".0E");
+        let val_stripped = if with_fraction.ends_with('.') {
+            format!("{}0", with_fraction)
+        } else {
+            with_fraction
+        };
         match target_type {
             Some(HirType::Float) => format!("{}f32", val_stripped),
             Some(HirType::Double) => format!("{}f64", val_stripped),
@@ -119,6 +132,8 @@ impl CodeGenerator {
         let val = c as u8;
         if val == 0 {
             "0u8".to_string()
+        } else if val == b'\'' || val == b'\\' {
+            format!("b'\\{}'", val as char)
         } else if val.is_ascii_graphic() || val == b' ' {
             format!("b'{}'", val as char)
         } else {
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 13a4a7a..15baa4a 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -352,7 +352,7 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
         clang_tokenize(tu, extent, &mut tokens, &mut num_tokens);
     }
 
-    let mut value = 0;
+    let mut value = None;
 
     if num_tokens > 0 {
         // SAFETY: Get the spelling of the first token
@@ -360,28 +360,39 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
             let token_cxstring = clang_getTokenSpelling(tu, *tokens);
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
-                value = token_str.parse().unwrap_or(0);
+                // A leading zero makes the literal octal (or hexadecimal), which `parse` does not know
+                if token_str == "0" || !token_str.starts_with('0') {
+                    value = token_str.parse().ok();
+                }
             }
             clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
         }
-    } else {
-        // DECY-195: Fallback for system headers where tokenization fails
-        // Use clang_Cursor_Evaluate to get the constant value
-        unsafe {
-            let eval_result = clang_Cursor_Evaluate(cursor);
-            if !eval_result.is_null() {
-                value = clang_EvalResult_getAsInt(eval_result);
-                clang_EvalResult_dispose(eval_result);
-            }
-        }
     }
 
+    // DECY-195: literals from system headers have no tokens; literals with a suffix or in
+    // another base than ten are not numbers for `parse`. Let clang compute their value.
+    let value = value.unwrap_or_else(|| evaluate_int_constant(cursor).unwrap_or(0));
+
     Some(Expression::IntLiteral(value))
 }
 
+/// Value of a constant integer expression as computed by clang.
+fn evaluate_int_constant(cursor: CXCursor) -> Option<i32> {
+    // SAFETY: the evaluation result is checked for null and disposed after use
+    unsafe {
+        let eval_result = clang_Cursor_Evaluate(cursor);
+        if eval_result.is_null() {
+            return None;
+        }
+        let value = clang_EvalResult_getAsInt(eval_result);
+        clang_EvalResult_dispose(eval_result);
+        Some(value)
+    }
+}
+
 /// DECY-207: Extract a floating-point literal expression.
 pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Get the extent (source range) of the cursor
@@ -456,15 +467,22 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     let mut value = String::new();
 
     if num_tokens > 0 {
-        // SAFETY: Get the spelling of the first token
+        // SAFETY: Get the spelling of each token: adjacent string literals form one string
         unsafe {
-            let token_cxstring = clang_getTokenSpelling(tu, *tokens);
-            let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-            if let Ok(token_str) = c_str.to_str() {
-                // Remove surrounding quotes from string literal
-                value = token_str.trim_matches('"').to_string();
+            for i in 0..num_tokens {
+                let token = *tokens.add(i as usize);
+                let token_cxstring = clang_getTokenSpelling(tu, token);
+                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
+                if let Ok(token_str) = c_str.to_str() {
+                    // Remove surrounding quotes from string literal
+                    if let Some(text) =
+                        token_str.strip_prefix('"').and_then(|t| t.strip_suffix('"'))
+                    {
+                        value.push_str(&rust_string_escapes(text));
+                    }
+                }
+                clang_disposeString(token_cxstring);
             }
-            clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
@@ -474,6 +492,58 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::StringLiteral(value))
 }
 
+/// Rewrites the escape sequences of a C string literal that Rust does not have.
+fn rust_string_escapes(text: &str) -> String {
+    let mut out = String::new();
+    let mut chars = text.chars().peekable();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            out.push(c);
+            continue;
+        }
+        let Some(kind) = chars.next() else {
+            out.push(c);
+            break;
+        };
+        let mut digits = String::new();
+        let radix = match kind {
+            'x' => 16,
+            '0'..='7' => {
+                digits.push(kind);
+                8
+            }
+            _ => 0,
+        };
+        if radix != 0 {
+            while let Some(d) = chars.peek().copied().filter(|d| d.is_digit(radix)) {
+                if radix == 8 && digits.len() == 3 {
+                    break;
+                }
+                digits.push(d);
+                chars.next();
+            }
+            match u8::from_str_radix(&digits, radix) {
+                Ok(0) => out.push_str("\\0"),
+                Ok(byte) => out.push_str(&format!("\\x{:02x}", byte)),
+                Err(_) => out.push_str(&format!("\\x{}", digits)),
+            }
+            continue;
+        }
+        match kind {
+            'a' => out.push_str("\\x07"),
+            'b' => out.push_str("\\x08"),
+            'f' => out.push_str("\\x0c"),
+            'v' => out.push_str("\\x0b"),
+            '?' => out.push('?'),
+            _ => {
+                out.push(c);
+                out.push(kind);
+            }
+        }
+    }
+    out
+}
+
 /// Extract a character literal expression.
 /// Handles plain characters ('a'), escape sequences ('\0', '\n', '\t', etc.)
 pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
@@ -504,7 +574,8 @@ pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
                 // Remove surrounding quotes from character literal
-                let inner = token_str.trim_matches('\'');
+                let inner = token_str.strip_prefix('\'').unwrap_or(token_str);
+                let inner = inner.strip_suffix('\'').unwrap_or(inner);
                 value = parse_char_literal(inner);
             }
             clang_disposeString(token_cxstring);
@@ -531,7 +602,6 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
     if first == '\\' {
         // Escape sequence
         match chars.next() {
-            Some('0') => 0, // null character
             Some('n') => b'\n' as i8,
             Some('t') => b'\t' as i8,
             Some('r') => b'\r' as i8,
@@ -542,10 +612,11 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
             Some('b') => 8,  // backspace
             Some('f') => 12, // form feed
             Some('v') => 11, // vertical tab
+            Some('?') => b'?' as i8,
             Some('x') => {
                 // Hex escape: \xNN
                 let hex: String = chars.take(2).collect();
-                i8::from_str_radix(&hex, 16).unwrap_or(0)
+                u8::from_str_radix(&hex, 16).unwrap_or(0) as i8
             }
             Some(c) if c.is_ascii_digit() => {
                 // Octal escape: \NNN
@@ -560,7 +631,7 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
                         }
                     }
                 }
-                i8::from_str_radix(&octal, 8).unwrap_or(0)
+                u8::from_str_radix(&octal, 8).unwrap_or(0) as i8
             }
             _ => first as i8,
         }
-- 
2.43.0


From f1d17de874abc3195684fd75de9ea59c9c550e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 18/40] fix: negating the smallest integer constant does not
 overflow the translator

---
 crates/decy-core/src/optimize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index efcca84..2579ac7 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -129,7 +129,7 @@ fn fold_constants_expr(expr: HirExpression) -> HirExpression {
         HirExpression::UnaryOp { op, operand } => {
             let operand = fold_constants_expr(*operand);
             if let (decy_hir::UnaryOperator::Minus, HirExpression::IntLiteral(v)) = (op, &operand) {
-                return HirExpression::IntLiteral(-v);
+                return HirExpression::IntLiteral(v.wrapping_neg());
             }
             HirExpression::UnaryOp { op, operand: Box::new(operand) }
         }
-- 
2.43.0


From 18d32f31814265940a199e05ee8d195f83cccc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 19/40] fix: a cached result depends on every header it was
 made from, and includes are looked up next to the file

---
 crates/decy-core/src/lib.rs | 42 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..183d064 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -428,8 +428,11 @@ impl TranspilationCache {
         // Compute dependency hashes
         let mut dependency_hashes = HashMap::new();
         for dep_path in &transpiled.dependencies {
-            if let Ok(dep_hash) = self.compute_hash(dep_path) {
-                dependency_hashes.insert(dep_path.clone(), dep_hash);
+            match self.compute_hash(dep_path) {
+                Ok(dep_hash) => {
+                    dependency_hashes.insert(dep_path.clone(), dep_hash);
+                }
+                Err(_) => return, // Changes of this dependency could not be noticed
             }
         }
 
@@ -456,11 +459,11 @@ impl TranspilationCache {
 
         // Check if any dependency has changed
         for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
-                    self.misses += 1;
-                    return None;
-                }
+            // A dependency that cannot be read any more has changed as well
+            let current_dep_hash = self.compute_hash(dep_path).ok();
+            if current_dep_hash.as_ref() != Some(cached_hash) {
+                self.misses += 1;
+                return None;
             }
         }
 
@@ -1615,8 +1618,8 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
     // Parse dependencies from #include directives (simplified: just detect presence)
     let dependencies = extract_dependencies(path, &c_code)?;
 
-    // Transpile the C code using the main pipeline
-    let rust_code = transpile(&c_code)?;
+    // Transpile the C code using the main pipeline (includes are relative to the file)
+    let rust_code = transpile_with_includes(&c_code, path.parent())?;
 
     // Extract function names from the generated Rust code
     let functions_exported = extract_function_names(&rust_code);
@@ -1638,28 +1641,35 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
 /// This is a simplified implementation that detects #include directives
 /// and resolves them relative to the source file's directory.
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
-    let mut dependencies = Vec::new();
     let source_dir = source_path
         .parent()
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
+    let mut dependencies = Vec::new();
+    collect_dependencies(source_dir, c_code, &mut dependencies);
+    Ok(dependencies)
+}
 
-    for line in c_code.lines() {
+/// Adds the headers `code` includes, directly or through other headers.
+fn collect_dependencies(dir: &Path, code: &str, dependencies: &mut Vec<PathBuf>) {
+    for line in code.lines() {
         let trimmed = line.trim();
         if trimmed.starts_with("#include") {
             // Extract header filename from #include "header.h" or #include <header.h>
             if let Some(start) = trimmed.find('"') {
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
-                    let header_path = source_dir.join(header_name);
-                    if header_path.exists() {
-                        dependencies.push(header_path);
+                    let header_path = dir.join(header_name);
+                    if header_path.exists() && !dependencies.contains(&header_path) {
+                        dependencies.push(header_path.clone());
+                        if let Ok(header_code) = std::fs::read_to_string(&header_path) {
+                            let header_dir = header_path.parent().unwrap_or(dir);
+                            collect_dependencies(header_dir, &header_code, dependencies);
+                        }
                     }
                 }
             }
         }
     }
-
-    Ok(dependencies)
 }
 
 /// Extract function names from generated Rust code.
-- 
2.43.0


From ddf7093e6c85efd9a416d17b8f9179b009defd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:53 +0000
Subject: [PATCH 20/40] fix: project translation writes cached results too,
 records dependencies, and fails on unreadable directories and colliding
 outputs

---
 crates/decy/src/main.rs | 63 +++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 924b38c..d4701f6 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -15,7 +15,7 @@ use oracle_integration::{OracleOptions, OracleTranspileResult};
 use anyhow::{Context, Result};
 use clap::{Parser, Subcommand};
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 /// Decy: C-to-Rust Transpiler with EXTREME Quality Standards
 #[derive(Parser, Debug)]
@@ -704,9 +704,12 @@ fn transpile_project(
     }
 
     // Find all C/C++/CUDA source files
-    let c_files: Vec<PathBuf> = WalkDir::new(&input_dir)
+    let entries = WalkDir::new(&input_dir)
+        .into_iter()
+        .collect::<std::result::Result<Vec<_>, _>>()
+        .with_context(|| format!("Failed to list {}", input_dir.display()))?;
+    let c_files: Vec<PathBuf> = entries
         .into_iter()
-        .filter_map(|e| e.ok())
         .filter(|e| {
             matches!(
                 e.path().extension().and_then(|s| s.to_str()),
@@ -770,6 +773,8 @@ fn transpile_project(
         pb
     };
 
+    let project = decy_core::ProjectContext::new();
+    let mut outputs = std::collections::HashSet::new();
     let start_time = Instant::now();
     let mut transpiled_count = 0;
     let mut cached_count = 0;
@@ -780,9 +785,21 @@ fn transpile_project(
         let relative_path = file_path.strip_prefix(&input_dir).unwrap_or(&file_path);
         pb.set_message(format!("Transpiling {}", relative_path.display()));
 
+        // Compute output path (preserve directory structure)
+        let output_path = output_dir.join(relative_path).with_extension("rs");
+        if !outputs.insert(output_path.clone()) {
+            anyhow::bail!(
+                "Two source files would both be written to {}",
+                output_path.display()
+            );
+        }
+
         // Check cache
         if use_cache {
-            if let Some(_cached) = cache.get(&file_path) {
+            if let Some(cached) = cache.get(&file_path) {
+                if !dry_run {
+                    write_output(&output_path, &cached.rust_code)?;
+                }
                 if verbose {
                     println!("✓ Cached: {}", relative_path.display());
                 }
@@ -793,11 +810,10 @@ fn transpile_project(
             }
         }
 
-        // Read C code
-        let c_code = fs::read_to_string(&file_path)
-            .with_context(|| format!("Failed to read {}", file_path.display()))?;
-
         if dry_run {
+            fs::read_to_string(&file_path)
+                .with_context(|| format!("Failed to read {}", file_path.display()))?;
+
             // Dry run mode - always show what would be done (that's the point of dry-run!)
             if !quiet {
                 println!("Would transpile: {}", relative_path.display());
@@ -808,22 +824,13 @@ fn transpile_project(
         }
 
         // Transpile
-        let rust_code = decy_core::transpile(&c_code)
+        let transpiled = decy_core::transpile_file(&file_path, &project)
             .with_context(|| format!("Failed to transpile {}", file_path.display()))?;
 
-        total_lines += rust_code.lines().count();
-
-        // Compute output path (preserve directory structure)
-        let output_path = output_dir.join(relative_path).with_extension("rs");
-
-        // Create parent directory if needed
-        if let Some(parent) = output_path.parent() {
-            fs::create_dir_all(parent)?;
-        }
+        total_lines += transpiled.rust_code.lines().count();
 
         // Write output
-        fs::write(&output_path, &rust_code)
-            .with_context(|| format!("Failed to write {}", output_path.display()))?;
+        write_output(&output_path, &transpiled.rust_code)?;
 
         if verbose {
             println!("✓ Transpiled: {} → {}", relative_path.display(), output_path.display());
@@ -831,13 +838,6 @@ fn transpile_project(
 
         // Update cache
         if use_cache {
-            let transpiled = decy_core::TranspiledFile {
-                source_path: file_path.clone(),
-                rust_code: rust_code.clone(),
-                dependencies: vec![], // Would be populated by actual parser
-                functions_exported: vec![], // Would be populated by actual parser
-                ffi_declarations: String::new(), // Would be populated by actual parser
-            };
             cache.insert(&file_path, &transpiled);
         }
 
@@ -910,6 +910,15 @@ fn transpile_project(
     Ok(())
 }
 
+/// Writes one translated file, creating its directory if needed.
+fn write_output(output_path: &Path, rust_code: &str) -> Result<()> {
+    if let Some(parent) = output_path.parent() {
+        fs::create_dir_all(parent)?;
+    }
+    fs::write(output_path, rust_code)
+        .with_context(|| format!("Failed to write {}", output_path.display()))
+}
+
 fn check_project(input_dir: PathBuf) -> Result<()> {
     use decy_core::DependencyGraph;
     use walkdir::WalkDir;
-- 
2.43.0


From b0ebfd8f2185e0abd39078bed6e54a1d8013682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:50 +0000
Subject: [PATCH 21/40] fix: group a compound %s argument before converting it
 in printf/fprintf

---
 crates/decy-codegen/src/expr_gen/calls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index a28b84e..b64ea19 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -481,6 +481,7 @@ impl CodeGenerator {
                     .map(|(i, a)| {
                         let arg_code = self.generate_expression_with_context(a, ctx);
                         if s_positions.contains(&i) {
+                            let arg_code = Self::parenthesize_receiver(a, arg_code);
                             format!("unsafe {{ std::ffi::CStr::from_ptr({} as *const i8).to_str().unwrap_or(\"\") }}", arg_code)
                         } else {
                             arg_code
@@ -513,6 +514,7 @@ impl CodeGenerator {
                     .map(|(i, a)| {
                         let arg_code = self.generate_expression_with_context(a, ctx);
                         if s_positions.contains(&i) && !Self::is_string_ternary(a) {
+                            let arg_code = Self::parenthesize_receiver(a, arg_code);
                             let arg_type = ctx.infer_expression_type(a);
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
-- 
2.43.0


From fca611f3608e2482b6bf58b64040838bd4a81001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 22/40] fix: recognise an assignment whose target contains a
 comparison

---
 crates/decy-parser/src/extract/statements.rs | 58 +-------------------
 1 file changed, 3 insertions(+), 55 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 1d235f9..c2fa425 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -113,61 +113,9 @@ pub(crate) fn extract_return_stmt(cursor: CXCursor) -> Option<Statement> {
 
 /// Extract an assignment statement.
 pub(crate) fn extract_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
-    // Check if this binary operator is an assignment '=' (not '==', '!=', etc.)
-    // Get the translation unit
-    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
-    if tu.is_null() {
-        return None;
-    }
-
-    // Get the extent (source range) of the cursor
-    let extent = unsafe { clang_getCursorExtent(cursor) };
-
-    // Tokenize to find the operator
-    let mut tokens = ptr::null_mut();
-    let mut num_tokens = 0;
-
-    unsafe {
-        clang_tokenize(tu, extent, &mut tokens, &mut num_tokens);
-    }
-
-    let mut is_assignment = false;
-
-    // Look through tokens to find '=' (and make sure it's not '==', '!=', etc.)
-    for i in 0..num_tokens {
-        unsafe {
-            let token = *tokens.add(i as usize);
-            let token_kind = clang_getTokenKind(token);
-
-            if token_kind == CXToken_Punctuation {
-                let token_cxstring = clang_getTokenSpelling(tu, token);
-                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-                if let Ok(token_str) = c_str.to_str() {
-                    // Only accept single '=' for assignment
-                    if token_str == "=" {
-                        is_assignment = true;
-                        clang_disposeString(token_cxstring);
-                        break;
-                    } else if token_str == "=="
-                        || token_str == "!="
-                        || token_str == "<="
-                        || token_str == ">="
-                    {
-                        // This is a comparison operator, not assignment
-                        clang_disposeString(token_cxstring);
-                        break;
-                    }
-                }
-                clang_disposeString(token_cxstring);
-            }
-        }
-    }
-
-    unsafe {
-        clang_disposeTokens(tu, tokens, num_tokens);
-    }
-
-    if !is_assignment {
+    // Check if this binary operator is an assignment '=' (not '==', '!=', etc.): the operator
+    // between the two operands decides, not one inside an operand (`a[i <= j] = 3`)
+    if !matches!(extract_binary_operator(cursor), Some(BinaryOperator::Assign)) {
         return None;
     }
 
-- 
2.43.0


From 630bda8a57c021154fd59a82e8066324c5d8e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 23/40] fix: keep sizeof used as a condition or as an operand
 of a cast or ?:

---
 crates/decy-parser/src/extract/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 15baa4a..cfeb32f 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -31,6 +31,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
         117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
         118 => extract_compound_literal(cursor), // CXCursor_CompoundLiteralExpr
+        136 => extract_sizeof(cursor),         // CXCursor_UnaryExpr (sizeof)
         111 => {
             // CXCursor_ParenExpr - parenthesized expression like (a > b)
             // Recurse into children to extract the inner expression
@@ -114,6 +115,7 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         // would lose the condition or the conversion
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
         117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
+        136 => extract_sizeof(cursor),         // CXCursor_UnaryExpr (sizeof)
         CXCursor_ArraySubscriptExpr => extract_array_index(cursor),
         CXCursor_MemberRefExpr => extract_field_access(cursor),
         _ => {
-- 
2.43.0


From eacc12dde62484f02e9962dd56185cf3d4ca1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 24/40] fix: keep comma expressions and casts in bodies written
 without braces

---
 crates/decy-parser/src/extract/expressions.rs | 31 +------------------
 crates/decy-parser/src/extract/statements.rs  | 26 ++++++----------
 2 files changed, 11 insertions(+), 46 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index cfeb32f..0c713b2 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -7,8 +7,7 @@ use std::ptr;
 
 use super::statements::{
     extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_inc_dec_stmt, extract_return_stmt, extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -129,34 +128,6 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
     }
 }
 
-/// Extract a single statement from a cursor (for non-compound for bodies)
-pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
-    let kind = unsafe { clang_getCursorKind(cursor) };
-    match kind {
-        CXCursor_IfStmt => extract_if_stmt(cursor),
-        CXCursor_ForStmt => extract_for_stmt(cursor),
-        CXCursor_WhileStmt => extract_while_stmt(cursor),
-        CXCursor_ReturnStmt => extract_return_stmt(cursor),
-        CXCursor_SwitchStmt => extract_switch_stmt(cursor),
-        CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
-        CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
-        CXCursor_CompoundAssignOperator => extract_compound_assignment_stmt(cursor),
-        CXCursor_CallExpr => {
-            if let Some(Expression::FunctionCall { function, arguments }) =
-                extract_function_call(cursor)
-            {
-                Some(Statement::FunctionCall { function, arguments })
-            } else {
-                None
-            }
-        }
-        CXCursor_BreakStmt => Some(Statement::Break),
-        CXCursor_ContinueStmt => Some(Statement::Continue),
-        CXCursor_DoStmt | CXCursor_NullStmt => None, // Not supported yet
-        _ => None,
-    }
-}
-
 /// Visitor callback for extracting expressions.
 ///
 /// # Safety
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index c2fa425..595b3c8 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,7 +8,7 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_statement,
+    extract_function_call, extract_int_literal, extract_statement,
     extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
 };
@@ -1047,26 +1047,20 @@ fn extract_switch_body(cursor: CXCursor, labels: &mut SwitchLabels) {
                 extract_switch_body(child, labels);
             }
         }
-        _ => {
-            let mut statements: Vec<Statement> = Vec::new();
-            let data = &mut statements as *mut Vec<Statement> as CXClientData;
-            if visit_statement(cursor, cursor, data) == CXChildVisit_Recurse {
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, data);
-                }
-            }
-            labels.push(&statements);
-        }
+        _ => labels.push(&extract_unbraced_body(cursor)),
     }
 }
 
 /// Extract the statements of a body written without braces.
-fn extract_unbraced_body(cursor: CXCursor) -> Vec<Statement> {
-    if unsafe { clang_getCursorKind(cursor) } == CXCursor_DoStmt {
-        extract_do_stmt(cursor)
-    } else {
-        extract_single_statement(cursor).into_iter().collect()
+pub(crate) fn extract_unbraced_body(cursor: CXCursor) -> Vec<Statement> {
+    let mut statements: Vec<Statement> = Vec::new();
+    let data = &mut statements as *mut Vec<Statement> as CXClientData;
+    if visit_statement(cursor, cursor, data) == CXChildVisit_Recurse {
+        unsafe {
+            clang_visitChildren(cursor, visit_statement, data);
+        }
     }
+    statements
 }
 
 /// Extract a do-while loop, whose body runs once before the condition is first evaluated:
-- 
2.43.0


From 585e3a652548fa2115191289616fe57c2f7218aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 25/40] fix: evaluate only the selected operand of ?:, && and
 || used as a statement

---
 crates/decy-parser/src/extract/mod.rs        | 24 ++++++++++++------
 crates/decy-parser/src/extract/statements.rs | 26 ++++++++++++++++++++
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 7c14780..0cb626f 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,10 +24,9 @@ use std::ptr;
 
 use self::expressions::{extract_binary_operator, extract_statement};
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
-    extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_conditional_stmt,
+    extract_do_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
+    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -295,9 +294,15 @@ pub(crate) extern "C" fn visit_statement(
             CXChildVisit_Continue
         }
         CXCursor_BinaryOperator => {
-            // A comma expression is a sequence of statements (i = 0, j = 1)
-            if let Some(BinaryOperator::Comma) = extract_binary_operator(cursor) {
-                return CXChildVisit_Recurse;
+            match extract_binary_operator(cursor) {
+                // A comma expression is a sequence of statements (i = 0, j = 1)
+                Some(BinaryOperator::Comma) => return CXChildVisit_Recurse,
+                // The right operand runs only if the left one asks for it (ok && f())
+                Some(BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr) => {
+                    statements.extend(extract_conditional_stmt(cursor));
+                    return CXChildVisit_Continue;
+                }
+                _ => {}
             }
             // Could be an assignment statement (x = 42)
             if let Some(stmt) = extract_assignment_stmt(cursor) {
@@ -370,6 +375,11 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        116 => {
+            // CXCursor_ConditionalOperator - only one of the branches runs (c ? f() : g())
+            statements.extend(extract_conditional_stmt(cursor));
+            CXChildVisit_Continue
+        }
         135 => {
             // CXCursor_CXXDeleteExpr - delete ptr -> free(ptr) equivalent (DECY-225)
             if let Some(Expression::CxxDelete { operand }) = expressions::extract_cxx_delete(cursor)
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 595b3c8..7de8831 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1063,6 +1063,32 @@ pub(crate) fn extract_unbraced_body(cursor: CXCursor) -> Vec<Statement> {
     statements
 }
 
+/// Extract an expression statement that evaluates one of its operands only under a condition:
+/// `c ? f() : g();`, `c && f();` and `c || f();` are read as the `if` statements they stand for.
+pub(crate) fn extract_conditional_stmt(cursor: CXCursor) -> Option<Statement> {
+    let children = child_cursors(cursor);
+    let condition = try_extract_expression(*children.first()?)?;
+    let second = extract_unbraced_body(*children.get(1)?);
+    match children.get(2) {
+        Some(third) => Some(Statement::If {
+            condition,
+            then_block: second,
+            else_block: Some(extract_unbraced_body(*third)),
+        }),
+        None if extract_binary_operator(cursor) == Some(BinaryOperator::LogicalOr) => {
+            Some(Statement::If {
+                condition: Expression::UnaryOp {
+                    op: UnaryOperator::LogicalNot,
+                    operand: Box::new(condition),
+                },
+                then_block: second,
+                else_block: None,
+            })
+        }
+        None => Some(Statement::If { condition, then_block: second, else_block: None }),
+    }
+}
+
 /// Extract a do-while loop, whose body runs once before the condition is first evaluated:
 /// `do body while (cond)` is read as `int first = 1; while (first || cond) { first = 0; body }`.
 pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Vec<Statement> {
-- 
2.43.0


From 69d1286eb54f781633ff563100c14e001feb6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:43 +0000
Subject: [PATCH 26/40] fix: a break nested in a switch case leaves the switch,
 not the enclosing loop

---
 crates/decy-codegen/src/stmt_gen.rs | 77 ++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index c5c7098..05eb1c6 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -734,6 +734,41 @@ impl CodeGenerator {
         out
     }
 
+    /// Statements of a switch case up to the `break` that leaves the switch. What follows an `if`
+    /// that can leave the switch (`if (x) break;`) moves into the branches that do not.
+    fn switch_case_body(body: &[HirStatement]) -> Vec<HirStatement> {
+        fn leaves_switch(block: &[HirStatement]) -> bool {
+            block.iter().any(|stmt| match stmt {
+                HirStatement::Break => true,
+                HirStatement::If { then_block, else_block, .. } => {
+                    leaves_switch(then_block) || else_block.as_deref().is_some_and(leaves_switch)
+                }
+                _ => false,
+            })
+        }
+        let mut out = Vec::new();
+        for (i, stmt) in body.iter().enumerate() {
+            match stmt {
+                HirStatement::Break => break,
+                HirStatement::If { condition, then_block, else_block }
+                    if leaves_switch(std::slice::from_ref(stmt)) =>
+                {
+                    let with_rest =
+                        |block: &[HirStatement]| Self::switch_case_body(&[block, &body[i + 1..]].concat());
+                    let otherwise = with_rest(else_block.as_deref().unwrap_or(&[]));
+                    out.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: with_rest(then_block),
+                        else_block: (!otherwise.is_empty()).then_some(otherwise),
+                    });
+                    break;
+                }
+                _ => out.push(stmt.clone()),
+            }
+        }
+        out
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
@@ -776,29 +811,8 @@ impl CodeGenerator {
                 };
                 code.push_str(&format!("    {} => {{\n", case_pattern));
 
-                // Generate case body (filter out Break statements)
-                for stmt in &case.body {
-                    if !matches!(stmt, HirStatement::Break) {
-                        code.push_str("        ");
-                        code.push_str(&self.generate_statement_with_context(
-                            stmt,
-                            function_name,
-                            ctx,
-                            return_type,
-                        ));
-                        code.push('\n');
-                    }
-                }
-
-                code.push_str("    },\n");
-            }
-        }
-
-        // Generate default case (or empty default if not present)
-        code.push_str("    _ => {\n");
-        if let Some(default_stmts) = default_case {
-            for stmt in default_stmts {
-                if !matches!(stmt, HirStatement::Break) {
+                // Generate case body (a match arm needs no break)
+                for stmt in &Self::switch_case_body(&case.body) {
                     code.push_str("        ");
                     code.push_str(&self.generate_statement_with_context(
                         stmt,
@@ -808,6 +822,23 @@ impl CodeGenerator {
                     ));
                     code.push('\n');
                 }
+
+                code.push_str("    },\n");
+            }
+        }
+
+        // Generate default case (or empty default if not present)
+        code.push_str("    _ => {\n");
+        if let Some(default_stmts) = default_case {
+            for stmt in &Self::switch_case_body(default_stmts) {
+                code.push_str("        ");
+                code.push_str(&self.generate_statement_with_context(
+                    stmt,
+                    function_name,
+                    ctx,
+                    return_type,
+                ));
+                code.push('\n');
             }
         }
         code.push_str("    },\n");
-- 
2.43.0


From c8596eb2bbb7c9d4c5f8e9e35aa83fa974f970b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:43 +0000
Subject: [PATCH 27/40] fix: keep the parts of a for header whose first or
 second part is empty apart

---
 crates/decy-parser/src/extract/statements.rs | 172 +++++++------------
 1 file changed, 58 insertions(+), 114 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 7de8831..b76aa2e 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -699,15 +699,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // The children before body are init/condition/increment in that order,
     // but clang omits empty ones
 
-    // Helper to check if a BinaryOperator is an assignment
-    fn is_assignment_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(op, BinaryOperator::Assign)
-        } else {
-            false
-        }
-    }
-
     // Helper to check if a BinaryOperator is an assignment, or several joined by commas
     fn is_init_op(cursor: CXCursor) -> bool {
         matches!(
@@ -716,25 +707,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
         )
     }
 
-    // Helper to check if a BinaryOperator is a comparison/logical (condition)
-    fn is_condition_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(
-                op,
-                BinaryOperator::Equal
-                    | BinaryOperator::NotEqual
-                    | BinaryOperator::LessThan
-                    | BinaryOperator::GreaterThan
-                    | BinaryOperator::LessEqual
-                    | BinaryOperator::GreaterEqual
-                    | BinaryOperator::LogicalAnd
-                    | BinaryOperator::LogicalOr
-            )
-        } else {
-            false
-        }
-    }
-
     // DECY-224: Helper to extract increment statements (handles comma operator)
     fn extract_increment_stmts(cursor: CXCursor) -> Vec<Statement> {
         let kind = unsafe { clang_getCursorKind(cursor) };
@@ -805,98 +777,70 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // Process children before body
     let pre_body = &collector.children[..body_idx];
 
-    match pre_body.len() {
-        0 => {
-            // for (;;) - infinite loop with no init/condition/increment
-        }
-        1 => {
-            // One child before body - could be init, condition, or increment
-            // Use heuristics to determine which
-            let child = &pre_body[0];
-            if child.kind == CXCursor_DeclStmt {
-                // DeclStmt - always init
-                let ptr = &mut init as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child.kind == CXCursor_BinaryOperator {
-                if is_assignment_op(child.cursor) {
-                    // Assignment - treat as init
-                    if let Some(stmt) = extract_assignment_stmt(child.cursor) {
-                        init.push(stmt);
-                    }
-                } else if is_condition_op(child.cursor) {
-                    // Comparison - treat as condition
-                    condition = extract_binary_op(child.cursor);
-                } else {
-                    // Ambiguous - default to condition
-                    condition = extract_binary_op(child.cursor);
-                }
-            } else if child.kind == CXCursor_UnaryOperator
-                || child.kind == CXCursor_CompoundAssignOperator
-            {
-                increment = extract_increment_stmts(child.cursor);
-            } else {
-                // Treat as condition by default
-                condition = extract_expression_from_cursor(child.cursor);
-            }
-        }
-        2 => {
-            // Two children before body
-            // Most common case: condition and increment (init is empty)
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-
-            // Check if first child is init (DeclStmt or assignment)
-            let first_is_init = child0.kind == CXCursor_DeclStmt
-                || (child0.kind == CXCursor_BinaryOperator && is_init_op(child0.cursor));
-
-            if first_is_init {
-                // child0 = init, child1 = condition (skip increment)
-                if child0.kind == CXCursor_DeclStmt {
-                    // DECY-224: Collect ALL declarations
-                    let ptr = &mut init as *mut Vec<Statement>;
-                    unsafe {
-                        clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                    }
-                } else {
-                    init = extract_increment_stmts(child0.cursor);
-                }
-                condition = extract_expression_from_cursor(child1.cursor);
-            } else {
-                // child0 = condition, child1 = increment (no init)
-                condition = extract_expression_from_cursor(child0.cursor);
-                increment = extract_increment_stmts(child1.cursor);
+    // Which of the three parts are there: the source says so. Without its tokens (a loop that
+    // comes out of a macro) the kinds of the children have to do.
+    let first_is_init = pre_body.first().is_some_and(|child| {
+        child.kind == CXCursor_DeclStmt
+            || (child.kind == CXCursor_BinaryOperator && is_init_op(child.cursor))
+    });
+    let first_is_step = pre_body.first().is_some_and(|child| {
+        child.kind == CXCursor_UnaryOperator || child.kind == CXCursor_CompoundAssignOperator
+    });
+    let [has_init, has_condition, has_increment] =
+        for_header_parts(cursor).unwrap_or(match pre_body.len() {
+            0 => [false, false, false],
+            1 => [first_is_init, !first_is_init && !first_is_step, first_is_step],
+            2 => [first_is_init, true, !first_is_init],
+            _ => [true, true, true],
+        });
+    let mut parts = pre_body.iter();
+
+    if let Some(child) = has_init.then(|| parts.next()).flatten() {
+        if child.kind == CXCursor_DeclStmt {
+            // DECY-224: Collect ALL declarations
+            let ptr = &mut init as *mut Vec<Statement>;
+            unsafe {
+                clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
             }
+        } else {
+            init = extract_increment_stmts(child.cursor);
         }
-        3 => {
-            // Three children before body - init, condition, increment all present
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-            let child2 = &pre_body[2];
-
-            // Init - DECY-224: Collect ALL declarations
-            if child0.kind == CXCursor_DeclStmt {
-                let ptr = &mut init as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else {
-                init = extract_increment_stmts(child0.cursor);
-            }
+    }
+    if let Some(child) = has_condition.then(|| parts.next()).flatten() {
+        condition = extract_expression_from_cursor(child.cursor);
+    }
+    if let Some(child) = has_increment.then(|| parts.next()).flatten() {
+        // DECY-224: Handle comma operators
+        increment = extract_increment_stmts(child.cursor);
+    }
 
-            // Condition
-            condition = extract_expression_from_cursor(child1.cursor);
+    Some(Statement::For { init, condition, increment, body })
+}
 
-            // Increment - DECY-224: Handle comma operators
-            increment = extract_increment_stmts(child2.cursor);
-        }
-        _ => {
-            // More than 3 children before body - unexpected, handle gracefully
+/// Which of initialisation, condition and increment the header of a for loop contains.
+fn for_header_parts(cursor: CXCursor) -> Option<[bool; 3]> {
+    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
+    if tu.is_null() {
+        return None;
+    }
+    let mut tokens = ptr::null_mut();
+    let mut num_tokens = 0;
+    let mut spellings: Vec<String> = Vec::new();
+    unsafe {
+        clang_tokenize(tu, clang_getCursorExtent(cursor), &mut tokens, &mut num_tokens);
+        for i in 0..num_tokens {
+            let spelling = clang_getTokenSpelling(tu, *tokens.add(i as usize));
+            spellings.push(CStr::from_ptr(clang_getCString(spelling)).to_string_lossy().into_owned());
+            clang_disposeString(spelling);
         }
+        clang_disposeTokens(tu, tokens, num_tokens);
     }
-
-    Some(Statement::For { init, condition, increment, body })
+    if spellings.first()? != "for" || spellings.get(1)? != "(" {
+        return None;
+    }
+    let first = spellings.iter().position(|token| token == ";")?;
+    let second = first + 1 + spellings[first + 1..].iter().position(|token| token == ";")?;
+    Some([first != 2, second != first + 1, spellings.get(second + 1)? != ")"])
 }
 
 /// Extract a while loop statement.
-- 
2.43.0


From 2c79917f09984ebc7277b27d2cd8c61de3679a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:58 +0000
Subject: [PATCH 28/40] fix: a struct definition completes its earlier forward
 declaration

---
 crates/decy-parser/src/ast_types.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/ast_types.rs b/crates/decy-parser/src/ast_types.rs
index f053d62..d1ce68b 100644
--- a/crates/decy-parser/src/ast_types.rs
+++ b/crates/decy-parser/src/ast_types.rs
@@ -1007,9 +1007,15 @@ impl Ast {
     /// Add a struct to the AST.
     /// Deduplicates by name to avoid duplicate definitions from system includes.
     pub fn add_struct(&mut self, struct_def: Struct) {
-        // Deduplicate: don't add if a struct with the same name already exists
-        if !self.structs.iter().any(|s| s.name() == struct_def.name()) {
-            self.structs.push(struct_def);
+        // Deduplicate: don't add if a struct with the same name already exists,
+        // but let the definition complete a forward declaration (`struct s;`)
+        match self.structs.iter_mut().find(|s| s.name() == struct_def.name()) {
+            Some(known) => {
+                if known.fields.is_empty() {
+                    *known = struct_def;
+                }
+            }
+            None => self.structs.push(struct_def),
         }
     }
 
-- 
2.43.0


From 734eb6fc4766c1769a2ff75458cae25fb86e8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:38 +0000
Subject: [PATCH 29/40] fix: a global variable declared before its definition
 keeps its initializer

---
 crates/decy-core/src/lib.rs | 73 ++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 183d064..937651c 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1015,6 +1015,25 @@ fn generate_global_variable_code(
     global_vars
 }
 
+/// One declaration per global variable: the first one that has an initializer,
+/// or else the first one (`int x; int x = 5;` defines x as 5).
+fn global_definitions<'a>(
+    variables: impl Iterator<Item = &'a decy_parser::Variable>,
+) -> Vec<&'a decy_parser::Variable> {
+    let mut definitions: Vec<&decy_parser::Variable> = Vec::new();
+    for variable in variables {
+        match definitions.iter_mut().find(|d| d.name() == variable.name()) {
+            Some(known) => {
+                if known.initializer().is_none() && variable.initializer().is_some() {
+                    *known = variable;
+                }
+            }
+            None => definitions.push(variable),
+        }
+    }
+    definitions
+}
+
 fn build_all_function_sigs(
     transformed_functions: &[(HirFunction, decy_ownership::lifetime_gen::AnnotatedSignature)],
 ) -> Vec<(String, Vec<decy_hir::HirType>)> {
@@ -1128,32 +1147,21 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
 
     // Convert global variables to HIR (DECY-054)
     // DECY-223: Filter out extern references (they refer to existing globals, not new definitions)
-    // Also deduplicate by name (first definition wins)
-    let mut seen_globals: std::collections::HashSet<String> = std::collections::HashSet::new();
-    let hir_variables: Vec<decy_hir::HirStatement> = ast
-        .variables()
-        .iter()
-        .filter(|v| {
-            // Skip extern declarations without initializers (they're references, not definitions)
-            // extern int max; → skip (reference)
-            // int max = 0; → keep (definition)
-            // extern int max = 0; → keep (definition with extern linkage)
-            if v.is_extern() && v.initializer().is_none() {
-                return false;
-            }
-            // Deduplicate by name
-            if seen_globals.contains(v.name()) {
-                return false;
-            }
-            seen_globals.insert(v.name().to_string());
-            true
-        })
-        .map(|v| decy_hir::HirStatement::VariableDeclaration {
-            name: v.name().to_string(),
-            var_type: decy_hir::HirType::from_ast_type(v.var_type()),
-            initializer: v.initializer().map(decy_hir::HirExpression::from_ast_expression),
-        })
-        .collect();
+    // Also deduplicate by name
+    let hir_variables: Vec<decy_hir::HirStatement> = global_definitions(
+        // Skip extern declarations without initializers (they're references, not definitions)
+        // extern int max; → skip (reference)
+        // int max = 0; → keep (definition)
+        // extern int max = 0; → keep (definition with extern linkage)
+        ast.variables().iter().filter(|v| !v.is_extern() || v.initializer().is_some()),
+    )
+    .into_iter()
+    .map(|v| decy_hir::HirStatement::VariableDeclaration {
+        name: v.name().to_string(),
+        var_type: decy_hir::HirType::from_ast_type(v.var_type()),
+        initializer: v.initializer().map(decy_hir::HirExpression::from_ast_expression),
+    })
+    .collect();
 
     // Convert typedefs to HIR (DECY-054, DECY-057)
     let hir_typedefs: Vec<decy_hir::HirTypedef> = ast
@@ -1389,17 +1397,8 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         .collect();
 
     // Convert global variables with deduplication
-    let mut seen_globals = std::collections::HashSet::new();
-    let hir_variables: Vec<decy_hir::HirStatement> = ast
-        .variables()
-        .iter()
-        .filter(|v| {
-            if seen_globals.contains(v.name()) {
-                return false;
-            }
-            seen_globals.insert(v.name().to_string());
-            true
-        })
+    let hir_variables: Vec<decy_hir::HirStatement> = global_definitions(ast.variables().iter())
+        .into_iter()
         .map(|v| decy_hir::HirStatement::VariableDeclaration {
             name: v.name().to_string(),
             var_type: decy_hir::HirType::from_ast_type(v.var_type()),
-- 
2.43.0


From d96f9cdbe0ae988ffa1d004bb5e46df1667a408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:05 +0000
Subject: [PATCH 30/40] fix: keep the values of global and nested aggregate
 initializers; an array size is not an initializer

---
 crates/decy-parser/src/extract/expressions.rs | 50 +++++++++++++++++++
 crates/decy-parser/src/extract/statements.rs  | 15 +++---
 crates/decy-parser/src/extract/types.rs       | 11 ++--
 3 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 0c713b2..9c13d1d 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -30,6 +30,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator (ternary)
         117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
         118 => extract_compound_literal(cursor), // CXCursor_CompoundLiteralExpr
+        119 => extract_init_list(cursor),      // CXCursor_InitListExpr
         136 => extract_sizeof(cursor),         // CXCursor_UnaryExpr (sizeof)
         111 => {
             // CXCursor_ParenExpr - parenthesized expression like (a > b)
@@ -71,6 +72,55 @@ pub(crate) extern "C" fn visit_variable_initializer(
     CXChildVisit_Continue
 }
 
+/// Offset just behind the last character of a cursor.
+fn end_offset(cursor: CXCursor) -> u32 {
+    let mut offset = 0u32;
+    // SAFETY: Asking libclang for a location of a valid cursor
+    unsafe {
+        let end = clang_getRangeEnd(clang_getCursorExtent(cursor));
+        clang_getExpansionLocation(
+            end,
+            ptr::null_mut(),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            &mut offset,
+        );
+    }
+    offset
+}
+
+/// Find the initializer among the children of a variable declaration.
+///
+/// It is the child that ends where the declaration ends. The size of an array
+/// (`int a[2 * 3];`) is a child too, but is followed by the closing bracket.
+pub(crate) fn initializer_of(declaration: CXCursor) -> Option<CXCursor> {
+    struct Search {
+        end: u32,
+        found: Option<CXCursor>,
+    }
+
+    extern "C" fn visit_child(
+        child: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        // SAFETY: Converting client data back to the search it was made from
+        let search = unsafe { &mut *(client_data as *mut Search) };
+        if end_offset(child) == search.end {
+            search.found = Some(child);
+        }
+        CXChildVisit_Continue
+    }
+
+    let mut search = Search { end: end_offset(declaration), found: None };
+    let search_ptr = &mut search as *mut Search;
+    // SAFETY: The search outlives the traversal
+    unsafe {
+        clang_visitChildren(declaration, visit_child, search_ptr as CXClientData);
+    }
+    search.found
+}
+
 /// Helper function to extract a statement from a cursor based on its kind.
 pub(crate) fn extract_statement(cursor: CXCursor) -> Option<Statement> {
     let kind = unsafe { clang_getCursorKind(cursor) };
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index b76aa2e..6db2b76 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,8 +8,8 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_statement,
-    extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
+    extract_function_call, extract_int_literal, extract_statement, extract_unary_op,
+    extract_variable_ref, initializer_of, try_extract_expression, visit_binary_operand,
     visit_expression,
 };
 use super::types::convert_type;
@@ -71,12 +71,15 @@ pub(crate) fn extract_var_decl(cursor: CXCursor) -> Option<Statement> {
         }
     }
 
-    // Extract initializer by visiting children
+    // Extract the initializer (the size of an array is a child of the declaration too)
     let mut initializer: Option<Expression> = None;
     let init_ptr = &mut initializer as *mut Option<Expression>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_expression, init_ptr as CXClientData);
+    if let Some(value) = initializer_of(cursor) {
+        if visit_expression(value, cursor, init_ptr as CXClientData) == CXChildVisit_Recurse {
+            unsafe {
+                clang_visitChildren(value, visit_expression, init_ptr as CXClientData);
+            }
+        }
     }
 
     // DECY-112 FIX: For array types, the visit_expression callback may incorrectly
diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index ee6b9b5..6831f0b 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -5,7 +5,7 @@ use clang_sys::*;
 use std::ffi::CStr;
 use std::ptr;
 
-use super::expressions::visit_variable_initializer;
+use super::expressions::{initializer_of, try_extract_expression};
 use super::visit_statement;
 
 pub(crate) fn extract_function(cursor: CXCursor) -> Option<Function> {
@@ -506,13 +506,8 @@ pub(crate) fn extract_variable(cursor: CXCursor) -> Option<Variable> {
     // Check if type is const-qualified
     let is_const = unsafe { clang_isConstQualifiedType(cx_type) != 0 };
 
-    // Extract initializer by visiting children
-    let mut initializer: Option<Expression> = None;
-    let initializer_ptr = &mut initializer as *mut Option<Expression>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_variable_initializer, initializer_ptr as CXClientData);
-    }
+    // Extract the initializer (the size of an array is not one)
+    let initializer = initializer_of(cursor).and_then(try_extract_expression);
 
     Some(Variable::new_with_storage_class(
         name,
-- 
2.43.0


From e81dcbda1842381acaffd9566bbd21b4d1b865c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:05 +0000
Subject: [PATCH 31/40] fix: a single array initializer value applies to the
 first element only

---
 crates/decy-codegen/src/expr_gen/misc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 5300a96..46adb6e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -306,7 +306,11 @@ impl CodeGenerator {
                         .collect();
 
                     if let Some(n) = size {
-                        if elements.len() == 1 {
+                        // A single value initializes the first element only ({5} is 5, 0, 0);
+                        // repeating it is right for zero
+                        let repeats =
+                            *n == 1 || matches!(initializers[0], HirExpression::IntLiteral(0));
+                        if elements.len() == 1 && repeats {
                             format!("[{}; {}]", elements[0], *n)
                         } else if elements.len() < *n {
                             let mut padded = elements.clone();
-- 
2.43.0


From a276f50f34af181e16bd722422bfd85ae97cdc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 32/40] fix: define an enum introduced by a typedef once

---
 crates/decy-core/src/lib.rs         | 4 ++++
 crates/decy-parser/src/ast_types.rs | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 937651c..e41d25b 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1205,6 +1205,8 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
 
     // DECY-240: Generate enum definitions (as const i32 values)
     for hir_enum in &hir_enums {
+        // The definition of the enum includes its type alias
+        emitted_typedefs.insert(hir_enum.name().to_string());
         let enum_code = code_generator.generate_enum(hir_enum);
         rust_code.push_str(&enum_code);
         rust_code.push('\n');
@@ -1440,6 +1442,8 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
 
     // DECY-240: Generate enum definitions (as const i32 values)
     for hir_enum in &hir_enums {
+        // The definition of the enum includes its type alias
+        emitted_typedefs.insert(hir_enum.name().to_string());
         let enum_code = code_generator.generate_enum(hir_enum);
         rust_code.push_str(&enum_code);
         rust_code.push('\n');
diff --git a/crates/decy-parser/src/ast_types.rs b/crates/decy-parser/src/ast_types.rs
index d1ce68b..0daf24f 100644
--- a/crates/decy-parser/src/ast_types.rs
+++ b/crates/decy-parser/src/ast_types.rs
@@ -1046,7 +1046,10 @@ impl Ast {
 
     /// Add an enum to the AST.
     pub fn add_enum(&mut self, enum_def: Enum) {
-        self.enums.push(enum_def);
+        // An enum defined inside a typedef is visited twice
+        if !self.enums.contains(&enum_def) {
+            self.enums.push(enum_def);
+        }
     }
 
     /// Get the C++ classes in the AST (DECY-200).
-- 
2.43.0


From 085dc64e856f24fc3e67b3f7849312491e89bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:49 +0000
Subject: [PATCH 33/40] fix: give unnamed C parameters a name in the generated
 function

---
 crates/decy-hir/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index e235c32..e2d0f1d 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -866,7 +866,19 @@ impl HirFunction {
         Self {
             name: ast_func.name.clone(),
             return_type: HirType::from_ast_type(&ast_func.return_type),
-            parameters: ast_func.parameters.iter().map(HirParameter::from_ast_parameter).collect(),
+            parameters: ast_func
+                .parameters
+                .iter()
+                .enumerate()
+                .map(|(i, p)| {
+                    let mut param = HirParameter::from_ast_parameter(p);
+                    // A parameter may be unnamed in C (`int f(int, char);`) but not in Rust
+                    if param.name.is_empty() {
+                        param.name = format!("_arg{}", i);
+                    }
+                    param
+                })
+                .collect(),
             body,
             cuda_qualifier,
         }
-- 
2.43.0


From 73f098457c272c45afe65742f42eb7eb2b90c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 34/40] fix: an enumerator equal to INT_MAX does not overflow
 the generator

---
 crates/decy-codegen/src/type_gen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/type_gen.rs b/crates/decy-codegen/src/type_gen.rs
index e9b3d6e..a741ff7 100644
--- a/crates/decy-codegen/src/type_gen.rs
+++ b/crates/decy-codegen/src/type_gen.rs
@@ -482,11 +482,11 @@ impl CodeGenerator {
         let mut next_value: i32 = 0;
         for variant in hir_enum.variants() {
             let value = if let Some(v) = variant.value() {
-                next_value = v + 1; // Next auto value
+                next_value = v.wrapping_add(1); // Next auto value
                 v
             } else {
                 let v = next_value;
-                next_value += 1;
+                next_value = v.wrapping_add(1);
                 v
             };
             code.push_str(&format!("pub const {}: i32 = {};\n", variant.name(), value));
-- 
2.43.0


From 1b6d715ba6110510f65dda90e482e36c581152bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 35/40] fix: emit functions in a fixed order when translating
 from a file

---
 crates/decy-core/src/lib.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index e41d25b..93bc3cb 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1345,23 +1345,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         ast.functions().iter().map(HirFunction::from_ast_function).collect();
 
     // DECY-190: Deduplicate functions
-    let hir_functions: Vec<HirFunction> = {
-        use std::collections::HashMap;
-        let mut func_map: HashMap<String, HirFunction> = HashMap::new();
-
-        for func in all_hir_functions {
-            let name = func.name().to_string();
-            if let Some(existing) = func_map.get(&name) {
-                if func.has_body() && !existing.has_body() {
-                    func_map.insert(name, func);
-                }
-            } else {
-                func_map.insert(name, func);
-            }
-        }
-
-        func_map.into_values().collect()
-    };
+    let hir_functions = deduplicate_functions(all_hir_functions);
 
     // Convert structs to HIR
     let hir_structs: Vec<decy_hir::HirStruct> = ast
-- 
2.43.0


From 4b382bdafe81ca5f713727ed1f76cb992b79d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:08 +0000
Subject: [PATCH 36/40] fix: keep a returned temporary whose type converts the
 value

---
 crates/decy-core/src/optimize.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 2579ac7..9e5b946 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -29,9 +29,7 @@
 //! assert_eq!(optimized.body().len(), 1);
 //! ```
 
-#[cfg(test)]
-use decy_hir::HirType;
-use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement};
+use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 
 /// Maximum number of fixed-point iterations.
 const MAX_ITERATIONS: usize = 3;
@@ -51,7 +49,9 @@ pub fn optimize_function(func: &HirFunction) -> HirFunction {
 
         body = body.into_iter().map(fold_constants_stmt).collect();
         body = remove_dead_branches(body);
-        body = eliminate_temporaries(body);
+        if !converts_returned_temporary(&body, func.return_type()) {
+            body = eliminate_temporaries(body);
+        }
 
         if body != prev {
             changed = true;
@@ -290,6 +290,20 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check if a returned temporary converts its value: `unsigned char t = expr; return t;` in a
+/// function returning `int` is not `return expr;`.
+fn converts_returned_temporary(stmts: &[HirStatement], return_type: &HirType) -> bool {
+    stmts.windows(2).any(|pair| {
+        matches!(
+            (&pair[0], &pair[1]),
+            (
+                HirStatement::VariableDeclaration { name, var_type, .. },
+                HirStatement::Return(Some(HirExpression::Variable(returned))),
+            ) if name == returned && var_type != return_type
+        )
+    })
+}
+
 /// Check if an expression is an allocation (malloc, calloc, realloc, cast wrapping allocation).
 /// These should NOT be inlined because box_transform needs the variable pattern.
 fn is_allocation_expr(expr: &HirExpression) -> bool {
-- 
2.43.0


From d2c3eff8ff20ef96acec6c0dedef9b3ebb7c8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:08 +0000
Subject: [PATCH 37/40] fix: keep the scope of a constant branch that declares
 variables

---
 crates/decy-core/src/optimize.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 9e5b946..c5724cf 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -194,7 +194,16 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     for stmt in stmts {
         match stmt {
             HirStatement::If { condition, then_block, else_block } => {
-                if let Some(always_true) = is_constant_truthy(&condition) {
+                let constant = is_constant_truthy(&condition).filter(|always_true| {
+                    // A block with declarations of its own stays a block: its names must not
+                    // shadow those of the enclosing block.
+                    !if *always_true {
+                        declares_variable(&then_block)
+                    } else {
+                        else_block.as_deref().is_some_and(declares_variable)
+                    }
+                });
+                if let Some(always_true) = constant {
                     if always_true {
                         // if(1) { body } → body
                         result.extend(
@@ -232,6 +241,11 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check if a block declares variables in its own scope.
+fn declares_variable(block: &[HirStatement]) -> bool {
+    block.iter().any(|stmt| matches!(stmt, HirStatement::VariableDeclaration { .. }))
+}
+
 /// Check if an expression is a constant truthy/falsy value.
 fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
     match expr {
-- 
2.43.0


From 738cca908997954faf0778a00124f21d471e7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:27 +0000
Subject: [PATCH 38/40] fix: replace length parameters in a fixed order,
 longest names first

---
 crates/decy-codegen/src/func_gen.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/func_gen.rs b/crates/decy-codegen/src/func_gen.rs
index 7a51bfc..86ae956 100644
--- a/crates/decy-codegen/src/func_gen.rs
+++ b/crates/decy-codegen/src/func_gen.rs
@@ -861,8 +861,14 @@ impl CodeGenerator {
     ) -> String {
         let mut result = code.to_string();
 
-        // Replace each length parameter reference with corresponding array.len() call
-        for (length_param, array_param) in length_to_array {
+        // Replace each length parameter reference with corresponding array.len() call.
+        // Longest names first: a name may end with another one (`x_len`, `len`).
+        let mut lengths: Vec<_> = length_to_array.iter().collect();
+        lengths.sort_by_key(|(length_param, _)| {
+            (std::cmp::Reverse(length_param.len()), *length_param)
+        });
+
+        for (length_param, array_param) in lengths {
             // Match the length parameter as a standalone identifier
             // Use word boundaries to avoid partial matches
             // Common patterns: "return len", "x + len", "len)", etc.
-- 
2.43.0


From d9b5e7a170873b42692c77c287a2b3d0b5b896a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:08 +0000
Subject: [PATCH 39/40] fix: list error codes with equal counts in a fixed
 order in the metrics report

---
 crates/decy-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-core/src/metrics.rs b/crates/decy-core/src/metrics.rs
index baecd77..63c24e3 100644
--- a/crates/decy-core/src/metrics.rs
+++ b/crates/decy-core/src/metrics.rs
@@ -119,7 +119,7 @@ impl CompileMetrics {
             report.push_str("|------------|-------|\n");
 
             let mut sorted_errors: Vec<_> = self.error_counts.iter().collect();
-            sorted_errors.sort_by(|a, b| b.1.cmp(a.1));
+            sorted_errors.sort_by(|a, b| b.1.cmp(a.1).then_with(|| a.0.cmp(b.0)));
 
             for (code, count) in sorted_errors {
                 report.push_str(&format!("| {} | {} |\n", code, count));
-- 
2.43.0


From b229e2d0b91df46d859d2c0c805016391415fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:34 +0000
Subject: [PATCH 40/40] fix: report files that cannot be listed when checking a
 project

---
 crates/decy/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index d4701f6..5e0b192 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -932,9 +932,12 @@ fn check_project(input_dir: PathBuf) -> Result<()> {
     println!();
 
     // Find all C files
-    let c_files: Vec<PathBuf> = WalkDir::new(&input_dir)
+    let entries = WalkDir::new(&input_dir)
+        .into_iter()
+        .collect::<std::result::Result<Vec<_>, _>>()
+        .with_context(|| format!("Failed to list {}", input_dir.display()))?;
+    let c_files: Vec<PathBuf> = entries
         .into_iter()
-        .filter_map(|e| e.ok())
         .filter(|e| e.path().extension().and_then(|s| s.to_str()) == Some("c"))
         .map(|e| e.path().to_path_buf())
         .collect();
-- 
2.43.0

