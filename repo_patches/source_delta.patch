From c359e6930ed4cfe0f55fd76b63db02478eb97386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 001/176] fix: Transform.to_euler_xyz reads back the angles
 from_euler_xyz takes

from_euler_xyz composes Rx @ Ry @ Rz but to_euler_xyz extracted a
Z-Y-X decomposition, so rotation_xyz written by to_dict denoted another
rotation when read back through from_dict.
---
 src/yapcad/kinematics/transform.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/kinematics/transform.py b/src/yapcad/kinematics/transform.py
index 5563a03..a59af8d 100644
--- a/src/yapcad/kinematics/transform.py
+++ b/src/yapcad/kinematics/transform.py
@@ -300,17 +300,18 @@ class Transform:
         """
         R = self.matrix[:3, :3]
 
-        # Extract angles using atan2 for robustness
-        sy = math.sqrt(R[0, 0] ** 2 + R[1, 0] ** 2)
-
-        if sy > 1e-6:
-            rx = math.atan2(R[2, 1], R[2, 2])
-            ry = math.atan2(-R[2, 0], sy)
-            rz = math.atan2(R[1, 0], R[0, 0])
+        # Extract angles using atan2 for robustness (R = Rx @ Ry @ Rz, the
+        # convention of from_euler_xyz)
+        cy = math.sqrt(R[0, 0] ** 2 + R[0, 1] ** 2)
+
+        if cy > 1e-6:
+            rx = math.atan2(-R[1, 2], R[2, 2])
+            ry = math.atan2(R[0, 2], cy)
+            rz = math.atan2(-R[0, 1], R[0, 0])
         else:
             # Gimbal lock
-            rx = math.atan2(-R[1, 2], R[1, 1])
-            ry = math.atan2(-R[2, 0], sy)
+            rx = math.atan2(R[2, 1], R[1, 1])
+            ry = math.atan2(R[0, 2], cy)
             rz = 0
 
         return (
-- 
2.43.0


From 15b5f4d976b5dfb25cbf101ecba5fd6fe8ae2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 002/176] fix: emit returns from the command

emit is documented as an early return, but execution went on after it:
a later emit replaced the value and recursion guarded by an early emit
never stopped.
---
 src/yapcad/dsl/runtime/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..a6a0a4e 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -349,6 +349,8 @@ class Interpreter:
                 for key, expr in stmt.metadata.items():
                     metadata[key] = self._evaluate(expr, ctx).data
         ctx.set_emit(value, metadata)
+        # emit is the command's return: nothing after it runs
+        ctx.signal_return(value)
 
     def _execute_for(self, stmt: ForStatement, ctx: ExecutionContext) -> None:
         """Execute a for loop."""
-- 
2.43.0


From 9d1f70f18b97a883770e6208077c467a1bbacf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 003/176] fix: a command call evaluates to the emitted value

_call_command handed back the EmitResult wrapper instead of its Value,
so using a helper's result as a condition or receiver raised
AttributeError.
---
 src/yapcad/dsl/runtime/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index a6a0a4e..7d31c50 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -747,7 +747,7 @@ class Interpreter:
 
             # Return the emitted value
             if cmd_ctx.emit_result is not None:
-                return cmd_ctx.emit_result
+                return cmd_ctx.emit_result.value
             else:
                 raise RuntimeError(f"Command '{command.name}' did not emit a value")
         finally:
-- 
2.43.0


From 802056795bc76b1d79b7a154588e3b72c4c0f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 004/176] fix: require failures of called commands are reported

A helper command's failed require was recorded in the helper's own
context and dropped, so the calling command succeeded.
---
 src/yapcad/dsl/runtime/interpreter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 7d31c50..a17ff9c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -745,6 +745,9 @@ class Interpreter:
             # the same metadata as a top-level command would.
             self._apply_command_meta_hint(command, cmd_ctx)
 
+            # A constraint violated in a helper is a violation of the caller
+            parent_ctx.require_failures.extend(cmd_ctx.require_failures)
+
             # Return the emitted value
             if cmd_ctx.emit_result is not None:
                 return cmd_ctx.emit_result.value
-- 
2.43.0


From 3f82c02d226a0e4680c571dfd3a5df8ce837833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 005/176] fix: require failures carry the message text

The message was stored as an AST node instead of the string it denotes.
---
 src/yapcad/dsl/runtime/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index a17ff9c..9e53200 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -332,7 +332,10 @@ class Interpreter:
         """Execute a require statement."""
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
-            message = stmt.message if stmt.message else "Constraint violated"
+            if stmt.message is not None:
+                message = self._evaluate(stmt.message, ctx).data
+            else:
+                message = "Constraint violated"
             ctx.add_require_failure(message)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From c9fc9aeec93604b2c45cf302d4bbd5807689a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 006/176] fix: and/or evaluate the right operand only when
 needed

The right operand was evaluated before the short-circuit test, so a
guard such as `n != 0 and 10 / n > 1` failed when the guard was false.
---
 src/yapcad/dsl/runtime/interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 9e53200..154a346 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -571,17 +571,18 @@ class Interpreter:
     def _eval_binary_op(self, op: BinaryOp, ctx: ExecutionContext) -> Value:
         """Evaluate a binary operation."""
         left = self._evaluate(op.left, ctx)
-        right = self._evaluate(op.right, ctx)
 
         # Short-circuit for logical operators
         if op.operator == TokenType.AND:
             if not left.is_truthy():
                 return bool_val(False)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
         elif op.operator == TokenType.OR:
             if left.is_truthy():
                 return bool_val(True)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
+
+        right = self._evaluate(op.right, ctx)
 
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
-- 
2.43.0


From 87e711644e2faf4618f9afe235ece949a292ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 007/176] fix: a trailing expression statement of a block is
 executed

The parser moves the last expression statement of a block to
final_expression, which the interpreter never evaluated: a call such as
add_part(...) or print(...) as the last line of a loop, branch or command
had no effect.
---
 src/yapcad/dsl/runtime/interpreter.py | 38 +++++++++++----------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 154a346..2b8ef07 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -253,10 +253,17 @@ class Interpreter:
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
-        for stmt in command.body.statements:
+        self._execute_body(command.body, ctx)
+
+    def _execute_body(self, block: Block, ctx: ExecutionContext) -> None:
+        """Execute the statements of a block in the current scope."""
+        for stmt in block.statements:
             self._execute_statement(stmt, ctx)
             if ctx.should_return:
-                break
+                return
+        # The parser keeps a trailing expression statement separately
+        if block.final_expression is not None:
+            self._evaluate(block.final_expression, ctx)
 
     def _apply_command_meta_hint(self, command: Command, ctx: ExecutionContext) -> None:
         """Apply a command's merged ``@meta(...)`` hint to its emitted solid.
@@ -376,10 +383,9 @@ class Interpreter:
         with ctx.new_scope("for-loop"):
             for item in items:
                 ctx.set_variable(stmt.variable, wrap_value(item, elem_type))
-                for body_stmt in stmt.body.statements:
-                    self._execute_statement(body_stmt, ctx)
-                    if ctx.should_return:
-                        return
+                self._execute_body(stmt.body, ctx)
+                if ctx.should_return:
+                    return
 
     # NOTE: _execute_while removed - while loops not supported for static verifiability
 
@@ -390,10 +396,7 @@ class Interpreter:
         if condition.is_truthy():
             # Execute then branch
             with ctx.new_scope("if-then"):
-                for body_stmt in stmt.then_branch.statements:
-                    self._execute_statement(body_stmt, ctx)
-                    if ctx.should_return:
-                        return
+                self._execute_body(stmt.then_branch, ctx)
         else:
             # Check elif branches
             executed = False
@@ -401,20 +404,14 @@ class Interpreter:
                 elif_cond = self._evaluate(elif_branch.condition, ctx)
                 if elif_cond.is_truthy():
                     with ctx.new_scope("elif"):
-                        for body_stmt in elif_branch.body.statements:
-                            self._execute_statement(body_stmt, ctx)
-                            if ctx.should_return:
-                                return
+                        self._execute_body(elif_branch.body, ctx)
                     executed = True
                     break
 
             # Execute else branch if no elif matched
             if not executed and stmt.else_branch is not None:
                 with ctx.new_scope("else"):
-                    for body_stmt in stmt.else_branch.statements:
-                        self._execute_statement(body_stmt, ctx)
-                        if ctx.should_return:
-                            return
+                    self._execute_body(stmt.else_branch, ctx)
 
     def _execute_return(self, stmt: ReturnStatement, ctx: ExecutionContext) -> None:
         """Execute a return statement."""
@@ -427,10 +424,7 @@ class Interpreter:
     def _execute_block(self, block: Block, ctx: ExecutionContext) -> None:
         """Execute a block of statements."""
         with ctx.new_scope("block"):
-            for stmt in block.statements:
-                self._execute_statement(stmt, ctx)
-                if ctx.should_return:
-                    break
+            self._execute_body(block, ctx)
 
     def _execute_python_block(self, block: PythonBlock, ctx: ExecutionContext) -> None:
         """Execute an embedded Python block."""
-- 
2.43.0


From 7e71c055189874b6fd5e0541f9056e8156535c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 008/176] fix: "name = value" assigns when the variable is
 already in scope

Every bare assignment was parsed as a declaration, so x = improve(x)
inside a loop or branch (the form the documentation uses) bound a new
variable local to the block and the outer one never changed, and the
same statement in the declaring scope was rejected as a redefinition.
---
 src/yapcad/dsl/ast.py                 |  2 ++
 src/yapcad/dsl/checker.py             | 14 ++++++++++++++
 src/yapcad/dsl/parser.py              |  3 ++-
 src/yapcad/dsl/runtime/interpreter.py |  2 ++
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/ast.py b/src/yapcad/dsl/ast.py
index 0f85da2..300f9ac 100644
--- a/src/yapcad/dsl/ast.py
+++ b/src/yapcad/dsl/ast.py
@@ -329,6 +329,8 @@ class VarDecl(Statement):
     name: str
     type_annotation: Optional[TypeNode]
     initializer: Optional[Expression]
+    # True for a bare "x = 42", which assigns when x already names a variable
+    rebinds: bool = False
 
 
 # Keep LetStatement as alias for backward compatibility during transition
diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2584f2f..bc4aa3d 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -378,6 +378,20 @@ class TypeChecker:
         """Check a let statement."""
         init_type = self._check_expression(stmt.initializer)
 
+        if getattr(stmt, "rebinds", False):
+            existing = self.symbols.lookup(stmt.name)
+            if existing is not None and existing.kind in (
+                SymbolKind.VARIABLE, SymbolKind.PARAMETER
+            ):
+                # Bare "x = value" with x in scope: assignment to x
+                if not existing.type.is_assignable_from(init_type):
+                    self._error(
+                        f"Cannot assign '{init_type}' to target of type '{existing.type}'",
+                        stmt.initializer.span,
+                        "E212"
+                    )
+                return
+
         if stmt.type_annotation is not None:
             declared_type = self._resolve_type_node(stmt.type_annotation)
             if not declared_type.is_assignable_from(init_type):
diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 457c7da..30c8f1a 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -823,7 +823,8 @@ class Parser:
             span=self._span_from(start),
             name=name,
             type_annotation=None,
-            initializer=initializer
+            initializer=initializer,
+            rebinds=True
         )
 
     def _parse_let_statement(self) -> LetStatement:
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 2b8ef07..19540d3 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -327,6 +327,8 @@ class Interpreter:
     def _execute_let(self, stmt: LetStatement, ctx: ExecutionContext) -> None:
         """Execute a let statement."""
         value = self._evaluate(stmt.initializer, ctx)
+        if getattr(stmt, "rebinds", False) and ctx.update_variable(stmt.name, value):
+            return
         ctx.set_variable(stmt.name, value)
 
     def _execute_assignment(self, stmt: AssignmentStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From 54f26cba69eb0eb6767a746e2a5a05fb3a6d490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 009/176] fix: checking a return statement no longer raises
 AttributeError

ReturnStatement has no return_type.
---
 src/yapcad/dsl/checker.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index bc4aa3d..583aacb 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -552,13 +552,9 @@ class TypeChecker:
             self.symbols.pop_scope()
 
     def _check_return_statement(self, stmt: ReturnStatement) -> None:
-        """Check a return statement (for Python blocks)."""
-        value_type = self._check_expression(stmt.value)
-        declared_type = self._resolve_type_node(stmt.return_type)
-
-        # The declared type is the bridge type - we trust the user's annotation
-        # but flag it as requiring review
-        self._has_python_blocks = True
+        """Check a return statement."""
+        if stmt.value is not None:
+            self._check_expression(stmt.value)
 
     def _check_python_block(self, stmt: PythonBlock) -> None:
         """Check a Python block (just flag it for review)."""
-- 
2.43.0


From 6ad17c582f3507e5c1204b6e08579dcea7f79cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 010/176] fix: the empty list literal is assignable to any list
 type

`holes: list<solid> = []`, as the guide writes it, was rejected.
---
 src/yapcad/dsl/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/dsl/types.py b/src/yapcad/dsl/types.py
index 1b13200..a9e6a06 100644
--- a/src/yapcad/dsl/types.py
+++ b/src/yapcad/dsl/types.py
@@ -207,6 +207,9 @@ class ListType(Type):
     def is_assignable_from(self, other: "Type") -> bool:
         if not isinstance(other, ListType):
             return False
+        # The empty list literal has no element type of its own
+        if isinstance(other.element_type, UnknownType):
+            return True
         return self.element_type.is_assignable_from(other.element_type)
 
 
-- 
2.43.0


From 22af1188b947a21f82e8391c57143aa83dadc470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 011/176] fix: lists mixing int and float elements are float
 lists at run time

[1, 2.5] type-checks as list<float> but was tagged list<int> when
evaluated, so arithmetic on an element (xs[1] + 1) truncated it.
---
 src/yapcad/dsl/runtime/builtins.py    |  2 ++
 src/yapcad/dsl/runtime/interpreter.py | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 972b13f..79ba949 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -2933,6 +2933,8 @@ class BuiltinRegistry:
             combined = list1.data + list2.data
             # Get element type from the list type info, not from data
             elem_type = list1.type.element_type
+            if not list1.data or (elem_type == INT and list2.type.element_type == FLOAT):
+                elem_type = list2.type.element_type
             # Create Value directly since combined contains raw data
             return Value(combined, ListType(elem_type))
 
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 19540d3..f76077c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -590,6 +590,8 @@ class Interpreter:
                 # Use the element type from the ListType, not from the data
                 # Create Value directly since combined contains raw data (not Value objects)
                 elem_type = left.type.element_type
+                if not left.data or (elem_type == INT and right.type.element_type == FLOAT):
+                    elem_type = right.type.element_type
                 return Value(combined, ListType(elem_type))
             result = left.data + right.data
             if left.type == INT and right.type == INT:
@@ -840,8 +842,15 @@ class Interpreter:
             return list_val([], INT)  # Empty list, default to int
 
         values = [self._evaluate(elem, ctx) for elem in lst.elements]
-        elem_type = values[0].type if values else INT
-        return list_val(values, elem_type)
+        return list_val(values, self._element_type(values))
+
+    @staticmethod
+    def _element_type(values: List[Value]) -> Type:
+        """Element type of a non-empty list: float if ints and floats are mixed."""
+        elem_type = values[0].type
+        if elem_type == INT and any(v.type == FLOAT for v in values):
+            return FLOAT
+        return elem_type
 
     def _eval_list_comprehension(self, comp: ListComprehension, ctx: ExecutionContext) -> Value:
         """Evaluate a list comprehension with one or more for clauses.
@@ -873,7 +882,7 @@ class Interpreter:
             self._eval_comprehension_clauses(comp.clauses, comp.element_expr, ctx, results)
 
         if results:
-            return list_val(results, results[0].type)
+            return list_val(results, self._element_type(results))
         return list_val([], INT)
 
     def _eval_comprehension_clauses(
-- 
2.43.0


From 7930e54816563d0220353ad32179443f435624ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 012/176] fix: named arguments of command calls are not dropped

Named arguments following positional ones were ignored (the default was
used instead) and misspelt names went unnoticed.
---
 src/yapcad/dsl/runtime/interpreter.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index f76077c..7f6767a 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -677,11 +677,18 @@ class Interpreter:
                 if cmd.name == func_name:
                     # Resolve named_arguments into positional order if present
                     named = getattr(call, 'named_arguments', {})
-                    if named and not args:
-                        # Build positional arg list from named_arguments
-                        # matching command parameter order
-                        resolved = []
-                        for param in cmd.parameters:
+                    if named:
+                        # Build positional arg list from the positional
+                        # arguments followed by named_arguments matched in
+                        # command parameter order
+                        resolved = list(args)
+                        unknown = set(named) - {p.name for p in cmd.parameters[len(args):]}
+                        if unknown:
+                            raise RuntimeError(
+                                f"Command '{func_name}' got unexpected argument(s) "
+                                f"{', '.join(sorted(unknown))}"
+                            )
+                        for param in cmd.parameters[len(args):]:
                             if param.name in named:
                                 resolved.append(self._evaluate(named[param.name], ctx))
                             elif param.default_value is not None:
-- 
2.43.0


From 7dbc4e3f18247e203d075edf90ef51f3b07415bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 013/176] fix: errors during DSL execution are reported in the
 result

Only RuntimeError was caught: a division by zero, an index out of range
or an error inside a builtin escaped from execute()/compile_and_run(),
and require failures recorded before it were lost.
---
 src/yapcad/dsl/runtime/interpreter.py | 31 ++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 7f6767a..5515052 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -69,6 +69,11 @@ class ExecutionResult:
         return {}
 
 
+def _describe_error(e: Exception) -> str:
+    """Message for an error raised during execution."""
+    return str(e) if isinstance(e, RuntimeError) else f"{type(e).__name__}: {e}"
+
+
 class Interpreter:
     """
     Tree-walking interpreter for DSL execution.
@@ -127,6 +132,20 @@ class Interpreter:
         Returns:
             ExecutionResult with geometry and provenance
         """
+        try:
+            return self._execute_module(module, command_name, parameters, source)
+        except Exception as e:
+            # Run-time errors are results, not exceptions, whatever raised them
+            return ExecutionResult(success=False, error_message=_describe_error(e))
+
+    def _execute_module(
+        self,
+        module: Module,
+        command_name: str,
+        parameters: Dict[str, Any],
+        source: str,
+    ) -> ExecutionResult:
+        """Execute a command; see execute()."""
         # Apply optional AST transforms
         transformed_module = module
         for transform in self.transforms:
@@ -172,10 +191,10 @@ class Interpreter:
         # Execute the command body
         try:
             self._execute_command(command, ctx)
-        except RuntimeError as e:
+        except Exception as e:
             return ExecutionResult(
                 success=False,
-                error_message=str(e),
+                error_message=_describe_error(e),
                 require_failures=ctx.require_failures,
             )
 
@@ -1131,7 +1150,13 @@ def compile_and_run(
         )
 
     # Type check
-    check_result = check(module)
+    try:
+        check_result = check(module)
+    except Exception as e:
+        return ExecutionResult(
+            success=False,
+            error_message=f"Checker error: {e}",
+        )
     if check_result.has_errors:
         error_msgs = [str(d) for d in check_result.diagnostics if d.severity.name == 'ERROR']
         return ExecutionResult(
-- 
2.43.0


From dc92df171b1237d54da20097022064c53f0c6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 014/176] fix: commands can recurse to the configured depth

Each command call nests ten or more interpreter frames, so Python's own
recursion limit stopped programs well below the documented depth of 100
(or any larger --recursion-limit).
---
 src/yapcad/dsl/runtime/interpreter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 5515052..d7ae071 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -5,12 +5,16 @@ Evaluates AST nodes to produce geometry and other values.
 """
 
 import os
+import sys
 from dataclasses import dataclass, field
 from typing import Any, Dict, List, Optional, Callable, Union
 
 # Default recursion limit for command-to-command calls
 DEFAULT_RECURSION_LIMIT = 100
 
+# Python frames one command-to-command call may need (nested blocks and expressions)
+_FRAMES_PER_CALL = 100
+
 # Default limits for list comprehensions (prevent combinatorial explosion)
 DEFAULT_COMPREHENSION_MAX_SIZE = 100000  # Max elements in result list
 DEFAULT_COMPREHENSION_MAX_DEPTH = 4       # Max nesting depth of for clauses
@@ -132,11 +136,16 @@ class Interpreter:
         Returns:
             ExecutionResult with geometry and provenance
         """
+        # The configured call depth, not Python's own recursion limit, is the bound
+        python_limit = sys.getrecursionlimit()
+        sys.setrecursionlimit(python_limit + _FRAMES_PER_CALL * max(0, self.recursion_limit))
         try:
             return self._execute_module(module, command_name, parameters, source)
         except Exception as e:
             # Run-time errors are results, not exceptions, whatever raised them
             return ExecutionResult(success=False, error_message=_describe_error(e))
+        finally:
+            sys.setrecursionlimit(python_limit)
 
     def _execute_module(
         self,
-- 
2.43.0


From 8e29facdc37cab5458efcf9306f07ca905080920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 015/176] fix: a block comment at the start of a line does not
 disturb its indentation

---
 src/yapcad/dsl/lexer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index f7e1fec..ed2057f 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -178,10 +178,12 @@ class Lexer:
         if self._peek() == '#':
             self._skip_comment()
             return None
-        if self._peek() == '/' and self._peek(1) == '*':
+        while self._peek() == '/' and self._peek(1) == '*':
             self._skip_multiline_comment()
-            # After multiline comment, check if we're at line start again
-            return None
+            self._skip_whitespace_within_line()
+            # Nothing but comments on the line: it has no indentation
+            if self._peek() in '\n#\0':
+                return None
 
         self.at_line_start = False
 
-- 
2.43.0


From a3d3bb8ac4a33559d303fc4450a64860b40cd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 016/176] fix: 'return;' parses in brace blocks

---
 src/yapcad/dsl/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 30c8f1a..1e350f9 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -999,7 +999,8 @@ class Parser:
 
         value = None
         # Check if there's a return value (not just 'return' on its own)
-        if not self._check_any(TokenType.NEWLINE, TokenType.DEDENT, TokenType.EOF):
+        if not self._check_any(TokenType.NEWLINE, TokenType.DEDENT, TokenType.EOF,
+                               TokenType.SEMICOLON, TokenType.RBRACE):
             value = self._parse_expression()
 
         # Legacy: 'return value as type' syntax
-- 
2.43.0


From daac9a7a29998afcb360359b61c0fa0ebdc281c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 017/176] fix: list parameters of an executed command keep
 their type

---
 src/yapcad/dsl/runtime/interpreter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index d7ae071..48c8fa4 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -30,7 +30,7 @@ from .builtins import call_builtin, call_method, get_builtin_registry
 from .provenance import Provenance, create_provenance
 
 from ..ast import (
-    AstNode, Module, Command, FunctionDef, Parameter,
+    AstNode, Module, Command, FunctionDef, Parameter, TypeNode, GenericType,
     Statement, LetStatement, VarDecl, AssignmentStatement,
     RequireStatement, AssertStatement,
     EmitStatement, ForStatement, WhileStatement, IfStatement,
@@ -258,7 +258,9 @@ class Interpreter:
             if param.name in parameters:
                 raw_value = parameters[param.name]
                 # Handle optional type annotations (new Pythonic syntax)
-                if param.type_annotation is not None and hasattr(param.type_annotation, 'name'):
+                if isinstance(param.type_annotation, GenericType):
+                    param_type = self._resolve_generic(param.type_annotation)
+                elif param.type_annotation is not None and hasattr(param.type_annotation, 'name'):
                     param_type = resolve_type_name(param.type_annotation.name)
                 else:
                     # Infer type from the raw value
@@ -279,6 +281,12 @@ class Interpreter:
                 wrapped[param.name] = default_val
         return wrapped
 
+    def _resolve_generic(self, node: TypeNode) -> Type:
+        """Resolve a (possibly nested) list<T> annotation to its type."""
+        if isinstance(node, GenericType):
+            return ListType(self._resolve_generic(node.type_args[0]))
+        return resolve_type_name(node.name)
+
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
         self._execute_body(command.body, ctx)
-- 
2.43.0


From 9ebbe6994dec6c70085e8a66e14be253fbd82810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 018/176] fix: element types of lists with empty or mixed
 elements at run time

---
 src/yapcad/dsl/runtime/builtins.py    |  7 ++-----
 src/yapcad/dsl/runtime/interpreter.py | 17 +++++++----------
 src/yapcad/dsl/runtime/values.py      | 16 +++++++++++++++-
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 79ba949..0f80bff 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -30,6 +30,7 @@ from .values import (
     Value, int_val, float_val, bool_val, string_val, list_val,
     point_val, vector_val, transform_val, solid_val, region2d_val,
     surface_val, shell_val, path3d_val, edge_list_val, wrap_value, unwrap_value, unwrap_values,
+    join_types,
     assembly_val,
 )
 from ..types import (
@@ -2931,12 +2932,8 @@ class BuiltinRegistry:
         def _concat(list1: Value, list2: Value) -> Value:
             """Concatenate two lists."""
             combined = list1.data + list2.data
-            # Get element type from the list type info, not from data
-            elem_type = list1.type.element_type
-            if not list1.data or (elem_type == INT and list2.type.element_type == FLOAT):
-                elem_type = list2.type.element_type
             # Create Value directly since combined contains raw data
-            return Value(combined, ListType(elem_type))
+            return Value(combined, join_types(list1.type, list2.type))
 
         def _reverse(lst: Value) -> Value:
             """Reverse a list."""
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 48c8fa4..f5344cd 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -22,7 +22,7 @@ DEFAULT_COMPREHENSION_MAX_DEPTH = 4       # Max nesting depth of for clauses
 from .values import (
     Value, EmitResult, RequireFailure,
     int_val, float_val, bool_val, string_val, list_val, dict_val, none_val,
-    wrap_value, unwrap_value, coerce_numeric,
+    wrap_value, unwrap_value, coerce_numeric, join_types,
 )
 from ..meta_apply import apply_meta_hint
 from .context import ExecutionContext, create_context
@@ -44,7 +44,7 @@ from ..ast import (
 )
 from ..types import (
     Type, ListType, DictType, resolve_type_name,
-    INT, FLOAT, BOOL, STRING,
+    INT, FLOAT, BOOL, STRING, UNKNOWN,
 )
 from ..tokens import SourceSpan, TokenType
 
@@ -625,10 +625,7 @@ class Interpreter:
                 combined = left.data + right.data
                 # Use the element type from the ListType, not from the data
                 # Create Value directly since combined contains raw data (not Value objects)
-                elem_type = left.type.element_type
-                if not left.data or (elem_type == INT and right.type.element_type == FLOAT):
-                    elem_type = right.type.element_type
-                return Value(combined, ListType(elem_type))
+                return Value(combined, join_types(left.type, right.type))
             result = left.data + right.data
             if left.type == INT and right.type == INT:
                 return int_val(result)
@@ -882,7 +879,7 @@ class Interpreter:
     def _eval_list_literal(self, lst: ListLiteral, ctx: ExecutionContext) -> Value:
         """Evaluate a list literal."""
         if not lst.elements:
-            return list_val([], INT)  # Empty list, default to int
+            return list_val([], UNKNOWN)
 
         values = [self._evaluate(elem, ctx) for elem in lst.elements]
         return list_val(values, self._element_type(values))
@@ -891,8 +888,8 @@ class Interpreter:
     def _element_type(values: List[Value]) -> Type:
         """Element type of a non-empty list: float if ints and floats are mixed."""
         elem_type = values[0].type
-        if elem_type == INT and any(v.type == FLOAT for v in values):
-            return FLOAT
+        for v in values[1:]:
+            elem_type = join_types(elem_type, v.type)
         return elem_type
 
     def _eval_list_comprehension(self, comp: ListComprehension, ctx: ExecutionContext) -> Value:
@@ -926,7 +923,7 @@ class Interpreter:
 
         if results:
             return list_val(results, self._element_type(results))
-        return list_val([], INT)
+        return list_val([], UNKNOWN)
 
     def _eval_comprehension_clauses(
         self,
diff --git a/src/yapcad/dsl/runtime/values.py b/src/yapcad/dsl/runtime/values.py
index 7a8a1c3..96c76ef 100644
--- a/src/yapcad/dsl/runtime/values.py
+++ b/src/yapcad/dsl/runtime/values.py
@@ -13,7 +13,7 @@ from ..types import (
     Type, PrimitiveType, GeometricPrimitiveType, CurveType,
     CompoundCurveType, SurfaceType, SolidType, ListType, DictType,
     OptionalTypeWrapper, FunctionType,
-    INT, FLOAT, BOOL, STRING,
+    INT, FLOAT, BOOL, STRING, UNKNOWN,
     POINT, POINT2D, POINT3D, VECTOR, VECTOR2D, VECTOR3D, TRANSFORM,
     SOLID, REGION2D, SURFACE, SHELL, EDGE, ASSEMBLY,
 )
@@ -144,6 +144,20 @@ def edge_list_val(edge_list_data: Any) -> Value:
 
 # Type checking utilities
 
+def join_types(t1: Type, t2: Type) -> Type:
+    """Type of a list element that is either a t1 or a t2 at run time.
+
+    Empty lists have element type UNKNOWN and give way to any other list.
+    """
+    if isinstance(t1, ListType) and isinstance(t2, ListType):
+        return ListType(join_types(t1.element_type, t2.element_type))
+    if t1 == UNKNOWN:
+        return t2
+    if t1 == INT and t2 == FLOAT:
+        return FLOAT
+    return t1
+
+
 def unwrap_value(v: Value) -> Any:
     """Extract the raw Python/yapCAD data from a Value."""
     return v.data
-- 
2.43.0


From 351e7f4ad3cd3ad21d30cd6bad7cfc5b26ee54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 019/176] fix: loop iterations and comprehension clauses have
 scopes of their own

---
 src/yapcad/dsl/runtime/interpreter.py | 39 ++++++++++++++-------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index f5344cd..b3669ed 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -418,8 +418,9 @@ class Interpreter:
         else:
             elem_type = INT  # Default for ranges
 
-        with ctx.new_scope("for-loop"):
-            for item in items:
+        for item in items:
+            # Every iteration has its own scope
+            with ctx.new_scope("for-loop"):
                 ctx.set_variable(stmt.variable, wrap_value(item, elem_type))
                 self._execute_body(stmt.body, ctx)
                 if ctx.should_return:
@@ -918,8 +919,7 @@ class Interpreter:
 
         results: list = []
 
-        with ctx.new_scope("comprehension"):
-            self._eval_comprehension_clauses(comp.clauses, comp.element_expr, ctx, results)
+        self._eval_comprehension_clauses(comp.clauses, comp.element_expr, ctx, results)
 
         if results:
             return list_val(results, self._element_type(results))
@@ -973,21 +973,22 @@ class Interpreter:
             else:
                 elem_type = INT
 
-            # Bind loop variable
-            ctx.set_variable(clause.variable, wrap_value(item, elem_type))
-
-            # Check all conditions for this clause
-            skip = False
-            for condition in clause.conditions:
-                cond = self._evaluate(condition, ctx)
-                if not cond.is_truthy():
-                    skip = True
-                    break
-            if skip:
-                continue
-
-            # Recurse to inner clauses (or evaluate element if no more clauses)
-            self._eval_comprehension_clauses(remaining_clauses, element_expr, ctx, results)
+            # Bind loop variable, in a scope of its own for every element
+            with ctx.new_scope("comprehension"):
+                ctx.set_variable(clause.variable, wrap_value(item, elem_type))
+
+                # Check all conditions for this clause
+                skip = False
+                for condition in clause.conditions:
+                    cond = self._evaluate(condition, ctx)
+                    if not cond.is_truthy():
+                        skip = True
+                        break
+                if skip:
+                    continue
+
+                # Recurse to inner clauses (or evaluate element if no more clauses)
+                self._eval_comprehension_clauses(remaining_clauses, element_expr, ctx, results)
 
     def _eval_range(self, range_expr: RangeExpr, ctx: ExecutionContext) -> Value:
         """Evaluate a range expression."""
-- 
2.43.0


From 49247a9c523312dfd048e426ba907f680e774c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 020/176] fix: the checker checks iterables, comprehension
 scopes and command call arguments

---
 src/yapcad/dsl/checker.py | 60 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 583aacb..e71e5b0 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -83,6 +83,7 @@ class TypeChecker:
         self._call_graph: Dict[str, set] = {}
         # Set of command names (to distinguish from builtins/native functions)
         self._command_names: set = set()
+        self._commands: Dict[str, Command] = {}
 
     def check(self, module: Module) -> CheckResult:
         """Type check a complete module."""
@@ -113,6 +114,7 @@ class TypeChecker:
         for command in module.commands:
             self._register_command(command)
             self._command_names.add(command.name)
+            self._commands[command.name] = command
             self._call_graph[command.name] = set()
 
         # Third pass: check command/function bodies (populates call graph)
@@ -488,6 +490,7 @@ class TypeChecker:
     def _check_for_statement(self, stmt: ForStatement) -> None:
         """Check a for statement."""
         iterable_type = self._check_expression(stmt.iterable)
+        self._check_iterable(iterable_type, stmt.iterable)
 
         # Determine element type from iterable
         if isinstance(iterable_type, ListType):
@@ -810,6 +813,8 @@ class TypeChecker:
                                     arg.span,
                                     "E274"
                                 )
+                if callee_name in self._commands:
+                    self._check_command_arguments(self._commands[callee_name], expr)
                 return func_type.return_type
             return UNKNOWN
 
@@ -820,6 +825,44 @@ class TypeChecker:
         )
         return ERROR
 
+    def _check_command_arguments(self, command: Command, expr: FunctionCall) -> None:
+        """Check number and names of the arguments of a command call."""
+        count = len(expr.arguments)
+        if count > len(command.parameters):
+            self._error(
+                f"Command '{command.name}' takes at most {len(command.parameters)} "
+                f"arguments, got {count}",
+                expr.span,
+                "E275"
+            )
+        remaining = {p.name: p for p in command.parameters[count:]}
+        for name, arg in expr.named_arguments.items():
+            arg_type = self._check_expression(arg)
+            if name not in remaining:
+                self._error(
+                    f"Unexpected argument '{name}' for command '{command.name}'",
+                    arg.span,
+                    "E276"
+                )
+                continue
+            param = remaining.pop(name)
+            param_type = self._resolve_type_node(param.type_annotation)
+            if param_type != UNKNOWN and not param_type.is_assignable_from(arg_type):
+                if arg_type != ERROR:
+                    self._error(
+                        f"Argument '{name}' expects '{param_type}', got '{arg_type}'",
+                        arg.span,
+                        "E274"
+                    )
+        missing = [p.name for p in remaining.values() if p.default_value is None]
+        if missing:
+            self._error(
+                f"Command '{command.name}' is missing required argument(s) "
+                f"{', '.join(missing)}",
+                expr.span,
+                "E277"
+            )
+
     def _check_builtin_call(self, sig: FunctionSignature, expr: FunctionCall) -> Type:
         """Check a call to a built-in function."""
         # Check argument count
@@ -1046,13 +1089,12 @@ class TypeChecker:
             [expr for x in xs for y in ys]
             [expr for x in xs if c1 for y in ys if c2]
         """
-        # Create a single scope for all comprehension variables
-        self.symbols.push_scope("list comprehension")
-
         # Process each clause in order (left-to-right = outer-to-inner loop)
         for clause in expr.clauses:
             # Check the iterable expression (can reference earlier clause variables)
             iterable_type = self._check_expression(clause.iterable)
+            self._check_iterable(iterable_type, clause.iterable)
+            self.symbols.push_scope("list comprehension")
 
             # Determine element type from iterable
             if isinstance(iterable_type, ListType):
@@ -1082,10 +1124,20 @@ class TypeChecker:
         # Check element expression (can reference all clause variables)
         elem_type = self._check_expression(expr.element_expr)
 
-        self.symbols.pop_scope()
+        for _ in expr.clauses:
+            self.symbols.pop_scope()
 
         return make_list_type(elem_type)
 
+    def _check_iterable(self, iterable_type: Type, expr: Expression) -> None:
+        """Only lists can be iterated over."""
+        if isinstance(iterable_type, PrimitiveType):
+            self._error(
+                f"Cannot iterate over '{iterable_type}'",
+                expr.span,
+                "E228"
+            )
+
     def _check_range_expr(self, expr: RangeExpr) -> Type:
         """Check a range expression (e.g., 0..10)."""
         start_type = self._check_expression(expr.start)
-- 
2.43.0


From a15f763a83c010a162870eed2a41f3fcb940a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 021/176] fix: require failures in parameter defaults are
 reported

---
 src/yapcad/dsl/runtime/interpreter.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index b3669ed..9b59f0a 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -187,7 +187,8 @@ class Interpreter:
             )
 
         # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
+        default_failures: List[RequireFailure] = []
+        wrapped_params = self._wrap_parameters(command, parameters, default_failures)
 
         # Create execution context
         ctx = create_context(
@@ -196,6 +197,7 @@ class Interpreter:
             parameters=wrapped_params,
             source=source,
         )
+        ctx.require_failures.extend(default_failures)
 
         # Execute the command body
         try:
@@ -246,13 +248,21 @@ class Interpreter:
             provenance=provenance,
         )
 
-    def _wrap_parameters(self, command: Command, parameters: Dict[str, Any]) -> Dict[str, Value]:
-        """Wrap raw parameter values as DSL Values."""
+    def _wrap_parameters(
+        self,
+        command: Command,
+        parameters: Dict[str, Any],
+        failures: List[RequireFailure],
+    ) -> Dict[str, Value]:
+        """Wrap raw parameter values as DSL Values.
+
+        Constraints violated while evaluating defaults are added to failures.
+        """
         wrapped = {}
 
         # Create a temporary context for evaluating default values
         from .context import ExecutionContext
-        temp_ctx = ExecutionContext()
+        temp_ctx = ExecutionContext(require_failures=failures)
 
         for param in command.parameters:
             if param.name in parameters:
-- 
2.43.0


From 29ea32b0a530901c429851cc0c492477f33f29b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 022/176] fix: packaging accepts entities with structured
 material metadata

---
 src/yapcad/package/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..4292bf4 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -64,7 +64,8 @@ def _collect_material_refs(entities: Iterable[list]) -> List[str]:
         else:
             continue
         mat_ref = meta.get("material")
-        if mat_ref and mat_ref not in seen:
+        # a structured material section is not a reference to a manifest entry
+        if isinstance(mat_ref, str) and mat_ref and mat_ref not in seen:
             refs.append(mat_ref)
             seen.add(mat_ref)
     return refs
-- 
2.43.0


From 6b825d91031334400851bd8fd85724b88a460285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 023/176] fix: the package viewer accepts entities with
 structured material metadata

---
 src/yapcad/package/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/package/viewer.py b/src/yapcad/package/viewer.py
index a7ea0df..47573d2 100644
--- a/src/yapcad/package/viewer.py
+++ b/src/yapcad/package/viewer.py
@@ -195,7 +195,7 @@ def _collect_triangles(doc: Dict[str, any], materials: Dict[str, any] = None) ->
         layer = meta.get("layer", "default")
 
         # Determine bucket key and color
-        if material_id and material_id in materials:
+        if isinstance(material_id, str) and material_id in materials:
             bucket_key = f"mat:{material_id}"
             mat_def = materials[material_id]
             visual = mat_def.get("visual", {})
-- 
2.43.0


From a71329281be0ffb81ddf9fe64f8247a912979a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 024/176] fix: add_geometry_file rejects an unsupported
 category before copying

---
 src/yapcad/package/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 4292bf4..9acdbce 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -263,6 +263,9 @@ def add_geometry_file(
         The manifest entry dictionary that was inserted.
     """
 
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
+
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
@@ -270,10 +273,8 @@ def add_geometry_file(
     if dest_relative is None:
         if category == "derived":
             dest_relative_path = Path("geometry") / "derived" / src_path.name
-        elif category == "attachments":
-            dest_relative_path = Path("attachments") / src_path.name
         else:
-            dest_relative_path = Path(src_path.name)
+            dest_relative_path = Path("attachments") / src_path.name
     else:
         dest_relative_path = Path(dest_relative)
         if dest_relative_path.is_absolute():
@@ -307,14 +308,12 @@ def add_geometry_file(
         derived = [item for item in derived if item.get("path") != entry["path"]]
         derived.append(entry)
         geometry["derived"] = derived
-    elif category == "attachments":
+    else:
         attachments = manifest.data.setdefault("attachments", [])
         attachments = [item for item in attachments if item.get("path") != entry["path"]]
         entry.setdefault("id", dest_relative_path.stem)
         attachments.append(entry)
         manifest.data["attachments"] = attachments
-    else:
-        raise ValueError(f"unsupported category for geometry file: {category}")
 
     return entry
 
-- 
2.43.0


From 42f6f1cad7c179c54b7a42c2463270916b2658d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 025/176] fix: package validation uses the algorithm each hash
 was recorded with

---
 src/yapcad/package/validator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..633d44f 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -18,8 +18,15 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
-    actual_hash = _compute_hash(path)
-    if expected_hash and expected_hash.lower() != actual_hash.lower():
+    if not expected_hash:
+        return True, messages
+    algorithm = expected_hash.partition(":")[0].lower()
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except ValueError:
+        messages.append(f"ERROR: unsupported hash algorithm '{algorithm}' for {path}")
+        return False, messages
+    if expected_hash.lower() != actual_hash.lower():
         messages.append(
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
         )
-- 
2.43.0


From 683d0110e29e1431e0dbde18531a3677e0ab2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 026/176] fix: package file references must stay inside the
 package

---
 src/yapcad/package/core.py      |  7 +++++++
 src/yapcad/package/validator.py | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 9acdbce..2b804ec 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -31,6 +31,11 @@ def _compute_hash(path: Path, algorithm: str = "sha256") -> str:
     return f"{algorithm}:{h.hexdigest()}"
 
 
+def _is_inside(root: Path, path: Path) -> bool:
+    """True when ``path`` lies below the package directory ``root``."""
+    return root.resolve() in path.resolve().parents
+
+
 def _now_iso() -> str:
     return _dt.datetime.now(_dt.timezone.utc).isoformat()
 
@@ -279,6 +284,8 @@ def add_geometry_file(
         dest_relative_path = Path(dest_relative)
         if dest_relative_path.is_absolute():
             raise ValueError("dest_relative must be a relative path")
+        if not _is_inside(manifest.root, manifest.root / dest_relative_path):
+            raise ValueError("dest_relative must stay inside the package")
 
     dest_path = manifest.root / dest_relative_path
     dest_path.parent.mkdir(parents=True, exist_ok=True)
diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 633d44f..036a255 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -7,14 +7,17 @@ from pathlib import Path
 from typing import Any, Dict, List, Tuple
 
 from yapcad.io.geometry_json import geometry_from_json
-from .core import PackageManifest, _compute_hash
+from .core import PackageManifest, _compute_hash, _is_inside
 
 # Valid source types per material schema spec
 VALID_SOURCE_TYPES = {"standard", "vendor", "custom", "tested"}
 
 
-def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]:
+def _check_file(root: Path, path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]:
     messages: List[str] = []
+    if not _is_inside(root, path):
+        messages.append(f"ERROR: {path} is outside the package")
+        return False, messages
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
@@ -132,7 +135,7 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
         messages.append(f"ERROR: geometry.primary missing: {exc}")
         return False, messages
 
-    ok, file_messages = _check_file(primary_path, data.get("geometry", {}).get("primary", {}).get("hash"))
+    ok, file_messages = _check_file(manifest.root, primary_path, data.get("geometry", {}).get("primary", {}).get("hash"))
     messages.extend(file_messages)
     if ok:
         try:
@@ -149,7 +152,7 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
     derived_entries = data.get("geometry", {}).get("derived", []) or []
     for entry in derived_entries:
         derived_path = manifest.root / entry["path"]
-        ok_entry, msgs = _check_file(derived_path, entry.get("hash"))
+        ok_entry, msgs = _check_file(manifest.root, derived_path, entry.get("hash"))
         messages.extend(msgs)
         overall_ok = overall_ok and ok_entry
 
@@ -157,7 +160,7 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
     for section in ("exports", "attachments"):
         for entry in data.get(section, []) or []:
             file_path = manifest.root / entry["path"]
-            ok_entry, msgs = _check_file(file_path, entry.get("hash"))
+            ok_entry, msgs = _check_file(manifest.root, file_path, entry.get("hash"))
             messages.extend(msgs)
             overall_ok = overall_ok and ok_entry
             if strict and entry.get("hash") is None:
-- 
2.43.0


From 8e471e698aace5d9dad2df71c15c5862db79701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 027/176] fix: SSH signatures are checked for every principal
 and without trusted signers

---
 src/yapcad/package/signing.py | 53 ++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..4cc2c73 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -304,30 +304,37 @@ def _verify_ssh_signature(
     
     try:
         if allowed_signers and allowed_signers.exists():
-            # Verify with allowed signers (trusted verification)
-            # Need to figure out principal - for now use wildcard
-            cmd = [
-                "ssh-keygen", "-Y", "verify",
-                "-f", str(allowed_signers),
-                "-I", "*",  # Match any principal
-                "-n", namespace,
-                "-s", sig_file
-            ]
-            result = subprocess.run(cmd, input=content, capture_output=True)
-            
-            if result.returncode == 0:
-                return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
+            # Trusted when the key is listed for some principal and the signature verifies for it
+            found = subprocess.run(
+                ["ssh-keygen", "-Y", "find-principals", "-f", str(allowed_signers), "-s", sig_file],
+                capture_output=True,
+            )
+            principals = found.stdout.decode('utf-8').replace(',', '\n').splitlines()
+            for principal in principals:
+                cmd = [
+                    "ssh-keygen", "-Y", "verify",
+                    "-f", str(allowed_signers),
+                    "-I", principal,
+                    "-n", namespace,
+                    "-s", sig_file
+                ]
+                result = subprocess.run(cmd, input=content, capture_output=True)
+                if result.returncode == 0:
+                    return VerificationStatus.VALID, principal, None
+            reason = "Signer not in allowed_signers"
         else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
-            
+            reason = "No allowed_signers file provided"
+
+        # The signature carries its public key, so its integrity can be checked without trusting the signer
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content,
+            capture_output=True,
+        )
+        if result.returncode == 0:
+            return VerificationStatus.VALID_UNTRUSTED, "unknown", reason
+        return VerificationStatus.INVALID, "unknown", result.stderr.decode('utf-8')
+
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
     finally:
-- 
2.43.0


From c3cf82fe71ef5371b0d29da8e4da56ac82fc2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 028/176] fix: a custom keyring is used when verifying GPG
 signatures

---
 src/yapcad/package/signing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 4cc2c73..79a6ddb 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,10 +254,12 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg"]
         if keyring:
-            cmd.extend(["--keyring", str(keyring)])
-        
+            # without a directory part gpg would look in its home directory
+            cmd.extend(["--keyring", str(Path(keyring).absolute())])
+        cmd.extend(["--verify", sig_file, content_file])
+
         result = subprocess.run(cmd, capture_output=True)
         stderr = result.stderr.decode('utf-8')
         
-- 
2.43.0


From f2b9f0a267d21e72129a1364e9ccc321a7de252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 029/176] fix: GPG verification reports untrusted and missing
 keys as specified

---
 src/yapcad/package/signing.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 79a6ddb..3d99a39 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,7 +254,7 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg"]
+        cmd = ["gpg", "--status-fd", "1"]
         if keyring:
             # without a directory part gpg would look in its home directory
             cmd.extend(["--keyring", str(Path(keyring).absolute())])
@@ -273,9 +273,12 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
                     end = line.rfind('"')
                     if start > 0 and end > start:
                         signer = line[start:end]
-            return VerificationStatus.VALID, signer, None
-        elif "Can't check signature: No public key" in stderr:
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "Public key not found"
+            status = result.stdout.decode('utf-8')
+            if any(f"[GNUPG:] TRUST_{level}" in status for level in ("MARGINAL", "FULLY", "ULTIMATE")):
+                return VerificationStatus.VALID, signer, None
+            return VerificationStatus.VALID_UNTRUSTED, signer, "Key is not trusted"
+        elif "NO_PUBKEY" in result.stdout.decode('utf-8'):
+            return VerificationStatus.ERROR, "unknown", "Public key not found"
         else:
             return VerificationStatus.INVALID, "unknown", stderr
             
-- 
2.43.0


From c5612fe1dcd3121efce02b7012fc3826ee45a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 030/176] fix: adding a signature keeps the files of the
 existing ones

---
 src/yapcad/package/signing.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 3d99a39..a6209a8 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -347,6 +347,16 @@ def _verify_ssh_signature(
         Path(sig_file).unlink(missing_ok=True)
 
 
+def _free_signature_file(sig_dir: Path, name: str, kept: set) -> Path:
+    """Path in ``sig_dir`` for a new signature that replaces none of the ``kept`` ones."""
+    candidate, n = name, 2
+    while f"signatures/{candidate}" in kept:
+        stem, dot, suffix = name.rpartition('.')
+        candidate = f"{stem}-{n}{dot}{suffix}"
+        n += 1
+    return sig_dir / candidate
+
+
 def sign_package(
     package_path: str | Path,
     method: str | SignatureMethod = SignatureMethod.GPG,
@@ -385,13 +395,14 @@ def sign_package(
     # Create signatures directory
     sig_dir = pkg_path / "signatures"
     sig_dir.mkdir(exist_ok=True)
+    kept = {info.signature_file for info in list_signatures(pkg_path)} if add else set()
     
     # Sign based on method
     timestamp = datetime.now(timezone.utc).isoformat()
     
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
-        sig_file = sig_dir / "manifest.sig.asc"
+        sig_file = _free_signature_file(sig_dir, "manifest.sig.asc", kept)
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -408,7 +419,7 @@ def sign_package(
         
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
-        sig_file = sig_dir / f"manifest.sig.{safe_name}"
+        sig_file = _free_signature_file(sig_dir, f"manifest.sig.{safe_name}", kept)
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
-- 
2.43.0


From da112b2aa3b37d0caac80cb30578d9c71329b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 031/176] fix: manifests with unquoted timestamps can be signed

---
 src/yapcad/package/signing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index a6209a8..9128b09 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -126,7 +126,8 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
         data = {k: v for k, v in data.items() if k != 'signatures'}
     
     # Canonicalize: sort keys, compact JSON
-    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'))
+    # (YAML reads unquoted timestamps as dates)
+    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'), default=lambda value: value.isoformat())
     
     # Compute hash
     hash_bytes = hashlib.sha256(canonical.encode('utf-8')).digest()
-- 
2.43.0


From a8c7b9073e73fb26b1f72903943b07a3964e9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 032/176] fix: plans analysed through a relative package path
 are recorded relative to the package

---
 src/yapcad/package/analysis/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 1dacd8c..4343c39 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -22,7 +22,7 @@ def _ensure_plan_entry(manifest: PackageManifest, plan: AnalysisPlan, plan_path:
     if any(entry.get("id") == plan.plan_id for entry in plans):
         return
     try:
-        rel_path = str(plan_path.relative_to(manifest.root))
+        rel_path = str(plan_path.resolve().relative_to(manifest.root.resolve()))
     except ValueError:
         rel_path = str(plan_path)
     entry = {
-- 
2.43.0


From d68a3a46ce5af53b4ca424e25ceb592d08230e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 033/176] fix: result summaries carry the plan_id and
 acceptance results of the result schema

---
 src/yapcad/package/analysis/cli.py           | 1 +
 src/yapcad/package/analysis/yapcad_native.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 4343c39..464a2aa 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -107,6 +107,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         "timestamp": result.timestamp,
     }
     summary_payload.setdefault("plan", plan.plan_id)
+    summary_payload.setdefault("plan_id", plan.plan_id)  # required by the result schema
     summary_payload.setdefault("status", result.status)
     summary_payload.setdefault("backend", result.backend)
     summary_payload.setdefault("timestamp", result.timestamp)
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f3d6c29..78be601 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -106,6 +106,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
             # Evaluate acceptance criteria
             status = self._evaluate_acceptance(metrics, plan.acceptance)
             summary["metrics"] = metrics
+            summary["acceptance_results"] = self._build_acceptance_results(metrics, plan.acceptance)
 
             if status == "passed":
                 summary["statusDetail"] = "Acceptance criteria satisfied"
-- 
2.43.0


From d14ffdb2cc3ec818336dc050aa68af0bd47b5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 034/176] fix: re-running an analysis drops the metrics,
 artifacts and notes of the earlier run

---
 src/yapcad/package/analysis/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 464a2aa..c36402c 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -132,6 +132,9 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
     manifest_entry.setdefault("path", str(summary_path.relative_to(root)))
     existing = next((item for item in results if item.get("plan") == plan.plan_id), None)
     if existing:
+        # nothing of an earlier run may survive in the new result
+        for key in ("metrics", "artifacts", "notes"):
+            existing.pop(key, None)
         existing.update(manifest_entry)
     else:
         results.append(manifest_entry)
-- 
2.43.0


From b64e9a62ce0e50adfb0845c4b5bffcfdd15eccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 035/176] fix: schema validation reports malformed enumeration
 values instead of raising

---
 src/yapcad/package/analysis/schema.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 677541d..170cbba 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -183,6 +183,11 @@ def _check_field_type(
     return True
 
 
+def _is_one_of(value: Any, valid_values: Any) -> bool:
+    """True if value is one of the valid strings (values of other types never are)."""
+    return isinstance(value, str) and value in valid_values
+
+
 def _check_enum_value(
     value: Any,
     valid_values: Sequence[str],
@@ -190,7 +195,7 @@ def _check_enum_value(
     errors: List[SchemaError],
 ) -> bool:
     """Check that a value is one of the valid options."""
-    if value not in valid_values:
+    if not _is_one_of(value, valid_values):
         errors.append(SchemaError(
             path=path,
             message=f"Invalid value '{value}', expected one of: {', '.join(sorted(valid_values))}",
@@ -220,7 +225,7 @@ def validate_acceptance_criterion(
     if "comparison" in criterion:
         comparison = criterion["comparison"]
         valid_ops = {op.value for op in ComparisonOp}
-        if comparison not in valid_ops:
+        if not _is_one_of(comparison, valid_ops):
             errors.append(SchemaError(
                 path=f"{path}.comparison",
                 message=f"Invalid comparison '{comparison}', expected one of: {', '.join(sorted(valid_ops))}",
@@ -288,7 +293,7 @@ def validate_load(
         valid = False
     else:
         load_type = load["type"]
-        if load_type not in VALID_LOAD_TYPES:
+        if not _is_one_of(load_type, VALID_LOAD_TYPES):
             errors.append(SchemaError(
                 path=f"{load_path}.type",
                 message=f"Invalid load type '{load_type}', expected one of: {', '.join(sorted(VALID_LOAD_TYPES))}",
@@ -334,7 +339,7 @@ def validate_boundary_condition(
         valid = False
     else:
         bc_type = bc["type"]
-        if bc_type not in VALID_BC_TYPES:
+        if not _is_one_of(bc_type, VALID_BC_TYPES):
             errors.append(SchemaError(
                 path=f"{bc_path}.type",
                 message=f"Invalid BC type '{bc_type}', expected one of: {', '.join(sorted(VALID_BC_TYPES))}",
@@ -424,7 +429,7 @@ def validate_check_section(
     else:
         prop = check["property"]
         valid_props = VALID_CHECK_PROPERTIES.get(kind, set())
-        if prop not in valid_props:
+        if not _is_one_of(prop, valid_props):
             errors.append(SchemaError(
                 path=f"{path}.property",
                 message=f"Invalid property '{prop}' for kind '{kind}', expected one of: {', '.join(sorted(valid_props))}",
@@ -456,7 +461,7 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
     # Validate kind
     kind = data["kind"]
     valid_kinds = {k.value for k in ValidationKind}
-    if kind not in valid_kinds:
+    if not _is_one_of(kind, valid_kinds):
         errors.append(SchemaError(
             path="kind",
             message=f"Invalid kind '{kind}', expected one of: {', '.join(sorted(valid_kinds))}",
@@ -599,7 +604,7 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Validate status
     status = data["status"]
     valid_statuses = {s.value for s in ResultStatus}
-    if status not in valid_statuses:
+    if not _is_one_of(status, valid_statuses):
         errors.append(SchemaError(
             path="status",
             message=f"Invalid status '{status}', expected one of: {', '.join(sorted(valid_statuses))}",
-- 
2.43.0


From 001f66d96d785157365fdc08133a270f23d8e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 036/176] fix: an acceptance criterion on a missing metric or
 with an unknown comparison is not met

---
 src/yapcad/package/analysis/yapcad_native.py | 133 ++++++-------------
 1 file changed, 38 insertions(+), 95 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 78be601..f87674a 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -565,95 +565,58 @@ class YapCADNativeAdapter(AnalysisAdapter):
             "Clearance check requires entity lookup - not yet implemented"
         )
 
+    @staticmethod
+    def _metric_value(metrics: Dict[str, float], key: str) -> Optional[float]:
+        """Look up a metric by name, accepting dots and underscores for each other."""
+        for name in (key, key.replace(".", "_"), key.replace("_", ".")):
+            if metrics.get(name) is not None:
+                return metrics[name]
+        return None
+
+    @staticmethod
+    def _criterion_met(value: float, rule: Dict[str, Any]) -> bool:
+        """Evaluate one criterion; an unknown comparison is never met."""
+        limit = float(rule["limit"])
+        comparison = rule.get("comparison", "<=")
+        if comparison == "<=":
+            return value <= limit
+        if comparison == "<":
+            return value < limit
+        if comparison == ">=":
+            return value >= limit
+        if comparison == ">":
+            return value > limit
+        if comparison in ("==", "~="):
+            return abs(value - limit) <= rule.get("tolerance", 0.0)
+        return False
+
     def _evaluate_acceptance(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
     ) -> str:
         """Evaluate acceptance criteria against computed metrics."""
         if not acceptance:
             return "passed" if metrics else "pending"
-
-        for key, rule in acceptance.items():
-            # Try exact key match first
-            metric_value = metrics.get(key)
-
-            # Try alternate key formats
-            if metric_value is None:
-                # Try without dots (e.g., "bbox_x" for "bbox.x")
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                # Try with underscores as dots
-                metric_value = metrics.get(key.replace("_", "."))
-
-            if metric_value is None:
-                # Metric not found - can't evaluate
-                continue
-
-            limit = rule.get("limit")
-            if limit is None:
-                continue
-
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-            tolerance = rule.get("tolerance", 0.0)
-
-            if comparison == "<=":
-                if metric_value > limit:
-                    return "failed"
-            elif comparison == "<":
-                if metric_value >= limit:
-                    return "failed"
-            elif comparison == ">=":
-                if metric_value < limit:
-                    return "failed"
-            elif comparison == ">":
-                if metric_value <= limit:
-                    return "failed"
-            elif comparison == "==":
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-            elif comparison == "~=":
-                # Approximate equality with tolerance
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-
-        return "passed"
+        return "failed" if self._get_failed_criteria(metrics, acceptance) else "passed"
 
     def _get_failed_criteria(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
     ) -> List[Dict[str, Any]]:
-        """Get list of failed acceptance criteria."""
+        """Get list of failed acceptance criteria.
+
+        A criterion on a metric that was not computed is not met; its value is None.
+        """
         failed = []
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
+            if rule.get("limit") is None:
                 continue
-
-            limit = rule.get("limit")
-            if limit is None:
-                continue
-
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-
-            violated = False
-            if comparison == "<=" and metric_value > limit:
-                violated = True
-            elif comparison == "<" and metric_value >= limit:
-                violated = True
-            elif comparison == ">=" and metric_value < limit:
-                violated = True
-            elif comparison == ">" and metric_value <= limit:
-                violated = True
-
-            if violated:
+            metric_value = self._metric_value(metrics, key)
+            if metric_value is None or not self._criterion_met(metric_value, rule):
                 failed.append({
                     "criterion": key,
                     "value": metric_value,
-                    "limit": limit,
-                    "comparison": comparison,
+                    "limit": float(rule["limit"]),
+                    "comparison": rule.get("comparison", "<="),
                 })
 
         return failed
@@ -665,36 +628,16 @@ class YapCADNativeAdapter(AnalysisAdapter):
         results = {}
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
-
+            metric_value = self._metric_value(metrics, key)
             limit = rule.get("limit")
-            comparison = rule.get("comparison", "<=")
-
             result = {
                 "value": metric_value,
                 "limit": limit,
-                "comparison": comparison,
+                "comparison": rule.get("comparison", "<="),
                 "passed": None,
             }
-
             if metric_value is not None and limit is not None:
-                limit = float(limit)
-                if comparison == "<=":
-                    result["passed"] = metric_value <= limit
-                elif comparison == "<":
-                    result["passed"] = metric_value < limit
-                elif comparison == ">=":
-                    result["passed"] = metric_value >= limit
-                elif comparison == ">":
-                    result["passed"] = metric_value > limit
-                elif comparison == "==":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
-                elif comparison == "~=":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
+                result["passed"] = self._criterion_met(metric_value, rule)
 
             results[key] = result
 
-- 
2.43.0


From f4034353458a17a3111cf3effed798d0f93ec5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 037/176] fix: an analysis plan id cannot lead the results
 outside the package

---
 src/yapcad/package/analysis/cli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index c36402c..fe4a6d7 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -8,7 +8,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Optional, Sequence
 
-from ..core import PackageManifest
+from ..core import PackageManifest, _is_inside
 from .base import AnalysisPlan, AnalysisResult, get_backend, load_plan
 
 
@@ -56,9 +56,11 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         plan_path = (root / plan_path).resolve()
 
     plan = load_plan(plan_path)
+    results_dir = root / "validation" / "results" / plan.plan_id
+    if not _is_inside(root, results_dir):
+        raise ValueError(f"plan id must not lead outside the package: {plan.plan_id!r}")
     _ensure_plan_entry(manifest, plan, plan_path)
 
-    results_dir = root / "validation" / "results" / plan.plan_id
     results_dir.mkdir(parents=True, exist_ok=True)
 
     adapter_cls = get_backend(plan.backend)
-- 
2.43.0


From 05579bc2852f979e1bc41f7a1b6307a36fa66720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 038/176] fix: assembly reports and validate_and_raise can read
 the message of a failed constraint

---
 src/yapcad/assembly/constraint.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/assembly/constraint.py b/src/yapcad/assembly/constraint.py
index 28cdd96..6a34236 100644
--- a/src/yapcad/assembly/constraint.py
+++ b/src/yapcad/assembly/constraint.py
@@ -103,6 +103,11 @@ class ConstraintResult:
     error_message: str = ""
     details: Dict[str, Any] = field(default_factory=dict)
 
+    @property
+    def message(self) -> str:
+        """Alias for error_message, used by the assembly reports."""
+        return self.error_message
+
     def __str__(self) -> str:
         """Format result as a readable string."""
         status = "PASS" if self.passed else "FAIL"
-- 
2.43.0


From a82800f0ac93101b4922156e6f2ee76aa3c35034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 039/176] fix: degrees of freedom of an assembly follow the
 mates' own table instead of a missing mate type

---
 src/yapcad/assembly/assembly.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8cf829..28eae92 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -657,22 +657,10 @@ class Assembly:
         # This is a simplified approximation
         # A full implementation would build the constraint Jacobian
         for mate in self.mates:
-            # Estimate DOF removed by each mate type
-            if mate.mate_type == MateType.COINCIDENT:
-                # Removes 3 DOF (position locked)
-                dof[mate.part2] = max(0, dof[mate.part2] - 3)
-            elif mate.mate_type == MateType.CONCENTRIC:
-                # Removes 2 DOF (can slide and rotate along axis)
-                dof[mate.part2] = max(0, dof[mate.part2] - 2)
-            elif mate.mate_type == MateType.FLUSH:
-                # Removes 3 DOF (orientation locked, can slide in plane)
-                dof[mate.part2] = max(0, dof[mate.part2] - 3)
-            elif mate.mate_type == MateType.PARALLEL:
-                # Removes 2 DOF (2 rotation axes locked)
-                dof[mate.part2] = max(0, dof[mate.part2] - 2)
-            elif mate.mate_type == MateType.PERPENDICULAR:
-                # Removes 1 DOF (1 rotation axis locked)
-                dof[mate.part2] = max(0, dof[mate.part2] - 1)
+            # Coupled mates (negative count) relate motions but remove no DOF
+            remaining = mate.degrees_of_freedom()
+            if remaining >= 0:
+                dof[mate.part2] = max(0, dof[mate.part2] - (6 - remaining))
 
         return dof
 
-- 
2.43.0


From c62d381a969c548e359781a09bef9517252345bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 040/176] fix: importing kinematic chain poses accepts exported
 chains and changes nothing when it fails

---
 src/yapcad/assembly/assembly.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index 28eae92..6328422 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -705,11 +705,16 @@ class Assembly:
                 assembly_name=self.name
             )
 
+        imported = {}
         for part_name, part_data in data["parts"].items():
             if part_name not in self.parts:
                 # Skip parts not in this assembly
                 continue
 
+            if "transform" not in part_data and "world_transform" in part_data:
+                # KinematicChain.to_dict() / export_json() documents
+                part_data = {"transform": part_data["world_transform"].get("matrix")}
+
             if "transform" not in part_data:
                 raise AssemblyError(
                     f"Part '{part_name}' missing 'transform' in JSON",
@@ -739,8 +744,9 @@ class Assembly:
                     part_name=part_name
                 )
 
-            self.transforms[part_name] = transform
+            imported[part_name] = transform
 
+        self.transforms.update(imported)
         self._solved = True  # Mark as solved since transforms are imported
 
     def export_to_urdf(self, output_path: Union[str, Path]) -> None:
-- 
2.43.0


From 583dcb1b3a6a90f277ff102bdbbefb6f316b4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 041/176] fix: transforming a datum by a numpy matrix no longer
 leaves it where it was

---
 src/yapcad/assembly/datum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/assembly/datum.py b/src/yapcad/assembly/datum.py
index 7a509db..89fd4a4 100644
--- a/src/yapcad/assembly/datum.py
+++ b/src/yapcad/assembly/datum.py
@@ -320,6 +320,9 @@ class Datum:
         """
         # Convert to Matrix if needed
         if not isinstance(matrix, Matrix):
+            # Matrix() takes lists and silently ignores numpy arrays
+            if hasattr(matrix, 'tolist'):
+                matrix = matrix.tolist()
             matrix = Matrix(matrix)
 
         # Helper to transform a point (w=1)
-- 
2.43.0


From ce95ca3f52b5d11cdfe3729953e1b9f70fc4cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 042/176] fix: the bounding box of an arc contains the whole
 arc

---
 src/yapcad/geom.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 807fc49..ca51018 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2493,10 +2493,17 @@ def arcbbox(c):
         rr=point(c[1][0],c[1][0])
         return [sub(c[0],rr),add(c[0],rr)]
     else:
-        pp = []
-        for i in range(5):
-            u = i/4
-            pp.append(samplearc(c,u))
+        pp = [samplearc(c,0.0),samplearc(c,1.0)]
+        # the extremes lie at the ends or where the arc crosses an axis
+        # direction
+        start = c[1][1] % 360.0
+        end = c[1][2] % 360.0
+        if end < start:
+            end += 360.0
+        for i in range(8):
+            if start <= i*90.0 <= end:
+                ang = i*pi2/4.0
+                pp.append(add(c[0],scale3(vect(cos(ang),sin(ang)),c[1][0])))
         return polybbox(pp)
 
 def isinsidearcXY(c,p):
-- 
2.43.0


From 0c84f8329102c64f16c1426db42dc58f146717fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 043/176] fix: arcs that start at 0 or end at 360 degrees are
 sampled over the sweep their length states

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index ca51018..7acd257 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2413,7 +2413,7 @@ def samplearc(c,u,polar=False):
     w=c[1][3]
     if w == -2: # if arc is flagged as sample-reversed, flip u
         u=1.0-u
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2464,7 +2464,7 @@ def unsamplearc(c,p):
     #     start = 0
     #     end = 360
         
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
-- 
2.43.0


From 0a30b596fbe1e01cdf61ed18f51a43d5715a90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 044/176] fix: points and zero-length pieces no longer break
 the sampling of polylines and geometry lists

---
 src/yapcad/geom.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 7acd257..7aa9bd9 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3177,17 +3177,22 @@ def samplepoly(a,u):
         
     dst = u * length;
     d = 0
+    # zero-length segments cannot be sampled
+    keep = [i for i in range(len(lines)) if lengths[i] > epsilon]
+    if not keep:
+        return point(a[0])
+    last = keep[-1]
     if u < 1.0:
-        for i in range(len(lines)):
+        for i in keep:
             l=lengths[i]
-            if dst <= d+l:
+            if dst <= d+l or i == last:
                 uu = 1.0 - (d+l-dst)/l
                 return sampleline(lines[i],uu)
             else:
                 d+=l
     else:
-        uu = (dst-length+lengths[-1])/lengths[-1]
-        return sampleline(lines[-1],uu)
+        uu = (dst-length+lengths[last])/lengths[last]
+        return sampleline(lines[last],uu)
 
 def segmentpoly(a,u1,u2):
     """slice out a parameterized segment from polyline or polygon ``a``
@@ -3447,17 +3452,22 @@ def samplegeomlist(gl,u):
         
     dst = u * leng
     d = 0
+    # points and other zero-length elements are ignored
+    keep = [i for i in range(len(gl)) if lengths[i] > epsilon]
+    if not keep:
+        return sample(gl[0],u)
+    last = keep[-1]
     if u < 1.0:
-        for i in range(len(gl)):
+        for i in keep:
             l=lengths[i]
-            if dst <= d+l:
+            if dst <= d+l or i == last:
                 uu = 1.0 - (d+l-dst)/l
                 return sample(gl[i],uu)
             else:
                 d+=l
     else:
-        uu = (dst-leng+lengths[-1])/lengths[-1]
-        return sample(gl[-1],uu)
+        uu = (dst-leng+lengths[last])/lengths[last]
+        return sample(gl[last],uu)
 
 
 def unsamplegeomlist(gl,p):
-- 
2.43.0


From 2a8318a3af5ec36f059bf7dcad9b48e7584a54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 045/176] fix: unsampling a geometry list works at all

---
 src/yapcad/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 7aa9bd9..1f9c6c3 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3477,7 +3477,7 @@ def unsamplegeomlist(gl,p):
     False if the point is more than epsilon away from any poly line
     segment
     """
-    if not isgeomlist(g):
+    if not isgeomlist(gl):
         raise ValueError('non geometry list passed to unsamplegeomlist')
 
     lengths,leng = __geomlistlength(gl)
@@ -3496,14 +3496,14 @@ def unsamplegeomlist(gl,p):
                 uu = unsample(gl[i],p)
                 if (not isinstance(uu,bool)
                     and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/length
+                    return (uu*lengths[i]+dst)/leng
                 else:
                     dst = dst+lengths[i]
         uu2 = unsample(gl[-1],p)
         
         if (not isinstance(uu2,bool) and
             uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
+            return (uu2*lengths[-1]+dst)/leng
         else:
             return False
 
-- 
2.43.0


From 62d86d14fc3fc1fe51890a779855f8c686737b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 046/176] fix: reversing handles polylines and arcs that are
 already reversed

---
 src/yapcad/geom.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 1f9c6c3..9526c5a 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3214,7 +3214,8 @@ def segmentpoly(a,u1,u2):
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
             raise ValueError('parameters fall outside 0,1 interval: {},{}'.format(u1,u2))
     if u2 < u1:
-        a = deepcopy(a).reverse()
+        a = deepcopy(a)
+        a.reverse()
         u1 = 1.0-u1
         u2 = 1.0-u2
         
@@ -3522,10 +3523,11 @@ def reverseGeomList(gl):
             rgl.insert(0,line(g[1],g[0]))
         elif isarc(g):
             c = deepcopy(g)
-            c[1][3] = -2 # set samplereverse flag
+            c[1][3] = -1 if c[1][3] == -2 else -2 # toggle samplereverse flag
             rgl.insert(0,c)
         elif ispoly(g):
-            ply = deepcopy(g).reverse()
+            ply = deepcopy(g)
+            ply.reverse()
             rgl.insert(0,ply)
         elif isgeomlist(g):
             rgl.insert(0,reverseGeomList(g))
-- 
2.43.0


From d10bdb30ece17fd9a4733d0f90f980034fa744cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 047/176] fix: scaling about a centre leaves the centre where
 it is

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 9526c5a..af43575 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4156,9 +4156,9 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if vclose(cent,point(0,0,0)):
             mat = xform.Scale(sx,sy,sz)
         else:
-            mat = xform.Translation(cent,inverse=True)
+            mat = xform.Translation(cent)
             mat = mat.mul(xform.Scale(sx,sy,sz))
-            mat = mat.mul(xform.Translation(cent))
+            mat = mat.mul(xform.Translation(cent,inverse=True))
 
     if ispoint(x):
         return mat.mul(x)
-- 
2.43.0


From 251d24f852211573f8faf0650659b6c68f20ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 048/176] fix: rotation about an axis that is not of unit
 length

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From 75fcbd99288123cf38724512c4117dc4bab88a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 049/176] fix: a mirrored arc keeps its place in the outline
 and is left alone by the xy plane

---
 src/yapcad/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index af43575..aff2674 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4291,7 +4291,10 @@ def mirror(x,plane):
         a2[0] = mul(x[0],flip)
         start = x[1][1]
         end  = x[1][2]
-        if not (start == 0 and end == 360):
+        if plane != 'xy':
+            ## a mirrored curve runs the other way round
+            a2[1][3] = -1 if x[1][3] == -2 else -2
+        if plane != 'xy' and not (start == 0 and end == 360):
             ## mirror the arc segment
             ps = point(cos(start*pi2/360.0),sin(start*pi2/360.0))
             pe = point(cos(end*pi2/360.0),sin(end*pi2/360.0))
-- 
2.43.0


From 6d860c2f321db991745da57254e0faaa549e2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:13 +0000
Subject: [PATCH 050/176] fix: single arcs wrapped in Geometry can be mirrored

---
 src/yapcad/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..8f44a09 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -467,7 +467,10 @@ class Geometry:
             return
         nelm = mirror(self.__elem,plane)
         if keepSign:
-            nelm = reverseGeomList(nelm)
+            if isgeomlist(nelm):
+                nelm = reverseGeomList(nelm)
+            else:
+                nelm = reverseGeomList([nelm])[0]
         self._setElem(nelm)
         self._setUpdate(True)
 
-- 
2.43.0


From 805707fee67a0f73588816cf0a6309182b1f2c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 051/176] fix: segments that end at a joint or span a whole
 closed figure

Cutting at a joint appended a zero-length piece, cutting a closed polygon
up to parameter 1 wrapped 1 to 0, and the whole of a circle came back as
an empty arc.
---
 src/yapcad/geom.py | 52 +++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index aff2674..68cdf49 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2439,6 +2439,8 @@ def segmentarc(c,u1,u2):
     the same center and radius spanning the interval u1,u2
     """
 
+    if iscircle(c) and close(abs(u2-u1),1.0):
+        return deepcopy(c)
     pol1=samplearc(c,u1,polar=True)
     pol2=samplearc(c,u2,polar=True)
     sr= (c[1][3] == -2)
@@ -3205,10 +3207,12 @@ def segmentpoly(a,u1,u2):
         closed = True
 
     if closed:
-        u1%= 1.0
-        u2%= 1.0
+        u1 = u1 if 0 <= u1 <= 1.0 else u1 % 1.0
+        u2 = u2 if 0 <= u2 <= 1.0 else u2 % 1.0
         if u2 < u1:
-            return segmentpoly(a,u1,1.0-epsilon) + segmentpoly(a,0.0,u2)
+            head = segmentpoly(a,u1,1.0) if u1 < 1.0 else []
+            tail = segmentpoly(a,0.0,u2) if u2 > 0.0 else []
+            return head[:-1] + tail if head and tail else head or tail
         
     else:
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
@@ -3539,8 +3543,8 @@ def reverseGeomList(gl):
 ## geometry list corresponding to the interval 0 <= u1 <= u2 <=1.0
 def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
     if closed:
-        u1 %= 1.0
-        u2 %= 1.0
+        u1 = u1 if 0 <= u1 <= 1.0 else u1 % 1.0
+        u2 = u2 if 0 <= u2 <= 1.0 else u2 % 1.0
         if u2 < u1:
             if reverse:
                 return segmentgeomlist(gl,0.0,u2,closed=False,reverse=True) +\
@@ -3552,8 +3556,6 @@ def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
         raise ValueError('bad parameters {} and {} passed to segmentgeomlist'.format(u1,u2))
     lengths, leng = __geomlistlength(gl)
 
-    STARTED = False
-    DONE= False
     dst1 = u1 * leng
     dst2 = u2 * leng
     d = 0
@@ -3570,31 +3572,19 @@ def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
         else:
             raise NotImplementedError("don't know how to segment {}".format(g))
         
-    for i in range(len(gl)):
-        l=lengths[i]
-        if l < epsilon:
-            continue
-        if dst1 <= d+l:
-            if not STARTED:
-                uu = 1.0 - (d+l-dst1)/l
-                uu2 = 1.0
-                if dst2 < d+l:
-                    uu2 = 1.0 - (d+l-dst2)/l
-                    DONE=True
-                rgl.append(_segment(gl[i],uu,uu2))
-                STARTED=True
-                                      
-            elif dst2 <= d+l:
-                uu = 1.0 - (d+l-dst2)/l
-                rgl.append(_segment(gl[i],0.0,uu))
-                DONE=True
-            else:
-                rgl.append(deepcopy(gl[i]))
-        if DONE:
-            if reverse:
-                rgl = reverseGeomList(rgl)
-            return rgl
+    whole = [(gl[i],lengths[i]) for i in range(len(gl)) if lengths[i] >= epsilon]
+    for i,(g,l) in enumerate(whole):
+        start = max(dst1-d,0.0)
+        end = min(dst2-d,l)
         d+=l
+        if end-start <= epsilon:
+            # a joint is not a piece, unless there is nothing else
+            if rgl or end < start or i < len(whole)-1 and dst2-dst1 > epsilon:
+                continue
+        if start <= epsilon and end >= l-epsilon:
+            rgl.append(deepcopy(g))
+        else:
+            rgl.append(_segment(g,start/l,end/l))
     if reverse:
         rgl = reverseGeomList(rgl)
     return rgl
-- 
2.43.0


From 263890d2064282dc41f8aee5f93901915ed3134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 052/176] fix: unsampling at the joints of polylines and
 geometry lists

A point at the joint of two pieces was not found when rounding put it just
outside both, and lists or polylines with zero-length pieces divided by
zero.
---
 src/yapcad/geom.py | 77 ++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 68cdf49..9cea81d 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2481,8 +2481,12 @@ def unsamplearc(c,p):
     if abs(mag(x)-r) > epsilon:
         return False            # point is not on arc circle
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
-    if end > 360.0 and ang <= end-360.0:
+    # allow for rounding where the arc starts and ends
+    tol = epsilon*360.0/(pi2*r)
+    if end > 360.0 and ang <= end-360.0+tol:
         ang = ang + 360.0
+    elif ang > end+tol and ang-360.0 >= start-tol:
+        ang = ang - 360.0
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
         u = 1.0-u
@@ -3255,27 +3259,34 @@ def unsamplepoly(a,p):
     lines,lengths,length = __lineslength(a)
     if len(lines) == 1:
         return unsampleline(lines[0],p)
-    else:
-        uu1 = unsampleline(lines[0],p)
-        if not isinstance(uu1,bool) and uu1 < 1.0 and\
-           (not closed or uu1 >= 0.0):
-            return uu1*lengths[0]/length
-        dst = lengths[0]
-        if len(lines) > 2:
-            for i in range(1,len(lines)-1):
-                uu = unsampleline(lines[i],p)
-                if not isinstance(uu,bool) and uu >= 0.0 and uu < 1.0:
-                    return (uu*lengths[i]+dst)/length
-                else:
-                    dst = dst+lengths[i]
-        uu2 = unsampleline(lines[-1],p)
-        
-        if not isinstance(uu2,bool) and uu2 >= 0.0 and\
-           (not closed or uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
-        else:
-            return False
+    u = _unsamplepieces(lines,lengths,length,p)
+    if not isinstance(u,bool) or closed:
+        return u
+    # an open polyline continues beyond its ends
+    keep = [i for i in range(len(lines)) if lengths[i] > epsilon]
+    if not keep:
+        return False
+    first, last = keep[0], keep[-1]
+    uu = unsampleline(lines[first],p)
+    if not isinstance(uu,bool) and uu < 0.0:
+        return uu*lengths[first]/length
+    uu = unsampleline(lines[last],p)
+    if not isinstance(uu,bool) and uu > 1.0:
+        return ((uu-1.0)*lengths[last]+length)/length
+    return False
 
+def _unsamplepieces(pieces,lengths,length,p):
+    """find the point ``p`` on a sequence of pieces, and return the
+    sample parameter of the whole sequence, or ``False``"""
+    dst = 0.0
+    for g,l in zip(pieces,lengths):
+        if l > epsilon:     # zero-length pieces can't be sampled
+            uu = unsample(g,p)
+            if not isinstance(uu,bool) and \
+               uu*l >= -epsilon and uu*l <= l+epsilon:
+                return (min(max(uu,0.0),1.0)*l+dst)/length
+        dst += l
+    return False
 
 ## ccompute the intersection between non-compound geometric element g,
 ## and poly a.
@@ -3489,29 +3500,7 @@ def unsamplegeomlist(gl,p):
     if len(gl) == 1:
         return unsample(gl[0],p)
     else:
-        uu1 = unsample(gl[0],p)
-        if (not isinstance(uu1,bool)
-            and uu1 < 1.0 and uu1 >= 0.0):
-            return uu1*lengths[0]/leng
-        dst = lengths[0]
-        if len(gl) > 2:
-            for i in range(1,len(gl)-1):
-                if lengths[i] <= epsilon:
-                    continue
-                uu = unsample(gl[i],p)
-                if (not isinstance(uu,bool)
-                    and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/leng
-                else:
-                    dst = dst+lengths[i]
-        uu2 = unsample(gl[-1],p)
-        
-        if (not isinstance(uu2,bool) and
-            uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/leng
-        else:
-            return False
-
+        return _unsamplepieces(gl,lengths,leng,p)
 
 
 ## function to reverse a geometry list (presumably contiguous) for
-- 
2.43.0


From 47e107bbdb360f8e3a596ca1c2a627d33073c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 053/176] fix: gaps inside nested geometry lists

A list was reported continuous (and closed) when the gap was inside one of
its nested lists.
---
 src/yapcad/geom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 9cea81d..309e1d8 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3415,6 +3415,10 @@ def iscontinuousgeomlist(a):
     interval [0.0,1.0].
     """
     l = len(a)
+    for g in a:
+        if g and isgeomlist(g) and not ispoly(g) and not isline(g) \
+           and not iscontinuousgeomlist(g):
+            return False
     if l < 2:
         return True
     for i in range(1,l):
-- 
2.43.0


From 4ca7095c71301a448e7d849b6a6f0a147099a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 054/176] fix: intersection of short lines

Whether two lines are parallel was decided by an absolute product of their
lengths, so lines shorter than about 0.05 never intersected.
---
 src/yapcad/geom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 309e1d8..17cf45e 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2090,7 +2090,9 @@ def lineLineIntersectXY(l1,l2,inside=True,params=False):
 
     ## do lines intersect anywhere?
     denom=(x1-x2)*(y3-y4)-(y1-y2)*(x3-x4)
-    if denom*denom < epsilon:
+    len1 = sqrt((x1-x2)*(x1-x2)+(y1-y2)*(y1-y2))
+    len2 = sqrt((x3-x4)*(x3-x4)+(y3-y4)*(y3-y4))
+    if abs(denom) <= epsilon*len1*len2:
         return False
 
     ## the lines do intersect, so let's see if they intersect
-- 
2.43.0


From d1f7a448f4f4f95bac0a02975f5f8127fb485397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 055/176] fix: intersections of a line and an arc

With inside=True the far intersections of a segment that ends within the
circle were returned, an intersection at the end of the line was dropped,
near-tangent lines raised ValueError and intersections at the ends of arcs
depended on rounding.
---
 src/yapcad/geom.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 17cf45e..fcbe440 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2798,21 +2798,23 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     cc = mpP0*mpP0+mpP1*mpP1-mpr*mpr
     d = b*b-4*a*cc
     ## Check to see if we are within epsilon, scaled by the length of the line
-    if mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
-        b0 = -b/(2*a)
-        b1 = False
-    elif d < 0:
-        print("value of d: ",d,"  value of sqrt(a)*epsilon",sqrt(a)*epsilon)
-        raise ValueError("imaginary solution to circle line intersection -- shouldn't happen here")
+    ## (the line is known to be no further than r+epsilon from the center)
+    if d < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
+        bb = [ -b/(2*a) ]
     else: # two points of intersection
-        b0 = (-b + mpm.sqrt(d))/(2*a)
-        b1 = (-b - mpm.sqrt(d))/(2*a)
+        bb = [ (-b + mpm.sqrt(d))/(2*a), (-b - mpm.sqrt(d))/(2*a) ]
+    bb = list(map(float,bb))
+
+    if inside and not params:
+        ## only keep solutions within the line segment
+        tol = epsilon/float(mpm.sqrt(a))
+        bb = list(filter(lambda q: q >= -tol and q <= 1.0+tol, bb))
+        if len(bb) == 0:
+            return False
 
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
-    s = [ add(scale3(V,float(b0)),p1) ]
-    if b1:
-        s = s + [ add(scale3(V,float(b1)),p1) ]
+    s = [ add(scale3(V,q),p1) for q in bb ]
 
     if not inside or circle or params:              # transform back into world
                                           # coordinates
@@ -2821,8 +2823,12 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
             uu1 = []
             uu2 = []
             for i in range(len(pp)):
-                uu1 = uu1 + [ unsampleline(l,pp[i]) ]
-                uu2 = uu2 + [ unsamplearc(c,pp[i]) ]
+                u = unsamplearc(c,pp[i])
+                if not isinstance(u,bool):
+                    uu1 = uu1 + [ 1.0-bb[i] ]
+                    uu2 = uu2 + [ u ]
+            if len(uu1) == 0:
+                return False
             return [uu1, uu2]
         else:
             return pp
@@ -2831,12 +2837,11 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     ## start and end of the arc
     
     ss = []
+    tol = epsilon*360.0/(pi2*r)
     for i in s:
         ang = (atan2(i[1],i[0]) % pi2)*360.0/pi2
 
-        if end > start and ang >= start and ang <= end:
-            ss = ss + [ add(x,i) ]
-        elif end < start and (ang >= start or ang<= end):
+        if (ang-start+tol) % 360.0 <= (end-start) % 360.0 + 2*tol:
             ss = ss + [ add(x,i) ]
 
     if len(ss) == 0:
-- 
2.43.0


From a894e1be04aaf66ef1cd4bb88f1ea02210c4799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 056/176] fix: intersections of two arcs

The parameters on the second arc were computed with the end of the first,
intersections at the ends of arcs and at tangent circles depended on
rounding.
---
 src/yapcad/geom.py | 95 +++++++++++-----------------------------------
 1 file changed, 22 insertions(+), 73 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index fcbe440..e0a43c4 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2553,19 +2553,15 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
     r1=c1[1][0]
     r2=c2[1][0]
 
-    # check for sample reverse condition
-    sr1 = c1[1][3]==-2
-    sr2 = c2[1][3]==-2
-
     ## first check for non-intersection due to distance between the
     ## centers of the arcs, treating both arcs as circles for the moment
 
     d=dist(x1,x2) #calculate the distance d between circle centers
 
-    if d > r1+r2:
+    if d > r1+r2+epsilon:
         return False # too far, no possiblity of intersection
 
-    if ( r1> r2 and d < r1-r2) or (r2 >= r1 and d < r2-r1):
+    if d < abs(r1-r2)-epsilon:
         return False # too close, little arc is fully inside bigger arc
 
     if d < epsilon:
@@ -2591,6 +2587,7 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
     ## id = (r1^2-r2^2 + d^2)/2d
 
     id = (r1*r1 - r2*r2 + d*d)/(2 * d)
+    id = min(max(id,-r1),r1) # rounding of tangent circles
 
     ## compute the point on the line connecting the two arc centers
     ## that is id away from the first arc
@@ -2631,84 +2628,36 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
     s1 = list(map(lambda x: sub(x,x1),s))
     s2 = list(map(lambda x: sub(x,x2),s))
 
-    ## compute start and end angles for arcs
-    start1=c1[1][1]
-    end1=c1[1][2]
-    if not (start1 == 0 and end1 == 360):
-        start1 = start1 % 360.0
-        end1 = end1 % 360.0
-        if end1 < start1:
-            end1 = end1 + 360.0
-        
-    start2=c2[1][1]
-    end2=c2[1][2]
-    
-    if not (start2 == 0 and end2 == 360):
-        start2 = start2 % 360.0
-        end2 = end2 % 360.0
-        if end2 < start2:
-            end2 = end2 + 360.0
-        
+    ## check each intersection against the extent of each arc.
+    def extent(c):
+        if iscircle(c):
+            return 360.0
+        return (c[1][2]-c[1][1]) % 360.0
+
+    def within(c,q):
+        ang = (atan2(q[1],q[0]) % pi2)*360.0/pi2
+        tol = epsilon*360.0/(pi2*c[1][0])
+        return (ang-c[1][1]+tol) % 360.0 <= extent(c) + 2*tol
 
-    ## check each intersection against angles for each arc.  
     ss = []
     uparam1 = []
     uparam2 = []
     for i in range(len(s)):
-        p1 =s1[i]
-        p2 =s2[i]
-        ang1 = (atan2(p1[1],p1[0]) % pi2)*360.0/pi2
-        ang2 = (atan2(p2[1],p2[0]) % pi2)*360.0/pi2
-
         if params:
-            u1 = 0
-            u2 = 0
-            if end1 <= 360.0 or ang1 >= start1 or \
-               ( end1 > 360.0 and ang1 > end1-360.0):
-                u1 = (ang1-start1)/(end1-start1)
-                if sr1:
-                    u1 = 1.0-u1
-            elif end1 > 360.0:
-                u1 = (ang1+360.0-start1)/(end1-start1)
-                if sr1:
-                    u1 = 1.0-u1
-            uparam1 = uparam1 + [ u1 ]
-                
-            if end2 <= 360.0 or ang2 >= start2 or \
-               ( end2 > 360.0 and ang2 > end1-360.0):
-                u2 = (ang2-start2)/(end2-start2)
-                if sr2:
-                    u2 = 1.0-u2
-            elif end2 > 360.0:
-                u2 = (ang2+360.0-start2)/(end2-start2)
-                if sr2:
-                    u2 = 1.0-u2
-            uparam2 = uparam2 + [ u2]
-                
-        else:
-            good = False
-            ## check angle against first arc
-            if end1 <= 360.0 and ang1 >= start1 and ang1 <= end1:
-                good = True
-            elif end1 > 360.0 and (ang1 >= start1 or ang1<= end1-360.0):
-                good = True
-
-            ## check angle against second arc
-            if end2 <= 360.0 and  ang2 >= start2 and ang2 <= end2:
-                good = good and True
-            elif end2 > 360.0 and (ang2 >= start2 or ang2<= end2-360.0):
-                good = good and True
-            else:
-                good = False
+            u1 = unsamplearc(c1,s[i])
+            u2 = unsamplearc(c2,s[i])
+            if not (isinstance(u1,bool) or isinstance(u2,bool)):
+                uparam1 = uparam1 + [ u1 ]
+                uparam2 = uparam2 + [ u2 ]
+        elif within(c1,s1[i]) and within(c2,s2[i]):
+            ss = ss + [ s[i] ]
 
-            ## only add instersection to the list if both checks were passed
-            if good:
-                ss = ss + [ s[i] ]
-                
     if not params and len(ss) == 0:
         return False
     else:
         if params:
+            if len(uparam1) == 0:
+                return False
             return [uparam1,uparam2]
         else:
             return ss
-- 
2.43.0


From 21982f7c20d7f50e2273f09af4b21153276aca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 057/176] fix: intersections of polylines and geometry lists

Polylines of two lines never intersected anything, the parameters of two
polylines were mixed up, two geometry lists raised NameError, lists of one
compound element were treated as lines and nested ones failed.  All
compound figures are now intersected piece by piece in one place.
---
 src/yapcad/geom.py | 362 ++++++++++++---------------------------------
 1 file changed, 95 insertions(+), 267 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e0a43c4..80d13eb 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3248,79 +3248,98 @@ def _unsamplepieces(pieces,lengths,length,p):
 ## and poly a.
 def intersectSimplePolyXY(g,a,inside=True,params=False):
     if not (ispoly(a) and isXYPlanar(a)):
-        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(p)))
-    closed = False
-    ARC=False
-    LINE=False
-    if len(a) > 2 and dist(a[0],a[-1]) < epsilon:
-        closed = True
-    if isline(g):
-        LINE=True
-    elif isarc(g):
-        ARC=True
-    else:
+        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(a)))
+    if not (isline(g) or isarc(g)):
         raise ValueError('bad non-line or non-arc argument passed to intersectSimplePolyXY: {}'.format(vstr(g)))
-    pnts = []
-    uu1s = []
-    uu2s = []
-    lines, lengths, leng = __lineslength(a)
-    if len(lines) == 1:
-        if LINE:
-            return lineLineIntersectXY(lines[0],g,inside,params)
-        else:
-            return lineArcIntersectXY(lines[0],g,inside,params)
-    dst = 0.0
-    if len(lines) > 2:
-        for i in range(len(lines)):
-            if LINE:
-                uu = lineLineIntersectXY(lines[i],g,params=True)
-                if not isinstance(uu,bool) and \
-                   (((closed or (i > 0 and i < len(lines)-1)) and \
-                     uu[0] >= 0.0 and uu[0] <= 1.0) or\
-                    (not closed and i == 0 and uu[0] <= 1.0) or\
-                    (not closed and i == len(lines)-1 and uu[0] >= 0.0)):
-                    if params:
-                        uu1s.append((uu[0]*lengths[i]+dst)/leng)
-                        uu2s.append(uu[1])
-                    else:
-                        if (not inside) or \
-                           (uu[0] >= 0.0 and uu[0] <= 1.0) and \
-                           (uu[1] >= 0.0 and uu[1] <= 1.0):
-                            pnts.append(sampleline(g,uu[1]))
-            elif ARC:
-                uu = lineArcIntersectXY(lines[i],g,params=True)
-                if not isinstance(uu,bool):
-                    for j in range(len(uu[0])):
-                        if (((closed or (i > 0 and i < len(lines)-1)) and \
-                             uu[0][j] >= 0.0 and uu[0][j] <= 1.0) or\
-                            (not closed and i == 0 and uu[0][j] <= 1.0) or\
-                            (not closed and \
-                             i == len(lines)-1 and uu[0][j] >= 0.0)):
-                            if params:
-                                uu1s.append((uu[0][j]*lengths[i]+dst)/leng)
-                                uu2s.append(uu[1][j])
-                            else:
-                                if (not inside) or \
-                                   (uu[0][j] >= 0.0 and uu[0][j] <= 1.0) and \
-                                   (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
-                                    pnts.append(samplearc(g,uu[1][j]))
+    return _intersectCompoundXY(g,a,inside,params)
 
-            else:
-                raise ValueError('unknown geometry type -- should never happen here')
-            dst = dst+lengths[i]
+def _piecesXY(x):
+    """the lines and arcs a figure consists of, in sampling order, with
+    their lengths.  Points and zero-length elements are omitted."""
+    if ispoint(x):
+        return []
+    elif isline(x) or isarc(x):
+        l = length(x)
+        return [ [x,l] ] if l > epsilon else []
+    elif ispoly(x):
+        lines, lengths, leng = __lineslength(x)
+        return [ [g,l] for g,l in zip(lines,lengths) if l > epsilon ]
+    elif isgeomlist(x):
+        r = []
+        for g in x:
+            r = r + _piecesXY(g)
+        return r
+    raise ValueError('bad geometry passed to intersectXY: {}'.format(vstr(x)))
 
+def _intersectCompoundXY(g1,g2,inside=True,params=False):
+    """
+    non-value-safe intersection of two XY-coplanar figures, at least
+    one of which is compound, by intersecting all their pieces.  If
+    ``inside`` is ``False``, or if parameters are returned, lines,
+    arcs and the ends of open polylines extend beyond the ``0 <= u <=
+    1.0`` interval (but lines and arcs only for ``inside=False`` when
+    intersected with a geometry list).
+    """
+    def extended(x,other):
+        if isline(x) or isarc(x):
+            return not inside or (params and ispoly(other))
+        if ispoly(x):
+            return not (inside and not params) and \
+                not (len(x) > 2 and dist(x[0],x[-1]) < epsilon)
+        return False
+
+    def clip(u,l,before,after):
+        tol = epsilon/l
+        if u < -tol:
+            return u if before else None
+        elif u > 1.0+tol:
+            return u if after else None
+        return min(max(u,0.0),1.0)
+
+    pieces1 = _piecesXY(g1)
+    pieces2 = _piecesXY(g2)
+    if len(pieces1) == 0 or len(pieces2) == 0:
+        return False
+    leng1 = sum(l for g,l in pieces1)
+    leng2 = sum(l for g,l in pieces2)
+    ext1 = extended(g1,g2)
+    ext2 = extended(g2,g1)
+    last1 = len(pieces1)-1
+    last2 = len(pieces2)-1
+
+    def neighbors(i,j,last):
+        return abs(i-j) <= 1 or (last > 0 and abs(i-j) == last)
+
+    found = []
+    dst1 = 0.0
+    for i,(a,l1) in enumerate(pieces1):
+        dst2 = 0.0
+        for j,(b,l2) in enumerate(pieces2):
+            uu = _intersectSimpleXY(a,b,params=True)
+            if not isinstance(uu,bool):
+                for u,v in zip(uu[0],uu[1]):
+                    u = clip(u,l1,ext1 and i == 0,ext1 and i == last1)
+                    v = clip(v,l2,ext2 and j == 0,ext2 and j == last2)
+                    if u is None or v is None:
+                        continue
+                    p = sample(a,u)
+                    ## an intersection at the joint of two pieces is
+                    ## found on both of them
+                    if any(vclose(p,f[0]) and (i,j) != (f[1],f[2])
+                           and neighbors(i,f[1],last1)
+                           and neighbors(j,f[2],last2) for f in found):
+                        continue
+                    found.append([p,i,j,(u*l1+dst1)/leng1,
+                                  (v*l2+dst2)/leng2])
+            dst2 += l2
+        dst1 += l1
+
+    if len(found) == 0:
+        return False
     if params:
-        if len(uu1s) > 0:
-            return [ uu2s, uu1s]
-        else:
-            return False
-    else:
-        if len(pnts) > 0:
-            return pnts
-        else:
-            return False
-        
-    
+        return [ [f[3] for f in found], [f[4] for f in found] ]
+    return [ f[0] for f in found ]
+
 def polycenter(a):
     """Compute center of poly ``a``.  If ``a`` is closed, return
     barycentric center of figure.  If ``a`` is not closed, return
@@ -3612,128 +3631,10 @@ def isgeomlistXYPlanar(gl):
 def intersectGeomListXY(g,gl,inside=True,params=False):
     if not isgeomlistXYPlanar(gl + [ g ]):
         raise ValueError('non-XY-planar or geometry arguments to intersectSimpleGeomListXY: {}'.format(vstr(gl + [ g])))
-    gTypes = ('point','line','arc','poly','glist')
-    def typeString(geom):
-        if ispoint(geom):
-            return 'point'
-        elif isline(geom):
-            return 'simple'
-        elif isarc(geom):
-            return 'simple'
-        elif ispoly(geom):
-            return 'poly'
-        elif isgeomlist(g):
-            return 'glist'
-        else:
-            return False
-    gtype = typeString(g)
-    if not gtype or gtype == 'point':
+    if ispoint(g):
         raise ValueError('bad geometry argument passed to intersectGeomListXY: {}'.format(vstr(g)))
-    pnts = []
-    uu1s = []
-    uu2s = []
-    lengths, leng = __geomlistlength(gl)
-    if len(gl) == 1:
-        if gtype == 'simple':
-            return _intersectSimpleXY(g,gl[0],inside,params)
-        if gtype == 'poly':
-            r = intersectSimplePolyXY(gl[0],g,inside,params)
-            if params:
-                return [ r[1], r[0] ]
-            else:
-                return r
-        if gtype == 'glist':
-            r = intersectGeomListXY(gl[0],g,inside,params)
-            if params:
-                if isinstance(r,bool):
-                    return r
-                return [ r[1], r[0] ]
-            else:
-                return r
-        else:
-            raise ValueError('bad gtype in intersectGeomListXY, this should never happen')
-        
-    dst = 0.0
-    if len(gl) > 1:
-        for i in range(len(gl)):
-            g2 = gl[i]
-            uu = []
-            gtype2 = typeString(g2)
-            if not gtype2:
-                raise ValueError('This should never happen: bad contents of geometry list after checks in intersectGeomListXY')
-            if gtype2 == 'point':
-                continue
-            elif gtype == 'simple' and  gtype2 == 'simple':
-                try:
-                    uu = _intersectSimpleXY(g,g2,params=True)
-                except ValueError:
-                    print('simple intersection problem with: ',vstr(g),' and ',vstr(g2))
-                    raise
-            elif gtype == 'simple' and  gtype2 == 'poly':
-                uu = intersectSimplePolyXY(g,g2,params=True)
-            elif gtype == 'poly' and gtype2 == 'simple':
-                z = intersectSimplePolyXY(g2,g,params=True)
-                if not isinstance(z,bool):
-                    uu = [z[1],z[0]]
-            elif gtype == 'poly' and gtype2 == 'poly':
-                zz1 = []
-                zz2 = []
-                for j in range(1,len(g)):
-                    zz = intersectSimplePolyXY(line(g[j-1],g[j]),
-                                               g2, params=True)
-                    if not isinstance(zz,bool):
-                        zz1 = zz1 + zz[0]
-                        zz2 = zz2 + zz[1]
-                if len(zz1) > 0:
-                    uu = [ zz1,zz2 ]
-            elif gtype == 'simple' and gtype2 == 'glist':
-                uu = intersectGeomListXY(g,g2,params=True)
-            elif gtype == 'glist' and gtype2 == 'simple':
-                z = intersectGeomListXY(g2,g,params=True)
-                if not isinstance(z,bool):
-                    uu = [z[1],z[0]]
-            elif gtype == 'glist' and gtype2 == 'glist':
-                zz1 = []
-                zz2 = []
-                for gg in g:
-                    zz = intersectGeomListXY(gg,g2,params=True)
-                    if not isinstance(z,bool):
-                        zz1.append(zz[0])
-                        zz2.append(zz[1])
-                if len(zz1) > 0:
-                    uu = [zz1,zz2 ]
-            else:
-                raise ValueError('Aaaaahhhhh.... this should never happen')
-
-            ## if there was at least one intersection
-            if not isinstance(uu,bool) and len(uu) > 0:
-                for j in range(len(uu[0])):
-                    if params:
-                        if ((not inside) or \
-                            (uu[0][j] >= 0.0 and uu[0][j] <= 1.0)) and \
-                            (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
-                            uu1s.append(uu[0][j])
-                            uu2s.append((uu[1][j]*lengths[i]+dst)/leng)
-                    else:
-                        if ((not inside) or \
-                           (uu[0][j] >= 0.0 and uu[0][j] <= 1.0)) and \
-                           (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
-                            pnts.append(sample(g,uu[0][j]))
-            dst = dst+lengths[i]
-
-    if params:
-        if len(uu1s) > 0:
-            return [ uu1s, uu2s]
-        else:
-            return False
-    else:
-        if len(pnts) > 0:
-            return pnts
-        else:
-            return False
+    return _intersectCompoundXY(g,gl,inside,params)
 
-    
-        
 ## functions on trangles -- a subset of polys
 ## ------------------------------------------
 
@@ -4333,81 +4234,8 @@ def intersectXY(g1,g2,inside=True,params=False):
     """
     if ispoint(g1) or ispoint(g2):
         return False
-    elif issimple(g1):
-        if issimple(g2):
-            return intersectSimpleXY(g1,g2,inside,params)
-        elif ispoly(g2):
-            return intersectSimplePolyXY(g1,g2,inside,params)
-        elif isgeomlist(g2):
-            return intersectGeomListXY(g1,g2,inside,params)
-        else:
-            raise ValueError('bad thing passed to intersectXY, should never get here')
-    elif issimple(g2):
-        rr = []
-        if ispoly(g1):
-            rr = intersectSimplePolyXY(g2,g1,inside,params)
-        elif isgeomlist(g1):
-            rr = intersectGeomListXY(g2,g1,inside,params)
-            
-        if rr == False:
-            return False
-        if params:
-            return [ rr[1],rr[0] ]
-        else:
-            return rr
-    elif ispoly(g2):
-        if ispoly(g1):
-            closed = False
-            if len(g1) > 2 and dist(g1[0],g1[-1]) < epsilon:
-                closed= True
-            uu1s = uu2s = []
-            pnts = []
-            lines, lengths, leng =  __lineslength(g1)
-            if lines == []:
-                return False
-            if len(lines) == 1:
-                return intersectSimplePolyXY(lines[0],g2,inside,params)
-            dst = 0.0
-            for i in range(len(lines)):
-                uu = intersectSimplePolyXY(lines[i],g2,params=True)
-                if not uu == False:
-                    for j in range(len(uu[0])):
-                        if (((closed or (i > 0 and i < len(lines)-1)) and \
-                             uu[0][j] >= 0.0 and uu[0][j] <= 1.0) or\
-                            (not closed and i == 0 and uu[0][j] <= 1.0) or\
-                            (not closed and i == len(lines)-1 and\
-                             uu[0][j] >= 0.0)):
-                            if params:
-                                uu1s.append((uu[0][j]*lengths[i]+dst)/leng)
-                                uu2s.append(uu[1][j])
-                            else:
-                                if (not inside) or \
-                                   (uu[0][j] >= 0.0 and uu[0][j] <= 1.0) and \
-                                   (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
-                                    pnts.append(sample(g2,uu[1][j]))
-            if params:
-                if len(uu1s) > 0:
-                    return [ uu2s, uu1s]
-                else:
-                    return False
-            else:
-                if len(pnts) > 0:
-                    return pnts
-                else:
-                    return False
-        elif isgeomlist(g1):
-            rr = intersectGeomListXY(g2,g1,inside,params)
-            if rr == False:
-                return False
-            if params:
-                return [ rr[1],rr[0] ]
-            else:
-                return rr
-        else:
-            raise ValueError('bad thing, this should never happen')
-
-    elif isgeomlist(g2):
-        return intersectGeomListXY(g1,g2,inside,params)
-    else:
-        raise ValueError('very bad thing, this should never happen')
-    
+    elif issimple(g1) and issimple(g2):
+        return intersectSimpleXY(g1,g2,inside,params)
+    elif not isgeomlistXYPlanar([g1,g2]):
+        raise ValueError('non-XY-planar geometry arguments to intersectXY: {}, {}'.format(vstr(g1),vstr(g2)))
+    return _intersectCompoundXY(g1,g2,inside,params)
-- 
2.43.0


From d175bacc7b8fcd3020452ecbc2fec25569c24a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:00 +0000
Subject: [PATCH 058/176] fix: inside tests of polygons and geometry lists

The number of intersections with a line to a corner of the bounding box was
used; it is wrong when that line passes through a corner of the figure (the
center of a square was outside of it).  Points at the start of an open
polyline were not on it, points beyond its ends were.
---
 src/yapcad/geom.py | 78 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 80d13eb..e9b93b5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3072,25 +3072,62 @@ def isinsidepolyXY(a,p):
     ## if not closed, use "unsample" test to determine if ``p`` lies
     ## on the polyline
     if not closed:
-        if unsamplepoly(a,p) == False:
-            return False
-        else:
-            return True
+        u = unsamplepoly(a,p)
+        return not isinstance(u,bool) and u >= -epsilon and u <= 1.0+epsilon
     ## poly is closed polygon
     bb = polybbox(a)
     ## do quick bounding box check
     if not isinsidebbox(bb,p):
         return False
-    ## inside the bounding box, do intersection testing
-    p2 = add([0.01,0.01,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-    pp = intersectSimplePolyXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    if not isinstance(unsamplepoly(a,p),bool):
+        return True             # on the boundary
+    return _crossingsXY(a,p) % 2 == 1
+
+def _crossingsXY(x,p):
+    """
+    How often does the figure ``x`` cross the ray that starts at point
+    ``p`` and extends in the positive x direction?  Every piece of the
+    figure that rises or falls counts its lower end only, so that the
+    number is right where the ray meets joints or touches the figure.
+    The ray is raised by half an epsilon, for joints may be rounded.
+    """
+    y0 = p[1]+epsilon/2
+    if ispoint(x):
+        return 0
+    elif isline(x):
+        a,b = x[0],x[1]
+        if (a[1] <= y0) == (b[1] <= y0):
+            return 0
+        t = (y0-a[1])/(b[1]-a[1])
+        return 1 if a[0]+t*(b[0]-a[0]) > p[0] else 0
+    elif isarc(x):
+        c = x[0]
+        r = x[1][0]
+        if iscircle(x):
+            start = 0.0
+            end = 360.0
+        else:
+            start = x[1][1] % 360.0
+            end = start + (x[1][2]-x[1][1]) % 360.0
+        ## divide the arc into pieces that rise or fall
+        cuts = [start] + [q for q in (90.0,270.0,450.0,630.0)
+                          if q > start and q < end] + [end]
+        y = [c[1]+r*sin(q*pi2/360.0) for q in cuts]
+        num = 0
+        for i in range(1,len(cuts)):
+            if (y[i-1] <= y0) == (y[i] <= y0):
+                continue
+            dx = sqrt(max(r*r-(y0-c[1])*(y0-c[1]),0.0))
+            if cos((cuts[i-1]+cuts[i])*pi/360.0) < 0:
+                dx = -dx
+            if c[0]+dx > p[0]:
+                num += 1
+        return num
+    elif ispoly(x):
+        return sum(_crossingsXY([x[i-1],x[i]],p) for i in range(1,len(x)))
+    elif isgeomlist(x):
+        return sum(_crossingsXY(g,p) for g in x)
+    raise ValueError('bad geometry passed to inside test: {}'.format(vstr(x)))
 
 ## is it a polygon with all points in the same x-y plane
 def ispolygonXY(a):
@@ -3591,16 +3628,9 @@ def isinsidegeomlistXY(a,p):
     bb = geomlistbbox(a)
     if not isinsidebbox(bb,p):
         return False
-    p2 = add([0.1,0.1,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-
-    pp = intersectGeomListXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    if not isinstance(unsamplegeomlist(a,p),bool):
+        return True             # on the boundary
+    return _crossingsXY(a,p) % 2 == 1
 
 
 ## determint if the contents of a geometry list lie in the same x-y
-- 
2.43.0


From e402da53e6d637572ae5c2e0ce47121150328a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 059/176] fix: unsampling the end of an arc at zero degrees

The point at angle zero was found before the start of an arc that ends
there, rather than at its end.
---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e9b93b5..8c21709 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2485,7 +2485,7 @@ def unsamplearc(c,p):
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
     # allow for rounding where the arc starts and ends
     tol = epsilon*360.0/(pi2*r)
-    if end > 360.0 and ang <= end-360.0+tol:
+    if ang < start-tol and ang+360.0 <= end+tol:
         ang = ang + 360.0
     elif ang > end+tol and ang-360.0 >= start-tol:
         ang = ang - 360.0
-- 
2.43.0


From 2c577087c5425da1651f0298c0411ea4b028d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 060/176] fix: geometry documents do not share metadata or ids
 with the entities written and read

---
 src/yapcad/io/geometry_json.py | 90 +++++++++++++++-------------------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..3c041b4 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -6,6 +6,7 @@ Implements the draft schema described in ``docs/geometry_json_schema.md``.
 from __future__ import annotations
 
 import uuid
+from copy import deepcopy
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
 
 from yapcad.geom import (
@@ -36,8 +37,8 @@ from yapcad.metadata import (
     ensure_surface_id,
     set_solid_metadata,
     set_surface_metadata,
-    set_layer,
 )
+
 SCHEMA_ID = "yapcad-geometry-json-v0.1"
 
 
@@ -78,7 +79,7 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
         surface_id = ensure_surface_id(surface)
     except Exception as exc:
         raise RuntimeError(f"failed to ensure surface metadata for {surface!r}") from exc
-    metadata = get_surface_metadata(surface, create=True)
+    metadata = deepcopy(get_surface_metadata(surface, create=True))
     if metadata_override:
         metadata.update(metadata_override)
     if "layer" not in metadata or not metadata.get("layer"):
@@ -107,13 +108,29 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
     }
 
 
-def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
+def _claim_id(entry: Dict[str, Any], used_ids: set) -> str:
+    """Give ``entry`` a fresh id when the document already uses its id."""
+    if entry["id"] in used_ids:
+        new_id = str(uuid.uuid4())
+        entry["metadata"]["entityId"] = new_id
+        entry["metadata"]["id"] = new_id
+        entry["id"] = new_id
+    used_ids.add(entry["id"])
+    return entry["id"]
+
+
+def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], used_ids: set, metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
     solid_id = ensure_solid_id(solid)
-    metadata = get_solid_metadata(solid, create=True)
+    metadata = deepcopy(get_solid_metadata(solid, create=True))
     if metadata_override:
         metadata.update(metadata_override)
     if "layer" not in metadata or not metadata.get("layer"):
         metadata["layer"] = "default"
+    # the identity of the solid is not inherited by its surfaces
+    inherited = {k: v for k, v in (metadata_override or {}).items()
+                 if k not in ("entityId", "id")}
+    entry: Dict[str, Any] = {"id": metadata.get("entityId", solid_id), "metadata": metadata}
+    _claim_id(entry, used_ids)
     try:
         bbox = _bbox_or_none(solidbbox(solid))
     except Exception:
@@ -126,22 +143,11 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         if not issurface(surf):
             continue
         surface_meta = get_surface_metadata(surf, create=True)
-        surface_override = None
-        if metadata_override:
-            surface_override = dict(metadata_override)
+        surface_override = deepcopy(inherited)
         if parent_layer and (not surface_meta.get("layer") or surface_meta.get("layer") == "default"):
-            surface_override = dict(surface_override or {})
             surface_override["layer"] = parent_layer
         serialized = _serialize_surface(surf, surface_override)
-        surface_id = serialized["id"]
-        while surface_id in surface_cache:
-            new_id = uuid.uuid4().hex
-            meta = serialized["metadata"]
-            meta["entityId"] = new_id
-            meta["id"] = new_id
-            serialized["id"] = new_id
-            set_surface_metadata(surf, meta)
-            surface_id = new_id
+        surface_id = _claim_id(serialized, used_ids)
         surface_cache[surface_id] = serialized
         shell_ids.append(surface_id)
         layers_seen.append(serialized["metadata"].get("layer", "default"))
@@ -154,22 +160,11 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
                 if not issurface(surf):
                     continue
                 surface_meta = get_surface_metadata(surf, create=True)
-                surface_override = None
-                if metadata_override:
-                    surface_override = dict(metadata_override)
+                surface_override = deepcopy(inherited)
                 if parent_layer and (not surface_meta.get("layer") or surface_meta.get("layer") == "default"):
-                    surface_override = dict(surface_override or {})
                     surface_override["layer"] = parent_layer
                 serialized = _serialize_surface(surf, surface_override)
-                surface_id = serialized["id"]
-                while surface_id in surface_cache:
-                    new_id = uuid.uuid4().hex
-                    meta = serialized["metadata"]
-                    meta["entityId"] = new_id
-                    meta["id"] = new_id
-                    serialized["id"] = new_id
-                    set_surface_metadata(surf, meta)
-                    surface_id = new_id
+                surface_id = _claim_id(serialized, used_ids)
                 surface_cache[surface_id] = serialized
                 void_ids.append(surface_id)
                 layers_seen.append(serialized["metadata"].get("layer", "default"))
@@ -186,8 +181,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         else:
             metadata["layer"] = "default"
 
-    return {
-        "id": metadata.get("entityId", solid_id),
+    entry.update({
         "type": "solid",
         "name": metadata.get("name"),
         "metadata": metadata,
@@ -195,7 +189,8 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         "properties": {},
         "shell": shell_ids,
         "voids": voids,
-    }
+    })
+    return entry
 
 
 def _polyline_points(sequence: List[float]) -> List[float]:
@@ -345,36 +340,29 @@ def geometry_to_json(
     """Serialize solids/surfaces into the geometry JSON document."""
     serialized_entities: List[Dict[str, Any]] = []
     surface_cache: Dict[str, Dict[str, Any]] = {}
+    used_ids: set = set()
 
     for item in entities:
         metadata_override = None
         entity = item
         if isinstance(item, dict) and 'geometry' in item:
-            metadata_override = dict(item.get('metadata', {}))
+            metadata_override = deepcopy(item.get('metadata') or {})
             entity = item['geometry']
         elif isinstance(item, tuple) and len(item) == 2 and isinstance(item[1], dict):
-            entity, metadata_override = item[0], dict(item[1])
+            entity, metadata_override = item[0], deepcopy(item[1])
+        if metadata_override and not metadata_override.get("layer"):
+            metadata_override.pop("layer", None)
 
         if issolid(entity):
-            if metadata_override:
-                meta = get_solid_metadata(entity, create=True)
-                layer = metadata_override.get("layer")
-                if layer:
-                    set_layer(meta, layer)
-                meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
-            solid_entry = _serialize_solid(entity, surface_cache, metadata_override)
+            solid_entry = _serialize_solid(entity, surface_cache, used_ids, metadata_override)
             serialized_entities.append(solid_entry)
         elif issurface(entity):
-            if metadata_override:
-                meta = get_surface_metadata(entity, create=True)
-                layer = metadata_override.get("layer")
-                if layer:
-                    set_layer(meta, layer)
-                meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
-            surface_cache.setdefault(surface_entry["id"], surface_entry)
+            _claim_id(surface_entry, used_ids)
+            surface_cache[surface_entry["id"]] = surface_entry
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
+            _claim_id(sketch_entry, used_ids)
             serialized_entities.append(sketch_entry)
         else:
             raise ValueError("unsupported entity type for serialization")
@@ -403,7 +391,7 @@ def _rehydrate_surface(entry: Dict[str, Any]) -> list:
     surface = ['surface', verts, norms, faces, [], []]
     metadata = entry.get("metadata")
     if metadata:
-        set_surface_metadata(surface, metadata)
+        set_surface_metadata(surface, deepcopy(metadata))
     return surface
 
 
@@ -459,7 +447,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         solid = ['solid', shell_surfaces, voids, []]
         metadata = entry.get("metadata")
         if metadata:
-            set_solid_metadata(solid, metadata)
+            set_solid_metadata(solid, deepcopy(metadata))
         brep_from_solid(solid)
         solids.append(solid)
 
-- 
2.43.0


From d0f045d20638dae8cb7ccdc3b3163d24ad2c1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 061/176] fix: geometry documents keep every entity and its
 place

---
 src/yapcad/io/geometry_json.py | 38 ++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 3c041b4..dd7b833 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -359,7 +359,7 @@ def geometry_to_json(
         elif issurface(entity):
             surface_entry = _serialize_surface(entity, metadata_override)
             _claim_id(surface_entry, used_ids)
-            surface_cache[surface_entry["id"]] = surface_entry
+            serialized_entities.append(surface_entry)
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
             _claim_id(sketch_entry, used_ids)
@@ -408,7 +408,8 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         entries_by_id[entry_id] = entry
 
     surfaces: Dict[str, list] = {}
-    solids: List[list] = []
+    owned: set = set()  # surfaces that belong to a solid
+    loaded: Dict[int, list] = {}  # by position in the document
 
     # First pass: instantiate surfaces explicitly listed
     for entry in doc.get("entities", []):
@@ -416,11 +417,12 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
             surfaces[entry["id"]] = _rehydrate_surface(entry)
 
     # Second pass: instantiate solids (and any referenced surfaces/voids)
-    for entry in doc.get("entities", []):
+    for position, entry in enumerate(doc.get("entities", [])):
         if entry.get("type") != "solid":
             continue
         shell_surfaces: List[list] = []
         for sid in entry.get("shell", []):
+            owned.add(sid)
             surface = surfaces.get(sid)
             if surface is None:
                 surf_entry = entries_by_id.get(sid)
@@ -434,6 +436,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         for void_ids in entry.get("voids", []):
             void_surfaces: List[list] = []
             for sid in void_ids:
+                owned.add(sid)
                 surface = surfaces.get(sid)
                 if surface is None:
                     surf_entry = entries_by_id.get(sid)
@@ -449,16 +452,11 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         if metadata:
             set_solid_metadata(solid, deepcopy(metadata))
         brep_from_solid(solid)
-        solids.append(solid)
-
-    if solids:
-        return solids
-    sketches = [
-        entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
-    ]
-    if sketches:
-        geomlists: List[list] = []
-        for sketch in sketches:
+        loaded[position] = solid
+
+    # Third pass: sketches
+    for position, sketch in enumerate(doc.get("entities", [])):
+        if sketch.get("type") == "sketch":
             primitives = sketch.get("primitives") or []
             elements: List[list] = []
             for prim in primitives:
@@ -541,7 +539,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                         )
                     )
             if elements:
-                geomlists.append(elements)
+                loaded[position] = elements
                 continue
 
             polylines = []
@@ -557,10 +555,14 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     segments.append(line(pts[idx], pts[idx + 1]))
                 polylines.extend(segments)
             if polylines:
-                geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+                loaded[position] = polylines
+
+    # surfaces that stand on their own
+    for position, entry in enumerate(doc.get("entities", [])):
+        if entry.get("type") == "surface" and entry["id"] not in owned:
+            loaded[position] = surfaces[entry["id"]]
+
+    return [loaded[position] for position in sorted(loaded)]
 
 
 __all__ = [
-- 
2.43.0


From 2b681420200da82531965789e6df67ff7ff64dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 062/176] fix: sketches keep points, nested lists and heights
 in geometry documents

---
 src/yapcad/io/geometry_json.py | 43 +++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index dd7b833..a28ec27 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -24,6 +24,8 @@ from yapcad.geom import (
     iscircle,
     isgeomlist,
     isline,
+    ispoint,
+    ispoly,
     length,
     line,
     sample,
@@ -197,6 +199,18 @@ def _polyline_points(sequence: List[float]) -> List[float]:
     return [float(sequence[0]), float(sequence[1])]
 
 
+def _sketch_coords(pt: Sequence[float]) -> List[float]:
+    """Return the coordinates of a sketch point; z only where it matters."""
+    coords = [float(pt[0]), float(pt[1])]
+    if len(pt) > 2 and pt[2] != 0:
+        coords.append(float(pt[2]))
+    return coords
+
+
+def _sketch_point(coords: Sequence[float]) -> List[float]:
+    return point(*(float(c) for c in coords[:3]))
+
+
 def _sample_geometry_element(element: list, min_segments: int = 8) -> List[List[float]]:
     if isline(element):
         return [
@@ -227,10 +241,12 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             primitives.append(
                 {
                     "kind": "line",
-                    "start": start,
-                    "end": end,
+                    "start": _sketch_coords(element[0]),
+                    "end": _sketch_coords(element[1]),
                 }
             )
+        elif ispoint(element):
+            primitives.append({"kind": "point", "at": _sketch_coords(element)})
         elif iscircle(element):
             center = _point_components(element[0])
             radius = float(element[1][0])
@@ -298,11 +314,17 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
                 }
             )
             poly_vectors.append(_sample_geometry_element(element))
-        elif isinstance(element, list) and len(element) >= 2 and all(isinstance(pt, list) for pt in element):
+        elif ispoly(element) and len(element) >= 2:
             coords = [_polyline_points(pt) for pt in element]
             if coords:
                 poly_vectors.append(coords)
-                primitives.append({"kind": "polyline", "points": coords})
+                primitives.append(
+                    {"kind": "polyline", "points": [_sketch_coords(pt) for pt in element]}
+                )
+        elif isgeomlist(element):
+            nested = _serialize_sketch(element)
+            poly_vectors.extend(nested["polylines"])
+            primitives.append({"kind": "group", "primitives": nested["primitives"]})
 
     box = bbox2d(geomlist)
     if box:
@@ -461,12 +483,17 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
             elements: List[list] = []
             for prim in primitives:
                 kind = prim.get("kind")
-                if kind == "line":
+                if kind == "group":
+                    nested = {"id": "group", "type": "sketch", "primitives": prim.get("primitives")}
+                    elements.extend(geometry_from_json({"schema": SCHEMA_ID, "entities": [nested]}))
+                elif kind == "point":
+                    elements.append(_sketch_point(prim.get("at", [0.0, 0.0])))
+                elif kind == "line":
                     start = prim.get("start", [])
                     end = prim.get("end", [])
                     if len(start) >= 2 and len(end) >= 2:
-                        p0 = point(float(start[0]), float(start[1]))
-                        p1 = point(float(end[0]), float(end[1]))
+                        p0 = _sketch_point(start)
+                        p1 = _sketch_point(end)
                         elements.append(line(p0, p1))
                 elif kind == "circle":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
@@ -511,7 +538,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     )
                 elif kind == "polyline":
                     coords = prim.get("points", [])
-                    pts = [point(float(pt[0]), float(pt[1])) for pt in coords if len(pt) >= 2]
+                    pts = [_sketch_point(pt) for pt in coords if len(pt) >= 2]
                     for idx in range(len(pts) - 1):
                         elements.append(line(pts[idx], pts[idx + 1]))
                 elif kind == "catmullrom":
-- 
2.43.0


From 4d9a6bc0cf07de9c987ba15b1eaa1c52333faaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 063/176] fix: refuse to write geometry documents with infinite
 or undefined numbers

---
 src/yapcad/io/geometry_json.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index a28ec27..5bcccb0 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -5,6 +5,7 @@ Implements the draft schema described in ``docs/geometry_json_schema.md``.
 
 from __future__ import annotations
 
+import math
 import uuid
 from copy import deepcopy
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
@@ -44,8 +45,15 @@ from yapcad.metadata import (
 SCHEMA_ID = "yapcad-geometry-json-v0.1"
 
 
+def _finite(value: float) -> float:
+    value = float(value)
+    if not math.isfinite(value):
+        raise ValueError("geometry documents cannot hold infinite or undefined numbers")
+    return value
+
+
 def _float_vec(vec: Iterable[float]) -> List[float]:
-    return [float(c) for c in vec]
+    return [_finite(c) for c in vec]
 
 
 def _int_vec(vec: Iterable[int]) -> List[int]:
@@ -61,10 +69,10 @@ def _bbox_or_none(box: Optional[List[List[float]]]) -> Optional[List[float]]:
 
 def _point_components(pt: Sequence[float]) -> List[float]:
     """Return point components including homogeneous coordinate."""
-    x = float(pt[0])
-    y = float(pt[1])
-    z = float(pt[2]) if len(pt) > 2 else 0.0
-    w = float(pt[3]) if len(pt) > 3 else 1.0
+    x = _finite(pt[0])
+    y = _finite(pt[1])
+    z = _finite(pt[2]) if len(pt) > 2 else 0.0
+    w = _finite(pt[3]) if len(pt) > 3 else 1.0
     return [x, y, z, w]
 
 
@@ -196,7 +204,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], used
 
 
 def _polyline_points(sequence: List[float]) -> List[float]:
-    return [float(sequence[0]), float(sequence[1])]
+    return [_finite(sequence[0]), _finite(sequence[1])]
 
 
 def _sketch_coords(pt: Sequence[float]) -> List[float]:
@@ -249,7 +257,7 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             primitives.append({"kind": "point", "at": _sketch_coords(element)})
         elif iscircle(element):
             center = _point_components(element[0])
-            radius = float(element[1][0])
+            radius = _finite(element[1][0])
             primitive: Dict[str, Any] = {
                 "kind": "circle",
                 "center": center,
@@ -262,9 +270,9 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             poly_vectors.append(_sample_geometry_element(element))
         elif isarc(element):
             center = _point_components(element[0])
-            radius = float(element[1][0])
-            start_angle = float(element[1][1])
-            end_angle = float(element[1][2])
+            radius = _finite(element[1][0])
+            start_angle = _finite(element[1][1])
+            end_angle = _finite(element[1][2])
             primitive = {
                 "kind": "arc",
                 "center": center,
-- 
2.43.0


From 01267a3a8328ce2bca44265d26393087105c4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 064/176] fix: geometry documents keep boundary loops and
 construction records

---
 src/yapcad/io/geometry_json.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 5bcccb0..ec4a9db 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -111,6 +111,8 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
         "vertices": [_float_vec(v) for v in verts],
         "normals": [_float_vec(n) for n in norms],
         "faces": [_int_vec(face) for face in faces],
+        "boundary": _int_vec(surface[4]),
+        "holes": [_int_vec(hole) for hole in surface[5]],
         "triangulation": {
             "winding": "ccw",
             "topology": "triangle",
@@ -199,6 +201,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], used
         "properties": {},
         "shell": shell_ids,
         "voids": voids,
+        "construction": deepcopy(solid[3]),
     })
     return entry
 
@@ -418,7 +421,9 @@ def _rehydrate_surface(entry: Dict[str, Any]) -> list:
     verts = [list(map(float, v)) for v in entry.get("vertices", [])]
     norms = [list(map(float, n)) for n in entry.get("normals", [])]
     faces = [list(map(int, f)) for f in entry.get("faces", [])]
-    surface = ['surface', verts, norms, faces, [], []]
+    boundary = list(map(int, entry.get("boundary", [])))
+    holes = [list(map(int, hole)) for hole in entry.get("holes", [])]
+    surface = ['surface', verts, norms, faces, boundary, holes]
     metadata = entry.get("metadata")
     if metadata:
         set_surface_metadata(surface, deepcopy(metadata))
@@ -477,7 +482,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 void_surfaces.append(surface)
             voids.append(void_surfaces)
 
-        solid = ['solid', shell_surfaces, voids, []]
+        solid = ['solid', shell_surfaces, voids, deepcopy(entry.get("construction", []))]
         metadata = entry.get("metadata")
         if metadata:
             set_solid_metadata(solid, deepcopy(metadata))
-- 
2.43.0


From ebb43e78096c7d2ba2e1e83b21a51e782fa69c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 065/176] fix: an empty list given to solid() or surface()
 keeps its place

---
 src/yapcad/geom3d.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..fdf724a 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -478,6 +478,7 @@ def surface(*args):
         facs = args[2]
         bndr = []
         hle = []
+        lists = 0
         metadata = None
 
         if not (isinstance(vrts,list) and isinstance(nrms,list)
@@ -491,9 +492,10 @@ def surface(*args):
                     raise ValueError('multiple metadata dictionaries passed to surface')
                 metadata = item
             elif isinstance(item, list):
-                if not bndr:
+                lists += 1
+                if lists == 1:
                     bndr = item
-                elif not hle:
+                elif lists == 2:
                     hle = item
                 else:
                     raise ValueError('too many list arguments passed to surface')
@@ -754,6 +756,7 @@ def solid(*args):
         surfaces = args[0]
         material = []
         construction = []
+        lists = 0
         metadata = None
 
         for item in args[1:]:
@@ -762,9 +765,10 @@ def solid(*args):
                     raise ValueError('multiple metadata dictionaries passed to solid')
                 metadata = item
             elif isinstance(item, list):
-                if material == []:
+                lists += 1
+                if lists == 1:
                     material = item
-                elif construction == []:
+                elif lists == 2:
                     construction = item
                 else:
                     raise ValueError('too many list arguments passed to solid')
-- 
2.43.0


From f5e2dea6eb16142855e3b96e31a3f9ab2427063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 066/176] fix: geometry documents keep material descriptions of
 solids

---
 src/yapcad/io/geometry_json.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index ec4a9db..a182ee6 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -165,7 +165,10 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], used
         layers_seen.append(serialized["metadata"].get("layer", "default"))
 
     voids: List[List[str]] = []
-    if len(solid) > 2:
+    # the slot holds either void shells or a material description
+    material = [] if all(isinstance(void, list) and all(issurface(surf) for surf in void)
+                         for void in solid[2] or []) else solid[2]
+    if not material:
         for void in solid[2] or []:
             void_ids: List[str] = []
             for surf in void:
@@ -201,6 +204,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], used
         "properties": {},
         "shell": shell_ids,
         "voids": voids,
+        "material": deepcopy(material),
         "construction": deepcopy(solid[3]),
     })
     return entry
@@ -482,7 +486,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 void_surfaces.append(surface)
             voids.append(void_surfaces)
 
-        solid = ['solid', shell_surfaces, voids, deepcopy(entry.get("construction", []))]
+        solid = ['solid', shell_surfaces, voids or deepcopy(entry.get("material", [])), deepcopy(entry.get("construction", []))]
         metadata = entry.get("metadata")
         if metadata:
             set_solid_metadata(solid, deepcopy(metadata))
-- 
2.43.0


From 94d3c911e91db53078173297375edacb89759b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 067/176] fix: arcs read from geometry documents keep their
 direction

---
 src/yapcad/io/geometry_json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index a182ee6..0fdb1ed 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -519,9 +519,9 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, 0.0, 360.0, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal), samplereverse=orientation == -2))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data, samplereverse=orientation == -2))
                 elif kind == "arc":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     radius = float(prim.get("radius", 0.0))
@@ -531,9 +531,9 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, start_angle, end_angle, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal), samplereverse=orientation == -2))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data, samplereverse=orientation == -2))
                 elif kind == "ellipse":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     semi_major = float(prim.get("semi_major", 1.0))
-- 
2.43.0


From 749fe87862bbf425d2ce13b251b99cd6627c84d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 068/176] fix: extruding against a surface's normal gave an
 inside-out solid

---
 src/yapcad/geom3d_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..3f425c5 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1337,6 +1337,12 @@ def extrude(surf,distance,direction=vect(0,0,1,0)):
     if distance <= epsilon:
         raise ValueError('bad distance passed to extrude')
 
+    # the far cap faces along the extrusion; turn a surface facing the other way
+    if surf[3]:
+        _, facing = tri2p0n([surf[1][i] for i in surf[3][0]])
+        if dot(facing, direction) < 0:
+            surf = reversesurface(surf)
+
     s1 = translatesurface(surf,scale4(direction,distance))
     s2 = reversesurface(surf)
 
-- 
2.43.0


From 8657bcb4c4efbc72cce5d17a2d0a0cca5ce76a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 069/176] fix: scaling a surface or solid about a centre
 displaced it

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index fdf724a..665a0d7 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -704,9 +704,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From bf581a095f47179ba6c3a6d9dce23de2b18e5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 070/176] fix: scaling by a negative factor turned surfaces and
 solids inside out

---
 src/yapcad/geom3d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 665a0d7..1d5bb6f 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -715,7 +715,10 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     # Normals need special handling for non-uniform scaling
     # For non-uniform scale, normals transform by inverse-transpose
     # For uniform scale, normals stay the same (just need normalization)
-    if not close(sx, sy) or not close(sy, sz):
+    if sx * sy * sz < 0:
+        # a reflection: keep the faces pointing outwards
+        s2[3] = [[f[0], f[2], f[1]] for f in s2[3]]
+    if sx < 0 or not close(sx, sy) or not close(sy, sz):
         # Non-uniform scaling - normals need inverse transpose
         # Normal transform matrix is inverse-transpose of vertex transform
         inv_scale = xform.Scale(1.0/sx, 1.0/sy, 1.0/sz)
-- 
2.43.0


From a4935fe8c5b16ce7c13d1bc2945abef1602a2450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 071/176] fix: a wrapped solid kept its first bounding box
 after being transformed

---
 src/yapcad/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 8f44a09..b395db6 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -518,6 +518,7 @@ class Geometry:
             elif issolid(self.__elem, fast=False):
                 # No length for solids; use bbox/center from surfaces
                 self.__length = 0.0
+                self.__bbox = None
                 try:
                     if has_brep_data(self.__elem) and _GEOMETRY_HAVE_OCC:
                         brep = brep_from_solid(self.__elem)
-- 
2.43.0


From 0d89404102cec912f2cf1e02797b54ce915a2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 072/176] fix: the center of a wrapped solid was that of its
 first surface

---
 src/yapcad/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index b395db6..741f7c9 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -529,7 +529,7 @@ class Geometry:
                             self.__bbox = [point(xmin, ymin, zmin), point(xmax, ymax, zmax)]
                     if not self.__bbox:
                         self.__bbox = solidbbox(self.__elem)
-                    self.__center = center(self.__elem[1][0]) if self.__elem[1] else point(0,0,0)
+                    self.__center = center(self.__elem) if self.__elem[1] else point(0,0,0)
                 except Exception:
                     self.__bbox = None
                     self.__center = None
@@ -539,7 +539,7 @@ class Geometry:
                     self.__length = 0.0
                     try:
                         self.__bbox = solidbbox(self.__elem)
-                        self.__center = center(self.__elem[1][0]) if self.__elem[1] else point(0,0,0)
+                        self.__center = center(self.__elem) if self.__elem[1] else point(0,0,0)
                     except Exception:
                         self.__bbox = None
                         self.__center = None
-- 
2.43.0


From 1a7159966a0c9f335ac15a802ee978da3e625392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 073/176] fix: mirroring a wrapped solid without BREP data did
 nothing

---
 src/yapcad/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 741f7c9..3e32153 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -443,10 +443,12 @@ class Geometry:
             try:
                 from yapcad.brep import mirror_brep_solid
                 mirror_brep_solid(self.__elem, plane)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
+                retessellated = _retessellate_brep_solid(self.__elem)
+                if retessellated:
+                    self.__elem = retessellated
+                    self._clearSurfaceCache()
+                    self._setUpdate(True)
+                    return
             except Exception:
                 pass
             from yapcad.geom3d import mirror as mirror_solid
-- 
2.43.0


From 20ea4ed19c40811a4d9c5dbfba3a0ded5bdd729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 074/176] fix: scaling a wrapped solid without BREP data
 produced a malformed solid

---
 src/yapcad/geometry.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 3e32153..3fccd72 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -357,28 +357,11 @@ class Geometry:
                 self._clearSurfaceCache()
                 self._setUpdate(True)
                 return
-            # fallback: scale vertices of each surface (uniform only)
-            def _scale_point(p):
-                return point(
-                    cent[0] + sx * (p[0] - cent[0]),
-                    cent[1] + sx * (p[1] - cent[1]),
-                    cent[2] + sx * (p[2] - cent[2]),
-                )
-            new_surfaces = []
-            for surf in self.__elem[1]:
-                new_pts = [_scale_point(v) for v in surf[1]]
-                new_surf = [new_pts, list(deepcopy(surf[2])), list(deepcopy(surf[3]))]
-                # boundaries/holes/metadata if present
-                if len(surf) > 4:
-                    new_surf.append(deepcopy(surf[4]))
-                if len(surf) > 5:
-                    new_surf.append(deepcopy(surf[5]))
-                if len(surf) > 6:
-                    new_surf.append(deepcopy(surf[6]))
-                new_surfaces.append(new_surf)
-            meta = self.__elem[3] if len(self.__elem) > 3 else []
-            self._setElem(['solid', new_surfaces, [] , meta])
+            # fallback: scale the mesh (uniform only)
+            from yapcad.geom3d import scalesolid
+            self._setElem(scalesolid(self.__elem, sx, cent=cent))
             self._setUpdate(True)
+            self._clearSurfaceCache()
             return
         if is_brep(self.__elem):
             require_occ()
-- 
2.43.0


From 4470b3621f2597cdf01fd4f9d89ecc33b06c0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 075/176] fix: coplanar triangles could not be intersected

---
 src/yapcad/geom3d.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 1d5bb6f..61770ef 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -419,8 +419,20 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             else:
                 return t2
         else: # return poly that is in-plane intersection
-            intr = combineglist(t1p,t2p,'intersection')
-            if len(intr) < 1: #no intersection
+            intr = t2p[0:3]
+            for i in range(3): # clip by each edge of t1, which is right-handed here
+                p = t1p[i]
+                e = sub(t1p[(i+1)%3],p)
+                d = [(e[0]*(q[1]-p[1])-e[1]*(q[0]-p[0]))/mag(e) for q in intr]
+                clipped = []
+                for j in range(len(intr)):
+                    k = (j+1)%len(intr)
+                    if d[j] >= 0.0:
+                        clipped.append(intr[j])
+                    if (d[j] > epsilon and d[k] < -epsilon) or (d[j] < -epsilon and d[k] > epsilon):
+                        clipped.append(sampleline([intr[j],intr[k]],d[j]/(d[j]-d[k])))
+                intr = clipped
+            if len(intr) < 3: #no intersection
                 return False
             else:
                 if inPlane:
-- 
2.43.0


From 4a98a4c61d5a68e63495394d3b88dea0e0700b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 076/176] fix: triangles that do not meet were reported as
 intersecting

---
 src/yapcad/geom3d.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 61770ef..3556e2b 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -440,7 +440,7 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
                 else:
                     return transform(intr,tinv)
     # not coplanar, check to see if planes are parallel
-    if vclose(n1,n2):
+    if vclose(n1,n2) or vclose(n1,scale4(n2,-1.0)):
         return False #yep, degenerate
 
     if inside:
@@ -452,6 +452,32 @@ def triTriIntersect(t1,t2,inside=True,inPlane=False,basis=None):
             return False
         # linear intersection.  Figure out which two of three lines
         # cross the z=0 plane
+        pts = []
+        for i in range(3):
+            p,q = t2p[i],t2p[(i+1)%3]
+            if abs(p[2]) <= epsilon:
+                pts.append(point(p[0],p[1],0))
+            elif abs(q[2]) > epsilon and p[2]*q[2] < 0:
+                pts.append(linePlaneIntersect([p,q],"xy",False))
+        a,b = pts[0],pts[-1]
+        # keep the part within t1, which is right-handed here
+        u0,u1 = 0.0,1.0
+        for i in range(3):
+            p = t1p[i]
+            e = sub(t1p[(i+1)%3],p)
+            da,db = [(e[0]*(q[1]-p[1])-e[1]*(q[0]-p[0]))/mag(e) for q in (a,b)]
+            if da < -epsilon and db < -epsilon:
+                return False
+            if da < -epsilon:
+                u0 = max(u0,da/(da-db))
+            elif db < -epsilon:
+                u1 = min(u1,da/(da-db))
+        if u0 > u1:
+            return False
+        a,b = sampleline([a,b],u0),sampleline([a,b],u1)
+        if inPlane:
+            return [a,b]
+        return [tinv.mul(a),tinv.mul(b)]
 
     # this should work whether or not the intersection is
     # inside t2.
-- 
2.43.0


From f009f05ae7108d9bd84aa46383d1ef4c0fd9b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 077/176] fix: linePlaneIntersect rejected planar bases and
 clipped to triangles unasked

---
 src/yapcad/geom3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 3556e2b..5b90baa 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -336,7 +336,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return sampleline(lne,u)
 
     # is the plane specified symbolicaly?
-    trangle = False
+    triangle = False
     idx = -1
     if plane=="xy":
         idx=2
@@ -355,7 +355,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             tri2 = [ plane[2].mul(tri[0]),
                      plane[2].mul(tri[1]),
                      plane[2].mul(tri[2]) ]
-        else:
+        elif not (isinstance(plane,(list,tuple)) and len(plane) == 4 and isinstance(plane[2],Matrix)):
             raise ValueError('non-plane passed to linePlaneIntersect')
         # otherwise assume that plane is a valid planar basis
 
@@ -365,7 +365,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
         if not p:
             return False
         else:
-            if triangle and not isInsideTriangleXY(p,tri2):
+            if triangle and inside and not isInsideTriangleXY(p,tri2):
                 return False
             return plane[3].mul(p)
         
-- 
2.43.0


From b6876b514b2dcf0cb87b5f8c6fff224706782f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:29 +0000
Subject: [PATCH 078/176] fix: solids_intersect took the middle of a solid for
 a point of it

---
 src/yapcad/boolean/native.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/boolean/native.py b/src/yapcad/boolean/native.py
index 4132b0f..5408a8b 100644
--- a/src/yapcad/boolean/native.py
+++ b/src/yapcad/boolean/native.py
@@ -1088,20 +1088,16 @@ def solids_intersect(a, b, tol=_DEFAULT_RAY_TOL):
     if box_a and box_b and not _bbox_overlap(box_a, box_b, tol):
         return False
 
-    center_a = point((box_a[0][0] + box_a[1][0]) / 2.0,
-                     (box_a[0][1] + box_a[1][1]) / 2.0,
-                     (box_a[0][2] + box_a[1][2]) / 2.0)
-    center_b = point((box_b[0][0] + box_b[1][0]) / 2.0,
-                     (box_b[0][1] + box_b[1][1]) / 2.0,
-                     (box_b[0][2] + box_b[1][2]) / 2.0)
-    if solid_contains_point(a, center_b, tol=tol) or solid_contains_point(b, center_a, tol=tol):
-        return True
-
     for tri_a in _iter_triangles_from_solid(a):
         for tri_b in _iter_triangles_from_solid(b):
             if _geom3d().triTriIntersect(tri_a, tri_b):
                 return True
-    return False
+
+    # no faces meet: one solid may still lie wholly within the other
+    vertex_a = point(next(_iter_triangles_from_solid(a))[0])
+    vertex_b = point(next(_iter_triangles_from_solid(b))[0])
+    return (solid_contains_point(a, vertex_b, tol=tol) or
+            solid_contains_point(b, vertex_a, tol=tol))
 
 
 def solid_boolean(a, b, operation, tol=_DEFAULT_RAY_TOL, *, stitch=False):
-- 
2.43.0


From 7099439a89c0042909105645d4b347bd9650719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:55 +0000
Subject: [PATCH 079/176] fix: triangulating a polygon off the XY plane put its
 faces in the XY plane

---
 src/yapcad/geom3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5b90baa..b869ef9 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1385,7 +1385,7 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
     orientation = 1 if outer_area >= 0 else -1
 
     for tri in triangles:
-        tri_points = [point(x, y, 0, 1) for (x, y) in tri]
+        tri_points = [point(x, y, outer_loop[0][2]) for (x, y) in tri]
         area = _signed_triangle(tri)
         if area * orientation < 0:
             tri_points[1], tri_points[2] = tri_points[2], tri_points[1]
-- 
2.43.0


From 0095bd438671b4a70986f8b5d4f464e67be875f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 080/176] fix: vertex normals of clockwise polygons pointed
 away from their faces

---
 src/yapcad/geom3d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index b869ef9..661f4d6 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1383,6 +1383,8 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
                      - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
                      for i in range(len(outer_loop)))
     orientation = 1 if outer_area >= 0 else -1
+    facing = [0,0,orientation,0]
+    nrms[:] = [list(facing) for _ in nrms]
 
     for tri in triangles:
         tri_points = [point(x, y, outer_loop[0][2]) for (x, y) in tri]
@@ -1392,9 +1394,9 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
             area = -area
         if abs(area) > minarea:
             surf = addTri2Surface(tri_points,surf,
-                                  nfunc=lambda x: ([0,0,1,0],
-                                                   [0,0,1,0],
-                                                   [0,0,1,0]))
+                                  nfunc=lambda x: (facing,
+                                                   facing,
+                                                   facing))
 
     return surf,[]
 
-- 
2.43.0


From fd727268c8ee66854dcc0ebb43156e7b231d5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 081/176] fix: triangulated polygons keep their small triangles

Triangles below 1e-4 square units were dropped and the outline was
rounded to single precision first, so extruding a finely sampled or
small polygon left holes in the caps.
---
 src/yapcad/geom3d.py       |  4 ++--
 src/yapcad/geom3d_util.py  | 10 ++++++----
 src/yapcad/triangulator.py |  4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 661f4d6..c19f517 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1274,7 +1274,7 @@ def surf2lines(surf):
 
     return lines
     
-def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0,
                  checkclosed=False,basis=None):
 
     """Given ``ply``, a coplanar polygon, return the triangulated surface
@@ -1321,7 +1321,7 @@ def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
 
     return surf,bnd2
 
-def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0,
                    checkclosed=False,box=None):
     """Given ``ply``, return a triangulated XY surface (holes supported)."""
 
diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 3f425c5..a523efd 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1338,10 +1338,12 @@ def extrude(surf,distance,direction=vect(0,0,1,0)):
         raise ValueError('bad distance passed to extrude')
 
     # the far cap faces along the extrusion; turn a surface facing the other way
-    if surf[3]:
-        _, facing = tri2p0n([surf[1][i] for i in surf[3][0]])
-        if dot(facing, direction) < 0:
-            surf = reversesurface(surf)
+    facing = [0, 0, 0, 0]
+    for i, j, k in surf[3]:
+        facing = add(facing, cross(sub(surf[1][j], surf[1][i]),
+                                   sub(surf[1][k], surf[1][j])))
+    if dot(facing, direction) < 0:
+        surf = reversesurface(surf)
 
     s1 = translatesurface(surf,scale4(direction,distance))
     s2 = reversesurface(surf)
diff --git a/src/yapcad/triangulator.py b/src/yapcad/triangulator.py
index 30a6450..929395e 100644
--- a/src/yapcad/triangulator.py
+++ b/src/yapcad/triangulator.py
@@ -61,9 +61,9 @@ def triangulate_polygon(outer: Sequence[Sequence[float]],
             continue
         _append(loop)
 
-    vertices = np.asarray(point_map, dtype=np.float32)
+    vertices = np.asarray(point_map, dtype=np.float64)
     ring_array = np.asarray(ring_ends, dtype=np.uint32)
-    indices = _earcut.triangulate_float32(vertices, ring_array)
+    indices = _earcut.triangulate_float64(vertices, ring_array)
     triangles: List[List[Point2D]] = []
     for i in range(0, len(indices), 3):
         triangles.append([point_map[indices[i]],
-- 
2.43.0


From c642f9b8e2881f09ce4437c421639776528bdf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 082/176] fix: transformed surfaces drop the cached octree

A solid that took part in a native boolean operation kept the search
tree of its old position after being moved, so the next boolean
operation or containment query on it was wrong.
---
 src/yapcad/geom3d.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index c19f517..97b7263 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -664,6 +664,14 @@ geom_translate = translate
 geom_scale = scale
 geom_mirror = mirror
 
+def _copysurface(s):
+    """a copy of the surface without what boolean operations cached for it"""
+    s2 = deepcopy(s)
+    if len(s2) > 6 and s2[6]:
+        for key in ('_octree', '_surface_orientation'):
+            s2[6].pop(key, None)
+    return s2
+
 def rotatesurface(s,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
     """ return a rotated copy of the surface"""
     if close(ang,0.0):
@@ -675,7 +683,7 @@ def rotatesurface(s,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
             mat = xform.Translation(cent)
             mat = mat.mul(xform.Rotation(axis,ang))
             mat = mat.mul(xform.Translation(cent,inverse=True))
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     #import pdb ; pdb.set_trace()
     s2[1] = geom_rotate(s2[1],ang,cent,axis,mat)
     s2[2] = geom_rotate(s2[2],ang,cent,axis,mat)
@@ -685,7 +693,7 @@ def translatesurface(s,delta):
     """ return a translated copy of the surface"""
     if vclose(delta,point(0,0,0)):
         return deepcopy(s)
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     for i in range(len(s2[1])):
         s2[1][i] = add(s2[1][i],delta)
     return s2
@@ -699,7 +707,7 @@ def mirrorsurface(s,plane):
     Note that this is a full surface geometry reflection, and not
     simply a normal reverser.
     """
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     s2[1] = mirror(s[1],plane)
     s2[2] = mirror(s[2],plane)
     s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
@@ -707,7 +715,7 @@ def mirrorsurface(s,plane):
     
 def reversesurface(s):
     """ return a nomal-reversed copy of the surface """
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     s2[2] = list(map(lambda x: scale4(x,-1.0),s2[2]))
     s2[3] = list(map(lambda x: [x[0],x[2],x[1]],s2[3]))
     return s2
@@ -746,7 +754,7 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
         mat = mat.mul(xform.Scale(sx, sy, sz))
         mat = mat.mul(xform.Translation(cent, inverse=True))
 
-    s2 = deepcopy(s)
+    s2 = _copysurface(s)
     # Transform vertices
     for i in range(len(s2[1])):
         s2[1][i] = mat.mul(s2[1][i])
-- 
2.43.0


From 5e89e9dc816ad07b77b74a9c52dbcb63420266d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 083/176] fix: triangulated polygons have no cracks along
 vertices in a row

Where three vertices of the outline are in one line, the edge between
the outer two could end up in one triangle with the middle one only in
the triangles on the other side, so extruded solids were not closed.
---
 src/yapcad/triangulator.py | 65 ++++++++++++++++++++++++++++++++++----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/triangulator.py b/src/yapcad/triangulator.py
index 929395e..896ecaf 100644
--- a/src/yapcad/triangulator.py
+++ b/src/yapcad/triangulator.py
@@ -64,12 +64,65 @@ def triangulate_polygon(outer: Sequence[Sequence[float]],
     vertices = np.asarray(point_map, dtype=np.float64)
     ring_array = np.asarray(ring_ends, dtype=np.uint32)
     indices = _earcut.triangulate_float64(vertices, ring_array)
-    triangles: List[List[Point2D]] = []
-    for i in range(0, len(indices), 3):
-        triangles.append([point_map[indices[i]],
-                          point_map[indices[i + 1]],
-                          point_map[indices[i + 2]]])
-    return triangles
+    faces = [[int(k) for k in indices[i:i + 3]] for i in range(0, len(indices), 3)]
+    _split_long_edges(faces, point_map, ring_ends)
+    return [[point_map[k] for k in face] for face in faces]
+
+
+def _split_long_edges(faces: List[List[int]], points: Sequence[Point2D],
+                      ring_ends: Sequence[int]) -> None:
+    """Split triangles along edges that run through further vertices.
+
+    Ear clipping leaves out the flat triangle between three vertices in a
+    row, so the edge on one side would have no counterpart on the other.
+    """
+    def _length(edge):
+        a, b = points[edge[0]], points[edge[1]]
+        return np.hypot(b[0] - a[0], b[1] - a[1])
+
+    def _flat(face):
+        (x1, y1), (x2, y2), (x3, y3) = (points[k] for k in face)
+        longest = max(_length((face[k - 1], face[k])) for k in range(3))
+        return abs((x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1)) <= 0.5 * epsilon * longest * longest
+
+    faces[:] = [face for face in faces if not _flat(face)]
+
+    owner = {}
+    start = 0
+    for end in ring_ends:
+        for k in range(start, end):
+            owner[(k + 1 if k + 1 < end else start, k)] = None
+        start = end
+    for face in faces:
+        for k in range(3):
+            owner[(face[k], face[(k + 1) % 3])] = face
+
+    unmatched = {e for e in owner if (e[1], e[0]) not in owner}
+
+    for edge in sorted(unmatched, key=_length, reverse=True):
+        face = owner[edge]
+        if edge not in unmatched or face is None:
+            continue
+        # walk back along the other side while that stays on the edge
+        chain = [edge[0]]
+        while chain[-1] != edge[1]:
+            rest = _length((chain[-1], edge[1]))
+            step = [u for u, v in unmatched if v == chain[-1] and u not in chain
+                    and abs(_length((v, u)) + _length((u, edge[1])) - rest) <= epsilon * epsilon * rest]
+            if len(step) != 1:
+                break
+            chain.append(step[0])
+        if chain[-1] != edge[1]:
+            continue
+        unmatched.difference_update(zip(chain[1:], chain[:-1]))
+        unmatched.discard(edge)
+        apex = next(k for k in face if k not in edge)
+        faces.remove(face)
+        for u, v in zip(chain, chain[1:]):
+            piece = [u, v, apex]
+            faces.append(piece)
+            for k in range(3):
+                owner[(piece[k], piece[(k + 1) % 3])] = piece
 
 
 def _prepare_loop(points: Sequence[Sequence[float]], *, want_ccw: bool) -> List[Point2D]:
-- 
2.43.0


From 1a03efa2024bfff0616786a67625ac8fc047ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 084/176] fix: small triangles are exported

Triangles were taken for degenerate by their size instead of their
shape, so STL and STEP files of small or finely divided solids had
holes.
---
 src/yapcad/geometry_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geometry_utils.py b/src/yapcad/geometry_utils.py
index 8dd67dd..2c07d40 100644
--- a/src/yapcad/geometry_utils.py
+++ b/src/yapcad/geometry_utils.py
@@ -51,7 +51,8 @@ def triangle_normal(v0: Vec3, v1: Vec3, v2: Vec3) -> Vec3 | None:
     bx, by, bz = v2[0] - v0[0], v2[1] - v0[1], v2[2] - v0[2]
     n = cross([ax, ay, az, 1.0], [bx, by, bz, 1.0])
     length = mag(n)
-    if length <= epsilon:
+    longest = max(ax * ax + ay * ay + az * az, bx * bx + by * by + bz * bz)
+    if length <= epsilon * epsilon * longest:
         return None
     return (n[0] / length, n[1] / length, n[2] / length)
 
-- 
2.43.0


From 66e578ce477ebf30851fa12bd0eeaf17094330bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 085/176] fix: ASCII STL files can be written for names outside
 ASCII

---
 src/yapcad/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index d512b0e..c28060f 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -65,7 +65,7 @@ def _write_ascii(triangles: Iterable[Triangle], path_or_file, name: str) -> None
     if hasattr(path_or_file, 'write'):
         stream = path_or_file
     else:
-        stream = open(path_or_file, 'w', encoding='ascii')
+        stream = open(path_or_file, 'w', encoding='ascii', errors='replace')
         close_when_done = True
 
     try:
-- 
2.43.0


From cac1546f141b5435618017f5853a6dc665706c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 086/176] fix: damaged STL files are refused

Truncated binary files and ASCII files with incomplete or malformed
facets were read as whatever part of the solid could be made out.
---
 src/yapcad/io/stl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index c28060f..c06c6b8 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -128,9 +128,10 @@ def _parse_binary_stl(data: bytes) -> List[Triangle]:
     triangles = []
     offset = 84
 
+    if len(data) < offset + 50 * tri_count:
+        raise ValueError(f"Invalid binary STL: {tri_count} triangles announced, file too small")
+
     for _ in range(tri_count):
-        if offset + 50 > len(data):
-            break
         values = _STRUCT_TRIANGLE.unpack(data[offset:offset + 50])
         normal = (values[0], values[1], values[2])
         v0 = (values[3], values[4], values[5])
@@ -165,6 +166,11 @@ def _parse_ascii_stl(text: str) -> List[Triangle]:
         v2 = (float(groups[9]), float(groups[10]), float(groups[11]))
         triangles.append(Triangle(normal=normal, v0=v0, v1=v1, v2=v2))
 
+    # Everything else has to be the opening and closing lines
+    rest = [line.split()[0].lower() for line in facet_pattern.sub('', text).splitlines() if line.strip()]
+    if not set(rest) <= {'solid', 'endsolid'} or 'endsolid' not in rest:
+        raise ValueError("Invalid ASCII STL: file incomplete or malformed")
+
     return triangles
 
 
-- 
2.43.0


From 0b007eb0e1c63b1da5c063327fdb2b007888fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 087/176] fix: binary STL files titled "solid" may have
 trailing bytes

---
 src/yapcad/io/stl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index c06c6b8..074373f 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -106,8 +106,8 @@ def _is_binary_stl(data: bytes) -> bool:
             # Check if the file size matches binary format expectation
             tri_count = struct.unpack('<I', data[80:84])[0]
             expected_size = 84 + (tri_count * 50)
-            if len(data) == expected_size:
-                # Size matches binary format - but double check for ASCII markers
+            if len(data) >= expected_size:
+                # Size allows binary format - but double check for ASCII markers
                 rest = data[84:min(200, len(data))]
                 if b'facet' in rest or b'vertex' in rest:
                     return False
-- 
2.43.0


From 6f169ae2976927d1e2014dabd6dd93ca09753c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 088/176] fix: ASCII STL files need no line breaks

---
 src/yapcad/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 074373f..131f87a 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -167,7 +167,7 @@ def _parse_ascii_stl(text: str) -> List[Triangle]:
         triangles.append(Triangle(normal=normal, v0=v0, v1=v1, v2=v2))
 
     # Everything else has to be the opening and closing lines
-    rest = [line.split()[0].lower() for line in facet_pattern.sub('', text).splitlines() if line.strip()]
+    rest = [line.split()[0].lower() for line in facet_pattern.sub('\n', text).splitlines() if line.strip()]
     if not set(rest) <= {'solid', 'endsolid'} or 'endsolid' not in rest:
         raise ValueError("Invalid ASCII STL: file incomplete or malformed")
 
-- 
2.43.0


From 5a6ade4a1919e647f6604f2728f5125c64687929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 089/176] fix: STL facets with a zero normal get the one of
 their triangle

---
 src/yapcad/io/stl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index 131f87a..c70888e 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -293,6 +293,13 @@ def read_stl(path_or_file, *, deduplicate: bool = True) -> list:
         # Return an empty solid (empty surfaces list)
         return ['solid', [], [], []]
 
+    # Files may leave the normals to the reader by storing zeros
+    triangles = [
+        tri if any(tri.normal) else
+        Triangle(triangle_normal(tri.v0, tri.v1, tri.v2) or tri.normal, tri.v0, tri.v1, tri.v2)
+        for tri in triangles
+    ]
+
     surf = _triangles_to_surface(triangles, deduplicate=deduplicate)
     return solid([surf], [], [])
 
-- 
2.43.0


From 5ae5e6f58a19f189d5ccf90d7df98017430439bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 090/176] fix: STEP names may contain apostrophes

---
 src/yapcad/io/step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index 4037d70..a0ec759 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -230,6 +230,7 @@ def write_step(obj: Sequence,
     triangles = list(triangles_from_mesh(mesh_view(obj)))
     if not triangles:
         raise ValueError('object produced no triangles for STEP export')
+    name = name.replace("'", "''")
     writer = _EntityWriter()
 
     vertex_map: Dict[Vec3, _Vertex] = {}
-- 
2.43.0


From fc092f1524f49ab17f22590a1d6120033f004a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:56 +0000
Subject: [PATCH 091/176] fix: STEP shells of solids whose surfaces meet with
 rounding errors are closed

---
 src/yapcad/io/step.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/io/step.py b/src/yapcad/io/step.py
index a0ec759..e8ad788 100644
--- a/src/yapcad/io/step.py
+++ b/src/yapcad/io/step.py
@@ -237,12 +237,12 @@ def write_step(obj: Sequence,
 
     for tri in triangles:
         for coords in (tri.v0, tri.v1, tri.v2):
-            if coords not in vertex_map:
+            if _vertex_key(coords) not in vertex_map:
                 pt = writer.add(
                     f"CARTESIAN_POINT('', ({coords[0]:.6f}, {coords[1]:.6f}, {coords[2]:.6f}))"
                 )
                 vert = writer.add(f"VERTEX_POINT('', #{pt})")
-                vertex_map[coords] = _Vertex(coords, pt, vert)
+                vertex_map[_vertex_key(coords)] = _Vertex(coords, pt, vert)
 
     def _line_for_edge(start: _Vertex, end: _Vertex) -> Tuple[int, int, int]:
         direction_vec = _normalize((end.coords[0] - start.coords[0],
@@ -260,9 +260,9 @@ def write_step(obj: Sequence,
     edge_to_faces: Dict[Tuple[int, int], List[int]] = defaultdict(list)
 
     for idx, tri in enumerate(triangles):
-        v0 = vertex_map[tri.v0]
-        v1 = vertex_map[tri.v1]
-        v2 = vertex_map[tri.v2]
+        v0 = vertex_map[_vertex_key(tri.v0)]
+        v1 = vertex_map[_vertex_key(tri.v1)]
+        v2 = vertex_map[_vertex_key(tri.v2)]
         tri_records.append(_TriRecord(v0=v0, v1=v1, v2=v2, normal=_normalize(tri.normal)))
 
         for start, end in ((v0, v1), (v1, v2), (v2, v0)):
@@ -458,6 +458,11 @@ def _normalize(vec: Vec3) -> Vec3:
     return (vec[0] / length, vec[1] / length, vec[2] / length)
 
 
+def _vertex_key(coords: Vec3) -> Vec3:
+    # Surfaces of one solid meet at corners that differ by rounding errors
+    return (round(coords[0], 9), round(coords[1], 9), round(coords[2], 9))
+
+
 def _distance(a: Vec3, b: Vec3) -> float:
     return ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2) ** 0.5
 
-- 
2.43.0


From 6775405db42f809d81a36338c5013a3d9770078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 092/176] fix: ASCII STL files without an opening line are
 refused

---
 src/yapcad/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/io/stl.py b/src/yapcad/io/stl.py
index c70888e..03e9cf8 100644
--- a/src/yapcad/io/stl.py
+++ b/src/yapcad/io/stl.py
@@ -168,7 +168,7 @@ def _parse_ascii_stl(text: str) -> List[Triangle]:
 
     # Everything else has to be the opening and closing lines
     rest = [line.split()[0].lower() for line in facet_pattern.sub('\n', text).splitlines() if line.strip()]
-    if not set(rest) <= {'solid', 'endsolid'} or 'endsolid' not in rest:
+    if set(rest) != {'solid', 'endsolid'}:
         raise ValueError("Invalid ASCII STL: file incomplete or malformed")
 
     return triangles
-- 
2.43.0


From 11dc3e9748460cc461d10181e19430d0c629fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 093/176] fix: metadata sidecars are written for solids and
 surfaces

---
 src/yapcad/io/meta_yaml.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 597b943..342a257 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -181,12 +181,16 @@ def sidecar_path_for(geometry_path: str | os.PathLike) -> Path:
 
 def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     """Return the metadata dict from *part*, or ``None`` if absent."""
-    try:
-        from yapcad.metadata import get_metadata  # type: ignore[import]
-        meta = get_metadata(part)
-        return meta if meta else None
-    except (ImportError, Exception):
-        pass
+    if isinstance(part, list):
+        from yapcad.geom3d import issolid, issurface
+        from yapcad.metadata import _SOLID_META_INDEX, _SURFACE_META_INDEX
+        if issolid(part):
+            meta = part[_SOLID_META_INDEX:_SOLID_META_INDEX + 1]
+        elif issurface(part):
+            meta = part[_SURFACE_META_INDEX:_SURFACE_META_INDEX + 1]
+        else:
+            meta = []
+        return meta[0] if meta and isinstance(meta[0], dict) and meta[0] else None
 
     # Fallback: check common attribute names used in yapCAD internals.
     for attr in ("_metadata", "metadata", "meta"):
-- 
2.43.0


From fe175bdf20db4e29eb3b44351eadc0e691e88fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 094/176] fix: metadata sidecars can be read back when the
 metadata has tuples

---
 src/yapcad/io/meta_yaml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 342a257..5105049 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -115,8 +115,10 @@ def dump_metadata_yaml(
     ordered["_provenance"] = output.pop("_provenance")
     ordered.update(output)
 
+    # Sidecars are read with safe_load, and no file is left when this fails
+    text = _yaml.safe_dump(ordered, default_flow_style=False, allow_unicode=True, sort_keys=False)
     with open(out_path, "w", encoding="utf-8") as f:
-        _yaml.dump(ordered, f, default_flow_style=False, allow_unicode=True, sort_keys=False)
+        f.write(text)
 
     return str(out_path)
 
-- 
2.43.0


From 40ac0e7c917e86c4e7d570c0343dcb2f412576b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 095/176] fix: applying @meta hints again does not duplicate
 tags and entries

---
 src/yapcad/dsl/meta_apply.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/meta_apply.py b/src/yapcad/dsl/meta_apply.py
index e7e4d1e..abae1de 100644
--- a/src/yapcad/dsl/meta_apply.py
+++ b/src/yapcad/dsl/meta_apply.py
@@ -65,6 +65,7 @@ from typing import Any, Dict, List, Optional
 from yapcad.metadata import (
     get_solid_metadata,
     _ensure_root,
+    add_tags,
     set_assembly,
     set_operation,
     get_assembly_metadata,
@@ -132,6 +133,10 @@ def _apply_assembly_list_field(
             raise TypeError(
                 f"assembly.{field}[{idx}] rejected: {exc}"
             ) from exc
+        # Applying a hint again leaves the entries it added as they are
+        entries = get_assembly_metadata(meta)[field]
+        if entries[-1] in entries[:-1]:
+            entries.pop()
 
 
 def _apply_assembly(meta: Dict[str, Any], field: str, value: Any) -> None:
@@ -221,11 +226,7 @@ def _apply_root(meta: Dict[str, Any], field: str, value: Any) -> None:
         root["layer"] = str(value)
     elif field == "tags":
         # Append a single tag string or extend with a list
-        tags: List[str] = root.setdefault("tags", [])
-        if isinstance(value, list):
-            tags.extend(str(t) for t in value)
-        else:
-            tags.append(str(value))
+        add_tags(root, [str(t) for t in value] if isinstance(value, list) else [str(value)])
     else:
         # Free-form root field — store verbatim
         root[field] = value
-- 
2.43.0


From 6c97b36d496406e081e6ffab87fc09120a19802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 096/176] fix: solids do not share the values of their
 command's @meta hint

---
 src/yapcad/dsl/meta_apply.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/meta_apply.py b/src/yapcad/dsl/meta_apply.py
index abae1de..52c51af 100644
--- a/src/yapcad/dsl/meta_apply.py
+++ b/src/yapcad/dsl/meta_apply.py
@@ -60,6 +60,7 @@ the field so callers can fall back to the Python helpers.
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 
 from yapcad.metadata import (
@@ -270,7 +271,7 @@ def apply_meta_hint(solid: list, meta_hint: Dict[str, Any]) -> None:
     # Get or create the metadata dict for this solid
     meta = get_solid_metadata(solid, create=True)
 
-    for key, value in meta_hint.items():
+    for key, value in deepcopy(meta_hint).items():
         if not isinstance(key, str) or not key:
             continue  # skip malformed keys silently
 
@@ -301,7 +302,7 @@ def apply_meta_hint_to_raw(meta: Dict[str, Any], meta_hint: Dict[str, Any]) -> N
     if not isinstance(meta_hint, dict):
         raise TypeError(f"meta_hint must be a dict, got {type(meta_hint).__name__}")
 
-    for key, value in meta_hint.items():
+    for key, value in deepcopy(meta_hint).items():
         if not isinstance(key, str) or not key:
             continue
 
-- 
2.43.0


From 87e8c0d29203159d6eb9dbb2acb6b6a7bf6f1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 097/176] fix: register_part registers the part's datums
 instead of failing on their names

---
 src/yapcad/assembly/datum_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 1707267..d5693aa 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -219,7 +219,7 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        datums = {d.name: d for d in part.datums}
+        datums = {d.name: d for d in part.datums.values()}
         cls.register_source(
             source_id=part.name,
             datums=datums,
-- 
2.43.0


From 60a9d85e01e79c286ca46b99e086e5057dd7108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 098/176] fix: the matrix of a frame datum has unit axes

---
 src/yapcad/assembly/datum_registry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index d5693aa..7454022 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -507,6 +507,8 @@ def datum_to_transform_matrix(datum: Datum) -> Optional[Any]:
         # Full frame with explicit axes
         x_axis = np.array(datum.x_axis[:3]) if datum.x_axis else np.array([1, 0, 0])
         y_axis = np.array(datum.y_axis[:3]) if datum.y_axis else np.array([0, 1, 0])
+        x_axis = x_axis / np.linalg.norm(x_axis)
+        y_axis = y_axis / np.linalg.norm(y_axis)
         z_axis = np.cross(x_axis, y_axis)
         z_axis = z_axis / np.linalg.norm(z_axis)
 
-- 
2.43.0


From 07698efee88ed0add3590eface42918e1aca2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 099/176] fix: frames linked to a datum find
 datum_to_transform_matrix

---
 src/yapcad/kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/yapcad/kinematics/frame.py b/src/yapcad/kinematics/frame.py
index 11bee8b..2333977 100644
--- a/src/yapcad/kinematics/frame.py
+++ b/src/yapcad/kinematics/frame.py
@@ -93,8 +93,7 @@ class CoordinateFrame:
         :returns: Transform if found, None otherwise
         """
         try:
-            from yapcad.assembly.datum_registry import DatumRegistry
-            from yapcad.assembly.face_mate import datum_to_transform_matrix
+            from yapcad.assembly.datum_registry import DatumRegistry, datum_to_transform_matrix
 
             datum = DatumRegistry.get_datum(self.datum_source, self.datum_name)
             if datum is not None:
-- 
2.43.0


From 6a5d6540d773cca6ea88e16cfb100e65e61b42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 100/176] fix: face mates do not refer to a mate type that does
 not exist

---
 src/yapcad/assembly/face_mate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..7c1fb35 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -181,13 +181,12 @@ class FaceToFaceMate:
         self._child_datum_obj = child_datum
 
         # Compute transform based on constraint type
-        if self.constraint in (MateType.COINCIDENT, MateType.ALIGNED):
-            flip_normal = (self.constraint == MateType.COINCIDENT)
+        if self.constraint == MateType.COINCIDENT:
             tf = compute_flush_transform(
                 parent_datum, child_datum,
                 offset=self.offset_distance,
                 rotation_deg=self.rotation_about_normal,
-                flip_normal=flip_normal
+                flip_normal=True
             )
         elif self.constraint == MateType.CONCENTRIC:
             tf = compute_concentric_transform(
-- 
2.43.0


From b552af20b3868f46733e12d93af01189c5f24a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:31 +0000
Subject: [PATCH 101/176] fix: face mates keep the transform relative to the
 parent, not the first world transform

---
 src/yapcad/assembly/face_mate.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 7c1fb35..4c43fef 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -165,7 +165,7 @@ class FaceToFaceMate:
             return None
 
         if self._computed_transform is not None:
-            return self._computed_transform
+            return self._in_world(self._computed_transform, parent_world_transform)
 
         # Load datums from registry
         from .datum_registry import DatumRegistry
@@ -201,12 +201,15 @@ class FaceToFaceMate:
         else:
             raise ValueError(f"Unsupported constraint type: {self.constraint}")
 
-        # Apply parent world transform if provided
-        if parent_world_transform is not None:
-            tf = parent_world_transform @ tf
-
         self._computed_transform = tf
-        return tf
+        return self._in_world(tf, parent_world_transform)
+
+    @staticmethod
+    def _in_world(tf: Any, parent_world_transform: Optional[Any]) -> Any:
+        """Apply the parent world transform, if provided, to a relative transform."""
+        if parent_world_transform is not None:
+            return parent_world_transform @ tf
+        return tf.copy()
 
     def validate(self,
                  tolerance_mm: float = 0.1,
-- 
2.43.0


From b117a22d2ffb19e6b1805d67115d164f14f9115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 102/176] fix: validating a face mate honours its offset, its
 kind and axis datums

---
 src/yapcad/assembly/face_mate.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 4c43fef..1db3a0e 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -252,19 +252,23 @@ class FaceToFaceMate:
 
         parent_origin = np.array(self._parent_datum_obj.origin[:3])
 
-        # Check distance
-        distance = float(np.linalg.norm(child_transformed - parent_origin))
+        # Check distance from the origin the offset asks for; PARALLEL leaves
+        # the position free
+        distance = 0.0
+        if self.constraint != MateType.PARALLEL:
+            target_origin = parent_origin + self.offset_distance * \
+                            _datum_axis(self._parent_datum_obj)
+            distance = float(np.linalg.norm(child_transformed - target_origin))
         distance_ok = distance <= tolerance_mm
 
         # Check angle (for PLANE/AXIS datums)
         angle_error = 0.0
         angle_ok = True
 
-        if self._parent_datum_obj.datum_type in (DatumType.PLANE, DatumType.CIRCLE):
-            parent_normal = np.array(self._parent_datum_obj.normal[:3])
-            parent_normal = parent_normal / np.linalg.norm(parent_normal)
+        if self._parent_datum_obj.datum_type in (DatumType.PLANE, DatumType.CIRCLE, DatumType.AXIS):
+            parent_normal = _datum_axis(self._parent_datum_obj)
 
-            child_normal = np.array(self._child_datum_obj.normal[:3])
+            child_normal = _datum_axis(self._child_datum_obj)
             child_normal_transformed = self._computed_transform[:3, :3] @ child_normal
             child_normal_transformed = child_normal_transformed / \
                                        np.linalg.norm(child_normal_transformed)
@@ -491,6 +495,17 @@ def compute_parallel_transform(parent_datum: Datum,
 # Helper Functions
 # =============================================================================
 
+def _datum_axis(datum: Datum) -> Any:
+    """Unit direction of an axis datum, unit normal of other datums (default Z)."""
+    if datum.datum_type == DatumType.AXIS:
+        v = np.array(datum.direction[:3])
+    elif datum.normal is not None:
+        v = np.array(datum.normal[:3])
+    else:
+        v = np.array([0.0, 0.0, 1.0])
+    return v / np.linalg.norm(v)
+
+
 def _rotation_between_vectors(v1: Any, v2: Any) -> Any:
     """Compute rotation matrix to rotate v1 to v2 using Rodrigues' formula.
 
-- 
2.43.0


From 88d838fcbb1dd486d7777a90e5c3d9e159c51673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 103/176] fix: cached mate solutions are not tied to the first
 parent transform

---
 src/yapcad/assembly/solver.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..94badfb 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -54,7 +54,7 @@ from __future__ import annotations
 
 import math
 import logging
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from typing import Dict, List, Optional, Any, Tuple, Union
 
 from .datum import Datum, DatumType
@@ -259,7 +259,7 @@ class MateConstraintSolver:
         # Check cache
         cache_key = f"{mate.name}:{mate_axis}"
         if self._use_cache and cache_key in self._cache:
-            return self._cache[cache_key]
+            return self._in_world(self._cache[cache_key], parent_world_transform)
 
         try:
             # Get datums from registry
@@ -284,10 +284,6 @@ class MateConstraintSolver:
             if mate_axis != "Z":
                 transform = self._apply_mate_axis_rotation(transform, mate_axis)
 
-            # Apply parent world transform if provided
-            if parent_world_transform is not None:
-                transform = parent_world_transform @ transform
-
             result = MateMateSolveResult(
                 success=True,
                 transform=transform,
@@ -298,11 +294,11 @@ class MateConstraintSolver:
                 }
             )
 
-            # Cache result
+            # Cache the transform relative to the parent
             if self._use_cache:
                 self._cache[cache_key] = result
 
-            return result
+            return self._in_world(result, parent_world_transform)
 
         except Exception as e:
             logger.exception(f"Error solving mate {mate.name}")
@@ -311,6 +307,18 @@ class MateConstraintSolver:
                 error_message=str(e)
             )
 
+    @staticmethod
+    def _in_world(
+        result: MateMateSolveResult,
+        parent_world_transform: Optional[Any],
+    ) -> MateMateSolveResult:
+        """Return result with the parent world transform, if provided, applied."""
+        if parent_world_transform is not None:
+            transform = parent_world_transform @ result.transform
+        else:
+            transform = result.transform.copy()
+        return replace(result, transform=transform, details=dict(result.details))
+
     def solve_all(
         self,
         mates: List[Mate],
-- 
2.43.0


From ca448b173eed7b9ad1689bf75eb0eecf9d114b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 104/176] fix: the solver applies the offset of a coincident
 mate

---
 src/yapcad/assembly/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 94badfb..8aebbb7 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -432,7 +432,7 @@ class MateConstraintSolver:
         # Use face_mate functions if available
         if HAS_FACE_MATE:
             if mate_type in (MateType.COINCIDENT, MateType.RIGID):
-                return compute_flush_transform(datum_a, datum_b)
+                return compute_flush_transform(datum_a, datum_b, offset=mate.offset)
             if mate_type == MateType.CONCENTRIC:
                 return compute_concentric_transform(datum_a, datum_b)
 
-- 
2.43.0


From 1abdcfe02bade7a847fc2ab2098292807dc5d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 105/176] fix: a distance mate places the child's datum, not
 its origin

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 8aebbb7..a348598 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -545,11 +545,12 @@ class MateConstraintSolver:
     def _solve_distance(self, datum_a: Datum, datum_b: Datum, offset: float) -> Any:
         """Solve DISTANCE constraint (fixed offset along normal)."""
         origin_a = np.array(datum_a.origin[:3])
+        origin_b = np.array(datum_b.origin[:3])
         normal_a = self._get_datum_direction(datum_a)
 
-        # Position child at offset distance from parent along normal
+        # Position child datum at offset distance from parent along normal
         transform = np.eye(4)
-        transform[:3, 3] = origin_a + normal_a * offset
+        transform[:3, 3] = origin_a + normal_a * offset - origin_b
 
         return transform
 
-- 
2.43.0


From da32fd8b10045edcbc6633f1bd174a14dab9d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 106/176] fix: mate angles are radians

---
 src/yapcad/assembly/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index a348598..9804d63 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -555,13 +555,13 @@ class MateConstraintSolver:
         return transform
 
     def _solve_angle(
-        self, datum_a: Datum, datum_b: Datum, angle_deg: float
+        self, datum_a: Datum, datum_b: Datum, angle: float
     ) -> Any:
         """Solve ANGLE constraint (fixed angular relationship)."""
         axis_a = self._get_datum_direction(datum_a)
 
         # Rotate around parent axis by specified angle
-        R = self._rodrigues_rotation(axis_a, math.radians(angle_deg))
+        R = self._rodrigues_rotation(axis_a, angle)
 
         transform = np.eye(4)
         transform[:3, :3] = R
-- 
2.43.0


From ae71f4a51b3e853914251fa68fb3b94ebce81072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 107/176] fix: nearly aligned datum directions are aligned too

---
 src/yapcad/assembly/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 9804d63..10270e1 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -623,9 +623,9 @@ class MateConstraintSolver:
 
         # Check for parallel vectors
         dot = np.dot(v1, v2)
-        if dot > 0.9999:
+        if dot > 1.0 - 1e-12:
             return np.eye(3)  # Already aligned
-        if dot < -0.9999:
+        if dot < -1.0 + 1e-12:
             # Opposite directions - rotate 180 around any perpendicular axis
             if abs(v1[0]) < 0.9:
                 perp = np.cross(v1, [1, 0, 0])
-- 
2.43.0


From 793b8ced63ba39ea6fa9adfa47cd07b87c9ffc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 108/176] fix: a shear is not reported as rigid

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 10270e1..e6941c2 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -383,9 +383,10 @@ class MateConstraintSolver:
 
         # Determinant check
         det = np.linalg.det(R)
-        is_rigid = abs(det - 1.0) < tolerance_det
+        is_proper = abs(det - 1.0) < tolerance_det
+        is_rigid = is_orthonormal and is_proper
 
-        if not is_rigid:
+        if not is_proper:
             errors.append(f"Determinant {det:.6f} != 1 (reflection or scaling)")
 
         return ValidationResult(
-- 
2.43.0


From 37a8487b7bf36843c639ac0129b44658e019e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 109/176] fix: mate chains place each part on the part its mate
 names

---
 src/yapcad/assembly/solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index e6941c2..9692915 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -729,13 +729,12 @@ def solve_mate_chain(
         base_transform = np.eye(4)
 
     transforms: Dict[str, Any] = {}
-    current_transform = base_transform
 
     for mate in mates:
-        result = solver.solve_mate(mate, parent_world_transform=current_transform)
+        parent_transform = transforms.get(mate.part_a, base_transform)
+        result = solver.solve_mate(mate, parent_world_transform=parent_transform)
         if result.success:
             transforms[mate.part_b] = result.transform
-            current_transform = result.transform
         else:
             logger.error(f"Failed to solve mate {mate.name}: {result.error_message}")
             break
-- 
2.43.0


From 3a10f9e345a85bb17c2ddc22d688fd2c51487084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 110/176] fix: mate axis rotations take Z to the named axis,
 not to its opposite

---
 src/yapcad/assembly/solver.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 9692915..cff9f14 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -99,26 +99,26 @@ MATE_AXIS_ROTATIONS: Dict[str, Any] = {}
 
 if HAS_NUMPY:
     MATE_AXIS_ROTATIONS = {
-        "X": np.array([  # Ry(-90): Z -> X
-            [0, 0, -1],
+        "X": np.array([  # Ry(90): Z -> X
+            [0, 0, 1],
             [0, 1, 0],
-            [1, 0, 0]
+            [-1, 0, 0]
         ], dtype=float),
-        "Y": np.array([  # Rx(90): Z -> Y
+        "Y": np.array([  # Rx(-90): Z -> Y
             [1, 0, 0],
-            [0, 0, -1],
-            [0, 1, 0]
+            [0, 0, 1],
+            [0, -1, 0]
         ], dtype=float),
         "Z": np.eye(3, dtype=float),  # Identity
-        "-X": np.array([  # Ry(90): Z -> -X
-            [0, 0, 1],
+        "-X": np.array([  # Ry(-90): Z -> -X
+            [0, 0, -1],
             [0, 1, 0],
-            [-1, 0, 0]
+            [1, 0, 0]
         ], dtype=float),
-        "-Y": np.array([  # Rx(-90): Z -> -Y
+        "-Y": np.array([  # Rx(90): Z -> -Y
             [1, 0, 0],
-            [0, 0, 1],
-            [0, -1, 0]
+            [0, 0, -1],
+            [0, 1, 0]
         ], dtype=float),
         "-Z": np.array([  # Rx(180): Z -> -Z
             [1, 0, 0],
-- 
2.43.0


From eac83c3d6acaf46e8b4ba842257aaf9acae404e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 111/176] fix: screw mates with a pitch honour the coupling
 offset and direction

---
 src/yapcad/assembly/mate.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 9f9e8cb..a7837b0 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -645,12 +645,8 @@ class Mate:
         if not self.is_coupled():
             raise ValueError(f"Mate {self.name} is not a coupled type")
 
-        # Apply coupling ratio and offset
-        driven = driver_position * self.coupling_ratio + self.coupling_offset
-
-        # Apply reversal if specified
-        if self.coupling_reverse:
-            driven = -driven
+        # Apply coupling ratio
+        driven = driver_position * self.coupling_ratio
 
         # For SCREW mates, use pitch instead of ratio
         if self.mate_type == MateType.SCREW and self.coupling_pitch is not None:
@@ -659,6 +655,11 @@ class Mate:
             rotations = driver_position / (2.0 * math.pi)
             driven = rotations * self.coupling_pitch
 
+        # Apply offset, and reversal if specified
+        driven = driven + self.coupling_offset
+        if self.coupling_reverse:
+            driven = -driven
+
         return driven
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From c8b59c28ed8a713d655c9bb356ad472b9a0b89b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:04 +0000
Subject: [PATCH 112/176] fix: bolt patterns turned by whole hole spacings
 align

---
 src/yapcad/assembly/mate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index a7837b0..2f15440 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -1349,7 +1349,8 @@ def check_bolt_circle_alignment(
 
     # Calculate hole positions
     hole_spacing = 360.0 / hole_count
-    offset_rad = math.radians(angular_offset_deg)
+    # A pattern turned by whole spacings is the same pattern
+    offset_rad = math.radians(math.remainder(angular_offset_deg, hole_spacing))
 
     max_hole_error = 0.0
     hole_errors = []
-- 
2.43.0


From 3082477bd90cd8ff78abd9030ee637ec332d97bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 113/176] fix: parallel face mates use the direction of axis
 datums

---
 src/yapcad/assembly/face_mate.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 1db3a0e..f05f6c4 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -466,12 +466,9 @@ def compute_parallel_transform(parent_datum: Datum,
     if not HAS_NUMPY:
         raise RuntimeError("NumPy required for transform computation")
 
-    # Get normals
-    P_normal = np.array(parent_datum.normal[:3]) if parent_datum.normal else np.array([0, 0, 1])
-    C_normal = np.array(child_datum.normal[:3]) if child_datum.normal else np.array([0, 0, 1])
-
-    P_normal = P_normal / np.linalg.norm(P_normal)
-    C_normal = C_normal / np.linalg.norm(C_normal)
+    # Get normals (directions of axis datums)
+    P_normal = _datum_axis(parent_datum)
+    C_normal = _datum_axis(child_datum)
 
     # Rotation to make parallel
     R = _rotation_between_vectors(C_normal, P_normal)
-- 
2.43.0


From cab26eb114537e0ad3dc9f4f4285aa3f24232b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 114/176] fix: unknown datum sources are reported, not recorded
 as empty sources

---
 src/yapcad/assembly/datum_registry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 7454022..7098f58 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -298,7 +298,9 @@ class DatumRegistry:
             # Try as a part name in already-loaded sources
             self._try_part_name_lookup(source)
 
-        self._loaded_sources.add(source)
+        # A source that was not found may still appear later
+        if source in self._sources:
+            self._loaded_sources.add(source)
 
     def _find_source_file(self, source: str) -> Optional[str]:
         """Find the source file in search paths.
@@ -421,13 +423,6 @@ class DatumRegistry:
                 self._sources[source] = src
                 return
 
-        # Not found - create empty source
-        self._sources[source] = DatumSource(
-            source_id=source,
-            source_type="not_found",
-            datums={}
-        )
-
     def _datum_from_dict(self, name: str, data: Dict[str, Any]) -> Datum:
         """Create a Datum from a dictionary representation.
 
-- 
2.43.0


From 0819cdbf18bfadc38a18a6cbf228aab494d10470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 115/176] fix: malformed datum files and entries do not break
 the lookup

---
 src/yapcad/assembly/datum_registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 7098f58..9dd5618 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -348,7 +348,9 @@ class DatumRegistry:
         try:
             with open(json_path, 'r') as f:
                 data = json.load(f)
-        except (json.JSONDecodeError, IOError) as e:
+            if not isinstance(data, dict) or not isinstance(data.get('datums', {}), dict):
+                raise ValueError("datum definitions must be a JSON object")
+        except (ValueError, IOError) as e:
             logger.error(f"Failed to load surrogate JSON '{json_path}': {e}")
             self._sources[source_id] = DatumSource(
                 source_id=source_id,
@@ -364,7 +366,7 @@ class DatumRegistry:
             try:
                 datum = self._datum_from_dict(name, datum_data)
                 datums[name] = datum
-            except (KeyError, ValueError) as e:
+            except (KeyError, ValueError, TypeError, AttributeError) as e:
                 logger.warning(f"Failed to parse datum '{name}' from "
                              f"'{json_path}': {e}")
 
-- 
2.43.0


From 27b0ec7241a07f6de4a6d1b94a71e86376f491d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 116/176] fix: datum sidecars are found below directories named
 like DSL files

---
 src/yapcad/assembly/datum_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 9dd5618..3f1ad8e 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -402,7 +402,7 @@ class DatumRegistry:
         with the same name but .datums.json extension.
         """
         # Check for sidecar JSON
-        sidecar_path = dsl_path.replace('.dsl', '.datums.json')
+        sidecar_path = dsl_path[:-len('.dsl')] + '.datums.json'
         if os.path.exists(sidecar_path):
             self._load_surrogate_json(source_id, sidecar_path)
         else:
-- 
2.43.0


From 7326c3c95ad5e57f43baafce20df5c544329b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 117/176] fix: querying a tree without geometry returns the
 empty list

---
 src/yapcad/octtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..e123de8 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -591,6 +591,8 @@ class NTree():
         overalp the provided bounding box, or the empty list if none.
 
         """
+        if self.__geom == []:
+            return []
         if self.__update:
             self.updateTree()
 
-- 
2.43.0


From 86ccab3750ccf34d5612fbdaceab263a8ea6e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 118/176] fix: updateCenter computes the center of the geometry
 added so far

---
 src/yapcad/octtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index e123de8..a2a0281 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -473,6 +473,7 @@ class NTree():
             return
 
         if not center:
+            self.__bbox = bbox(untag(self.__geom))
             self.__center = scale3(add(self.__bbox[0],
                                        self.__bbox[1]),0.5)
         else:
-- 
2.43.0


From 122cbe33d3ca78178d43a4f69ec4e70c21431e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 119/176] fix: adding to a tree leaves the list it was made
 from alone

---
 src/yapcad/octtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index a2a0281..faf989b 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -431,7 +431,7 @@ class NTree():
             ugeom = untag(geom)
             if isgeomlist(ugeom):
                 self.__bbox= bbox(ugeom)
-                self.__geom= geom
+                self.__geom= list(geom)
             else:
                 raise ValueError('geom must be valid geometry list, or None')
 
-- 
2.43.0


From 1564e7a7aa494122308124b16c336e8325023d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 120/176] fix: elements keep tags that compare false, such as
 index 0

---
 src/yapcad/octtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index faf989b..d6adc51 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -455,7 +455,7 @@ class NTree():
         the tree -- yet """
         if not isgeomlist(element):
             raise ValueError('bad element passed to addElement')
-        if not tag:
+        if tag is None:
             gl = [ element ]
         else:
             gl = [ (element,tag) ]
-- 
2.43.0


From 2a5fcb79483b8becaf74b6954847a827e2143d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 121/176] fix: a collision detector uses the registry it is
 given, also while it is empty

---
 src/yapcad/collision/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..d613723 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -164,7 +164,8 @@ class CollisionDetector:
             penetration_threshold: Minimum penetration to count as collision (mm)
         """
         self.geometry_provider = geometry_provider
-        self.interface_registry = interface_registry or InterfaceRegistry()
+        self.interface_registry = (InterfaceRegistry() if interface_registry is None
+                                   else interface_registry)
         self.verbose = verbose
         self.min_collision_volume = min_collision_volume
         self.mesh_sample_points = mesh_sample_points
-- 
2.43.0


From 87916d28f53fc816885f1a413e59c9704a7c7d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 122/176] fix: the penetration depth of a collision is the
 deepest, not the shallowest point

---
 src/yapcad/collision/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d613723..32b85a2 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -541,13 +541,13 @@ class CollisionDetector:
                         prox_a = trimesh.proximity.ProximityQuery(mesh_a)
                         dists = prox_a.signed_distance(samples_b[contains_a])
                         if len(dists) > 0:
-                            penetration_depth = max(penetration_depth, abs(np.min(dists)))
+                            penetration_depth = max(penetration_depth, np.max(np.abs(dists)))
 
                     if points_a_in_b > 0:
                         prox_b = trimesh.proximity.ProximityQuery(mesh_b)
                         dists = prox_b.signed_distance(samples_a[contains_b])
                         if len(dists) > 0:
-                            penetration_depth = max(penetration_depth, abs(np.min(dists)))
+                            penetration_depth = max(penetration_depth, np.max(np.abs(dists)))
                 except Exception:
                     pass
 
-- 
2.43.0


From 03cea09a9a66faa05cedee4a045d88690251b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:56 +0000
Subject: [PATCH 123/176] fix: scenes keep the placement of their parts in
 collision checks

---
 src/yapcad/collision/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index 32b85a2..2f713c6 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -605,7 +605,7 @@ class CollisionDetector:
         elif hasattr(geom, 'geometry'):
             # Scene object
             try:
-                mesh = trimesh.util.concatenate(list(geom.geometry.values()))
+                mesh = trimesh.util.concatenate(geom.dump())
             except Exception:
                 return None
 
-- 
2.43.0


From 5c9cf8431a2979ee0af84e53709f4e3b8d167bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 124/176] fix: length_to_parameter inverts parameter_to_length
 on paths of unequal segments

---
 src/yapcad/manufacturing/path_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index a0463b9..6b3821e 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -359,10 +359,18 @@ def length_to_parameter(path3d: Dict[str, Any], arc_length: float) -> float:
     Returns:
         Global parameter t in [0, 1]
     """
-    total_length = path_length(path3d)
-    if total_length < 1e-10:
+    segments = path3d.get('segments', [])
+    if path_length(path3d) < 1e-10 or arc_length <= 0.0:
         return 0.0
-    return min(1.0, max(0.0, arc_length / total_length))
+
+    # The parameter runs uniformly over the segments, whatever their lengths
+    remaining = arc_length
+    for i, seg in enumerate(segments):
+        seg_length = path_length({'segments': [seg]})
+        if remaining < seg_length:
+            return (i + remaining / seg_length) / len(segments)
+        remaining -= seg_length
+    return 1.0
 
 
 def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
-- 
2.43.0


From ad53af657e65d3bb7f586c3942e64efed88bd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 125/176] fix: parameter_to_length is 0 at the start of a path

---
 src/yapcad/manufacturing/path_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index 6b3821e..ae86cee 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -383,6 +383,9 @@ def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
     Returns:
         Arc length from path start to parameter t
     """
+    if t <= 0.0:
+        return 0.0
+
     # Extract sub-path and compute its length
     sub_path = extract_sub_path(path3d, 0.0, t)
     return path_length(sub_path)
-- 
2.43.0


From 9b9b4f936f696b497e3958d22ab7708ae265be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:49 +0000
Subject: [PATCH 126/176] fix: proposed cuts keep segments below the maximum
 length on paths of unequal segments

---
 src/yapcad/manufacturing/segmentation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 8eed60f..1059add 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -17,6 +17,7 @@ from .data import (
 from .path_utils import (
     compute_cut_plane,
     extract_sub_path,
+    length_to_parameter,
     path_length,
 )
 from .connectors import (
@@ -766,7 +767,7 @@ def compute_optimal_cuts(
     for i in range(1, num_segments):
         # Convert length to parameter
         cut_length = i * segment_length
-        cut_t = cut_length / total_length
+        cut_t = length_to_parameter(spine, cut_length)
 
         cut_points.append(CutPoint(
             element_id=provenance.id,
-- 
2.43.0


From 2c659b1eff6e31195d6d4b132bcc05aab7cee47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 127/176] fix: validate reports circular parents instead of
 never returning

---
 src/yapcad/kinematics/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index c711740..ca78b59 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -230,7 +230,8 @@ class KinematicChain:
         chain = []
         current = part_name
 
-        while current and current in self.parts:
+        # A path longer than the number of parts runs in a circle
+        while current and current in self.parts and len(chain) <= len(self.parts):
             chain.append(current)
             current = self.parts[current].parent
 
-- 
2.43.0


From e67d2e1761072ef6250024953bf4da2157c23305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 128/176] fix: the assembly graph of a segmentation names both
 neighbours of a segment

---
 src/yapcad/manufacturing/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 1059add..ab3514d 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -567,7 +567,6 @@ def segment_swept_element(
                     prev_seg.connector_type = "female"
 
         segments.append(segment)
-        assembly_graph[segment_id] = list(segment.mates_with)
 
         prev_segment_id = segment_id
         segment_start_t = cut_point.parameter
@@ -608,7 +607,8 @@ def segment_swept_element(
             prev_seg.mates_with.append(final_segment_id)
 
     segments.append(final_segment)
-    assembly_graph[final_segment_id] = list(final_segment.mates_with)
+    for seg in segments:
+        assembly_graph[seg.id] = list(seg.mates_with)
 
     # Generate assembly instructions
     instructions = _generate_assembly_instructions(segments, connectors)
-- 
2.43.0


From bb69cdb0096734bf4d33cf3a29e520ca642c49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 129/176] fix: segmentation heeds the connector length given
 with a cut

---
 src/yapcad/manufacturing/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index ab3514d..c1237df 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -494,6 +494,8 @@ def segment_swept_element(
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
             )
+            if cut_point.connector_length is not None:
+                conn_spec.length = cut_point.connector_length
 
             if union_connectors and cut_point.union_connector_with != "none":
                 # Build actual connector solid
-- 
2.43.0


From 9ae26fbc8702f555c49f8911b5a8395fe4183018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 130/176] fix: connectors of close cuts get different ids

---
 src/yapcad/manufacturing/segmentation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index c1237df..63dc4cd 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -485,6 +485,9 @@ def segment_swept_element(
         # Build and integrate connector for THIS cut
         if build_connectors and outer_w and outer_h and provenance.wall_thickness:
             # Build connector specification
+            conn_id = f"{provenance.id}_conn_{int(cut_point.parameter * 100)}"
+            if any(c.id == conn_id for c in connectors):
+                conn_id = f"{conn_id}_{i}"
             conn_spec = compute_connector_spec(
                 provenance.id,
                 cut_point.parameter,
@@ -493,6 +496,7 @@ def segment_swept_element(
                 provenance.wall_thickness,
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
+                connector_id=conn_id,
             )
             if cut_point.connector_length is not None:
                 conn_spec.length = cut_point.connector_length
-- 
2.43.0


From 274ed1c5adcc30468630d9f9e3179298eaa07a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 131/176] fix: assembly instructions insert a connector only at
 its own joint

---
 src/yapcad/manufacturing/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 63dc4cd..90983ec 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -717,7 +717,7 @@ def _generate_assembly_instructions(
         # Check for separate connectors at this joint
         for conn in connectors:
             seg_end = seg.parameter_range[1]
-            if abs(conn.center_parameter - seg_end) < 0.01:
+            if abs(conn.center_parameter - seg_end) < 1e-9:
                 lines.append(f"   Insert connector '{conn.id}' before next segment")
                 lines.append(f"   Fit type: {_fit_type_description(conn.fit_clearance)}")
 
-- 
2.43.0


From e54b04d6312ce8ec735f7b5212d013e6117181c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 132/176] fix: segments are female exactly when a neighbour's
 connector goes into them

---
 src/yapcad/manufacturing/segmentation.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 90983ec..e20a4bb 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -455,6 +455,8 @@ def segment_swept_element(
     # Track connector type for segments
     # When union_connector_with=="b", the next segment gets the connector
     next_segment_has_connector = False
+    # Whether the previous segment carries the connector of the joint to this one
+    receives_tab = False
 
     for i, cut_point in enumerate(sorted_cuts):
         # Compute cut plane from spine
@@ -481,6 +483,9 @@ def segment_swept_element(
             segment_connector_type = "male"
             segment_has_tab = True
             next_segment_has_connector = False
+        elif receives_tab:
+            segment_connector_type = "female"
+        receives_tab = False
 
         # Build and integrate connector for THIS cut
         if build_connectors and outer_w and outer_h and provenance.wall_thickness:
@@ -521,6 +526,7 @@ def segment_swept_element(
                         )
                         segment_connector_type = "male"
                         segment_has_tab = True
+                        receives_tab = True
                     except RuntimeError as e:
                         warnings.append(
                             f"Connector union at t={cut_point.parameter} failed: {e}"
@@ -567,10 +573,6 @@ def segment_swept_element(
             )
             if prev_seg:
                 prev_seg.mates_with.append(segment_id)
-                # If this segment is male and prev segment doesn't have a tab,
-                # prev segment becomes female at this joint
-                if segment_connector_type == "male" and prev_seg.connector_type == "none":
-                    prev_seg.connector_type = "female"
 
         segments.append(segment)
 
@@ -587,13 +589,9 @@ def segment_swept_element(
     if next_segment_has_connector:
         # Last cut used union_connector_with="b", so final segment is male
         final_connector_type = "male"
-    elif prev_segment_id:
-        # Check if previous segment is male - if so, final segment receives its tab
-        prev_seg = next((s for s in segments if s.id == prev_segment_id), None)
-        if prev_seg and prev_seg.connector_type == "male":
-            final_connector_type = "female"
-        else:
-            final_connector_type = "none"
+    elif receives_tab:
+        # Last cut used union_connector_with="a", so final segment receives its tab
+        final_connector_type = "female"
     else:
         final_connector_type = "none"
 
-- 
2.43.0


From 850e0db65aa8990f866158d84427e0ebd87cec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 133/176] fix: surface() follows later changes of a figure
 instead of returning the cached triangulation

---
 src/yapcad/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 3fccd72..59d0de3 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -544,6 +544,8 @@ class Geometry:
     def _setUpdate(self,bln):
         """method to set status of __update, accessible from derived classes"""
         self.__update = bln
+        if bln:
+            self._clearSurfaceCache()
 
     @update.setter
     def update(self,bln):
-- 
2.43.0


From bcf25f0256d4b475ed46c2f9bdc080f9157c87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 134/176] fix: Geometry(polygon) wraps the outline of the
 polygon, not its elements

---
 src/yapcad/geometry.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 59d0de3..60b0bcf 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -218,10 +218,16 @@ class Geometry:
                 self.__continuous = True
                 self.__closed = True
             elif isinstance(a,Geometry):
-                self.__elem = deepcopy(a.elem)
-                self.__sampleable = a.issampleable()
-                self.__intersectable= a.isintersectable()
-                self.__continuous= a.iscontinuous()
+                if a.isderived(): # the figure is computed from a.elem
+                    self.__elem = a.geom
+                    self.__sampleable = True
+                    self.__intersectable = True
+                    self.__continuous = iscontinuousgeomlist(self.__elem)
+                else:
+                    self.__elem = deepcopy(a.elem)
+                    self.__sampleable = a.issampleable()
+                    self.__intersectable= a.isintersectable()
+                    self.__continuous= a.iscontinuous()
                 self.__closed = a.isclosed()
             else:
                 raise ValueError(f'bad argument to Geometry class constructor: {a}')
-- 
2.43.0


From 351df898b2a4bca538a23f1a4d352b7da99962c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 135/176] fix: bounding box, length, center and samples of a
 Boolean do not need geom to be asked first

---
 src/yapcad/combine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3054d28..b4b3cd7 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -15,6 +15,7 @@ class Boolean(Geometry):
 
     def __init__(self,type='union',polys=[], *, minang=5.0, minlen=0.25):
         super().__init__()
+        self._setDerived(True)
         self._setClosed(True)
         self._setSampleable(True)
         if not type in self.types:
@@ -116,8 +117,7 @@ class Boolean(Geometry):
         for p in self.elem:
             p.transform(m)
             
-    @property
-    def geom(self):
+    def _updateInternals(self):
         if self.update:
             if len(self.elem) < 2:
                 raise ValueError('Boolean requires at least two operands')
@@ -131,6 +131,11 @@ class Boolean(Geometry):
             self._setBbox(bbox(self.__outline))
             self._setLength(length(self.__outline))
             self._setCenter(self._calcCenter())
+
+    @property
+    def geom(self):
+        if self.update:
+            self._updateInternals()
         return deepcopy(self.__outline)
         
         
-- 
2.43.0


From 33b33d90e23e92baeafe41b2b69f49fa0d4e38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 136/176] fix: Polygon outlines go on from the end of a line
 element

---
 src/yapcad/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 82a198e..11e6162 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -273,7 +273,7 @@ class Polygon(Geometry):
             if ispoint(e1): #e1 is a point
                 _fromPointAdd(e0,e1,e2)
             elif isline(e1):
-                _fromPointAdd(e0,e1[0],e2)
+                _fromPointAdd(e0,e1[1],e2)
             elif isarc(e1) and not iscircle(e1):
                 p1 = samplearc(e1,1.0)
                 _fromPointAdd(e0,p1,e2)
-- 
2.43.0


From 1dfab9a7840311e084caf005526ac1819f7e7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 137/176] fix: Polygon() drops the last of several circles only
 if it repeats the first

---
 src/yapcad/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 11e6162..15c1021 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -80,6 +80,7 @@ class Polygon(Geometry):
             if ((ispoint(elm[0]) and ispoint(elm[-1]) and 
                  dist(elm[0],elm[-1]) < epsilon) or 
                 (iscircle(elm[0]) and iscircle(elm[-1]) and 
+                 dist(elm[0][0],elm[-1][0]) < epsilon and
                  abs(elm[0][1][0] - elm[-1][1][0]) < epsilon)):
                 self.elem.pop()
         
-- 
2.43.0


From 0722d28896333715eae4bb1f7baea269a844bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 138/176] fix: union, intersection and difference of outlines
 that cross several times keep the right pieces

---
 src/yapcad/geom_util.py | 280 ++++++++++++----------------------------
 1 file changed, 86 insertions(+), 194 deletions(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 63616ad..303c0bc 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -665,193 +665,96 @@ def combineglist(g1,g2,operation):
 
     if inter != False and (inter[0] == False or inter[1] == False):
         raise ValueError('bad intersection list: ',inter)
-    # Given parameter values that define two potential sub-arcs of
-    # a figure, determine which sub-arc is valid by looking for
-    # intersections between these parameter values. In the
-    # condition where u2 is smaller than u1, it's possible that
-    # this represents an arc in the counter-clockwise direction
-    # between u2 and u1.  It also could represent a clockwise arc
-    # that "wraps around" from u1 to (u2+1).  We will check for
-    # values x1, x2 in ilist that are u2 < x1 < u1 and u1 < x2 <
-    # (u2+1.0).  The existance of x1 or x2 rules out the
-    # corresponding arc.  If neither x1 nor x2 exists, we bias
-    # towards the counter-clockwise arc.
-
-    def between(u1,u2,ilist):
-        if len(ilist) < 2:
-            raise ValueError('bad ilist')
-            
-        if u1 > u2 :
-            if len(ilist) == 2:
-                return u1,u2+1.0,False
-            x1s = list(filter(lambda x: x > u2 and x < u1,ilist))
-            x2s = list(filter(lambda x: x > u1 or x < u2,ilist))
-            l1 = len(x1s)
-            l2 = len(x2s)
-            #print("u1: ",u1," u2: ",u2," ilist: ",ilist," x1s: ",x1s," x2s: ",x2s)
-            #if l1 > 0 and l2 > 0:
-            #    print('WARNING: intersections on both sides')
-
-            if l1 > l2:
-                # print("AA")
-                if True or operation == 'union':
-                    return u1,u2+1.0,False
-                else:
-                    return u2,u1,True
-            else:
-                # print("A-")
-                return u2,u1,True
-
-        else:
-            if len(ilist) == 2:
-                return u1,u2,False
-            x1s = list(filter(lambda x: x > u1 and x < u2,ilist))
-            x2s = list(filter(lambda x: x > u2 or x < u1,ilist))
-            l1 = len(x1s)
-            l2 = len(x2s)
-            #print("u1: ",u1," u2: ",u2," ilist: ",ilist," x1s: ",x1s," x2s: ",x2s)
-            #if l1 > 0 and l2 > 0:
-            #    print('WARNING: intersections on both sides')
-                
-            if l1 > l2:
-                # print("BB")
-
-                if True or operation == 'union':
-                    return u2,u1+1,False
-                else:
-                    return u1,u2,False
-            else:
-                # print("B-")
-                return u1,u2,False
-            
-
-    ## utility to perform combination on one "segment"
-    def cmbin(g1,g2,itr):
-        if not isgeomlist(g1):
-            g1 = [ g1 ]
 
-        if not isgeomlist(g2):
-            g2 = [ g2 ]
-        
-        g1s = itr[0][0]
-        g1e = itr[0][1]
-        g2s = itr[1][0]
-        g2e = itr[1][1]
-        
-        seg = []
-        ZLEN1=close(g1s,g1e)
-        ZLEN2=close(g2s,g2e)
-
-        g1reverse=False
-        g2reverse=False
-            
-        if True or operation == 'difference':
-            if g1e < g1s:
-                g1e+=1.0
-            #g1s,g1e,g1reverse = between(g1s,g1e,inter[0])
-            #import pdb ; pdb.set_trace()
-            g2s,g2e,g2reverse = between(g2s,g2e,inter[1])
-            g2reverse = False
-        else:
-            if g1e < g1s:
-                g1e+=1.0
-            if g2e < g2s:
-                g2e += 1.0
-
-        #p1=sample(g1,((g1s+g1e)/2)%1.0)
-
-        p1inside=0
-        for i in range(5):
-            u = (i+1)/6.0
-            p = sample(g1,(u*g1e+(1.0-u)*g1s)%1.0)
-            if isinsideXY(g2,p):
-                p1inside=p1inside+1
-
-        p2inside = 0
-        for i in range(5):
-            u = (i+1)/6.0
-            p = sample(g2,(u*g2e+(1.0-u)*g2s)%1.0)
-            if isinsideXY(g1,p):
-                p2inside=p2inside+1
-                
-        #if p1inside > 0 and p2inside > 0:
-        #    print("warning: inside test succeeded for both p1s and p2s: ",
-        #          p1inside," ",p2inside)
-
-        #if p1inside == 0 and p2inside == 0:
-        #    print("warning: inside test failed for both p1s and p2s")
-                
-        #p2=sample(g2,((g2s+g2e)/2)%1.0)
-
-        if ZLEN1 and ZLEN2:
-            print ('both segments zero length')
+    def pieces(g):
+        ## lines and arcs of a geometry list, without points and
+        ## zero-length elements
+        if ispoint(g):
             return []
-        elif ZLEN2 and not ZLEN1:
-            print ('zero length segment 2')
-            if operation=='union':
-                return segmentgeomlist(g1,g1s,g1e,closed=True)
-            elif operation=='difference':
-                return []
-            else: #intersection
-                return []
-        elif ZLEN1 and not ZLEN2:
-            print ('zero length segment 1')
-            if operation=='union':
-                if g2e < g2s:
-                    g2e += 1.0
-                return segmentgeomlist(g2,g2s,g2e,closed=True)
-            else: # difference or intersection
-                return []
-            
+        if isline(g) or isarc(g):
+            return [g] if length(g) > epsilon else []
+        if ispoly(g):
+            return pieces(poly2lines(g))
+        return [p for e in g for p in pieces(e)]
+
+    def joined(a,b):
+        return dist(sample(a,1.0),sample(b,0.0)) < 100*epsilon
+
+    def outlines(ps):
+        ## number of separate runs of pieces
+        return sum(1 for i in range(len(ps)) if not joined(ps[i-1],ps[i]))
+
+    def within(p):
+        in1 = isinsideXY(p1,p)
+        in2 = isinsideXY(p2,p)
         if operation == 'union':
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                # if g2e < g2s:
-                #     g2e += 1.0
-                seg += segmentgeomlist(g2,g2s,g2e,closed=True)
-            else:
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
+            return in1 or in2
         elif operation == 'intersection':
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-            else:
-                # if g2e < g2s:
-                #     g2e += 1.0
-                #seg += segmentgeomlist(g2,g2s,g2e,reverse=g2reverse)
-                seg += segmentgeomlist(g2,g2s,g2e,closed=True)
-        elif operation == 'difference':
-            s = []
-            #if isinsideXY(g2,p1):
-            if p1inside > p2inside:
-                pass
+            return in1 and in2
+        return in1 and not in2
+
+    def sides(p,test):
+        ## what ``test`` says just left and just right of a piece
+        m = sample(p,0.5)
+        t = sub(sample(p,0.51),sample(p,0.49))
+        t = scale3(t,20*epsilon/mag(t))
+        n = [-t[1],t[0],0,1]
+        return test(add(m,n)), test(sub(m,n))
+
+    def boundary(ps,others,first):
+        ## the parts of the pieces that bound the result, with the
+        ## inside of the result to their left
+        kept = []
+        state = None
+        for i,p in enumerate(ps):
+            if not joined(ps[i-1],p):
+                state = None
+            cuts = [0.0]
+            us = []
+            for o in others:
+                r = intersectXY(p,o,params=True)
+                if r:
+                    us += r[0]
+            tol = 2*epsilon/min(length(p),1.0)
+            for u in sorted(us):
+                if u <= tol:
+                    state = None # cut at the start
+                elif u < 1.0-tol and u - cuts[-1] > tol:
+                    cuts.append(u)
+            cuts.append(1.0)
+            for j in range(1,len(cuts)):
+                q = p if len(cuts) == 2 else segment(p,cuts[j-1],cuts[j])
+                if state is None or j > 1:
+                    state = sides(q,within)
+                    if state[0] != state[1] and not first:
+                        on1 = sides(q,lambda x: isinsideXY(p1,x))
+                        if on1[0] != on1[1]: # g1 has this piece, too
+                            state = (False,False)
+                if state[0] != state[1]:
+                    kept.append(q if state[0] else reverseGeomList([q])[0])
+            if any(u >= 1.0-tol for u in us):
+                state = None
+        return kept
+
+    def chain(ps):
+        ## put the pieces in order, one outline after the other
+        r = []
+        ps = list(ps)
+        while ps:
+            if r:
+                e = sample(r[-1],1.0)
+                i = min(range(len(ps)),key=lambda k: dist(e,sample(ps[k],0.0)))
+                if dist(e,sample(ps[i],0.0)) > 100*epsilon:
+                    i = 0
             else:
-                # print("rsort: ",vstr(inter))
-                seg += segmentgeomlist(g1,g1s,g1e,closed=True)
-                # print("g2s: ",g2s," g2e: ",g2e," g2reverse: ",g2reverse)
-                s = segmentgeomlist(g2,g2s,g2e,closed=True,reverse=g2reverse)
-                s = reverseGeomList(s)
-                seg += s
-            if len(inter[0]) > 2:
-                pass
-                #combineDebugGL.append(s)
-                # print("seg: ",vstr(seg))
-
-        return seg
-
-    ## utility function to sort intersections into non-decreasing
-    ## order
-    def rsort(il):
-        nl = []
-        rl = []
-        rr = []
-        for i in range(len(il[0])):
-            nl.append([il[0][i],il[1][i]])
-        nl.sort(key=lambda x: x[0])
-        for i in range(len(nl)):
-            rl.append(nl[i][0])
-            rr.append(nl[i][1])
-        return [rl,rr]
+                i = 0
+            r.append(ps.pop(i))
+        return r
+
+    p1 = pieces(g1) if bbox1 else []
+    p2 = pieces(g2) if bbox2 else []
+    if bbox1 and bbox2 and (outlines(p1) > 1 or outlines(p2) > 1):
+        return chain(boundary(p1,p2,True) + boundary(p2,p1,False))
 
     if inter == False: # disjoint, but bounding boxes might be
         # null or one could be inside the other
@@ -902,18 +805,7 @@ def combineglist(g1,g2,operation):
         else: #intersection
             return []
     ## There are two or more points of intersection.
-    inter = rsort(inter)
-    #print("rsort: ",vstr(inter))
-
-    if len(inter[0]) %2 != 0:
-        print("WARNING: odd number of intersections (",len(inter[0]),", unpredictable behavior may result")
-    r = []
-    for i in range(1,len(inter[0])+1):
-        r += cmbin(g1,g2,[[inter[0][i-1],
-                           inter[0][i%len(inter[0])]],
-                          [inter[1][i-1],
-                           inter[1][i%len(inter[1])]]])
-    return r
+    return chain(boundary(p1,p2,True) + boundary(p2,p1,False))
 
 
 def radial_pattern(geometry, count, center=None, axis=None, angle=None):
-- 
2.43.0


From 7d5d421a686e71ab01176158c1f221ed51be2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 139/176] fix: a Boolean of a figure with separate parts
 combines all of its parts

---
 src/yapcad/combine.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index b4b3cd7..971c513 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -54,18 +54,17 @@ class Boolean(Geometry):
             gl = [gl]
 
         try:
-            outer, holes = geomlist2poly_with_holes(gl, self.__minang, self.__minlen, checkcont=False)
+            components = geomlist2poly_components(gl, self.__minang, self.__minlen, checkcont=False)
         except Exception:
             if isgeomlist(gl):
                 return gl
             return []
 
-        if not outer:
-            return []
-
-        segments = self._poly_to_segments(outer)
-        for hole in holes:
-            segments.extend(self._poly_to_segments(hole))
+        segments = []
+        for outer, holes in components:
+            segments.extend(self._poly_to_segments(outer))
+            for hole in holes:
+                segments.extend(self._poly_to_segments(hole))
         return segments
 
     def _combine_geom(self,g1,g2):
-- 
2.43.0


From bf77ccd902e216c02f64dc99735b37888beae36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 140/176] fix: which outline lies inside which is told by its
 vertices, not by its centroid

---
 src/yapcad/combine.py   | 2 +-
 src/yapcad/geom_util.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 971c513..6f0cf69 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -49,7 +49,7 @@ class Boolean(Geometry):
         else:
             gl = geom_obj
 
-        # If gl is a single arc/line/poly, wrap it in a list for geomlist2poly_with_holes
+        # If gl is a single arc/line/poly, wrap it in a list for geomlist2poly_components
         if isarc(gl) or isline(gl) or ispoly(gl):
             gl = [gl]
 
diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 303c0bc..8ef9a65 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -331,7 +331,6 @@ def _assemble_components(loop_points):
             'points': pts,
             'area': area,
             'abs_area': abs(area),
-            'centroid': _polygon_centroid_xy(pts),
             'parent': None,
             'children': [],
         })
@@ -346,7 +345,9 @@ def _assemble_components(loop_points):
                 continue
             if candidate['abs_area'] <= node['abs_area'] + epsilon:
                 continue
-            if _point_in_polygon_xy(candidate['points'], node['centroid']):
+            inside = [p for p in node['points']
+                      if _point_in_polygon_xy(candidate['points'], (p[0], p[1]))]
+            if 2 * len(inside) > len(node['points']):
                 if parent_idx is None or candidate['abs_area'] < nodes[parent_idx]['abs_area']:
                     parent_idx = jdx
         node['parent'] = parent_idx
-- 
2.43.0


From c7d026066c1f255a8e516e5f15cde7de90f318f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 141/176] fix: unsampleline() compares the distance of the
 point from the line, not distance times length

---
 src/yapcad/geom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 8c21709..be73195 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2032,12 +2032,12 @@ def unsampleline(l,p):
 
     v1 = sub(l[1],l[0])
     v2 = sub(p,l[0])
-    z = cross(v1,v2)            # magnitude of cross product is zero
-                                # if vectors parallel
-    if mag(z) > epsilon:        #  not parallel case
-        return False
+    z = cross(v1,v2)            # magnitude of cross product is the
+                                # distance times the length of the line
     len1 = mag(v1)
     len2 = mag(v2)
+    if mag(z) > epsilon*len1:   #  not on the line
+        return False
     if dot(v1,v2) > 0:
         return len2/len1
     else:
-- 
2.43.0


From d228108eb904caeb483e823bf3fba7046e88b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:54 +0000
Subject: [PATCH 142/176] fix: the intersection of a figure with an empty
 result is empty

---
 src/yapcad/geom_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 8ef9a65..55cf871 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -767,6 +767,8 @@ def combineglist(g1,g2,operation):
         if bbox1 and not bbox2: # g2 is empty, but g1 isn't
             if operation=='union' or operation=='difference':
                 return g1
+            else:
+                return []
         if not bbox1 and not bbox2: # no geometry at all
             return []
         ## OK, no intersection but it is possible that one profile
-- 
2.43.0


From e8e096cc3c1666b42b01ebb183e5c50cfa7cbe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:03 +0000
Subject: [PATCH 143/176] fix: grown outlines are closed and do not cross
 themselves at reflex corners

---
 src/yapcad/poly.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 15c1021..4c8923a 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -295,7 +295,7 @@ class Polygon(Geometry):
         ## OK, now go back through and replace full circles with arcs
         ## and catch any intersecting lines due to non-convex
         ## curvature
-        for i in range(1,len(self.__outline)):
+        for i in range(len(self.__outline)):
             e0 = self.__outline[i-1]
             e1 = self.__outline[i]
             if i == len(self.__outline)-1: #last item
@@ -311,12 +311,19 @@ class Polygon(Geometry):
                         # raise ValueError('parallel adjacent lines -- no clue')
                         print("odd parallel? adjacent line condition")
                         continue
-                    else:
-                        self.__outline[i] = line(e1[0],pi)
-                        self.__outline[(i+1)%len(self.__outline)] = line(pi,e2[1])
+                self.__outline[i] = line(e1[0],pi)
+                self.__outline[(i+1)%len(self.__outline)] = line(pi,e2[1])
             if iscircle(e1):
                 if not isline(e0) or not isline(e2):
                     raise ValueError('circle not bracketed by lines')
+                pi = lineLineIntersectXY(e0,e2,inside=True)
+                if pi != False:
+                    # a reflex corner: the lines meet before they get
+                    # to the circle
+                    self.__outline[i-1] = line(e0[0],pi)
+                    self.__outline[i] = line(pi,pi)
+                    self.__outline[(i+1)%len(self.__outline)] = line(pi,e2[1])
+                    continue
                 pp0 = lineArcIntersectXY(e0,e1,False)
                 pp1 = lineArcIntersectXY(e2,e1,False)
                 # these should be tangent lines, so exactly one
-- 
2.43.0


From 8cf55eef5e23fb7a8d268cdd61c25d81ef6e1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 144/176] fix: combineglist() does not cut pieces where only
 their extensions meet

---
 src/yapcad/geom_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 55cf871..c78fdd7 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -712,11 +712,12 @@ def combineglist(g1,g2,operation):
                 state = None
             cuts = [0.0]
             us = []
+            tol = 2*epsilon/min(length(p),1.0)
             for o in others:
                 r = intersectXY(p,o,params=True)
                 if r:
-                    us += r[0]
-            tol = 2*epsilon/min(length(p),1.0)
+                    us += [u for u,v in zip(r[0],r[1])
+                           if -tol <= u <= 1.0+tol and -0.01 <= v <= 1.01]
             for u in sorted(us):
                 if u <= tol:
                     state = None # cut at the start
-- 
2.43.0


From c87614cab0110ed3bfa7ea9bf156187797d33102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:21 +0000
Subject: [PATCH 145/176] fix: assembly resolver applies operations with the
 geom3d boolean engine

---
 src/yapcad/assembly/resolver.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 6eb7902..a74d964 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -164,17 +164,14 @@ class AssemblyResolver(ABC):
         ``kind`` is one of ``"subtract"``, ``"intersect"``, ``"union"``.
         """
         # Import lazily to avoid circular deps and optional-dep failures.
-        # Strategy: try yapCAD geom3d first, fall back to direct OCC.
-        try:
-            from ..geom3d import boolean3d  # type: ignore[import]
+        # Strategy: yapCAD solids go through geom3d, bare OCC shapes through OCC.
+        from ..geom3d import issolid, solid_boolean
+        if issolid(target_geom) and issolid(cutter_geom):
             op_map = {"subtract": "difference", "intersect": "intersection", "union": "union"}
-            op_name = op_map.get(kind, kind)
-            kwargs: Dict[str, Any] = {}
-            if engine:
-                kwargs["engine"] = engine
-            return boolean3d(target_geom, cutter_geom, op_name, **kwargs)
-        except (ImportError, AttributeError):
-            pass
+            op_name = op_map.get(kind)
+            if op_name is None:
+                raise RuntimeError(f"Unknown boolean kind: {kind!r}")
+            return solid_boolean(target_geom, cutter_geom, op_name, engine=engine)
 
         # Direct OCC fallback (yapcad-brep conda env)
         try:
@@ -198,8 +195,8 @@ class AssemblyResolver(ABC):
             pass
 
         raise RuntimeError(
-            "No boolean engine available: install OCC (yapcad-brep conda env) "
-            "or ensure geom3d.boolean3d is importable"
+            "No boolean engine available: the geometries are not yapCAD solids "
+            "and OCC (yapcad-brep conda env) is not installed"
         )
 
     @staticmethod
-- 
2.43.0


From 06fa7472c248f03a3e7135078237d229f23337d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:21 +0000
Subject: [PATCH 146/176] fix: staged assembly resolver keeps warnings, errors
 and retained cutters of the parts

---
 src/yapcad/assembly/resolver.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index a74d964..5c274e6 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -403,7 +403,8 @@ class StagedResolver(AssemblyResolver):
         # Run each stage in order
         current_parts = dict(parts)
         current_meta = dict(meta_map)
-        accumulated_ops: Dict[str, List[str]] = {}  # pid → all applied_operations across stages
+        # pid → everything reported for the part across stages
+        accumulated: Dict[str, ResolvedPart] = {}
 
         for stage_name in self.stages:
             bucket = stage_buckets[stage_name]
@@ -435,16 +436,25 @@ class StagedResolver(AssemblyResolver):
             if stage_result.errors:
                 global_errors.extend(stage_result.errors)
 
-            # Merge applied_operations into accumulator and feed geometry into next stage
+            # Merge the part reports into the accumulator and feed geometry into next stage
             for pid, rp in stage_result.parts.items():
-                prev = accumulated_ops.get(pid, [])
-                accumulated_ops[pid] = prev + rp.applied_operations
+                prev = accumulated.get(pid)
+                if prev is not None:
+                    rp = ResolvedPart(
+                        pid, rp.geometry,
+                        prev.applied_operations + rp.applied_operations,
+                        prev.retained_cutters + rp.retained_cutters,
+                        warnings=prev.warnings + rp.warnings,
+                        errors=prev.errors + rp.errors,
+                    )
+                accumulated[pid] = rp
             current_parts = {pid: rp.geometry for pid, rp in stage_result.parts.items()}
 
-        # Produce final ResolvedPart objects carrying the full applied_operations list
-        final_parts: Dict[str, ResolvedPart] = {}
-        for pid, geom in current_parts.items():
-            final_parts[pid] = ResolvedPart(pid, geom, accumulated_ops.get(pid, []), [])
+        # Produce final ResolvedPart objects carrying the full report of every stage
+        final_parts: Dict[str, ResolvedPart] = {
+            pid: accumulated.get(pid) or ResolvedPart(pid, geom, [], [])
+            for pid, geom in current_parts.items()
+        }
 
         return ResolveResult(
             parts=final_parts,
-- 
2.43.0


From 6fd76abb46144b9fe7badf79828ad1c033b04e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:05 +0000
Subject: [PATCH 147/176] fix: exported parts carry their name in the assembly

Interfaces, bolt patterns and load cases refer to parts by the name under
which they were added, and two instances of one definition are two parts.
---
 src/yapcad/assembly/mechatron_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index 90088fb..bf23f6d 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -502,8 +502,8 @@ def to_mechatron_snapshot(assembly) -> Dict[str, Any]:
     for part_name in _ordered_part_names(assembly):
         part_def = assembly.parts[part_name]
         part_dict: Dict[str, Any] = {
-            "id": str(part_def.name),
-            "name": str(part_def.name),
+            "id": str(part_name),
+            "name": str(part_name),
             "material": _material_to_mechatron(getattr(part_def, "material", None)),
             "process": getattr(part_def, "process", None) or "FDM",
             "datums": [_datum_to_mechatron(d) for d in part_def.datums.values()],
-- 
2.43.0


From d767e8c6a45ae627ce4ff30a211a64aeef46db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:05 +0000
Subject: [PATCH 148/176] fix: exported angle mates give the angle in degrees

---
 src/yapcad/assembly/mechatron_export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index bf23f6d..992b660 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -86,6 +86,7 @@ What this exporter does NOT do
 from __future__ import annotations
 
 import json
+import math
 from typing import Any, Dict, Iterable, List, Optional
 
 
@@ -328,8 +329,9 @@ def _mate_constraint_for_mate(mate, assembly=None,
     }
     # Mechatron's ``Angle`` variant requires an ``angle_deg`` field;
     # default to 0 when the yapcad Mate does not carry an explicit angle.
+    # yapCAD keeps the angle in radians.
     if variant == "Angle":
-        entry["angle_deg"] = float(getattr(mate, "angle", 0.0) or 0.0)
+        entry["angle_deg"] = math.degrees(float(getattr(mate, "angle", 0.0) or 0.0))
     return entry
 
 
-- 
2.43.0


From 2635995c43c9f7d32ff600e16cc71048e94567af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:05 +0000
Subject: [PATCH 149/176] fix: a rigid mate does not count as a moving joint in
 the export

---
 src/yapcad/assembly/mechatron_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index 992b660..e4cd607 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -442,7 +442,7 @@ def _interface_for_mate_group(idx: int, parent: str, child: str,
     # Every non-motion mate that maps to a MateConstraint variant.
     # Pass the assembly through so AxisAlign can resolve its target_axis
     # from the parent-side datum's direction vector.
-    joint_is_motion = motion_mate is not None
+    joint_is_motion = joint["type"] != "Fixed"
     mate_constraints: List[Dict[str, Any]] = []
     for m in mates:
         if _is_motion_mate(m):
-- 
2.43.0


From b79035661caf887a59d3c1ad00f5b260e7cfb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:05 +0000
Subject: [PATCH 150/176] fix: exported capsules keep sizes given in metres

---
 src/yapcad/assembly/mechatron_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/assembly/mechatron_export.py b/src/yapcad/assembly/mechatron_export.py
index e4cd607..aa73185 100644
--- a/src/yapcad/assembly/mechatron_export.py
+++ b/src/yapcad/assembly/mechatron_export.py
@@ -646,8 +646,12 @@ def _geom_to_mechatron(entry: Dict[str, Any]) -> Optional[Dict[str, Any]]:
     elif variant == "Capsule":
         if "radius_mm" in entry:
             result["radius"] = float(entry["radius_mm"]) * _MM_TO_M
+        elif "radius" in entry:
+            result["radius"] = float(entry["radius"])
         if "half_height_mm" in entry:
             result["half_height"] = float(entry["half_height_mm"]) * _MM_TO_M
+        elif "half_height" in entry:
+            result["half_height"] = float(entry["half_height"])
     elif variant == "Mesh":
         if "path" in entry:
             result["path"] = str(entry["path"])
-- 
2.43.0


From 804731e0e5ef10d6a30326c2f796e5acf45bde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 151/176] fix: a native BREP read back keeps incidence, edge
 senses, shell types and plane axes

---
 src/yapcad/native_brep.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e8a8a2d..2bb8e86 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1832,6 +1832,8 @@ def _serialize_edge(e):
         'id': meta.get('id'),
         'start_vertex': meta.get('start_vertex_id'),  # Note: key is start_vertex_id in metadata
         'end_vertex': meta.get('end_vertex_id'),      # Note: key is end_vertex_id in metadata
+        'sense': meta.get('sense', True),
+        'tolerance': meta.get('tolerance', epsilon),
         'tags': meta.get('tags', {}),
     }
     # Serialize curve parameters
@@ -1913,6 +1915,9 @@ def _deserialize_edge(data, vertex_map=None):
         e = brep_edge(curve_type, start_v, end_v,
                       curve_params=curve_params, tags=data.get('tags', {}))
 
+    e[2]['sense'] = bool(data.get('sense', True))
+    e[2]['tolerance'] = float(data.get('tolerance', epsilon))
+
     # Restore original ID
     e[2]['id'] = data['id']
     return e
@@ -2082,9 +2087,14 @@ def _deserialize_surface(data):
     if surf_type == 'plane_surface':
         origin = _deserialize_point(data['origin'])
         normal = meta.get('normal', [0, 0, 1, 0])
-        return plane_surface(origin, normal,
-                            u_range=tuple(meta.get('u_range', (-1, 1))),
-                            v_range=tuple(meta.get('v_range', (-1, 1))))
+        surf = plane_surface(origin, normal,
+                             u_range=tuple(meta.get('u_range', (-1, 1))),
+                             v_range=tuple(meta.get('v_range', (-1, 1))))
+        # the parameter axes need not be the ones derived from the normal
+        for key in ('u_axis', 'v_axis'):
+            if meta.get(key):
+                surf[2][key] = list(meta[key])
+        return surf
 
     elif surf_type == 'sphere_surface':
         center = _deserialize_point(data['center'])
@@ -2184,6 +2194,7 @@ def _serialize_shell(s):
         'face_ids': list(s[1]),
         'id': meta.get('id'),
         'closed': meta.get('closed'),
+        'shell_type': meta.get('shell_type', 'outer'),
         'solid_id': meta.get('solid_id'),
         'tags': meta.get('tags', {}),
     }
@@ -2195,6 +2206,7 @@ def _deserialize_shell(data, face_map=None):
                  for fid in data.get('face_ids', [])]
 
     s = brep_shell(face_refs, closed=data.get('closed'),
+                   shell_type=data.get('shell_type', 'outer'),
                    tags=data.get('tags', {}))
     s[2]['id'] = data['id']
     if data.get('solid_id'):
@@ -2277,7 +2289,7 @@ def deserialize_topology_graph(data):
     for eid, edata in data.get('edges', {}).items():
         edge = _deserialize_edge(edata, vertex_map=None)  # Use IDs directly
         edge_map[eid] = edge
-        graph.edges[edge[2]['id']] = edge
+        graph.add_edge(edge)  # also registers the edge with its vertices
 
     # Deserialize trims (depend on edges)
     trim_map = {}
@@ -2298,7 +2310,7 @@ def deserialize_topology_graph(data):
     for fid, fdata in data.get('faces', {}).items():
         face = _deserialize_face(fdata)
         face_map[fid] = face
-        graph.faces[face[2]['id']] = face
+        graph.add_face(face)  # also registers the face with its edges
 
     # Deserialize shells (depend on faces)
     shell_map = {}
-- 
2.43.0


From b571ba1a08c1be4f1c87d89febe8d034a7e45b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 152/176] fix: scaling a native BREP scales the ranges of its
 surfaces and radii of its edges

---
 src/yapcad/native_brep.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 2bb8e86..35250be 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2674,5 +2674,19 @@ def scale_native_brep(yapcad_solid, factor, center=None):
                 meta['major_radius'] = meta['major_radius'] * f
             if 'minor_radius' in meta:
                 meta['minor_radius'] = meta['minor_radius'] * f
+            # Parameter ranges that are lengths rather than angles
+            lengths = {'plane_surface': ('u_range', 'v_range'),
+                       'cylinder_surface': ('v_range',),
+                       'cone_surface': ('v_range',)}
+            for key in lengths.get(surface[0], ()):
+                if key in meta:
+                    meta[key] = tuple(x * f for x in meta[key])
+
+    # ... and the lengths in edge curves
+    for edge in graph.edges.values():
+        params = edge[2].get('curve_params', {})
+        for key in ('radius', 'semi_major', 'semi_minor'):
+            if params.get(key) is not None:
+                params[key] = params[key] * f
 
     attach_native_brep_to_solid(yapcad_solid, graph)
-- 
2.43.0


From e2fc4ae1daeac2ffa17d038fef99ccccbb20f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 153/176] fix: mirroring a native BREP reverses its arcs

---
 src/yapcad/native_brep.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 35250be..83160dd 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -497,6 +497,9 @@ def transform_edge_params(edge, transform_point_func):
     curve_type = edge[1]
     params = edge[2].get('curve_params', {})
 
+    if curve_type == 'arc':
+        _flip_arc_if_reversed(params, transform_point_func)
+
     if curve_type == 'arc' and 'center' in params:
         params['center'] = transform_point_func(params['center'])
 
@@ -509,6 +512,19 @@ def transform_edge_params(edge, transform_point_func):
         ]
 
 
+def _flip_arc_if_reversed(params, transform_point_func):
+    """Reverse an arc whose sense of rotation (seen from +Z) the transform flips."""
+    o = transform_point_func(point(0, 0, 0))
+    x = transform_point_func(point(1, 0, 0))
+    y = transform_point_func(point(0, 1, 0))
+    det = ((x[0] - o[0]) * (y[1] - o[1]) - (x[1] - o[1]) * (y[0] - o[0]))
+    if det < -epsilon:
+        if 'bulge' in params:
+            params['bulge'] = -params['bulge']
+        if 'orientation' in params:
+            params['orientation'] = -params['orientation']
+
+
 # -----------------------------------------------------------------------------
 # BrepTrim
 # -----------------------------------------------------------------------------
@@ -2489,6 +2505,8 @@ def transform_topology_graph(graph, transform_fn):
         meta = edge[2]
         if 'curve_params' in meta:
             params = meta['curve_params']
+            if edge[1] == 'arc':
+                _flip_arc_if_reversed(params, transform_fn)
             if 'center' in params:
                 params['center'] = _transform_point(params['center'], transform_fn)
             if 'axis' in params:
-- 
2.43.0


From 1612e2e9465dc4f1b1e4e56fb43ad5aa49e7b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 154/176] fix: native BREP arcs run through their end points in
 the given orientation

---
 src/yapcad/native_brep.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 83160dd..29c4c8e 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -247,6 +247,13 @@ def edge_vertices(e):
     return (e[2].get('start_vertex_id'), e[2].get('end_vertex_id'))
 
 
+def _oriented_arc(center, radius, start_angle, end_angle, orientation):
+    """Arc from start to end angle, counter-clockwise if orientation > 0."""
+    if orientation < 0:
+        return arc(center, radius, end_angle, start_angle, samplereverse=True)
+    return arc(center, radius, start_angle, end_angle)
+
+
 def evaluate_edge_curve(edge, start_point, end_point):
     """Construct a yapCAD curve from edge definition and vertex positions.
 
@@ -281,7 +288,7 @@ def evaluate_edge_curve(edge, start_point, end_point):
                 return line(start_point, end_point)
 
             # Bulge = tan(theta/4) where theta is the included angle
-            # Positive bulge = arc bulges to the left (CCW)
+            # Positive bulge = CCW arc, which lies to the right of its chord
             mid = _midpoint(start_point, end_point)
             chord_len = _point_distance(start_point, end_point)
 
@@ -294,9 +301,8 @@ def evaluate_edge_curve(edge, start_point, end_point):
 
             perp = point(-dy/perp_len, dx/perp_len, 0)
 
-            # Arc midpoint offset from chord midpoint
+            # Height of the arc over its chord
             arc_height = bulge * chord_len / 2
-            arc_mid = add(mid, scale3(perp, arc_height))
 
             # Compute center and radius
             # Using the relationship: radius = (chord^2/4 + height^2) / (2*height)
@@ -305,12 +311,12 @@ def evaluate_edge_curve(edge, start_point, end_point):
                 return line(start_point, end_point)
             radius = (chord_len*chord_len/4 + h*h) / (2*h)
 
-            # Center is offset from arc midpoint
+            # Center is offset from chord midpoint, opposite to the arc midpoint
             center_offset = radius - h
             if bulge > 0:
-                center = sub(arc_mid, scale3(perp, center_offset))
+                center = add(mid, scale3(perp, center_offset))
             else:
-                center = add(arc_mid, scale3(perp, center_offset))
+                center = sub(mid, scale3(perp, center_offset))
 
             # Compute start/end angles
             start_angle = atan2(start_point[1] - center[1],
@@ -319,7 +325,7 @@ def evaluate_edge_curve(edge, start_point, end_point):
                              end_point[0] - center[0]) * 180 / pi
 
             orientation = 1 if bulge > 0 else -1
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            return _oriented_arc(center, radius, start_angle, end_angle, orientation)
 
         elif 'center' in params:
             # Arc defined by center point
@@ -332,7 +338,7 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            return _oriented_arc(center, radius, start_angle, end_angle, orientation)
 
         else:
             # Default to line if no arc params
-- 
2.43.0


From f4c496573c7956e092f2952711fd78b25bc2be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 155/176] fix: a ray through the edge of triangles crosses a
 native BREP shell once

---
 src/yapcad/native_brep.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 29c4c8e..060649b 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1630,13 +1630,22 @@ class TopologyGraph:
                     candidates.append(elem)
 
         # Count ray-triangle intersections
-        hits = 0
+        # (a ray through an edge shared by triangles crosses the surface once)
+        distances = []
         for tri in candidates:
             result = self._ray_triangle_intersect(p, direction, tri, tolerance)
             if result is not None:
                 t, _ = result
                 if t > tolerance:  # Hit is in front of point
-                    hits += 1
+                    distances.append(t)
+
+        merge = max(tolerance, 1e-9 * extent)
+        hits = 0
+        last = None
+        for t in sorted(distances):
+            if last is None or t - last > merge:
+                hits += 1
+            last = t
 
         # Odd number of hits = inside
         return (hits % 2) == 1
-- 
2.43.0


From a0b571ce99e25fd537233813bfe7c57485d676a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 156/176] fix: a void that encloses the outer shell is refused

---
 src/yapcad/native_brep.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 060649b..a8904ca 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1784,24 +1784,21 @@ class TopologyGraph:
             outer_shell_id = shell_ids[0]
 
             for void_shell_id in shell_ids[1:]:
-                # Get a point on the void shell (center of bbox)
-                bbox = self.shell_bbox(void_shell_id)
-                if bbox is None:
+                # Get a point on the void shell's surface (the shells do not
+                # intersect, so any one decides; the center of the void would
+                # also lie inside an outer shell that the void encloses)
+                triangle = next(self._iter_shell_triangles(void_shell_id), None)
+                if triangle is None:
                     continue
+                test_point = point(triangle[0])
 
-                center = point(
-                    (bbox[0][0] + bbox[1][0]) / 2,
-                    (bbox[0][1] + bbox[1][1]) / 2,
-                    (bbox[0][2] + bbox[1][2]) / 2
-                )
-
-                # Void shell center should be inside outer shell
-                if not self.shell_contains_point(outer_shell_id, center,
+                # Void shell should be inside outer shell
+                if not self.shell_contains_point(outer_shell_id, test_point,
                                                   tolerance):
                     details['containment_violations'].append({
                         'void_shell': void_shell_id,
                         'outer_shell': outer_shell_id,
-                        'test_point': center,
+                        'test_point': test_point,
                     })
                     raise SolidValidationError(
                         f"Void shell {void_shell_id} is not contained "
-- 
2.43.0


From 8297d0a7425ad5230244e4d22cbb618fa345005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 157/176] fix: refused shells and solids are not added to the
 native BREP

---
 src/yapcad/native_brep.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index a8904ca..220f22c 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -991,11 +991,6 @@ class TopologyGraph:
         sid = shell_id(shell)
         self.shells[sid] = shell
 
-        # Register shell with its faces
-        for fid in shell_faces(shell):
-            if fid in self.faces:
-                self.faces[fid][2]['shell_id'] = sid
-
         # Handle closure validation
         if validate_closure:
             closed_flag = shell_closed(shell)
@@ -1007,10 +1002,19 @@ class TopologyGraph:
 
             elif closed_flag is True:
                 # Validate that shell is actually closed
-                self.validate_shell_closure(sid)
+                try:
+                    self.validate_shell_closure(sid)
+                except ShellClosureError:
+                    del self.shells[sid]  # a refused shell is not part of the graph
+                    raise
 
             # If closed_flag is False, no validation needed (explicitly open)
 
+        # Register shell with its faces
+        for fid in shell_faces(shell):
+            if fid in self.faces:
+                self.faces[fid][2]['shell_id'] = sid
+
         return sid
 
     def add_solid(self, solid, validate=True, tolerance=1e-10):
@@ -1036,15 +1040,19 @@ class TopologyGraph:
         sid = solid_id(solid)
         self.solids[sid] = solid
 
+        # Validate if requested
+        if validate:
+            try:
+                self.validate_solid(sid, tolerance)
+            except SolidValidationError:
+                del self.solids[sid]  # a refused solid is not part of the graph
+                raise
+
         # Register solid with its shells
         for shid in solid_shells(solid):
             if shid in self.shells:
                 self.shells[shid][2]['solid_id'] = sid
 
-        # Validate if requested
-        if validate:
-            self.validate_solid(sid, tolerance)
-
         return sid
 
     def get_vertex(self, vid):
-- 
2.43.0


From 5aa94136416db4246f403c344630602b20054537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 158/176] fix: a non-uniformly scaled solid does not keep its
 unscaled native BREP

---
 src/yapcad/geom3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 97b7263..1f6a260 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1009,6 +1009,10 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             scale_native_brep(s2, sx, cent)
         except ImportError:
             pass
+    else:
+        # the analytic surfaces cannot follow; do not keep the unscaled shape
+        from yapcad.native_brep import clear_native_brep
+        clear_native_brep(s2)
 
     return s2
 
-- 
2.43.0


From 6d4c6c5b2c9fb27f327bafd86d57cc6cc88a5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:19 +0000
Subject: [PATCH 159/176] fix: native BREP moves turn the reference direction
 of round surfaces

---
 src/yapcad/native_brep.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 220f22c..eb92a52 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2143,26 +2143,35 @@ def _deserialize_surface(data):
         origin = _deserialize_point(data['origin'])
         axis = meta.get('axis', [0, 0, 1, 0])
         radius = meta.get('radius', 1.0)
-        return cylinder_surface(origin, axis, radius,
-                               u_range=tuple(meta.get('u_range', (0, 2*pi))),
-                               v_range=tuple(meta.get('v_range', (0, 1))))
+        surf = cylinder_surface(origin, axis, radius,
+                                u_range=tuple(meta.get('u_range', (0, 2*pi))),
+                                v_range=tuple(meta.get('v_range', (0, 1))))
+        if meta.get('ref_direction'):
+            surf[2]['ref_direction'] = list(meta['ref_direction'])
+        return surf
 
     elif surf_type == 'cone_surface':
         apex = _deserialize_point(data['apex'])
         axis = meta.get('axis', [0, 0, 1, 0])
         half_angle = meta.get('half_angle', pi/4)
-        return cone_surface(apex, axis, half_angle,
-                           u_range=tuple(meta.get('u_range', (0, 2*pi))),
-                           v_range=tuple(meta.get('v_range', (0, 1))))
+        surf = cone_surface(apex, axis, half_angle,
+                            u_range=tuple(meta.get('u_range', (0, 2*pi))),
+                            v_range=tuple(meta.get('v_range', (0, 1))))
+        if meta.get('ref_direction'):
+            surf[2]['ref_direction'] = list(meta['ref_direction'])
+        return surf
 
     elif surf_type == 'torus_surface':
         center = _deserialize_point(data['center'])
         axis = meta.get('axis', [0, 0, 1, 0])
         major_radius = meta.get('major_radius', 2.0)
         minor_radius = meta.get('minor_radius', 0.5)
-        return torus_surface(center, axis, major_radius, minor_radius,
-                            u_range=tuple(meta.get('u_range', (0, 2*pi))),
-                            v_range=tuple(meta.get('v_range', (0, 2*pi))))
+        surf = torus_surface(center, axis, major_radius, minor_radius,
+                             u_range=tuple(meta.get('u_range', (0, 2*pi))),
+                             v_range=tuple(meta.get('v_range', (0, 2*pi))))
+        if meta.get('ref_direction'):
+            surf[2]['ref_direction'] = list(meta['ref_direction'])
+        return surf
 
     elif surf_type == 'bspline_surface':
         control_points = [[_deserialize_point(p) for p in row]
@@ -2568,16 +2577,22 @@ def _transform_surface_inplace(surface, transform_fn):
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'cone_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'torus_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'bspline_surface':
         # Control points are nested list
-- 
2.43.0


From 4f1722a4ff4e228025443ad3e55bee6911863a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:40 +0000
Subject: [PATCH 160/176] fix: separation of boxes is the distance between
 their closest points

---
 src/yapcad/assembly/kinematic_integration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1be2163..ec04641 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1663,12 +1663,11 @@ class KinematicConstraint:
         dist_z = max(aabb_a[0][2] - aabb_b[1][2], aabb_b[0][2] - aabb_a[1][2])
 
         # If any distance is positive, boxes are separated
-        # Return the maximum distance (most separated axis)
+        # Return the distance between their closest points
         # If all negative, return the minimum (most penetration)
         if dist_x > 0 or dist_y > 0 or dist_z > 0:
-            # Separated - return minimum positive distance
-            positive_dists = [d for d in [dist_x, dist_y, dist_z] if d > 0]
-            return min(positive_dists) if positive_dists else 0.0
+            # Separated - the gaps on the axes add up as a right-angled path
+            return math.sqrt(sum(d * d for d in (dist_x, dist_y, dist_z) if d > 0))
         else:
             # Overlapping - return negative (penetration depth)
             return max(dist_x, dist_y, dist_z)  # Least penetration
-- 
2.43.0


From de87a1c10a25897a0f0dcf69f4bba5bc0456490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:40 +0000
Subject: [PATCH 161/176] fix: Z stack clearance uses the height range the
 turned parts really occupy

---
 src/yapcad/assembly/kinematic_integration.py | 26 ++++----------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index ec04641..8450c30 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1469,27 +1469,11 @@ class KinematicConstraint:
         height_a = self.bounds_a[1][2] - self.bounds_a[0][2]  # max_z - min_z
         height_b = self.bounds_b[1][2] - self.bounds_b[0][2]
 
-        # Get local Z offsets to top/bottom surfaces
-        top_a_local = self.bounds_a[1][2]  # max_z in local coords
-        bottom_a_local = self.bounds_a[0][2]  # min_z in local coords
-        top_b_local = self.bounds_b[1][2]
-        bottom_b_local = self.bounds_b[0][2]
-
-        # Transform local top/bottom points to world Z
-        # For simplified check, assume Z-axis alignment (after rotations)
-        # Get world Z-axis direction for each part
-        local_z_a = self._get_local_axis("z")
-        local_z_b = self._get_local_axis("z")
-        world_z_a = self._transform_vector(tf_a, local_z_a)
-        world_z_b = self._transform_vector(tf_b, local_z_b)
-
-        # Calculate world Z positions of top/bottom faces
-        # For a part with local bounds, world top Z = origin_z + local_max_z (if Z aligned)
-        # If rotated, this is more complex - simplified version uses origin + projected height
-        top_a_world = origin_a[2] + top_a_local * abs(world_z_a[2])
-        bottom_a_world = origin_a[2] + bottom_a_local * abs(world_z_a[2])
-        top_b_world = origin_b[2] + top_b_local * abs(world_z_b[2])
-        bottom_b_world = origin_b[2] + bottom_b_local * abs(world_z_b[2])
+        # World Z range of the placed bounding boxes (parts may be turned over)
+        aabb_a = self._transform_aabb(tf_a, self.bounds_a)
+        aabb_b = self._transform_aabb(tf_b, self.bounds_b)
+        bottom_a_world, top_a_world = float(aabb_a[0][2]), float(aabb_a[1][2])
+        bottom_b_world, top_b_world = float(aabb_b[0][2]), float(aabb_b[1][2])
 
         # Determine overlap in Z
         # Parts overlap if top_a > bottom_b AND top_b > bottom_a
-- 
2.43.0


From 71e6b3e4158ce0a3cef7ea394c9d4f0b3416104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:40 +0000
Subject: [PATCH 162/176] fix: constraints with an invalid second axis are not
 satisfied

---
 src/yapcad/assembly/kinematic_integration.py | 64 ++++++++++++++++----
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 8450c30..c8d77de 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1042,11 +1042,21 @@ class KinematicConstraint:
 
         if tf_b is not None:
             origin_b = self._get_origin(tf_b)
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_axis is not None and self.reference_center is not None:
             origin_b = np.array(self.reference_center)
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_axis specification: {self.reference_axis}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
@@ -1093,10 +1103,20 @@ class KinematicConstraint:
         axis_a = self._transform_vector(tf_a, local_axis_a)
 
         if tf_b is not None:
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_axis is not None:
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_axis specification: {self.reference_axis}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
@@ -1133,10 +1153,20 @@ class KinematicConstraint:
         axis_a = self._transform_vector(tf_a, local_axis_a)
 
         if tf_b is not None:
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_axis is not None:
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_axis specification: {self.reference_axis}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
@@ -1323,11 +1353,21 @@ class KinematicConstraint:
 
         if tf_b is not None:
             origin_b = self._get_origin(tf_b)
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            local_axis_b = self._get_local_axis(self.axis_b)
+            if local_axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid axis_b specification: {self.axis_b}"
+                )
+            axis_b = self._transform_vector(tf_b, local_axis_b)
         elif self.reference_center is not None and self.reference_normal is not None:
             origin_b = np.array(self.reference_center)
-            axis_b = np.array(self.reference_normal)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_normal)
+            if axis_b is None:
+                return ConstraintEvaluationResult(
+                    satisfied=False,
+                    error_message=f"Invalid reference_normal specification: {self.reference_normal}"
+                )
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
-- 
2.43.0


From 3e79ea6dfbee010a3ce7ef438ba1a6f9636b26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:40 +0000
Subject: [PATCH 163/176] fix: a constraint on a face that is not found is not
 satisfied

---
 src/yapcad/assembly/kinematic_integration.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index c8d77de..ebbaf18 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -936,6 +936,16 @@ class KinematicConstraint:
         self._face_pos_b = face_pos_b
         self._face_warnings = face_warnings
 
+        # A constraint on a face that cannot be located says nothing about the part
+        if face_warnings and self.constraint_type in (
+                KinematicConstraintType.COINCIDENT,
+                KinematicConstraintType.AT_DISTANCE,
+                KinematicConstraintType.MIN_DISTANCE):
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="; ".join(face_warnings)
+            )
+
         # Dispatch to appropriate evaluation method
         if self.constraint_type == KinematicConstraintType.COINCIDENT:
             return self._evaluate_coincident(tf_a, tf_b)
-- 
2.43.0


From 404cb93482e0ef0a2c823094efc1767317ba75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:40 +0000
Subject: [PATCH 164/176] fix: a minimum distance from a reference point does
 not need a second part

---
 src/yapcad/assembly/kinematic_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index ebbaf18..8624ee0 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1449,7 +1449,7 @@ class KinematicConstraint:
 
         # If bounding boxes are provided, calculate minimum separation
         # (bounding box method takes precedence over face positions for collision detection)
-        if self.bounds_a is not None and self.bounds_b is not None:
+        if tf_b is not None and self.bounds_a is not None and self.bounds_b is not None:
             # Transform bounding boxes to world coordinates
             actual_distance = self._calculate_bbox_separation(
                 tf_a, self.bounds_a, tf_b, self.bounds_b
-- 
2.43.0


From 727d64ead09e04939120cdb5179f2ba7dc97ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 165/176] fix: the DSL identity transform can be evaluated

---
 src/yapcad/dsl/runtime/builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 0f80bff..ead62de 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -343,8 +343,8 @@ class BuiltinRegistry:
 
         def _identity_transform() -> Value:
             """Create an identity transform."""
-            from yapcad.xform import Identity
-            return transform_val(Identity())
+            from yapcad.xform import Matrix
+            return transform_val(Matrix())
 
         def _translate(s: Value, x: Value, y: Value, z: Value) -> Value:
             """Translate a solid by (x, y, z)."""
-- 
2.43.0


From 20e2154cd96f9ca8241ffab01e76ab42bba9ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 166/176] fix: DSL volume and surface area queries can be
 evaluated

---
 src/yapcad/dsl/runtime/builtins.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index ead62de..abc46ed 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -2762,13 +2762,13 @@ class BuiltinRegistry:
 
         def _volume(s: Value) -> Value:
             """Calculate volume of a solid."""
-            from yapcad.geom3d import volume
-            return float_val(volume(s.data))
+            from yapcad.geom3d import volumeof
+            return float_val(volumeof(s.data))
 
         def _surface_area(s: Value) -> Value:
             """Calculate surface area of a solid."""
-            from yapcad.geom3d import surface_area
-            return float_val(surface_area(s.data))
+            from yapcad.geom3d import surfacearea
+            return float_val(sum(surfacearea(surf) for surf in s.data[1]))
 
         def _area(r: Value) -> Value:
             """Calculate area of a region2d using shoelace formula."""
-- 
2.43.0


From d303c6f62492a9cd47facc29e418eb218ea40026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:26 +0000
Subject: [PATCH 167/176] fix: DSL patterns are lists of the shape they repeat

---
 src/yapcad/dsl/symbols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/symbols.py b/src/yapcad/dsl/symbols.py
index f5d9124..44869dc 100644
--- a/src/yapcad/dsl/symbols.py
+++ b/src/yapcad/dsl/symbols.py
@@ -632,13 +632,13 @@ class SymbolTable:
             ("count", INT, None),
             ("axis", VECTOR3D, None),
             ("center", POINT, None),
-        ], UNKNOWN)  # Returns same type as input
+        ], make_list_type(UNKNOWN))  # List of the type of the input
 
         self._register_builtin("linear_pattern", [
             ("shape", UNKNOWN, None),
             ("count", INT, None),
             ("spacing", VECTOR, None),
-        ], UNKNOWN)
+        ], make_list_type(UNKNOWN))
 
         # Query operations
         self._register_builtin("volume", [("s", SOLID, None)], FLOAT)
-- 
2.43.0


From 2bd2929eea50ada9515df7e1edad2f528083188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:27 +0000
Subject: [PATCH 168/176] fix: the DSL sphere has the radius it was given

---
 src/yapcad/dsl/runtime/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index abc46ed..093c497 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -1533,7 +1533,7 @@ class BuiltinRegistry:
         def _sphere(radius: Value) -> Value:
             """Create a sphere solid."""
             from yapcad.geom3d_util import sphere
-            return solid_val(sphere(radius.data))
+            return solid_val(sphere(2.0 * radius.data))
 
         def _oblate_spheroid(equatorial_diameter: Value, oblateness: Value) -> Value:
             """Create an oblate spheroid (flattened sphere).
-- 
2.43.0


From 051b29f10f57881f2397b4529495adac316bdf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:54 +0000
Subject: [PATCH 169/176] fix: applying a DSL transform keeps solids right side
 out

---
 src/yapcad/dsl/runtime/builtins.py | 31 ++++++++++++++++++------------
 src/yapcad/geom3d.py               | 25 ++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 093c497..47d9ff1 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -493,9 +493,8 @@ class BuiltinRegistry:
 
         def _apply(t: Value, shape: Value) -> Value:
             """Apply a transform to a shape (solid, surface, point, etc.)."""
-            from yapcad.geom3d import issolid, issurface, rotatesolid, rotatesurface
-            from yapcad.geom import ispoint, isvect, transform as geom_transform
-            from yapcad.geom import point
+            from yapcad.geom3d import issolid, issurface, transformsurface
+            from yapcad.geom import close, ispoint, isvect, transform as geom_transform
             from copy import deepcopy
 
             mat = t.data
@@ -504,25 +503,33 @@ class BuiltinRegistry:
 
             # Handle solids by applying matrix to each surface
             if shape_type == SOLID or issolid(data):
-                # Use rotatesolid with the pre-computed matrix
-                # We pass a tiny non-zero angle to avoid early return, but the
-                # actual transformation is done entirely by the provided matrix
-                result = rotatesolid(data, 0.001, cent=point(0, 0, 0),
-                                    axis=point(0, 0, 1.0), mat=mat)
+                result = deepcopy(data)
+                result[1] = [transformsurface(surf, mat) for surf in data[1]]
                 # Apply the matrix transformation to BREP data as well
-                # (rotatesolid only applies the rotation from ang/axis, not mat)
                 try:
                     from yapcad.brep import apply_matrix_to_brep_solid
                     apply_matrix_to_brep_solid(result, mat)
                 except ImportError:
                     pass
+                # Native BREP data follows rigid transformations only
+                from yapcad.native_brep import (
+                    attach_native_brep_to_solid, clear_native_brep,
+                    native_brep_from_solid, transform_topology_graph)
+                graph = native_brep_from_solid(result)
+                if graph is not None:
+                    rows = [mat.getrow(i)[:3] for i in range(3)]
+                    if all(close(sum(a * b for a, b in zip(rows[i], rows[j])),
+                                 1.0 if i == j else 0.0)
+                           for i in range(3) for j in range(i, 3)):
+                        transform_topology_graph(graph, mat.mul)
+                        attach_native_brep_to_solid(result, graph)
+                    else:
+                        clear_native_brep(result)
                 return solid_val(result)
 
             # Handle surfaces
             elif shape_type == SURFACE or issurface(data):
-                result = rotatesurface(data, 0.001, cent=point(0, 0, 0),
-                                      axis=point(0, 0, 1.0), mat=mat)
-                return surface_val(result)
+                return surface_val(transformsurface(data, mat))
 
             # Handle points/vectors - use matrix multiplication directly
             elif shape_type in (POINT, POINT2D, POINT3D) or ispoint(data):
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 1f6a260..0aa10e1 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -778,6 +778,31 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
                 s2[2][i] = vect(n_scaled[0]/length, n_scaled[1]/length, n_scaled[2]/length, 0)
     return s2
 
+def transformsurface(s, mat):
+    """Return a copy of the surface transformed by an affine matrix.
+
+    Normals are transformed by the cofactor matrix, so that they stay unit
+    length and perpendicular to the surface, and faces are turned around by
+    reflections, so that they keep pointing outwards.
+    """
+    m = [mat.getrow(i)[:3] for i in range(3)]
+    cof = [cross(point(*m[1]), point(*m[2])),
+           cross(point(*m[2]), point(*m[0])),
+           cross(point(*m[0]), point(*m[1]))]
+    sign = -1.0 if sum(m[0][i] * cof[0][i] for i in range(3)) < 0 else 1.0
+    s2 = _copysurface(s)
+    s2[1] = [mat.mul(v) for v in s[1]]
+    normals = []
+    for n in s[2]:
+        t = [sign * sum(row[i] * n[i] for i in range(3)) for row in cof]
+        length = (t[0]**2 + t[1]**2 + t[2]**2)**0.5
+        normals.append([t[0]/length, t[1]/length, t[2]/length, n[3]]
+                       if length > epsilon else list(n))
+    s2[2] = normals
+    if sign < 0:
+        s2[3] = [[f[0], f[2], f[1]] for f in s[3]]
+    return s2
+
 def solid(*args):
     """given a solid or a list of solid parameters as arguments,
     return a conforming solid representation.  Checks arguments
-- 
2.43.0


From 83ee99c6991367a56afe248efccdc3a10af51eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:54 +0000
Subject: [PATCH 170/176] fix: DSL mirror uses the plane of its normal

---
 src/yapcad/dsl/runtime/builtins.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 47d9ff1..4743d75 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -432,16 +432,20 @@ class BuiltinRegistry:
         def _mirror_solid(s: Value, plane_normal: Value) -> Value:
             """Mirror a solid across a plane defined by its normal vector."""
             from yapcad.geom3d import mirror as geom3d_mirror
-            n = plane_normal.data
-            nx, ny, nz = abs(n[0]), abs(n[1]), abs(n[2])
-            # Map normal to plane string
-            if nx > ny and nx > nz:
-                plane = 'yz'
-            elif ny > nx and ny > nz:
-                plane = 'xz'
-            else:
-                plane = 'xy'
-            return solid_val(geom3d_mirror(s.data, plane))
+            from yapcad.geom import epsilon
+            from yapcad.xform import Matrix
+            n = plane_normal.data[:3]
+            mag2 = sum(c * c for c in n)
+            if mag2 < epsilon * epsilon:
+                raise ValueError("mirror plane normal must be non-zero")
+            # Map principal normals to plane string
+            for i, plane in enumerate(('yz', 'xz', 'xy')):
+                if mag2 - n[i] * n[i] < epsilon * mag2:
+                    return solid_val(geom3d_mirror(s.data, plane))
+            # Any other plane: reflection matrix
+            m = [[(1.0 if i == j else 0.0) - 2.0 * n[i] * n[j] / mag2
+                  for j in range(3)] + [0] for i in range(3)]
+            return _apply(transform_val(Matrix(m + [[0, 0, 0, 1]])), s)
 
         self.register(BuiltinFunction(
             "scale_uniform",
-- 
2.43.0


From 8913db19213cdc7d9b237aba0ebf16682a55e886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:54 +0000
Subject: [PATCH 171/176] fix: DSL region area counts holes and arcs

---
 src/yapcad/dsl/runtime/builtins.py | 62 ++++++++++++++++++------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 4743d75..037ebdc 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -2782,36 +2782,48 @@ class BuiltinRegistry:
             return float_val(sum(surfacearea(surf) for surf in s.data[1]))
 
         def _area(r: Value) -> Value:
-            """Calculate area of a region2d using shoelace formula."""
-            from yapcad.geom import isgeomlist, isline, ispoint
+            """Calculate area of a region2d (without its holes)."""
+            from yapcad.geom import (isgeomlist, isinsideXY, isline, isarc,
+                                     ispoint, length, sample)
 
             data = r.data
             if not isgeomlist(data):
                 return float_val(0.0)
 
-            # Sample all segments into points
-            points = []
-            for seg in data:
-                if isline(seg):
-                    p = seg[0]  # Start point of line segment
-                    if ispoint(p):
-                        points.append(p)
-                elif ispoint(seg):
-                    points.append(seg)
-
-            if len(points) < 3:
-                return float_val(0.0)
-
-            # Shoelace formula for polygon area
-            n = len(points)
-            area = 0.0
-            for i in range(n):
-                j = (i + 1) % n
-                area += points[i][0] * points[j][1]
-                area -= points[j][0] * points[i][1]
-            area = abs(area) / 2.0
-
-            return float_val(area)
+            def loop_area(loop):
+                """Area enclosed by a loop of curves or points."""
+                area = 0.0
+                points = [seg for seg in loop if ispoint(seg)]
+                chords = list(zip(points, points[1:] + points[:1]))
+                for seg in loop:
+                    if isline(seg):
+                        chords.append((seg[0], seg[1]))
+                    elif isarc(seg):
+                        # chord, and the circular segment beyond it
+                        chords.append((sample(seg, 0.0), sample(seg, 1.0)))
+                        radius = seg[1][0]
+                        angle = length(seg) / radius
+                        part = radius * radius * (angle - math.sin(angle))
+                        area += -part if seg[1][3] == -2 else part
+                    elif not ispoint(seg):
+                        pts = [sample(seg, i / 64.0) for i in range(65)]
+                        chords.extend(zip(pts, pts[1:]))
+                for p, q in chords:
+                    area += p[0] * q[1] - q[0] * p[1]
+                return abs(area) / 2.0
+
+            # A region of several parts or with holes is a list of loops
+            loops = [g for g in data
+                     if not (isline(g) or isarc(g) or ispoint(g)) and isgeomlist(g)]
+            if not loops or len(loops) != len(data):
+                return float_val(loop_area(data))
+            total = 0.0
+            for loop in loops:
+                p = loop[0] if ispoint(loop[0]) else sample(loop[0], 0.5)
+                depth = sum(1 for other in loops
+                            if other is not loop and isinsideXY(other, p))
+                total += loop_area(loop) if depth % 2 == 0 else -loop_area(loop)
+            return float_val(total)
 
         def _perimeter(r: Value) -> Value:
             """Calculate perimeter of a region2d as sum of segment lengths."""
-- 
2.43.0


From d3039aee38ab9f001ec5bf4027c7a2151766de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:55 +0000
Subject: [PATCH 172/176] fix: dodecahedron fits the sphere of its diameter

---
 src/yapcad/geom3d_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index a523efd..a06b501 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -470,7 +470,7 @@ def dodecahedron(diameter, center=point(0,0,0)):
     phi = (1 + math.sqrt(5)) / 2  # Golden ratio ≈ 1.618
     
     # Scale factor to fit within diameter
-    scale = diameter / (2 * phi)
+    scale = diameter / (2 * math.sqrt(3))
     
     # 20 vertices of a regular dodecahedron
     # Using standard golden ratio construction
-- 
2.43.0


From 8b12b3386e984a15d6e66113cff7ec801075b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:55 +0000
Subject: [PATCH 173/176] fix: DSL points and vectors can be added, subtracted,
 scaled and negated

---
 src/yapcad/dsl/runtime/interpreter.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 9b59f0a..91ecfd8 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -43,8 +43,8 @@ from ..ast import (
     Pattern, LiteralPattern, IdentifierPattern, WildcardPattern,
 )
 from ..types import (
-    Type, ListType, DictType, resolve_type_name,
-    INT, FLOAT, BOOL, STRING, UNKNOWN,
+    Type, ListType, DictType, GeometricPrimitiveType, common_type,
+    resolve_type_name, INT, FLOAT, BOOL, STRING, UNKNOWN,
 )
 from ..tokens import SourceSpan, TokenType
 
@@ -627,6 +627,19 @@ class Interpreter:
 
         right = self._evaluate(op.right, ctx)
 
+        # Point and vector arithmetic
+        if isinstance(left.type, GeometricPrimitiveType) and op.operator in (
+                TokenType.PLUS, TokenType.MINUS, TokenType.STAR, TokenType.SLASH):
+            a = left.data
+            if op.operator in (TokenType.PLUS, TokenType.MINUS):
+                sign = 1 if op.operator == TokenType.PLUS else -1
+                xyz = [a[i] + sign * right.data[i] for i in range(3)]
+            elif op.operator == TokenType.STAR:
+                xyz = [a[i] * right.data for i in range(3)]
+            else:
+                xyz = [a[i] / right.data for i in range(3)]
+            return Value(xyz + [a[3]], common_type(left.type, right.type) or left.type)
+
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
             if left.type == STRING or right.type == STRING:
@@ -694,6 +707,9 @@ class Interpreter:
         if op.operator == TokenType.MINUS:
             if operand.type == INT:
                 return int_val(-operand.data)
+            if isinstance(operand.type, GeometricPrimitiveType):
+                return Value([-c for c in operand.data[:3]] + [operand.data[3]],
+                             operand.type)
             return float_val(-operand.data)
         elif op.operator == TokenType.NOT:
             return bool_val(not operand.is_truthy())
-- 
2.43.0


From a899f1de3473f823ea4b2e3bc21ca55184f758f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:55 +0000
Subject: [PATCH 174/176] fix: the checker rejects arithmetic on transforms and
 between vectors and numbers

---
 src/yapcad/dsl/checker.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index e71e5b0..a13afde 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -676,10 +676,12 @@ class TypeChecker:
                 if left_type == FLOAT or right_type == FLOAT or op == TokenType.SLASH:
                     return FLOAT
                 return INT
-            # Vector/point arithmetic
-            if isinstance(left_type, GeometricPrimitiveType) and is_numeric(right_type):
-                return left_type  # scalar multiplication
-            if isinstance(left_type, GeometricPrimitiveType) and isinstance(right_type, GeometricPrimitiveType):
+            # Vector/point arithmetic (transforms have none)
+            if isinstance(left_type, GeometricPrimitiveType) and left_type != TRANSFORM and is_numeric(right_type):
+                if op in (TokenType.STAR, TokenType.SLASH):
+                    return left_type  # scalar multiplication
+            if (isinstance(left_type, GeometricPrimitiveType) and left_type != TRANSFORM
+                    and isinstance(right_type, GeometricPrimitiveType) and right_type != TRANSFORM):
                 if op in (TokenType.PLUS, TokenType.MINUS):
                     return common_type(left_type, right_type) or left_type
 
@@ -751,7 +753,7 @@ class TypeChecker:
         if expr.operator == TokenType.MINUS:
             if is_numeric(operand_type):
                 return operand_type
-            if isinstance(operand_type, GeometricPrimitiveType):
+            if isinstance(operand_type, GeometricPrimitiveType) and operand_type != TRANSFORM:
                 return operand_type  # Negating vectors/points
             if operand_type != ERROR:
                 self._error(
-- 
2.43.0


From 75bb9e8e21df41174dfcfd531fa12e17f5eaed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:35 +0000
Subject: [PATCH 175/176] fix: trimesh booleans of solids with voids keep the
 voids

---
 src/yapcad/boolean/trimesh_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/boolean/trimesh_engine.py b/src/yapcad/boolean/trimesh_engine.py
index 9d19827..8501129 100644
--- a/src/yapcad/boolean/trimesh_engine.py
+++ b/src/yapcad/boolean/trimesh_engine.py
@@ -76,7 +76,8 @@ def _solid_to_mesh(sld) -> "trimesh.Trimesh":
         mesh.update_faces(mesh.unique_faces())
         mesh.update_faces(mesh.nondegenerate_faces())
     try:
-        mesh.fix_normals()
+        # shells around voids are wound inwards and stay so
+        mesh.fix_normals(multibody=False)
     except Exception:
         pass
     return mesh
-- 
2.43.0


From 2a83899edbd36ebfd660d806b598afc94b8afc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:11 +0000
Subject: [PATCH 176/176] fix: a meeting at the crossing of a polyline with its
 own extension keeps the parameter of the polyline

---
 src/yapcad/geom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index be73195..cdce74b 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3360,14 +3360,17 @@ def _intersectCompoundXY(g1,g2,inside=True,params=False):
                     if u is None or v is None:
                         continue
                     p = sample(a,u)
+                    within = 0.0 <= u <= 1.0 and 0.0 <= v <= 1.0
                     ## an intersection at the joint of two pieces is
-                    ## found on both of them
+                    ## found on both of them (and not one on the
+                    ## figure itself and one on its extension)
                     if any(vclose(p,f[0]) and (i,j) != (f[1],f[2])
+                           and (not params or within == f[5])
                            and neighbors(i,f[1],last1)
                            and neighbors(j,f[2],last2) for f in found):
                         continue
                     found.append([p,i,j,(u*l1+dst1)/leng1,
-                                  (v*l2+dst2)/leng2])
+                                  (v*l2+dst2)/leng2,within])
             dst2 += l2
         dst1 += l1
 
-- 
2.43.0

