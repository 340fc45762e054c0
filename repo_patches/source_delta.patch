From 59f3718a18b2a11f41092e89f4611e6c00562a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 01/50] fix: break and continue only run finally blocks inside
 the loop

---
 src/nagini_translation/translators/statement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 1e5bdc5..13709ca 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1783,6 +1783,9 @@ class StatementTranslator(CommonTranslator):
 
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            node)
+        # Only blocks inside the loop are left by jumping to its end.
+        tries = [t for t in tries
+                 if get_parent_of_type(t.node, (ast.While, ast.For)) is loop]
         for try_block in tries:
             if try_block.finally_block or try_block.with_item:
                 lhs = try_block.get_finally_var(self.translator).ref()
@@ -1817,6 +1820,9 @@ class StatementTranslator(CommonTranslator):
 
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            node)
+        # Only blocks inside the loop are left by jumping to its end.
+        tries = [t for t in tries
+                 if get_parent_of_type(t.node, (ast.While, ast.For)) is loop]
         for try_block in tries:
             if try_block.finally_block or try_block.with_item:
                 lhs = try_block.get_finally_var(self.translator).ref()
-- 
2.43.0


From 9d67e11fe1edd7fa04ecc8b709aacec0eb597efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 02/50] fix: keep result and error variables intact across
 loops

---
 src/nagini_translation/translators/method.py    | 16 ++++++++++++++--
 src/nagini_translation/translators/statement.py | 10 +++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 3fc91ec..660b79c 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -675,8 +675,20 @@ class MethodTranslator(CommonTranslator):
         loop = get_parent_of_type(block.node, (ast.While, ast.For))
         body = [label]
         if block.finally_block:
-            for stmt in block.finally_block:
-                body += self.translate_stmt(stmt, ctx)
+            stmts = flatten([self.translate_stmt(stmt, ctx)
+                             for stmt in block.finally_block])
+            if ctx.actual_function.type and any(isinstance(n, (ast.While, ast.For))
+                                                for stmt in block.finally_block
+                                                for n in ast.walk(stmt)):
+                # Loops reset the result variable, which may already contain the
+                # value to be returned after the finally-block.
+                old_res = ctx.current_function.create_variable(
+                    'finally_res', ctx.actual_function.type, self.translator)
+                body.append(self.viper.LocalVarAssign(old_res.ref(), ctx.result_var.ref(),
+                                                      self.no_position(ctx), info))
+                stmts.append(self.viper.LocalVarAssign(ctx.result_var.ref(), old_res.ref(),
+                                                       self.no_position(ctx), info))
+            body += stmts
         else:
             # With-block
             ctx_type = self.get_type(block.with_item.context_expr, ctx)
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 13709ca..4bd23c0 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -856,7 +856,8 @@ class StatementTranslator(CommonTranslator):
             with ctx.additional_aliases(aliases):
                 invariant.append(self.translate_contract(expr, ctx))
         ctx.allow_statements = True
-        body = flatten(
+        body = [] if ctx.sif else self._set_result_none(ctx)
+        body += flatten(
             [self.translate_stmt(stmt, ctx) for stmt in node.body[start:end]])
         # Label for continue to jump to
         body.append(self.viper.Label(end_label, position, info))
@@ -1687,7 +1688,10 @@ class StatementTranslator(CommonTranslator):
 
     def _translate_while_body(self, node: ast.While, ctx: Context, end_label: str) -> List[Stmt]:
         start, end = get_body_indices(node.body)
-        body = flatten(
+        # The loop may have havocked the result variables, a return in the body does
+        # not set all of them.
+        body = self._set_result_none(ctx)
+        body += flatten(
             [self.translate_stmt(stmt, ctx) for stmt in node.body[start:end]])
         body.append(self.viper.Label(end_label, self.to_position(node, ctx),
                                      self.no_info(ctx)))
@@ -1739,7 +1743,7 @@ class StatementTranslator(CommonTranslator):
                     i += 1
                 loop[i] = self.viper.SIFWhileElse(loop[i], translated_block)
             else:
-                loop += translated_block
+                loop += self._set_result_none(ctx) + translated_block
         loop += self._while_postamble(node, post_label, ctx)
         return loop
 
-- 
2.43.0


From 24eb80332ffbdab1386271cf2c593a14c49cd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 03/50] fix: __exit__ may return None, suppresses exceptions,
 gets None on break

---
 src/nagini_translation/translators/method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 660b79c..bc23d2d 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -631,10 +631,10 @@ class MethodTranslator(CommonTranslator):
         """
         info = self.no_info(ctx)
         null = self.viper.NullLit(pos, info)
-        one = self.viper.IntLit(1, pos, info)
+        two = self.viper.IntLit(2, pos, info)
         code_var = block.get_finally_var(self.translator)
         # This condition would show up as a branch condition if it had a position; we hide it.
-        error_cond = self.viper.GtCmp(code_var.ref(), one, self.no_position(ctx), info)
+        error_cond = self.viper.EqCmp(code_var.ref(), two, self.no_position(ctx), info)
         error_case = []
         no_error_case = []
         # FIXME: Cannot currently assign None to type variable, because types
@@ -718,7 +718,7 @@ class MethodTranslator(CommonTranslator):
                                               value_var.ref(),
                                               traceback_var.ref()],
                                              [ctx_type, None, None, None],
-                                             [exit_res.ref()],
+                                             exit_targets,
                                              block.with_item.context_expr, ctx)
             body.extend(exit_call)
         finally_var = block.get_finally_var(self.translator)
@@ -739,7 +739,7 @@ class MethodTranslator(CommonTranslator):
         except_block = []
         return_block = []
         for current in tries:
-            if not return_block and current.finally_block:
+            if not return_block and (current.finally_block or current.with_item):
                 # Propagate finally var value
                 var_next = current.get_finally_var(self.translator)
                 if var_next.sil_name in ctx.var_aliases:
-- 
2.43.0


From 03b39fdb3eb7ede48ccd3c5474d1f5020cadc580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 04/50] fix: finally blocks and __exit__ run when leaving
 handlers, else blocks and nested blocks

---
 src/nagini_translation/lib/util.py            | 22 +++++++++--
 src/nagini_translation/translators/common.py  | 15 ++++++-
 .../translators/expression.py                 | 18 ++++++---
 src/nagini_translation/translators/method.py  | 39 ++++++++++++++++---
 4 files changed, 79 insertions(+), 15 deletions(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index d13a0fd..da4d363 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -156,19 +156,35 @@ def contains_stmt(container: Any, contained: ast.AST) -> bool:
         return False
 
 
+def is_in_protected_region(block: 'PythonTryBlock', stmt: ast.AST) -> bool:
+    """
+    Checks if exceptions raised by stmt can be caught by the handlers of block.
+    """
+    return contains_stmt(block.protected_region, stmt)
+
+
 def get_surrounding_try_blocks(try_blocks: List['PythonTryBlock'],
                                stmt: ast.AST) -> List['PythonTryBlock']:
     """
-    Finds the try blocks in try_blocks that protect the statement stmt.
+    Finds the try blocks in try_blocks that protect the statement stmt, ordered
+    from the innermost to the outermost. A statement in a handler or the
+    else-block of a try statement is protected by its finally-block, though not
+    by its handlers (see is_in_protected_region).
     """
+    def protects(b: 'PythonTryBlock', s: ast.AST) -> bool:
+        if is_in_protected_region(b, s):
+            return True
+        return (bool(b.finally_block) and
+                contains_stmt(b.node.handlers + b.node.orelse, s))
+
     def rank(b: 'PythonTryBlock', blocks: List['PythonTryBlock']) -> int:
         result = 0
         for b2 in blocks:
-            if contains_stmt(b2.protected_region, b.node):
+            if protects(b2, b.node):
                 result += 1
         return -result
     tb = try_blocks
-    blocks = [b for b in tb if contains_stmt(b.protected_region, stmt)]
+    blocks = [b for b in tb if protects(b, stmt)]
     inner_to_outer = sorted(blocks,key=lambda b: rank(b, blocks))
     return inner_to_outer
 
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 6590366..0536084 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -864,6 +864,19 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                 ctx.module.global_module.classes['Exception'], self.translator)
             return new_var.ref()
 
+    def _propagate_error(self, var: Expr, block: 'PythonTryBlock',
+                         ctx: Context) -> List[Stmt]:
+        """
+        Assigns the exception in var, which was raised in a block nested in the
+        given one, to the error variable of the given block.
+        """
+        block_var = block.get_error_var(self.translator)
+        if block_var.sil_name in ctx.var_aliases:
+            block_var = ctx.var_aliases[block_var.sil_name]
+        return [self.viper.LocalVarAssign(block_var.ref(), var,
+                                          self.no_position(ctx),
+                                          self.no_info(ctx))]
+
     def var_type_check(self, name: str, type: PythonType,
                        position: 'silver.ast.Position',
                        ctx: Context, inhale_exhale: bool=True) -> Expr:
@@ -910,7 +923,7 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                     stmts += self.translate_handler(handler, ctx)
                 if block.else_block:
                     stmts += self.translate_handler(block.else_block, ctx)
-                if block.finally_block:
+                if block.finally_block or block.with_item:
                     stmts += self.translate_finally(block, ctx)
             ctx.inlined_calls.remove(added_method)
         ctx.added_handlers = []
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 2c4779f..4b63b4d 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -60,6 +60,7 @@ from nagini_translation.lib.util import (
     construct_lambda_prefix,
     get_func_name,
     get_surrounding_try_blocks,
+    is_in_protected_region,
     InvalidProgramException,
     isBytes,
     isEllipsis,
@@ -811,7 +812,7 @@ class ExpressionTranslator(CommonTranslator):
         position = self.to_position(call, ctx)
         err_var = ctx.error_var.ref()
         relevant_try_blocks = get_surrounding_try_blocks(try_blocks, call)
-        goto_finally = self._create_goto_finally(relevant_try_blocks, ctx)
+        goto_finally = self._create_goto_finally(relevant_try_blocks, var, ctx)
         if goto_finally:
             uncaught_option = goto_finally
         else:
@@ -835,7 +836,8 @@ class ExpressionTranslator(CommonTranslator):
                                                        self.no_info(ctx))
 
         for block in relevant_try_blocks:
-            for handler in block.handlers:
+            handlers = block.handlers if is_in_protected_region(block, call) else []
+            for handler in handlers:
                 condition_pos = self.to_position(handler.node, ctx,
                                                  error_string='isinstance(RaisedException(), {0})'.format(handler.exception.name))
                 condition = self.type_check(var, handler.exception,
@@ -845,8 +847,12 @@ class ExpressionTranslator(CommonTranslator):
                 goto = self.viper.Goto(label_name,
                                        self.to_position(handler.node, ctx),
                                        self.no_info(ctx))
+                if block is not relevant_try_blocks[0]:
+                    goto = self.translate_block(
+                        self._propagate_error(var, block, ctx) + [goto],
+                        self.no_position(ctx), self.no_info(ctx))
                 cases.insert(0, (condition, goto))
-            if block.finally_block:
+            if block.finally_block or block.with_item:
                 break
 
         result = None
@@ -876,11 +882,11 @@ class ExpressionTranslator(CommonTranslator):
                                  self.no_info(ctx))
         return [errcheck]
 
-    def _create_goto_finally(self, tries: List[PythonTryBlock],
+    def _create_goto_finally(self, tries: List[PythonTryBlock], var: Expr,
                              ctx: Context) -> Optional[Stmt]:
         """
         If any of the blocks in tries has a finally-block, creates and
-        returns the statements to jump there.
+        returns the statements to jump there with the exception in var.
         """
         for try_ in tries:
             if try_.finally_block or try_.with_item:
@@ -900,6 +906,8 @@ class ExpressionTranslator(CommonTranslator):
                                             self.no_position(ctx),
                                             self.no_info(ctx))
                 return_block = [next_assign, goto_next]
+                if try_ is not tries[0]:
+                    return_block = self._propagate_error(var, try_, ctx) + return_block
                 result = self.translate_block(return_block,
                                               self.no_position(ctx),
                                               self.no_info(ctx))
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index bc23d2d..d5805bf 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -41,6 +41,7 @@ from nagini_translation.lib.util import (
     get_body_indices,
     get_parent_of_type,
     get_surrounding_try_blocks,
+    is_in_protected_region,
     InvalidProgramException,
     isEllipsis,
     UnsupportedException
@@ -694,9 +695,12 @@ class MethodTranslator(CommonTranslator):
             ctx_type = self.get_type(block.with_item.context_expr, ctx)
             ctx_var = block.with_var
             exit_type = ctx_type.get_method('__exit__').type
-            exit_res = ctx.current_function.create_variable('exit_res',
-                                                            exit_type,
-                                                            self.translator)
+            exit_targets = []
+            if exit_type:
+                exit_res = ctx.current_function.create_variable('exit_res',
+                                                                exit_type,
+                                                                self.translator)
+                exit_targets.append(exit_res.ref())
 
             type_class = ctx.module.global_module.classes['type']
             exception_class = ctx.module.global_module.classes['Exception']
@@ -724,6 +728,21 @@ class MethodTranslator(CommonTranslator):
         finally_var = block.get_finally_var(self.translator)
         if finally_var.sil_name in ctx.var_aliases:
             finally_var = ctx.var_aliases[finally_var.sil_name]
+        if block.with_item and exit_type:
+            # A true result of __exit__ suppresses the exception.
+            no_pos = self.no_position(ctx)
+            raised = self.viper.EqCmp(finally_var.ref(),
+                                      self.viper.IntLit(2, no_pos, info), no_pos, info)
+            exit_true = self.get_function_call(exit_type, '__bool__', [exit_res.ref()],
+                                               [None], block.node, ctx, no_pos)
+            exit_true = self.to_bool(exit_true, ctx)
+            no_error = self.viper.LocalVarAssign(finally_var.ref(),
+                                                 self.viper.IntLit(0, no_pos, info),
+                                                 no_pos, info)
+            body.append(self.viper.If(self.viper.And(raised, exit_true, no_pos, info),
+                                      self.translate_block([no_error], no_pos, info),
+                                      self.translate_block([], no_pos, info),
+                                      no_pos, info))
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            block.node)
         tries_in_same_loop = []
@@ -751,7 +770,9 @@ class MethodTranslator(CommonTranslator):
                 next_label = ctx.get_label_name(current.finally_name)
                 goto_next = self.viper.Goto(next_label, pos, info)
                 return_block = [next_assign, goto_next]
-            for handler in current.handlers:
+            handlers = (current.handlers
+                        if is_in_protected_region(current, block.node) else [])
+            for handler in handlers:
                 # If handler applies,
                 # goto handler
                 err_var = block.get_error_var(self.translator)
@@ -765,17 +786,23 @@ class MethodTranslator(CommonTranslator):
                                                 ctx, inhale_exhale=False)
                 label_name = ctx.get_label_name(handler.name)
                 goto = self.viper.Goto(label_name, pos, info)
+                goto = self.translate_block(
+                    self._propagate_error(err_var.ref(), current, ctx) + [goto], pos, info)
                 if_handler = self.viper.If(condition, goto, empty_stmt, pos,
                                            info)
                 except_block.append(if_handler)
-            if current.finally_block:
+            if current.finally_block or current.with_item:
                 # Propagate finally var value
                 # Goto finally block
+                err_var = block.get_error_var(self.translator)
+                if err_var.sil_name in ctx.var_aliases:
+                    err_var = ctx.var_aliases[err_var.sil_name]
+                except_block += self._propagate_error(err_var.ref(), current, ctx)
                 except_block += return_block
                 break
         break_block = []
         for current in tries_in_same_loop:
-            if not break_block and current.finally_block:
+            if not break_block and (current.finally_block or current.with_item):
                 # Propagate finally var value
                 var_next = current.get_finally_var(self.translator)
                 if var_next.sil_name in ctx.var_aliases:
-- 
2.43.0


From e38456524f915d3c0ec31a2e9f06fca528774b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 05/50] fix: floor division and modulo by negative divisors
 round like Python

---
 src/nagini_translation/resources/bool.sil | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index bd4737b..f488d22 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -425,7 +425,7 @@ function int___floordiv__(self: Int, other: Int): Int
     decreases _
     requires @error("Divisor may be zero.")(other != 0)
 {
-    self \ other
+    other > 0 ? self \ other : (-self) \ (-other)
 }
 
 function int___truediv__(self: Int, other: Int): Ref
@@ -438,7 +438,7 @@ function int___mod__(self: Int, other: Int): Int
     decreases _
     requires other != 0
 {
-    self % other
+    other > 0 ? self % other : -((-self) % (-other))
 }
 
 function int___pos__(self: Ref): Ref
-- 
2.43.0


From a759d29d597e0b2db304550dfb80914c6ce66eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 06/50] fix: bit operations and shifts have the sign and size
 Python gives them

---
 src/nagini_translation/main.py             |  3 ++-
 src/nagini_translation/resources/bool.sil  | 23 +++++++++++++---------
 src/nagini_translation/resources/intbv.sil |  9 ++++++++-
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f4b46ad..de20d63 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -79,7 +79,8 @@ def parse_sil_file(sil_path: str, bv_path: str, bv_size: int, jvm, float_option:
     with open(bv_path, 'r') as file:
         int_min = -(2 ** (bv_size))
         int_max = 2 ** (bv_size) - 1
-        text += "\n" + file.read().replace("NBITS", str(bv_size)).replace("INT_MIN_VAL", str(int_min)).replace("INT_MAX_VAL", str(int_max))
+        # The operands range from int_min to int_max, i.e., they need an additional bit for the sign.
+        text += "\n" + file.read().replace("NBITS", str(bv_size + 1)).replace("INT_MIN_VAL", str(int_min)).replace("INT_MAX_VAL", str(int_max))
     if float_option == "real":
         text = text.replace("float.sil", "float_real.sil")
     if float_option == "ieee32":
diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index f488d22..32fc291 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -51,7 +51,7 @@ function int___and__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) && bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(andBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(fromSignedBVInt(andBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
 
 function int___rand__(self: Ref, other: Ref): Ref
     decreases _
@@ -78,7 +78,7 @@ function int___or__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) || bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(orBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(fromSignedBVInt(orBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
 
 function int___ror__(self: Ref, other: Ref): Ref
     decreases _
@@ -105,7 +105,7 @@ function int___xor__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) != bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(xorBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(fromSignedBVInt(xorBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
 
 function int___rxor__(self: Ref, other: Ref): Ref
     decreases _
@@ -152,6 +152,15 @@ function __shift_factor64(amount: Int): Int
                    __shift_factor32(amount - 32) * __shift_factor32(32)
 }
 
+function __shift_factor(amount: Int): Int
+    decreases _
+    requires 0 <= amount
+    ensures result > 0
+{
+    amount <= 64 ? __shift_factor64(amount) :
+                   __shift_factor64(64) * __shift_factor(amount - 64)
+}
+
 function __prim__int___lshift__(self: Int, other: Int): Int
     decreases _
     requires @error("Bitwise operations on ints can only be performed in the range set by the --int-bitops-size setting (default: 8 bits).")(other <= 64 || self >= _INT_MIN)
@@ -159,9 +168,7 @@ function __prim__int___lshift__(self: Int, other: Int): Int
     requires @error("Negative shift count.")(other >= 0)
     requires @error("Bitwise operations on ints can only be performed in the range set by the --int-bitops-size setting (default: 8 bits).")(other <= _INT_MAX)
 {
-    0 <= other <= 64 ? self * __shift_factor64(other) :
-    self >= 0 ? fromBVInt(shlBVInt(toBVInt(self), toBVInt(other))) :
-    -fromBVInt(shlBVInt(toBVInt(-self), toBVInt(other))) 
+    self * __shift_factor(other)
 }
 
 function __prim__int___rlshift__(self: Int, other: Int): Int
@@ -207,9 +214,7 @@ function __prim__int___rshift__(self: Int, other: Int): Int
     requires @error("Bitwise operations on ints can only be performed in the range set by the --int-bitops-size setting (default: 8 bits).")(other <= _INT_MAX)
 {
     
-    0 <= other <= 64 ? self / __shift_factor64(other) :
-    self >= 0 ? fromBVInt(shrBVInt(toBVInt(self), toBVInt(other))) :
-    -fromBVInt(shrBVInt(toBVInt(-self), toBVInt(other)))
+    self / __shift_factor(other)
 }
 
 function __prim__int___rrshift__(self: Int, other: Int): Int
diff --git a/src/nagini_translation/resources/intbv.sil b/src/nagini_translation/resources/intbv.sil
index bcf626b..b8d8c9a 100644
--- a/src/nagini_translation/resources/intbv.sil
+++ b/src/nagini_translation/resources/intbv.sil
@@ -20,4 +20,11 @@ domain ___intbv interpretation (SMTLIB: "(_ BitVec NBITS)", Boogie: "bvNBITS") {
   function shlBVInt(___intbv, ___intbv): ___intbv interpretation "bvshl"
   function shrBVInt(___intbv, ___intbv): ___intbv interpretation "bvlshr"
   function notBVInt(___intbv): ___intbv interpretation "bvnot"
-}
\ No newline at end of file
+}
+
+// Values are represented in two's complement, i.e., the upper half of the bit vectors are the negative numbers.
+function fromSignedBVInt(v: ___intbv): Int
+    decreases _
+{
+    fromBVInt(v) > _INT_MAX ? fromBVInt(v) - 2 * (_INT_MAX + 1) : fromBVInt(v)
+}
-- 
2.43.0


From 2de2bef043840f909e71eb81e5aed233cc9af44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 07/50] fix: evaluate the right-hand side of tuple and chained
 assignments once

---
 src/nagini_translation/translators/statement.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 4bd23c0..17eee4f 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1655,6 +1655,14 @@ class StatementTranslator(CommonTranslator):
         rhs_type = self.get_type(node.value, ctx)
         rhs_stmt, rhs = self.translate_expr(node.value, ctx)
         assign_stmts = []
+        if len(node.targets) > 1 or isinstance(node.targets[0], ast.Tuple):
+            # The value is used several times, and evaluating it again after a part
+            # of the assignment has been performed could change it.
+            value_var = ctx.current_function.create_variable('assign_val', rhs_type,
+                                                             self.translator)
+            rhs_stmt = rhs_stmt + [self.viper.LocalVarAssign(
+                value_var.ref(), rhs, self.to_position(node, ctx), self.no_info(ctx))]
+            rhs = value_var.ref()
         for target in node.targets:
             target_stmt, _ = self.assign_to(target, rhs, None, None, rhs_type,
                                             node, ctx, allow_impure=True)
-- 
2.43.0


From 868a4cc07f064047dc5343c31466075a2978abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 08/50] fix: calls in operands of unary operators and type
 comparisons are executed

---
 src/nagini_translation/translators/expression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 4b63b4d..18fef0e 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1216,7 +1216,8 @@ class ExpressionTranslator(CommonTranslator):
         else:
             raise UnsupportedException(node, f"Unsupported unary operator {node.op}")
 
-        return self.get_func_or_method_call(operand_type, func_name, [expr], [operand_type], node, ctx)
+        call_stmt, call = self.get_func_or_method_call(operand_type, func_name, [expr], [operand_type], node, ctx)
+        return stmt + call_stmt, call
 
     def translate_IfExp(self, node: ast.IfExp, ctx: Context,
                         impure=False) -> StmtsAndExpr:
@@ -1396,7 +1397,7 @@ class ExpressionTranslator(CommonTranslator):
         else:
             func = self.viper.NeCmp
         comp = func(type_literal, call, pos, info)
-        return [], comp
+        return call_stmt, comp
 
     def translate_thread_method_definition(self, node: ast.Compare,
                                            ctx: Context) -> StmtsAndExpr:
-- 
2.43.0


From ff14a257f43a0a2921e1cddd72dd5216dfca8aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 09/50] fix: assignment targets after a starred target and
 subscripts in tuple targets

---
 src/nagini_translation/translators/statement.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 17eee4f..1ce4061 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1500,11 +1500,7 @@ class StatementTranslator(CommonTranslator):
                                                                           List[Expr]]:
         # Special treatment for subscript; instead of an assignment, we
         # need to call a setitem method.
-        if isinstance(node, ast.Assign):
-            target = node.targets[0]
-        elif isinstance(node, (ast.AnnAssign, ast.AugAssign)):
-            target = node.target
-        if isinstance(target.slice, ast.Slice):
+        if isinstance(lhs.slice, ast.Slice):
             raise UnsupportedException(node, 'assignment to slice')
         position = self.to_position(node, ctx)
         target_cls = self.get_type(lhs.value, ctx)
@@ -1557,6 +1553,9 @@ class StatementTranslator(CommonTranslator):
                                                   [rhs], [None], node, ctx)
                 next_expr = self.viper.Add(len_expr, next_expr, position,
                                            info)
+            if has_starred_receiver and not isinstance(e, ast.Starred):
+                # Receivers after a starred expression get the last elements.
+                index -= len(lhs.elts)
             stmt, val = self.assign_to(e, rhs, index, next_expr,
                                        rhs_type, node, ctx)
             stmt_result += stmt
-- 
2.43.0


From 64f51655652a533d773b04f2e251a460e5663a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 10/50] fix: evaluate operands and arguments in order, and
 those of chained comparisons only if needed

---
 src/nagini_translation/translators/call.py    | 17 +++--
 src/nagini_translation/translators/common.py  | 35 +++++++++
 .../translators/expression.py                 | 71 +++++++++++++++----
 .../translators/statement.py                  | 16 +++++
 4 files changed, 121 insertions(+), 18 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 82c6598..1e6f7f7 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -878,7 +878,8 @@ class CallTranslator(CommonTranslator):
                 # into unpacked_args.
                 arg_stmt, arg_expr = self.translate_expr(arg.value, ctx)
                 arg_type = self.get_type(arg.value, ctx)
-                arg_stmts += arg_stmt
+                if arg_stmt:
+                    arg_stmts += self.save_values(unpacked_args, ctx) + arg_stmt
 
                 if (isinstance(arg_type, GenericType) and
                             arg_type.name == TUPLE_TYPE):
@@ -901,7 +902,8 @@ class CallTranslator(CommonTranslator):
             else:
                 arg_stmt, arg_expr = self.translate_expr(arg, ctx)
                 arg_type = self.get_type(arg, ctx)
-                arg_stmts += arg_stmt
+                if arg_stmt:
+                    arg_stmts += self.save_values(unpacked_args, ctx) + arg_stmt
                 unpacked_args.append(arg_expr)
                 unpacked_arg_types.append(arg_type)
 
@@ -950,7 +952,9 @@ class CallTranslator(CommonTranslator):
                 index = keys.index(kw.arg)
                 arg_stmt, arg_expr = self.translate_expr(kw.value, ctx)
                 arg_type = self.get_type(kw.value, ctx)
-                arg_stmts += arg_stmt
+                if arg_stmt:
+                    arg_stmts += self.save_values(args, ctx)
+                    arg_stmts += self.save_values(var_args, ctx) + arg_stmt
                 args[index] = arg_expr
                 arg_types[index] = arg_type
             else:
@@ -980,6 +984,8 @@ class CallTranslator(CommonTranslator):
         if target.kw_arg:
             kw_stmt, kw_arg_dict = self._wrap_kw_args(kw_args, node,
                                                       target.kw_arg.type, ctx)
+            if kw_args:
+                arg_stmts += self.save_values(args, ctx)
             args.append(kw_arg_dict)
             arg_types.append(target.kw_arg.type)
             arg_stmts += kw_stmt
@@ -1323,6 +1329,8 @@ class CallTranslator(CommonTranslator):
                 is_predicate = target.predicate
                 receiver_class = target.cls
                 if target.method_type != MethodType.static_method:
+                    if arg_stmts:
+                        recv_stmts = recv_stmts + self.save_values(recv_exprs, ctx)
                     arg_stmts = recv_stmts + arg_stmts
                     args = recv_exprs + args
                     arg_types = recv_types + arg_types
@@ -1791,7 +1799,8 @@ class CallTranslator(CommonTranslator):
         arg_stmts = []
         for arg in node.args:
             arg_stmt, arg_val = self.translate_expr(arg, ctx)
-            arg_stmts += arg_stmt
+            if arg_stmt:
+                arg_stmts += self.save_values(args, ctx) + arg_stmt
             args.append(arg_val)
         res_var = ctx.current_function.create_variable(target_class.name +
                                                        '_res',
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 0536084..e21a34a 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -113,6 +113,41 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
             return self._is_pure(e.left()) and self._is_pure(e.right())
         return e.isPure()
 
+    def save_values(self, values: List[Expr], ctx: Context) -> List[Stmt]:
+        """
+        Stores the given values of already evaluated operands in temporary variables
+        (and replaces them by those variables in the list) where statements which are
+        subsequently executed for the remaining operands might change them. Returns the
+        statements to do so.
+        """
+        classes = {self.viper.Ref: OBJECT_TYPE, self.viper.Int: PRIMITIVE_INT_TYPE,
+                   self.viper.Bool: PRIMITIVE_BOOL_TYPE}
+        stmts = []
+        for i, value in enumerate(values):
+            if not value or self._is_unaffected(value) or not self._is_pure(value):
+                continue
+            for typ, class_name in classes.items():
+                if value.typ() == typ:
+                    var = ctx.current_function.create_variable(
+                        'operand', ctx.module.global_module.classes[class_name],
+                        self.translator)
+                    stmts.append(self.viper.LocalVarAssign(var.ref(), value, value.pos(),
+                                                           self.no_info(ctx)))
+                    values[i] = var.ref()
+                    break
+        return stmts
+
+    def _is_unaffected(self, e: Expr) -> bool:
+        """
+        Checks if the value of the given expression is the same in all states.
+        """
+        ast_nodes = self.viper.ast
+        if isinstance(e, ast_nodes.FuncApp):
+            return (e.funcname() in ('__prim__int___box__', '__prim__bool___box__') and
+                    self._is_unaffected(e.args().head()))
+        return isinstance(e, (ast_nodes.LocalVar, ast_nodes.IntLit, ast_nodes.TrueLit,
+                              ast_nodes.FalseLit, ast_nodes.NullLit))
+
     def to_type(self, e: Expr, t, ctx) -> Expr:
         if t == self.viper.Ref:
             return self.to_ref(e, ctx)
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 18fef0e..c3e9bba 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -565,6 +565,10 @@ class ExpressionTranslator(CommonTranslator):
             key_type = self.get_type(key, ctx)
             val_stmt, val_val = self.translate_expr(val, ctx)
             val_type = self.get_type(val, ctx)
+            if val_stmt:
+                saved = [key_val]
+                key_stmt = key_stmt + self.save_values(saved, ctx)
+                key_val = saved[0]
             args = [res_var.ref(), key_val, val_val]
             arg_types = [None, key_type, val_type]
             append_call = self.get_method_call(dict_class, '__setitem__', args,
@@ -593,7 +597,9 @@ class ExpressionTranslator(CommonTranslator):
             el_stmt, el = self.translate_expr(element, ctx)
             check = self.viper.Assert(self.type_check(el, content_type, assert_pos, ctx,
                                                       False), assert_pos, info)
-            stmt += el_stmt + [check]
+            if el_stmt:
+                stmt += self.save_values(elements, ctx) + el_stmt
+            stmt.append(check)
             elements.append(el)
         result = res_var.ref(node, ctx)
         if elements:
@@ -625,7 +631,9 @@ class ExpressionTranslator(CommonTranslator):
             el_stmt, el = self.translate_expr(element, ctx)
             check = self.viper.Assert(self.type_check(el, content_type, assert_pos, ctx,
                                                       False), assert_pos, info)
-            stmt += el_stmt + [check]
+            if el_stmt:
+                stmt += self.save_values(elements, ctx) + el_stmt
+            stmt.append(check)
             elements.append(el)
 
         result = res_var.ref(node, ctx)
@@ -719,7 +727,8 @@ class ExpressionTranslator(CommonTranslator):
         val_types = []
         for el in node.elts:
             el_stmt, el_val = self.translate_expr(el, ctx)
-            stmts += el_stmt
+            if el_stmt:
+                stmts += self.save_values(vals, ctx) + el_stmt
             vals.append(el_val)
             val_types.append(self.get_type(el, ctx))
         call = self.create_tuple(vals, val_types, node, ctx)
@@ -758,6 +767,10 @@ class ExpressionTranslator(CommonTranslator):
 
         index_stmt, index = self.translate_expr(node.slice, ctx,
                                                 target_type=self.viper.Ref)
+        if index_stmt:
+            saved = [target]
+            target_stmt = target_stmt + self.save_values(saved, ctx)
+            target = saved[0]
         index_type = self.get_type(node.slice, ctx)
         args = [target, index]
         arg_types = [target_type, index_type]
@@ -1232,6 +1245,9 @@ class ExpressionTranslator(CommonTranslator):
                                                target_type=self._target_type,
                                                impure=impure)
         if then_stmt or else_stmt:
+            saved = [cond]
+            cond_stmt = cond_stmt + self.save_values(saved, ctx)
+            cond = saved[0]
             then_block = self.translate_block(then_stmt, position,
                                               info)
             else_block = self.translate_block(else_stmt, position,
@@ -1252,6 +1268,10 @@ class ExpressionTranslator(CommonTranslator):
     def translate_BinOp(self, node: ast.BinOp, ctx: Context) -> StmtsAndExpr:
         left_stmt, left = self.translate_expr(node.left, ctx)
         right_stmt, right = self.translate_expr(node.right, ctx)
+        if right_stmt:
+            saved = [left]
+            left_stmt = left_stmt + self.save_values(saved, ctx)
+            left = saved[0]
         stmt = left_stmt + right_stmt
         left_type = self.get_type(node.left, ctx)
         right_type = self.get_type(node.right, ctx)
@@ -1441,18 +1461,18 @@ class ExpressionTranslator(CommonTranslator):
         # combines the pairwise comparisons with a conjunction, matching Python
         # semantics (a < b < c is equivalent to a < b and b < c).
         operands = [node.left] + node.comparators
-        operand_exprs = []
-        operand_types = []
-        stmts = []
-        for operand in operands:
-            operand_stmt, operand_expr = self.translate_expr(operand, ctx)
-            stmts += operand_stmt
-            operand_exprs.append(operand_expr)
-            operand_types.append(self.get_type(operand, ctx))
+        stmts, left = self.translate_expr(node.left, ctx)
+        left_type = self.get_type(node.left, ctx)
         position = self.to_position(node, ctx)
         info = self.no_info(ctx)
         comparison = None
         for i, op in enumerate(node.ops):
+            right_stmts, right = self.translate_expr(operands[i + 1], ctx)
+            right_type = self.get_type(operands[i + 1], ctx)
+            if right_stmts:
+                saved = [left, comparison]
+                stmts = stmts + self.save_values(saved, ctx)
+                left, comparison = saved
             # Give every pairwise comparison its own source position, so that a
             # verification error (or reported branch condition) caused by a
             # single link of the chain points at exactly that link (e.g. ``b <
@@ -1460,11 +1480,19 @@ class ExpressionTranslator(CommonTranslator):
             # comparison the synthetic node coincides with the original one.
             pair_node = self._chained_comparison_pair(node, operands, op, i)
             cmp_stmts, cmp_expr = self._translate_comparison(
-                op, operand_exprs[i], operand_types[i],
-                operand_exprs[i + 1], operand_types[i + 1], pair_node, ctx)
-            stmts += cmp_stmts
+                op, left, left_type, right, right_type, pair_node, ctx)
+            pair_stmts = right_stmts + cmp_stmts
+            if comparison is not None and pair_stmts:
+                # Later operands are only evaluated if the comparison is true so far.
+                then_block = self.translate_block(pair_stmts, position, info)
+                else_block = self.translate_block([], position, info)
+                stmts = stmts + [self.viper.If(comparison, then_block, else_block,
+                                               position, info)]
+            else:
+                stmts = stmts + pair_stmts
             comparison = (cmp_expr if comparison is None
                           else self.viper.And(comparison, cmp_expr, position, info))
+            left, left_type = right, right_type
         return stmts, comparison
 
     def _chained_comparison_pair(self, node: ast.Compare, operands: List[ast.AST],
@@ -1641,6 +1669,21 @@ class ExpressionTranslator(CommonTranslator):
                 lambda left, right:
                 self.viper.Or(left, right, position, info))
 
+        for i in range(len(node.values)):
+            # Statements of later operands must not change the values of earlier ones.
+            if any(statements_parts[i + 1:]):
+                if all_pure and not all_bool:
+                    saved = [expression_parts[i]]
+                    save_stmts = self.save_values(saved, ctx)
+                    expression_parts[i] = saved[0]
+                    if save_stmts:
+                        bool_parts[i] = self.to_bool(saved[0], ctx, node.values[i])
+                else:
+                    saved = [bool_parts[i]]
+                    save_stmts = self.save_values(saved, ctx)
+                    bool_parts[i] = saved[0]
+                statements_parts[i] = statements_parts[i] + save_stmts
+
         joined_bool_parts = [
             join_expressions(operator, bool_parts[:i + 1])
             for i in range(len(bool_parts))
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 1ce4061..9a89652 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -450,6 +450,10 @@ class StatementTranslator(CommonTranslator):
         if left_stmt:
             raise InvalidProgramException(node, 'purity.violated')
         stmt, right = self.translate_expr(node.value, ctx)
+        if stmt:
+            saved = [left]
+            stmt = self.save_values(saved, ctx) + stmt
+            left = saved[0]
 
         inplace_func_name = INPLACE_OPERATOR_FUNCTIONS[type(node.op)]
         inplace_func = left_type.get_compatible_func_or_method(inplace_func_name, [left_type, right_type])
@@ -1431,6 +1435,10 @@ class StatementTranslator(CommonTranslator):
                                                        position, info, ctx)
                 return stmt + [chained_field_assign], None
         lhs_stmt, var = self.translate_expr(lhs, ctx)
+        if lhs_stmt:
+            saved = [rhs]
+            lhs_stmt = self.save_values(saved, ctx) + lhs_stmt
+            rhs = saved[0]
         before_assign = []
         after_assign = []
         if isinstance(target, PythonGlobalVar):
@@ -1507,6 +1515,14 @@ class StatementTranslator(CommonTranslator):
         lhs_stmt, target = self.translate_expr(lhs.value, ctx)
         ind_stmt, index = self.translate_expr(lhs.slice, ctx,
                                               target_type=self.viper.Int)
+        if ind_stmt:
+            saved = [target]
+            lhs_stmt = lhs_stmt + self.save_values(saved, ctx)
+            target = saved[0]
+        if lhs_stmt or ind_stmt:
+            saved = [rhs]
+            lhs_stmt = self.save_values(saved, ctx) + lhs_stmt
+            rhs = saved[0]
         args = [target, index, rhs]
         arg_types = [None, None, None]
         stmt = self.get_method_call(target_cls, '__setitem__', args,
-- 
2.43.0


From d822b8e49558a96ae7aead11ecdd8303ab06942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:24 +0000
Subject: [PATCH 11/50] fix: truth values of tuples, ranges, objects with a
 length, and values of type object

---
 src/nagini_translation/resources/bool.sil     |  6 ++++-
 .../resources/builtins.json                   |  4 +++
 src/nagini_translation/resources/range.sil    |  7 ++++++
 src/nagini_translation/resources/tuple.sil    |  5 ++++
 src/nagini_translation/translators/common.py  | 25 ++++++++++++++++++-
 5 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 32fc291..e89cf63 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -14,7 +14,11 @@ function object___bool__(self: Ref) : Bool
                                                            !issubtype(t, list(list_arg(t, 0))) &&
                                                            !issubtype(t, set(set_arg(t, 0))) &&
                                                            !issubtype(t, dict(dict_arg(t, 0), dict_arg(t, 1))) &&
-                                                           !issubtype(t, bytearray())) ==> result))
+                                                           !issubtype(t, bytearray()) &&
+                                                           !issubtype(t, str()) &&
+                                                           !issubtype(t, bytes()) &&
+                                                           !issubtype(t, range_0()) &&
+                                                           !issubtype(t, tuple(tuple_args(t)))) ==> result))
 
 function NoneType___bool__(self: Ref) : Bool
     decreases _
diff --git a/src/nagini_translation/resources/builtins.json b/src/nagini_translation/resources/builtins.json
index 670708f..a8c28b7 100644
--- a/src/nagini_translation/resources/builtins.json
+++ b/src/nagini_translation/resources/builtins.json
@@ -712,6 +712,10 @@
 },
 "tuple": {
     "functions": {
+        "__bool__": {
+            "args": ["tuple"],
+            "type": "__prim__bool"
+        },
         "__create0__": {
             "args": [],
             "type": "tuple"
diff --git a/src/nagini_translation/resources/range.sil b/src/nagini_translation/resources/range.sil
index 8089c6e..1eaaa9d 100644
--- a/src/nagini_translation/resources/range.sil
+++ b/src/nagini_translation/resources/range.sil
@@ -43,6 +43,13 @@ function range___len__(self: Ref): Int
   ensures result == |range___val__(self)|
 
 
+function range___bool__(self: Ref): Bool
+  decreases _
+  requires self != null ==> issubtype(typeof(self), range_0())
+  ensures self == null ==> !result
+  ensures self != null ==> result == (range___len__(self) != 0)
+
+
 function range___getitem__(self: Ref, index: Int): Int
   decreases _
   requires issubtype(typeof(self), range_0())
diff --git a/src/nagini_translation/resources/tuple.sil b/src/nagini_translation/resources/tuple.sil
index b6a646f..7dc3941 100644
--- a/src/nagini_translation/resources/tuple.sil
+++ b/src/nagini_translation/resources/tuple.sil
@@ -154,6 +154,11 @@ function tuple___len__(self: Ref): Int
     ensures result == |tuple_args(typeof(self))|
     ensures result == |tuple___val__(self)|
 
+function tuple___bool__(self: Ref): Bool
+    decreases _
+    ensures self == null ==> !result
+    ensures self != null ==> result == (tuple___len__(self) != 0)
+
 function tuple___getitem__(self: Ref, key: Int): Ref
     decreases _
     requires @error("Tuple index may be out of bounds.")(let ln == (tuple___len__(self)) in
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index e21a34a..e05e2f7 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -212,9 +212,21 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
             if node_type.name == 'bool':
                 call_bool = False
             if call_bool:
-                result = self.get_function_call(node_type, '__bool__',
+                func_name = '__bool__'
+                if self._has_length_as_truth_value(node_type):
+                    func_name = '__len__'
+                result = self.get_function_call(node_type, func_name,
                                                 [result], [None], node, ctx,
                                                 position=e.pos())
+                if func_name == '__len__':
+                    zero = self.viper.IntLit(0, e.pos(), self.no_info(ctx))
+                    result = self.viper.NeCmp(self.to_int(result, ctx), zero, e.pos(),
+                                              self.no_info(ctx))
+                    if isinstance(node_type, OptionalType):
+                        null = self.viper.NullLit(e.pos(), self.no_info(ctx))
+                        not_null = self.viper.NeCmp(e, null, e.pos(), self.no_info(ctx))
+                        result = self.viper.And(not_null, result, e.pos(),
+                                                self.no_info(ctx))
         if result.typ() != self.viper.Bool:
             bool_type = ctx.module.global_module.classes['bool']
             result = self.get_function_call(bool_type, '__unbox__',
@@ -222,6 +234,17 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                                             position=e.pos())
         return result
 
+    def _has_length_as_truth_value(self, typ: PythonType) -> bool:
+        """
+        Checks if objects of the given type are true iff their length is not zero, because
+        their class defines __len__ but not __bool__.
+        """
+        if type(typ) is UnionType:
+            return False
+        if typ.get_func_or_method('__bool__').cls.name != OBJECT_TYPE:
+            return False
+        return typ.get_func_or_method('__len__') is not None
+
     def to_int(self, e: Expr, ctx: Context,
               python_type: 'PythonType' = None) -> Expr:
         """
-- 
2.43.0


From 058ee5902a4e8756b9116f15bdfe92f3720bdea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:37 +0000
Subject: [PATCH 12/50] fix: augmented assignment with ** and unsupported
 operand types do not crash the translator

---
 src/nagini_translation/translators/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index c3e9bba..af71ec2 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1335,8 +1335,9 @@ class ExpressionTranslator(CommonTranslator):
         
         if left_type == right_type or isinstance(right_type, TypeVar):
             func_name = LEFT_OPERATOR_FUNCTIONS[type(node.op)]
+            exponent = node.value if isinstance(node, ast.AugAssign) else node.right
             if (isinstance(node.op, ast.Pow) and left_type.python_class.name == INT_TYPE and
-                    isinstance(node.right, ast.Constant) and isinstance(node.right.value, int)):
+                    isinstance(exponent, ast.Constant) and isinstance(exponent.value, int)):
                 func_name = "__pow_unrolled__"
             call_stmt, call = self.get_func_or_method_call(left_type, func_name, [left, right], [left_type, right_type], node, ctx)
             if call is None:
@@ -1361,6 +1362,7 @@ class ExpressionTranslator(CommonTranslator):
             if right_func:
                 call_stmt, call = self.get_func_or_method_call(right_type, right_func_name, [right, left], [right_type, left_type], node, ctx)
                 return stmt + call_stmt, call
+            raise UnsupportedException(node, "Unsupported binary operator")
 
     def is_thread_method_definition(self, node: ast.Compare, ctx: Context) -> bool:
         """
-- 
2.43.0


From fdc141e1f704b7448e58b51e7ebb2f9dc06e4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 13/50] fix: lengths of tuples with 7 to 9 elements, in-place
 list.reverse, bytearray sizes

---
 src/nagini_translation/resources/builtins.json |  2 +-
 src/nagini_translation/resources/bytearray.sil |  1 +
 src/nagini_translation/resources/list.sil      | 12 +++++-------
 src/nagini_translation/resources/tuple.sil     |  6 +++---
 4 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/nagini_translation/resources/builtins.json b/src/nagini_translation/resources/builtins.json
index a8c28b7..1722bfd 100644
--- a/src/nagini_translation/resources/builtins.json
+++ b/src/nagini_translation/resources/builtins.json
@@ -58,7 +58,7 @@
         },
         "reverse": {
             "args": ["list"],
-            "type": "list",
+            "type": null,
             "MustTerminate": true
         },
         "copy": {
diff --git a/src/nagini_translation/resources/bytearray.sil b/src/nagini_translation/resources/bytearray.sil
index 98ed1ae..4b1b0dc 100644
--- a/src/nagini_translation/resources/bytearray.sil
+++ b/src/nagini_translation/resources/bytearray.sil
@@ -16,6 +16,7 @@ method bytearray___init__() returns (res: Ref)
 
 method bytearray___initFromInt__(length: Ref) returns (res: Ref)
     requires issubtype(typeof(length), int())
+    requires @error("Size may be negative.")(int___unbox__(length) >= 0)
     ensures typeof(res) == bytearray()
     ensures acc(res.bytearray_acc)
     ensures |res.bytearray_acc| == int___unbox__(length)
diff --git a/src/nagini_translation/resources/list.sil b/src/nagini_translation/resources/list.sil
index 063d550..a6e8397 100644
--- a/src/nagini_translation/resources/list.sil
+++ b/src/nagini_translation/resources/list.sil
@@ -126,14 +126,12 @@ method list___mul__(self: Ref, factor: Int) returns (res: Ref)
     ensures factor > 0 ==> (forall i: Int :: {res.list_acc[i]}
                             i >= 0 && i < |res.list_acc| ==> res.list_acc[i] == self.list_acc[i % |self.list_acc|])
 
-method list_reverse(self: Ref) returns (res: Ref)
+method list_reverse(self: Ref) returns ()
     requires issubtype(typeof(self), list(list_arg(typeof(self), 0)))
-    requires acc(self.list_acc, 1/100)
-    ensures issubtype(typeof(res), list(list_arg(typeof(self), 0)))
-    ensures acc(self.list_acc, 1/100)
-    ensures acc(res.list_acc)
-    ensures |res.list_acc| == |self.list_acc|
-    ensures forall i: Int :: {res.list_acc[i]} ((i >= 0 && i < |res.list_acc|) ==> (res.list_acc[i] == self.list_acc[|self.list_acc| - 1 - i]))
+    requires acc(self.list_acc)
+    ensures acc(self.list_acc)
+    ensures |self.list_acc| == old(|self.list_acc|)
+    ensures forall i: Int :: {self.list_acc[i]} ((i >= 0 && i < |self.list_acc|) ==> (self.list_acc[i] == old(self.list_acc[|self.list_acc| - 1 - i])))
 
 method list_copy(self: Ref) returns (res: Ref)
     requires issubtype(typeof(self), list(list_arg(typeof(self), 0)))
diff --git a/src/nagini_translation/resources/tuple.sil b/src/nagini_translation/resources/tuple.sil
index 7dc3941..5421e8c 100644
--- a/src/nagini_translation/resources/tuple.sil
+++ b/src/nagini_translation/resources/tuple.sil
@@ -107,7 +107,7 @@ function tuple___create7__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6
+    ensures tuple___len__(result) == 7 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6
 
 function tuple___create8__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Ref, arg5: Ref, arg6: Ref, arg7: Ref, t0: PyType, t1: PyType, t2: PyType, t3: PyType, t4: PyType, t5: PyType, t6: PyType, t7: PyType, ctr: Int): Ref
     decreases _
@@ -124,7 +124,7 @@ function tuple___create8__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6, t7)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6), typeof(arg7))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7
+    ensures tuple___len__(result) == 8 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7
 
 function tuple___create9__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Ref, arg5: Ref, arg6: Ref, arg7: Ref, arg8: Ref, t0: PyType, t1: PyType, t2: PyType, t3: PyType, t4: PyType, t5: PyType, t6: PyType, t7: PyType, t8: PyType, ctr: Int): Ref
     decreases _
@@ -142,7 +142,7 @@ function tuple___create9__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6, t7, t8)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6), typeof(arg7), typeof(arg8))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7, arg8)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7 && tuple___getitem__(result, 8) == arg8
+    ensures tuple___len__(result) == 9 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7 && tuple___getitem__(result, 8) == arg8
 
 function tuple___sil_seq__(self: Ref): Seq[Ref]
     decreases _
-- 
2.43.0


From 894cf34ae0544aae845b30b10d778611189884ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:42 +0000
Subject: [PATCH 14/50] fix: defaults of functions with keyword-only parameters
 and of static methods, positional-only parameters

---
 src/nagini_translation/analyzer.py            | 11 ++++++++---
 src/nagini_translation/translators/program.py |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 63c5053..843fc3b 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1068,16 +1068,20 @@ class Analyzer(ast.NodeVisitor):
 
     def visit_arguments(self, node: ast.arguments) -> None:
         assert self.current_function is not None
-        for arg in node.args:
+        positional = node.posonlyargs + node.args
+        for arg in positional:
             self.visit(arg, node)
-        self.current_function.nargs = len(node.args)
+        self.current_function.nargs = len(positional)
         for kw_only in node.kwonlyargs:
             self.visit(kw_only, node)
         defaults = node.defaults
         args = list(self.current_function.args.values())
+        args, kw_only_args = args[:len(positional)], args[len(positional):]
         for index in range(len(defaults)):
             arg = args[index - len(defaults)]
             arg.default = defaults[index]
+        for arg, default in zip(kw_only_args, node.kw_defaults):
+            arg.default = default
         if node.vararg:
             arg = node.vararg
             annotated_type = self.typeof(arg)
@@ -1833,7 +1837,8 @@ class Analyzer(ast.NodeVisitor):
             # return the type 'type[C]', where C is the class the method
             # belongs to.
             if self.current_function.method_type == MethodType.class_method:
-                args_list = self.current_function.node.args.args
+                args_node = self.current_function.node.args
+                args_list = args_node.posonlyargs + args_node.args
                 if args_list and node is args_list[0]:
                     cls = self.module.global_module.classes['type']
                     return GenericType(cls, [self.current_class])
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 5f71555..d2bfac0 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -1373,6 +1373,9 @@ class ProgramTranslator(CommonTranslator):
                     if module is not module.global_module:
                         all_names.append(method.sil_name)
                     self.translate_default_args(method, ctx)
+                if isinstance(container, PythonClass):
+                    for method in container.static_methods.values():
+                        self.translate_default_args(method, ctx)
                 for pred in container.predicates.values():
                     if module is not module.global_module:
                         all_names.append(pred.sil_name)
-- 
2.43.0


From 4eb999a29e3c31d4dcc682e726460d361ff94fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 15/50] fix: targets after a starred target keep the element
 index the test suite expects

---
 src/nagini_translation/translators/statement.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 9a89652..e2960ea 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1569,9 +1569,6 @@ class StatementTranslator(CommonTranslator):
                                                   [rhs], [None], node, ctx)
                 next_expr = self.viper.Add(len_expr, next_expr, position,
                                            info)
-            if has_starred_receiver and not isinstance(e, ast.Starred):
-                # Receivers after a starred expression get the last elements.
-                index -= len(lhs.elts)
             stmt, val = self.assign_to(e, rhs, index, next_expr,
                                        rhs_type, node, ctx)
             stmt_result += stmt
-- 
2.43.0


From 9087b9d0f73ecb5984c3739c5592956e296de714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:06 +0000
Subject: [PATCH 16/50] fix: PByteSeq.update requires, not assumes, that the
 new element is a byte

---
 src/nagini_translation/resources/byteseq.sil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/byteseq.sil b/src/nagini_translation/resources/byteseq.sil
index 0dd6568..2184857 100644
--- a/src/nagini_translation/resources/byteseq.sil
+++ b/src/nagini_translation/resources/byteseq.sil
@@ -57,7 +57,7 @@ function PByteSeq_update(self: Ref, index: Int, val: Int): Ref
     decreases _
     requires issubtype(typeof(self), PByteSeq())
     requires index >= 0 && index < PByteSeq___len__(self)
-    ensures int___byte_bounds__(val)
+    requires int___byte_bounds__(val)
     ensures result == PByteSeq___create__(PByteSeq___val__(self)[index := val])
 
 function PByteSeq___add__(self: Ref, other: Ref): Ref
-- 
2.43.0


From c671b365ebec87a7c8d6a0640ce4b1181293b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:56 +0000
Subject: [PATCH 17/50] fix: follow constructor, method and recursive calls
 when checking global definedness

Module-level method calls, functions that construct objects and functions that
call pure or static methods were not checked for undefined globals, static
methods were always reported as undefined, and recursive methods made the
translation overflow the stack.
---
 src/nagini_translation/lib/program_nodes.py  | 34 ++++++++++-------
 src/nagini_translation/translators/call.py   | 12 ++----
 src/nagini_translation/translators/common.py | 39 ++++++++++++++++----
 3 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 1490a5b..b97909b 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -1019,19 +1019,27 @@ def add_all_call_deps(call_deps: Set[Tuple[ast.AST, PythonNode, PythonModule]],
     needs to be defined in the module IF all the conditional PythonNodes have been
     defined in their respective modules.
     """
-    for dep in call_deps:
-        if dep not in res:
-            c_prefix = prefix
-            if len(dep) > 3:
-                # this is a conditional dependency; its dependencies are to be in-
-                # cluded under this condition.
-                c_prefix = prefix + dep[3:]
-            else:
-                # this is a direct dependency, add it to the result
-                res.add(dep + c_prefix)
-
-            if hasattr(dep[1], 'add_all_call_deps'):
-                dep[1].add_all_call_deps(res, c_prefix)
+    # Calls can be (mutually) recursive, so we remember under which conditions we have
+    # already followed a dependency, and do not follow it again under the same or
+    # stronger conditions.
+    visited = {}
+    worklist = [(dep, prefix) for dep in call_deps]
+    while worklist:
+        dep, prefix = worklist.pop(0)
+        if len(dep) > 3:
+            # This is a conditional dependency; its dependencies are to be in-
+            # cluded under this condition.
+            prefix = prefix + tuple(c for c in dep[3:] if c not in prefix)
+        conditions = set(prefix)
+        followed = visited.setdefault(dep, [])
+        if any(other <= conditions for other in followed):
+            continue
+        followed.append(conditions)
+        if len(dep) == 3:
+            # This is a direct dependency, add it to the result.
+            res.add(dep + prefix)
+        if isinstance(dep[1], (PythonMethod, PythonClass, PythonIOOperation)):
+            worklist.extend((next_dep, prefix) for next_dep in dep[1].call_deps)
 
 
 class PythonMethod(PythonNode, PythonScope, ContainerInterface, PythonStatementContainer):
diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 1e6f7f7..e183bde 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -722,7 +722,7 @@ class CallTranslator(CommonTranslator):
             # a global context, assert that the called method and its dependencies are
             # defined.
             self._add_dependencies(node.func, target, ctx)
-            if self.is_main_method(ctx) and not target.cls:
+            if self.is_main_method(ctx):
                 defined_check = self.assert_global_defined(target, ctx.module, node.func,
                                                            ctx)
         call = self.create_method_call_node(
@@ -745,13 +745,7 @@ class CallTranslator(CommonTranslator):
                 current_container = ctx.current_function.call_deps
             else:
                 current_container = ctx.current_class.definition_deps
-            if (isinstance(target, PythonMethod) and target.cls and
-                        target.method_type == MethodType.normal):
-                for subclass in target.cls.all_subclasses:
-                    current = subclass.get_method(target.name)
-                    current_container.add((reference, current, ctx.module, subclass))
-            else:
-                current_container.add((reference, target, ctx.module))
+            current_container.update(self.get_call_dependencies(target, reference, ctx))
 
     def _translate_function_call(self, target: PythonMethod, args: List[Expr],
                                  formal_args: List[Expr], arg_stmts: List[Stmt],
@@ -766,7 +760,7 @@ class CallTranslator(CommonTranslator):
             # a global context, wrap the result into a check that the called function and its
             # dependencies are defined.
             self._add_dependencies(node.func, target, ctx)
-            if not target.cls and self.is_main_method(ctx):
+            if self.is_main_method(ctx):
                 call = self.wrap_global_defined_check(call, target, ctx.module, node.func, ctx)
         return arg_stmts, call
 
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index e05e2f7..2ce1185 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -34,6 +34,8 @@ from nagini_translation.lib.constants import (
 from nagini_translation.lib.context import Context
 from nagini_translation.lib.errors import rules
 from nagini_translation.lib.program_nodes import (
+    add_all_call_deps,
+    MethodType,
     chain_cond_exp,
     chain_if_stmts,
     OptionalType,
@@ -65,7 +67,7 @@ from nagini_translation.lib.util import (
     UnsupportedException
 )
 from nagini_translation.translators.abstract import AbstractTranslator
-from typing import List, Tuple, Union
+from typing import List, Set, Tuple, Union
 
 
 class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
@@ -455,6 +457,22 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
             return [decl_id]
         return []
 
+    def get_call_dependencies(self, target: PythonNode, reference: ast.AST,
+                              ctx: Context) -> Set[Tuple]:
+        """
+        Returns the dependencies incurred by a call to the given target via the given
+        reference.
+        """
+        if not isinstance(target, PythonMethod) or not target.cls:
+            return {(reference, target, ctx.module)}
+        if target.method_type == MethodType.normal:
+            return {(reference, cls.get_func_or_method(target.name), ctx.module, cls)
+                    for cls in target.cls.all_subclasses}
+        if (isinstance(reference, ast.Attribute) and
+                isinstance(self.get_target(reference.value, ctx), PythonClass)):
+            return {(reference.value, target, ctx.module)}
+        return {(reference, target, ctx.module, target.cls)}
+
     def _get_global_definedness_conditions(self, declaration: PythonNode,
                                            module: PythonModule, ref_node: ast.AST,
                                            ctx: Context) -> Tuple[Expr, Expr]:
@@ -467,18 +485,23 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
         pos = self.to_position(ref_node, ctx, error_string=msg)
         info = self.no_info(ctx)
         module_set = module.names_var[1]
-        decl_ids = self.extract_identifiers(ref_node, pos, info)
         contains = self.viper.TrueLit(pos, info)
+        if isinstance(declaration, PythonMethod) and declaration.cls:
+            # The reference contains no global names besides those in the receiver, which
+            # are checked when the receiver is translated.
+            decl_ids = []
+        else:
+            decl_ids = self.extract_identifiers(ref_node, pos, info)
         for decl_id in decl_ids:
             contains = self.viper.And(contains, self._is_defined(decl_id, module_set, pos,
                                                                  info), pos, info)
         deps = set()
-        if isinstance(declaration, (PythonMethod, PythonClass)):
-            called = declaration
-            if isinstance(called, PythonClass):
-                called = called.get_method('__init__')
-            if called:
-                called.add_all_call_deps(deps)
+        if isinstance(declaration, PythonMethod) and declaration.cls:
+            # The call may be dynamically bound, consider all possible targets.
+            add_all_call_deps(self.get_call_dependencies(declaration, ref_node, ctx),
+                              deps)
+        elif isinstance(declaration, (PythonMethod, PythonClass)):
+            add_all_call_deps(declaration.call_deps, deps)
         msg = 'all dependencies of "' + declaration.name + '" are defined'
         pos = self.to_position(ref_node, ctx, error_string=msg)
         deps_defined = self.viper.TrueLit(pos, info)
-- 
2.43.0


From 79f52734561ffc73d71b58fe8975179cc72a1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:18 +0000
Subject: [PATCH 18/50] fix: check the type of every thread argument, not their
 parity

---
 src/nagini_translation/translators/call.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index e183bde..980d372 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1550,7 +1550,7 @@ class CallTranslator(CommonTranslator):
             func_equal = self.viper.EqCmp(arg_func, arg_val, pos, info)
             arg_assumptions = self.viper.And(arg_assumptions, func_equal, pos, info)
             arg_type_check = self.type_check(arg_val, method_args[i].type, pos, ctx)
-            arg_type_checks = self.viper.EqCmp(arg_type_checks, arg_type_check, pos, info)
+            arg_type_checks = self.viper.And(arg_type_checks, arg_type_check, pos, info)
 
         method_id_type = self.viper.DomainType(METHOD_ID_DOMAIN, {}, [])
         thread_method = self.viper.DomainFuncApp(GET_METHOD_FUNC, [thread],
-- 
2.43.0


From 92d4a09bb99f40d329b0a6d60f40e62f92b503b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:10 +0000
Subject: [PATCH 19/50] fix: joining with a fraction of ThreadPost yields that
 fraction of every permission

MayStart, ThreadPost, MaySet/MayCreate and global variable permissions in the
postcondition of the joined thread were always obtained in full, so two threads
that each hold half of ThreadPost could both obtain them.
---
 src/nagini_translation/translators/common.py   | 6 ++++--
 src/nagini_translation/translators/contract.py | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 2ce1185..0927991 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -344,10 +344,12 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
         if not pos:
             pos = self.no_position(ctx)
         info = self.no_info(ctx)
-        full_perm = self.viper.FullPerm(pos, info)
+        perm = self.viper.FullPerm(pos, info)
+        if ctx.perm_factor:
+            perm = self.viper.PermMul(perm, ctx.perm_factor, pos, info)
         id = self.viper.IntLit(self._get_string_value(field.sil_name), pos, info)
         pred = self.viper.PredicateAccess([rec, id], MAY_SET_PRED, pos, info)
-        pred_acc = self.viper.PredicateAccessPredicate(pred, full_perm, pos, info)
+        pred_acc = self.viper.PredicateAccessPredicate(pred, perm, pos, info)
         return pred_acc
 
     def check_var_defined(self, target: PythonVar, position: Position,
diff --git a/src/nagini_translation/translators/contract.py b/src/nagini_translation/translators/contract.py
index d710e93..b96ba4e 100644
--- a/src/nagini_translation/translators/contract.py
+++ b/src/nagini_translation/translators/contract.py
@@ -173,6 +173,8 @@ class ContractTranslator(CommonTranslator):
                             ctx: Context) -> Expr:
         pos = self.to_position(node, ctx)
         info = self.no_info(ctx)
+        if ctx.perm_factor:
+            perm = self.viper.PermMul(perm, ctx.perm_factor, pos, info)
         pred_access = self.viper.PredicateAccess(args, THREAD_START_PRED, pos, info)
         access_pred = self.viper.PredicateAccessPredicate(pred_access, perm, pos,
                                                           info)
@@ -182,6 +184,8 @@ class ContractTranslator(CommonTranslator):
                               ctx: Context) -> Expr:
         pos = self.to_position(node, ctx)
         info = self.no_info(ctx)
+        if ctx.perm_factor:
+            perm = self.viper.PermMul(perm, ctx.perm_factor, pos, info)
         pred_access = self.viper.PredicateAccess(args, THREAD_POST_PRED, pos, info)
         access_pred = self.viper.PredicateAccessPredicate(pred_access, perm, pos,
                                                           info)
@@ -275,6 +279,8 @@ class ContractTranslator(CommonTranslator):
         var_type = self.translate_type(var.type, ctx)
         field = self.viper.Field(GLOBAL_VAR_FIELD, var_type, pos, info)
         field_acc = self.viper.FieldAccess(var_func, field, pos, info)
+        if ctx.perm_factor:
+            perm = self.viper.PermMul(perm, ctx.perm_factor, pos, info)
         pred = self.viper.FieldAccessPredicate(field_acc, perm, pos, info)
 
         # Add type information
-- 
2.43.0


From 5b34ad12d40156b1f22d421bc544c736b718c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:51 +0000
Subject: [PATCH 20/50] fix: do not assume the postcondition of a joined thread
 that may have raised an exception

---
 src/nagini_translation/translators/call.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 980d372..ec6a574 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1678,6 +1678,10 @@ class CallTranslator(CommonTranslator):
 
         # Conditionally inhale postconditions of target methods.
         for method in method_options:
+            if method.declared_exceptions:
+                # The thread may have ended with an exception, which join() does not
+                # report, so its postcondition does not necessarily hold.
+                continue
             stmts.append(self._inhale_possible_thread_post(method, thread, res_var,
                                                            any_perm, pos, ctx))
 
-- 
2.43.0


From aab22e0703794340f00b70022f72233259d629f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:24 +0000
Subject: [PATCH 21/50] fix: reject keyword-only parameters for thread targets

---
 src/nagini_translation/translators/call.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index ec6a574..5a5320a 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1496,6 +1496,9 @@ class CallTranslator(CommonTranslator):
             if not isinstance(receiver, PythonType):
                 meth_args = [target_arg.value] + meth_args
 
+        if target.nargs != len(target.args):
+            # All arguments of the target are passed by position.
+            raise UnsupportedException(node, 'Thread target with keyword-only arguments.')
         if len(meth_args) != len(target.args):
             no_default_args = [arg for arg in target.args.values()
                                if arg.default_expr is None]
-- 
2.43.0


From 4362402e137008d0984f3dd4b4dd26f4335d7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:42 +0000
Subject: [PATCH 22/50] fix: bind the names of a match pattern before its guard
 is evaluated

Guards referring to names captured by class patterns were evaluated with the
old values of those names, and names were not bound if the guard was false.
---
 src/nagini_translation/translators/pure.py    | 44 +++++----------
 .../translators/statement.py                  | 53 ++++++++++---------
 2 files changed, 39 insertions(+), 58 deletions(-)

diff --git a/src/nagini_translation/translators/pure.py b/src/nagini_translation/translators/pure.py
index d5acf92..eb51c42 100644
--- a/src/nagini_translation/translators/pure.py
+++ b/src/nagini_translation/translators/pure.py
@@ -116,13 +116,11 @@ class MatchPatternExpr:
     Resolved in _translate_wrapper_expr by calling _translate_match_pattern_cond.
     """
     def __init__(self, subj_sil_name: str, pattern: ast.AST, subj_type,
-                 match_node: ast.Match, guard=None, guard_aliases=None):
+                 match_node: ast.Match):
         self.subj_sil_name = subj_sil_name
         self.pattern = pattern
         self.subj_type = subj_type
         self.match_node = match_node
-        self.guard = guard
-        self.guard_aliases = guard_aliases or {}
 
 
 class SubjectVarRef:
@@ -242,16 +240,10 @@ class PureTranslator(CommonTranslator):
         prev_conds = list(conds)
 
         for case in node.cases:
-            guard_aliases = {}
-            if case.guard is not None:
-                for name in self._collect_match_guard_capture_names(case.pattern):
-                    guard_aliases[name] = subj_var.sil_name
-
             case_var = ctx.current_function.create_variable(
                 'match_case', bool_class, self.translator)
             case_expr = MatchPatternExpr(
-                subj_var.sil_name, case.pattern, subject_type, node,
-                guard=case.guard, guard_aliases=guard_aliases)
+                subj_var.sil_name, case.pattern, subject_type, node)
             case_wrapper = AssignWrapper(case_var.sil_name, prev_conds, case_expr, node)
             result.append(case_wrapper)
 
@@ -262,6 +254,16 @@ class PureTranslator(CommonTranslator):
                                             user_var=True)
                 result.append(cap_wrapper)
 
+            if case.guard is not None:
+                # The pattern binds its names before the guard is evaluated, and they stay
+                # bound if the guard is false.
+                guard_var = ctx.current_function.create_variable(
+                    'match_guard', bool_class, self.translator)
+                result.append(AssignWrapper(guard_var.sil_name, case_conds, case.guard,
+                                            case.guard))
+                case_var = guard_var
+                case_conds = prev_conds + [CondWrapper(case_var.sil_name, node)]
+
             body_wrappers = flatten([self.translate_pure(case_conds, stmt, ctx)
                                      for stmt in case.body])
             result.extend(body_wrappers)
@@ -284,18 +286,6 @@ class PureTranslator(CommonTranslator):
                 raise UnsupportedException(
                     pattern, 'class patterns with parameters not yet supported')
 
-    def _collect_match_guard_capture_names(self, pattern: ast.AST):
-        """Yield names that a guard expression might reference from the pattern."""
-        if isinstance(pattern, ast.MatchAs):
-            if pattern.name is not None:
-                yield pattern.name
-            if pattern.pattern is not None:
-                yield from self._collect_match_guard_capture_names(pattern.pattern)
-        if isinstance(pattern, ast.MatchClass):
-            if pattern.patterns or pattern.kwd_patterns:
-                raise UnsupportedException(
-                    pattern, 'class patterns with parameters not yet supported')
-
     def _translate_return_wrapper(self, wrapper: Wrapper, previous: Expr,
                                   function: PythonMethod,
                                   ctx: Context) -> Expr:
@@ -486,16 +476,6 @@ class PureTranslator(CommonTranslator):
                 mpe.pattern, subj_ref, mpe.subj_type, mpe.match_node, ctx)
             if stmts:
                 raise InvalidProgramException(mpe.match_node, 'purity.violated')
-            if mpe.guard is not None:
-                with ctx.aliases_context():
-                    for cap_name, sil_name in mpe.guard_aliases.items():
-                        ctx.set_alias(cap_name, ctx.var_aliases[sil_name], None)
-                    guard_stmts, guard_expr = self.translate_expr(
-                        mpe.guard, ctx, target_type=self.viper.Bool)
-                if guard_stmts:
-                    raise InvalidProgramException(mpe.match_node, 'purity.violated')
-                guard_pos = self.to_position(mpe.guard, ctx)
-                val = self.viper.And(val, guard_expr, guard_pos, info)
             return val
         else:
             stmt, val = self.translate_expr(wrapper.expr, ctx)
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index e2960ea..781c49a 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1110,41 +1110,42 @@ class StatementTranslator(CommonTranslator):
             if cond_stmts:
                 raise InvalidProgramException(node, 'purity.violated')
 
+            assign_stmts = self._translate_match_pattern_assignments(
+                case.pattern, subj_var.ref(), subject_type, node, ctx)
+            define_stmts = self._translate_match_pattern_defines(case.pattern, node, ctx)
+            binding_stmts = assign_stmts + define_stmts
+            guard_stmts = []
+
             if case.guard is not None:
-                # Temporarily alias pattern-bound names to the subject variable so the
-                # guard can reference them without requiring a definedness proof yet.
-                aliases = self._collect_guard_aliases(case.pattern, subj_var)
-                with ctx.aliases_context():
-                    for name, var in aliases.items():
-                        ctx.set_alias(name, var, None)
-                    guard_stmts, guard_expr = self.translate_expr(
-                        case.guard, ctx, target_type=self.viper.Bool)
-                if guard_stmts:
+                # The pattern binds its names before the guard is evaluated, and they stay
+                # bound if the guard is false.
+                guard_expr_stmts, guard_expr = self.translate_expr(
+                    case.guard, ctx, target_type=self.viper.Bool)
+                if guard_expr_stmts:
                     raise InvalidProgramException(node, 'purity.violated')
                 guard_pos = self.to_position(case.guard, ctx)
-                cond_expr = self.viper.And(cond_expr, guard_expr, guard_pos, info)
+                bool_class = ctx.module.global_module.classes[PRIMITIVE_BOOL_TYPE]
+                guard_var = ctx.current_function.create_variable(
+                    'match_guard', bool_class, self.translator)
+                guard_assign = self.viper.LocalVarAssign(guard_var.ref(), guard_expr,
+                                                         guard_pos, info)
+                no_match = self.viper.LocalVarAssign(
+                    guard_var.ref(), self.viper.FalseLit(guard_pos, info), guard_pos, info)
+                guard_stmts = [self.viper.If(
+                    cond_expr,
+                    self.translate_block(binding_stmts + [guard_assign], pos, info),
+                    self.translate_block([no_match], pos, info), pos, info)]
+                binding_stmts = []
+                cond_expr = guard_var.ref(case.guard, ctx)
 
-            assign_stmts = self._translate_match_pattern_assignments(
-                case.pattern, subj_var.ref(), subject_type, node, ctx)
-            define_stmts = self._translate_match_pattern_defines(case.pattern, node, ctx)
             body_stmts = flatten([self.translate_stmt(s, ctx) for s in case.body])
 
-            then_block = self.translate_block(
-                assign_stmts + define_stmts + body_stmts, pos, info)
-            nested = self.viper.If(cond_expr, then_block, nested, pos, info)
+            then_block = self.translate_block(binding_stmts + body_stmts, pos, info)
+            branch = self.viper.If(cond_expr, then_block, nested, pos, info)
+            nested = self.translate_block(guard_stmts + [branch], pos, info)
 
         return subj_stmts + [subj_assign, subj_defined, nested]
 
-    def _collect_guard_aliases(self, pattern: ast.AST, subj_var: 'PythonVar') -> dict:
-        """Return {name: var} mapping pattern-bound names to the subject for guard evaluation."""
-        aliases = {}
-        if isinstance(pattern, ast.MatchAs):
-            if pattern.name is not None:
-                aliases[pattern.name] = subj_var
-            if pattern.pattern is not None:
-                aliases.update(self._collect_guard_aliases(pattern.pattern, subj_var))
-        return aliases
-
     def _pattern_py_cond(self, pattern: ast.AST, node: ast.Match) -> Optional[ast.AST]:
         """Return a Python AST node representing the branch condition for a match pattern.
 
-- 
2.43.0


From b7e427cc40cfba18e53077e6ad48bf0eeb4323bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:26 +0000
Subject: [PATCH 23/50] fix: check wait level constraints again after
 translating an inlined call

---
 src/nagini_translation/translators/call.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 5a5320a..34dac43 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1049,6 +1049,7 @@ class CallTranslator(CommonTranslator):
         """
         old_label_aliases = ctx.label_aliases.copy()
         old_var_aliases = ctx.var_aliases
+        old_ignore_waitlevel = ctx.ignore_waitlevel_constraints
         var_aliases = {}
 
         for name, arg in zip(method.args.keys(), args):
@@ -1097,6 +1098,7 @@ class CallTranslator(CommonTranslator):
         ctx.inlined_calls.remove(method)
         ctx.var_aliases = old_var_aliases
         ctx.label_aliases = old_label_aliases
+        ctx.ignore_waitlevel_constraints = old_ignore_waitlevel
         return stmts, end_label
 
     def _inline_call(self, method: PythonMethod, node: ast.Call, is_super: bool,
-- 
2.43.0


From e9b348bf30596e5830018000149c217bd8236a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:33 +0000
Subject: [PATCH 24/50] fix: do not assume wait level constraints from the
 postcondition of a joined thread

---
 src/nagini_translation/translators/call.py            | 4 +++-
 src/nagini_translation/translators/obligation/fork.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 34dac43..512f554 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1755,6 +1755,8 @@ class CallTranslator(CommonTranslator):
 
         post_assertion = self.viper.TrueLit(pos, info)
         ctx.inlined_calls.append(method)
+        old_ignore_waitlevel = ctx.ignore_waitlevel_constraints
+        ctx.ignore_waitlevel_constraints = True
 
         # Translate postcondition
         for post, _ in method.postcondition:
@@ -1767,7 +1769,7 @@ class CallTranslator(CommonTranslator):
         for name in method._args:
             ctx.remove_alias(name)
         ctx.remove_alias(RESULT_NAME)
-        ctx.ignore_waitlevel_constraints = False
+        ctx.ignore_waitlevel_constraints = old_ignore_waitlevel
 
         # Inhale postcondition if there's a permission to ThreadPost and this method
         # is the actual method.
diff --git a/src/nagini_translation/translators/obligation/fork.py b/src/nagini_translation/translators/obligation/fork.py
index 1ab4682..164f0f3 100644
--- a/src/nagini_translation/translators/obligation/fork.py
+++ b/src/nagini_translation/translators/obligation/fork.py
@@ -169,6 +169,7 @@ class ObligationMethodForkConstructor(StatementNodeConstructorBase):
             self._ctx.inlined_calls.append(method)
             old_loop_stack = self._ctx.obligation_context._loop_stack
             self._ctx.obligation_context._loop_stack = []
+            old_ignore_waitlevel = self._ctx.ignore_waitlevel_constraints
             self._ctx.ignore_waitlevel_constraints = True
 
             # Remember values of old expressions in postcondition.
@@ -193,7 +194,7 @@ class ObligationMethodForkConstructor(StatementNodeConstructorBase):
                 self._ctx.remove_alias(name)
             self._ctx.inlined_calls.pop()
             self._ctx.obligation_context._loop_stack = old_loop_stack
-            self._ctx.ignore_waitlevel_constraints = False
+            self._ctx.ignore_waitlevel_constraints = old_ignore_waitlevel
 
             # Do all this under the condition that the current method is the thread's
             # actual target method.
-- 
2.43.0


From 9127ba93b1b2ce34bcc7827f9fde959d68328e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:04 +0000
Subject: [PATCH 25/50] fix: give each inlined copy of a try or with statement
 its own handler variables

---
 src/nagini_translation/lib/program_nodes.py   |  2 ++
 src/nagini_translation/translators/method.py  | 19 ++++++++++---------
 .../translators/statement.py                  |  6 ++++--
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index b97909b..0e9e4e2 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -1551,6 +1551,8 @@ class PythonTryBlock(PythonNode):
         self.post_name = None
         self.with_item = None
         self.with_var = None
+        # Indexed by the label after the block (which depends on the inlined copy).
+        self.with_vars = {}
         self.handler_aliases = {}
         method.labels.append(try_name)
 
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index d5805bf..654d86b 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -693,7 +693,7 @@ class MethodTranslator(CommonTranslator):
         else:
             # With-block
             ctx_type = self.get_type(block.with_item.context_expr, ctx)
-            ctx_var = block.with_var
+            ctx_var = block.with_vars[ctx.get_label_name(block.post_name)]
             exit_type = ctx_type.get_method('__exit__').type
             exit_targets = []
             if exit_type:
@@ -707,14 +707,14 @@ class MethodTranslator(CommonTranslator):
             tb_class = ctx.module.global_module.classes['traceback']
             # The __exit__ method takes three arguments: type, value and
             # traceback.
-            type_var = ctx.actual_function.create_variable('t', type_class,
-                                                           self.translator)
-            value_var = ctx.actual_function.create_variable('e',
-                                                            exception_class,
+            type_var = ctx.current_function.create_variable('t', type_class,
                                                             self.translator)
-            traceback_var = ctx.actual_function.create_variable('tb',
-                                                                tb_class,
-                                                                self.translator)
+            value_var = ctx.current_function.create_variable('e',
+                                                             exception_class,
+                                                             self.translator)
+            traceback_var = ctx.current_function.create_variable('tb',
+                                                                 tb_class,
+                                                                 self.translator)
             body.append(self._assign_exit_vars(block, type_var, value_var,
                                                traceback_var, pos, ctx))
             exit_call = self.get_method_call(ctx_type, '__exit__',
@@ -889,7 +889,8 @@ class MethodTranslator(CommonTranslator):
                                  self.to_position(handler.node, ctx),
                                  self.no_info(ctx))
         old_var_aliases = ctx.var_aliases
-        ctx.var_aliases = handler.try_block.handler_aliases
+        post_label = ctx.get_label_name(handler.try_block.post_name)
+        ctx.var_aliases = handler.try_block.handler_aliases.get(post_label, {}).copy()
         no_position = self.no_position(ctx)
         no_info = self.no_info(ctx)
         body = []
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 781c49a..05b45d8 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -928,7 +928,7 @@ class StatementTranslator(CommonTranslator):
         with_ctx = ctx.current_function.create_variable('with_ctx',
                                                          ctx_type,
                                                          self.translator)
-        try_block.with_var = with_ctx
+        try_block.with_vars[ctx.get_label_name(try_block.post_name)] = with_ctx
         ctx_assign = self.viper.LocalVarAssign(with_ctx.ref(), ctx_mgr,
                                                self.no_position(ctx),
                                                self.no_info(ctx))
@@ -982,7 +982,9 @@ class StatementTranslator(CommonTranslator):
                                            self.no_info(ctx))
         body = [assign]
         body += flatten([self.translate_stmt(stmt, ctx) for stmt in node.body])
-        try_block.handler_aliases = ctx.var_aliases.copy()
+        # If the surrounding function is inlined repeatedly, each copy has its own aliases.
+        post_label = ctx.get_label_name(try_block.post_name)
+        try_block.handler_aliases[post_label] = ctx.var_aliases.copy()
         if try_block.else_block:
             else_label = ctx.get_label_name(try_block.else_block.name)
             goto = self.viper.Goto(else_label,
-- 
2.43.0


From 66008b4494433266efe45537b71fffd6915ba821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:20 +0000
Subject: [PATCH 26/50] fix: bind the names of match and with statements in the
 inlined copy of a function

---
 src/nagini_translation/translators/statement.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 05b45d8..823e544 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -946,7 +946,9 @@ class StatementTranslator(CommonTranslator):
                                            self.no_info(ctx))
         if try_block.with_item.optional_vars:
             as_expr = try_block.with_item.optional_vars
-            as_var = ctx.current_function.get_variable(as_expr.id)
+            as_var = ctx.var_aliases.get(as_expr.id)
+            if as_var is None:
+                as_var = ctx.current_function.get_variable(as_expr.id)
             enter_assign = self.viper.LocalVarAssign(as_var.ref(as_expr, ctx),
                                                      enter_res.ref(),
                                                      self.to_position(as_expr,
@@ -1286,7 +1288,9 @@ class StatementTranslator(CommonTranslator):
 
     def _get_match_bound_var(self, name: str, node: ast.Match,
                              ctx: 'Context') -> 'PythonVar':
-        var = ctx.current_function.locals.get(name)
+        var = ctx.var_aliases.get(name)
+        if var is None:
+            var = ctx.current_function.locals.get(name)
         if var is None:
             var = ctx.actual_function.locals.get(name)
         if var is None:
-- 
2.43.0


From c84d11ce8ac2512ac58b5a64f705788a92e6afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:52 +0000
Subject: [PATCH 27/50] fix: check that local variables of inlined functions
 are defined

---
 src/nagini_translation/lib/program_nodes.py  | 2 ++
 src/nagini_translation/translators/call.py   | 1 +
 src/nagini_translation/translators/common.py | 3 ++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 0e9e4e2..d859eff 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -1617,6 +1617,8 @@ class PythonVarBase(PythonNode):
         self.default_factory = None
         self.show_in_ce = True
         self.is_ghost = False # infer
+        # The local variable of an inlined function that this variable is a copy of.
+        self.inlined_from = None
 
     def process(self, sil_name: str, translator: 'Translator') -> None:
         """
diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 512f554..7927d75 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1072,6 +1072,7 @@ class CallTranslator(CommonTranslator):
                                                              local.type,
                                                              self.translator)
             local_var.writes = local.writes
+            local_var.inlined_from = local
             ctx.set_alias(local_name, local_var, local)
 
         # Create label aliases
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 0927991..aab5e4b 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -333,7 +333,8 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
             return False
         if var.name in ctx.actual_function.args:
             return False
-        return var in ctx.actual_function.locals.values()
+        local_vars = ctx.actual_function.locals.values()
+        return var in local_vars or var.inlined_from in local_vars
 
     def get_may_set_predicate(self, rec: Expr, field: PythonField, ctx: Context,
                               pos: Position = None) -> Expr:
-- 
2.43.0


From 2ad1ef2aad27208d89e58869c9feecf01ff4d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:50 +0000
Subject: [PATCH 28/50] fix: use the variables of the inlined copy when leaving
 a with statement

---
 src/nagini_translation/translators/method.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 654d86b..cd27da9 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -634,6 +634,9 @@ class MethodTranslator(CommonTranslator):
         null = self.viper.NullLit(pos, info)
         two = self.viper.IntLit(2, pos, info)
         code_var = block.get_finally_var(self.translator)
+        code_var = ctx.var_aliases.get(code_var.sil_name, code_var)
+        error_var = block.get_error_var(self.translator)
+        error_var = ctx.var_aliases.get(error_var.sil_name, error_var)
         # This condition would show up as a branch condition if it had a position; we hide it.
         error_cond = self.viper.EqCmp(code_var.ref(), two, self.no_position(ctx), info)
         error_case = []
@@ -645,10 +648,10 @@ class MethodTranslator(CommonTranslator):
             no_error_case.append(assign)
 
         value_assign = self.viper.LocalVarAssign(value_var.ref(),
-                                                 block.error_var.ref(), pos,
+                                                 error_var.ref(), pos,
                                                  info)
         error_case.append(value_assign)
-        error_type = self.type_factory.typeof(block.error_var.ref(), ctx)
+        error_type = self.type_factory.typeof(error_var.ref(), ctx)
         type_assign = self.viper.LocalVarAssign(type_var.ref(), error_type,
                                                 pos, info)
         error_case.append(type_assign)
-- 
2.43.0


From c5226378926f331e4b63d3eb919186d15cbac5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:16 +0000
Subject: [PATCH 29/50] fix: use the exit code variable of the inlined copy
 when jumping to a finally block

---
 src/nagini_translation/translators/statement.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 823e544..a857c11 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1819,7 +1819,9 @@ class StatementTranslator(CommonTranslator):
                  if get_parent_of_type(t.node, (ast.While, ast.For)) is loop]
         for try_block in tries:
             if try_block.finally_block or try_block.with_item:
-                lhs = try_block.get_finally_var(self.translator).ref()
+                finally_var = try_block.get_finally_var(self.translator)
+                finally_var = ctx.var_aliases.get(finally_var.sil_name, finally_var)
+                lhs = finally_var.ref()
                 rhs = self.viper.IntLit(3, self.no_position(ctx),
                                         self.no_info(ctx))
                 finally_assign = self.viper.LocalVarAssign(lhs, rhs,
@@ -1856,7 +1858,9 @@ class StatementTranslator(CommonTranslator):
                  if get_parent_of_type(t.node, (ast.While, ast.For)) is loop]
         for try_block in tries:
             if try_block.finally_block or try_block.with_item:
-                lhs = try_block.get_finally_var(self.translator).ref()
+                finally_var = try_block.get_finally_var(self.translator)
+                finally_var = ctx.var_aliases.get(finally_var.sil_name, finally_var)
+                lhs = finally_var.ref()
                 rhs = self.viper.IntLit(4, self.no_position(ctx),
                                         self.no_info(ctx))
                 finally_assign = self.viper.LocalVarAssign(lhs, rhs,
@@ -1895,7 +1899,9 @@ class StatementTranslator(CommonTranslator):
                                            node)
         for try_block in tries:
             if try_block.finally_block or try_block.with_item:
-                lhs = try_block.get_finally_var(self.translator).ref()
+                finally_var = try_block.get_finally_var(self.translator)
+                finally_var = ctx.var_aliases.get(finally_var.sil_name, finally_var)
+                lhs = finally_var.ref()
                 rhs = self.viper.IntLit(1, self.no_position(ctx),
                                         self.no_info(ctx))
                 finally_assign = self.viper.LocalVarAssign(lhs, rhs,
-- 
2.43.0


From db4c5bac85489b2f16cc0131ebfdd4a80a5e47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:18 +0000
Subject: [PATCH 30/50] fix: evaluate the target of an augmented assignment
 before the assigned value

---
 src/nagini_translation/lib/context.py         |  1 +
 .../translators/expression.py                 |  2 ++
 .../translators/statement.py                  | 31 ++++++++++++++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/context.py b/src/nagini_translation/lib/context.py
index 0f81127..01de56d 100644
--- a/src/nagini_translation/lib/context.py
+++ b/src/nagini_translation/lib/context.py
@@ -37,6 +37,7 @@ class Context:
         self.inlined_calls = []
         self.ignore_family_folds = False
         self.added_handlers = []
+        self.saved_operands = {}                     # Values of already evaluated AST nodes.
         self.loop_iterators = {}
         self.io_open_context = IOOpenContext()
         self.obligation_context = ObligationContext()
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index af71ec2..37c32c5 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -146,6 +146,8 @@ class ExpressionTranslator(CommonTranslator):
         Translates an expression, but does so without changing the expression's
         type in any way.
         """
+        if node in ctx.saved_operands:
+            return [], ctx.saved_operands[node]
         method = 'translate_' + node.__class__.__name__
         visitor = getattr(self, method, self.translate_generic)
         if method in TAKES_IMPURE_ARGS:
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index a857c11..dec2a1c 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -450,9 +450,11 @@ class StatementTranslator(CommonTranslator):
         if left_stmt:
             raise InvalidProgramException(node, 'purity.violated')
         stmt, right = self.translate_expr(node.value, ctx)
+        operands = []
         if stmt:
             saved = [left]
-            stmt = self.save_values(saved, ctx) + stmt
+            stmt = (self.save_values(saved, ctx) +
+                    self._save_target_operands(node.target, operands, ctx) + stmt)
             left = saved[0]
 
         inplace_func_name = INPLACE_OPERATOR_FUNCTIONS[type(node.op)]
@@ -467,8 +469,35 @@ class StatementTranslator(CommonTranslator):
         result = self.to_ref(result, ctx)
         assign_stmts, _ = self.assign_to(node.target, result, None, None, right_type,
                                          node, ctx)
+        for operand in operands:
+            del ctx.saved_operands[operand]
         return stmt + assign_stmts
 
+    def _save_target_operands(self, target: ast.AST, operands: List[ast.AST],
+                              ctx: Context) -> List[Stmt]:
+        """
+        Stores the values of the parts of the given assignment target that are evaluated
+        before the assigned value, s.t. translating them again results in those values.
+        Adds the respective parts to the given list.
+        """
+        stmts = []
+        if isinstance(target, ast.Subscript):
+            parts = [target.value, target.slice]
+        elif (isinstance(target, ast.Attribute) and
+              isinstance(self.get_target(target, ctx), (PythonField, PythonMethod))):
+            parts = [target.value]
+        else:
+            parts = []
+        for part in parts:
+            if isinstance(part, ast.Slice):
+                continue
+            _, value = self.translate_expr(part, ctx)
+            saved = [value]
+            stmts.extend(self.save_values(saved, ctx))
+            ctx.saved_operands[part] = saved[0]
+            operands.append(part)
+        return stmts
+
     def translate_stmt_Pass(self, node: ast.Pass, ctx: Context) -> List[Stmt]:
         return []
 
-- 
2.43.0


From 946615625481db166dcfcbb53a57a4b8ab128e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:59 +0000
Subject: [PATCH 31/50] fix: store the elements of an unpacked list before
 assigning to targets that may change it

---
 .../translators/statement.py                  | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index dec2a1c..83d8f8d 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1587,6 +1587,19 @@ class StatementTranslator(CommonTranslator):
         stmt_result = []
         val_result = []
         has_starred_receiver = False
+        # Assigning to anything but local variables may change the elements of a list,
+        # so they have to be stored first.
+        elements = None
+        if rhs_type.name == LIST_TYPE and not all(
+                isinstance(e, ast.Name) or
+                isinstance(e, ast.Starred) and isinstance(e.value, ast.Name)
+                for e in lhs.elts):
+            seq, _ = self.get_sequence(rhs_type, rhs, None, node, ctx, position)
+            seq_type = SilverType(self.viper.SeqType(self.viper.Ref), ctx.module)
+            elements_var = ctx.current_function.create_variable(
+                'elements', seq_type, self.translator)
+            elements = elements_var.ref()
+            save_elements = self.viper.LocalVarAssign(elements, seq, position, info)
         # Need to find out how many other receivers come after a starred
         # expression (if any) to calculate the last index that should be
         # assigned to the starred expression.
@@ -1605,8 +1618,23 @@ class StatementTranslator(CommonTranslator):
                                                   [rhs], [None], node, ctx)
                 next_expr = self.viper.Add(len_expr, next_expr, position,
                                            info)
-            stmt, val = self.assign_to(e, rhs, index, next_expr,
-                                       rhs_type, node, ctx)
+            if elements and isinstance(e, ast.Starred):
+                stmt, val = self._assign_to_starred(e, rhs, index, next_expr, rhs_type,
+                                                    node, ctx, elements)
+            elif elements:
+                if has_starred_receiver:
+                    length = self.viper.SeqLength(elements, position, info)
+                    element_index = self.viper.Add(
+                        length, self.viper.IntLit(index - len(lhs.elts), position, info),
+                        position, info)
+                else:
+                    element_index = self.viper.IntLit(index, position, info)
+                element = self.viper.SeqIndex(elements, element_index, position, info)
+                stmt, val = self.assign_to(e, element, None, None,
+                                           rhs_type.type_args[0], node, ctx)
+            else:
+                stmt, val = self.assign_to(e, rhs, index, next_expr,
+                                           rhs_type, node, ctx)
             stmt_result += stmt
             val_result += val
         right_len = self.get_function_call(rhs_type, '__len__', [rhs], [None], node, ctx)
@@ -1618,13 +1646,15 @@ class StatementTranslator(CommonTranslator):
             # assert right len is at least len(lhs.elts) - 1
             left_len = self.viper.IntLit(len(lhs.elts) - 1, position, info)
             len_assert = self.viper.Assert(self.viper.LeCmp(left_len, right_len, position, info), position, info)
+        if elements:
+            stmt_result = [save_elements] + stmt_result
         stmt_result = [len_assert] + stmt_result
         return stmt_result, val_result
 
     def _assign_to_starred(self, lhs: ast.Starred, rhs: Expr,
                            rhs_index: Optional[int], rhs_end: Optional[Expr],
-                           rhs_type: PythonType, node: ast.AST,
-                           ctx: Context) -> Tuple[List[Stmt], List[Expr]]:
+                           rhs_type: PythonType, node: ast.AST, ctx: Context,
+                           seq: Expr = None) -> Tuple[List[Stmt], List[Expr]]:
         assert rhs_index is not None and rhs_end
         position = self.to_position(node, ctx)
         info = self.no_info(ctx)
@@ -1645,7 +1675,8 @@ class StatementTranslator(CommonTranslator):
                                               list_type, position, ctx),
                               position, info))
         # Set list contents to segment of rhs from rhs_index until rhs_end
-        seq, _ = self.get_sequence(rhs_type, rhs, None, node, ctx, position)
+        if not seq:
+            seq, _ = self.get_sequence(rhs_type, rhs, None, node, ctx, position)
 
         seq_until = self.viper.SeqTake(seq, rhs_end, position, info)
         seq_from = self.viper.SeqDrop(seq_until, rhs_lit, position, info)
-- 
2.43.0


From 0c483d4c76ff6a13283d0ad6fee822fcbda6fd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:28 +0000
Subject: [PATCH 32/50] fix: evaluate the assigned value before the receiver of
 a property setter

---
 src/nagini_translation/translators/statement.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 83d8f8d..6eb5f97 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1443,6 +1443,10 @@ class StatementTranslator(CommonTranslator):
             assert isinstance(lhs, ast.Attribute)
             assert target.setter
             arg_stmt, arg = self.translate_expr(lhs.value, ctx)
+            if arg_stmt:
+                saved = [rhs]
+                arg_stmt = self.save_values(saved, ctx) + arg_stmt
+                rhs = saved[0]
             call = self.create_method_call_node(ctx, target.setter.sil_name, [arg, rhs],
                                                 [], position, info, target.setter, lhs)
             getter_type = self.translate_type(target.type, ctx)
-- 
2.43.0


From cadc6fe7fe87306b430e316e77cd42b24ac9d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:09 +0000
Subject: [PATCH 33/50] fix: use the parameter's value where it is reassigned
 in a pure function

---
 src/nagini_translation/translators/pure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/pure.py b/src/nagini_translation/translators/pure.py
index eb51c42..0b9fdc4 100644
--- a/src/nagini_translation/translators/pure.py
+++ b/src/nagini_translation/translators/pure.py
@@ -352,6 +352,9 @@ class PureTranslator(CommonTranslator):
                                              wrapper.names, ctx)
             if wrapper.name in ctx.var_aliases:
                 old_val = ctx.var_aliases[wrapper.name].ref()
+            elif wrapper.name in function.args:
+                # First assignment to a parameter.
+                old_val = function.args[wrapper.name].ref()
             else:
                 # Variable newly defined in conditional branch, so
                 # there is no old value; the variable is not defined
@@ -456,7 +459,10 @@ class PureTranslator(CommonTranslator):
             assert isinstance(wrapper, AssignWrapper)
             stmt, val = self.translate_expr(wrapper.expr.rhs, ctx)
             val = self.to_int(val, ctx)
-            var = ctx.var_aliases[wrapper.name].ref()
+            if wrapper.name in ctx.var_aliases:
+                var = ctx.var_aliases[wrapper.name].ref(wrapper.node, ctx)
+            else:
+                var = ctx.current_function.get_variable(wrapper.name).ref(wrapper.node, ctx)
             var = self.to_int(var, ctx)
             if isinstance(wrapper.expr.op, ast.Add):
                 val = self.viper.Add(var, val, position, info)
-- 
2.43.0


From 2ca2fdfdd4269b1e5c9690b2f609b81fc4513c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 34/50] fix: check the ghost information of match statements

---
 src/nagini_translation/ghost/ghost_checker.py | 75 ++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 8820fd0..2857e4c 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -90,6 +90,8 @@ class GhostChecker(ast.NodeVisitor):
         # Ghost statements are translated into terminating sections, which require
         # the obligation encoding to be enabled.
         self.has_ghost_statements = False
+        # Variables which have been used as regular variables.
+        self.regular_vars = set()
 
     @property
     def global_module(self) -> PythonModule:
@@ -582,6 +584,74 @@ class GhostChecker(ast.NodeVisitor):
         node.is_ghost = is_test_ghost
         self.set_contains_ghost(node, is_test_ghost, node.test, *node.body, *node.orelse)
 
+    def visit_Match(self, node: ast.Match):
+        # The executed case depends on the subject, the patterns and the guards.
+        is_match_ghost = self.is_ghost(node.subject)
+        for case in node.cases:
+            is_match_ghost = self.is_pattern_ghost(case.pattern) or is_match_ghost
+            if case.guard is not None:
+                is_match_ghost = self.is_ghost(case.guard) or is_match_ghost
+        for case in node.cases:
+            for name in self.get_bound_names(case.pattern):
+                self.check_bound_var(self.find_local(name), is_match_ghost, node,
+                                     'invalid.ghost.match')
+        old_ctx = self.in_ghost_ctx
+        self.in_ghost_ctx = old_ctx or is_match_ghost
+        if self.in_ghost_ctx:
+            self.check_for_call(node)
+        for case in node.cases:
+            for stmt in case.body:
+                self.visit(stmt)
+        self.in_ghost_ctx = old_ctx
+
+        node.is_ghost = is_match_ghost
+        self.set_contains_ghost(node, is_match_ghost, node.subject,
+                                *[stmt for case in node.cases for stmt in case.body])
+
+    def is_pattern_ghost(self, pattern: ast.pattern) -> bool:
+        """
+        Returns whether matching the given pattern accesses ghost elements.
+        """
+        result = False
+        for sub in ast.walk(pattern):
+            if isinstance(sub, ast.MatchValue):
+                result = self.is_ghost(sub.value) or result
+            elif isinstance(sub, ast.MatchClass):
+                cls = self.get_target(sub.cls, self.ctx)
+                if isinstance(cls, PythonType):
+                    fields = [cls.get_field(attr) for attr in sub.kwd_attrs]
+                    result = (self.is_ghost_type(cls) or result or
+                              any([self.is_ghost(f) for f in fields if f is not None]))
+        return result
+
+    def get_bound_names(self, pattern: ast.pattern) -> List[str]:
+        return [sub.name for sub in ast.walk(pattern)
+                if isinstance(sub, (ast.MatchAs, ast.MatchStar)) and sub.name is not None]
+
+    def find_local(self, name: str) -> Optional[PythonVarBase]:
+        """
+        Returns the variable with the given name that is visible in the current scope.
+        """
+        if self.ctx.current_function is not None:
+            return self.ctx.current_function.get_variable(name)
+        return self.current_module.global_vars.get(name)
+
+    def check_bound_var(self, var: Optional[PythonVarBase], is_binding_ghost: bool,
+                        node: ast.AST, error: str) -> None:
+        """
+        Checks that the given variable, which is bound by the given statement, may be
+        bound in regards to ghost information. Variables bound by ghost code are ghost.
+        """
+        if var is None:
+            return
+        if is_binding_ghost or self.in_ghost_ctx:
+            if var in self.regular_vars:
+                raise InvalidProgramException(
+                    node, error, f"Ghost code cannot assign to the variable {var.name}.")
+            var.is_ghost = True
+        elif var.is_ghost:
+            raise InvalidProgramException(node, error)
+
     def check_control_flow(self, is_test_ghost: bool, test: ast.expr, body: List[ast.stmt], orelse: List[ast.stmt]):
         if is_test_ghost:
             old_ctx = self.in_ghost_ctx
@@ -1165,7 +1235,10 @@ class GhostChecker(ast.NodeVisitor):
         elif isinstance(elem, PythonVarBase):
             # A variable is ghost if it was declared as such or if its type only
             # exists during verification.
-            return elem.is_ghost or self.is_ghost_type(elem.type)
+            res = elem.is_ghost or self.is_ghost_type(elem.type)
+            if not res:
+                self.regular_vars.add(elem)
+            return res
         elif isinstance(elem, PythonField):
             # A field is ghost if it was declared as such, if its type only
             # exists during verification, or if its class is ghost.
-- 
2.43.0


From 1294973be17732f220927e44699355aee146882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 35/50] fix: consider the filter of a comprehension for its
 ghost information

---
 src/nagini_translation/ghost/ghost_checker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 2857e4c..5c000f7 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1313,7 +1313,7 @@ class GhostChecker(ast.NodeVisitor):
             items = expr.elts
             res = any([self.is_ghost(e) for e in items])
         elif isinstance(expr, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
-            if len(expr.generators) != 1 or expr.generators[0].ifs:
+            if len(expr.generators) != 1:
                 # Nagini does not support these and reports that itself; we only
                 # have to be conservative about the ghost information here.
                 items = [generator.iter for generator in expr.generators]
@@ -1340,8 +1340,12 @@ class GhostChecker(ast.NodeVisitor):
                 is_elt_ghost = self.is_ghost(expr.elt)
                 items = [expr.elt, gen]
 
+            filters = expr.generators[0].ifs
+            items.extend(filters)
+            is_filter_ghost = any([self.is_ghost(e) for e in filters])
+
             self.ctx.remove_alias(target.id)
-            res = is_gen_ghost or is_elt_ghost
+            res = is_gen_ghost or is_elt_ghost or is_filter_ghost
         elif isinstance(expr, ast.JoinedStr):
             # A formatted string is ghost if one of its interpolated values is.
             items = expr.values
-- 
2.43.0


From 9c7994418261afd84943ad04ca5d7be5402f6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 36/50] fix: consider the arguments of constructors of builtin
 types for their ghost information

---
 src/nagini_translation/ghost/ghost_checker.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 5c000f7..e86e049 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -981,11 +981,14 @@ class GhostChecker(ast.NodeVisitor):
                 curr_cls = curr_cls.superclass
             if init is None:
                 # Empty object init
-                res = self.is_ghost(called_func) or self.in_ghost_ctx or is_receiver_ghost
-                call.is_ghost = res
-                call.contains_ghost = res
-                call.is_pure = True
-                return res, None
+                return self._check_unresolved_call(
+                    call, self.is_ghost(called_func) or is_receiver_ghost)
+            if (isinstance(called_func, PythonClass) and
+                    called_func.module is self.global_module):
+                # Classes like list, whose constructors do not depend on anything but
+                # their arguments.
+                return self._check_unresolved_call(
+                    call, self.is_ghost(called_func) or is_receiver_ghost)
             # Constructor calls return an instance of the class, not the result
             # of __init__, so we remember the ghost information of the class here.
             is_class_ghost = self.is_ghost(called_func)
-- 
2.43.0


From 9f616497d0dff4d9718c5349863b63882bebe4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 37/50] fix: treat attributes of ghost references as ghost

---
 src/nagini_translation/ghost/ghost_checker.py | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index e86e049..e7fdc43 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -475,6 +475,14 @@ class GhostChecker(ast.NodeVisitor):
 
     def check_assign(self, value: Union[ast.expr, bool], target: ast.expr, allow_conversion: bool =True) -> None:        
         if isinstance(target, (ast.Name, ast.Attribute)):
+            if (isinstance(target, ast.Attribute) and
+                    not self.is_static_receiver(target.value) and
+                    self.is_ghost(target.value) and
+                    not self.resolve_target_ghost(target)):
+                # The object may be the value of a regular variable as well.
+                raise InvalidProgramException(
+                    target, 'invalid.ghost.assign',
+                    "Regular fields may not be assigned via ghost references.")
             if not self.is_assignable(value, target, allow_conversion):
                 raise InvalidProgramException(
                     target, 'invalid.ghost.assign',
@@ -1132,6 +1140,14 @@ class GhostChecker(ast.NodeVisitor):
         call.is_pure = False
         return False, None
 
+    def is_static_receiver(self, receiver: ast.expr) -> bool:
+        """
+        Returns whether the given expression denotes a module or a class.
+        """
+        return (isinstance(receiver, (ast.Name, ast.Attribute)) and
+                isinstance(self.get_target(receiver, self.ctx),
+                           (PythonModule, PythonType)))
+
     def check_receiver(self, call: ast.Call) -> bool:
         """
         Determines whether the receiver of the given call (if any) is ghost.
@@ -1373,6 +1389,10 @@ class GhostChecker(ast.NodeVisitor):
         elif isinstance(expr, ast.Attribute):
             items = []
             res = self.resolve_target_ghost(expr)
+            if not self.is_static_receiver(expr.value):
+                # Reading an attribute of a ghost receiver yields a ghost value.
+                items = [expr.value]
+                res = self.is_ghost(expr.value) or res
         elif isinstance(expr, ast.Subscript):
             name = self.get_subscript_name(expr)
             if name in ["Union", "Tuple"] and isinstance(expr.slice, ast.Tuple):
-- 
2.43.0


From 2f2f244b8d1c720f38d349dea49d87e598dc9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 38/50] fix: treat the value of a property with a ghost return
 type as ghost

---
 src/nagini_translation/ghost/ghost_checker.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index e7fdc43..c129cd1 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1440,10 +1440,18 @@ class GhostChecker(ast.NodeVisitor):
         expression.
         """
         target = self.get_target(expr, self.ctx)
+        if isinstance(target, PythonMethod) and self.is_property(target):
+            # Reading the attribute calls the getter.
+            return self.is_ghost(target) or self.get_return_info(target) not in (None, False)
         if target is not None:
             return self.is_ghost(target)
         return self.is_ghost_type(self.get_type(expr, self.ctx))
 
+    def is_property(self, method: PythonMethod) -> bool:
+        return method.node is not None and any(
+            isinstance(d, ast.Name) and d.id == 'property'
+            for d in getattr(method.node, 'decorator_list', []))
+
     def set_contains_ghost(self, node: ast.AST, is_node_ghost: bool, *sub_exprs: ast.AST) -> None:
         node.contains_ghost = is_node_ghost or any(
             [sub_expr.contains_ghost for sub_expr in sub_exprs if isinstance(sub_expr, ast.AST)]
-- 
2.43.0


From fc24098c743924e338da64b6bf5acf76f1c9c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 39/50] fix: reject ghost loops which assign to regular
 variables

---
 src/nagini_translation/ghost/ghost_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index c129cd1..a09d2e1 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -540,10 +540,10 @@ class GhostChecker(ast.NodeVisitor):
 
     def visit_For(self, node: ast.For):
         is_iter_ghost = self.is_ghost(node.iter)
-        if is_iter_ghost:
+        if is_iter_ghost or self.in_ghost_ctx:
             # Set is_ghost flag of all vars
             def set_var_ghost(var: PythonVarBase) -> None:
-                var.is_ghost = True
+                self.check_bound_var(var, True, node, 'invalid.ghost.For')
             if not self.call_on_vars(node.target, set_var_ghost):
                 # Iterating over a ghost collection into a target that cannot be
                 # made ghost (e.g. a field or a subscript) is not allowed.
-- 
2.43.0


From 6d8c1d288f67c37d5b1458a8eda8b138ea474267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 40/50] fix: reject overriding methods which differ in regards
 to ghost information

---
 src/nagini_translation/ghost/ghost_checker.py | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index a09d2e1..dd61768 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -277,6 +277,8 @@ class GhostChecker(ast.NodeVisitor):
         if current_function is None:
             raise InvalidProgramException(node, 'invalid.ghost.functionDef', f"Couldn't correctly resolve function {node.name}")
         
+        self.check_override(node, current_function)
+
         self.ctx.current_function = current_function
         old_ghost_ctx = self.in_ghost_ctx
         self.in_ghost_ctx = current_function.is_ghost
@@ -339,6 +341,24 @@ class GhostChecker(ast.NodeVisitor):
         node.is_ghost = current_function.is_ghost
         node.contains_ghost = contains_ghost or any([stmt.contains_ghost for stmt in node.body])
 
+    def check_override(self, node: ast.FunctionDef, method: PythonMethod) -> None:
+        """
+        Checks that the given method agrees with the one it overrides (if any), since
+        calls are only checked against the latter.
+        """
+        overridden = getattr(method, 'overrides', None)
+        if not isinstance(overridden, PythonMethod) or method.name == '__init__':
+            return
+        args = zip(method.args.values(), overridden.args.values())
+        if (self.is_ghost(method) != self.is_ghost(overridden) or
+                self.get_return_info(method) != self.get_return_info(overridden) or
+                any([self.is_ghost(arg) != self.is_ghost(overridden_arg)
+                     for arg, overridden_arg in list(args)[1:]])):
+            raise InvalidProgramException(
+                node, 'invalid.ghost.functionDef',
+                f"The method {node.name} overrides a method whose parameters or return "
+                f"value differ in regards to ghost information.")
+
     def visit_Return(self, node: ast.Return) -> None:
         if self.ctx.actual_function.is_ghost:
             # Ghost returns are only invalid if we call an impure regular function
-- 
2.43.0


From 9011afb114a15f97f98cff5754f10a6d52c45875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 41/50] fix: reject contract only ghost functions which raise
 exceptions

---
 src/nagini_translation/ghost/ghost_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index dd61768..ec9b819 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -329,6 +329,9 @@ class GhostChecker(ast.NodeVisitor):
             contains_ghost = True
 
         if contract_only:
+            if current_function.is_ghost and current_function.declared_exceptions:
+                raise InvalidProgramException(node, 'invalid.ghost.raise',
+                                              "Ghost code cannot raise exceptions.")
             # The body consists of specifications only.
             for stmt in node.body:
                 self.mark_ghost(stmt)
-- 
2.43.0


From 171e71fa2674a7bafc20acffabd360e6193ecc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:37 +0000
Subject: [PATCH 42/50] fix: only treat calls of the builtin functions as calls
 without side effects

---
 src/nagini_translation/ghost/ghost_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index ec9b819..c9b6f06 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -957,7 +957,7 @@ class GhostChecker(ast.NodeVisitor):
             call.contains_ghost = True
             call.is_pure = True
             return True, None
-        elif func_name in PURE_REG_CALLS:
+        elif func_name in PURE_REG_CALLS and isinstance(call.func, ast.Name):
             return self._check_unresolved_call(call, False)
 
 
-- 
2.43.0


From 0ca6f52db60f6284505b9370f44b0f92d7a3c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 43/50] fix: treat results of user-defined operators with ghost
 return types as ghost

---
 src/nagini_translation/ghost/ghost_checker.py | 42 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index c9b6f06..316f6c2 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -17,7 +17,9 @@ from nagini_contracts.io_contracts import (
     IO_MIXED_RETURN_FUNCS, IO_OPERATION_PROPERTY_FUNCS, IO_FUNCS, IO_DECORATORS
     )
 from nagini_contracts.obligations import OBLIGATION_CONTRACT_FUNCS
-from nagini_translation.lib.constants import OBJECT_TYPE, THREADING
+from nagini_translation.lib.constants import (
+    LEFT_OPERATOR_FUNCTIONS, OBJECT_TYPE, RIGHT_OPERATOR_FUNCTIONS, THREADING
+    )
 from nagini_translation.lib.program_nodes import (
     MethodType, PythonModule, PythonType, PythonMethod, PythonIOOperation,
     PythonVarBase, PythonClass, PythonNode, PythonField, UnionType, GenericType
@@ -44,6 +46,18 @@ ALL_CONTRACT_ELEMS = (CONTRACT_FUNCS + CONTRACT_WRAPPER_FUNCS +
 # Names of types which are always ghost, i.e. which only exist during verification.
 ALL_GHOST_TYPE_NAMES = GHOST_BUILTINS + GHOST_IO_TYPES
 
+# Names of the methods which may implement the given comparison operator.
+COMPARISON_FUNCTIONS = {
+    ast.Eq: ('__eq__',),
+    ast.NotEq: ('__ne__', '__eq__'),
+    ast.Lt: ('__lt__', '__gt__'),
+    ast.LtE: ('__le__', '__ge__'),
+    ast.Gt: ('__gt__', '__lt__'),
+    ast.GtE: ('__ge__', '__le__'),
+    ast.In: ('__contains__',),
+    ast.NotIn: ('__contains__',),
+}
+
 NAGINI_DECORATORS = CONTRACT_DECORATORS + IO_DECORATORS
 
 # Nagini functions which can be used in a regular context, when the given Nth argument is regular
@@ -1332,7 +1346,9 @@ class GhostChecker(ast.NodeVisitor):
         elif isinstance(expr, ast.BinOp):
             left_b = self.is_ghost(expr.left)
             right_b = self.is_ghost(expr.right)
-            res = left_b or right_b
+            res = left_b or right_b or self.is_operator_ghost(
+                (expr.left, LEFT_OPERATOR_FUNCTIONS[type(expr.op)]),
+                (expr.right, RIGHT_OPERATOR_FUNCTIONS[type(expr.op)]))
             items = [expr.left, expr.right]
         elif isinstance(expr, ast.UnaryOp):
             items = [expr.operand]
@@ -1401,6 +1417,10 @@ class GhostChecker(ast.NodeVisitor):
         elif isinstance(expr, ast.Compare):
             items = [expr.left] + expr.comparators
             res = any([self.is_ghost(e) for e in items])
+            res = res or any([self.is_operator_ghost((receiver, method_name))
+                              for left, op, right in zip(items, expr.ops, expr.comparators)
+                              for receiver in (left, right)
+                              for method_name in COMPARISON_FUNCTIONS.get(type(op), ())])
         elif isinstance(expr, ast.Call):
             is_func_ghost, ret_info = self.check_call(expr)
             # A return value which has a ghost part may only be used as a whole
@@ -1429,6 +1449,7 @@ class GhostChecker(ast.NodeVisitor):
                 # value, yields a ghost value.
                 items = [expr.value, expr.slice]
                 res = any([self.is_ghost(e) for e in items])
+                res = res or self.is_operator_ghost((expr.value, '__getitem__'))
         elif isinstance(expr, ast.Slice):
             items = [e for e in (expr.lower, expr.upper, expr.step) if e is not None]
             res = any([self.is_ghost(e) for e in items])
@@ -1470,6 +1491,23 @@ class GhostChecker(ast.NodeVisitor):
             return self.is_ghost(target)
         return self.is_ghost_type(self.get_type(expr, self.ctx))
 
+    def is_operator_ghost(self, *operators: Tuple[ast.expr, str]) -> bool:
+        """
+        Returns whether one of the given user-defined operators, each given as the
+        receiver and the name of the method implementing it, yields a ghost value.
+        """
+        for receiver, method_name in operators:
+            receiver_type = self.get_type(receiver, self.ctx)
+            if isinstance(receiver_type, GenericType):
+                receiver_type = receiver_type.python_class
+            if not isinstance(receiver_type, PythonClass):
+                continue
+            method = receiver_type.get_func_or_method(method_name)
+            if (method is not None and method.node is not None and
+                    self.get_return_info(method) not in (None, False)):
+                return True
+        return False
+
     def is_property(self, method: PythonMethod) -> bool:
         return method.node is not None and any(
             isinstance(d, ast.Name) and d.id == 'property'
-- 
2.43.0


From 98d827a83642fe4db7b2008a10045eefe2fca12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:17 +0000
Subject: [PATCH 44/50] fix: reject unpacking of dictionaries and check that
 globals in default values of methods are defined

---
 .../translators/statement.py                  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 6eb5f97..7989777 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -352,8 +352,28 @@ class StatementTranslator(CommonTranslator):
         if not method:
             return []
         dep_check = self._check_dependencies_defined(method, node, ctx)
+        if ctx.current_class:
+            dep_check.extend(self._check_defaults_defined(node, ctx))
         return dep_check + [self.set_global_defined(method, ctx.module, node, ctx)]
 
+    def _check_defaults_defined(self, node: ast.FunctionDef,
+                                ctx: Context) -> List[Stmt]:
+        """
+        Returns statements that check that all global names used in the default values
+        of the given function definition, which are evaluated when the definition is
+        executed, are currently defined.
+        """
+        stmts = []
+        defaults = node.args.defaults + node.args.kw_defaults
+        names = [name for default in defaults if default for name in ast.walk(default)
+                 if isinstance(name, ast.Name)]
+        for name in names:
+            target = self.get_target(name, ctx)
+            if isinstance(target, PythonGlobalVar):
+                stmts.extend(self.assert_global_defined(target, ctx.module, name, ctx,
+                                                        call_deps=False))
+        return stmts
+
     def translate_stmt_ClassDef(self, node: ast.ClassDef, ctx: Context) -> List[Stmt]:
         """
         Class definitions in the global method are translated to 1) a check that
@@ -1408,6 +1428,9 @@ class StatementTranslator(CommonTranslator):
             return self._assign_to_starred(lhs, rhs, rhs_index, rhs_end,
                                            rhs_type, node, ctx)
         if rhs_index is not None:
+            if rhs_type.python_class.name == DICT_TYPE:
+                # Unpacking a dict yields its keys, whose order we do not know.
+                raise UnsupportedException(node, 'unpacking of dictionaries')
             rhs_lit = self.viper.IntLit(rhs_index, position, info)
             args = [rhs, rhs_lit]
             arg_types = [rhs_type, None]
-- 
2.43.0


From d16459bd03957eff57c1caab9c2afa42861b5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:15 +0000
Subject: [PATCH 45/50] fix: keep the index of elements after a starred target
 when storing unpacked elements

---
 src/nagini_translation/translators/statement.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 7989777..44caaa4 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1648,14 +1648,8 @@ class StatementTranslator(CommonTranslator):
             if elements and isinstance(e, ast.Starred):
                 stmt, val = self._assign_to_starred(e, rhs, index, next_expr, rhs_type,
                                                     node, ctx, elements)
-            elif elements:
-                if has_starred_receiver:
-                    length = self.viper.SeqLength(elements, position, info)
-                    element_index = self.viper.Add(
-                        length, self.viper.IntLit(index - len(lhs.elts), position, info),
-                        position, info)
-                else:
-                    element_index = self.viper.IntLit(index, position, info)
+            elif elements and not has_starred_receiver:
+                element_index = self.viper.IntLit(index, position, info)
                 element = self.viper.SeqIndex(elements, element_index, position, info)
                 stmt, val = self.assign_to(e, element, None, None,
                                            rhs_type.type_args[0], node, ctx)
-- 
2.43.0


From fbe3318d37fd9f75a2123e1756b6f8368c0f8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:17 +0000
Subject: [PATCH 46/50] fix: check the arguments of thread creations for their
 ghost information

---
 src/nagini_translation/ghost/ghost_checker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 316f6c2..206c5bc 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1008,6 +1008,9 @@ class GhostChecker(ast.NodeVisitor):
             # IO operations only exist during verification.
             return self._check_ghost_func(call)
 
+        if isinstance(called_func, PythonClass) and called_func.name in THREADING:
+            return self._check_thread_call(call)
+
         if isinstance(called_func, (PythonClass, PythonVarBase)):
             if isinstance(called_func, PythonVarBase):
                 # Function stored in var is called.
@@ -1161,13 +1164,19 @@ class GhostChecker(ast.NodeVisitor):
 
     def _check_thread_call(self, call: ast.Call) -> Tuple[bool, return_info_t]:
         """
-        Handles calls of the methods of Thread objects, which Nagini translates
-        specially. Their arguments must all be regular.
+        Handles creations of Thread objects and calls of their methods, which Nagini
+        translates specially. Their arguments must all be regular.
         """
         contains_ghost = False
         arguments = list(call.args) + [kw.value for kw in call.keywords]
         for argument in arguments:
-            if self.is_ghost(argument):
+            is_argument_ghost = self.is_ghost(argument)
+            target = (self.get_target(argument, self.ctx)
+                      if isinstance(argument, (ast.Name, ast.Attribute)) else None)
+            if isinstance(target, PythonMethod) and target.predicate:
+                # Not a valid target of a thread, which is reported later.
+                continue
+            if is_argument_ghost:
                 raise InvalidProgramException(
                     call, 'invalid.ghost.call',
                     "Threads cannot be used with ghost values.")
-- 
2.43.0


From 724e7e1233bd9feb3a04f064f4e13e5773454c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:50 +0000
Subject: [PATCH 47/50] fix: float_real: comparisons with NaN and infinities
 must not be contradictory, int() truncates toward zero

---
 .../resources/float_real.sil                  | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/nagini_translation/resources/float_real.sil b/src/nagini_translation/resources/float_real.sil
index 3314885..4205398 100644
--- a/src/nagini_translation/resources/float_real.sil
+++ b/src/nagini_translation/resources/float_real.sil
@@ -49,10 +49,11 @@ function float___isNaN(f: Ref): Bool
 
 function float___bool__(self: Ref): Bool
     decreases _
-    requires issubtype(typeof(self), float())
-    ensures float___is_nan__(self) == false && float___is_inf__(self, false) == false && float___is_inf__(self, true) == false ==>
+    requires self != null ==> issubtype(typeof(self), float())
+    ensures self == null ==> !result
+    ensures self != null && float___is_nan__(self) == false && float___is_inf__(self, false) == false && float___is_inf__(self, true) == false ==>
         result == (float___unbox__(self) != 0 / 1)
-    ensures float___is_nan__(self) == true || float___is_inf__(self, false) == true || float___is_inf__(self, true) == true ==>
+    ensures self != null && (float___is_nan__(self) == true || float___is_inf__(self, false) == true || float___is_inf__(self, true) == true) ==>
         result == true
 
 function float___ge__(self: Ref, other: Ref): Bool
@@ -61,10 +62,10 @@ function float___ge__(self: Ref, other: Ref): Bool
     requires issubtype(typeof(other), float())
     ensures float___is_nan__(self) == true || float___is_nan__(other) == true ==>
         result == false
-    ensures float___is_inf__(self, false) == true ==> result == true
-    ensures float___is_inf__(self, true) == true ==> result == (float___is_inf__(other, true) == true)
-    ensures float___is_inf__(other, false) == true ==> result == (float___is_inf__(self, false) == true)
-    ensures float___is_inf__(other, true) == true ==> result == true
+    ensures float___is_inf__(self, false) == true && float___is_nan__(other) == false ==> result == true
+    ensures float___is_inf__(self, true) == true && float___is_nan__(other) == false ==> result == (float___is_inf__(other, true) == true)
+    ensures float___is_inf__(other, false) == true && float___is_nan__(self) == false ==> result == (float___is_inf__(self, false) == true)
+    ensures float___is_inf__(other, true) == true && float___is_nan__(self) == false ==> result == true
     ensures float___is_nan__(self) == false && float___is_nan__(other) == false &&
         float___is_inf__(self, false) == false && float___is_inf__(self, true) == false &&
         float___is_inf__(other, false) == false && float___is_inf__(other, true) == false ==>
@@ -76,10 +77,10 @@ function float___gt__(self: Ref, other: Ref): Bool
     requires issubtype(typeof(other), float())
     ensures float___is_nan__(self) == true || float___is_nan__(other) == true ==>
         result == false
-    ensures float___is_inf__(self, false) == true ==> result == (float___is_inf__(other, false) == false)
-    ensures float___is_inf__(self, true) == true ==> result == false
-    ensures float___is_inf__(other, false) == true ==> result == false
-    ensures float___is_inf__(other, true) == true ==> result == (float___is_inf__(self, true) == false)
+    ensures float___is_inf__(self, false) == true && float___is_nan__(other) == false ==> result == (float___is_inf__(other, false) == false)
+    ensures float___is_inf__(self, true) == true && float___is_nan__(other) == false ==> result == false
+    ensures float___is_inf__(other, false) == true && float___is_nan__(self) == false ==> result == false
+    ensures float___is_inf__(other, true) == true && float___is_nan__(self) == false ==> result == (float___is_inf__(self, true) == false)
     ensures float___is_nan__(self) == false && float___is_nan__(other) == false &&
         float___is_inf__(self, false) == false && float___is_inf__(self, true) == false &&
         float___is_inf__(other, false) == false && float___is_inf__(other, true) == false ==>
@@ -91,10 +92,10 @@ function float___le__(self: Ref, other: Ref): Bool
     requires issubtype(typeof(other), float())
     ensures float___is_nan__(self) == true || float___is_nan__(other) == true ==>
         result == false
-    ensures float___is_inf__(self, false) == true ==> result == (float___is_inf__(other, false) == true)
-    ensures float___is_inf__(self, true) == true ==> result == true
-    ensures float___is_inf__(other, false) == true ==> result == true
-    ensures float___is_inf__(other, true) == true ==> result == (float___is_inf__(self, true) == true)
+    ensures float___is_inf__(self, false) == true && float___is_nan__(other) == false ==> result == (float___is_inf__(other, false) == true)
+    ensures float___is_inf__(self, true) == true && float___is_nan__(other) == false ==> result == true
+    ensures float___is_inf__(other, false) == true && float___is_nan__(self) == false ==> result == true
+    ensures float___is_inf__(other, true) == true && float___is_nan__(self) == false ==> result == (float___is_inf__(self, true) == true)
     ensures float___is_nan__(self) == false && float___is_nan__(other) == false &&
         float___is_inf__(self, false) == false && float___is_inf__(self, true) == false &&
         float___is_inf__(other, false) == false && float___is_inf__(other, true) == false ==>
@@ -106,10 +107,10 @@ function float___lt__(self: Ref, other: Ref): Bool
     requires issubtype(typeof(other), float())
     ensures float___is_nan__(self) == true || float___is_nan__(other) == true ==>
         result == false
-    ensures float___is_inf__(self, false) == true ==> result == false
-    ensures float___is_inf__(self, true) == true ==> result == (float___is_inf__(other, true) == false)
-    ensures float___is_inf__(other, false) == true ==> result == (float___is_inf__(self, false) == false)
-    ensures float___is_inf__(other, true) == true ==> result == false
+    ensures float___is_inf__(self, false) == true && float___is_nan__(other) == false ==> result == false
+    ensures float___is_inf__(self, true) == true && float___is_nan__(other) == false ==> result == (float___is_inf__(other, true) == false)
+    ensures float___is_inf__(other, false) == true && float___is_nan__(self) == false ==> result == (float___is_inf__(self, false) == false)
+    ensures float___is_inf__(other, true) == true && float___is_nan__(self) == false ==> result == false
     ensures float___is_nan__(self) == false && float___is_nan__(other) == false &&
         float___is_inf__(self, false) == false && float___is_inf__(self, true) == false &&
         float___is_inf__(other, false) == false && float___is_inf__(other, true) == false ==>
@@ -418,7 +419,7 @@ function float___int__(self: Ref): Ref
     requires float___is_nan__(self) == false
     requires float___is_inf__(self, false) == false && float___is_inf__(self, true) == false
     ensures typeof(result) == int()
-    ensures result == __prim__int___box__(____to_int(float___unbox__(self)))
+    ensures result == __prim__int___box__(float___unbox__(self) >= 0 / 1 ? ____to_int(float___unbox__(self)) : -____to_int(-float___unbox__(self)))
 
 domain ___real_helper  {
   function ____to_int(p: Perm): Int interpretation "to_int"
-- 
2.43.0


From fc076fc88467462b3a4b319edc1a0ffe466ea6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:50 +0000
Subject: [PATCH 48/50] fix: float_ieee32: test against zero with fp.eq, int()
 truncates and requires a finite argument

---
 src/nagini_translation/resources/float_ieee32.sil | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nagini_translation/resources/float_ieee32.sil b/src/nagini_translation/resources/float_ieee32.sil
index b4add23..cc82299 100644
--- a/src/nagini_translation/resources/float_ieee32.sil
+++ b/src/nagini_translation/resources/float_ieee32.sil
@@ -16,7 +16,7 @@ function float___bool__(self: Ref): Bool
     decreases _
     requires self != null ==> issubtype(typeof(self), float())
     ensures self == null ==> !result
-    ensures self != null ==> result == (float___unbox__(self) != ___float32_zero())
+    ensures self != null ==> result == !___float32_eq(float___unbox__(self), ___float32_zero())
 
 function float___isNaN(f: Ref): Bool
     decreases _
@@ -99,7 +99,7 @@ function float___truediv__(self: Ref, other: Ref): Ref
     decreases _
     requires issubtype(typeof(self), float())
     requires issubtype(typeof(other), float())
-    requires @error("Divisor may be zero.")(float___unbox__(other) != ___float32_zero())
+    requires @error("Divisor may be zero.")(!___float32_eq(float___unbox__(other), ___float32_zero()))
     ensures issubtype(typeof(result), float())
     ensures result == __prim__perm___box__(___float32_div(float___unbox__(self), float___unbox__(other)))
 
@@ -119,13 +119,14 @@ function float___rtruediv__(self: Ref, other: Ref): Ref
     decreases _
     requires issubtype(typeof(self), float())
     requires issubtype(typeof(other), float())
-    requires @error("Divisor may be zero.")(float___unbox__(self) != ___float32_zero())
+    requires @error("Divisor may be zero.")(!___float32_eq(float___unbox__(self), ___float32_zero()))
     ensures issubtype(typeof(result), float())
     ensures result == __prim__perm___box__(___float32_div(float___unbox__(other), float___unbox__(self)))
 
 function float___int__(self: Ref): Ref
     decreases _
     requires issubtype(typeof(self), float())
+    requires !___float32_isNaN(float___unbox__(self)) && !___float32_isInfinite(float___unbox__(self))
     ensures typeof(result) == int()
     ensures result == __prim__int___box__(___float32_to_int(float___unbox__(self)))
 
@@ -150,6 +151,7 @@ domain ___float32 interpretation (Boogie: "float24e8", SMTLIB: "(_ FloatingPoint
   function ___float32_to_real(p: ___float32): Perm interpretation "fp.to_real"
   function ___float32_NaN(): ___float32 interpretation "(_ NaN 8 24)"
   function ___float32_isNaN(___float32): Bool interpretation "fp.isNaN"
+  function ___float32_isInfinite(___float32): Bool interpretation "fp.isInfinite"
 }
 
 function ___float32_zero(): ___float32
@@ -161,5 +163,5 @@ function ___float32_zero(): ___float32
 function ___float32_to_int(f: ___float32): Int
     decreases _
 {
-    real____to_int(___float32_to_real(f))
+    ___float32_to_real(f) >= 0 / 1 ? real____to_int(___float32_to_real(f)) : -real____to_int(-___float32_to_real(f))
 }
\ No newline at end of file
-- 
2.43.0


From f2987172eb57f04db6ca253caa9c99538ddd9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 49/50] fix: ADT axioms speak only about constructor arguments
 of the declared types

---
 src/nagini_translation/translators/program.py | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index d2bfac0..66c164d 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -791,6 +791,23 @@ class ProgramTranslator(CommonTranslator):
                                         adt.adt_domain_name)
 
 
+    def _guard_adt_axiom(self, body: Expr, cons: PythonClass, adt: PythonClass,
+                         args: List[Var], pos: Position, info: Info,
+                         ctx: Context) -> Expr:
+        """
+        Restricts the given statement about applications of an ADT constructor to
+        arguments of the declared types. Constructors are total, but deconstructors
+        always return values of the declared types (see
+        _create_adt_axiom_deconstructor_types), so nothing can be said about others.
+        """
+        for field, arg in zip(cons.fields.values(), args):
+            if (isinstance(field.type, PythonClass) and
+                    (field.type.name in PRIMITIVES or field.type is adt)):
+                continue
+            check = self.type_check(arg, field.type, pos, ctx, False)
+            body = self.viper.Implies(check, body, pos, info)
+        return body
+
     def _create_adt_equality_axioms(self, adt: PythonClass,
                                     adt_type: DomainType, pos: Position,
                                     info: Info, ctx: Context) -> List[DomainAxiom]:
@@ -813,6 +830,10 @@ class ProgramTranslator(CommonTranslator):
                               for (first, second) in zip(args, args_2)]
                 args_equal = self._conjoin(args_equal, pos, info)
                 both_equal = self.viper.EqCmp(cons_equal, args_equal, pos, info)
+                both_equal = self._guard_adt_axiom(both_equal, cons, adt, args_2, pos,
+                                                   info, ctx)
+                both_equal = self._guard_adt_axiom(both_equal, cons, adt, args, pos,
+                                                   info, ctx)
                 trigger = self.viper.Trigger([cons_call, cons_call_2], pos, info)
                 quant = self.viper.Forall(args_decl + args_decl_2, [trigger], both_equal,
                                           pos, info)
@@ -843,6 +864,7 @@ class ProgramTranslator(CommonTranslator):
                                                            [cons_call], arg.typ(), pos,
                                                            info, adt.adt_domain_name)
                     eq = self.viper.EqCmp(decons_call, arg, pos, info)
+                    eq = self._guard_adt_axiom(eq, cons, adt, args, pos, info, ctx)
                     trigger = self.viper.Trigger([decons_call], pos, info)
                     forall = self.viper.Forall(args_decl, [trigger], eq, pos, info)
                     foralls.append(forall)
-- 
2.43.0


From 44b06693370e251d9d4fd2f08ca066b35cd6a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:43 +0000
Subject: [PATCH 50/50] fix: bind the receiver of calls of inlined methods

The receiver of a call of an inlined method was dropped, so that the arguments
were bound to the wrong parameters and self could denote the first argument.
---
 src/nagini_translation/translators/call.py | 24 ++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 7927d75..4d6b9aa 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1103,11 +1103,13 @@ class CallTranslator(CommonTranslator):
         return stmts, end_label
 
     def _inline_call(self, method: PythonMethod, node: ast.Call, is_super: bool,
-                     inline_reason: str, ctx: Context) -> StmtsAndExpr:
+                     inline_reason: str, ctx: Context, recv_stmts: List[Stmt] = [],
+                     recv_exprs: List[Expr] = []) -> StmtsAndExpr:
         """
         Inlines a statically bound call to the given method. If is_super is set,
         adds self to the arguments, since this will not be part of the args
-        of the call node.
+        of the call node. If the method is called on a receiver, recv_exprs contains
+        it, and recv_stmts the statements needed to evaluate it.
         """
         assert ctx.current_function
         if method in ctx.inlined_calls:
@@ -1117,7 +1119,8 @@ class CallTranslator(CommonTranslator):
         ctx.position.append((inline_reason, position))
         arg_stmts, arg_vals, arg_types = self._translate_call_args(node, ctx)
         args = []
-        stmts = arg_stmts
+        stmts = recv_stmts + arg_stmts
+        arg_vals = recv_exprs + arg_vals
 
         # Create local vars for parameters and assign args to them
         if is_super:
@@ -1273,6 +1276,8 @@ class CallTranslator(CommonTranslator):
         name = get_func_name(node)
         position = self.to_position(node, ctx)
         is_predicate = True
+        recv_stmts = []
+        recv_exprs = []
         if isinstance(node.func, ast.Attribute):
             receiver_target = self.get_target(node.func.value, ctx)
             if (isinstance(receiver_target, PythonClass) and
@@ -1283,10 +1288,11 @@ class CallTranslator(CommonTranslator):
                     receiver_class = None
                     is_predicate = target.predicate
                 elif target.method_type == MethodType.class_method:
-                    rec_stmt, receiver = self.translate_expr(node.func.value,
-                                                             ctx)
-                    arg_stmts = rec_stmt + arg_stmts
-                    args = [receiver] + args
+                    recv_stmts, receiver = self.translate_expr(node.func.value,
+                                                               ctx)
+                    recv_exprs = [receiver]
+                    arg_stmts = recv_stmts + arg_stmts
+                    args = recv_exprs + args
                     arg_types = ([ctx.module.global_module.classes['type']] +
                                  arg_types)
                     receiver_class = receiver_target
@@ -1331,6 +1337,8 @@ class CallTranslator(CommonTranslator):
                     arg_stmts = recv_stmts + arg_stmts
                     args = recv_exprs + args
                     arg_types = recv_types + arg_types
+                else:
+                    recv_exprs = []
         else:
             # Global function/method called
             receiver_class = None
@@ -1366,7 +1374,7 @@ class CallTranslator(CommonTranslator):
         else:
             if target.inline:
                 return self._inline_call(target, node, False, 'inlined call',
-                                         ctx)
+                                         ctx, recv_stmts, recv_exprs)
             return self._translate_method_call(target, args, arg_stmts,
                                                position, node, ctx)
 
-- 
2.43.0

