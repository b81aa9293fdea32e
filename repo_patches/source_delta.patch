From a0f67b9d284b86501f9308ca13d9d5dd891f04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 01/62] fix: pass the offending node when rejecting an invalid
 global statement

---
 src/nagini_translation/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 63c5053..5c801ba 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1601,7 +1601,7 @@ class Analyzer(ast.NodeVisitor):
     def visit_Global(self, node: ast.Global) -> None:
         for name in node.names:
             if name in self.current_function.locals:
-                raise InvalidProgramException('invalid.global.statement')
+                raise InvalidProgramException(node, 'invalid.global.statement')
             self.current_function.globals.add(name)
 
     def visit_Nonlocal(self, node: ast.Nonlocal) -> None:
-- 
2.43.0


From 01dd756ed375324d0edad47b64caa157a4d1b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 02/62] fix: pass node and code in the right order when
 rejecting an impure static field value

---
 src/nagini_translation/translators/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 5f71555..380a235 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -154,7 +154,7 @@ class ProgramTranslator(CommonTranslator):
             else:
                 stmt, value = self.translate_expr(field.value, ctx)
             if stmt:
-                raise InvalidProgramException('purity.violated', field.node)
+                raise InvalidProgramException(field.node, 'purity.violated')
             field_position = self.to_position(field.node, ctx)
             # Create a postcondition of the form
             # receiver == cls ==> result == value
-- 
2.43.0


From fdd2a562245d7cfd56b04e692d6ee6863408fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 03/62] fix: use the translator's Viper factory for empty byte
 sequences

---
 src/nagini_translation/lib/silver_nodes/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/silver_nodes/types.py b/src/nagini_translation/lib/silver_nodes/types.py
index 92c69d2..4b682e8 100644
--- a/src/nagini_translation/lib/silver_nodes/types.py
+++ b/src/nagini_translation/lib/silver_nodes/types.py
@@ -175,7 +175,7 @@ class PByteSeq:
                   position: Position, info: Info) -> Expr:
         """Translate to Silver sequence."""
         if not self._elements:
-            return translator.viper.EmptySeq(self.viper.Int, position, info)
+            return translator.viper.EmptySeq(translator.viper.Int, position, info)
         else:
             elements = [element.translate(translator, ctx, position, info)
                         for element in self._elements]
-- 
2.43.0


From 2e3e197b7551e71a8c4fcac25b017cbc4c297342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 04/62] fix: reject binary operators without an implementation
 instead of returning nothing

---
 src/nagini_translation/translators/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 2c4779f..368206b 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1332,6 +1332,7 @@ class ExpressionTranslator(CommonTranslator):
             if right_func:
                 call_stmt, call = self.get_func_or_method_call(right_type, right_func_name, [right, left], [right_type, left_type], node, ctx)
                 return stmt + call_stmt, call
+            raise UnsupportedException(node, "Unsupported binary operator")
 
     def is_thread_method_definition(self, node: ast.Compare, ctx: Context) -> bool:
         """
-- 
2.43.0


From e5177fa8a1d623e8f99f669566e1d04104cbb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 05/62] fix: keep statements of the operand of a type
 comparison

---
 src/nagini_translation/translators/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 368206b..1ed6a7a 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1389,7 +1389,7 @@ class ExpressionTranslator(CommonTranslator):
         else:
             func = self.viper.NeCmp
         comp = func(type_literal, call, pos, info)
-        return [], comp
+        return call_stmt, comp
 
     def translate_thread_method_definition(self, node: ast.Compare,
                                            ctx: Context) -> StmtsAndExpr:
-- 
2.43.0


From 02875060bf7a36e34b56f25c0f31faa340b13da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 06/62] fix: prefer the left operand's operator when
 determining the type of a binary operation

---
 src/nagini_translation/lib/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/resolver.py b/src/nagini_translation/lib/resolver.py
index e0225d7..c46badd 100644
--- a/src/nagini_translation/lib/resolver.py
+++ b/src/nagini_translation/lib/resolver.py
@@ -360,7 +360,7 @@ def _do_get_type(node: ast.AST, containers: List[ContainerInterface],
                 left_func = left_type.get_compatible_func_or_method(LEFT_OPERATOR_FUNCTIONS[type(node.op)], [left_type, right_type])
                 if left_func:
                     func = left_func
-                if right_func:
+                elif right_func:
                     func = right_func
         if func is None:
             raise UnsupportedException(node, 'Unsupported operator')
-- 
2.43.0


From 90c5d0a43b186e9337153df8b9981943d33ac978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/62] fix: keep the statements of the receiver when reading a
 static field

---
 src/nagini_translation/translators/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 1ed6a7a..091bcf0 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1174,7 +1174,7 @@ class ExpressionTranslator(CommonTranslator):
             if isinstance(field, PythonGlobalVar):
                 field_func = self.translate_static_field_access(field, receiver,
                                                                 node, ctx)
-                return [], field_func
+                return stmt, field_func
             if isinstance(field, PythonMethod):
                 # This is a reference to a property, so we translate it to a call of
                 # the property getter function.
-- 
2.43.0


From c39ca67aaee2972da8273e9ba744e9d8a4b44fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 08/62] fix: keep the statements of the operand of a unary
 operator

---
 src/nagini_translation/translators/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 091bcf0..f7ef2ab 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1208,7 +1208,8 @@ class ExpressionTranslator(CommonTranslator):
         else:
             raise UnsupportedException(node, f"Unsupported unary operator {node.op}")
 
-        return self.get_func_or_method_call(operand_type, func_name, [expr], [operand_type], node, ctx)
+        op_stmt, result = self.get_func_or_method_call(operand_type, func_name, [expr], [operand_type], node, ctx)
+        return stmt + op_stmt, result
 
     def translate_IfExp(self, node: ast.IfExp, ctx: Context,
                         impure=False) -> StmtsAndExpr:
-- 
2.43.0


From eb2ad86a464956b8610636cd286e6f254004b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 09/62] fix: keep the statements of the receiver of a static
 method call

---
 src/nagini_translation/translators/call.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 82c6598..9e43277 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1322,8 +1322,8 @@ class CallTranslator(CommonTranslator):
                     recv_stmts.append(self.viper.Assert(self.viper.Low(self.type_factory.typeof(recv_exprs[0], ctx), None, recv_pos, info), recv_pos, info))
                 is_predicate = target.predicate
                 receiver_class = target.cls
+                arg_stmts = recv_stmts + arg_stmts
                 if target.method_type != MethodType.static_method:
-                    arg_stmts = recv_stmts + arg_stmts
                     args = recv_exprs + args
                     arg_types = recv_types + arg_types
         else:
-- 
2.43.0


From 50e896a037d60091f5f39939a414c5f50f178fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 10/62] fix: keep statements of default arguments when raising
 an exception class

---
 src/nagini_translation/translators/statement.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 1e5bdc5..282d669 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1008,12 +1008,14 @@ class StatementTranslator(CommonTranslator):
             # The argument of raise is a class; call constructor with no
             # arguments.
             args = []
+            arg_stmts = []
             init = raised.get_method('__init__')
             if init:
-                _, args, _ = self.translate_args(init, [], [], node.exc, ctx,
-                                                 True)
+                arg_stmts, args, _ = self.translate_args(init, [], [], node.exc,
+                                                         ctx, True)
             stmt, exception = self.translate_constructor_call(raised, node.exc,
-                                                              args, [], ctx)
+                                                              args, arg_stmts,
+                                                              ctx)
         else:
             stmt, exception = self.translate_expr(node.exc, ctx)
         position = self.to_position(node, ctx)
-- 
2.43.0


From ca25c622829b1b7eac5eab63b8d4bfd562e3e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:42 +0000
Subject: [PATCH 11/62] fix: report a failing backend as an error instead of
 crashing on a missing result

---
 src/nagini_translation/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f4b46ad..f3e36f0 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -584,8 +584,12 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
                              sif=args.sif, disable_branch_conditions=args.disable_branch_conditions)
             
             if submitter is not None:
-                submitter.setSuccess(vresult.__bool__())
+                submitter.setSuccess(bool(vresult))
                 submitter.submit()
+        if vresult is None:
+            # verify() reports exceptions of the backend by returning nothing.
+            print('Verification failed: Internal verifier error.')
+            return False
         if args.verbose:
             print("Verification completed.")
         print(vresult.to_string(args.ide_mode, args.show_viper_errors))
-- 
2.43.0


From 8637ddb178b8e399fee916d8e4ab53c519ee6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 12/62] fix: deliver errors without a reason, such as timeouts,
 in structured results

---
 src/nagini_translation/service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index cbafa6e..7b41013 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -462,6 +462,11 @@ class VerificationService:
         diagnostics = []
         seen = set()
         for error in failure.errors:
+            if error.reason is None:
+                # Errors without a reason, e.g. timeouts, concern the whole program.
+                diagnostics.append(self._point_diagnostic(
+                    path, error.string(False, False), error.identifier))
+                continue
             pos = error.position
             try:
                 file_name = pos.file_name
-- 
2.43.0


From e9053dda0daf771bc512d5d88a0412899e48774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 13/62] fix: only merge structured errors that are identical

---
 src/nagini_translation/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 7b41013..2aeec90 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -460,7 +460,6 @@ class VerificationService:
 
     def _failure_diagnostics(self, failure: Failure, path: str) -> List[Diagnostic]:
         diagnostics = []
-        seen = set()
         for error in failure.errors:
             if error.reason is None:
                 # Errors without a reason, e.g. timeouts, concern the whole program.
@@ -491,9 +490,7 @@ class VerificationService:
                                 if error._inputs is not None else None),
                 branch_conditions=list(error.bcs) if error.bcs else [],
             )
-            key = (diag.file, diag.start_line, diag.start_col, diag.code, diag.message)
-            if key not in seen:
-                seen.add(key)
+            if diag not in diagnostics:
                 diagnostics.append(diag)
         return diagnostics
 
-- 
2.43.0


From 7d526906d7f31cb698d813f882b403e29a0bc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 14/62] fix: apply the verification options in benchmark mode
 too

---
 src/nagini_translation/main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f3e36f0..c03653a 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -565,8 +565,11 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
             for i in range(args.benchmark):
                 start = time.time()
                 modules, prog = translate(python_file, jvm, args.int_bitops_size, selected=selected, sif=args.sif, arp=arp, base_dir=base_dir,
-                                          ignore_global=args.ignore_global, float_encoding=args.float_encoding)
-                vresult = verify(modules, prog, python_file, jvm, viper_args, backend=backend, arp=arp)
+                                          ignore_global=args.ignore_global, counterexample=args.counterexample,
+                                          float_encoding=args.float_encoding)
+                vresult = verify(modules, prog, python_file, jvm, viper_args,
+                                 backend=backend, arp=arp, counterexample=args.counterexample,
+                                 sif=args.sif, disable_branch_conditions=args.disable_branch_conditions)
                 end = time.time()
                 print("{}, {}, {}, {}, {}".format(
                     i, args.benchmark, start, end, end - start))
-- 
2.43.0


From bba00c8b1d90b2915cdf641230b7bf0fba5e75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:40 +0000
Subject: [PATCH 15/62] fix: honour cancellations that arrive before a job is
 submitted

---
 src/nagini_translation/service.py | 62 ++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 2aeec90..a3efe12 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -110,6 +110,15 @@ class VerifyResult:
         return result
 
 
+class _Job:
+    """A running verification: its VerJobId once it has been submitted to Viper
+    and whether it has been cancelled."""
+
+    def __init__(self) -> None:
+        self.job_id = None
+        self.cancelled = False
+
+
 class VerificationService:
     """
     Long-lived, in-process Nagini verification service.
@@ -161,8 +170,8 @@ class VerificationService:
         # error conversion). The slow Viper verification runs *outside* this
         # lock, so multiple verifications proceed concurrently.
         self._state_lock = threading.Lock()
-        # Maps a caller-chosen token to the in-flight VerJobId, for precise
-        # per-job cancellation.
+        # Maps a caller-chosen token to the in-flight job, for precise per-job
+        # cancellation.
         self._jobs = {}
         self._jobs_lock = threading.Lock()
 
@@ -202,9 +211,23 @@ class VerificationService:
         path = os.path.abspath(path)
         viper_args = list(viper_args) if viper_args else []
         if self._can_run_concurrently(arp):
-            return self._verify_concurrent(path, selected, base_dir, counterexample,
-                                           ignore_global, viper_args,
-                                           include_viper, job_token)
+            # Register the job before it is translated, so that it can already be
+            # cancelled then.
+            job = _Job()
+            if job_token is not None:
+                with self._jobs_lock:
+                    self._jobs[job_token] = job
+            try:
+                return self._verify_concurrent(path, selected, base_dir, counterexample,
+                                               ignore_global, viper_args,
+                                               include_viper, job)
+            finally:
+                if job_token is not None:
+                    with self._jobs_lock:
+                        # Only remove our own mapping; a newer run may have already
+                        # reused this token (e.g. an editor re-saving the same file).
+                        if self._jobs.get(job_token) is job:
+                            del self._jobs[job_token]
         with self._state_lock:
             return self._verify_serial(path, selected, base_dir, arp, counterexample,
                                        ignore_global, viper_args, include_viper)
@@ -236,11 +259,18 @@ class VerificationService:
             from nagini_translation.viper_server import get_viper_server_manager
             manager = get_viper_server_manager(self.jvm)
             if job_token is not None:
+                job_id = None
                 with self._jobs_lock:
-                    job_id = self._jobs.get(job_token)
+                    job = self._jobs.get(job_token)
+                    if job is not None:
+                        job.cancelled = True
+                        job_id = job.job_id
                 if job_id is not None:
                     manager.cancel_job(job_id)
             else:
+                with self._jobs_lock:
+                    for job in self._jobs.values():
+                        job.cancelled = True
                 manager.cancel_all()
         except Exception:
             logging.exception('Error cancelling verification.')
@@ -335,7 +365,7 @@ class VerificationService:
 
     def _verify_concurrent(self, path, selected, base_dir, counterexample,
                            ignore_global, viper_args, include_viper,
-                           job_token) -> VerifyResult:
+                           job) -> VerifyResult:
         from nagini_translation.viper_server import (build_carbon_backend_args,
                                                      build_silicon_backend_args,
                                                      get_viper_server_manager)
@@ -375,9 +405,14 @@ class VerificationService:
             backend_args = build_silicon_backend_args(
                 viper_args, counterexample, self._disable_branch_conditions)
         job_id = manager.submit(prog, path, backend_args, backend=self._backend)
-        if job_token is not None:
-            with self._jobs_lock:
-                self._jobs[job_token] = job_id
+        with self._jobs_lock:
+            job.job_id = job_id
+            cancelled = job.cancelled
+        if cancelled:
+            # Cancelled before it was submitted.
+            manager.cancel_job(job_id)
+            return VerifyResult(False, [], time.time() - start, cancelled=True,
+                                viper_program=viper_text)
         try:
             result = manager.await_result(job_id)
         except Exception:
@@ -385,13 +420,6 @@ class VerificationService:
             logging.debug('Verification job failed or was cancelled.', exc_info=True)
             return VerifyResult(False, [], time.time() - start, cancelled=True,
                                 viper_program=viper_text)
-        finally:
-            if job_token is not None:
-                with self._jobs_lock:
-                    # Only remove our own mapping; a newer run may have already
-                    # reused this token (e.g. an editor re-saving the same file).
-                    if self._jobs.get(job_token) is job_id:
-                        del self._jobs[job_token]
 
         duration = time.time() - start
         if result is None:
-- 
2.43.0


From 67fc0fa6c7a3a88a6d6d0dd628d92a7ccfcb40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 16/62] fix: do not block the event loop of the tool server
 while options are changed

---
 src/nagini_translation/mcp_server.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/mcp_server.py b/src/nagini_translation/mcp_server.py
index f5b1463..7df4f6a 100644
--- a/src/nagini_translation/mcp_server.py
+++ b/src/nagini_translation/mcp_server.py
@@ -129,7 +129,6 @@ async def verify_snippet(code: str, counterexample: bool = False,
         shutil.rmtree(tmp_dir, ignore_errors=True)
 
 
-@mcp.tool()
 def configure(options: dict) -> dict:
     """Change verification options for subsequent requests; returns the effective
     configuration.
@@ -144,6 +143,13 @@ def configure(options: dict) -> dict:
     return _service.reconfigure(**options_to_kwargs(options))
 
 
+@mcp.tool(name='configure', description=configure.__doc__)
+async def _configure(options: dict) -> dict:
+    # Changing options waits for running translations, which must not keep the
+    # event loop from handling other requests, e.g. to cancel.
+    return await _run(lambda: configure(options))
+
+
 @mcp.tool()
 def cancel(job_token: Optional[str] = None) -> dict:
     """Cancel verification: a specific run if `job_token` is given, else all."""
-- 
2.43.0


From 70e25f524b5a4fd5be28e54e36aa95dbcd3a3ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 17/62] fix: restore the obligation setting before each request
 of the server mode

A program without obligations switched the encoding of obligations off for
all programs verified after it by the same server.
---
 src/nagini_translation/lib/config.py | 10 ++++++++--
 src/nagini_translation/main.py       |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lib/config.py b/src/nagini_translation/lib/config.py
index 81dc03d..ab50868 100644
--- a/src/nagini_translation/lib/config.py
+++ b/src/nagini_translation/lib/config.py
@@ -50,8 +50,14 @@ class ObligationConfig(SectionConfig):
 
     @disable_all.setter
     def disable_all(self, val):
-        """Disable all obligation related checks."""
-        self._info['disable_all'] = str(val)
+        """Disable all obligation related checks.
+
+        ``None`` returns to the default, i.e. detecting whether they are needed.
+        """
+        if val is None:
+            self._info.pop('disable_all', None)
+        else:
+            self._info['disable_all'] = str(val)
 
     @property
     def disable_measure_check(self):
diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index c03653a..d6a89e6 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -482,8 +482,11 @@ def main() -> None:
                                   'fall back to the direct Silicon backend.')
         print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
 
+        disable_obligations = config.obligation_config.disable_all
         while True:
             file, selected = _parse_client_request(socket.recv_string())
+            # The translation of the previous program may have disabled obligations.
+            config.obligation_config.disable_all = disable_obligations
             response = ['']
 
             def add_response(part):
-- 
2.43.0


From 73e73749fd4111a8aa1c0b8a1088185648bd9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:26 +0000
Subject: [PATCH 18/62] fix: pass the configured mypy path to the type checker

---
 src/nagini_translation/lib/typeinfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nagini_translation/lib/typeinfo.py b/src/nagini_translation/lib/typeinfo.py
index 3ddf4cd..6aebaca 100644
--- a/src/nagini_translation/lib/typeinfo.py
+++ b/src/nagini_translation/lib/typeinfo.py
@@ -10,6 +10,7 @@ import mypy.build
 import os
 
 from mypy.build import BuildSource
+from nagini_translation.lib import config
 from nagini_translation.lib.constants import IGNORED_IMPORTS, LITERALS
 from nagini_translation.mypy_patches.visitor import TraverserVisitor
 
@@ -317,6 +318,8 @@ class TypeInfo:
         result.export_types = True
         result.preserve_asts = True
         result.warn_no_return = False
+        if config.mypy_path:
+            result.mypy_path = config.mypy_path.split(os.pathsep)
         # Since we run mypy twice with different options, we use different cache dirs for different configurations,
         # otherwise Mypy throws away the cache every time.
         result.cache_dir = '.mypy_cache_strict' if strict_optional else '.mypy_cache_nonstrict'
-- 
2.43.0


From f3f2ffff8c63484d0ae8ed8c5d544eca253d6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 19/62] fix: stop Carbon instances when they are no longer
 used, like Silicon instances

---
 src/nagini_translation/verifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/verifier.py b/src/nagini_translation/verifier.py
index 28243cc..58868cc 100644
--- a/src/nagini_translation/verifier.py
+++ b/src/nagini_translation/verifier.py
@@ -227,4 +227,7 @@ class Carbon:
             try:
                 self.carbon.stop()
             except Exception:
-                pass
\ No newline at end of file
+                pass
+
+    def __del__(self):
+        self.stop()
-- 
2.43.0


From cb92e58b717ceecbbee937bb14bd71096c116de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 20/62] fix: release the threads of a ViperServer that failed
 to start

---
 src/nagini_translation/viper_server.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/viper_server.py b/src/nagini_translation/viper_server.py
index d62ce3d..5f688db 100644
--- a/src/nagini_translation/viper_server.py
+++ b/src/nagini_translation/viper_server.py
@@ -65,8 +65,14 @@ class ViperServerManager:
         # is the concrete class `ViperCoreServer with DefaultVerificationServerStart`
         # and, unlike ViperHttpServer, binds no network port; we use it purely for
         # its inherited verify/getResultsFuture/flushCache/stop API.
-        self.server = jvm.viper.server.frontends.lsp.ViperServerService(cfg, self.executor)
-        self._await(self.server.start(), timeout_ms=120000)
+        try:
+            self.server = jvm.viper.server.frontends.lsp.ViperServerService(cfg, self.executor)
+            self._await(self.server.start(), timeout_ms=120000)
+        except BaseException:
+            # stop() ignores a server that was not started, so its threads have to
+            # be released here.
+            self._terminate_executor()
+            raise
         self._started = True
 
     @property
@@ -157,6 +163,10 @@ class ViperServerManager:
                 self._await(self.server.stop(), timeout_ms=15000)
         except Exception:
             logging.exception('Error while stopping ViperServer.')
+        self._terminate_executor()
+        self._started = False
+
+    def _terminate_executor(self) -> None:
         # Terminate the Akka actor system / thread pool, otherwise its
         # non-daemon threads keep the JVM (and hence the process) alive.
         try:
@@ -165,7 +175,6 @@ class ViperServerManager:
                 self.executor.terminate(default)
         except Exception:
             logging.exception('Error while terminating ViperServer executor.')
-        self._started = False
 
 
 _MANAGER = None
-- 
2.43.0


From 69bca6bec17b65da91654507886e9d94e787a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 21/62] fix: also stop ViperServer on shutdown if its use was
 disabled after it was started

---
 src/nagini_translation/service.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index a3efe12..365896c 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -294,12 +294,13 @@ class VerificationService:
                 logging.exception('Error flushing ViperServer cache.')
 
     def shutdown(self) -> None:
-        if config.use_viper_server:
-            try:
-                from nagini_translation.viper_server import get_viper_server_manager
-                get_viper_server_manager(self.jvm).stop()
-            except Exception:
-                logging.exception('Error shutting down ViperServer.')
+        # The server may have been started before its use was disabled; stopping
+        # it has no effect if it was never started.
+        try:
+            from nagini_translation.viper_server import get_viper_server_manager
+            get_viper_server_manager(self.jvm).stop()
+        except Exception:
+            logging.exception('Error shutting down ViperServer.')
 
     def current_options(self) -> dict:
         """The effective configuration, as client-facing (camelCase) options."""
-- 
2.43.0


From 369baa9de88c6acce4da50bb499a199347389a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:15 +0000
Subject: [PATCH 22/62] fix: stop ViperServer also when a run fails or the
 command-line server is interrupted

---
 src/nagini_translation/main.py | 61 ++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index d6a89e6..d5aede9 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -480,31 +480,38 @@ def main() -> None:
             except Exception:
                 logging.exception('Could not start ViperServer; verification will '
                                   'fall back to the direct Silicon backend.')
-        print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
-
-        disable_obligations = config.obligation_config.disable_all
-        while True:
-            file, selected = _parse_client_request(socket.recv_string())
-            # The translation of the previous program may have disabled obligations.
-            config.obligation_config.disable_all = disable_obligations
-            response = ['']
-
-            def add_response(part):
-                response[0] = response[0] + '\n' + part
-
-            translate_and_verify(file, jvm, args, add_response, arp=args.arp,
-                                  base_dir=args.base_dir, selected=selected)
-            socket.send_string(response[0])
+        try:
+            print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
+
+            disable_obligations = config.obligation_config.disable_all
+            while True:
+                file, selected = _parse_client_request(socket.recv_string())
+                # The translation of the previous program may have disabled obligations.
+                config.obligation_config.disable_all = disable_obligations
+                response = ['']
+
+                def add_response(part):
+                    response[0] = response[0] + '\n' + part
+
+                translate_and_verify(file, jvm, args, add_response, arp=args.arp,
+                                      base_dir=args.base_dir, selected=selected)
+                socket.send_string(response[0])
+        finally:
+            # Its threads would keep an interrupted process alive.
+            _stop_viper_server(jvm)
     else:
-        success = translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
+        success = False
+        try:
+            success = translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
+        except BaseException:
+            if not config.use_viper_server:
+                raise
+            # The process is ended below, so report the exception here.
+            traceback.print_exc()
         if config.use_viper_server:
             # Shut the ViperServer (and its actor system) down so the process
             # can terminate.
-            try:
-                from nagini_translation.viper_server import get_viper_server_manager
-                get_viper_server_manager(jvm).stop()
-            except Exception:
-                logging.exception('Error while stopping ViperServer.')
+            _stop_viper_server(jvm)
             # ViperServer/Akka may leave non-daemon threads alive that would keep
             # the JVM (and process) from exiting; force a hard exit now that the
             # result has been printed.
@@ -514,6 +521,18 @@ def main() -> None:
         sys.exit(0 if success else 1)
 
 
+def _stop_viper_server(jvm: JVM) -> None:
+    """ Stops the shared ViperServer, if it is in use.
+    """
+    if not config.use_viper_server:
+        return
+    try:
+        from nagini_translation.viper_server import get_viper_server_manager
+        get_viper_server_manager(jvm).stop()
+    except Exception:
+        logging.exception('Error while stopping ViperServer.')
+
+
 def _parse_client_request(request: str) -> Tuple[str, Union[Set[str], None]]:
     """Parse a server-mode client request into ``(python_file, selected)``.
 
-- 
2.43.0


From 74d2bde559788b5f00c6f015ef9729662434d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:50 +0000
Subject: [PATCH 23/62] fix: translate IO operations in the context of the
 module that defines them

---
 src/nagini_translation/translators/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 380a235..bbc6ce4 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -1503,6 +1503,7 @@ class ProgramTranslator(CommonTranslator):
         # IO operations are translated last because we need to know which functions are
         # used with Eval.
         for module in modules:
+            ctx.module = module
             for operation in module.io_operations.values():
                 if module is not module.global_module:
                     all_names.append(operation.sil_name)
-- 
2.43.0


From d83b0931933e7d1be8a377a7c774456bf6208229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:50 +0000
Subject: [PATCH 24/62] fix: report override and inheritance checks in the file
 of the class they are for

---
 src/nagini_translation/translators/program.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index bbc6ce4..9b9063e 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -221,7 +221,8 @@ class ProgramTranslator(CommonTranslator):
         """
         old_function = ctx.current_function
         ctx.current_function = method
-        pos = self.viper.to_position(cls.node, ctx.position, py_node=method)
+        pos = self.viper.to_position(cls.node, ctx.position,
+                                     file=ctx.module.file, py_node=method)
         ctx.position.append(('inheritance', pos))
         self.info = self.viper.SimpleInfo(['behavioural.subtyping'])
 
@@ -290,7 +291,8 @@ class ProgramTranslator(CommonTranslator):
         assert not method.pure
         old_function = ctx.current_function
         ctx.current_function = method.overrides
-        pos = self.viper.to_position(method.node, ctx.position, py_node=method)
+        pos = self.viper.to_position(method.node, ctx.position,
+                                     file=ctx.module.file, py_node=method)
         ctx.position.append(('override', pos))
         self.info = self.viper.SimpleInfo(['behavioural.subtyping'])
         self._check_override_validity(method, ctx)
@@ -397,7 +399,9 @@ class ProgramTranslator(CommonTranslator):
                 default_checks.append(assertion)
         ctx.position.append(('overridden method',
                              self.viper.to_position(method.overrides.node,
-                                                    ctx.position, py_node=method)))
+                                                    ctx.position,
+                                                    file=method.overrides.module.file,
+                                                    py_node=method)))
         call = self.create_method_call_node(
             ctx, calledname, args, targets,
             self.to_position(method.node, ctx), self.no_info(ctx),
-- 
2.43.0


From 1e9aa0b51bfaf36f9273f55f6af8d794367e5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:13 +0000
Subject: [PATCH 25/62] fix: translate inlined functions in the context of
 their own module

---
 src/nagini_translation/translators/call.py   | 3 +++
 src/nagini_translation/translators/common.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 9e43277..463b002 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1049,6 +1049,7 @@ class CallTranslator(CommonTranslator):
         """
         old_label_aliases = ctx.label_aliases.copy()
         old_var_aliases = ctx.var_aliases
+        old_module = ctx.module
         var_aliases = {}
 
         for name, arg in zip(method.args.keys(), args):
@@ -1083,6 +1084,7 @@ class CallTranslator(CommonTranslator):
         ctx.added_handlers.append((method, ctx.var_aliases, ctx.label_aliases))
 
         # Translate body
+        ctx.module = method.module
         start, end = get_body_indices(method.node.body)
         stmts = []
 
@@ -1095,6 +1097,7 @@ class CallTranslator(CommonTranslator):
             stmts += self.translate_stmt(stmt, ctx)
 
         ctx.inlined_calls.remove(method)
+        ctx.module = old_module
         ctx.var_aliases = old_var_aliases
         ctx.label_aliases = old_label_aliases
         return stmts, end_label
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 6590366..8dda8e1 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -901,10 +901,12 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
         stmts = []
         old_var_valiases = ctx.var_aliases
         old_lbl_aliases = ctx.label_aliases
+        old_module = ctx.module
         for (added_method, var_aliases, lbl_aliases) in ctx.added_handlers:
             ctx.var_aliases = var_aliases
             ctx.label_aliases = lbl_aliases
             ctx.inlined_calls.append(added_method)
+            ctx.module = added_method.module
             for block in added_method.try_blocks:
                 for handler in block.handlers:
                     stmts += self.translate_handler(handler, ctx)
@@ -914,6 +916,7 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                     stmts += self.translate_finally(block, ctx)
             ctx.inlined_calls.remove(added_method)
         ctx.added_handlers = []
+        ctx.module = old_module
         ctx.var_aliases = old_var_valiases
         ctx.label_aliases = old_lbl_aliases
         return stmts
-- 
2.43.0


From 391d8fab97ef06a6e761011e596cec36315c792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 26/62] fix: translate the inherited contract of an override
 check in the context of its own module

---
 src/nagini_translation/translators/program.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 9b9063e..f8febb3 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -220,10 +220,12 @@ class ProgramTranslator(CommonTranslator):
         subtyping.
         """
         old_function = ctx.current_function
+        old_module = ctx.module
         ctx.current_function = method
         pos = self.viper.to_position(cls.node, ctx.position,
                                      file=ctx.module.file, py_node=method)
         ctx.position.append(('inheritance', pos))
+        ctx.module = method.module
         self.info = self.viper.SimpleInfo(['behavioural.subtyping'])
 
         args = []
@@ -276,6 +278,7 @@ class ProgramTranslator(CommonTranslator):
             method=method, overriding_check=True)
 
         ctx.current_function = old_function
+        ctx.module = old_module
 
         ctx.position.pop()
         self.info = None
@@ -314,8 +317,11 @@ class ProgramTranslator(CommonTranslator):
         self.bind_type_vars(method.overrides, ctx)
 
         mname = ctx.module.get_fresh_name(method.sil_name + '_override_check')
+        old_module = ctx.module
+        ctx.module = method.overrides.module
         pres, posts = self.extract_contract(method.overrides, '_err',
                                             False, ctx)
+        ctx.module = old_module
         self_arg = None
         has_subtype = None
         if method.cls and method.method_type == MethodType.normal:
@@ -343,12 +349,14 @@ class ProgramTranslator(CommonTranslator):
         ctx.position.pop()
         results, targets, body = self._create_override_check_body_impure(
             method, has_subtype, called_name, args, ctx)
+        ctx.module = method.overrides.module
         result = self.create_method_node(
             ctx, mname, params, results, pres, posts, [], body,
             self.no_position(ctx), self.no_info(ctx),
             method=method.overrides, overriding_check=True)
 
         ctx.current_function = old_function
+        ctx.module = old_module
         self.info = None
         return mname, result
 
-- 
2.43.0


From 043c378484c0b32d0418ca586574677313476972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 27/62] fix: translate the contracts of threads' methods in the
 context of their own module

---
 src/nagini_translation/translators/call.py            | 3 +++
 src/nagini_translation/translators/obligation/fork.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 463b002..3c90dea 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1747,6 +1747,8 @@ class CallTranslator(CommonTranslator):
 
         post_assertion = self.viper.TrueLit(pos, info)
         ctx.inlined_calls.append(method)
+        old_module = ctx.module
+        ctx.module = method.module
 
         # Translate postcondition
         for post, _ in method.postcondition:
@@ -1754,6 +1756,7 @@ class CallTranslator(CommonTranslator):
                                               impure=True)
             post_assertion = self.viper.And(post_assertion, post_val, pos, info)
 
+        ctx.module = old_module
         ctx.inlined_calls.pop()
         ctx.clear_old_expr_aliases()
         for name in method._args:
diff --git a/src/nagini_translation/translators/obligation/fork.py b/src/nagini_translation/translators/obligation/fork.py
index 1ab4682..92e75de 100644
--- a/src/nagini_translation/translators/obligation/fork.py
+++ b/src/nagini_translation/translators/obligation/fork.py
@@ -167,6 +167,8 @@ class ObligationMethodForkConstructor(StatementNodeConstructorBase):
             stmts.extend(arg_stmts)
 
             self._ctx.inlined_calls.append(method)
+            old_module = self._ctx.module
+            self._ctx.module = method.module
             old_loop_stack = self._ctx.obligation_context._loop_stack
             self._ctx.obligation_context._loop_stack = []
             self._ctx.ignore_waitlevel_constraints = True
@@ -191,6 +193,7 @@ class ObligationMethodForkConstructor(StatementNodeConstructorBase):
 
             for name in method._args:
                 self._ctx.remove_alias(name)
+            self._ctx.module = old_module
             self._ctx.inlined_calls.pop()
             self._ctx.obligation_context._loop_stack = old_loop_stack
             self._ctx.ignore_waitlevel_constraints = False
-- 
2.43.0


From d92362e83fcae0d852a05ce648157bd75cfa6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 28/62] fix: report translation errors in the file that
 contains the offending node

---
 src/nagini_translation/analyzer.py | 3 +++
 src/nagini_translation/main.py     | 4 ++--
 src/nagini_translation/service.py  | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 5c801ba..35ad34e 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -170,6 +170,9 @@ class Analyzer(ast.NodeVisitor):
             # An invalid type comment must not prevent us from analyzing the
             # program; mypy reports the problem anyway.
             parse_result = ast.parse(text)
+        for node in ast.walk(parse_result):
+            # Errors are reported in the file that contains the offending node.
+            node._file = abs_path
         try:
             mark_text_ranges(parse_result, text)
         except Exception:
diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index d5aede9..be49513 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -639,8 +639,8 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
             # Some errors do not carry an AST node, e.g. those about elements
             # which only exist in Nagini's own data structures.
             print(format_translation_error(
-                args.ide_mode, python_file, issue, getattr(e.node, 'lineno', 0),
-                getattr(e.node, 'col_offset', 0), getattr(e.node, 'end_lineno', None),
+                args.ide_mode, getattr(e.node, '_file', python_file), issue,
+                getattr(e.node, 'lineno', 0), getattr(e.node, 'col_offset', 0), getattr(e.node, 'end_lineno', None),
                 getattr(e.node, 'end_col_offset', None)))
         if isinstance(e, TypeException):
             for msg in e.messages:
diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 365896c..f13964a 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -534,7 +534,8 @@ class VerificationService:
                 message = 'Not supported: ' + detail
             line = getattr(e.node, 'lineno', 1)
             col = getattr(e.node, 'col_offset', 0)
-            return [Diagnostic(file=path, start_line=line, start_col=col,
+            file = getattr(e.node, '_file', path)
+            return [Diagnostic(file=file, start_line=line, start_col=col,
                                end_line=line, end_col=col, message=message,
                                code=code)]
         # TypeException
-- 
2.43.0


From 17967f70832d7b4cbe1c1a101e48580d19e6fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 29/62] fix: bind default values to the parameters they are
 declared for

---
 src/nagini_translation/analyzer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 35ad34e..eae0c73 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1076,11 +1076,15 @@ class Analyzer(ast.NodeVisitor):
         self.current_function.nargs = len(node.args)
         for kw_only in node.kwonlyargs:
             self.visit(kw_only, node)
+        # Positional defaults belong to the last positional parameters, whereas
+        # there is one entry per keyword-only parameter in kw_defaults.
         defaults = node.defaults
-        args = list(self.current_function.args.values())
-        for index in range(len(defaults)):
-            arg = args[index - len(defaults)]
-            arg.default = defaults[index]
+        args_with_defaults = node.args[len(node.args) - len(defaults):]
+        for arg, default in zip(args_with_defaults, defaults):
+            self.current_function.args[arg.arg].default = default
+        for kw_only, default in zip(node.kwonlyargs, node.kw_defaults):
+            if default is not None:
+                self.current_function.args[kw_only.arg].default = default
         if node.vararg:
             arg = node.vararg
             annotated_type = self.typeof(arg)
-- 
2.43.0


From 25bbf62812b09ecbc9887846d902a8f16b6f3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:55 +0000
Subject: [PATCH 30/62] fix: analyze the iterable of a for loop

---
 src/nagini_translation/analyzer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index eae0c73..c7fbf41 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -922,6 +922,7 @@ class Analyzer(ast.NodeVisitor):
             self.visit(node.test, node)
         else:
             self.visit(node.target, node)
+            self.visit(node.iter, node)
         for child in node.body:
             if is_io_existential(child):
                 self._is_io_existential = True
-- 
2.43.0


From 4976dc8cd8fb11488c31d7d8f5cfbd7b96221e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 31/62] fix: reject match guards that use captures of nested
 patterns

---
 src/nagini_translation/translators/statement.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 282d669..060140f 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1111,6 +1111,14 @@ class StatementTranslator(CommonTranslator):
                 # Temporarily alias pattern-bound names to the subject variable so the
                 # guard can reference them without requiring a definedness proof yet.
                 aliases = self._collect_guard_aliases(case.pattern, subj_var)
+                captured = {pattern.name for pattern in ast.walk(case.pattern)
+                            if isinstance(pattern, ast.MatchAs)} - set(aliases)
+                if any(isinstance(name, ast.Name) and name.id in captured
+                       for name in ast.walk(case.guard)):
+                    # The guard would refer to the value the variable had before
+                    # the match.
+                    raise UnsupportedException(
+                        case.guard, 'guards using nested captures not yet supported')
                 with ctx.aliases_context():
                     for name, var in aliases.items():
                         ctx.set_alias(name, var, None)
-- 
2.43.0


From a346f99c4b5b5f4ec6005579bf5dab7caa5c9ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 32/62] fix: evaluate the formatted values and format
 specifications of f-strings

---
 src/nagini_translation/translators/expression.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index f7ef2ab..04fc0e0 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -682,8 +682,19 @@ class ExpressionTranslator(CommonTranslator):
         Dummy implementation for ast.FormattedValue, only translates contained expression.
         Does not apply given formatting rules
         """
-        stmt, exp = self.translate_expr(node.value, ctx)
-        return stmt, exp
+        stmts, exp = self.translate_expr(node.value, ctx)
+        # Assign the value to a variable, so that it is evaluated (and errors in
+        # it are reported) even though the resulting string is unknown.
+        object_class = ctx.module.global_module.classes[OBJECT_TYPE]
+        value_var = ctx.current_function.create_variable('formatted_value', object_class,
+                                                         self.translator)
+        value = value_var.ref(node, ctx)
+        stmts = stmts + [self.viper.LocalVarAssign(value, exp, self.to_position(node, ctx),
+                                                   self.no_info(ctx))]
+        if node.format_spec:
+            spec_stmts, _ = self.translate_expr(node.format_spec, ctx)
+            stmts += spec_stmts
+        return stmts, value
     
     def translate_Ellipsis(self, node: ast.Constant, ctx: Context) -> StmtsAndExpr:
         ellipsis_class = ctx.module.global_module.classes[ELLIPSIS_TYPE]
-- 
2.43.0


From c29c4cc2baf4abde59496d775b0027cc63935d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 33/62] fix: reject functions with decorators of unknown effect

---
 src/nagini_translation/analyzer.py      | 20 ++++++++++++++++++++
 src/nagini_translation/lib/constants.py | 19 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index c7fbf41..26fc364 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -29,6 +29,7 @@ from nagini_translation.lib.constants import (
     IGNORED_IMPORTS,
     INT_TYPE,
     PRIMITIVE_INT_TYPE,
+    FUNCTION_DECORATORS,
     LEGAL_MAGIC_METHODS,
     LITERALS,
     MYPY_SUPERCLASSES,
@@ -826,6 +827,7 @@ class Analyzer(ast.NodeVisitor):
         if self._is_illegal_magic_method_name(name):
             raise InvalidProgramException(node, 'illegal.magic.method')
         assert isinstance(name, str)
+        self._check_supported_decorators(node)
         if self.is_io_operation(node):
             self.io_operation_analyzer.analyze_io_operation(node)
             return
@@ -1977,6 +1979,22 @@ class Analyzer(ast.NodeVisitor):
                     ('Predicate' in decorators) or ('Pure' in decorators)))
                )
 
+    def _check_supported_decorators(self, func: ast.FunctionDef) -> None:
+        """
+        Rejects decorators we do not know, since those could replace the
+        function by an entirely different one.
+        """
+        for decorator in func.decorator_list:
+            if isinstance(decorator, ast.Name):
+                supported = decorator.id in FUNCTION_DECORATORS
+            elif isinstance(decorator, ast.Call):
+                supported = get_func_name(decorator) == 'GhostReturns'
+            else:
+                # Property setters, which are checked separately.
+                supported = isinstance(decorator, ast.Attribute)
+            if not supported:
+                raise InvalidProgramException(func, 'unknown.decorator')
+
     def is_declared_contract_only(self, func: ast.FunctionDef) -> bool:
         """
         Checks if the given function is declared to be contract only by the
@@ -2029,6 +2047,8 @@ class Analyzer(ast.NodeVisitor):
         return False
 
     def class_has_decorator(self, cls: ast.ClassDef, decorator: str) -> bool:
+        if not all(self.__resolve_decorator(d)[0] for d in cls.decorator_list):
+            raise InvalidProgramException(cls, 'unknown.decorator')
         decorators = self.__get_decorators(cls.decorator_list)
         if self._class_incompatible_decorators(decorators):
             raise InvalidProgramException(cls, "decorators.incompatible")
diff --git a/src/nagini_translation/lib/constants.py b/src/nagini_translation/lib/constants.py
index 6dd0b69..b6615c2 100644
--- a/src/nagini_translation/lib/constants.py
+++ b/src/nagini_translation/lib/constants.py
@@ -221,6 +221,25 @@ VIPER_KEYWORDS = [
     'domain',
     'Map']
 
+# Decorators of functions and methods whose meaning we know.
+FUNCTION_DECORATORS = {
+    'AllLow',
+    'ContractOnly',
+    'Ghost',
+    'Inline',
+    'IOOperation',
+    'Opaque',
+    'Predicate',
+    'PreservesLow',
+    'Pure',
+    'abstractmethod',
+    'classmethod',
+    'final',
+    'override',
+    'property',
+    'staticmethod',
+}
+
 LEGAL_MAGIC_METHODS = {
     '__eq__',
     '__ne__',
-- 
2.43.0


From af5c9bd96e76cae9700793d6f9c54fb2d40d7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 34/62] fix: reject async functions with a proper error

---
 src/nagini_translation/analyzer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 26fc364..efa15ab 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -915,6 +915,9 @@ class Analyzer(ast.NodeVisitor):
                 self.visit(child, node)
         self.current_function = None
 
+    def visit_AsyncFunctionDef(self, node: ast.AsyncFunctionDef) -> None:
+        raise UnsupportedException(node, 'async functions')
+
     def visit_loop(self, node: Union[ast.While, ast.For]) -> None:
         old_loop_invariant = self.current_loop_invariant
         self.stmt_container.loop_invariants[node] = []
-- 
2.43.0


From f4e81e1bbb67e33ab40150d66f136ed1f434a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 35/62] fix: reject positional-only parameters with a proper
 error

---
 src/nagini_translation/analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index efa15ab..a81d756 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1077,6 +1077,8 @@ class Analyzer(ast.NodeVisitor):
 
     def visit_arguments(self, node: ast.arguments) -> None:
         assert self.current_function is not None
+        if node.posonlyargs:
+            raise UnsupportedException(node.posonlyargs[0], 'positional-only parameters')
         for arg in node.args:
             self.visit(arg, node)
         self.current_function.nargs = len(node.args)
-- 
2.43.0


From ad1619eb4c2316aee194c7d6be74670af6c50f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 36/62] fix: bind keyword and default arguments in calls to cls

---
 src/nagini_translation/translators/call.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 3c90dea..e42d2f0 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1793,12 +1793,9 @@ class CallTranslator(CommonTranslator):
         Translates a call to the cls parameter in a class method.
         """
         target_class = ctx.actual_function.cls
-        args = []
-        arg_stmts = []
-        for arg in node.args:
-            arg_stmt, arg_val = self.translate_expr(arg, ctx)
-            arg_stmts += arg_stmt
-            args.append(arg_val)
+        target = target_class.get_method('__init__')
+        arg_stmts, args, _ = self.translate_args(target, node.args, node.keywords,
+                                                 node, ctx, implicit_receiver=True)
         res_var = ctx.current_function.create_variable(target_class.name +
                                                        '_res',
                                                        target_class,
@@ -1823,7 +1820,6 @@ class CallTranslator(CommonTranslator):
                                         self.no_info(ctx))
         args = [res_var.ref()] + args
         stmts = [new, type_inhale] + may_set_inhales
-        target = target_class.get_method('__init__')
         if target:
             target_class = target.cls
             targets = []
-- 
2.43.0


From e7afe6931149e86ee5cc7e15f53a1a6b43e8ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 37/62] fix: reject keyword arguments that contract functions
 and IO operations would ignore

---
 src/nagini_translation/analyzer.py                        | 5 +++++
 src/nagini_translation/translators/call.py                | 8 ++++++++
 src/nagini_translation/translators/io_operation/opener.py | 3 ++-
 src/nagini_translation/translators/io_operation/use.py    | 2 ++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index a81d756..6fae6d7 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1222,6 +1222,11 @@ class Analyzer(ast.NodeVisitor):
         Collects preconditions, postconditions, raised exceptions and
         invariants.
         """
+        if (isinstance(node.func, ast.Name) and node.keywords and
+                (node.func.id in CONTRACT_WRAPPER_FUNCS or
+                 node.func.id in OBLIGATION_CONTRACT_FUNCS)):
+            raise UnsupportedException(node, 'Keyword arguments in call to ' +
+                                       node.func.id + '.')
         if (isinstance(node.func, ast.Name) and
                 node.func.id in CONTRACT_WRAPPER_FUNCS):
             if node.func.id != 'Invariant':
diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index e42d2f0..14a2526 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1396,6 +1396,14 @@ class CallTranslator(CommonTranslator):
 
         if is_name:
             func_name = get_func_name(node)
+            if node.keywords and (func_name in BUILTINS or
+                                  func_name in BUILTIN_PREDICATES or
+                                  func_name in CONTRACT_FUNCS or
+                                  func_name in IO_CONTRACT_FUNCS or
+                                  func_name in OBLIGATION_CONTRACT_FUNCS):
+                # The translations of these functions only consider positional arguments.
+                raise UnsupportedException(node, 'Keyword arguments in call to ' +
+                                           func_name + '.')
             if func_name in CONTRACT_WRAPPER_FUNCS:
                 raise InvalidProgramException(node, 'invalid.contract.position')
             elif func_name in CONTRACT_FUNCS:
diff --git a/src/nagini_translation/translators/io_operation/opener.py b/src/nagini_translation/translators/io_operation/opener.py
index 2883079..e2f1b09 100644
--- a/src/nagini_translation/translators/io_operation/opener.py
+++ b/src/nagini_translation/translators/io_operation/opener.py
@@ -97,7 +97,8 @@ class Opener:
             raise_invalid_operation_use('open_basic_io_operation',
                                         self._node)
         if (len(self._operation_call.args) !=
-                len(self._operation.get_parameters())):
+                len(self._operation.get_parameters()) or
+                self._operation_call.keywords):
             raise_invalid_operation_use('result_used_argument', self._node)
 
     def _translate_arguments(self) -> List[Expr]:
diff --git a/src/nagini_translation/translators/io_operation/use.py b/src/nagini_translation/translators/io_operation/use.py
index 3d5c00a..44f924f 100644
--- a/src/nagini_translation/translators/io_operation/use.py
+++ b/src/nagini_translation/translators/io_operation/use.py
@@ -62,6 +62,8 @@ class IOOperationUseTranslator(IOOperationCommonTranslator):
         """
         assert ctx.actual_function
 
+        if node.keywords:
+            raise UnsupportedException(node, 'Keyword arguments of IO operations.')
         operation = self.get_target(node, ctx)
         parameters = operation.get_parameters()
         args = self.translate_args(node.args[:len(parameters)], parameters, ctx)
-- 
2.43.0


From 48b7b03c4eb57d813e86e8ef8fe5400a5058aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 38/62] fix: check that all thread arguments have the parameter
 types

---
 src/nagini_translation/translators/call.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 14a2526..9d51f65 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1559,7 +1559,7 @@ class CallTranslator(CommonTranslator):
             func_equal = self.viper.EqCmp(arg_func, arg_val, pos, info)
             arg_assumptions = self.viper.And(arg_assumptions, func_equal, pos, info)
             arg_type_check = self.type_check(arg_val, method_args[i].type, pos, ctx)
-            arg_type_checks = self.viper.EqCmp(arg_type_checks, arg_type_check, pos, info)
+            arg_type_checks = self.viper.And(arg_type_checks, arg_type_check, pos, info)
 
         method_id_type = self.viper.DomainType(METHOD_ID_DOMAIN, {}, [])
         thread_method = self.viper.DomainFuncApp(GET_METHOD_FUNC, [thread],
-- 
2.43.0


From 6d7ce3cf27bcc4f5e69c5d1f07f5bf9af1e3c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:53 +0000
Subject: [PATCH 39/62] fix: reject unsupported thread parameters at every
 position

---
 src/nagini_translation/translators/call.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 9d51f65..35efc4e 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1462,9 +1462,10 @@ class CallTranslator(CommonTranslator):
         kwargs_arg = self._get_arg(len(node.args), keywords, 4, 'kwargs')
         daemon_arg = self._get_arg(len(node.args), keywords, 5, 'daemon')
 
-        if target_arg is None:
+        if target_arg is None or args_arg is None:
             raise InvalidProgramException(node, 'invalid.thread.creation')
-        if kwargs_arg or daemon_arg:
+        if (kwargs_arg is not None or daemon_arg is not None or
+                None in keywords):
             raise UnsupportedException(node, 'Unsupported thread parameter.')
 
         # Translate argument expressions, except target and args.
-- 
2.43.0


From 33f91e6ae4c6ab80a71b86a5199d32fddd7deff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:50 +0000
Subject: [PATCH 40/62] fix: bind the arguments of calls on union receivers for
 each target method

---
 src/nagini_translation/translators/call.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 35efc4e..bcc2423 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1163,9 +1163,7 @@ class CallTranslator(CommonTranslator):
         ctx.position.pop()
         return stmts, result
 
-    def translate_call_in_union(self, arg_stmts: List[Stmt], args: List[Expr],
-                                arg_types: List[PythonType], rectype: UnionType,
-                                node: ast.Call, ctx: Context,
+    def translate_call_in_union(self, rectype: UnionType, node: ast.Call, ctx: Context,
                                 impure: bool) -> StmtsAndExpr:
         """
         Translate a method call or function call when the receiver is of type
@@ -1184,10 +1182,13 @@ class CallTranslator(CommonTranslator):
             # Create guard checking if receiver is an instance of this type
             guard = self.var_type_check(node.func.value.id, type, pos, ctx)
 
-            # Translate the method call (method of this type)
-            stmts, expr = self.translate_normal_call(
-                type.get_func_or_method(node.func.attr), arg_stmts, args,
-                arg_types, node, ctx, impure)
+            # Translate the arguments and the method call (method of this type)
+            target = type.get_func_or_method(node.func.attr)
+            arg_stmts, args, arg_types = self.translate_args(
+                target, node.args, node.keywords, node, ctx,
+                target.method_type is not MethodType.static_method)
+            stmts, expr = self.translate_normal_call(target, arg_stmts, args,
+                                                     arg_types, node, ctx, impure)
 
             # Stores guard and translated method call as tuple
             guard_stmts_expr.append((guard, stmts, expr))
@@ -1232,7 +1233,6 @@ class CallTranslator(CommonTranslator):
         """
         Translates a call node which refers to a 'normal' function, method or predicate.
         """
-        arg_stmts, args, arg_types = self._translate_call_args(node, ctx)
         target = self._get_call_target(node, ctx)
         if not target:
             # Handle method calls when receiver's type is union
@@ -1244,11 +1244,12 @@ class CallTranslator(CommonTranslator):
                     # in which case we don't need special treatment.
                     target_pred = rectype.python_class.get_predicate(node.func.attr)
                     if target_pred:
+                        arg_stmts, args, arg_types = self.translate_args(
+                            target_pred, node.args, node.keywords, node, ctx, True)
                         return self.translate_normal_call(target_pred, arg_stmts, args,
                                                           arg_types, node, ctx, impure)
                     # Otherwise apply special union treatment.
-                    return self.translate_call_in_union(arg_stmts, args, arg_types,
-                                                        rectype, node, ctx, impure)
+                    return self.translate_call_in_union(rectype, node, ctx, impure)
 
             # Must be a function that exists (otherwise mypy would complain)
             # we don't know, so probably some builtin we don't support yet.
@@ -1256,6 +1257,7 @@ class CallTranslator(CommonTranslator):
             if ctx.actual_function.method_type == MethodType.class_method:
                 msg += ' or indirect call of classmethod argument'
             raise UnsupportedException(node, msg + '.')
+        arg_stmts, args, arg_types = self._translate_call_args(node, ctx)
         if isinstance(target, PythonType):
             return self.translate_constructor_call(target, node, args,
                                                    arg_stmts, ctx)
-- 
2.43.0


From ed468602e9e1f22878ff6ae5c3a98182fbda7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:01 +0000
Subject: [PATCH 41/62] fix: analyze keyword arguments in IO operations

---
 src/nagini_translation/analyzer_io.py     | 2 ++
 src/nagini_translation/lib/io_checkers.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/nagini_translation/analyzer_io.py b/src/nagini_translation/analyzer_io.py
index 266954a..2c4c54f 100644
--- a/src/nagini_translation/analyzer_io.py
+++ b/src/nagini_translation/analyzer_io.py
@@ -337,6 +337,8 @@ class IOOperationAnalyzer(ast.NodeVisitor):
             self._current_lambdas.append(body_prefix)
         for arg in node.args:
             self.visit(arg)
+        for keyword in node.keywords:
+            self.visit(keyword.value)
         if body_prefix:
             self._current_lambdas.pop()
 
diff --git a/src/nagini_translation/lib/io_checkers.py b/src/nagini_translation/lib/io_checkers.py
index 218bd8f..b74dcdf 100644
--- a/src/nagini_translation/lib/io_checkers.py
+++ b/src/nagini_translation/lib/io_checkers.py
@@ -86,3 +86,5 @@ class IOOperationBodyChecker(ast.NodeVisitor):
         self.visit(node.func)
         for arg in node.args:
             self.visit(arg)
+        for keyword in node.keywords:
+            self.visit(keyword.value)
-- 
2.43.0


From 67e978b4ca057bbcd290eac69452e8d9038b9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:21 +0000
Subject: [PATCH 42/62] fix: reject ghost exception types and causes

---
 src/nagini_translation/ghost/ghost_checker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 8820fd0..7d4e155 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -620,6 +620,8 @@ class GhostChecker(ast.NodeVisitor):
 
         blocks = [node.body, node.orelse, node.finalbody]
         for handler in node.handlers:
+            if handler.type is not None and self.is_ghost(handler.type):
+                raise InvalidProgramException(handler, 'invalid.ghost.try')
             for stmt in handler.body:
                 self.visit(stmt)
             handler.is_ghost = False
@@ -639,9 +641,11 @@ class GhostChecker(ast.NodeVisitor):
             raise InvalidProgramException(
                 node, 'invalid.ghost.raise',
                 "Ghost code cannot raise exceptions.")
+        if node.cause is not None and self.is_ghost(node.cause):
+            raise InvalidProgramException(node, 'invalid.ghost.raise')
 
         node.is_ghost = False
-        self.set_contains_ghost(node, False, node.exc)
+        self.set_contains_ghost(node, False, node.exc, node.cause)
 
     def visit_Assert(self, node: ast.Assert):
         # A plain assert statement is executed at runtime, so it may not talk
-- 
2.43.0


From 40535553d37e2468facc72eb52bddcb974c101d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:29 +0000
Subject: [PATCH 43/62] fix: check the body of lambdas in the ghost checker
 instead of crashing

---
 src/nagini_translation/ghost/ghost_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 7d4e155..fc67b14 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1229,7 +1229,7 @@ class GhostChecker(ast.NodeVisitor):
         elif isinstance(expr, ast.Lambda):
             old_ctx = self.in_ghost_ctx
             self.in_ghost_ctx = True
-            self.check_for_call(expr.value)
+            self.check_for_call(expr)
             self.in_ghost_ctx = old_ctx
 
             items = []
-- 
2.43.0


From 76a76407971b85b8bd60c8ebb2b55cc9df2d2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:01 +0000
Subject: [PATCH 44/62] fix: consider the filter of comprehensions in the ghost
 checker

---
 src/nagini_translation/ghost/ghost_checker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index fc67b14..5bb266e 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1244,7 +1244,7 @@ class GhostChecker(ast.NodeVisitor):
             items = expr.elts
             res = any([self.is_ghost(e) for e in items])
         elif isinstance(expr, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
-            if len(expr.generators) != 1 or expr.generators[0].ifs:
+            if len(expr.generators) != 1 or isinstance(expr, ast.GeneratorExp):
                 # Nagini does not support these and reports that itself; we only
                 # have to be conservative about the ghost information here.
                 items = [generator.iter for generator in expr.generators]
@@ -1270,6 +1270,10 @@ class GhostChecker(ast.NodeVisitor):
             else:
                 is_elt_ghost = self.is_ghost(expr.elt)
                 items = [expr.elt, gen]
+            # Which elements end up in the result depends on the filter.
+            ifs = expr.generators[0].ifs
+            is_elt_ghost = any([self.is_ghost(e) for e in ifs]) or is_elt_ghost
+            items += ifs
 
             self.ctx.remove_alias(target.id)
             res = is_gen_ghost or is_elt_ghost
-- 
2.43.0


From 2b91ad59f8d6f40372a1456aed504c620ac214b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:12 +0000
Subject: [PATCH 45/62] fix: reject comprehensions over several variables
 instead of crashing

---
 src/nagini_translation/analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 6fae6d7..60a7be8 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1113,6 +1113,8 @@ class Analyzer(ast.NodeVisitor):
     def visit_ListComp(self, node: ast.Lambda) -> None:
         name = construct_lambda_prefix(node.lineno, node.col_offset)
         target = node.generators[0].target
+        if not isinstance(target, ast.Name):
+            raise UnsupportedException(target, 'Unsupported comprehension target.')
         local_name = name + '$' + target.id
         var = self.node_factory.create_python_var(
             target.id, target, self.typeof(target))
-- 
2.43.0


From d98971f183506906028daeb542a0533be68e7a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:26 +0000
Subject: [PATCH 46/62] fix: consider the arguments of constructors of classes
 without __init__ in the ghost checker

---
 src/nagini_translation/ghost/ghost_checker.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 5bb266e..cdd625a 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -915,11 +915,8 @@ class GhostChecker(ast.NodeVisitor):
                 curr_cls = curr_cls.superclass
             if init is None:
                 # Empty object init
-                res = self.is_ghost(called_func) or self.in_ghost_ctx or is_receiver_ghost
-                call.is_ghost = res
-                call.contains_ghost = res
-                call.is_pure = True
-                return res, None
+                return self._check_unresolved_call(
+                    call, self.is_ghost(called_func) or is_receiver_ghost)
             # Constructor calls return an instance of the class, not the result
             # of __init__, so we remember the ghost information of the class here.
             is_class_ghost = self.is_ghost(called_func)
-- 
2.43.0


From dbec8a7a89a4f4088044859c5f57f76518737e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:48 +0000
Subject: [PATCH 47/62] fix: reject ghost values and ghost code when creating,
 starting and joining threads

---
 src/nagini_translation/ghost/ghost_checker.py | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index cdd625a..2fa5db0 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -897,6 +897,9 @@ class GhostChecker(ast.NodeVisitor):
             # IO operations only exist during verification.
             return self._check_ghost_func(call)
 
+        if isinstance(called_func, PythonClass) and called_func.name in THREADING:
+            return self._check_thread_creation(call)
+
         if isinstance(called_func, (PythonClass, PythonVarBase)):
             if isinstance(called_func, PythonVarBase):
                 # Function stored in var is called.
@@ -1045,11 +1048,36 @@ class GhostChecker(ast.NodeVisitor):
     def _check_thread_call(self, call: ast.Call) -> Tuple[bool, return_info_t]:
         """
         Handles calls of the methods of Thread objects, which Nagini translates
-        specially. Their arguments must all be regular.
+        specially. They have an effect, so they cannot be used in ghost code.
+        """
+        if self.in_ghost_ctx or self.check_receiver(call):
+            raise InvalidProgramException(
+                call, 'invalid.ghost.call',
+                "Threads cannot be started or joined in ghost code.")
+        return self._check_thread_arguments(call)
+
+    def _check_thread_creation(self, call: ast.Call) -> Tuple[bool, return_info_t]:
+        """
+        Handles the creation of Thread objects. Neither the target nor any of the
+        arguments may be ghost, since the thread runs them.
+        """
+        self._check_thread_arguments(call)
+        call.is_ghost = self.in_ghost_ctx
+        call.contains_ghost = call.contains_ghost or self.in_ghost_ctx
+        call.is_pure = True
+        return self.in_ghost_ctx, None
+
+    def _check_thread_arguments(self, call: ast.Call) -> Tuple[bool, return_info_t]:
+        """
+        Checks that all arguments of a call involving threads are regular.
         """
         contains_ghost = False
         arguments = list(call.args) + [kw.value for kw in call.keywords]
         for argument in arguments:
+            target = self.get_target(argument, self.ctx)
+            if isinstance(target, PythonMethod) and target.predicate:
+                # Reported during translation.
+                continue
             if self.is_ghost(argument):
                 raise InvalidProgramException(
                     call, 'invalid.ghost.call',
-- 
2.43.0


From f2734c5db822640ff52ca9bd55e5540b5d3afad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 48/62] fix: treat attributes of ghost references as ghost in
 the ghost checker

---
 src/nagini_translation/ghost/ghost_checker.py | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 2fa5db0..17ab5e4 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -390,10 +390,9 @@ class GhostChecker(ast.NodeVisitor):
     def visit_Delete(self, node: ast.Delete):
         if self.has_mixed_elems(node.targets):
             raise InvalidProgramException(node, 'invalid.ghost.delete')
-        if self.in_ghost_ctx:
-            for target in node.targets:
-                if not self.is_ghost(target):
-                    raise InvalidProgramException(node, 'invalid.ghost.delete')
+        for target in node.targets:
+            if self.is_regular_state(target) or (self.in_ghost_ctx and not self.is_ghost(target)):
+                raise InvalidProgramException(node, 'invalid.ghost.delete')
         
         is_node_ghost = self.is_ghost(node.targets[0])
         node.is_ghost = is_node_ghost
@@ -473,6 +472,10 @@ class GhostChecker(ast.NodeVisitor):
 
     def check_assign(self, value: Union[ast.expr, bool], target: ast.expr, allow_conversion: bool =True) -> None:        
         if isinstance(target, (ast.Name, ast.Attribute)):
+            if self.is_regular_state(target):
+                raise InvalidProgramException(
+                    target, 'invalid.ghost.assign',
+                    "Regular fields cannot be changed through ghost references.")
             if not self.is_assignable(value, target, allow_conversion):
                 raise InvalidProgramException(
                     target, 'invalid.ghost.assign',
@@ -485,6 +488,14 @@ class GhostChecker(ast.NodeVisitor):
                     target, 'invalid.ghost.assign',
                     "The elements of a ghost collection may only be read.")
 
+    def is_regular_state(self, target: ast.expr) -> bool:
+        """
+        Returns whether the given target is a regular field which is reached
+        through a ghost reference.
+        """
+        return (isinstance(target, ast.Attribute) and self.is_ghost(target) and
+                not self.resolve_target_ghost(target))
+
     def check_unpacking(self, value: Union[ast.expr, bool], target: Union[ast.List, ast.Tuple]) -> None:
         unpacked = target.elts
 
@@ -1095,7 +1106,13 @@ class GhostChecker(ast.NodeVisitor):
         """
         if not isinstance(call.func, ast.Attribute):
             return False
-        receiver = call.func.value
+        return self.is_receiver_ghost(call.func)
+
+    def is_receiver_ghost(self, expr: ast.Attribute) -> bool:
+        """
+        Returns whether the receiver of the given attribute access is ghost.
+        """
+        receiver = expr.value
         if isinstance(receiver, (ast.Name, ast.Attribute)) and \
                 isinstance(self.get_target(receiver, self.ctx), PythonModule):
             return False
@@ -1324,8 +1341,10 @@ class GhostChecker(ast.NodeVisitor):
             items = []
             res = False
         elif isinstance(expr, ast.Attribute):
+            # An attribute of a ghost reference cannot be read at runtime, so
+            # its value is ghost even if the attribute itself is regular.
             items = []
-            res = self.resolve_target_ghost(expr)
+            res = self.resolve_target_ghost(expr) or self.is_receiver_ghost(expr)
         elif isinstance(expr, ast.Subscript):
             name = self.get_subscript_name(expr)
             if name in ["Union", "Tuple"] and isinstance(expr.slice, ast.Tuple):
-- 
2.43.0


From 99cede7c8c61707e62d9d6cb7921c41be88d0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:02 +0000
Subject: [PATCH 49/62] fix: do not drop or leak calls of regular functions
 with ghost results

---
 src/nagini_translation/ghost/ghost_checker.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 17ab5e4..eae4f43 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -405,13 +405,18 @@ class GhostChecker(ast.NodeVisitor):
             old_ctx = self.in_ghost_ctx
             self.in_ghost_ctx = True
         
+        value = node.value
+        if len(node.targets) > 1 and not are_targets_ghost:
+            # The value is regular and is only converted for the ghost targets.
+            value = self.is_ghost(node.value)
+
         for target in node.targets:
             if isinstance(target, (ast.Tuple, ast.List)):
                 # Unpacking
                 self.check_unpacking(node.value, target)
             else:
                 # Normal assignment
-                self.check_assign(node.value, target)
+                self.check_assign(value, target)
         
         if is_node_definitively_ghost:
             self.in_ghost_ctx = old_ctx
@@ -597,7 +602,10 @@ class GhostChecker(ast.NodeVisitor):
         if is_test_ghost:
             old_ctx = self.in_ghost_ctx
             self.in_ghost_ctx = True
-            self.check_for_call(test)
+            if isinstance(test, ast.Call):
+                self.check_call(test)
+            else:
+                self.check_for_call(test)
 
         for stmt in body:
             self.visit(stmt)
@@ -673,6 +681,9 @@ class GhostChecker(ast.NodeVisitor):
 
     def visit_Expr(self, node: ast.Expr):
         is_node_ghost = self.is_ghost(node.value)
+        if isinstance(node.value, ast.Call):
+            # A regular call has to be executed even if its result is ghost.
+            is_node_ghost = node.value.is_ghost
 
         if is_node_ghost:
             old_ctx = self.in_ghost_ctx
-- 
2.43.0


From 1ead6451f05b540159b9bf223fea689efccbc14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:49 +0000
Subject: [PATCH 50/62] fix: check match statements in the ghost checker

---
 src/nagini_translation/ghost/ghost_checker.py | 73 +++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index eae4f43..e478ffa 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -598,6 +598,79 @@ class GhostChecker(ast.NodeVisitor):
         node.is_ghost = is_test_ghost
         self.set_contains_ghost(node, is_test_ghost, node.test, *node.body, *node.orelse)
 
+    def visit_Match(self, node: ast.Match):
+        is_subject_ghost = self.is_ghost(node.subject)
+        # The captures of a match in ghost code do not exist at runtime.
+        is_match_ghost = is_subject_ghost or self.in_ghost_ctx
+
+        old_ctx = self.in_ghost_ctx
+        self.in_ghost_ctx = is_match_ghost
+        if isinstance(node.subject, ast.Call) and is_match_ghost:
+            self.check_call(node.subject)
+        elif is_match_ghost:
+            self.check_for_call(node.subject)
+
+        for case in node.cases:
+            for var in self.get_captured_vars(case.pattern):
+                if is_match_ghost:
+                    self.make_ghost(var, node)
+                elif self.is_ghost(var):
+                    raise InvalidProgramException(
+                        node, 'invalid.ghost.match',
+                        "A regular match cannot capture into ghost variables.")
+            is_pattern_ghost = self.is_pattern_ghost(case.pattern)
+            is_guard_ghost = case.guard is not None and self.is_ghost(case.guard)
+            if not is_match_ghost and (is_pattern_ghost or is_guard_ghost):
+                raise InvalidProgramException(
+                    node, 'invalid.ghost.match',
+                    "A regular match cannot depend on ghost values.")
+            for stmt in case.body:
+                self.visit(stmt)
+            case.is_ghost = is_match_ghost
+            self.set_contains_ghost(case, is_match_ghost, case.guard, *case.body)
+        self.in_ghost_ctx = old_ctx
+
+        node.is_ghost = is_match_ghost
+        self.set_contains_ghost(node, is_match_ghost, node.subject, *node.cases)
+
+    def get_captured_vars(self, pattern: ast.pattern) -> List[PythonVarBase]:
+        """
+        Returns the variables the given pattern assigns to.
+        """
+        names = []
+        for sub_pattern in ast.walk(pattern):
+            if isinstance(sub_pattern, (ast.MatchAs, ast.MatchStar)):
+                names.append(sub_pattern.name)
+            elif isinstance(sub_pattern, ast.MatchMapping):
+                names.append(sub_pattern.rest)
+        targets = [self.get_target(ast.Name(name, ast.Store()), self.ctx)
+                   for name in names if name is not None]
+        return [target for target in targets if isinstance(target, PythonVarBase)]
+
+    def is_pattern_ghost(self, pattern: ast.pattern) -> bool:
+        """
+        Returns whether matching the given pattern depends on a ghost element.
+        """
+        res = False
+        for sub_pattern in ast.walk(pattern):
+            if isinstance(sub_pattern, ast.MatchValue):
+                res = self.is_ghost(sub_pattern.value) or res
+            elif isinstance(sub_pattern, ast.MatchMapping):
+                res = any([self.is_ghost(key) for key in sub_pattern.keys]) or res
+            elif isinstance(sub_pattern, ast.MatchClass):
+                res = self.is_ghost(sub_pattern.cls) or res
+                cls = self.get_target(sub_pattern.cls, self.ctx)
+                if isinstance(cls, PythonClass):
+                    fields = [cls.get_field(attr) for attr in sub_pattern.kwd_attrs]
+                    res = any([self.is_ghost(f) for f in fields if f is not None]) or res
+        return res
+
+    def make_ghost(self, var: PythonVarBase, node: ast.AST) -> None:
+        """
+        Makes a variable which is assigned by a ghost statement ghost.
+        """
+        var.is_ghost = True
+
     def check_control_flow(self, is_test_ghost: bool, test: ast.expr, body: List[ast.stmt], orelse: List[ast.stmt]):
         if is_test_ghost:
             old_ctx = self.in_ghost_ctx
-- 
2.43.0


From 7492c021f566ebfde45612bcc5729ee63cedaa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:54 +0000
Subject: [PATCH 51/62] fix: reject changing regular variables by loops in
 ghost code

---
 src/nagini_translation/ghost/ghost_checker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index e478ffa..f4261d2 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -86,6 +86,8 @@ class GhostChecker(ast.NodeVisitor):
         self.in_ghost_ctx = False
         # The module whose contents are currently being checked.
         self.current_module = None
+        # The variables which have been used as regular variables so far.
+        self.regular_vars = set()
         # True as soon as a ghost statement has been found inside a function body.
         # Ghost statements are translated into terminating sections, which require
         # the obligation encoding to be enabled.
@@ -546,10 +548,10 @@ class GhostChecker(ast.NodeVisitor):
 
     def visit_For(self, node: ast.For):
         is_iter_ghost = self.is_ghost(node.iter)
-        if is_iter_ghost:
+        if is_iter_ghost or self.in_ghost_ctx:
             # Set is_ghost flag of all vars
             def set_var_ghost(var: PythonVarBase) -> None:
-                var.is_ghost = True
+                self.make_ghost(var, node)
             if not self.call_on_vars(node.target, set_var_ghost):
                 # Iterating over a ghost collection into a target that cannot be
                 # made ghost (e.g. a field or a subscript) is not allowed.
@@ -669,6 +671,10 @@ class GhostChecker(ast.NodeVisitor):
         """
         Makes a variable which is assigned by a ghost statement ghost.
         """
+        if not self.is_ghost(var) and var in self.regular_vars:
+            raise InvalidProgramException(
+                node, 'invalid.ghost.assign',
+                "Regular variables cannot be changed by ghost code.")
         var.is_ghost = True
 
     def check_control_flow(self, is_test_ghost: bool, test: ast.expr, body: List[ast.stmt], orelse: List[ast.stmt]):
@@ -1477,7 +1483,10 @@ class GhostChecker(ast.NodeVisitor):
         """
         target = self.get_target(expr, self.ctx)
         if target is not None:
-            return self.is_ghost(target)
+            is_target_ghost = self.is_ghost(target)
+            if isinstance(target, PythonVarBase) and not is_target_ghost:
+                self.regular_vars.add(target)
+            return is_target_ghost
         return self.is_ghost_type(self.get_type(expr, self.ctx))
 
     def set_contains_ghost(self, node: ast.AST, is_node_ghost: bool, *sub_exprs: ast.AST) -> None:
-- 
2.43.0


From a33967cf509af3c23e7cce1bac5dd0be1445fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:34 +0000
Subject: [PATCH 52/62] fix: extract the ghost elements of all parts of regular
 statements and expressions

---
 src/nagini_translation/ghost/extraction.py    | 82 ++++++++++++++-----
 src/nagini_translation/ghost/ghost_checker.py | 22 +++--
 2 files changed, 78 insertions(+), 26 deletions(-)

diff --git a/src/nagini_translation/ghost/extraction.py b/src/nagini_translation/ghost/extraction.py
index 9bea1fb..6d3195d 100644
--- a/src/nagini_translation/ghost/extraction.py
+++ b/src/nagini_translation/ghost/extraction.py
@@ -149,19 +149,27 @@ class ProgramExtractor:
             if isinstance(value, list):
                 new_list = []
                 for item in value:
-                    if self._is_extractable(item):
-                        new_item = self.extract(item)
-                        if new_item is not None:
-                            new_list.append(new_item)
-                    else:
-                        new_list.append(item)
+                    new_item = self._extract_child(item)
+                    if new_item is not None or item is None:
+                        new_list.append(new_item)
                 setattr(new_node, field, new_list)
-            elif self._is_extractable(value):
-                new_value = self.extract(value)
+            else:
+                new_value = self._extract_child(value)
                 if new_value is not None:
                     setattr(new_node, field, new_value)
         return new_node
 
+    def _extract_child(self, node: object) -> object:
+        """
+        Extracts a child of a regular node. Nodes without ghost information,
+        e.g. comprehensions or with items, may contain nodes which carry it.
+        """
+        if self._is_extractable(node):
+            return self.extract(node)
+        elif isinstance(node, ast.AST):
+            return self.generic_extract(node)
+        return node
+
     def _is_extractable(self, node: object) -> bool:
         """
         Returns whether the given node carries ghost information. Nodes like
@@ -172,7 +180,10 @@ class ProgramExtractor:
     def extract_ClassDef(self, node: ast.ClassDef) -> ast.AST:
         new_body = self._extract_body(node.body, ast.Pass())
         new_decorator_list = self._extract_decorators(node.decorator_list)
-        return ast.ClassDef(node.name, node.bases, node.keywords, new_body, new_decorator_list)
+        new_node = copy.copy(node)
+        new_node.body = new_body
+        new_node.decorator_list = new_decorator_list
+        return new_node
 
     def extract_FunctionDef(self, node: ast.FunctionDef) -> Optional[ast.AST]:
         # Remove Specification only Functions
@@ -185,7 +196,9 @@ class ProgramExtractor:
         new_posonly = self._extract_args_or_defaults(args.posonlyargs)
         new_args = self._extract_args_or_defaults(args.args)
         new_kwonly = self._extract_args_or_defaults(args.kwonlyargs)
-        new_kw_defaults = self._extract_args_or_defaults(args.kw_defaults)
+        # Keyword only arguments without a default have the default None.
+        new_kw_defaults = [default for arg, default in zip(args.kwonlyargs, args.kw_defaults)
+                           if not arg.is_ghost]
         new_defaults = self._extract_args_or_defaults(args.defaults)
 
         new_arguments = ast.arguments(new_posonly, new_args, args.vararg, new_kwonly, 
@@ -208,19 +221,27 @@ class ProgramExtractor:
             new_returns = node.returns.slice.elts[0]
 
 
-        return ast.FunctionDef(node.name, new_arguments, new_body, new_decorator_list, new_returns)
+        new_node = copy.copy(node)
+        new_node.args = new_arguments
+        new_node.body = new_body
+        new_node.decorator_list = new_decorator_list
+        new_node.returns = new_returns
+        new_node.type_comment = None
+        return new_node
 
     def extract_Assign(self, node: ast.Assign) -> ast.AST:
         new_targets: List[ast.expr] = []
         for target in node.targets:
-            if isinstance(target, ast.Tuple):
+            if isinstance(target, (ast.Tuple, ast.List)):
                 new_elts: List[ast.expr] = []
                 for sub_target in target.elts:
                     new_sub_target = self.extract(sub_target)
                     if new_sub_target is not None:
                         new_elts.append(new_sub_target)
 
-                if len(new_elts) == 0:
+                if len(new_elts) == len(target.elts):
+                    new_target = type(target)(new_elts, target.ctx)
+                elif len(new_elts) == 0:
                     new_target = None
                 elif len(new_elts) == 1:
                     new_target = new_elts[0]
@@ -243,6 +264,8 @@ class ProgramExtractor:
 
     def extract_AnnAssign(self, node: ast.AnnAssign) -> ast.AST:
         new_target = self.extract(node.target)
+        if node.value is None:
+            return ast.AnnAssign(new_target, node.annotation, None, node.simple)
         new_value = self.extract(node.value)
         assert new_value is not None, "Value was ghost when statement is regular"
 
@@ -253,7 +276,8 @@ class ProgramExtractor:
             return ast.AnnAssign(new_target,node.annotation, new_value, node.simple)
 
     def extract_Return(self, node: ast.Return) -> ast.AST:
-        if isinstance(node.value, ast.Tuple) and len(node.value.elts) == 2:
+        if isinstance(node.value, ast.Tuple) and len(node.value.elts) == 2 and \
+                not node.value.is_ghost:
             new_rets: List[ast.expr] = []
             for ret in node.value.elts:
                 new_ret = self.extract(ret)
@@ -288,28 +312,44 @@ class ProgramExtractor:
         new_iter = self.extract(node.iter)
         new_body = self._extract_body(node.body, ast.Pass())
         new_orelse = self._extract_body(node.orelse)
-        return ast.For(node.target, new_iter, new_body, new_orelse)
+        new_target = self._extract_child(node.target)
+        return ast.For(new_target, new_iter, new_body, new_orelse)
 
     def extract_With(self, node: ast.With) -> ast.AST:
         new_body = self._extract_body(node.body, ast.Pass())
-        return ast.With(node.items, new_body)
+        new_items = [self._extract_child(item) for item in node.items]
+        return ast.With(new_items, new_body)
 
     def extract_Try(self, node: ast.Try) -> ast.AST:
         new_body = self._extract_body(node.body, ast.Pass())
         new_handlers = [
-            ast.ExceptHandler(handler.type, handler.name,
+            ast.ExceptHandler(self._extract_child(handler.type), handler.name,
                               self._extract_body(handler.body, ast.Pass()))
             for handler in node.handlers
         ]
         new_orelse = self._extract_body(node.orelse)
-        new_finalbody = self._extract_body(node.finalbody)
+        # A try statement needs handlers or a finally block.
+        new_finalbody = self._extract_body(node.finalbody,
+                                           ast.Pass() if node.finalbody else None)
         return ast.Try(new_body, new_handlers, new_orelse, new_finalbody)
 
     def extract_AugAssign(self, node: ast.AugAssign) -> ast.AST:
         new_value = self.extract(node.value)
         assert new_value is not None, "Value was ghost when statement is regular"
-        return ast.AugAssign(node.target, node.op, new_value)
-
+        new_target = self.extract(node.target)
+        if new_target is None:
+            # Since target is ghost but stmt is regular, value must be an impure call
+            return ast.Expr(new_value)
+        return ast.AugAssign(new_target, node.op, new_value)
+
+    def extract_Match(self, node: ast.Match) -> ast.AST:
+        new_subject = self.extract(node.subject)
+        new_cases = [
+            ast.match_case(self._extract_child(case.pattern), self._extract_child(case.guard),
+                           self._extract_body(case.body, ast.Pass()))
+            for case in node.cases
+        ]
+        return ast.Match(new_subject, new_cases)
 
     def extract_Expr(self, node: ast.Expr) -> ast.AST:
         new_expr = self.extract(node.value)
@@ -335,7 +375,7 @@ class ProgramExtractor:
                 new_kw = ast.keyword(kw.arg, new_kw_val)
                 new_keywords.append(new_kw)
 
-        return ast.Call(node.func, new_args, new_keywords)
+        return ast.Call(self._extract_child(node.func), new_args, new_keywords)
     
     def _extract_body(self, body: List[ast.stmt], if_empty: Optional[ast.AST] = None) -> List[ast.stmt]:
         new_body: List[ast.stmt] = []
diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index f4261d2..128393a 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -708,7 +708,8 @@ class GhostChecker(ast.NodeVisitor):
             self.visit(stmt)
 
         node.is_ghost = False
-        self.set_contains_ghost(node, False, *node.body)
+        contexts = [withitem.context_expr for withitem in node.items]
+        self.set_contains_ghost(node, False, *contexts, *node.body)
 
     def visit_Try(self, node: ast.Try):
         # Exception handling may only be used in regular code, since exceptions
@@ -1142,7 +1143,7 @@ class GhostChecker(ast.NodeVisitor):
                 contains_ghost = True
 
         call.is_ghost = False
-        call.contains_ghost = contains_ghost
+        call.contains_ghost = contains_ghost or self.has_ghost_arguments(call)
 
         return False, self.get_return_info(called_func)
 
@@ -1220,10 +1221,20 @@ class GhostChecker(ast.NodeVisitor):
         for kw in call.keywords:
             is_func_ghost = self.is_ghost(kw.value) or is_func_ghost
         call.is_ghost = is_func_ghost
-        call.contains_ghost = is_func_ghost
+        call.contains_ghost = is_func_ghost or self.has_ghost_arguments(call)
         call.is_pure = True
         return is_func_ghost, None
 
+    def has_ghost_arguments(self, call: ast.Call) -> bool:
+        """
+        Returns whether the receiver or an argument of the given regular call
+        contains ghost elements.
+        """
+        parts = call.args + [kw.value for kw in call.keywords]
+        if isinstance(call.func, ast.Attribute):
+            parts.append(call.func.value)
+        return any(getattr(part, 'contains_ghost', False) for part in parts)
+
     def only_equivalent_signatures(self, funcs: List[PythonMethod]) -> bool:
         """
         Returns whether all given functions agree on the ghost information of
@@ -1433,8 +1444,9 @@ class GhostChecker(ast.NodeVisitor):
         elif isinstance(expr, ast.Attribute):
             # An attribute of a ghost reference cannot be read at runtime, so
             # its value is ghost even if the attribute itself is regular.
-            items = []
-            res = self.resolve_target_ghost(expr) or self.is_receiver_ghost(expr)
+            res = self.is_receiver_ghost(expr)
+            res = self.resolve_target_ghost(expr) or res
+            items = [expr.value] if hasattr(expr.value, 'contains_ghost') else []
         elif isinstance(expr, ast.Subscript):
             name = self.get_subscript_name(expr)
             if name in ["Union", "Tuple"] and isinstance(expr.slice, ast.Tuple):
-- 
2.43.0


From b3f2b050a651639090a5ffcd478d13862f65da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:19 +0000
Subject: [PATCH 53/62] fix: support list targets and exit methods without
 result instead of crashing

---
 src/nagini_translation/lib/resolver.py          |  3 ++-
 src/nagini_translation/translators/method.py    | 11 +++++++----
 src/nagini_translation/translators/statement.py |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/lib/resolver.py b/src/nagini_translation/lib/resolver.py
index c46badd..52f03ae 100644
--- a/src/nagini_translation/lib/resolver.py
+++ b/src/nagini_translation/lib/resolver.py
@@ -416,7 +416,8 @@ def _get_collection_literal_type(node: ast.AST, arg_fields: List[str],
     literal which contain the contents of the literal (e.g. 'keys' and 'values'
     for a dict), returns the type of the collection.
     """
-    if hasattr(node, '_parent') and isinstance(node._parent, (ast.Assign, ast.AnnAssign)):
+    if (hasattr(node, '_parent') and isinstance(node._parent, (ast.Assign, ast.AnnAssign)) and
+            node is node._parent.value):
         # Constructor is assigned to variable;
         # we get the type of the dict from the type of the
         # variable it's assigned to.
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 3fc91ec..17c5285 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -682,9 +682,12 @@ class MethodTranslator(CommonTranslator):
             ctx_type = self.get_type(block.with_item.context_expr, ctx)
             ctx_var = block.with_var
             exit_type = ctx_type.get_method('__exit__').type
-            exit_res = ctx.current_function.create_variable('exit_res',
-                                                            exit_type,
-                                                            self.translator)
+            exit_results = []
+            if exit_type is not None:
+                exit_res = ctx.current_function.create_variable('exit_res',
+                                                                exit_type,
+                                                                self.translator)
+                exit_results.append(exit_res.ref())
 
             type_class = ctx.module.global_module.classes['type']
             exception_class = ctx.module.global_module.classes['Exception']
@@ -706,7 +709,7 @@ class MethodTranslator(CommonTranslator):
                                               value_var.ref(),
                                               traceback_var.ref()],
                                              [ctx_type, None, None, None],
-                                             [exit_res.ref()],
+                                             exit_results,
                                              block.with_item.context_expr, ctx)
             body.extend(exit_call)
         finally_var = block.get_finally_var(self.translator)
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 060140f..10608f4 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1386,7 +1386,7 @@ class StatementTranslator(CommonTranslator):
                 rhs_type = rhs_type.type_args[rhs_index]
             else:
                 rhs_type = rhs_type.type_args[0]
-        if isinstance(lhs, ast.Tuple):
+        if isinstance(lhs, (ast.Tuple, ast.List)):
             return self._assign_to_tuple(lhs, rhs, rhs_type, node, ctx)
 
         return self._assign_single_value(lhs, rhs, rhs_type, node, ctx,
-- 
2.43.0


From 7fe4fbc6e95f7dfb4c7cd0932a17f7def3eb63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:18 +0000
Subject: [PATCH 54/62] fix: extract starred arguments which are partly passed
 to ghost parameters

---
 src/nagini_translation/ghost/extraction.py    |  6 ++++++
 src/nagini_translation/ghost/ghost_checker.py | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/extraction.py b/src/nagini_translation/ghost/extraction.py
index 6d3195d..2d79b68 100644
--- a/src/nagini_translation/ghost/extraction.py
+++ b/src/nagini_translation/ghost/extraction.py
@@ -364,6 +364,12 @@ class ProgramExtractor:
         # Remove ghost args
         new_args: list[ast.expr] = []
         for arg in node.args:
+            converted = getattr(arg, 'converted_elements', None)
+            if converted and not arg.is_ghost:
+                # Only some elements of a starred argument remain
+                new_args.extend(ast.Subscript(arg.value, ast.Constant(index), ast.Load())
+                                for index in range(arg.nof_elements) if index not in converted)
+                continue
             new_arg = self.extract(arg)
             if new_arg is not None:
                 new_args.append(new_arg)
diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 128393a..0d44816 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1070,6 +1070,8 @@ class GhostChecker(ast.NodeVisitor):
 
         # Get actual arguments
         args: list[ast.expr | bool] = []
+        # The starred expressions (and the indices in them) the arguments come from
+        sources: list[tuple[ast.Starred, int] | None] = []
         for arg in call.args:
             if isinstance(arg, ast.Starred):
                 if isinstance(arg.value, ast.Call):
@@ -1079,12 +1081,17 @@ class GhostChecker(ast.NodeVisitor):
                 is_var_ghost = self.is_ghost(arg.value)
                 var_type = self.get_type(arg.value, self.ctx)
                 nof_elements = len(var_type.type_args) if isinstance(var_type, GenericType) else 1
-                for _ in range(nof_elements):
+                for element in range(nof_elements):
                     args.append(is_var_ghost)
+                    sources.append((arg, element))
+                # The elements which are only used as ghost arguments
+                arg.converted_elements = set()
+                arg.nof_elements = nof_elements
                 arg.is_ghost = is_var_ghost
                 arg.contains_ghost = is_var_ghost
             else:
                 args.append(arg)
+                sources.append(None)
 
         if len(args) > len(params) and not has_variadic_params:
             # More arguments than parameters can only happen for calls which
@@ -1115,6 +1122,9 @@ class GhostChecker(ast.NodeVisitor):
             if is_param_ghost:
                 self.in_ghost_ctx = old_ctx
                 contains_ghost = True
+                if sources[index] is not None:
+                    starred, element = sources[index]
+                    starred.converted_elements.add(element)
 
         # Check keyword arguments
         for kw in call.keywords:
-- 
2.43.0


From d56004b7f499b21098a735ea37c45588bc812c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:44 +0000
Subject: [PATCH 55/62] fix: find overridden members of indirect superclasses

---
 src/nagini_translation/lib/program_nodes.py | 51 ++++++++++++---------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 1490a5b..848aae9 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -743,6 +743,20 @@ class PythonClass(PythonType, PythonNode, PythonScope, ContainerInterface):
                           self.predicates])
         return CombinedDict([], dicts)
 
+    def get_overridden(self, name: str) -> Optional['PythonNode']:
+        """
+        Returns the element with the given name which this class inherits (and
+        overrides, if it contains an element with that name), i.e., that of the
+        closest superclass which has one.
+        """
+        cls = self.superclass
+        while cls is not None:
+            contents = cls.get_contents(False)
+            if name in contents:
+                return contents[name]
+            cls = cls.python_class.superclass
+        return None
+
     def try_box(self) -> 'PythonClass':
         """
         If this class represents a primitive type, returns the boxed version,
@@ -1136,20 +1150,17 @@ class PythonMethod(PythonNode, PythonScope, ContainerInterface, PythonStatementC
             self.result = self.node_factory.create_python_var(RESULT_NAME, None,
                                                               self.type)
             self.result.process(RESULT_NAME, translator)
-        if self.cls is not None and self.cls.superclass is not None:
-            try:
-                # Could be overridden by anything, so we have to check if there's
-                # anything with the same name.
-                self.overrides = self.cls.superclass.get_contents(False)[self.name]
-                if self.overrides is not None:
-                    if self.overrides.inline:
-                        raise InvalidProgramException(self.node, 'overriding.inline.method',
-                                                      'Functions marked to be inlined cannot be overridden.')
-                    if self.inline:
-                        raise InvalidProgramException(self.node, 'overriding.inline.method',
-                                                      'Functions marked to be inlined cannot override other methods.')
-            except KeyError:
-                pass
+        if self.cls is not None:
+            # Could be overridden by anything, so we have to check if there's
+            # anything with the same name.
+            self.overrides = self.cls.get_overridden(self.name)
+            if self.overrides is not None:
+                if self.overrides.inline:
+                    raise InvalidProgramException(self.node, 'overriding.inline.method',
+                                                  'Functions marked to be inlined cannot be overridden.')
+                if self.inline:
+                    raise InvalidProgramException(self.node, 'overriding.inline.method',
+                                                  'Functions marked to be inlined cannot override other methods.')
         for local in self.locals:
             self.locals[local].process(self.get_fresh_name(local), translator)
         for name in self.special_vars:
@@ -1687,13 +1698,11 @@ class PythonGlobalVar(PythonVarBase):
 
     def process(self, sil_name: str, translator: 'Translator') -> None:
         super().process(sil_name, translator)
-        if self.cls is not None and self.cls.superclass is not None:
-            try:
-                self.overrides = self.cls.superclass.get_contents(False)[self.name]
-                if not isinstance(self.overrides, PythonGlobalVar):
-                    raise InvalidProgramException(self.node, 'invalid.override')
-            except KeyError:
-                pass
+        if self.cls is not None:
+            self.overrides = self.cls.get_overridden(self.name)
+            if (self.overrides is not None and
+                    not isinstance(self.overrides, PythonGlobalVar)):
+                raise InvalidProgramException(self.node, 'invalid.override')
 
 
 class PythonIOExistentialVar(PythonVarBase):
-- 
2.43.0


From 20d93a042d13cd90806da68596355d623cef4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:44 +0000
Subject: [PATCH 56/62] fix: reject overrides which cannot be called like the
 overridden member

---
 src/nagini_translation/translators/predicate.py |  2 ++
 src/nagini_translation/translators/program.py   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/nagini_translation/translators/predicate.py b/src/nagini_translation/translators/predicate.py
index 3324226..497ce8d 100644
--- a/src/nagini_translation/translators/predicate.py
+++ b/src/nagini_translation/translators/predicate.py
@@ -110,6 +110,8 @@ class PredicateTranslator(CommonTranslator):
             ctx.current_function = instance
             ctx.module = instance.module
             self.bind_type_vars(instance, ctx)
+            if len(instance.args) != len(root.args):
+                raise InvalidProgramException(instance.node, 'invalid.override')
             # Replace variables in instance by variables in root, since we use the
             # parameter names from root.
             for root_name, current_name in zip(root.args.keys(),
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index f8febb3..71c7377 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -432,6 +432,13 @@ class ProgramTranslator(CommonTranslator):
         """
         if len(method.args) != len(method.overrides.args):
             raise InvalidProgramException(method.node, 'invalid.override')
+        if (method.predicate != method.overrides.predicate or
+                method.method_type != method.overrides.method_type or
+                bool(method.var_arg) != bool(method.overrides.var_arg) or
+                bool(method.kw_arg) != bool(method.overrides.kw_arg) or
+                bool(method.type) != bool(method.overrides.type)):
+            # The overriding method cannot be called like the overridden one.
+            raise InvalidProgramException(method.node, 'invalid.override')
         for exc_class in method.declared_exceptions:
             allowed = False
             for superexc in method.overrides.declared_exceptions:
@@ -1488,6 +1495,9 @@ class ProgramTranslator(CommonTranslator):
                     cpred = pred
                     while cpred.overrides:
                         cpred = cpred.overrides
+                        if not cpred.predicate:
+                            raise InvalidProgramException(pred.node,
+                                                          'invalid.override')
                     if cpred in predicate_families:
                         predicate_families[cpred].append(pred)
                     else:
-- 
2.43.0


From 277a3e27c181b05782403ef633b1c12c6aaece29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:39 +0000
Subject: [PATCH 57/62] fix: reject contracts that are not written directly in
 a function or loop body

Pre- and postconditions at the start of a loop body (or in a branch of a
contract-only function) were silently attached to the enclosing function.
---
 src/nagini_translation/analyzer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 60a7be8..4979895 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1219,6 +1219,22 @@ class Analyzer(ast.NodeVisitor):
             raise InvalidProgramException(node, 'contract.in.inline.method',
                                           'Inline methods must not have specifications.')
 
+    def _check_contract_position(self, node: ast.Call) -> None:
+        """
+        Checks that the contract element ``node`` is written directly in the
+        body of the function (or loop, for invariants) it is recorded for.
+        """
+        stmt = node._parent
+        while isinstance(stmt, (ast.expr, ast.Expr)):
+            stmt = stmt._parent
+        if node.func.id == 'Invariant':
+            valid = (self.current_loop_invariant is not None and
+                     isinstance(stmt, (ast.While, ast.For)))
+        else:
+            valid = isinstance(stmt, ast.FunctionDef)
+        if not valid:
+            raise InvalidProgramException(node, 'invalid.contract.position')
+
     def visit_Call(self, node: ast.Call) -> None:
         """
         Collects preconditions, postconditions, raised exceptions and
@@ -1231,6 +1247,7 @@ class Analyzer(ast.NodeVisitor):
                                        node.func.id + '.')
         if (isinstance(node.func, ast.Name) and
                 node.func.id in CONTRACT_WRAPPER_FUNCS):
+            self._check_contract_position(node)
             if node.func.id != 'Invariant':
                 self._check_not_in_inline_method(node)
 
-- 
2.43.0


From 4784d379e00f53f1731cfb0fd4e47147214f1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:39 +0000
Subject: [PATCH 58/62] fix: reject qualified and renamed contract elements

They were skipped as contracts at the start of a body but never recorded,
so that they had no effect.
---
 src/nagini_translation/analyzer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 4979895..4e5f11d 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -806,6 +806,13 @@ class Analyzer(ast.NodeVisitor):
     def visit_ImportFrom(self, node: ast.ImportFrom):
         module_name = self.module.get_relative_import_name(node.module, node.level)
 
+        for name in node.names:
+            if name.asname is not None and name.asname != name.name:
+                for contract in (name.name, name.asname):
+                    if contract in CONTRACT_WRAPPER_FUNCS:
+                        # Contract elements are only recognised by their plain names.
+                        raise UnsupportedException(node, 'Renaming import of ' + contract + '.')
+
         if module_name in IGNORED_IMPORTS:
             return
         imp_mod = self.find_module(module_name)
@@ -1245,6 +1252,11 @@ class Analyzer(ast.NodeVisitor):
                  node.func.id in OBLIGATION_CONTRACT_FUNCS)):
             raise UnsupportedException(node, 'Keyword arguments in call to ' +
                                        node.func.id + '.')
+        if (isinstance(node.func, ast.Attribute) and
+                node.func.attr in CONTRACT_WRAPPER_FUNCS):
+            # Contract elements are only recognised by their plain names.
+            raise UnsupportedException(node, 'Qualified call to ' +
+                                       node.func.attr + '.')
         if (isinstance(node.func, ast.Name) and
                 node.func.id in CONTRACT_WRAPPER_FUNCS):
             self._check_contract_position(node)
-- 
2.43.0


From 9c2d11cfa36de7d130ea9370ee07801d8ac0f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:18 +0000
Subject: [PATCH 59/62] fix: keep type comments of assignments from which ghost
 code is extracted

---
 src/nagini_translation/ghost/extraction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/ghost/extraction.py b/src/nagini_translation/ghost/extraction.py
index 2d79b68..6ec6ed5 100644
--- a/src/nagini_translation/ghost/extraction.py
+++ b/src/nagini_translation/ghost/extraction.py
@@ -260,7 +260,11 @@ class ProgramExtractor:
             # Since targets are all ghost but stmt is regular, value must be an impure call
             return ast.Expr(new_value)
         else:
-            return ast.Assign(new_targets, new_value)
+            # Tuples may have lost elements, which the comment still describes.
+            type_comment = node.type_comment
+            if any(isinstance(target, (ast.Tuple, ast.List)) for target in node.targets):
+                type_comment = None
+            return ast.Assign(new_targets, new_value, type_comment)
 
     def extract_AnnAssign(self, node: ast.AnnAssign) -> ast.AST:
         new_target = self.extract(node.target)
-- 
2.43.0


From 836640d4e8aa039495283ae9f12c2ad300735c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:57 +0000
Subject: [PATCH 60/62] fix: reserve all names declared in the resources

A program function or class called like one of them led to a duplicate
identifier in the generated program.
---
 src/nagini_translation/lib/constants.py | 111 +++++++++++++++++++++++-
 1 file changed, 110 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/constants.py b/src/nagini_translation/lib/constants.py
index b6615c2..f004fcf 100644
--- a/src/nagini_translation/lib/constants.py
+++ b/src/nagini_translation/lib/constants.py
@@ -150,7 +150,116 @@ INTERNAL_NAMES = [
     'guard',
     'value',
     ASSUMING_FUNC,
-    ASSERTING_FUNC
+    ASSERTING_FUNC,
+    # Further names declared in the resources/... files.
+    'SIFDomain',
+    'low_true',
+    'lowevent_true',
+    'LowEvent',
+    '__shift_factor8',
+    '__shift_factor32',
+    '__shift_factor64',
+    '__int_bit_length8',
+    '__int_bit_length32',
+    '__int_bit_length64',
+    '____pow_helper',
+    '___pow',
+    '__ObjectEquality',
+    '__seq_ref_to_seq_int',
+    '__SumHelper',
+    '__sum',
+    '__sum_def_1',
+    '__sum_def_2',
+    '__sum_def_3',
+    '__sum_def_4',
+    'bytearray_acc',
+    'bytes___mul__helper',
+    'bytes_join_val_helper',
+    '___bv32',
+    'toBV32',
+    '___float32',
+    '___float32_tofp',
+    '___float32_from_real',
+    '___float32_eq',
+    '___float32_add',
+    '___float32_sub',
+    '___float32_mul',
+    '___float32_div',
+    '___float32_neg',
+    '___float32_gt',
+    '___float32_ge',
+    'real____to_int',
+    '___float32_to_real',
+    '___float32_NaN',
+    '___float32_isNaN',
+    '___float32_zero',
+    '___float32_to_int',
+    '___real_helper',
+    '____to_int',
+    '___intbv',
+    'toBVInt',
+    'fromBVInt',
+    'andBVInt',
+    'orBVInt',
+    'xorBVInt',
+    'shlBVInt',
+    'shrBVInt',
+    'notBVInt',
+    '__container',
+    '__iter_index',
+    '__previous',
+    'list_acc',
+    'Level',
+    '_get_value',
+    '_name_type',
+    'decompose_single',
+    'compose_single',
+    'type_of_single',
+    'decompose_combined',
+    'compose_combined',
+    'type_of_composed',
+    'type_is_single',
+    'type_is_combined',
+    'list_arg',
+    'set_arg',
+    'dict_arg',
+    'tuple_args',
+    'tuple_arg',
+    'tuple_basic',
+    'union_basic',
+    'Iterator_arg',
+    'PSeq_arg',
+    'PSet_arg',
+    'PMultiset_arg',
+    'get_basic',
+    'object___str_val__',
+    'object___repr_val__',
+    '__MSHelper',
+    '__toMS',
+    '__toMS_def_1',
+    '__toMS_def_2',
+    '__toMS_def_3',
+    '__toMS_def_4',
+    'set_acc',
+    'dict_acc',
+    'tuple_types',
+    'tuple_var',
+    'tuple_var_arg',
+    'tuple_arg_def',
+    'tuple_arg_def_2',
+    'tuple_args_def',
+    'tuple_self_subtype',
+    'subtype_tuple',
+    'subtype_tuple_var',
+    'subtype_tuple_var_self',
+    'subtype_tuple_var_tuple',
+    'tuple_args_subtype_1',
+    'tuple_args_subtype_2',
+    'tuple_type_basic_1',
+    'tuple_type_basic_2',
+    'null_nonetype',
+    'nothing_has_union_type',
+    'issubtype_object'
 ]
 
 VIPER_KEYWORDS = [
-- 
2.43.0


From 70be2c51f586b8067b541501fb5c1a29bea9d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:57 +0000
Subject: [PATCH 61/62] fix: encode strings injectively as integers

Characters above 255 exceeded the base, so that different identifiers
shared a number.
---
 src/nagini_translation/lib/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index d13a0fd..3a89bb4 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -430,15 +430,15 @@ def string_to_int(string: str) -> int:
     """
     result = 0
     for (index, char) in enumerate(string):
-        result += pow(256, index) * ord(char)
+        result += pow(0x110000, index) * ord(char)
     return result
 
 
 def int_to_string(i: int) -> str:
     result = ''
     while i > 0:
-        result += chr(i % 256)
-        i = i // 256
+        result += chr(i % 0x110000)
+        i = i // 0x110000
     return result
 
 
-- 
2.43.0


From a07ae58fd0638271629a186d5eba0d502d18ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:57 +0000
Subject: [PATCH 62/62] fix: names of derived type axioms, unions and enum
 boxes cannot collide with program names

The box function of an enum was also referred to by its source name
although it is declared with its chosen name.
---
 src/nagini_translation/translators/call.py    |  2 +-
 src/nagini_translation/translators/program.py |  4 ++--
 .../translators/type_domain_factory.py        | 20 +++++++++----------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index bcc2423..f86dec0 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -219,7 +219,7 @@ class CallTranslator(CommonTranslator):
 
         info = self.no_info(ctx)
         args[0] = self.to_type(args[0], self.viper.Int, ctx) 
-        box_func_name = enum.sil_name + '__box__'
+        box_func_name = enum.sil_name + '$__box__'
         box_func = self.viper.FuncApp(box_func_name, args, pos, info, self.viper.Ref)
         return box_func
 
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 71c7377..6bba8f4 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -150,7 +150,7 @@ class ProgramTranslator(CommonTranslator):
             # Compute the field value
             if cls.enum:
                 stmt, value = self.translate_expr(field.value, ctx, self.viper.Int)
-                value = self.viper.FuncApp(cls.name + '__box__', [value], position, info, self.viper.Ref)
+                value = self.viper.FuncApp(cls.sil_name + '$__box__', [value], position, info, self.viper.Ref)
             else:
                 stmt, value = self.translate_expr(field.value, ctx)
             if stmt:
@@ -1232,7 +1232,7 @@ class ProgramTranslator(CommonTranslator):
         info = self.no_info(ctx)
         terminates_wildcard = self.viper.DecreasesWildcard(None, pos, info)
 
-        box_func_suffix = '__box__'
+        box_func_suffix = '$__box__'
         box_func_name = enum.sil_name + box_func_suffix
         unbox_func_suffix = '__int__'
         int_func = self._register_enum_int_function(enum, ctx, unbox_func_suffix)
diff --git a/src/nagini_translation/translators/type_domain_factory.py b/src/nagini_translation/translators/type_domain_factory.py
index 1f0fc8c..5d26b94 100644
--- a/src/nagini_translation/translators/type_domain_factory.py
+++ b/src/nagini_translation/translators/type_domain_factory.py
@@ -86,7 +86,7 @@ class TypeDomainFactory:
             arg = self.viper.LocalVarDecl('arg_' + str(i), self.type_type(),
                                           position, info)
             args.append(arg)
-            func = self.viper.DomainFunc('union_type_' + str(i), args,
+            func = self.viper.DomainFunc('union_type$' + str(i), args,
                                          self.type_type(), False, position,
                                          info, self.type_domain)
             result.append(func)
@@ -114,7 +114,7 @@ class TypeDomainFactory:
                                       info)
             arg_decls.append(arg_decl)
             args.append(arg)
-            union = self.viper.DomainFuncApp('union_type_' + str(i), args,
+            union = self.viper.DomainFuncApp('union_type$' + str(i), args,
                                              self.type_type(), position,
                                              info, self.type_domain)
             basic = self.viper.DomainFuncApp('get_basic', [union], self.type_type(),
@@ -123,7 +123,7 @@ class TypeDomainFactory:
             trigger = self.viper.Trigger([union], position, info)
             forall = self.viper.Forall(arg_decls, [trigger], body,
                                        position, info)
-            axiom = self.viper.DomainAxiom('union_basic_' + str(i), forall,
+            axiom = self.viper.DomainAxiom('union_basic$' + str(i), forall,
                                            position, info, self.type_domain)
             result.append(axiom)
         return result
@@ -152,7 +152,7 @@ class TypeDomainFactory:
                                       info)
             arg_decls.append(arg_decl)
             args.append(arg)
-            union = self.viper.DomainFuncApp('union_type_' + str(i), args,
+            union = self.viper.DomainFuncApp('union_type$' + str(i), args,
                                              self.type_type(), position,
                                              info, self.type_domain)
             subtype_union = self._issubtype(sub_var, union, ctx, position)
@@ -169,7 +169,7 @@ class TypeDomainFactory:
             trigger = self.viper.Trigger([subtype_union], position, info)
             forall = self.viper.Forall(arg_decls + [sub_decl], [trigger], body,
                                        position, info)
-            axiom = self.viper.DomainAxiom('union_subtype_' + str(i), forall,
+            axiom = self.viper.DomainAxiom('union_subtype$' + str(i), forall,
                                            position, info, self.type_domain)
             result.append(axiom)
         return result
@@ -198,7 +198,7 @@ class TypeDomainFactory:
                                       info)
             arg_decls.append(arg_decl)
             args.append(arg)
-            union = self.viper.DomainFuncApp('union_type_' + str(i), args,
+            union = self.viper.DomainFuncApp('union_type$' + str(i), args,
                                              self.type_type(), position,
                                              info, self.type_domain)
             subtype_union = self._issubtype(union, sub_var, ctx, position)
@@ -209,7 +209,7 @@ class TypeDomainFactory:
             trigger = self.viper.Trigger([subtype_union], position, info)
             forall = self.viper.Forall(arg_decls + [sub_decl], [trigger], body,
                                        position, info)
-            axiom = self.viper.DomainAxiom('subtype_union_' + str(i), forall,
+            axiom = self.viper.DomainAxiom('subtype_union$' + str(i), forall,
                                            position, info, self.type_domain)
             result.append(axiom)
         return result
@@ -312,7 +312,7 @@ class TypeDomainFactory:
             triggers = [self.viper.Trigger([func_lit, current_arg], position, info)]
             quantifier = self.viper.Forall(decls, triggers, implication, position,
                                            info)
-            axiom = self.viper.DomainAxiom(cls.sil_name + '_args' + str(i),
+            axiom = self.viper.DomainAxiom(cls.sil_name + '$args' + str(i),
                                            quantifier, position, info,
                                            self.type_domain)
             result.append(axiom)
@@ -458,7 +458,7 @@ class TypeDomainFactory:
             trigger = self.viper.Trigger([type_func], position, info)
             body = self.viper.Forall(type_arg_decls, [trigger], body, position,
                                      info)
-        return self.viper.DomainAxiom('subtype_' + type.sil_name, body,
+        return self.viper.DomainAxiom('subtype$' + type.sil_name, body,
                                       position, info,
                                       self.type_domain)
 
@@ -879,7 +879,7 @@ class TypeDomainFactory:
                 seq_arg = self.viper.EmptySeq(self.type_type(), position, info)
             args = [seq_arg]
         if type.name == 'Union':
-            type_func_name = 'union_type_' + str(len(args))
+            type_func_name = 'union_type$' + str(len(args))
         elif type.name == TUPLE_TYPE and isinstance(type, GenericType) and not type.exact_length:
             type_func_name = "tuple_var"
         else:
-- 
2.43.0

