From 4f8cada6b488c8b5e74c330dd448520fe8f5d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 01/26] fix: Continue finds its enclosing loop

---
 src/wizard/contexts/contexts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..3823915 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,7 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From a0bb98f13688862bf8454ef57c089d09cbebd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 02/26] fix: run Default only once when a case falls through to
 it

---
 src/wizard/contexts/contexts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 3823915..4f06dcd 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -923,6 +923,10 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+
+            # The default is the last case, nothing to fall through to:
+            snext._fallthrough = False
+
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From 9d5bc3c5ffeff818f315a71e9e1a033238c33d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 03/26] fix: include the end of For ranges with a negative step

---
 src/wizard/contexts/contexts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 4f06dcd..4593193 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -505,7 +505,10 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end is inclusive in both directions:
+        stop = end.value - 1 if by.value < 0 else end.value + 1
+
+        return [Value(i) for i in range(sta.value, stop, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From 42ae33b1b09347584d1bc0a4fdd7ca067d2532b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:40 +0000
Subject: [PATCH 04/26] fix: keep the effects of the argument of Exec

---
 src/wizard/contexts/contexts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 4593193..638f465 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -415,7 +415,7 @@ class WizardExecContext(
         # import here otherwise we have circular imports
         from ..utils import make_parse_wizard_context
 
-        state = self.state.copy()
+        parent = self._factory.copy_parent(self)
 
         # Parse the expression:
         args = list(self.context.argList().expr())
@@ -423,7 +423,7 @@ class WizardExecContext(
             raise WizardTypeError(
                 self.context, f"Exec() expect exactly one argument, found {len(args)}."
             )
-        script = self._factory.evisitor.visitExpr(args[0], state, str).value
+        script = self._factory.evisitor.visitExpr(args[0], parent.state, str).value
 
         try:
             context = make_parse_wizard_context(script)
@@ -432,7 +432,7 @@ class WizardExecContext(
             we._ctx = self.context  # type: ignore
             raise we
 
-        return WizardTopLevelContext(self._factory, context, self.parent, state)
+        return WizardTopLevelContext(self._factory, context, parent)
 
 
 class WizardIfContext(
-- 
2.43.0


From d096b88c7e44580a2b1a55ceda0719751546aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:40 +0000
Subject: [PATCH 05/26] fix: keep the effects of the description and options of
 a Select

---
 src/wizard/contexts/contexts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 638f465..962317f 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -746,7 +746,7 @@ class WizardSelectContext(
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
         # This completely delegates to the other context:
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From 7a41012b2805a5bfa544dd326649305bdd349334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:40 +0000
Subject: [PATCH 06/26] fix: evaluate keyword arguments once, on the successor
 state

---
 src/wizard/contexts/keywords.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..b8fe9e8 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,10 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(self, state: ContextState, types: Sequence[type]) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -76,7 +76,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(state, self._argtypes))
         return self._factory.copy_parent(self, state)
 
 
@@ -176,7 +176,7 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        self._args = self._get_args(self.state, self._argtypes)
 
     # these property are useful to use the interpreter
     @property
@@ -196,12 +196,18 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, state: ContextState, types: Sequence[type]
     ) -> tuple[str, str | None, str | None, str | None]:
         # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
+        gv, sew, gew, wbv = super()._get_args(state, types)
         return (gv, sew or None, gew or None, wbv or None)
 
+    def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # the arguments have already been evaluated by the constructor
+        state = self.state.copy()
+        self._visit(state, *self._args)
+        return self._factory.copy_parent(self, state)
+
     def _visit(
         self,
         state: ContextState,
-- 
2.43.0


From 54b828e02b28e5740619c7fe1dacd9d5ad344a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:40 +0000
Subject: [PATCH 07/26] fix: accept RequireVersions without its optional
 arguments

---
 src/wizard/contexts/keywords.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index b8fe9e8..3cc14b0 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -58,21 +58,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
@@ -248,7 +240,7 @@ class WizardNoteContext(_WizardKeywordContext[ContextState, str]):
 
     @property
     def _argtypes(self):
-        return [object]
+        return [AnyValueType]
 
 
 def make_keyword_context(
-- 
2.43.0


From 395cbca1780d934d2f8a1c7332d079e4ee9e04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:40 +0000
Subject: [PATCH 08/26] fix: allow optional function arguments to be left out

---
 src/wizard/functions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..9dad963 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -143,8 +143,12 @@ def wrap_function(
             raise TypeError(f"{name}: too many arguments.")
 
         for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
-                raise TypeError(f"{name}: missing required positional argument(s).")
+            if iarg >= len(vs):
+                if not isinstance(arg, optional):
+                    raise TypeError(f"{name}: missing required positional argument(s).")
+
+                # Let the method use its own default:
+                break
 
             tp: type
             if isinstance(arg, optional):
@@ -199,7 +203,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if p.default is p.empty else optional(object)
+                for p in sig.parameters.values()
+                if p.kind is not p.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From 16389346722825afa0b4d38f6c132c42250fd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 09/26] fix: pass all the arguments of functions with variable
 arguments

---
 src/wizard/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 9dad963..c02a83e 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,7 +142,10 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
+        # Extra arguments, if any, have the type of the last one:
+        types = [*args, *(args[-1:] * (len(vs) - len(args)))]
+
+        for iarg, arg in enumerate(types):
             if iarg >= len(vs):
                 if not isinstance(arg, optional):
                     raise TypeError(f"{name}: missing required positional argument(s).")
-- 
2.43.0


From 12afeef385b052804fcca167c56f24f8aaa5f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 10/26] fix: honour rewind() and abort() from error() and from
 cancel() after an abort

---
 src/wizard/scriptrunner.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..2d09e32 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -161,10 +161,18 @@ class WizardScriptRunner(
             self.make_top_level_context(script)
         )
 
+        # True if abort() was called while executing the current context:
+        aborted = False
+
         while True:
             self._ctx = ctx
 
             try:
+                if aborted:
+                    aborted = False
+                    if self.cancel():
+                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+
                 if isinstance(ctx, WizardSelectOneContext):
                     ctx = ctx.select(
                         self.selectOne(ctx.description, ctx.options, ctx.default)
@@ -190,11 +198,16 @@ class WizardScriptRunner(
                 ctx = rfex.context
 
             except WizardScriptRunner.CancelFlow:
-                if self.cancel():
-                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                aborted = True
 
             except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                try:
+                    self.error(ex)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
+                except WizardScriptRunner.CancelFlow:
+                    aborted = True
+                else:
+                    return (WizardScriptRunnerStatus.ERROR, ctx.state)
 
         return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-- 
2.43.0


From eb3f35d5b500d34666705d65a67663beae249010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 11/26] fix: go on with the script when cancel() or complete()
 decline

---
 src/wizard/scriptrunner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 2d09e32..75a0056 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -189,8 +189,13 @@ class WizardScriptRunner(
                         if self.complete():
                             return (WizardScriptRunnerStatus.RETURN, ctx.state)
                     else:
-                        if self.complete():
-                            return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+                        # There is nothing left to execute, whatever the answer:
+                        self.complete()
+                        return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+
+                    # The user declined, go on after the 'Cancel' or 'Return':
+                    ctx = self._factory.copy_parent(ctx.parent)
+                    continue
 
                 ctx = ctx.exec()
 
-- 
2.43.0


From 72e0c924c6844f8ccb6e178534dc604e756de8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 12/26] fix: do not share the severity of issues between
 runners

---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..7d0c5c4 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,10 +29,11 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
         self._default_severity = Severity.WARNING
+        self._context = {}
 
     @abstractmethod
     def warning(self, text: str):
-- 
2.43.0


From 9b96aa7dfcad9fdb65de32fddb74ed5f28ed10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 13/26] fix: select sub-packages and plugins at most once

---
 src/wizard/runner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..260c7c8 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -309,7 +309,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        plugins = {pg: True for sp in state._subpackages for pg in sp.plugins()}
+        state._plugins = list(plugins.keys())
 
     def visitSelectPlugin(
         self,
@@ -332,7 +333,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        if self._plugins[ipg] not in state._plugins:
+            state._plugins.append(self._plugins[ipg])
 
     def visitSelectSubPackage(
         self,
@@ -358,8 +360,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From 7213f0045215f543952012c305a528e5123cd498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 14/26] fix: load empty files

---
 src/wizard/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..86cc214 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,7 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From 293f3e27bc743710aeb706fdce28251c8a839a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 15/26] fix: keep non-ASCII characters of string literals

---
 src/wizard/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..f5bb1d0 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -362,7 +362,9 @@ class WizardExpressionVisitor:
         txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
 
         # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        txt = codecs.decode(
+            txt.encode("latin-1", "backslashreplace"), "unicode_escape"
+        )
 
         return Value(txt)
 
-- 
2.43.0


From 54c9214e47cd798fa9c650ef7cc90bc14aa71cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:06 +0000
Subject: [PATCH 16/26] fix: reset plugin names without regard to case

---
 src/wizard/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 260c7c8..f874c78 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,7 +288,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
+        if Plugin(name) in state._renames:
             del state._renames[Plugin(name)]
 
     def visitSelectAll(
-- 
2.43.0


From 602767f04b77fa58fc4aa7133e6776557bf14ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 17/26] fix: keep the cases after a malformed statement of a
 case

---
 src/wizard/utils/error_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 6191455..4b9697b 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -87,6 +87,8 @@ class WizardErrorStrategy(DefaultErrorStrategy):
                 ctx,
                 (wizardParser.CaseStmtContext, wizardParser.DefaultStmtContext),
             ):
+                recoverSet.addOne(wizardLexer.T__1)  # Case
+                recoverSet.addOne(wizardLexer.T__2)  # Default
                 recoverSet.addOne(wizardLexer.Break)
 
             # Select context:
-- 
2.43.0


From 46adc890ce99fc91a3325d8334c72d58cd244290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 18/26] fix: report a select that is malformed outside of its
 cases

---
 src/wizard/contexts/factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wizard/contexts/factory.py b/src/wizard/contexts/factory.py
index 1bbf72c..08cdc6c 100644
--- a/src/wizard/contexts/factory.py
+++ b/src/wizard/contexts/factory.py
@@ -7,6 +7,7 @@ from typing import Any, Generic, TypeVar
 from antlr4 import ParserRuleContext
 
 from ..antlr4.wizardParser import wizardParser
+from ..errors import WizardParseError
 from ..expr import WizardExpressionVisitor
 from ..keywords import WizardKeywordVisitor
 from ..manager import SelectOption
@@ -214,6 +215,10 @@ class WizardInterpreterContextFactory(Generic[ContextState]):
         context: wizardParser.SelectStmtContext,
         parent: WizardInterpreterContext[ContextState, Any],
     ) -> WizardSelectOneContext[ContextState] | WizardSelectManyContext[ContextState]:
+        # Some cases are missing if the select was broken outside of a case:
+        if context.exception:
+            raise WizardParseError(context, context.exception)
+
         if context.selectOne():
             return WizardSelectOneContext(self, context.selectOne(), parent)
         else:
-- 
2.43.0


From fc04dd2a76327cbf9027def64870985b32bbc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 19/26] fix: report malformed loop headers, options and escapes
 as parse errors

---
 src/wizard/contexts/contexts.py | 3 +++
 src/wizard/contexts/factory.py  | 5 +++++
 src/wizard/expr.py              | 9 ++++++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 962317f..e03af0c 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -648,6 +648,9 @@ def parse_select_options(
     options: list[SelectOption] = []
     defaults: list[SelectOption] = []
     for opt in context.optionTuple():
+        if opt.exception:
+            raise WizardParseError(opt, opt.exception)
+
         a, b, c = (
             factory.evisitor.visitExpr(opt.expr(0), state, str),
             factory.evisitor.visitExpr(opt.expr(1), state, str),
diff --git a/src/wizard/contexts/factory.py b/src/wizard/contexts/factory.py
index 08cdc6c..c73d495 100644
--- a/src/wizard/contexts/factory.py
+++ b/src/wizard/contexts/factory.py
@@ -194,6 +194,11 @@ class WizardInterpreterContextFactory(Generic[ContextState]):
         context: wizardParser.ForStmtContext,
         parent: WizardInterpreterContext[ContextState, Any],
     ) -> WizardForLoopContext[ContextState]:
+        # The header is evaluated by the constructor, it must be well-formed:
+        for ctx in (context, context.forInHeader() or context.forRangeHeader()):
+            if ctx.exception:
+                raise WizardParseError(ctx, ctx.exception)
+
         return WizardForLoopContext(self, context, parent)
 
     def make_while_loop_context(
diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index f5bb1d0..e2be136 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -362,9 +362,12 @@ class WizardExpressionVisitor:
         txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
 
         # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(
-            txt.encode("latin-1", "backslashreplace"), "unicode_escape"
-        )
+        try:
+            txt = codecs.decode(
+                txt.encode("latin-1", "backslashreplace"), "unicode_escape"
+            )
+        except UnicodeDecodeError as ude:
+            raise WizardParseError(ctx, f"Invalid escape sequence: {ude}.") from ude
 
         return Value(txt)
 
-- 
2.43.0


From cc35235cbd57575761d4b31eee05d4b826432471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 20/26] fix: do not drop block delimiters to repair a statement

---
 src/wizard/utils/error_strategy.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 4b9697b..452e973 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -32,6 +32,22 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         wizardParser.WhileStmtContext: wizardLexer.EndWhile,
     }
 
+    # Tokens that delimit blocks, never dropped to repair a statement:
+    BlockTokens = frozenset(
+        (
+            *BlockContexts.values(),
+            wizardLexer.Elif,
+            wizardLexer.Else,
+            wizardLexer.T__1,  # Case
+            wizardLexer.T__2,  # Default
+        )
+    )
+
+    def singleTokenDeletion(self, recognizer: wizardParser) -> Token | None:
+        if recognizer.getTokenStream().LA(1) in self.BlockTokens:
+            return None
+        return super().singleTokenDeletion(recognizer)
+
     def recover(self, recognizer: wizardParser, e: RecognitionException) -> Token:
         # Mark the context (and "some" parent contexts):
         recognizer._ctx.exception = e
-- 
2.43.0


From 9f403a56e7f16fa01bc0268ca0a29f6e406ff131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 21/26] fix: evaluate the operands of 'in' from left to right

---
 src/wizard/expr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index e2be136..c67c352 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -136,9 +136,11 @@ class WizardExpressionVisitor:
     def visitIn(
         self, ctx: wizardParser.InContext, state: WizardInterpreterState
     ) -> Value[bool]:
-        return self.visitExpr(ctx.expr(1), state).contains(
-            self.visitExpr(ctx.expr(0), state), bool(ctx.Colon())
+        item, container = (
+            self.visitExpr(ctx.expr(0), state),
+            self.visitExpr(ctx.expr(1), state),
         )
+        return container.contains(item, bool(ctx.Colon()))
 
     def doCmp(
         self,
-- 
2.43.0


From 65d05cbfe902f2b3a675c72d87697b9f260c6299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 22/26] fix: leave the rewind or abort of another runner to
 that runner

---
 src/wizard/scriptrunner.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 75a0056..6212d77 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -91,9 +91,15 @@ class WizardScriptRunner(
         Exception used to rewind a script execution when calling rewind().
         """
 
+        runner: "WizardScriptRunner"
         context: WizardInterpreterContext[WizardRunnerState, Any]
 
-        def __init__(self, context: WizardInterpreterContext[WizardRunnerState, Any]):
+        def __init__(
+            self,
+            runner: "WizardScriptRunner",
+            context: WizardInterpreterContext[WizardRunnerState, Any],
+        ):
+            self.runner = runner
             self.context = context
 
     class CancelFlow(Exception):
@@ -101,7 +107,10 @@ class WizardScriptRunner(
         Exception used to cancel a script execution when calling abort().
         """
 
-        ...
+        runner: "WizardScriptRunner"
+
+        def __init__(self, runner: "WizardScriptRunner"):
+            self.runner = runner
 
     # The current context:
     _ctx: WizardInterpreterContext[WizardRunnerState, Any]
@@ -126,10 +135,10 @@ class WizardScriptRunner(
         return self._ctx
 
     def abort(self):
-        raise WizardScriptRunner.CancelFlow()
+        raise WizardScriptRunner.CancelFlow(self)
 
     def rewind(self, context: WizardInterpreterContext[WizardRunnerState, Any]):
-        raise WizardScriptRunner.RewindFlow(context)
+        raise WizardScriptRunner.RewindFlow(self, context)
 
     def make_top_level_context(  # type: ignore
         self,
@@ -200,17 +209,26 @@ class WizardScriptRunner(
                 ctx = ctx.exec()
 
             except WizardScriptRunner.RewindFlow as rfex:
+                # Not for this runner, we are running in a callback of another one:
+                if rfex.runner is not self:
+                    raise
                 ctx = rfex.context
 
-            except WizardScriptRunner.CancelFlow:
+            except WizardScriptRunner.CancelFlow as cfex:
+                if cfex.runner is not self:
+                    raise
                 aborted = True
 
             except Exception as ex:
                 try:
                     self.error(ex)
                 except WizardScriptRunner.RewindFlow as rfex:
+                    if rfex.runner is not self:
+                        raise
                     ctx = rfex.context
-                except WizardScriptRunner.CancelFlow:
+                except WizardScriptRunner.CancelFlow as cfex:
+                    if cfex.runner is not self:
+                        raise
                     aborted = True
                 else:
                     return (WizardScriptRunnerStatus.ERROR, ctx.state)
-- 
2.43.0


From 46901519caf7f70e648da954340b0fb69190ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 23/26] fix: give the value of functions without one a text not
 depending on the process

---
 src/wizard/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..3339e64 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -66,7 +66,8 @@ class Void:
     value.
     """
 
-    pass
+    def __repr__(self) -> str:
+        return "void"
 
 
 class Plugin(CaseFoldNamedObject): ...
-- 
2.43.0


From 6324564d06863d4d5dd4ed0b5dcabe42762ac439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 24/26] fix: wrap an IndexError that does not have exactly one
 argument

WizardIndexError(ctx, *ie.args) failed with a TypeError, hiding the original
exception, when a manager raised an IndexError without arguments or with
several.
---
 src/wizard/errors.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 50c0c50..03aa2ab 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -132,14 +132,21 @@ class WizardUnsupportedOperation(WizardError):
 
 
 class WizardIndexError(WizardError):
-    _index: int
-
-    def __init__(self, context: ParserRuleContext | None, index: int):
-        super().__init__(context, f"Index {index} out of range.")
+    _index: int | None
+
+    # The index is not known (and extra arguments are ignored) when wrapping an
+    # IndexError that was not raised by the interpreter, e.g., in a manager.
+    def __init__(
+        self, context: ParserRuleContext | None, index: int | None = None, *_: object
+    ):
+        super().__init__(
+            context,
+            "Index out of range." if index is None else f"Index {index} out of range.",
+        )
         self._index = index
 
     @property
-    def index(self) -> int:
+    def index(self) -> int | None:
         return self._index
 
 
-- 
2.43.0


From 4d9e567d1b07cf7eca6ac9a20a78b59eff3054b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:16 +0000
Subject: [PATCH 25/26] fix: locate exceptions of warnings in SelectOne at the
 statement

---
 src/wizard/contexts/contexts.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index e03af0c..1dfc186 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -337,7 +337,13 @@ class WizardBodyContext(
                     child.compoundAssignment(), body
                 )
             elif child.controlFlowStmt():
-                return self._make_control_flow_context(child.controlFlowStmt(), body)
+                # Errors should point at the statement, not at the body:
+                return wrap_exceptions(
+                    lambda: self._make_control_flow_context(
+                        child.controlFlowStmt(), body
+                    ),
+                    child,
+                )
             elif child.keywordStmt():
                 return self._factory.make_keyword_context(child.keywordStmt(), body)
 
-- 
2.43.0


From ad80b4172d16789e1d77cf471b97ac7736d6ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:16 +0000
Subject: [PATCH 26/26] fix: locate parser exceptions of functions at the
 expression

---
 src/wizard/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index c67c352..567935f 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -3,6 +3,8 @@ import re
 from collections.abc import Mapping, Sequence
 from typing import Any, Callable, Type, overload
 
+from antlr4.error.Errors import ParseCancellationException
+
 from .antlr4.wizardParser import wizardParser
 from .errors import WizardIndexError, WizardNameError, WizardParseError, WizardTypeError
 from .severity import Issue, SeverityContext
@@ -417,6 +419,8 @@ class WizardExpressionVisitor:
             raise WizardTypeError(ctx, *te.args) from te
         except IndexError as ie:
             raise WizardIndexError(ctx, *ie.args) from ie
+        except ParseCancellationException as ex:
+            raise WizardParseError(ctx, ex) from ex
 
         if typ is not None and not isinstance(value.value, typ):
             raise WizardTypeError(
-- 
2.43.0

