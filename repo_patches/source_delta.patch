From 73b88803da624307a6a3527b374b8f7550201ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:45 +0000
Subject: [PATCH 01/19] fix: Continue looks for the innermost loop instead of
 always failing

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From 413928942aa54925e56e617ccd3ab68f87a3a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 02/19] fix: evaluate keyword arguments once, on the copied
 state

---
 src/wizard/contexts/keywords.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..83bbfaf 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,12 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(
+        self, types: Sequence[type], state: ContextState
+    ) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -75,8 +77,10 @@ class _WizardKeywordContext(
         )
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # evaluate the arguments on the copy, evaluating an expression can modify
+        # the state
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -176,7 +180,13 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        self._args = self._get_args(self._argtypes, self.state)
+
+    def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # the arguments have already been evaluated by the constructor
+        state = self.state.copy()
+        self._visit(state, *self._args)
+        return self._factory.copy_parent(self, state)
 
     # these property are useful to use the interpreter
     @property
@@ -196,10 +206,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
         # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
+        gv, sew, gew, wbv = super()._get_args(types, state)
         return (gv, sew or None, gew or None, wbv or None)
 
     def _visit(
-- 
2.43.0


From b63035c7b4b1615cdb7b9561341675f10523b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:36 +0000
Subject: [PATCH 03/19] fix: allow optional keyword arguments to be omitted

---
 src/wizard/contexts/keywords.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 83bbfaf..491ecd3 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -46,7 +46,9 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        # optional arguments are the ones that accept None (object accepts any value
+        # but is not optional)
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -60,21 +62,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         # evaluate the arguments on the copy, evaluating an expression can modify
-- 
2.43.0


From bd004a95b6d000fb7852abc13a56dab304130c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:00 +0000
Subject: [PATCH 04/19] fix: deleting a deleted key of a stacked mapping raises
 KeyError

---
 src/wizard/utils/mappings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..ebff419 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -27,8 +27,10 @@ class StackMutableMapping(MutableMapping[K, V]):
         if item in self._variables:
             del self._variables[item]
 
-        # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        # If item is not in the parent, or has already been deleted:
+        elif (
+            self._parent is None or item in self._deleted or item not in self._parent
+        ):
             raise KeyError(item)
 
         self._deleted.add(item)
-- 
2.43.0


From 2f2f4681ddd2b031687d5b953fe694ccf6023df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:07 +0000
Subject: [PATCH 05/19] fix: ResetPluginName ignores the case of the plugin
 name

---
 src/wizard/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..341c695 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,7 +288,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
+        if Plugin(name) in state._renames:
             del state._renames[Plugin(name)]
 
     def visitSelectAll(
-- 
2.43.0


From 5a5b36eaf20ab896b806fe6e6b965aa909767689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:13 +0000
Subject: [PATCH 06/19] fix: a sub-package or a plugin is selected at most once

---
 src/wizard/runner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 341c695..1480d35 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -309,7 +309,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        # use a dictionary to keep insertion order and remove duplicates
+        plugins = {pg: True for sp in state._subpackages for pg in sp.plugins()}
+        state._plugins = list(plugins.keys())
 
     def visitSelectPlugin(
         self,
@@ -332,7 +334,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        plugin = self._plugins[ipg]
+        if plugin not in state._plugins:
+            state._plugins.append(plugin)
 
     def visitSelectSubPackage(
         self,
@@ -358,8 +362,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From cd345d0aa93ac35f232bb7330fa2516c33890bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:21 +0000
Subject: [PATCH 07/19] fix: the severity of an issue is set per severity
 context

---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..7d0c5c4 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,10 +29,11 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
         self._default_severity = Severity.WARNING
+        self._context = {}
 
     @abstractmethod
     def warning(self, text: str):
-- 
2.43.0


From 8ca4a9e36883ea050521543392b9e7a37b026698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:28 +0000
Subject: [PATCH 08/19] fix: And always evaluates to a boolean

---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..6bf8163 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -260,7 +260,7 @@ class Value(Generic[ValueType]):
         return Value(bool(self._value or other._value))
 
     def __and__(self, other: Value[Any]) -> Value[bool]:
-        return Value(self._value and other._value)
+        return Value(bool(self._value and other._value))
 
     def __gt__(self: Value[Any], other: Value[Any]) -> Value[bool]:
         if isinstance(self._value, (int, float)) and isinstance(
-- 
2.43.0


From 79becd0ae35a2f69f42871b3b09e0bb0012dc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:56 +0000
Subject: [PATCH 09/19] fix: pass variadic arguments to functions and allow
 omitting optional ones

---
 src/wizard/functions.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..c0b7a8b 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,8 +142,16 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+        # Extra arguments must have the type of the last one:
+        targs = args
+        if varargs:
+            targs += args[-1:] * (len(vs) - len(args))
+
+        for iarg, arg in enumerate(targs):
+            if iarg >= len(vs):
+                # Let the method use its default value(s):
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
@@ -199,7 +207,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if p.default is p.empty else optional(object)
+                for p in sig.parameters.values()
+                if p.kind is not p.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From 1d08050675e93bdb6ea463849a934c080e756bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 10/19] fix: keep the non-ASCII characters of string literals

---
 src/wizard/expr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..9688013 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -25,6 +25,9 @@ class WizardExpressionVisitor:
 
     BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
 
+    # unicode_escape expects latin-1, so only ASCII text can be decoded with it
+    ASCII_SEQUENCE = re.compile(r"(\\[\x00-\x7f]|[\x00-\x5b\x5d-\x7f])+")
+
     _subpackages: SubPackages
     _functions: Mapping[
         str, Callable[[WizardInterpreterState, Sequence[Value[Any]]], Value[Any]]
@@ -362,7 +365,9 @@ class WizardExpressionVisitor:
         txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
 
         # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        txt = self.ASCII_SEQUENCE.sub(
+            lambda m: codecs.decode(m.group(), "unicode_escape"), txt
+        )
 
         return Value(txt)
 
-- 
2.43.0


From 51a047d9b622e97eb91fe1cb82ea1cbfbbdd5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:05 +0000
Subject: [PATCH 11/19] fix: grammar rule visitors cannot be called as
 functions from scripts

---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 9688013..8f750d0 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -104,7 +104,10 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        # visitXXX methods for grammar rules are not functions
+        elif hasattr(self, "visit" + name) and not hasattr(
+            wizardParser, name + "Context"
+        ):
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From e40a71ba542767e876663571dc04161de251b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:15 +0000
Subject: [PATCH 12/19] fix: falling through to Default does not execute it
 forever

---
 src/wizard/contexts/contexts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..cbb1a93 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -924,7 +924,9 @@ class WizardSelectCasesContext(
 
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
+            # There is nothing after the default, so nothing to fall through to:
             snext._found = True
+            snext._fallthrough = False
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From 672b4ebe2d55009d934cf6561a1212a72f936229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:23 +0000
Subject: [PATCH 13/19] fix: the end of a decreasing For range is included

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index cbb1a93..449395c 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -507,7 +507,9 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end value is included, whatever the direction:
+        offset = 1 if by.value > 0 else -1
+        return [Value(i) for i in range(sta.value, end.value + offset, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From 2bd9635a00a8338dfe981644c9149a6062fb0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:35 +0000
Subject: [PATCH 14/19] fix: keep what evaluating the argument of Exec changed

---
 src/wizard/contexts/contexts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 449395c..10be737 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -434,7 +434,10 @@ class WizardExecContext(
             we._ctx = self.context  # type: ignore
             raise we
 
-        return WizardTopLevelContext(self._factory, context, self.parent, state)
+        # The script starts from the state of its parent, which must contain what
+        # evaluating the argument changed:
+        parent = self._factory.copy_parent(self, state)
+        return WizardTopLevelContext(self._factory, context, parent, state)
 
 
 class WizardIfContext(
-- 
2.43.0


From 1c1a14516304d5991365bcb76e204920ca156a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:45 +0000
Subject: [PATCH 15/19] fix: keep what evaluating the options of a Select
 changed

---
 src/wizard/contexts/contexts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 10be737..c2775f7 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -748,9 +748,10 @@ class WizardSelectContext(
     def exec_(
         self,
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
-        # This completely delegates to the other context:
+        # This completely delegates to the other context, which starts from the state
+        # of its parent:
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From 5cd1d3d9c4b3ff8df403623d6662ac80b5558847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 16/19] fix: a broken If does not prevent the code before it
 from being executed

---
 src/wizard/utils/error_strategy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 6191455..55737f7 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -66,8 +66,11 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         recoverSet = IntervalSet()
 
         while ctx is not None and ctx.invokingState >= 0:
-            # If statement (for Else we only want EndIf):
-            if isinstance(
+            # If statement (for Else we only want EndIf), a If that is broken itself
+            # can only be closed, not continued:
+            if ctx is recognizer._ctx and isinstance(ctx, wizardParser.IfStmtContext):
+                recoverSet.addOne(wizardLexer.EndIf)
+            elif isinstance(
                 ctx, (wizardParser.IfStmtContext, wizardParser.ElifStmtContext)
             ):
                 recoverSet.addOne(wizardLexer.Elif)
-- 
2.43.0


From 9c5388d962ccc5209213c810ad132ac4d3afadae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 17/19] fix: raise a parse error for broken Select, For headers
 and options

---
 src/wizard/contexts/contexts.py | 15 +++++++++++++++
 src/wizard/contexts/factory.py  |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index c2775f7..0934e52 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -485,6 +485,9 @@ class WizardForLoopContext(
     ):
         super().__init__(factory, context, parent, state)
 
+        if self.context.exception:
+            raise WizardParseError(self.context, self.context.exception)
+
         if self.context.forInHeader():
             self._values = self._for_in_header(self.context.forInHeader())
         else:
@@ -502,6 +505,9 @@ class WizardForLoopContext(
     def _for_range_header(
         self, ctx: wizardParser.ForRangeHeaderContext
     ) -> Sequence[Value[Any]]:
+        if ctx.exception:
+            raise WizardParseError(ctx, ctx.exception)
+
         sta: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(0), self.state, int)
         end: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(1), self.state, int)
 
@@ -517,6 +523,9 @@ class WizardForLoopContext(
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
     ) -> Sequence[Value[Any]]:
+        if ctx.exception:
+            raise WizardParseError(ctx, ctx.exception)
+
         value = self._factory.evisitor.visitExpr(ctx.expr(), self.state)
 
         if isinstance(value.value, SubPackage):
@@ -646,12 +655,18 @@ def parse_select_options(
     context: wizardParser.SelectOneContext | wizardParser.SelectManyContext,
     state: ContextState,
 ) -> tuple[str, list[SelectOption], list[SelectOption]]:
+    if context.exception:
+        raise WizardParseError(context, context.exception)
+
     # Parse the description and option:
     description = factory.evisitor.visitExpr(context.expr(), state, str).value
 
     options: list[SelectOption] = []
     defaults: list[SelectOption] = []
     for opt in context.optionTuple():
+        if opt.exception:
+            raise WizardParseError(opt, opt.exception)
+
         a, b, c = (
             factory.evisitor.visitExpr(opt.expr(0), state, str),
             factory.evisitor.visitExpr(opt.expr(1), state, str),
diff --git a/src/wizard/contexts/factory.py b/src/wizard/contexts/factory.py
index 1bbf72c..bfdffbe 100644
--- a/src/wizard/contexts/factory.py
+++ b/src/wizard/contexts/factory.py
@@ -7,6 +7,7 @@ from typing import Any, Generic, TypeVar
 from antlr4 import ParserRuleContext
 
 from ..antlr4.wizardParser import wizardParser
+from ..errors import WizardParseError
 from ..expr import WizardExpressionVisitor
 from ..keywords import WizardKeywordVisitor
 from ..manager import SelectOption
@@ -214,6 +215,11 @@ class WizardInterpreterContextFactory(Generic[ContextState]):
         context: wizardParser.SelectStmtContext,
         parent: WizardInterpreterContext[ContextState, Any],
     ) -> WizardSelectOneContext[ContextState] | WizardSelectManyContext[ContextState]:
+        # The select context is created from the child, so the exception of this
+        # context has to be checked here:
+        if context.exception:
+            raise WizardParseError(context, context.exception)
+
         if context.selectOne():
             return WizardSelectOneContext(self, context.selectOne(), parent)
         else:
-- 
2.43.0


From 6c83b33e25c8905b2253f11cbc5f32ef6fc271bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 18/19] fix: the backslash of an unsupported escape sequence
 was kept behind an escaped backslash

---
 src/wizard/expr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 8f750d0..7ae2de7 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -23,7 +23,8 @@ class WizardExpressionVisitor:
     which takes an expression context and returns a `Value`.
     """
 
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
+    # the backslash can follow escaped backslashes
+    BAD_ESCAPE_SEQUENCE = re.compile(r"(?<!\\)((?:\\\\)*)\\(?=[^abfnrtuUx0-7\\])")
 
     # unicode_escape expects latin-1, so only ASCII text can be decoded with it
     ASCII_SEQUENCE = re.compile(r"(\\[\x00-\x7f]|[\x00-\x5b\x5d-\x7f])+")
@@ -365,7 +366,7 @@ class WizardExpressionVisitor:
         txt = ctx.getText()[1:-1]
 
         # Remove bad escape sequences:
-        txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
+        txt = self.BAD_ESCAPE_SEQUENCE.sub(r"\1", txt)
 
         # Replace escape sequences by Python escape sequences:
         txt = self.ASCII_SEQUENCE.sub(
-- 
2.43.0


From 444e72df600680b72bdd2f5761851460b5a86417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 19/19] fix: scripts whose encoding cannot be detected (empty
 files) are decoded as UTF-8

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..88f5531 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # no encoding can be detected for some data, e.g. an empty file
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0

