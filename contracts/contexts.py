"""Contracts of wizard.contexts.contexts and wizard.contexts.factory:
C01-C08, C22, C25 (stepping, statements, loops, menus, Exec)."""
import copy

import z3
from antlr4 import ParserRuleContext
from antlr4.tree.Tree import ParseTree

from contracts import tree
from contracts.tree import opaque_call
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj
from engine.terms import Val
from engine.verify import Target

from wizard.antlr4.wizardParser import wizardParser as P
from wizard.contexts import contexts as X
from wizard.contexts import factory as F
from wizard.contexts import utils as U
from wizard.contexts.contexts import (
    WizardAssignmentContext, WizardBodyContext, WizardBreakContext,
    WizardBreakableContext, WizardCancelContext, WizardCaseContext,
    WizardCompoundAssignmentContext, WizardContinuableContext, WizardContinueContext,
    WizardExecContext, WizardForLoopContext, WizardIfContext,
    WizardInterpreterContext, WizardReturnContext, WizardSelectCasesContext,
    WizardSelectContext, WizardSelectManyContext, WizardSelectOneContext,
    WizardTerminationContext, WizardTopLevelContext, WizardWhileLoopContext,
)
from wizard.contexts.factory import WizardInterpreterContextFactory
from wizard.errors import (
    WizardError, WizardIndexError, WizardNameError, WizardParseError, WizardTypeError,
)
from wizard.expr import WizardExpressionVisitor
from wizard.keywords import WizardKeywordVisitor
from wizard.manager import SelectOption
from wizard.severity import Issue, SeverityContext
from wizard.state import WizardInterpreterState
from wizard.value import SubPackage, SubPackages, Value

# ---------------------------------------------------------------------------
# specifications.  resume(c, s): context c continues from a private copy of s.


def resume(ctx, state):
    c = copy.copy(ctx)
    c._state = state.copy()
    return c


def expr(ctx, node, state, typ=None):
    return ctx._factory._evisitor.visitExpr(node, state, typ)


def s_init(self, factory, context, parent, state=None):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy() if state is None else state


def s_toplevel_init(self, factory, context, parent, state=None):
    self._factory = factory
    self._context = context
    if parent is None:
        self._parent = self
        if state is None:
            raise AttributeError
    else:
        self._parent = parent
    self._state = parent._state.copy() if state is None else state


def s_is_top_level(self):
    return self._parent is self


def s_copy_context(self, context, state=None):
    if state is None:
        state = context._state
    return resume(context, state)


def s_copy_parent(self, context, state=None):
    if state is None:
        state = context._state
    return resume(context._parent, state)


def s_exec(self):
    if self._context.exception:
        raise WizardParseError(self._context, self._context.exception)
    return U.wrap_exceptions(self.exec_, self._context)


# -- C02 ------------------------------------------------------------------


def s_toplevel_exec(self):
    return WizardBodyContext(self._factory, self._context.body(), self._parent)


def s_body_init(self, factory, context, parent, state=None):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy() if state is None else state
    self._ichild = 0


def s_body_exec(self):
    children = self._context.children
    i = self._ichild
    if not children or i == len(children):
        if isinstance(self._parent, WizardTopLevelContext):
            return WizardTerminationContext(self._factory, self._context, self)
        return resume(self._parent, self._state)
    child = children[i]
    body = resume(self, self._state)
    body._ichild = i + 1
    f = self._factory
    if isinstance(child, P.ExprContext):
        if isinstance(child, P.FunctionCallContext):
            if child.Identifier().getText() == "Exec":
                return WizardExecContext(f, child, body)
        expr(self, child, body._state)
        return body
    if isinstance(child, P.StmtContext):
        if child.assignment():
            return WizardAssignmentContext(f, child.assignment(), body)
        if child.compoundAssignment():
            return WizardCompoundAssignmentContext(f, child.compoundAssignment(), body)
        if child.controlFlowStmt():
            c = child.controlFlowStmt()
            if isinstance(c, P.ForContext):
                return WizardForLoopContext(f, c.forStmt(), body)
            if isinstance(c, P.WhileContext):
                return WizardWhileLoopContext(f, c.whileStmt(), body)
            if isinstance(c, P.IfContext):
                return WizardIfContext(f, c.ifStmt(), body)
            if isinstance(c, P.SelectContext):
                s = c.selectStmt()
                if s.exception:
                    raise WizardParseError(s, s.exception)
                if s.selectOne():
                    return WizardSelectOneContext(f, s.selectOne(), body)
                return WizardSelectManyContext(f, s.selectMany(), body)
            if isinstance(c, P.BreakContext):
                return WizardBreakContext(f, c, body)
            if isinstance(c, P.ContinueContext):
                return WizardContinueContext(f, c, body)
            if isinstance(c, P.CancelContext):
                return WizardCancelContext(f, c.cancelStmt(), body)
            if isinstance(c, P.ReturnContext):
                return WizardReturnContext(f, c, body)
            raise WizardParseError(c, "unknown")
        if child.keywordStmt():
            return f.make_keyword_context(child.keywordStmt(), body)
    raise WizardParseError(child, "unknown")


def s_assignment_exec(self):
    parent = resume(self._parent, self._state)
    name = self._context.Identifier().getText()
    value = expr(self, self._context.expr(), parent._state)
    parent._state.set(name, value)
    return parent


def compound(ctx, x, y):
    if ctx.CompoundExp():
        return x ** y
    if ctx.CompoundMul():
        return x * y
    if ctx.CompoundDiv():
        return Value.__div__(x, y)
    if ctx.CompoundMod():
        return x % y
    if ctx.CompoundAdd():
        return x + y
    if ctx.CompoundSub():
        return x - y
    raise WizardParseError(ctx, "unknown")


def s_compound_exec(self):
    parent = resume(self._parent, self._state)
    name = self._context.Identifier().getText()
    value = expr(self, self._context.expr(), parent._state)
    if name not in parent._state.variables:
        raise WizardNameError(self._context, name)
    try:
        value = compound(self._context, parent._state.variables[name], value)
    except TypeError:
        raise WizardTypeError(self._context, "type")
    parent._state.set(name, value)
    return parent


# -- C03 ------------------------------------------------------------------


def s_if_exec(self):
    parent = resume(self._parent, self._state)
    ctx = self._context
    if expr(self, ctx.expr(), parent._state):
        return WizardBodyContext(self._factory, ctx.body(), parent)
    for e in ctx.elifStmt():
        if expr(self, e.expr(), parent._state):
            return WizardBodyContext(self._factory, e.body(), parent)
    if ctx.elseStmt():
        return WizardBodyContext(self._factory, ctx.elseStmt().body(), parent)
    return parent


# -- C04, C05 -------------------------------------------------------------


def s_while_exec(self):
    loop = resume(self, self._state)
    if expr(self, self._context.expr(), loop._state):
        return WizardBodyContext(self._factory, self._context.body(), loop)
    return resume(self._parent, loop._state)


def s_range_values(self, ctx):
    if ctx.exception:
        raise WizardParseError(ctx, ctx.exception)
    start = expr(self, ctx.expr(0), self._state, int)._value
    end = expr(self, ctx.expr(1), self._state, int)._value
    if ctx.expr(2):
        step = expr(self, ctx.expr(2), self._state, int)._value
    else:
        step = 1
    if step > 0:
        return [Value(i) for i in range(start, end + 1, step)]
    return [Value(i) for i in range(start, end - 1, step)]


def s_in_values(self, ctx):
    if ctx.exception:
        raise WizardParseError(ctx, ctx.exception)
    v = expr(self, ctx.expr(), self._state)._value
    if isinstance(v, SubPackage):
        return [Value(f) for f in v.files]
    if isinstance(v, (SubPackages, str)):
        return [Value(x) for x in v]
    raise WizardTypeError(ctx, "not iterable")


def s_for_init(self, factory, context, parent, state=None):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy() if state is None else state
    if context.exception:
        raise WizardParseError(context, context.exception)
    if context.forInHeader():
        self._values = self._for_in_header(context.forInHeader())
    else:
        self._values = self._for_range_header(context.forRangeHeader())
    self._name = context.Identifier().getText()
    self._index = 0


def s_for_exec(self):
    if self._index == len(self._values):
        return resume(self._parent, self._state)
    value = self._values[self._index]
    loop = resume(self, self._state)
    loop._index = self._index + 1
    loop._state.set(self._name, value)
    return WizardBodyContext(self._factory, self._context.body(), loop)


def s_loop_break(self):
    return resume(self._parent, self._state)


def s_loop_continue(self):
    return self


def s_break_exec(self):
    c = self
    while not c._parent is c and not isinstance(c, WizardBreakableContext):
        c = c._parent
    if not isinstance(c, WizardBreakableContext):
        raise WizardParseError(self._context, "Break")
    return resume(c.break_(), self._state)


def s_continue_exec(self):
    c = self
    while not c._parent is c and not isinstance(c, WizardContinuableContext):
        c = c._parent
    if not isinstance(c, WizardContinuableContext):
        raise WizardParseError(self._context, "Continue")
    return resume(c.continue_(), self._state)


# -- C06 ------------------------------------------------------------------


def s_parse_options(factory, context, state):
    if context.exception:
        raise WizardParseError(context, context.exception)
    ev = factory._evisitor
    description = ev.visitExpr(context.expr(), state, str)._value
    options = []
    defaults = []
    for o in context.optionTuple():
        if o.exception:
            raise WizardParseError(o, o.exception)
        name = ev.visitExpr(o.expr(0), state, str)._value
        desc = ev.visitExpr(o.expr(1), state, str)._value
        image = ev.visitExpr(o.expr(2), state, str)._value
        if name.startswith("|"):
            option = SelectOption(name[1:], desc, image if image.strip() else None)
            options.append(option)
            defaults.append(option)
        else:
            options.append(SelectOption(name, desc, image if image.strip() else None))
    if not isinstance(context, P.SelectManyContext):
        if not defaults:
            defaults.append(options[0])
    return description, options, defaults


def s_select_init(self, factory, context, parent):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy()
    self._description, self._options, self._defaults = X.parse_select_options(
        factory, context, self._state
    )


def s_select_one_init(self, factory, context, parent):
    WizardSelectContext.__init__(self, factory, context, parent)
    if len(self._defaults) != 1:
        factory._severity.raise_or_warn(
            Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON, WizardTypeError(context, "default"), ""
        )
        self._defaults = [self._defaults[0]]
    self._selected = self._defaults


def s_select_many_init(self, factory, context, parent):
    WizardSelectContext.__init__(self, factory, context, parent)
    self._selected = self._defaults


def s_description(self):
    return self._description


def s_options(self):
    return self._options


def s_default(self):
    return self._defaults[0]


def s_defaults(self):
    return self._defaults


def s_select_one(self, option):
    c = resume(self, self._state)
    c._selected = [option]
    return c


def s_select_many(self, options):
    c = resume(self, self._state)
    c._selected = list(options)
    return c


def s_select_exec(self):
    parent = resume(self._parent, self._state)
    return WizardSelectCasesContext(self._factory, self._selected, self._context, parent)


def s_make_select(self, context, parent):
    if context.exception:
        raise WizardParseError(context, context.exception)
    if context.selectOne():
        return WizardSelectOneContext(self, context.selectOne(), parent)
    return WizardSelectManyContext(self, context.selectMany(), parent)


# -- C07 ------------------------------------------------------------------


def s_cases_init(self, factory, options, context, parent):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy()
    self._options = list(options)
    self._ismany = not isinstance(context, P.SelectOneContext)
    self._cases = list(context.selectCaseList().caseStmt())
    self._default = context.selectCaseList().defaultStmt()
    self._index = 0
    self._found = False
    self._fallthrough = False


def selected(options, name):
    for o in options:
        if o._name == name:
            return True
    return False


def s_cases_exec(self):
    if not self._fallthrough and self._found and not self._ismany:
        return resume(self._parent, self._state)
    snext = resume(self, self._state)
    if self._index < len(self._cases):
        case = self._cases[self._index]
        snext._index = self._index + 1
        name = expr(self, case.expr(), snext._state, str)._value
        if self._fallthrough or selected(self._options, name):
            snext._found = True
            snext._fallthrough = True
            return WizardCaseContext(self._factory, case, snext)
        return snext
    if self._default:
        if self._fallthrough or not self._found:
            snext._found = True
            snext._fallthrough = False
            return WizardCaseContext(self._factory, self._default, snext)
    return resume(self._parent, self._state)


def s_cases_break(self):
    c = resume(self, self._state)
    c._fallthrough = False
    return c


def s_case_exec(self):
    return WizardBodyContext(self._factory, self._context.body(), self._parent)


# -- C08 ------------------------------------------------------------------


def s_termination_exec(self):
    raise NotImplementedError


def s_is_cancel(self):
    return isinstance(self._parent, WizardCancelContext)


def s_is_return(self):
    return isinstance(self._parent, WizardReturnContext)


def s_is_complete(self):
    if isinstance(self._parent, WizardCancelContext):
        return False
    return not isinstance(self._parent, WizardReturnContext)


def s_termination_message(self):
    if isinstance(self._parent, WizardCancelContext):
        return self._parent._message
    return None


def s_cancel_init(self, factory, context, parent, state=None):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy() if state is None else state
    if context.expr():
        self._message = expr(self, context.expr(), self._state, str)._value
    else:
        self._message = None


def s_message(self):
    return self._message


def s_terminate(self):
    return WizardTerminationContext(self._factory, self._context, self)


# -- C22 ------------------------------------------------------------------


def s_exec_exec(self):
    from wizard.utils import make_parse_wizard_context

    state = self._state.copy()
    args = self._context.argList().expr()
    if len(args) != 1:
        raise WizardTypeError(self._context, "arguments")
    script = expr(self, args[0], state, str)._value
    try:
        tree = make_parse_wizard_context(script)
    except WizardError as e:
        e._ctx = self._context
        raise
    parent = resume(self._parent, state)
    return WizardTopLevelContext(self._factory, tree, parent, state)


# -- factory --------------------------------------------------------------


def maker(cls):
    def make(self, context, parent):
        return cls(self, context, parent)

    return make


def s_make(self, context, parent):
    raise NotImplementedError


def s_make_cancel(self, context, parent):
    return WizardCancelContext(self, context, parent)


def s_make_return(self, context, parent):
    return WizardReturnContext(self, context, parent)


def s_make_exec(self, context, parent):
    return WizardExecContext(self, context, parent)


def s_make_body(self, context, parent):
    return WizardBodyContext(self, context, parent)


def s_make_assignment(self, context, parent):
    return WizardAssignmentContext(self, context, parent)


def s_make_compound(self, context, parent):
    return WizardCompoundAssignmentContext(self, context, parent)


def s_make_break(self, context, parent):
    return WizardBreakContext(self, context, parent)


def s_make_continue(self, context, parent):
    return WizardContinueContext(self, context, parent)


def s_make_for(self, context, parent):
    return WizardForLoopContext(self, context, parent)


def s_make_while(self, context, parent):
    return WizardWhileLoopContext(self, context, parent)


def s_make_if(self, context, parent):
    return WizardIfContext(self, context, parent)


def s_make_case(self, context, parent):
    return WizardCaseContext(self, context, parent)


def s_make_termination(self, parent):
    return WizardTerminationContext(self, parent._context, parent)


def s_make_cases(self, options, context, parent):
    return WizardSelectCasesContext(self, options, context, parent)


# ---------------------------------------------------------------------------

CTXS = {
    WizardBodyContext: P.BodyContext,
    WizardBreakContext: P.BreakContext,
    WizardContinueContext: P.ContinueContext,
    WizardExecContext: P.FunctionCallContext,
    WizardIfContext: P.IfStmtContext,
    WizardForLoopContext: P.ForStmtContext,
    WizardWhileLoopContext: P.WhileStmtContext,
    WizardAssignmentContext: P.AssignmentContext,
    WizardCompoundAssignmentContext: P.CompoundAssignmentContext,
    WizardSelectOneContext: P.SelectOneContext,
    WizardSelectManyContext: P.SelectManyContext,
    WizardSelectContext: ("or", P.SelectOneContext, P.SelectManyContext),
    WizardSelectCasesContext: ("or", P.SelectOneContext, P.SelectManyContext),
    WizardCaseContext: ("or", P.CaseStmtContext, P.DefaultStmtContext),
    WizardCancelContext: P.CancelStmtContext,
    WizardReturnContext: P.ReturnContext,
    WizardTopLevelContext: P.ParseWizardContext,
    WizardTerminationContext: ParserRuleContext,
    WizardInterpreterContext: ParserRuleContext,
}

CONTRACTS = {}


def c(name, fn, spec, props, replace=True):
    CONTRACTS[name] = (fn, spec, props, replace)


Fa = WizardInterpreterContextFactory
W = X
c("WizardInterpreterContext.__init__", WizardInterpreterContext.__init__, s_init, ("C01", "C02"))
c("WizardTopLevelContext.__init__", WizardTopLevelContext.__init__, s_toplevel_init, ("C02", "C22"))
c("WizardInterpreterContext.is_top_level", WizardInterpreterContext.is_top_level, s_is_top_level, ("C05",))
c("factory.copy_context", Fa.copy_context, s_copy_context, ("C01", "C02"))
c("factory.copy_parent", Fa.copy_parent, s_copy_parent, ("C01", "C02"))
c("WizardInterpreterContext.exec", WizardInterpreterContext.exec, s_exec, ("C13", "C23"))
c("WizardTopLevelContext.exec_", WizardTopLevelContext.exec_, s_toplevel_exec, ("C02", "C22"))
c("WizardBodyContext.__init__", WizardBodyContext.__init__, s_body_init, ("C01", "C02"))
c("WizardBodyContext.exec_", WizardBodyContext.exec_, s_body_exec, ("C01", "C02"))
c("WizardAssignmentContext.exec_", WizardAssignmentContext.exec_, s_assignment_exec, ("C01", "C02"))
c("WizardCompoundAssignmentContext.exec_", WizardCompoundAssignmentContext.exec_, s_compound_exec, ("C01", "C02"))
c("WizardIfContext.exec_", WizardIfContext.exec_, s_if_exec, ("C01", "C03"))
c("WizardWhileLoopContext.exec_", WizardWhileLoopContext.exec_, s_while_exec, ("C01", "C04"))
c("WizardForLoopContext.__init__", WizardForLoopContext.__init__, s_for_init, ("C01", "C04"))
c("WizardForLoopContext._for_range_header", WizardForLoopContext._for_range_header, s_range_values, ("C04", "C23"))
c("WizardForLoopContext._for_in_header", WizardForLoopContext._for_in_header, s_in_values, ("C04", "C23"))
c("WizardForLoopContext.exec_", WizardForLoopContext.exec_, s_for_exec, ("C01", "C04"))
c("WizardForLoopContext.break_", WizardForLoopContext.break_, s_loop_break, ("C05",))
c("WizardForLoopContext.continue_", WizardForLoopContext.continue_, s_loop_continue, ("C05",))
c("WizardWhileLoopContext.break_", WizardWhileLoopContext.break_, s_loop_break, ("C05",))
c("WizardWhileLoopContext.continue_", WizardWhileLoopContext.continue_, s_loop_continue, ("C05",))
c("WizardBreakContext.exec_", WizardBreakContext.exec_, s_break_exec, ("C01", "C05"))
c("WizardContinueContext.exec_", WizardContinueContext.exec_, s_continue_exec, ("C01", "C05"))
c("parse_select_options", X.parse_select_options, s_parse_options, ("C06", "C23"))
c("WizardSelectContext.__init__", WizardSelectContext.__init__, s_select_init, ("C06",))
c("WizardSelectOneContext.__init__", WizardSelectOneContext.__init__, s_select_one_init, ("C06",))
c("WizardSelectManyContext.__init__", WizardSelectManyContext.__init__, s_select_many_init, ("C06",))
c("WizardSelectContext.description", WizardSelectContext.description.fget, s_description, ("C06",))
c("WizardSelectContext.options", WizardSelectContext.options.fget, s_options, ("C06",))
c("WizardSelectOneContext.default", WizardSelectOneContext.default.fget, s_default, ("C06",))
c("WizardSelectManyContext.defaults", WizardSelectManyContext.defaults.fget, s_defaults, ("C06",))
c("WizardSelectOneContext.select", WizardSelectOneContext.select, s_select_one, ("C01", "C06"))
c("WizardSelectManyContext.select", WizardSelectManyContext.select, s_select_many, ("C01", "C06"))
c("WizardSelectContext.exec_", WizardSelectContext.exec_, s_select_exec, ("C01", "C06"))
c("factory.make_select_context", Fa.make_select_context, s_make_select, ("C06", "C23"))
c("WizardSelectCasesContext.__init__", WizardSelectCasesContext.__init__, s_cases_init, ("C07",))
c("WizardSelectCasesContext.exec_", WizardSelectCasesContext.exec_, s_cases_exec, ("C01", "C07"))
c("WizardSelectCasesContext.break_", WizardSelectCasesContext.break_, s_cases_break, ("C05", "C07"))
c("WizardCaseContext.exec_", WizardCaseContext.exec_, s_case_exec, ("C01", "C07"))
c("WizardTerminationContext.exec_", WizardTerminationContext.exec_, s_termination_exec, ("C08",))
c("WizardTerminationContext.is_cancel", WizardTerminationContext.is_cancel, s_is_cancel, ("C08",))
c("WizardTerminationContext.is_return", WizardTerminationContext.is_return, s_is_return, ("C08",))
c("WizardTerminationContext.is_complete", WizardTerminationContext.is_complete, s_is_complete, ("C08",))
c("WizardTerminationContext.message", WizardTerminationContext.message, s_termination_message, ("C08",))
c("WizardCancelContext.__init__", WizardCancelContext.__init__, s_cancel_init, ("C08",))
c("WizardCancelContext.message", WizardCancelContext.message, s_message, ("C08",))
c("WizardCancelContext.exec_", WizardCancelContext.exec_, s_terminate, ("C01", "C08"))
c("WizardReturnContext.exec_", WizardReturnContext.exec_, s_terminate, ("C01", "C08"))
c("WizardExecContext.exec_", WizardExecContext.exec_, s_exec_exec, ("C01", "C22"))
FACT = {
    "make_cancel_context": (s_make_cancel, P.CancelStmtContext, ("C08",)),
    "make_return_context": (s_make_return, P.ReturnContext, ("C08",)),
    "make_exec_context": (s_make_exec, P.FunctionCallContext, ("C22",)),
    "make_body_context": (s_make_body, P.BodyContext, ("C02",)),
    "make_assignment_context": (s_make_assignment, P.AssignmentContext, ("C02",)),
    "make_compound_assignment_context": (s_make_compound, P.CompoundAssignmentContext, ("C02",)),
    "make_break_context": (s_make_break, P.BreakContext, ("C05",)),
    "make_continue_context": (s_make_continue, P.ContinueContext, ("C05",)),
    "make_for_loop_context": (s_make_for, P.ForStmtContext, ("C04",)),
    "make_while_loop_context": (s_make_while, P.WhileStmtContext, ("C04",)),
    "make_if_context": (s_make_if, P.IfStmtContext, ("C03",)),
    "make_case_context": (s_make_case, ("or", P.CaseStmtContext, P.DefaultStmtContext), ("C07",)),
    "make_termination_context": (s_make_termination, None, ("C08",)),
    "make_select_cases_context": (s_make_cases, ("or", P.SelectOneContext, P.SelectManyContext), ("C07",)),
}
for n, (s, h, ps) in FACT.items():
    c("factory." + n, getattr(Fa, n), s, ps)


def p_parse_script(I, args, kwargs):
    """make_parse_wizard_context(text): a new tree, or an error that escapes"""
    a = I.flat(args)
    ts = [I.enc(a[0])]
    t = ts[0]
    if I.p.branch(T.uf("parse_x", Val, T.BoolS)(t)):
        # the error is a new object
        if I.p.branch(T.uf("parse_wiz", Val, T.BoolS)(t)):
            o = I.new(WizardParseError)
            o.attrs["args"] = ()
            o.attrs["_ctx"] = I.mk(T.uf("parse_ectx", Val, Val)(t), ("or", "none", ParserRuleContext))
            raise PyRaise(o)
        e = I.mk(T.uf("parse_e", Val, Val)(t), Exception)
        I.p.add(z3.Not(I.inst(e.t, WizardError)))
        raise PyRaise(e)
    return I.mk(T.uf("parse_tree", Val, Val)(t), P.ParseWizardContext)


def install(m):
    m.records[SelectOption] = ("_name", "_desc", "_image")
    m.fields[(SelectOption, "_name")] = "str"
    m.fields[(SelectOption, "_desc")] = "str"
    m.fields[(SelectOption, "_image")] = ("or", "none", "str")
    I = WizardInterpreterContext
    m.fields[(I, "_factory")] = Fa
    m.fields[(I, "_parent")] = I
    m.fields[(I, "_state")] = WizardInterpreterState
    for k, h in CTXS.items():
        m.fields[(k, "_context")] = h
    m.fields[(Fa, "_evisitor")] = WizardExpressionVisitor
    m.fields[(Fa, "_kvisitor")] = WizardKeywordVisitor
    m.fields[(Fa, "_severity")] = SeverityContext
    m.fields[(WizardBodyContext, "_ichild")] = "int"
    fl = WizardForLoopContext
    m.fields[(fl, "_name")] = "str"
    m.fields[(fl, "_values")] = ("list", Value)
    m.fields[(fl, "_index")] = "int"
    sc = WizardSelectContext
    m.fields[(sc, "_description")] = "str"
    for f in ("_options", "_defaults", "_selected"):
        m.fields[(sc, f)] = ("list", SelectOption)
    cc = WizardSelectCasesContext
    m.fields[(cc, "_options")] = ("list", SelectOption)
    m.fields[(cc, "_ismany")] = "bool"
    m.fields[(cc, "_found")] = "bool"
    m.fields[(cc, "_fallthrough")] = "bool"
    m.fields[(cc, "_index")] = "int"
    m.fields[(cc, "_cases")] = ("list", P.CaseStmtContext)
    m.fields[(cc, "_default")] = ("or", "none", P.DefaultStmtContext)
    m.fields[(WizardCancelContext, "_message")] = ("or", "none", "str")
    abstract = lambda name, ret: (
        lambda I, a, k: opaque_call(I, name, [a[0]], None, ret, None, True))
    m.opaque[WizardBreakableContext.break_] = abstract("break_", I)
    m.opaque[WizardContinuableContext.continue_] = abstract("continue_", I)
    # verified on their own; at calls, functions of the tree node and the state
    hdr = lambda name: (lambda I_, a, k: opaque_call(
        I_, name, [I_.getattr(a[0], "_factory"), a[1]], I_.getattr(a[0], "_state"),
        ("list", Value)))
    m.opaque[fl._for_range_header] = hdr("range_values")
    m.opaque[fl._for_in_header] = hdr("in_values")
    m.opaque[X.parse_select_options] = lambda I_, a, k: opaque_call(
        I_, "select_options", a[:2], a[2],
        ("tup", "str", ("list", SelectOption), ("list", SelectOption)))
    m.opaque[I.exec_] = lambda I_, a, k: opaque_call(I_, "exec_", [a[0]], None, I)
    from wizard.utils import make_parse_wizard_context

    m.opaque[make_parse_wizard_context] = p_parse_script
    m.opaque[Fa.make_keyword_context] = lambda I_, a, k: opaque_call(
        I_, "make_keyword", I_.flat(a)[:2] + [I_.getattr(I_.flat(a)[2], "_parent")],
        I_.getattr(I_.flat(a)[2], "_state"), I)
    for name, (fn, spec, props, replace) in CONTRACTS.items():
        if replace:
            m.contracts[fn] = spec


def owner(name):
    n = name.split(".")[0]
    return getattr(X, n, None)


def position(I, self, cls):
    """invariant of the contexts that go through a list: the position is in the list or at its end.
    It holds at the start (__init__: 0), exec_ adds one only where the position is before the end (its contract),
    and no other function changes the position or the list (their frame obligations)."""
    if cls is WizardBodyContext:
        lst, pos = I.getattr(I.getattr(self, "_context"), "children"), "_ichild"
    elif cls is WizardForLoopContext:
        lst, pos = I.getattr(self, "_values"), "_index"
    elif cls is WizardSelectCasesContext:
        lst, pos = I.getattr(self, "_cases"), "_index"
    else:
        return
    i = I.intt(I.getattr(self, pos))
    I.p.add(i >= 0)
    if isinstance(lst, S) and I.p.branch(I.is_kind(lst, "none")):
        I.p.add(i <= 0)
    else:
        I.p.add(i <= I.intt(I.length(lst)))


def targets():
    from engine.interp import MISSING

    out = []
    for name, (fn, spec, props, replace) in CONTRACTS.items():
        cls = owner(name)
        meth = name.split(".")[-1]

        def args(I, cls=cls, meth=meth, fn=fn):
            k = lambda n, h: I.mk(T.const(n, Val), h)
            if cls is None or not isinstance(cls, type):
                if meth == "parse_select_options":
                    return [k("factory", Fa), k("context", CTXS[WizardSelectContext]),
                            k("state", WizardInterpreterState)]
                f = k("factory", Fa)
                if meth in ("copy_context", "copy_parent"):
                    return [f, k("context", WizardInterpreterContext),
                            k("state", ("or", "none", WizardInterpreterState))]
                if meth == "make_select_context":
                    return [f, k("context", P.SelectStmtContext), k("parent", WizardInterpreterContext)]
                h = FACT[meth][1]
                if h is None:
                    return [f, k("parent", WizardInterpreterContext)]
                if meth == "make_select_cases_context":
                    return [f, k("options", ("list", SelectOption)), k("context", h),
                            k("parent", WizardInterpreterContext)]
                return [f, k("context", h), k("parent", WizardInterpreterContext)]
            if meth == "__init__":
                o = I.new(cls)
                a = [o, k("factory", Fa)]
                if cls is WizardSelectCasesContext:
                    a.append(k("options", ("list", SelectOption)))
                a.append(k("context", CTXS[cls]))
                ph = WizardInterpreterContext
                if cls is WizardTopLevelContext:
                    ph = ("or", "none", ph)
                a.append(k("parent", ph))
                if cls not in (WizardSelectContext, WizardSelectOneContext,
                               WizardSelectManyContext, WizardSelectCasesContext):
                    a.append(k("state", ("or", "none", WizardInterpreterState)))
                if cls is WizardTopLevelContext:
                    # a top-level context without parent is given a state
                    I.p.add(z3.Or(z3.Not(Val.is_VNone(a[3].t)), z3.Not(Val.is_VNone(a[4].t))))
                return a
            a = [k("self", cls)]
            if meth == "exec_":
                position(I, a[0], cls)
            if meth == "select":
                a.append(k("option", SelectOption) if cls is WizardSelectOneContext
                         else k("options", ("list", SelectOption)))
            if meth == "_for_range_header":
                a.append(k("ctx", P.ForRangeHeaderContext))
            if meth == "_for_in_header":
                a.append(k("ctx", P.ForInHeaderContext))
            return a

        if "C01" not in props:
            props = tuple(props) + ("C01:frame",)
        out.append(Target(name, fn, spec, args, props, budget=120))
    return out
