"""Contracts of wizard.scriptrunner and wizard.interpreter (C09, C25)."""
import z3
from antlr4 import InputStream

from contracts import contexts, errors, tree
from contracts.tree import bound, opaque_call
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj
from engine.terms import Val
from engine.verify import Target

from wizard import interpreter as IN
from wizard import scriptrunner as SR
from wizard import utils as WU
from wizard.antlr4.wizardParser import wizardParser as P
from wizard.contexts.contexts import (
    WizardCancelContext, WizardInterpreterContext, WizardReturnContext, WizardSelectManyContext,
    WizardSelectOneContext, WizardTerminationContext, WizardTopLevelContext,
)
from wizard.contexts.factory import WizardInterpreterContextFactory
from wizard.errors import WizardError
from wizard.interpreter import WizardInterpreter
from wizard.manager import ManagerModInterface, ManagerUserInterface, SelectOption
from wizard.runner import WizardRunnerState
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerKeywordFactory, WizardScriptRunnerStatus
from wizard.severity import SeverityContext
from wizard.state import WizardInterpreterState

Status = WizardScriptRunnerStatus
Rewind, Abort = WizardScriptRunner.RewindFlow, WizardScriptRunner.CancelFlow

# -- C09 ------------------------------------------------------------------------


def s_run(self, script):
    """the whole run: what is asked when, and where it goes on"""
    ctx = self.make_top_level_context(script)
    while True:
        self._ctx = ctx
        try:
            if isinstance(ctx, WizardTerminationContext):
                origin = ctx._parent
                if isinstance(origin, WizardCancelContext):
                    stop, status = self.cancel(), Status.CANCEL
                elif isinstance(origin, WizardReturnContext):
                    stop, status = self.complete(), Status.RETURN
                else:
                    stop, status = self.complete(), Status.COMPLETE
                if stop:
                    return (status, ctx._state)
            elif isinstance(ctx, WizardSelectOneContext):
                ctx = ctx.select(self.selectOne(ctx._description, ctx._options, ctx._defaults[0]))
            elif isinstance(ctx, WizardSelectManyContext):
                ctx = ctx.select(self.selectMany(ctx._description, ctx._options, ctx._defaults))
            ctx = ctx.exec()
        except BaseException as ex:
            if isinstance(ex, Rewind):
                ctx = ex.context
            elif isinstance(ex, Abort):
                if self.cancel():
                    return (Status.CANCEL, ctx._state)
            elif isinstance(ex, Exception):
                self.error(ex)
                return (Status.ERROR, ctx._state)
            else:
                raise


def s_context(self):
    return self._ctx


def s_abort(self):
    raise Abort()


def s_rewind(self, context):
    raise Rewind(context)


def s_rewind_init(self, context):
    self.context = context


def l_rewind(self, context):
    try:
        self.rewind(context)
    except Rewind as ex:
        return ex.context


def l_rewind_spec(self, context):
    return context


def s_require(self, state, game, se, ge, wb):
    self._manager.requiresVersions(game, se, ge, wb)


def s_top(self, script, state=None):
    if state is None:
        state = WizardRunnerState()
    return WU.make_top_level_context(script, self._factory, state)


# -- C25 ------------------------------------------------------------------------


def s_exec_until(self, context, targets):
    """stop at the first step of one of the kinds, or at the end"""
    kinds = tuple(targets) + (WizardTerminationContext,)
    while not isinstance(context, kinds):
        context = context.exec()
    return context


def l_already(self, context, targets):
    """a step that matches is returned as it is"""
    if isinstance(context, tuple(targets)) or isinstance(context, WizardTerminationContext):
        return self.exec_until(context, targets) is context
    return True


def l_true(*args):
    return True


def s_interpreter_init(self, factory):
    self._factory = factory


def s_interpreter_top(self, script, state=None):
    return WU.make_top_level_context(script, self._factory, state)


def s_make_top(script, factory, state=None):
    tree = WU.make_parse_wizard_context(script, True)
    if state is None:
        state = WizardInterpreterState()
    return WizardTopLevelContext(factory, tree, None, state)


def s_make_top_raw(script, factory, state):
    tree = WU.make_parse_wizard_context(script, False)
    if state is None:
        state = WizardInterpreterState()
    return WizardTopLevelContext(factory, tree, None, state)


def r_make_top_raw(script, factory, state):
    return WU.make_top_level_context(script, factory, state, wrap_excs=False)


def callback(fn, ret):
    def h(I, args, kwargs):
        a = bound(fn, args, kwargs)
        return opaque_call(I, fn.__name__, list(a.values()), None, ret, BaseException)

    return h


def step(name):
    def h(I, args, kwargs):
        a = I.flat(args)
        r = opaque_call(I, name, a, None, WizardInterpreterContext, BaseException)
        return r

    return h


def p_parse(I, args, kwargs):
    a = bound(WU.make_parse_wizard_context, args, kwargs)
    return opaque_call(I, "parse", [a["script"], a["wrap_excs"]], None, P.ParseWizardContext, BaseException)


def install(m):
    contexts.install(m)
    tree.install(m)
    errors.install(m)
    IC, R, U = WizardInterpreterContext, WizardScriptRunner, ManagerUserInterface
    m.opaque[IC.exec] = step("exec")
    m.opaque[WizardSelectOneContext.select] = step("select")
    m.opaque[WizardSelectManyContext.select] = step("select")
    for c in (WizardSelectOneContext.select, WizardSelectManyContext.select, IC.exec):
        m.contracts.pop(c, None)
    m.opaque[U.selectOne] = callback(U.selectOne, SelectOption)
    m.opaque[U.selectMany] = callback(U.selectMany, ("list", SelectOption))
    m.opaque[U.cancel] = callback(U.cancel, "bool")
    m.opaque[U.complete] = callback(U.complete, "bool")
    m.opaque[U.error] = callback(U.error, "none")
    m.opaque[U.requiresVersions] = callback(U.requiresVersions, "none")
    m.opaque[R.make_top_level_context] = callback(R.make_top_level_context, WizardTopLevelContext)
    m.opaque[WU.make_parse_wizard_context] = p_parse
    m.fields[(R, "_ctx")] = IC
    m.fields[(Rewind, "context")] = IC
    m.fields[(WizardInterpreter, "_factory")] = WizardInterpreterContextFactory
    m.fields[(WizardScriptRunnerKeywordFactory, "_manager")] = U


def targets():
    R, I_ = WizardScriptRunner, WizardInterpreter
    IC = WizardInterpreterContext
    Fa = WizardInterpreterContextFactory

    def t(name, fn, spec, hints, props, new=None):
        def args(I):
            return ([I.new(new)] if new else []) + [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

        return Target(name, fn, spec, args, props, budget=120)

    N = ("C09",)
    st = ("or", "none", WizardInterpreterState)
    vs = ("or", "none", "str")
    return [
        t("WizardScriptRunner.run", R.run, s_run, [R, "str"], N + ("C26",)),
        t("WizardScriptRunner.context", R.context, s_context, [R], N),
        t("WizardScriptRunner.abort", R.abort, s_abort, [R], N),
        t("WizardScriptRunner.rewind", R.rewind, s_rewind, [R, IC], N),
        t("RewindFlow.__init__", Rewind.__init__, s_rewind_init, [IC], N, Rewind),
        t("lemma: rewind", l_rewind, l_rewind_spec, [R, IC], N),
        t("WizardScriptRunner.make_top_level_context", R.make_top_level_context, s_top,
          [R, "str", ("or", "none", WizardRunnerState)], N + ("C26",)),
        t("visitRequireVersions", WizardScriptRunnerKeywordFactory.visitRequireVersions, s_require,
          [WizardScriptRunnerKeywordFactory, WizardRunnerState, "str", vs, vs, vs], ("C16",)),
        t("WizardInterpreter.__init__", I_.__init__, s_interpreter_init, [Fa], ("C25",), I_),
        t("WizardInterpreter.exec_until", I_.exec_until, s_exec_until, [I_, IC, ("seq", "any")], ("C25",)),
        t("lemma: exec_until of a matching step", l_already, l_true, [I_, IC, ("seq", "any")], ("C25",)),
        t("WizardInterpreter.make_top_level_context", I_.make_top_level_context, s_interpreter_top,
          [I_, "str", st], ("C09", "C25", "C26")),
        t("make_top_level_context", WU.make_top_level_context, s_make_top, ["str", Fa, st], ("C09", "C25", "C26")),
        t("make_top_level_context (raw)", r_make_top_raw, s_make_top_raw, ["str", Fa, st], ("C25",)),
    ]
