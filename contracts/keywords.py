"""Contracts of wizard.contexts.keywords (C16, C01)."""
from contracts import tree
from contracts.contexts import expr, resume
from contracts.tree import bound, opaque_call
from engine import terms as T
from engine.core import *  # noqa
from engine.terms import Val
from engine.verify import Target

from wizard.antlr4.wizardParser import wizardParser as P
from wizard.contexts import keywords as K
from wizard.contexts.contexts import WizardInterpreterContext
from wizard.contexts.factory import WizardInterpreterContextFactory
from wizard.errors import WizardNameError, WizardTypeError
from wizard.keywords import WizardKeywordVisitor
from wizard.severity import Issue
from wizard.state import WizardInterpreterState


def arguments(self, state, least, most):
    """the values of the arguments, each evaluated once, from left to right, on the
    given state; missing optional arguments are None"""
    self._context.Keyword().getText()
    args = [expr(self, ex, state) for ex in self._context.argList().expr()]
    if len(args) < least or len(args) > most:
        raise WizardTypeError(self._context, "arity")
    values = tuple(arg._value for arg in args)
    return values + (None,) * (most - len(args))


def s_deselect_all(self):
    state = self._state.copy()
    arguments(self, state, 0, 0)
    self._factory._kvisitor.visitDeSelectAll(self, state)
    return resume(self._parent, state)


def s_deselect_all_plugins(self):
    state = self._state.copy()
    arguments(self, state, 0, 0)
    self._factory._kvisitor.visitDeSelectAllPlugins(self, state)
    return resume(self._parent, state)


def s_deselect_plugin(self):
    state = self._state.copy()
    a = arguments(self, state, 1, 1)
    self._factory._kvisitor.visitDeSelectPlugin(self, state, a[0])
    return resume(self._parent, state)


def s_deselect_subpackage(self):
    state = self._state.copy()
    a = arguments(self, state, 1, 1)
    self._factory._kvisitor.visitDeSelectSubPackage(self, state, a[0])
    return resume(self._parent, state)


def s_rename_plugin(self):
    state = self._state.copy()
    a = arguments(self, state, 2, 2)
    self._factory._kvisitor.visitRenamePlugin(self, state, a[0], a[1])
    return resume(self._parent, state)


def s_reset_plugin_name(self):
    state = self._state.copy()
    a = arguments(self, state, 1, 1)
    self._factory._kvisitor.visitResetPluginName(self, state, a[0])
    return resume(self._parent, state)


def s_reset_all(self):
    state = self._state.copy()
    arguments(self, state, 0, 0)
    self._factory._kvisitor.visitResetAllPluginNames(self, state)
    return resume(self._parent, state)


def s_select_all(self):
    state = self._state.copy()
    arguments(self, state, 0, 0)
    self._factory._kvisitor.visitSelectAll(self, state)
    return resume(self._parent, state)


def s_select_all_plugins(self):
    state = self._state.copy()
    arguments(self, state, 0, 0)
    self._factory._kvisitor.visitSelectAllPlugins(self, state)
    return resume(self._parent, state)


def s_select_plugin(self):
    state = self._state.copy()
    a = arguments(self, state, 1, 1)
    self._factory._kvisitor.visitSelectPlugin(self, state, a[0])
    return resume(self._parent, state)


def s_select_subpackage(self):
    state = self._state.copy()
    a = arguments(self, state, 1, 1)
    self._factory._kvisitor.visitSelectSubPackage(self, state, a[0])
    return resume(self._parent, state)


def versions(self, state):
    a = arguments(self, state, 1, 4)
    return (a[0], a[1] or None, a[2] or None, a[3] or None)


def s_require_init(self, factory, context, parent, state=None):
    self._factory = factory
    self._context = context
    self._parent = parent
    self._state = parent._state.copy() if state is None else state
    self._args = versions(self, self._state)


def s_require(self):
    state = self._state.copy()
    a = self._args
    self._factory._kvisitor.visitRequireVersions(state, a[0], a[1], a[2], a[3])
    return resume(self._parent, state)


def s_version0(self):
    return self._args[0]


def s_version1(self):
    return self._args[1]


def s_version2(self):
    return self._args[2]


def s_version3(self):
    return self._args[3]


def s_note(self):
    state = self._state.copy()
    a = arguments(self, state, 1, 1)
    if not isinstance(a[0], str):
        self._factory._severity.raise_or_warn(
            Issue.USAGE_OF_ANYTHING_IN_NOTE, WizardTypeError(self._context, "note"), "note")
    self._factory._kvisitor.visitNote(self, state, str(a[0]))
    return resume(self._parent, state)


def s_make_keyword(factory, context, parent):
    """Plugin(s) and Espm(s) keywords are synonyms"""
    name = context.Keyword().getText()
    if name == "Note":
        return K.WizardNoteContext(factory, context, parent)
    if name == "SelectAll":
        return K.WizardSelectAllContext(factory, context, parent)
    if name == "DeSelectAll":
        return K.WizardDeSelectAllContext(factory, context, parent)
    if name == "RenamePlugin" or name == "RenameEspm":
        return K.WizardRenamePluginContext(factory, context, parent)
    if name == "SelectPlugin" or name == "SelectEspm":
        return K.WizardSelectPluginContext(factory, context, parent)
    if name == "DeSelectPlugin" or name == "DeSelectEspm":
        return K.WizardDeSelectPluginContext(factory, context, parent)
    if name == "ResetPluginName" or name == "ResetEspmName":
        return K.WizardResetPluginNameContext(factory, context, parent)
    if name == "DeSelectAllPlugins" or name == "DeSelectAllEspms":
        return K.WizardDeSelectAllPluginsContext(factory, context, parent)
    if name == "SelectSubPackage":
        return K.WizardSelectSubPackageContext(factory, context, parent)
    if name == "SelectAllPlugins" or name == "SelectAllEspms":
        return K.WizardSelectAllPluginsContext(factory, context, parent)
    if name == "DeSelectSubPackage":
        return K.WizardDeSelectSubPackageContext(factory, context, parent)
    if name == "ResetAllPluginNames" or name == "ResetAllEspmNames":
        return K.WizardResetAllPluginNamesContext(factory, context, parent)
    if name == "RequireVersions":
        return K.WizardRequireVersionsContext(factory, context, parent)
    raise WizardNameError(context, name)


def s_factory_keyword(self, context, parent):
    return K.make_keyword_context(self, context, parent)


EXEC = {
    "DeSelectAll": s_deselect_all, "DeSelectAllPlugins": s_deselect_all_plugins,
    "DeSelectPlugin": s_deselect_plugin, "DeSelectSubPackage": s_deselect_subpackage,
    "RenamePlugin": s_rename_plugin, "ResetPluginName": s_reset_plugin_name,
    "ResetAllPluginNames": s_reset_all, "SelectAll": s_select_all,
    "SelectAllPlugins": s_select_all_plugins, "SelectPlugin": s_select_plugin,
    "SelectSubPackage": s_select_subpackage, "RequireVersions": s_require,
    "Note": s_note,
}


def install(m):
    m.fields[(K.WizardKeywordContext, "_context")] = P.KeywordStmtContext
    m.fields[(K.WizardRequireVersionsContext, "_args")] = ("tup", "any", "any", "any", "any")
    for n in list(EXEC):
        f = getattr(WizardKeywordVisitor, "visit" + n)

        def h(I, args, kwargs, n=n, f=f):
            a = bound(f, args, kwargs)
            rest = [v for k, v in a.items() if k not in ("state", "context")]
            if "context" in a:
                rest.append(I.getattr(a["context"], "_context"))
            return opaque_call(I, "kw_" + n, rest, a["state"])

        m.opaque[f] = h
    # the construction of a RequireVersions context can change the state (its
    # arguments are evaluated), the others cannot: one abstract function for all
    m.opaque[K.make_keyword_context] = lambda I, a, k: opaque_call(
        I, "make_keyword", I.flat(a)[:2] + [I.getattr(I.flat(a)[2], "_parent")],
        I.getattr(I.flat(a)[2], "_state"), WizardInterpreterContext)
    m.contracts[K.WizardRequireVersionsContext.__init__] = s_require_init


def targets():
    k = lambda I, n, h: I.mk(T.const(n, Val), h)
    Fa = WizardInterpreterContextFactory
    out = []
    for n, spec in EXEC.items():
        cls = getattr(K, f"Wizard{n}Context")
        out.append(Target(f"Wizard{n}Context.exec_", cls.exec_, spec,
                          lambda I, cls=cls: [k(I, "self", cls)], ("C16", "C01"), budget=120))
    R = K.WizardRequireVersionsContext
    out.append(Target("WizardRequireVersionsContext.__init__", R.__init__, s_require_init,
                      lambda I: [I.new(R), k(I, "factory", Fa), k(I, "context", P.KeywordStmtContext),
                                 k(I, "parent", WizardInterpreterContext),
                                 k(I, "state", ("or", "none", WizardInterpreterState))],
                      ("C16",), budget=120))
    for i, n in enumerate(("game_version", "script_extender_version",
                           "graphics_extender_version", "wrye_bash_version")):
        out.append(Target(f"WizardRequireVersionsContext.{n}", R.__dict__[n].fget,
                          (s_version0, s_version1, s_version2, s_version3)[i],
                          lambda I: [k(I, "self", R)], ("C16",)))
    a = lambda I: [k(I, "factory", Fa), k(I, "context", P.KeywordStmtContext),
                   k(I, "parent", WizardInterpreterContext)]
    out.append(Target("make_keyword_context", K.make_keyword_context, s_make_keyword, a, ("C16",), budget=120))
    out.append(Target("factory.make_keyword_context", Fa.make_keyword_context, s_factory_keyword, a, ("C16",)))
    return out
