"""Contracts of wizard.state, wizard.runner and wizard.tweaks (C01, C17, C18)."""
import z3

from contracts import errors, tree
from contracts.tree import bound
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj
from engine.terms import Val
from engine.verify import Target

from antlr4 import ParserRuleContext
from wizard import runner as R
from wizard import state as St
from wizard import tweaks as Tw
from wizard.contexts import WizardKeywordContext
from wizard.errors import WizardMissingPackageError, WizardMissingPluginError
from wizard.runner import WizardRunnerKeywordVisitor, WizardRunnerExpressionVisitor, WizardRunnerState
from wizard.severity import Issue, SeverityContext
from wizard.state import WizardInterpreterState
from wizard.tweaks import WizardINISetting, WizardINISettingEdit, WizardINITweaks
from wizard.value import Plugin, SubPackage, SubPackages, Value

# -- states (C01) -------------------------------------------------------------


def s_init(self, variables={}):
    self._variables = dict(variables)


def s_variables(self):
    return self._variables


def s_set(self, name, value):
    self._variables[name] = value


def s_copy(self):
    c = WizardInterpreterState()
    c._variables = dict(self._variables)
    return c


def s_runner_init(self):
    self._variables = {}
    self._subpackages = []
    self._plugins = []
    self._renames = {}
    self._tweaks = WizardINITweaks()
    self._notes = []


def s_runner_copy(self):
    """every container of the copy is new and equal to the one of the original"""
    c = WizardRunnerState()
    c._variables = dict(self._variables)
    c._subpackages = list(self._subpackages)
    c._plugins = list(self._plugins)
    c._renames = dict(self._renames)
    c._notes = list(self._notes)
    c._tweaks._disabled = list(self._tweaks._disabled)
    c._tweaks._modified = list(self._tweaks._modified)
    return c


# -- what is shown ------------------------------------------------------------


def s_subpackages(self):
    return sorted(self._subpackages)


def s_plugins(self):
    return sorted(self._plugins)


def s_renames(self):
    return self._renames


def s_tweaks(self):
    return self._tweaks


def s_notes(self):
    return self._notes


# -- INI (C18) ----------------------------------------------------------------


def s_setting(self, filename, section, setting):
    self._filename = filename
    self._section = section
    self._setting = setting


def s_edit(self, filename, section, setting, value, comment=None):
    self._filename = filename
    self._section = section
    self._setting = setting
    self._value = value
    self._comment = comment


def s_filename(self):
    return self._filename


def s_section(self):
    return self._section


def s_settingname(self):
    return self._setting


def s_value(self):
    return self._value


def s_comment(self):
    return self._comment


def s_tweaks_init(self):
    self._disabled = []
    self._modified = []


def s_disabled(self):
    return self._disabled


def s_modified(self):
    return self._modified


def s_files(self):
    names = set(m._filename for m in self._modified)
    names.update(m._filename for m in self._disabled)
    return sorted(names)


def s_tweaks_of(self, file):
    out = [m for m in self._modified if m._filename.lower() == file.lower()]
    for m in self._disabled:
        if m._filename.lower() == file.lower():
            out.append(m)
    return out


def s_tweaks_bool(self):
    return len(self._modified) > 0 or len(self._disabled) > 0


def s_disable(self, state, filename, section, setting):
    if not isinstance(state, WizardRunnerState):
        raise AssertionError
    state._tweaks._disabled.append(WizardINISetting(filename, section, setting))


def s_edit_ini(self, state, filename, section, setting, value, comment=""):
    if not isinstance(state, WizardRunnerState):
        raise AssertionError
    state._tweaks._modified.append(WizardINISettingEdit(filename, section, setting, value, comment))


# -- keyword actions (C17, C18) ------------------------------------------------


def s_visitor_init(self, subpackages, severity):
    self._severity = severity
    self._subpackages = subpackages
    self._plugins = list({pg: True for sp in subpackages for pg in sp.plugins()}.keys())


def s_visitor_subpackages(self):
    return self._subpackages


def s_visitor_plugins(self):
    return self._plugins


def s_plugins_for(self, subpackage):
    return list(subpackage.plugins())


def s_deselect_all(self, context, state):
    state._subpackages.clear()
    state._plugins.clear()


def s_deselect_all_plugins(self, context, state):
    state._plugins.clear()


def s_deselect_plugin(self, context, state, name):
    if name in state._plugins:
        state._plugins.remove(name)


def s_deselect_subpackage(self, context, state, name):
    if name in state._subpackages:
        state._subpackages.remove(name)


def s_note(self, context, state, text):
    state._notes.append(text)


def s_rename(self, context, state, original_name, new_name):
    state._renames[Plugin(original_name)] = new_name


def s_reset_all(self, context, state):
    state._renames.clear()


def s_reset(self, context, state, name):
    if Plugin(name) in state._renames:
        del state._renames[Plugin(name)]


def s_select_all_plugins(self, context, state):
    state._plugins = list({pg: True for sp in state._subpackages for pg in sp.plugins()}.keys())


def s_select_all(self, context, state):
    state._subpackages = list(self._subpackages)
    state._plugins = list({pg: True for sp in self._subpackages for pg in sp.plugins()}.keys())


def s_select_plugin(self, context, state, name):
    if name not in self._plugins:
        self._severity.raise_or_warn(
            Issue.SELECT_MISSING_PLUGIN, WizardMissingPluginError(context._context, name), "missing")
        return
    plugin = self._plugins[self._plugins.index(name)]
    if plugin not in state._plugins:
        state._plugins.append(plugin)


def s_select_subpackage(self, context, state, name):
    if name not in self._subpackages:
        self._severity.raise_or_warn(
            Issue.SELECT_MISSING_SUBPACKAGE, WizardMissingPackageError(context._context, name), "missing")
        return
    subpackage = self._subpackages[self._subpackages.index(name)]
    if subpackage not in state._subpackages:
        state._subpackages.append(subpackage)
    for plugin in subpackage.plugins():
        if plugin not in state._plugins:
            state._plugins.append(plugin)


def install(m):
    tree.install(m)
    m.virtual.pop((WizardInterpreterState, "_variables"), None)
    for f in (WizardInterpreterState.copy, WizardInterpreterState.set, WizardInterpreterState.variables.fget):
        del m.opaque[f]
    errors.install(m)
    W = WizardRunnerState
    m.fields[(WizardInterpreterState, "_variables")] = ("dict", "str", Value)
    m.fields[(W, "_subpackages")] = ("list", SubPackage)
    m.fields[(W, "_plugins")] = ("list", Plugin)
    m.fields[(W, "_renames")] = ("dict", Plugin, "str")
    m.fields[(W, "_notes")] = ("list", "any")
    m.fields[(W, "_tweaks")] = ("exact", WizardINITweaks)
    m.fields[(WizardINITweaks, "_disabled")] = ("list", WizardINISetting)
    m.fields[(WizardINITweaks, "_modified")] = ("list", WizardINISettingEdit)
    for n in ("_filename", "_section", "_setting"):
        m.fields[(WizardINISetting, n)] = "str"
    m.fields[(WizardINISettingEdit, "_value")] = "any"
    m.fields[(WizardINISettingEdit, "_comment")] = "any"
    V = WizardRunnerKeywordVisitor
    m.fields[(V, "_subpackages")] = SubPackages
    m.fields[(V, "_plugins")] = ("list", Plugin)
    m.fields[(V, "_severity")] = SeverityContext
    m.fields[(WizardKeywordContext, "_context")] = ParserRuleContext


def targets():
    k = lambda I, n, h: I.mk(T.const(n, Val), h)
    out = []

    def t(name, fn, spec, hints, props, new=None):
        def args(I):
            r = [I.new(new)] if new else []
            return r + [k(I, f"a{i}", h) for i, h in enumerate(hints)]

        out.append(Target(name, fn, spec, args, props, budget=120))

    W, IS = WizardRunnerState, WizardInterpreterState
    xi, xw = ("exact", IS), ("exact", W)
    t("WizardInterpreterState.__init__", IS.__init__, s_init, [("dict", "str", Value)], ("C01",), IS)
    t("WizardInterpreterState.variables", IS.variables.fget, s_variables, [IS], ("C01", "C02"))
    t("WizardInterpreterState.set", IS.set, s_set, [IS, "str", Value], ("C01", "C02"))
    t("WizardInterpreterState.copy", IS.copy, s_copy, [xi], ("C01",))
    t("WizardRunnerState.__init__", W.__init__, s_runner_init, [], ("C01", "C17", "C18"), W)
    t("WizardRunnerState.copy", W.copy, s_runner_copy, [xw], ("C01",))
    for n, sp, ps in (("subpackages", s_subpackages, ("C17",)), ("plugins", s_plugins, ("C17",)),
                      ("renames", s_renames, ("C18",)), ("tweaks", s_tweaks, ("C18",)), ("notes", s_notes, ("C18",))):
        t(f"WizardRunnerState.{n}", W.__dict__[n].fget, sp, [W], ps)

    P = ("C18",)
    t("WizardINISetting.__init__", WizardINISetting.__init__, s_setting, ["str"] * 3, P, WizardINISetting)
    t("WizardINISettingEdit.__init__", WizardINISettingEdit.__init__, s_edit, ["str"] * 3 + ["any"] * 2, P,
      WizardINISettingEdit)
    for n, sp in (("filename", s_filename), ("section", s_section), ("setting", s_settingname)):
        t(f"WizardINISetting.{n}", WizardINISetting.__dict__[n].fget, sp, [WizardINISetting], P)
    t("WizardINISettingEdit.value", WizardINISettingEdit.value.fget, s_value, [WizardINISettingEdit], P)
    t("WizardINISettingEdit.comment", WizardINISettingEdit.comment.fget, s_comment, [WizardINISettingEdit], P)
    N = WizardINITweaks
    t("WizardINITweaks.__init__", N.__init__, s_tweaks_init, [], P, N)
    t("WizardINITweaks.disabled", N.disabled.fget, s_disabled, [N], P)
    t("WizardINITweaks.modified", N.modified.fget, s_modified, [N], P)
    t("WizardINITweaks.files", N.files, s_files, [N], P)
    t("WizardINITweaks.tweaks", N.tweaks, s_tweaks_of, [N, "str"], P)
    t("WizardINITweaks.__bool__", N.__bool__, s_tweaks_bool, [N], P)
    E = WizardRunnerExpressionVisitor
    t("visitDisableINILine", E.visitDisableINILine, s_disable, [E, IS, "str", "str", "str"], P)
    t("visitEditINI", E.visitEditINI, s_edit_ini, [E, IS, "str", "str", "str", "any", "any"], P)
    t("visitEditINI (no comment)", E.visitEditINI, s_edit_ini, [E, IS, "str", "str", "str", "any"], P)

    V, C = WizardRunnerKeywordVisitor, WizardKeywordContext
    t("WizardRunnerKeywordVisitor.__init__", V.__init__, s_visitor_init, [SubPackages, SeverityContext], ("C17",), V)
    t("WizardRunnerKeywordVisitor.subpackages", V.subpackages.fget, s_visitor_subpackages, [V], ("C17",))
    t("WizardRunnerKeywordVisitor.plugins", V.plugins.fget, s_visitor_plugins, [V], ("C17",))
    t("WizardRunnerKeywordVisitor.plugins_for", V.plugins_for, s_plugins_for, [V, SubPackage], ("C17",))
    both = ("C17",)
    for n, sp, hs, ps in (
        ("DeSelectAll", s_deselect_all, [], both), ("DeSelectAllPlugins", s_deselect_all_plugins, [], both),
        ("DeSelectPlugin", s_deselect_plugin, ["str"], both), ("DeSelectSubPackage", s_deselect_subpackage, ["str"], both),
        ("SelectAll", s_select_all, [], both), ("SelectAllPlugins", s_select_all_plugins, [], both),
        ("SelectPlugin", s_select_plugin, ["str"], both), ("SelectSubPackage", s_select_subpackage, ["str"], both),
        ("Note", s_note, ["str"], P), ("RenamePlugin", s_rename, ["str", "str"], P),
        ("ResetAllPluginNames", s_reset_all, [], P), ("ResetPluginName", s_reset, ["str"], P),
    ):
        t(f"visit{n}", V.__dict__["visit" + n], sp, [V, C, W] + hs, ps)
    return out
