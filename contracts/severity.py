"""Contracts of wizard.severity (C21)."""
from contracts.tree import bound, opaque_call
from engine import terms as T
from engine.terms import Val
from engine.verify import Target

from wizard.severity import Issue, Severity, SeverityContext


def s_init(self):
    self._default_severity = Severity.WARNING
    self._context = {}


def s_set_default(self, severity):
    self._default_severity = severity


def s_set(self, issue, severity):
    self._context[issue] = severity


def s_raise_or_warn(self, issue, exc, warn):
    if issue in self._context:
        severity = self._context[issue]
    else:
        severity = self._default_severity
    if severity is Severity.ERROR:
        raise exc
    if severity is Severity.WARNING:
        self.warning(warn)


# -- the property itself, as lemmas about any sequence of two settings ---------


def l_own_setting(self, issue, severity, default, exc, warn):
    """the own setting of an issue decides, whatever the default is and becomes"""
    self.set_severity(issue, severity)
    self.set_default_severity(default)
    self.raise_or_warn(issue, exc, warn)


def l_own_setting_spec(self, issue, severity, default, exc, warn):
    self._context[issue] = severity
    self._default_severity = default
    if severity is Severity.ERROR:
        raise exc
    if severity is Severity.WARNING:
        self.warning(warn)


def l_other_issue(self, issue, severity, other, exc, warn):
    """a setting does not affect another issue"""
    self.set_severity(issue, severity)
    if other is not issue:
        self.raise_or_warn(other, exc, warn)


def l_other_issue_spec(self, issue, severity, other, exc, warn):
    if other is issue:
        self._context[issue] = severity
        return
    if other in self._context:
        s = self._context[other]
    else:
        s = self._default_severity
    self._context[issue] = severity
    if s is Severity.ERROR:
        raise exc
    if s is Severity.WARNING:
        self.warning(warn)


def l_fresh(issue, exc, warn):
    """a new context warns about everything"""
    c = SeverityContext()
    c.raise_or_warn(issue, exc, warn)
    return c


def l_fresh_spec(issue, exc, warn):
    c = SeverityContext()
    c.warning(warn)
    return c


def l_two_contexts(a, b, issue, severity, default, exc, warn):
    """a setting does not affect another context"""
    a = SeverityContext()
    a.set_severity(issue, severity)
    a.set_default_severity(default)
    b.raise_or_warn(issue, exc, warn)


def l_two_contexts_spec(a, b, issue, severity, default, exc, warn):
    if issue in b._context:
        s = b._context[issue]
    else:
        s = b._default_severity
    if s is Severity.ERROR:
        raise exc
    if s is Severity.WARNING:
        b.warning(warn)


def warning(I, args, kwargs):
    a = bound(SeverityContext.warning, args, kwargs)
    s = a["self"]
    t = [] if not hasattr(s, "t") else [s]
    opaque_call(I, "warning", t + [a["text"]])


def install(m):
    m.fields[(SeverityContext, "_default_severity")] = ("py",) + tuple(Severity)
    m.fields[(SeverityContext, "_context")] = ("dict", ("py",) + tuple(Issue), ("py",) + tuple(Severity))
    m.opaque[SeverityContext.warning] = warning


def targets():
    C, P = SeverityContext, ("C21",)
    sev, iss = ("py",) + tuple(Severity), ("py",) + tuple(Issue)

    def t(name, fn, spec, hints, new=None, props=P):
        def args(I):
            return ([I.new(new)] if new else []) + [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

        return Target(name, fn, spec, args, props, budget=60)

    return [
        t("SeverityContext.__init__", C.__init__, s_init, [], C),
        t("SeverityContext.set_default_severity", C.set_default_severity, s_set_default, [C, sev]),
        t("SeverityContext.set_severity", C.set_severity, s_set, [C, iss, sev]),
        t("SeverityContext.raise_or_warn", C.raise_or_warn, s_raise_or_warn, [C, iss, Exception, "str"]),
        t("lemma: own setting", l_own_setting, l_own_setting_spec, [C, iss, sev, sev, Exception, "str"]),
        t("lemma: other issues", l_other_issue, l_other_issue_spec, [C, iss, sev, iss, Exception, "str"]),
        t("lemma: new context", l_fresh, l_fresh_spec, [iss, Exception, "str"]),
        t("lemma: other contexts", l_two_contexts, l_two_contexts_spec, [C, C, iss, sev, sev, Exception, "str"]),
    ]
