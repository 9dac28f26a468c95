"""Contracts of wizard.errors and wizard.contexts.utils (C13)."""
from antlr4 import ParserRuleContext, Token
from antlr4.error.Errors import InputMismatchException, ParseCancellationException

from contracts import tree
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj
from engine.terms import Val
from engine.verify import Target

from wizard import errors as E
from wizard.contexts import utils as U
from wizard.errors import WizardError, WizardIndexError, WizardParseError, WizardTypeError


def s_wrap(fn, context=None):
    try:
        return fn()
    except BaseException as ex:
        if isinstance(ex, WizardError):
            raise
        if isinstance(ex, ParseCancellationException):
            if context is None and isinstance(ex.args[0], InputMismatchException):
                context = ex.args[0].ctx
            raise WizardParseError(context, ex)
        if isinstance(ex, TypeError):
            raise WizardTypeError(context, ex)
        if isinstance(ex, IndexError):
            raise WizardIndexError(context, *ex.args)
        raise


def s_error(self, context, *args):
    self._ctx = context
    self.args = args


def s_context(self):
    return self._ctx


def s_line(self):
    return self._ctx.start.line if self._ctx else -1


def s_column(self):
    return self._ctx.start.column if self._ctx else -1


def s_index_error(self, context, index):
    self._ctx = context
    self._index = index


def s_name_error(self, context, name):
    self._ctx = context
    self._name = name


def s_unsupported(self, context, operation):
    self._ctx = context


def s_index(self):
    return self._index


def s_name(self):
    return self._name


CTX = ("or", "none", ParserRuleContext)


def install(m):
    m.fields[(BaseException, "args")] = ("seq", "any")
    m.fields[(BaseException, "ctx")] = "any"
    m.fields[(WizardError, "_ctx")] = CTX
    m.fields[(WizardIndexError, "_index")] = "any"
    for c in (E.WizardNameError, E.WizardMissingPackageError, E.WizardMissingPluginError):
        m.fields[(c, "_name")] = "str"
    m.fields[(ParserRuleContext, "start")] = Token
    m.fields[(Token, "line")] = "int"
    m.fields[(Token, "column")] = "int"
    m.prims["$unknown"] = tree.call_unknown
    m.contracts[U.wrap_exceptions] = s_wrap


def targets():
    k = lambda I, n, h: I.mk(T.const(n, Val), h)
    out = [
        Target("wrap_exceptions", U.wrap_exceptions, s_wrap,
               lambda I: [k(I, "fn", "any"), k(I, "context", CTX)], ("C13", "C23")),
        Target("wrap_exceptions (no context)", U.wrap_exceptions, s_wrap,
               lambda I: [k(I, "fn", "any")], ("C13", "C23")),
    ]

    def init(name, cls, spec, hints):
        def args(I):
            return [I.new(cls)] + [k(I, f"a{i}", h) for i, h in enumerate(hints)]

        out.append(Target(name, cls.__init__, spec, args, ("C13",)))

    init("WizardError.__init__", E.WizardError, s_error, [CTX, "any"])
    init("WizardParseError.__init__", E.WizardParseError, s_error, [CTX, "any"])
    init("WizardTypeError.__init__", E.WizardTypeError, s_error, [CTX, "any"])
    init("WizardIndexError.__init__", E.WizardIndexError, s_index_error, [CTX, "int"])
    init("WizardNameError.__init__", E.WizardNameError, s_name_error, [CTX, "str"])
    init("WizardUnsupportedOperation.__init__", E.WizardUnsupportedOperation, s_unsupported, [CTX, "str"])
    init("WizardMissingPackageError.__init__", E.WizardMissingPackageError, s_name_error, [CTX, "str"])
    init("WizardMissingPluginError.__init__", E.WizardMissingPluginError, s_name_error, [CTX, "str"])
    for cls, n, spec in (
        (E.WizardError, "context", s_context), (E.WizardError, "line", s_line),
        (E.WizardError, "column", s_column), (E.WizardIndexError, "index", s_index),
        (E.WizardNameError, "name", s_name),
        (E.WizardMissingPackageError, "subpackage", s_name),
        (E.WizardMissingPluginError, "subpackage", s_name),
    ):
        out.append(Target(f"{cls.__name__}.{n}", cls.__dict__[n].fget, spec,
                          lambda I, cls=cls: [k(I, "self", cls)], ("C13",)))
    return out
