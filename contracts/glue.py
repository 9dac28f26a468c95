"""Contracts of the parts that put the others together: the error strategy and the
parser set-up (C23), menu options (C06), the defaults of the user interface (C09),
context factories (C14), types of values (C10)."""
import pathlib

import chardet
import z3
from antlr4 import CommonTokenStream, InputStream, ParserRuleContext
from antlr4.BufferedTokenStream import BufferedTokenStream
from antlr4.IntervalSet import IntervalSet
from antlr4.Recognizer import Recognizer
from antlr4.Parser import Parser
from antlr4.Token import Token
from antlr4.error.Errors import RecognitionException
from antlr4.error.ErrorListener import ConsoleErrorListener
from antlr4.error.ErrorStrategy import DefaultErrorStrategy

from contracts import contexts, errors, tree
from contracts.tree import bound, opaque_call, set_world
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj, CDict, PyRaise
from engine.terms import Val, World, BoolS, uf
from engine.verify import Target

from wizard import manager as M
from wizard import scriptrunner as SR
from wizard import utils as WU
from wizard import value as V
from wizard.antlr4.wizardLexer import wizardLexer as L
from wizard.antlr4.wizardParser import wizardParser as P
from wizard.contexts.contexts import WizardInterpreterContext
from wizard.contexts.factory import WizardInterpreterContextFactory
from wizard.contexts.utils import wrap_exceptions
from wizard.expr import WizardExpressionVisitor
from wizard.functions import make_basic_functions, make_manager_functions
from wizard.keywords import WizardKeywordVisitor
from wizard.manager import ManagerModInterface, ManagerUserInterface, SelectOption
from wizard.runner import WizardRunnerExpressionVisitor, WizardRunnerKeywordVisitor
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerKeywordFactory
from wizard.severity import Severity, SeverityContext
from wizard.utils import error_strategy as ES
from wizard.utils.error_strategy import WizardErrorStrategy
from wizard.value import SubPackage, SubPackages, VariableType, Void

# -- C23: where parsing resumes ------------------------------------------------


def closing(ctx, broken):
    """the tokens that close or continue a construct"""
    if isinstance(ctx, P.IfStmtContext):
        return (L.EndIf,) if broken else (L.Elif, L.Else, L.EndIf)
    if isinstance(ctx, P.ElifStmtContext):
        return (L.Elif, L.Else, L.EndIf)
    if isinstance(ctx, P.ElseStmtContext):
        return (L.EndIf,)
    if isinstance(ctx, P.ForStmtContext):
        return (L.EndFor,)
    if isinstance(ctx, P.WhileStmtContext):
        return (L.EndWhile,)
    if isinstance(ctx, (P.CaseStmtContext, P.DefaultStmtContext)):
        return (L.Break,)
    if isinstance(ctx, P.SelectStmtContext):
        return (L.EndSelect,)
    return ()


def s_recovery_set(self, recognizer):
    out = IntervalSet()
    ctx = recognizer._ctx
    while ctx is not None and ctx.invokingState >= 0:
        for tok in closing(ctx, ctx is recognizer._ctx):
            out.addOne(tok)
        ctx = ctx.parentCtx
    out.removeOne(Token.EPSILON)
    return out


def s_end(ctx):
    """the token that ends a construct and belongs to it"""
    if isinstance(ctx, P.IfStmtContext):
        return L.EndIf
    if isinstance(ctx, P.ForStmtContext):
        return L.EndFor
    if isinstance(ctx, P.SelectStmtContext):
        return L.EndSelect
    if isinstance(ctx, P.WhileStmtContext):
        return L.EndWhile
    return None


def s_recover(self, recognizer, e):
    recognizer._ctx.exception = e
    stop = self.getControlRecoverySet(recognizer)
    index, state = recognizer._input.index, recognizer._stateNumber
    if stop.intervals:
        self.consumeUntil(recognizer, stop)
    if recognizer._stateNumber == state and recognizer._input.index == index:
        DefaultErrorStrategy.recover(self, recognizer, e)
    else:
        end = s_end(recognizer._ctx)
        if end is not None and recognizer._input.LA(1) == end:
            recognizer.consume()
    return recognizer._input.LT(1)


# a set of tokens
def i_init(self):
    self.intervals = set()


def i_add(self, v):
    self.intervals.add(v)


def i_remove(self, v):
    self.intervals.discard(v)


def moves(name, nargs):
    """a step of the parser: deterministic, moves the input and the state of the parser"""
    def h(I, args, kwargs):
        args = I.flat(args)
        rec = next(a for a in args if I.isinstance_(a, Recognizer) is True)
        key = [I.enc(a) for a in args if a is not rec and I.isinstance_(a, DefaultErrorStrategy) is not True]
        inp = I.getattr(rec, "_input")
        ts = [I.enc(rec)] + key + [I.enc(I.getattr(inp, "index")), I.enc(I.getattr(rec, "_stateNumber")), I.r.world]
        sorts = [t.sort() for t in ts]
        if I.p.branch(uf(name + "_x", *sorts, BoolS)(*ts)):
            raise PyRaise(I.mk(uf(name + "_e", *sorts, Val)(*ts), BaseException))
        I.setattr(inp, "index", I.mk(uf(name + "_i", *sorts, Val)(*ts), "int"))
        I.setattr(rec, "_stateNumber", I.mk(uf(name + "_s", *sorts, Val)(*ts), "int"))
        set_world(I, uf(name + "_w", *sorts, World)(*ts))
    return h


def h_until(I, args, kwargs):
    a = bound(DefaultErrorStrategy.consumeUntil, args, kwargs)
    st = I.getattr(a["set_"], "intervals")
    key = uf("set_key", Val, Val)(I.enc(st)) if not isinstance(st, Obj) else set_term(I, st)
    rec = a["recognizer"]
    inp = I.getattr(rec, "_input")
    ts = [I.enc(rec), key, I.enc(I.getattr(inp, "index")), I.enc(I.getattr(rec, "_stateNumber")), I.r.world]
    sorts = [t.sort() for t in ts]
    I.setattr(inp, "index", I.mk(uf("until_i", *sorts, Val)(*ts), "int"))
    I.setattr(rec, "_stateNumber", I.mk(uf("until_s", *sorts, Val)(*ts), "int"))
    set_world(I, uf("until_w", *sorts, World)(*ts))


def set_term(I, st):
    raise Unsupported("a set of tokens as an argument")


def looks(name, ret):
    """reads the input at its position"""
    def h(I, args, kwargs):
        s, k = I.flat(args)
        ts = [I.enc(s), I.enc(k), I.enc(I.getattr(s, "index")), I.r.world]
        return I.mk(uf(name, *[t.sort() for t in ts], Val)(*ts), ret)
    return h


def h_recovery_set(I, args, kwargs):
    a = bound(WizardErrorStrategy.getControlRecoverySet, args, kwargs)
    o = I.new(IntervalSet)
    t = uf("recovery_set", Val, World, Val)(I.enc(a["recognizer"]), I.r.world)
    o.attrs["intervals"] = I.mk(t, ("seq", "int"))
    return o


# -- C23: how a text is parsed ---------------------------------------------------


def s_parse(script, wrap_excs=True):
    """parsed from the given text with the recovering error strategy, silently"""
    def parse():
        if isinstance(script, InputStream):
            stream = script
        elif isinstance(script, str):
            stream = InputStream(script)
        else:
            # a file, or the path of one
            text = script.read_bytes() if isinstance(script, pathlib.Path) else script.read()
            if isinstance(text, bytes):
                text = text.decode(chardet.detect(text)["encoding"] or "utf-8")
            stream = InputStream(text)
        lexer = L(stream)
        lexer._listeners = []
        parser = P(CommonTokenStream(lexer))
        parser._listeners = []
        parser._errHandler = WizardErrorStrategy()
        return parser.parseWizard
    rule = parse()
    return wrap_exceptions(rule) if wrap_excs else rule()


class OpenFile:
    """what open() gives"""

    stand_in = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None

    def read(self): ...


class SomeFile:
    """a text or binary file object"""

    stand_in = True

    def read(self): ...


def opened(I, path, mode, options):
    """(deterministic; may fail)"""
    if not isinstance(mode, str) or mode not in ("r", "rt", "rb", "br"):
        raise Unsupported("a file opened for writing")
    if options:
        raise Unsupported("options of open()")
    ts = [I.enc(path), I.r.world]
    if I.p.branch(uf("cannot_open", Val, World, BoolS)(*ts)):
        raise PyRaise(I.mk(uf("open_error", Val, World, Val)(*ts), OSError))
    o = I.new(OpenFile)
    o.attrs["path"] = path
    o.attrs["kind"] = "bytes" if "b" in mode else "text"
    return o


def h_open(I, args, kwargs):
    a = I.flat(args)
    k = dict(kwargs)
    path = a[0] if a else k.pop("file")
    mode = a[1] if len(a) > 1 else k.pop("mode", "r")
    return opened(I, path, mode, a[2:] or k)


def h_open_read(I, args, kwargs):
    a = I.flat(args)
    f = a[0]
    if len(a) > 1 or "read_before" in f.attrs:
        raise Unsupported("reading a part of a file")
    f.attrs["read_before"] = True
    kind = I.getattr(f, "kind")
    t = uf("file_" + kind, Val, World, Val)(I.enc(I.getattr(f, "path")), I.r.world)
    return I.mk(t, bytes if kind == "bytes" else "str")


def h_read_bytes(kind):
    def h(I, args, kwargs):
        a = I.flat(args)
        return h_open_read(I, [opened(I, a[0], kind, a[1:] or kwargs)], {})
    return h


def h_some_read(I, args, kwargs):
    a = I.flat(args)
    return opaque_call(I, "file_read", a, None, ("or", bytes, "str"), BaseException)


def h_detect(I, args, kwargs):
    (data,) = I.flat(args)
    o = I.new(dict)
    ts = [I.mk(uf("detected_" + k, Val, Val)(I.enc(data)), h) for k, h in (
        ("encoding", ("or", "none", "str")), ("confidence", "float"), ("language", ("or", "none", "str")))]
    o.items = CDict(list(zip(("encoding", "confidence", "language"), ts)))
    return o


def h_decode(I, args, kwargs):
    a = I.flat(args)
    a += [kwargs[k] for k in ("encoding", "errors") if k in kwargs]
    if len(a) == 1:
        a.append("utf-8")
    for x in a[1:]:
        if not I.p.branch(I.is_kind(x, "str")):
            raise I.exc(TypeError, "decode() argument 'encoding' must be str")
    return opaque_call(I, "decode", a, None, "str", Exception, pure=True)


def p_stream_init(self, data):
    self.text = data


def p_lexer_init(self, input, output=None):
    self._input = input
    self._listeners = [ConsoleErrorListener.INSTANCE]


def p_tokens_init(self, lexer, channel=0):
    self.tokenSource = lexer


def p_parser_init(self, input, output=None):
    self._input = input
    self._listeners = [ConsoleErrorListener.INSTANCE]
    self._errHandler = DefaultErrorStrategy()


def p_parser_strategy_init(self):
    pass


def s_remove_listener(self, listener):
    self._listeners.remove(listener)


def s_remove_listeners(self):
    self._listeners = []


def h_parse_wizard(I, args, kwargs):
    (parser,) = I.flat(args)
    lexer = I.getattr(I.getattr(parser, "_input"), "tokenSource")
    stream = I.getattr(lexer, "_input")
    h = I.getattr(parser, "_errHandler")
    src = I.getattr(stream, "text")
    own = isinstance(stream, Obj)
    n = [I.call(len, [I.getattr(x, "_listeners")], {}) for x in (lexer, parser)]
    if not isinstance(h, Obj):
        raise Unsupported("parser with another error strategy")
    return opaque_call(I, "parseWizard" + ("" if own else "S"), [src if own else stream, h.cls] + n,
                       None, P.ParseWizardContext, BaseException)


# -- C06: options ----------------------------------------------------------------


def s_option(self, name, desc, image=None):
    self._name, self._desc, self._image = name, desc, image


def s_opt_name(self):
    return self._name


def s_opt_desc(self):
    return self._desc


def s_opt_image(self):
    return self._image


def s_opt_eq(self, other):
    return (isinstance(other, SelectOption) and self._name == other._name and self._desc == other._desc
            and self._image == other._image)


# -- C09: defaults of the user interface -----------------------------------------


def s_true(self):
    return True


def s_error(self, exc):
    raise exc


# -- C10 / C14: types -------------------------------------------------------------


def s_from_pytype(pytype):
    if pytype is Void:
        return VariableType.VOID
    if issubclass(pytype, SubPackages):
        return VariableType.LIST_SUBPACKAGES
    if issubclass(pytype, SubPackage):
        return VariableType.SUBPACKAGE
    if pytype is bool:
        return VariableType.BOOL
    if pytype is int:
        return VariableType.INTEGER
    if pytype is float:
        return VariableType.FLOAT
    if pytype is str:
        return VariableType.STRING
    raise ValueError(pytype)


# -- C14: which functions and packages the expressions of a context see --------------


class FunctionTable:
    """a table of functions made of parts, later ones over earlier ones"""

    stand_in = True

    def update(self, other):
        self.parts = (self.parts, other.parts)


def table(parts):
    t = FunctionTable()
    t.parts = parts
    return t


def s_evisitor(self, subpackages, functions, severity):
    self._subpackages, self._functions, self._severity = subpackages, functions, severity


def s_kvisitor(self, severity):
    self._severity = severity


def s_rkvisitor(self, subpackages, severity):
    self._subpackages, self._severity = subpackages, severity


def s_skvisitor(self, manager, subpackages, severity):
    self._manager, self._subpackages, self._severity = manager, subpackages, severity


def s_factory_init(self, evisitor, kvisitor, severity):
    self._evisitor, self._kvisitor, self._severity = evisitor, kvisitor, severity


def s_basic_factory(subpackages, severity):
    return WizardInterpreterContextFactory(
        WizardExpressionVisitor(subpackages, make_basic_functions(), severity), WizardKeywordVisitor(severity), severity)


def s_runner_factory(subpackages, manager, severity):
    f = make_basic_functions()
    f.update(make_manager_functions(manager, severity))
    return WizardInterpreterContextFactory(
        WizardRunnerExpressionVisitor(subpackages, f, severity), WizardRunnerKeywordVisitor(subpackages, severity),
        severity)


def s_script_runner(self, subpackages=None):
    """the runner is its own manager, user interface and severity context"""
    packs = subpackages if subpackages else SubPackages()
    f = make_basic_functions()
    f.update(make_manager_functions(self, self))
    self._default_severity = Severity.WARNING
    self._context = {}
    self._factory = WizardInterpreterContextFactory(
        WizardRunnerExpressionVisitor(packs, f, self), WizardScriptRunnerKeywordFactory(self, packs, self), self)


def s_basic_functions():
    return table("basic")


def s_manager_functions(manager, severity):
    return table(("manager", manager, severity))


def install(m):
    contexts.install(m)
    tree.install(m)
    errors.install(m)
    m.opaque.pop(WU.make_parse_wizard_context, None)
    m.contracts[wrap_exceptions] = errors.s_wrap
    m.fields[(ParserRuleContext, "parentCtx")] = ("or", "none", ParserRuleContext)
    m.fields[(ParserRuleContext, "invokingState")] = "int"
    m.fields[(P, "_ctx")] = ParserRuleContext
    m.fields[(P, "_input")] = CommonTokenStream
    m.fields[(P, "_stateNumber")] = "int"
    m.fields[(CommonTokenStream, "index")] = "int"
    m.fields[(IntervalSet, "intervals")] = ("set", "int")
    m.contracts[IntervalSet.__init__] = i_init
    m.contracts[IntervalSet.addOne] = i_add
    m.contracts[IntervalSet.removeOne] = i_remove
    m.opaque[DefaultErrorStrategy.consumeUntil] = h_until
    m.opaque[DefaultErrorStrategy.recover] = moves("default_recover", 3)
    m.opaque[Parser.consume] = moves("consume", 1)
    for c in (BufferedTokenStream, CommonTokenStream):
        for n, ret in (("LA", "int"), ("LT", Token)):
            if n in c.__dict__:
                m.opaque[c.__dict__[n]] = looks(n, ret)
    # parsing
    m.contracts[InputStream.__init__] = p_stream_init
    m.contracts[L.__init__] = p_lexer_init
    m.contracts[CommonTokenStream.__init__] = p_tokens_init
    m.contracts[P.__init__] = p_parser_init
    m.contracts[DefaultErrorStrategy.__init__] = p_parser_strategy_init
    m.contracts[Recognizer.removeErrorListener] = s_remove_listener
    m.contracts[Recognizer.removeErrorListeners] = s_remove_listeners
    m.opaque[P.parseWizard] = h_parse_wizard
    # files
    m.opaque[OpenFile.read] = h_open_read
    m.opaque[SomeFile.read] = h_some_read
    m.prims[open] = h_open
    m.opaque[pathlib.Path.open] = h_open
    m.opaque[pathlib.Path.read_bytes] = h_read_bytes("rb")
    m.opaque[pathlib.Path.read_text] = h_read_bytes("r")
    m.opaque[chardet.detect] = h_detect
    m.prims[bytes.decode] = h_decode
    m.fields[(InputStream, "text")] = "str"
    # options
    m.fields[(SelectOption, "_name")] = "str"
    m.fields[(SelectOption, "_desc")] = "str"
    m.fields[(SelectOption, "_image")] = ("or", "none", "str")
    # factories
    m.contracts[make_basic_functions] = s_basic_functions
    m.contracts[make_manager_functions] = s_manager_functions


def targets():
    def t(name, fn, spec, hints, props, new=None, budget=60):
        def args(I):
            return ([I.new(new)] if new else []) + [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

        return Target(name, fn, spec, args, props, budget=budget)

    O, U, W = SelectOption, ManagerUserInterface, WizardErrorStrategy
    img = ("or", "none", "str")
    sub = ("or", "none", SubPackages)
    fac = WizardInterpreterContextFactory
    types = ("py", Void, SubPackages, SubPackage, bool, int, float, str, object, list)
    return [
        t("error strategy: recovery set", W.getControlRecoverySet, s_recovery_set, [W, P], ("C23",)),
        t("make_parse_wizard_context", WU.make_parse_wizard_context, s_parse, 
          [("or", "str", InputStream, pathlib.Path, SomeFile), "bool"], ("C22", "C23", "C26")),
        t("SelectOption.__init__", O.__init__, s_option, ["str", "str", img], ("C06",), O),
        t("SelectOption.name", O.name.fget, s_opt_name, [O], ("C06",)),
        t("SelectOption.description", O.description.fget, s_opt_desc, [O], ("C06",)),
        t("SelectOption.image", O.image.fget, s_opt_image, [O], ("C06",)),
        t("SelectOption.__eq__", O.__eq__, s_opt_eq, [O, "any"], ("C06",)),
        t("ManagerUserInterface.cancel", U.cancel, s_true, [U], ("C09",)),
        t("ManagerUserInterface.complete", U.complete, s_true, [U], ("C09",)),
        t("ManagerUserInterface.error", U.error, s_error, [U, Exception], ("C09",)),
        t("VariableType.from_pytype", VariableType.from_pytype, s_from_pytype, [types], ("C10", "C14")),
        t("WizardExpressionVisitor.__init__", WizardExpressionVisitor.__init__, s_evisitor,
          [SubPackages, "any", SeverityContext], ("C14", "C24"), WizardExpressionVisitor),
        t("factory.__init__", fac.__init__, s_factory_init,
          [WizardExpressionVisitor, WizardKeywordVisitor, SeverityContext], ("C14", "C21"), fac),
        t("make_basic_context_factory", WU.make_basic_context_factory, s_basic_factory,
          [SubPackages, SeverityContext], ("C14", "C24")),
        t("make_runner_context_factory", WU.make_runner_context_factory, s_runner_factory,
          [SubPackages, ManagerModInterface, SeverityContext], ("C14", "C17")),
        t("WizardScriptRunner.__init__", WizardScriptRunner.__init__, s_script_runner, [sub], ("C09", "C14", "C17"),
          WizardScriptRunner),
    ]


def targets_recover():
    W = WizardErrorStrategy

    def args(I):
        return [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate([W, P, RecognitionException])]

    return [Target("error strategy: recover", W.recover, s_recover, args, ("C23",), budget=60)]
