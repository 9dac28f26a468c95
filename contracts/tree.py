"""Assumed contracts: the parse tree (ANTLR runtime), and the abstract contracts
used at calls of functions verified elsewhere (state, expression visitor, ...)."""
import inspect

import antlr4
import z3
from antlr4 import ParserRuleContext
from antlr4.tree.Tree import ParseTree, TerminalNode, TerminalNodeImpl
from antlr4.RuleContext import RuleContext

from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj, Seq
from engine.execu import Star
from engine.terms import Val, VL, View, World, StrS, IntS, BoolS, uf

from wizard.antlr4.wizardParser import wizardParser
from wizard.errors import WizardTypeError
from wizard.expr import WizardExpressionVisitor
from wizard.severity import SeverityContext
from wizard.state import WizardInterpreterState
from wizard.value import Value, Void, SubPackage, SubPackages


class NodeList:
    """hint only: list of parse tree nodes"""


def argterm(I, a):
    if isinstance(a, Obj) and "$view" in a.attrs:
        return Val.VViewB(a.attrs["$view"])
    if isinstance(a, Obj) and isinstance(a.items, (CDict, DictC)):
        d = I.to_sym(a.items)
        return Val.VSeqB(uf("boxdict", T.ArrV, T.SeqV, T.SqB)(d.arr, d.keys))
    return I.enc(a)


def set_world(I, w):
    I.log_write(("world",))
    I.r.world = w


def opaque_call(I, name, args, state=None, ret="none", raises=Exception, pure=False):
    """the effect of an unknown (but deterministic) function"""
    if any(isinstance(a, Star) for a in args):
        parts = []
        for a in args:
            if isinstance(a, Star):
                parts.extend(a.parts)
            else:
                parts.append(("e", a))
        ts = [Val.VSeqB(uf("boxseq", T.SeqV, T.SqB)(I.seqterm(parts)))]
    else:
        ts = [argterm(I, a) for a in args]
    if state is not None:
        ts.append(I.getattr(state, "$view"))
    if not pure:
        ts.append(I.r.world)
    sorts = [t.sort() for t in ts]
    n = f"{name}/{len(ts)}"
    if not pure:
        set_world(I, uf(n + "_w", *sorts, World)(*ts))
    if state is not None:
        I.setattr(state, "$view", uf(n + "_v", *sorts, View)(*ts))
    if raises is not None and I.p.branch(uf(n + "_x", *sorts, BoolS)(*ts)):
        raise PyRaise(I.mk(uf(n + "_e", *sorts, Val)(*ts), raises))
    if ret == "none":
        return None
    return I.mk(uf(n + "_r", *sorts, Val)(*ts), ret)


def bound(f, args, kwargs):
    """arguments by name"""
    b = inspect.signature(f).bind(*args, **kwargs)
    b.apply_defaults()
    return b.arguments


def call_unknown(I, args, kwargs):
    """a function value: deterministic, may change the state it is given, the
    outside world, and may raise anything"""
    if kwargs:
        raise Unsupported("keyword arguments of an unknown function")
    state = None
    for a in args[1:]:
        if isinstance(a, Obj) and "$view" in a.attrs or isinstance(a, S) and (
            isinstance(a.h, type) and issubclass(a.h, WizardInterpreterState)
        ):
            state = a
    rest = [a for a in args if a is not state]
    return opaque_call(I, "call", rest, state, "any", BaseException)


# ---------------------------------------------------------------------------
# parse tree


def get_rule(I, args, kwargs):
    ctx, cls, i = I.flat(args)
    lst = uf("rules", Val, Val, Val)(I.enc(ctx), I.enc(cls))
    seq = uf("content", Val, T.SeqV)(lst)
    i = I.intt(i)
    t = z3.simplify(z3.If(z3.And(i >= 0, i < z3.Length(seq)), seq[i], Val.VNone))
    return I.mk(t, ("or", "none", cls))


# expressions the grammar gives exactly two operands
W = wizardParser
TWO = (W.OrContext, W.AndContext, W.InContext, W.TimesDivideModuloContext, W.ExponentiationContext,
       W.PlusMinusContext, W.LesserContext, W.GreaterContext, W.EqualContext, W.IndexContext)


def get_rules(I, args, kwargs):
    ctx, cls = I.flat(args)
    h = ctx.h if isinstance(ctx, S) else None
    if isinstance(h, tuple) and h[0] == "exact":
        h = h[1]
    if cls is wizardParser.ExprContext and isinstance(h, type) and issubclass(h, TWO):
        seq = uf("content", Val, T.SeqV)(uf("rules", Val, Val, Val)(I.enc(ctx), I.enc(cls)))
        I.p.add(z3.Length(seq) == 2)
        return I.newlist([("e", I.mk(seq[i], cls)) for i in range(2)])
    return I.mk(uf("rules", Val, Val, Val)(I.enc(ctx), I.enc(cls)), ("list", cls))


def get_token(I, args, kwargs):
    ctx, tt, i = I.flat(args)
    t = uf("token", Val, Val, Val, Val)(I.enc(ctx), I.enc(tt), I.enc(i))
    return I.mk(t, ("or", "none", TerminalNodeImpl))


def get_tokens(I, args, kwargs):
    ctx, tt = I.flat(args)
    return I.mk(uf("tokens", Val, Val, Val)(I.enc(ctx), I.enc(tt)), ("list", TerminalNodeImpl))


def get_text(I, args, kwargs):
    return I.mkstr(uf("text", Val, StrS)(I.enc(I.flat(args)[0])))


# ---------------------------------------------------------------------------
# state


class VarsView:
    """what state.variables shows (now, not when it was read)"""

    stand_in = True

    def __contains__(self, name):
        return view_has(self, name)

    def __getitem__(self, name):
        if not view_has(self, name):
            raise KeyError(name)
        return view_get(self, name)

    def get(self, name, default=None):
        if view_has(self, name):
            return view_get(self, name)
        return default

    def __len__(self):
        return view_len(self)

    def __setitem__(self, name, value):
        view_set(self, name, value)


def view_has(v, name):
    raise NotImplementedError


def view_get(v, name):
    raise NotImplementedError


def view_len(v):
    raise NotImplementedError


def view_set(v, name, value):
    raise NotImplementedError


def vset(view, n, x):
    return uf("view_set", View, Val, Val, View)(view, n, x)


def is_vset(view):
    return z3.is_app(view) and view.decl().name() == "view_set"


def vhas(view, n):
    if is_vset(view):
        return z3.Or(view.arg(1) == n, vhas(view.arg(0), n))
    return uf("view_has", View, Val, BoolS)(view, n)


def vget(view, n):
    if is_vset(view):
        return z3.If(view.arg(1) == n, view.arg(2), vget(view.arg(0), n))
    return uf("view_get", View, Val, Val)(view, n)


def vlen(view):
    if is_vset(view):
        return vlen(view.arg(0)) + z3.If(vhas(view.arg(0), view.arg(1)), 0, 1)
    return uf("view_len", View, IntS)(view)


def view_of(I, v):
    return I.getattr(I.getattr(v, "$state"), "$view")


def p_has(I, args, kwargs):
    view, n = view_of(I, args[0]), I.enc(args[1])
    # the smallest view asked about: everything else follows from the updates
    base = view
    while is_vset(base):
        base = base.arg(0)
    I.p.add(z3.Implies(uf("view_has", View, Val, BoolS)(base, n), uf("view_len", View, IntS)(base) >= 1))
    return I.mkbool(vhas(view, n))


def p_get(I, args, kwargs):
    return I.mk(z3.simplify(vget(view_of(I, args[0]), I.enc(args[1]))), Value)


def p_len(I, args, kwargs):
    t = z3.simplify(vlen(view_of(I, args[0])))
    I.p.add(t >= 0)
    return I.mkint(t)


def p_set(I, args, kwargs):
    v, n, x = I.flat(args)
    st = I.getattr(v, "$state")
    I.setattr(st, "$view", vset(I.getattr(st, "$view"), I.enc(n), I.enc(x)))


def state_copy(I, args, kwargs):
    o = I.new(WizardInterpreterState)
    o.attrs["$view"] = I.getattr(args[0], "$view")
    return o


def state_set(I, args, kwargs):
    a = bound(WizardInterpreterState.set, args, kwargs)
    st = a["self"]
    I.setattr(st, "$view", vset(I.getattr(st, "$view"), I.enc(a["name"]), I.enc(a["value"])))


def state_variables(I, args, kwargs):
    o = I.new(VarsView)
    o.attrs["$state"] = args[0]
    return o


def state_raw(I, st):
    """the dictionary behind state.variables"""
    if isinstance(st, Obj) and "$view" not in st.attrs:
        raise Unsupported("variables of a state made from nothing")
    return state_variables(I, [st], {})


# ---------------------------------------------------------------------------
# expressions and severities


def visit_expr(I, args, kwargs):
    a = bound(WizardExpressionVisitor.visitExpr, args, kwargs)
    ctx = a["ctx"]
    if isinstance(ctx, S):
        ctx = I.resolve(ctx)
    if ctx is None:
        raise I.exc(AttributeError, "exception")
    v = opaque_call(I, "visitExpr", [a["self"], ctx], a["state"], Value)
    typ = a["typ"]
    if typ is not None and not I.p.branch(I.isinstance_(I.getattr(v, "_value"), typ)):
        raise PyRaise(I.call(WizardTypeError, [ctx, "type"], {}))
    return v


def raise_or_warn(I, args, kwargs):
    a = bound(SeverityContext.raise_or_warn, args, kwargs)
    sev, issue, exc = a["self"], a["issue"], a["exc"]
    ts = [I.enc(sev), I.enc(issue)]
    if I.p.branch(uf("sev_raises", Val, Val, World, BoolS)(*ts, I.r.world)):
        raise PyRaise(exc)
    set_world(I, uf("sev_warn", Val, Val, World, Val, World)(*ts, I.r.world, I.enc(exc)))


def install(m):
    m.fields[(ParserRuleContext, "children")] = ("or", "none", ("list", ParseTree))
    m.fields[(ParserRuleContext, "exception")] = ("or", "none", Exception)
    m.fields[(wizardParser.ParseWizardContext, "parser")] = object
    P = ParserRuleContext
    m.opaque[P.getTypedRuleContext] = get_rule
    m.opaque[P.getTypedRuleContexts] = get_rules
    m.opaque[P.getToken] = get_token
    m.opaque[P.getTokens] = get_tokens
    m.late[(ParseTree, "getText")] = RuleContext.getText
    m.opaque[RuleContext.getText] = get_text
    m.opaque[TerminalNodeImpl.getText] = get_text
    m.fields[(WizardInterpreterState, "$view")] = "$view"
    m.prims[view_has] = p_has
    m.prims[view_get] = p_get
    m.prims[view_len] = p_len
    m.prims[view_set] = p_set
    m.virtual[(WizardInterpreterState, "_variables")] = state_raw
    m.opaque[WizardInterpreterState.copy] = state_copy
    m.opaque[WizardInterpreterState.set] = state_set
    m.opaque[WizardInterpreterState.variables.fget] = state_variables
    m.opaque[WizardExpressionVisitor.visitExpr] = visit_expr
    m.opaque[SeverityContext.raise_or_warn] = raise_or_warn
