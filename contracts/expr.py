"""Contracts of wizard.expr (C12, C13, C14, C23, C24) at the level of one
expression node: its operands are evaluated by visitExpr, of which only the
contract is used."""
import re

import z3

from contracts import tree
from contracts.base import VALUE_H
from contracts.tree import opaque_call, bound
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj
from engine.terms import Val, uf
from engine.verify import Target

from wizard.antlr4.wizardParser import wizardParser as P
from wizard.errors import (
    WizardError, WizardIndexError, WizardNameError, WizardParseError, WizardTypeError,
)
from wizard.expr import WizardExpressionVisitor as E
from wizard.severity import Issue, SeverityContext
from wizard.state import WizardInterpreterState
from wizard.value import SubPackage, SubPackages, Value, Void

# -- C12: operators ---------------------------------------------------------


def s_times(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    if ctx.Divide():
        return Value.__div__(x, y)
    if ctx.Modulo():
        return x % y
    return x * y


def s_plus(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    return x - y if ctx.Minus() else x + y


def s_or(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    return x | y


def s_and(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    return x & y


def s_pow(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    return x ** y


def s_index(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    return x[y]


def s_in(self, ctx, state):
    container = self.visitExpr(ctx.expr(1), state)
    item = self.visitExpr(ctx.expr(0), state)
    return container.contains(item, bool(ctx.Colon()))


def operands(self, ctx, state):
    x = self.visitExpr(ctx.expr(0), state)
    y = self.visitExpr(ctx.expr(1), state)
    if ctx.Colon():
        if not isinstance(x._value, str):
            raise WizardTypeError(ctx, "type")
        if not isinstance(y._value, str):
            raise WizardTypeError(ctx, "type")
        return Value(x._value.lower()), Value(y._value.lower())
    return x, y


def s_equal(self, ctx, state):
    x, y = operands(self, ctx, state)
    if ctx.NotEqual():
        return x.not_equals(y)
    return x.equals(y)


def s_lesser(self, ctx, state):
    x, y = operands(self, ctx, state)
    if ctx.Lesser():
        return x < y
    return x <= y


def s_greater(self, ctx, state):
    x, y = operands(self, ctx, state)
    if ctx.Greater():
        return x > y
    return x >= y


def s_neg(self, ctx, state):
    return -self.visitExpr(ctx.expr(), state)


def s_not(self, ctx, state):
    return self.visitExpr(ctx.expr(), state).logical_not()


def s_paren(self, ctx, state):
    return self.visitExpr(ctx.expr(), state)


def step(ctx, state, offset):
    name = ctx.Identifier().getText()
    if name not in state.variables:
        raise WizardNameError(ctx, name)
    new = state.variables[name] + Value(offset)
    state.set(name, new)
    return new


def s_dec(self, ctx, state):
    return step(ctx, state, -1)


def s_inc(self, ctx, state):
    return step(ctx, state, 1)


def s_slice(self, ctx, state):
    # expr [ expr? : expr? (: expr?)? ]
    text = self.visitExpr(ctx.expr(0), state)
    start = end = step = None
    i = 3
    if isinstance(ctx.children[2], P.ExprContext):
        start = self.visitExpr(ctx.expr(1), state)
        i = 4
    if isinstance(ctx.children[i], P.ExprContext):
        end = self.visitExpr(ctx.children[i], state)
    if ctx.Colon(1):
        if isinstance(ctx.children[-2], P.ExprContext):
            step = self.visitExpr(ctx.children[-2], state)
    return text.slice(start, end, step)


def s_value(self, ctx, state):
    if ctx.constant():
        return self.visitConstant(ctx.constant())
    if ctx.integer():
        return self.visitInteger(ctx.integer())
    if ctx.decimal():
        return self.visitDecimal(ctx.decimal())
    if ctx.string():
        return self.visitString(ctx.string())
    if ctx.Identifier():
        name = ctx.Identifier().getText()
        if name in state.variables:
            return state.variables[name]
        self._severity.raise_or_warn(
            Issue.USAGE_OF_NOTSET_VARIABLES, WizardNameError(ctx, name), ""
        )
        return Value(0)
    raise WizardNameError(ctx, ctx.getText())


# -- C24 ----------------------------------------------------------------------


def s_constant(self, ctx):
    t = ctx.getText()
    if t == "True":
        return Value(True)
    if t == "False":
        return Value(False)
    return Value(self._subpackages)


def s_integer(self, ctx):
    return Value(int(ctx.getText()))


def s_decimal(self, ctx):
    return Value(float(ctx.getText()))


# -- C14 ----------------------------------------------------------------------


def arguments(self, ctx, state, values):
    if ctx.argList():
        for e in ctx.argList().expr():
            values.append(self.visitExpr(e, state))
    return values


def s_call(self, ctx, state):
    name = ctx.Identifier().getText()
    if name == "Exec":
        raise WizardNameError(ctx, "Exec() cannot be used in a complex expression.")
    if name == "EndExec":
        raise WizardNameError(ctx, "EndExec() should not be used explicitly.")
    if name in self._functions:
        return self._functions[name](state, arguments(self, ctx, state, []))
    if hasattr(self, "visit" + name) and not hasattr(P, name + "Context"):
        f = getattr(self, "visit" + name)
        values = arguments(self, ctx, state, [])
        return Value(f(state, *(v._value for v in values)))
    raise WizardNameError(ctx, name)


def s_method(self, ctx, state):
    receiver = self.visitExpr(ctx.expr(), state)
    name = str(receiver._type) + "." + ctx.Identifier().getText()
    if name not in self._functions:
        raise WizardNameError(ctx, name)
    return self._functions[name](state, arguments(self, ctx, state, [receiver]))


# -- C12, C13, C23: evaluation of any expression --------------------------------

NODES = {
    P.TimesDivideModuloContext: ("visitTimesDivideModulo", s_times, ("C12",)),
    P.PlusMinusContext: ("visitPlusMinus", s_plus, ("C12",)),
    P.OrContext: ("visitOr", s_or, ("C12",)),
    P.AndContext: ("visitAnd", s_and, ("C12",)),
    P.ExponentiationContext: ("visitExponentiation", s_pow, ("C12",)),
    P.IndexContext: ("visitIndex", s_index, ("C12", "C11")),
    P.InContext: ("visitIn", s_in, ("C12", "C11")),
    P.EqualContext: ("visitEqual", s_equal, ("C12",)),
    P.LesserContext: ("visitLesser", s_lesser, ("C12",)),
    P.GreaterContext: ("visitGreater", s_greater, ("C12",)),
    P.NegativeContext: ("visitNegative", s_neg, ("C12",)),
    P.NotContext: ("visitNot", s_not, ("C12",)),
    P.ParenExprContext: ("visitParenExpr", s_paren, ("C12",)),
    P.PreDecrementContext: ("visitPreDecrement", s_dec, ("C12",)),
    P.PostDecrementContext: ("visitPostDecrement", s_dec, ("C12",)),
    P.PreIncrementContext: ("visitPreIncrement", s_inc, ("C12",)),
    P.PostIncrementContext: ("visitPostIncrement", s_inc, ("C12",)),
    P.SliceContext: ("visitSlice", s_slice, ("C12", "C11")),
    P.ValueContext: ("visitValue", s_value, ("C12", "C24")),
    P.FunctionCallContext: ("visitFunctionCall", s_call, ("C14", "C22")),
    P.DotFunctionCallContext: ("visitDotFunctionCall", s_method, ("C14",)),
}


def s_expr(method):
    def spec(self, ctx, state, typ=None):
        if ctx.exception:
            raise WizardParseError(ctx, ctx.exception)
        try:
            value = method(self, ctx, state)
        except BaseException as e:
            if isinstance(e, TypeError):
                raise WizardTypeError(ctx, *e.args)
            if isinstance(e, IndexError):
                raise WizardIndexError(ctx, *e.args)
            raise
        if typ is not None:
            if not isinstance(value._value, typ):
                raise WizardTypeError(ctx, "type")
        return value

    return spec


def node_opaque(name):
    def h(I, args, kwargs):
        a = I.flat(args)
        return opaque_call(I, name, a[:2], a[2], Value, BaseException)

    return h


def has_attr(I, args, kwargs):
    o, n = args[0], args[1]
    return I.mkbool(uf("hasattr", Val, Val, T.BoolS)(I.enc(o), I.enc(n)))


def get_attr(I, args, kwargs):
    o, n = args[0], args[1]
    return I.mk(uf("getattr", Val, Val, Val)(I.enc(o), I.enc(n)), "any")


def visit_string(I, args, kwargs):
    """bounded: checked by exhaustive enumeration (see replay/strings)"""
    return opaque_call(I, "visitString", I.flat(args), None, Value, None, True)


def install(m):
    m.fields[(E, "_functions")] = ("dict", "str", "any")
    m.fields[(E, "_subpackages")] = SubPackages
    m.fields[(E, "_severity")] = SeverityContext
    m.prims["$hasattr"] = has_attr
    m.prims["$getattr"] = get_attr
    m.opaque[E.visitString] = visit_string
    for c, (name, spec, props) in NODES.items():
        m.opaque[getattr(E, name)] = node_opaque(name)
    for name, spec in (("visitConstant", s_constant), ("visitInteger", s_integer),
                       ("visitDecimal", s_decimal)):
        m.contracts[getattr(E, name)] = spec


def targets():
    k = lambda I, n, h: I.mk(T.const(n, Val), h)
    out = []
    for c, (name, spec, props) in NODES.items():
        def args(I, c=c):
            return [k(I, "self", E), k(I, "ctx", ("exact", c)),
                    k(I, "state", WizardInterpreterState)]

        out.append(Target(f"expr.{name}", getattr(E, name), spec, args, props, budget=120))

    def leaf(name, cls, spec):
        out.append(Target(f"expr.{name}", getattr(E, name), spec,
                          lambda I: [k(I, "self", E), k(I, "ctx", cls)], ("C24",)))

    leaf("visitConstant", P.ConstantContext, s_constant)
    leaf("visitInteger", P.IntegerContext, s_integer)
    leaf("visitDecimal", P.DecimalContext, s_decimal)
    for c, (name, spec, props) in NODES.items():
        def args(I, c=c):
            return [k(I, "self", E), k(I, "ctx", ("exact", c)),
                    k(I, "state", WizardInterpreterState)]

        def args2(I, c=c):
            return [k(I, "self", E), k(I, "ctx", ("exact", c)),
                    k(I, "state", WizardInterpreterState),
                    k(I, "typ", ("py", int, str, bool, float, SubPackage, SubPackages, Void))]

        sp = s_expr(getattr(E, name))
        short = c.__name__[:-7]
        out.append(Target(f"expr.visitExpr({short})", E.visitExpr, sp, args, ("C12", "C13", "C23"), budget=120))
        if c in (P.ValueContext, P.FunctionCallContext, P.PlusMinusContext):
            out.append(Target(f"expr.visitExpr({short}, type)", E.visitExpr, sp, args2,
                              ("C12", "C13", "C23"), budget=120))
    return out
