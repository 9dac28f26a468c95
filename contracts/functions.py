"""Contracts of wizard.functions (C14, C15)."""
import z3

from contracts import tree
from contracts.tree import opaque_call
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj
from engine.terms import Val
from engine.verify import Target

from wizard import functions as Fn
from engine.execu import Star
from wizard.functions import WizardFunctions, make_basic_functions, make_manager_functions, optional, wrap_function
from wizard.manager import ManagerModInterface
from wizard.severity import SeverityContext
from wizard.state import WizardInterpreterState
from wizard.value import SubPackage, SubPackages, Value, VariableType, Void

# -- C15 ------------------------------------------------------------------------


def plain(v):
    """a number or a text"""
    return not isinstance(v._value, (SubPackage, SubPackages, Void))


def s_str(self, value):
    return Value(str(value._value))


def s_int(self, value):
    return Value(int(value._value)) if plain(value) else Value(0)


def s_float(self, value):
    return Value(float(value._value)) if plain(value) else Value(0.0)


def s_len(self, value):
    return Value(len(value._value)) if isinstance(value._value, str) else Value(0)


def s_startswith(self, value, *args):
    if isinstance(value._value, str):
        for a in args:
            if isinstance(a._value, str) and value._value.startswith(a._value):
                return Value(True)
    return Value(False)


def s_endswith(self, value, *args):
    if isinstance(value._value, str):
        for a in args:
            if isinstance(a._value, str) and value._value.endswith(a._value):
                return Value(True)
    return Value(False)


def s_lower(self, value):
    if isinstance(value._value, str):
        return Value(value._value.lower())
    return value


def s_find(self, string, substring, start=None, end=None):
    """-1 as the end position means the end of the text"""
    if not (isinstance(string._value, str) and isinstance(substring._value, str)):
        return Value(-1)
    a, b = 0, None
    if start is not None:
        if not isinstance(start._value, int):
            return Value(-1)
        a = start._value
    if end is not None:
        if not isinstance(end._value, int):
            return Value(-1)
        if end._value != -1:
            b = end._value
    return Value(string._value.find(substring._value, a, b))


def s_rfind(self, string, substring, start=None, end=None):
    if not (isinstance(string._value, str) and isinstance(substring._value, str)):
        return Value(-1)
    a, b = 0, None
    if start is not None:
        if not isinstance(start._value, int):
            return Value(-1)
        a = start._value
    if end is not None:
        if not isinstance(end._value, int):
            return Value(-1)
        if end._value != -1:
            b = end._value
    return Value(string._value.rfind(substring._value, a, b))

# -- C14: wrapped functions --------------------------------------------------------


def same(v, tp):
    if not isinstance(v._value, tp):
        raise TypeError


def done(result):
    """a function without a result yields the void value"""
    if result is None:
        return Value(Void())
    return Value(result)


def r_one(method, st, vs):
    return wrap_function("f", method, str)(st, vs)


def s_one(method, st, vs):
    if len(vs) != 1:
        raise TypeError
    same(vs[0], str)
    return done(method(vs[0]._value))


def r_opt(method, st, vs):
    return wrap_function("f", method, str, optional(int))(st, vs)


def s_opt(method, st, vs):
    if len(vs) == 0 or len(vs) > 2:
        raise TypeError
    same(vs[0], str)
    if len(vs) == 1:
        return done(method(vs[0]._value))
    same(vs[1], int)
    return done(method(vs[0]._value, vs[1]._value))


def r_many(method, st, vs):
    return wrap_function("f", method, str, varargs=True)(st, vs)


def s_many(method, st, vs):
    if len(vs) == 0:
        raise TypeError
    same(vs[0], str)
    texts = [vs[0]._value]
    for v in vs[1:]:
        same(v, str)
        texts.append(v._value)
    return done(method(*texts))


def r_none(method, st, vs):
    return wrap_function("f", method)(st, vs)


def s_none(method, st, vs):
    if len(vs) != 0:
        raise TypeError
    return done(method())


def r_raw(method, st, vs):
    return wrap_function("f", method, object, object, optional(object), optional(object), rawargs=True)(st, vs)


def s_raw(method, st, vs):
    if len(vs) < 2 or len(vs) > 4:
        raise TypeError
    if len(vs) == 2:
        r = method(vs[0], vs[1])
    elif len(vs) == 3:
        r = method(vs[0], vs[1], vs[2])
    else:
        r = method(vs[0], vs[1], vs[2], vs[3])
    return Void() if r is None else r



# -- the registered functions: name, arity, and what they compute ------------------


def r_basic(name, st, vs):
    return make_basic_functions()[name](st, vs)


def s_unary(spec, st, vs):
    if len(vs) != 1:
        raise TypeError
    return spec(WizardFunctions(), vs[0])


def s_search(spec, st, vs):
    if len(vs) < 2 or len(vs) > 4:
        raise TypeError
    if len(vs) == 2:
        return spec(WizardFunctions(), vs[0], vs[1])
    if len(vs) == 3:
        return spec(WizardFunctions(), vs[0], vs[1], vs[2])
    return spec(WizardFunctions(), vs[0], vs[1], vs[2], vs[3])


def s_affix(spec, st, vs):
    if len(vs) == 0:
        raise TypeError
    values = [vs[0]]
    for v in vs[1:]:
        values.append(v)
    return spec(WizardFunctions(), *values)


def r_manager(name, manager, severity, st, vs):
    return make_manager_functions(manager, severity)[name](st, vs)


def s_m1(name, manager, severity, st, vs):
    if len(vs) != 1:
        raise TypeError
    same(vs[0], str)
    return Value(getattr(manager, MANAGER[name])(vs[0]._value))


def s_m_order(name, manager, severity, st, vs):
    if len(vs) == 0 or len(vs) > 2:
        raise TypeError
    same(vs[0], str)
    if len(vs) == 1:
        return Value(manager.getPluginLoadOrder(vs[0]._value))
    same(vs[1], int)
    return Value(manager.getPluginLoadOrder(vs[0]._value, vs[1]._value))


def s_m_exists(name, manager, severity, st, vs):
    if len(vs) == 0:
        raise TypeError
    same(vs[0], str)
    texts = [vs[0]._value]
    for v in vs[1:]:
        same(v, str)
        texts.append(v._value)
    return Value(manager.dataFileExists(*texts))


MANAGER = {
    "CompareGameVersion": "compareGameVersion", "CompareSEVersion": "compareSEVersion",
    "CompareGEVersion": "compareGEVersion", "CompareWBVersion": "compareWBVersion",
    "GetPluginStatus": "getPluginStatus", "GetEspmStatus": "getPluginStatus",
    "GetFilename": "getFilename", "GetFolder": "getFolder",
}


def abstract_method(fn, ret):
    def h(I, args, kwargs):
        if any(isinstance(a, Star) for a in args):
            return opaque_call(I, fn.__name__, list(args), None, ret)
        return opaque_call(I, fn.__name__, list(args), None, ret)

    return h


def install(m):
    tree.install(m)
    for n, ret in (("compareGameVersion", "int"), ("compareSEVersion", "int"), ("compareGEVersion", "int"),
                   ("compareWBVersion", "int"), ("dataFileExists", "bool"), ("getPluginLoadOrder", "int"),
                   ("getPluginStatus", "int"), ("getFilename", "str"), ("getFolder", "str")):
        f = getattr(ManagerModInterface, n)
        m.opaque[f] = abstract_method(f, ret)
    m.prims["$unknown"] = tree.call_unknown


def targets():
    W = WizardFunctions
    out = []

    def t(name, fn, spec, hints, props=("C15",), new=None):
        def args(I):
            r = ([I.new(new)] if new else [])
            return r + [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

        out.append(Target(name, fn, spec, args, props, budget=120))

    V = Value
    for n in ("str_", "int_", "float_", "len_", "lower"):
        t(f"WizardFunctions.{n}", getattr(W, n), globals()["s_" + n.rstrip("_")], [W, V])
    for n in ("startswith", "endswith"):
        def call(I, n=n):
            pass
        def r(self, value, args, n=n):
            pass
    for n, f, s in (("startswith", r_startswith, r_s_startswith), ("endswith", r_endswith, r_s_endswith)):
        t(f"WizardFunctions.{n}", f, s, [W, V, ("seq", V)])
    for n in ("find", "rfind"):
        for k in (2, 3, 4):
            t(f"WizardFunctions.{n} ({k})", getattr(W, n), globals()["s_" + n], [W] + [V] * k)
    St = WizardInterpreterState
    for n in ("none", "one", "opt", "many", "raw"):
        t(f"wrap_function ({n})", globals()["r_" + n], globals()["s_" + n], ["any", St, ("seq", V)], ("C14",))
    X = ("C14", "C15")

    def basic(name, shape, spec):
        def args(I):
            first = name if I.r.kind == "real" else spec
            return [first, I.mk(T.const("st", Val), St), I.mk(T.const("vs", Val), ("seq", V))]

        out.append(Target(f"function {name}", r_basic, shape, args, X, budget=120))

    for n in ("str", "int", "float", "len", "lower", "find", "rfind", "startswith", "endswith"):
        sp = globals()["s_" + n]
        sh = s_search if "find" in n else s_affix if n.endswith("with") else s_unary
        for name in (n, "string." + n):
            basic(name, sh, sp)
    for tn in ("integer", "float", "bool"):
        basic(tn + ".str", s_unary, s_str)

    def manager(name, spec):
        def args(I):
            return [name, I.mk(T.const("manager", Val), ManagerModInterface), I.mk(T.const("sev", Val), SeverityContext),
                    I.mk(T.const("st", Val), St), I.mk(T.const("vs", Val), ("seq", V))]

        out.append(Target(f"function {name}", r_manager, spec, args, ("C14",), budget=120))

    for n in MANAGER:
        manager(n, s_m1)
    manager("GetPluginLoadOrder", s_m_order)
    manager("DataFileExists", s_m_exists)
    return out


def r_startswith(self, value, args):
    return WizardFunctions.startswith(self, value, *args)


def r_s_startswith(self, value, args):
    return s_startswith(self, value, *args)


def r_endswith(self, value, args):
    return WizardFunctions.endswith(self, value, *args)


def r_s_endswith(self, value, args):
    return s_endswith(self, value, *args)
