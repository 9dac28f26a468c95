"""Statements, expressions, calls and loops of the symbolic interpreter."""
import ast
import copy as _copy
import dataclasses
import enum
import functools
import inspect
import itertools
import operator
import pathlib
import types
import typing

import z3

from . import terms as T
from .core import *  # noqa
from .core import S, Obj, Closure, BoundM, Builtin, Gen, RangeV, EnumV, ZipV, SliceV
from .core import SuperV, Seq, DictC, CDict, Cut
from .interp import Interp, Frame, LoopFrame, MISSING, NoneType, fn_node, type_of, is_cls
from .terms import Val, VL, View, World, SeqV, ArrV, StrS, IntS, BoolS, Flt, uf


MAYBE = object()


class LoopInfo:
    __slots__ = ("mode", "sub", "seq", "entries", "afters", "key", "elem", "ix")


class KW(dict):
    pass


ORDER = {
    ast.Lt: ("__lt__", "__gt__"),
    ast.LtE: ("__le__", "__ge__"),
    ast.Gt: ("__gt__", "__lt__"),
    ast.GtE: ("__ge__", "__le__"),
}


class Star:
    """starred symbolic argument"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


def mangled(a, fr):
    """private names of a class"""
    if a.startswith("__") and not a.endswith("__") and fr.mangle:
        return f"_{fr.mangle}{a}"
    return a


class Exec(Interp):
    MAXDEPTH = 60

    def __init__(self, model, path, run, target=None):
        super().__init__(model, path, run, target)
        self.nframe = 0
        self.frames = {}
        self.curnode = None
        self.exc_stack = []
        self.loopstack = 0

    # ------------------------------------------------------------------
    # frames
    def frame(self, glob, name, parent=None, cls=None):
        self.nframe += 1
        f = Frame(glob, name, parent, cls)
        f.uid = self.nframe
        f.site = self.site(("frame", name, self.curnode))
        self.frames[f.site] = f
        return f

    def site(self, k):
        n = self.r.sites.get(k, 0)
        self.r.sites[k] = n + 1
        return k + (n,)

    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is MISSING:
                    raise self.exc(UnboundLocalError, name)
                if v is MAYBE:
                    raise Unsupported(f"{name} may be unbound behind a loop")
                return v
            f = f.parent
        g = fr.glob
        if name in g:
            return g[name]
        b = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)
        if name in b:
            return b[name]
        raise self.exc(NameError, name)

    def setvar(self, fr, name, v):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.env:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
        for lf in self.r.loopframes:
            if f.uid <= lf.startf:
                lf.writes.append(("var", f, name))
        f.env[name] = v

    # ------------------------------------------------------------------
    # calls
    def call(self, f, args, kwargs):
        if isinstance(f, Builtin):
            return f.fn(args, kwargs)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, S):
            if isinstance(f.h, tuple) and f.h[0] == "py":
                return self.call(self.pick_py(f), args, kwargs)
            return self.call_unknown(f, args, kwargs)
        try:
            h = self.m.prims.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(self, args, kwargs)
        if isinstance(f, types.FunctionType):
            h = NATIVE.get(f)
            if h is not None:
                return h(self, self.flat(args), kwargs)
            return self.call_function(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kwargs)
        h = NATIVE.get(f) if _hashable(f) else None
        if h is not None:
            return h(self, self.flat(args), kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return self.call_descriptor(f, args, kwargs)
        if typing.get_origin(f) is not None:
            return self.call(typing.get_origin(f), args, kwargs)
        if isinstance(f, types.BuiltinFunctionType) or callable(f):
            return self.call_native(f, args, kwargs)
        if isinstance(f, Obj):
            c = self.user_op(f, "__call__")
            if c is not None:
                return self.call(c, [f] + list(args), kwargs)
        raise self.exc(TypeError, "not callable")

    def flat(self, args):
        r = []
        for a in args:
            if isinstance(a, Star):
                if not all(p[0] == "e" for p in a.parts):
                    raise Unsupported("starred arguments of unknown length")
                r.extend(p[1] for p in a.parts)
            else:
                r.append(a)
        return r

    def call_unknown(self, f, args, kwargs):
        h = self.m.prims.get("$unknown")
        if h is None:
            raise Unsupported("call of an unknown function")
        return h(self, [f] + list(args), kwargs)

    def call_descriptor(self, f, args, kwargs):
        if (
            f.__name__ == "__init__"
            and isinstance(args[0], Obj)
            and isinstance(args[0].cls, type)
            and issubclass(args[0].cls, BaseException)
        ):
            parts = []
            for a in args[1:]:
                parts.extend(a.parts if isinstance(a, Star) else [("e", a)])
            self.setattr(args[0], "args", self.mkseq(parts))
            return None
        args = self.flat(args)
        o = f.__objclass__
        n = f.__name__
        if n == "__init__":
            s = args[0]
            if o is object:
                return None
            if isinstance(s, Obj) and s.items is not None:
                if len(args) > 1:
                    self.init_container(s, args[1:])
                return None
        if n == "__setattr__":
            return self.setattr(args[0], args[1], args[2])
        if n == "__str__" and o is BaseException:
            parts = self.content(self.getattr(args[0], "args"))
            return self.mkstr(uf("exception_text", SeqV, StrS)(self.seqterm(parts)))
        if n in ("__str__", "__repr__"):
            return self.tostr(args[0], n)
        if n == "__eq__" and o is object:
            return self.mkbool(self.is_(args[0], args[1]))
        if n == "__hash__":
            return self.hash_(args[0])
        if n == "__new__":
            return self.new(args[0])
        if n == "__getitem__":
            return self.getitem(args[0], args[1])
        if n == "__contains__":
            return self.mkbool(self.contains(args[0], args[1]))
        if n == "__len__":
            return self.length(args[0])
        return self.call(self.builtin_method(args[0], n), args[1:], kwargs)

    def call_native(self, f, args, kwargs):
        """call of a native function on constants"""
        args = self.flat(args)
        if any(self.symbolic(a) for a in args) or any(
            self.symbolic(a) for a in kwargs.values()
        ):
            n = getattr(f, "__qualname__", str(f))
            raise Unsupported(f"native call {n} on symbolic values")
        mod = getattr(f, "__module__", None) or ""
        selfo = getattr(f, "__self__", None)
        ok = (
            f in self.m.pure_native
            if _hashable(f)
            else False
        ) or isinstance(selfo, (str, int, float, tuple, frozenset)) or mod in (
            "math", "_operator", "operator"
        )
        if isinstance(selfo, (inspect.Signature, inspect.Parameter)) or mod in ("inspect",):
            ok = True
        if isinstance(selfo, (dict, types.MappingProxyType)) and f.__name__ in (
            "get", "keys", "values", "items", "copy"
        ):
            ok = True
        if not ok:
            raise Unsupported(f"native call {getattr(f, '__qualname__', f)}")
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise self.exc(type(e), *[str(a) for a in e.args])

    def symbolic(self, v):
        if isinstance(v, (S, Obj, Closure, BoundM, Builtin, Gen, RangeV, EnumV, ZipV,
                          SliceV, Seq, z3.ExprRef)):
            return True
        if isinstance(v, (tuple, list)):
            return any(self.symbolic(x) for x in v)
        if isinstance(v, dict):
            return any(self.symbolic(x) for x in v.values())
        return False

    def call_function(self, f, args, kwargs):
        h = self.m.opaque.get(f)
        if h is not None and not (f is self.target and self.depth == 0):
            return h(self, args, kwargs)
        c = self.m.contracts.get(f)
        if c is not None and not (f is self.target and self.depth == 0):
            self.r.used.add(f)
            f = c
        wrapped = getattr(f, "__wrapped__", None)
        if wrapped is not None:
            raise Unsupported("decorated function")
        node = fn_node(f)
        parent = None
        cls = None
        if f.__closure__:
            parent = self.frame(f.__globals__, "closure")
            for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    parent.env[nm] = cell.cell_contents
                except ValueError:
                    continue
                if nm == "__class__":
                    cls = cell.cell_contents
        fr = self.frame(f.__globals__, f.__name__, parent, cls)
        q = f.__qualname__.split(".")
        if len(q) > 1 and q[-2] != "<locals>":
            fr.mangle = q[-2].lstrip("_")
        kwd = f.__kwdefaults__ or {}
        return self.run_function(node, fr, f.__defaults__ or (), kwd, args, kwargs)

    def call_closure(self, c, args, kwargs):
        fr = self.frame(c.glob, c.name, c.env, c.cls)
        return self.run_function(c.node, fr, c.defaults, c.kwdefaults, args, kwargs)

    def run_function(self, node, fr, defaults, kwdefaults, args, kwargs):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported("recursion too deep")
        self.r.steps += 1
        try:
            self.bind_params(node, fr, defaults, kwdefaults, args, kwargs)
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if isinstance(node, ast.AsyncFunctionDef):
                raise Unsupported("async function")
            if is_generator(node):
                acc = self.newlist()
                fr.env["$yield"] = acc
                self.block(node.body, fr)
                return acc
            r = self.block(node.body, fr)
            if r is not None and r[0] == "return":
                return r[1]
            return None
        finally:
            self.depth -= 1

    def bind_params(self, node, fr, defaults, kwdefaults, args, kwargs):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        # starred symbolic arguments
        if any(isinstance(x, Star) for x in args):
            args = self.expand_star(args, len(pos), len(defaults), a.vararg, kwargs, pos)
        args = list(args)
        env = fr.env
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            env[n] = v
        if pos and args:
            fr.self_ = args[0]
        if extra and a.vararg is None:
            raise self.exc(TypeError, "too many positional arguments")
        if a.vararg is not None:
            if extra and isinstance(extra[0], Star):
                env[a.vararg.arg] = self.mkseq(extra[0].parts)
            else:
                env[a.vararg.arg] = tuple(extra)
        given = set(pos[: len(args)])
        nd = len(defaults)
        for n in list(kwargs):
            if n in [x.arg for x in a.args] and n not in given:
                env[n] = kwargs.pop(n)
                given.add(n)
            elif n in [x.arg for x in a.kwonlyargs]:
                env[n] = kwargs.pop(n)
                given.add(n)
        if kwargs:
            if a.kwarg is None:
                raise self.exc(TypeError, "unexpected keyword argument")
        if a.kwarg is not None:
            d = self.new(dict)
            d.items = CDict(list(kwargs.items()))
            env[a.kwarg.arg] = d
        for i, n in enumerate(pos):
            if n not in given:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.exc(TypeError, f"missing argument {n}")
                env[n] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in given:
                if x.arg not in kwdefaults:
                    raise self.exc(TypeError, f"missing argument {x.arg}")
                env[x.arg] = kwdefaults[x.arg]

    def expand_star(self, args, npos, ndef, vararg, kwargs, pos):
        i = [j for j, x in enumerate(args) if isinstance(x, Star)]
        if len(i) != 1:
            raise Unsupported("several starred arguments")
        i = i[0]
        st = args[i]
        before, after = list(args[:i]), list(args[i + 1:])
        if all(p[0] == "e" for p in st.parts):
            return before + [p[1] for p in st.parts] + after
        parts = list(st.parts)
        while parts and parts[0][0] == "e":
            before.append(parts.pop(0)[1])
        st = Star(parts)
        if after:
            raise Unsupported("arguments behind a starred one")
        if vararg is not None and len(before) >= npos:
            if len(before) > npos:
                return before[:npos] + [
                    Star([("e", x) for x in before[npos:]] + list(st.parts))
                ]
            return before + [st]
        n = self.seqlen(st.parts)
        nkw = sum(1 for p in pos if p in kwargs)
        hi = npos - len(before) - nkw
        lo = max(0, hi - ndef)
        for k in range(hi, lo - 1, -1):
            if self.p.branch(self.intt(n) == k):
                t = self.seqterm(st.parts)
                h = self.parts_hint(st.parts)
                return before + [self.mk(z3.simplify(t[j]), h) for j in range(k)]
        if vararg is not None and self.p.branch(self.intt(n) > hi):
            t = self.seqterm(st.parts)
            h = self.parts_hint(st.parts)
            rest = z3.SubSeq(t, z3.IntVal(hi), self.intt(n) - hi)
            return before + [self.mk(z3.simplify(t[j]), h) for j in range(hi)] + [Star([("s", rest, h)])]
        raise self.exc(TypeError, "wrong number of arguments")

    # ------------------------------------------------------------------
    def instantiate(self, cls, args, kwargs):
        h = NATIVE.get(cls)
        if h is not None:
            return h(self, self.flat(args), kwargs)
        if issubclass(cls, enum.Enum):
            args = self.flat(args)
            if len(args) == 1 and not self.symbolic(args[0]):
                try:
                    return cls(args[0])
                except ValueError as e:
                    raise self.exc(ValueError, str(e))
            raise Unsupported("enum lookup")
        if cls in (self.m.abstract_new if hasattr(self.m, "abstract_new") else ()):
            raise Unsupported(f"instance of {cls.__name__}")
        o = self.new(cls)
        if issubclass(cls, (list, tuple)):
            o.items = []
        elif issubclass(cls, (dict, set, frozenset)):
            o.items = CDict([])
        nw, _ = self.class_attr(cls, "__new__")
        if isinstance(nw, (types.FunctionType, staticmethod)) and cls.__module__.startswith("wizard"):
            raise Unsupported("user-defined __new__")
        init, c = self.class_attr(cls, "__init__")
        if isinstance(init, types.FunctionType):
            if dataclasses.is_dataclass(cls) and c.__dict__.get("__init__") is init and (
                init.__code__.co_filename == "<string>"
            ):
                self.dataclass_init(cls, o, args, kwargs)
                return o
            if init.__module__ in ("typing", "abc") or c.__module__ == "typing":
                return o
            self.call(init, [o] + list(args), kwargs)
            return o
        args = self.flat(args)
        if issubclass(cls, BaseException):
            o.attrs["args"] = tuple(args)
            return o
        if o.items is not None:
            if args:
                self.init_container(o, args)
            return o
        if args or kwargs:
            raise self.exc(TypeError, f"{cls.__name__}() takes no arguments")
        return o

    def dataclass_init(self, cls, o, args, kwargs):
        fs = [f for f in dataclasses.fields(cls) if f.init]
        args = self.flat(args)
        if len(args) > len(fs):
            raise self.exc(TypeError, "too many arguments")
        vals = dict(zip([f.name for f in fs], args))
        vals.update(kwargs)
        for f in dataclasses.fields(cls):
            if f.name in vals:
                o.attrs[f.name] = vals[f.name]
            elif f.default is not dataclasses.MISSING:
                o.attrs[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                o.attrs[f.name] = self.call(f.default_factory, [], {})
            else:
                raise self.exc(TypeError, "missing argument")
        pi, _ = self.class_attr(cls, "__post_init__")
        if pi is not MISSING:
            self.call(pi, [o], {})

    def init_container(self, o, args):
        if isinstance(o.items, list):
            o.items = list(self.tolist(args[0]).items)
        elif issubclass(o.cls, dict):
            self.builtin_method(o, "update").fn(args, {})
        else:
            self.set_update(o, args[0])

    # ------------------------------------------------------------------
    # statements
    def block(self, stmts, fr):
        for s in stmts:
            r = self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        if self.r.kind == "real":
            self.p.cov.add(s)
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def st_Pass(self, s, fr):
        return None

    def st_Break(self, s, fr):
        return ("break",)

    def st_Continue(self, s, fr):
        return ("continue",)

    def st_Return(self, s, fr):
        return ("return", None if s.value is None else self.eval(s.value, fr))

    def st_Global(self, s, fr):
        raise Unsupported("global")

    def st_Nonlocal(self, s, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(s.names)

    def st_Assert(self, s, fr):
        if not self.test(s.test, fr):
            raise self.exc(AssertionError)

    def st_Import(self, s, fr):
        import importlib

        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname is None:
                self.setvar(fr, a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))
            else:
                self.setvar(fr, a.asname, mod)

    def st_ImportFrom(self, s, fr):
        import importlib

        pk = fr.glob.get("__package__") or fr.glob.get("__name__", "").rpartition(".")[0]
        name = "." * s.level + (s.module or "")
        mod = importlib.import_module(name, pk) if s.level else importlib.import_module(name)
        for a in s.names:
            if hasattr(mod, a.name):
                v = getattr(mod, a.name)
            else:
                v = importlib.import_module(mod.__name__ + "." + a.name)
            self.setvar(fr, a.asname or a.name, v)

    def st_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        self.setvar(fr, s.name, self.make_closure(s, fr, s.name))

    def make_closure(self, s, fr, name):
        defaults = tuple(self.eval(d, fr) for d in s.args.defaults)
        kwd = {
            a.arg: self.eval(d, fr)
            for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
            if d is not None
        }
        return Closure(s, fr, fr.glob, name, defaults, kwd, fr.cls)

    def st_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            a = self.lookup(fr, t.id)
            put = lambda v: self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            a = self.getattr(o, mangled(t.attr, fr))
            put = lambda v: self.setattr(o, mangled(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval(t.slice, fr)
            a = self.getitem(o, i)
            put = lambda v: self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment")
        b = self.eval(s.value, fr)
        if isinstance(s.op, ast.Add) and self.is_listlike(a) and not isinstance(a, list):
            self.list_extend(a, b)
            return put(a) if isinstance(t, ast.Name) else None
        if isinstance(s.op, ast.BitOr) and isinstance(a, Obj) and isinstance(a.cls, type) and (
            issubclass(a.cls, (dict, set))
        ):
            self.call(self.builtin_method(a, "update"), [b], {})
            return None
        put(self.binop(type(s.op), a, b))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), mangled(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.content(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                raise Unsupported("starred assignment")
            n = len(t.elts)
            if not all(p[0] == "e" for p in parts):
                ln = self.seqlen(parts)
                if not self.p.branch(self.intt(ln) == n):
                    raise self.exc(ValueError, "unpack")
                term = self.seqterm(parts)
                h = self.parts_hint(parts)
                vals = [self.mk(z3.simplify(term[j]), h) for j in range(n)]
            else:
                if len(parts) != n:
                    raise self.exc(ValueError, "unpack")
                vals = [p[1] for p in parts]
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred assignment")
        else:
            raise Unsupported("assignment target")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval(t.slice, fr))
            elif isinstance(t, ast.Name):
                self.setvar(fr, t.id, MISSING)
            else:
                raise Unsupported("del")

    def test(self, e, fr):
        """evaluate a condition and branch"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                return all(self.test(x, fr) for x in e.values)
            return any(self.test(x, fr) for x in e.values)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.test(e.operand, fr)
        return self.p.branch(self.truth(self.eval(e, fr)))

    def st_If(self, s, fr):
        if self.test(s.test, fr):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                raise Unsupported("bare raise")
            raise PyRaise(self.exc_stack[-1])
        v = self.eval(s.exc, fr)
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(v, type):
            v = self.call(v, [], {})
        raise PyRaise(v)

    def st_Try(self, s, fr):
        sig = None
        pending = None
        try:
            sig = self.block(s.body, fr)
            ok = True
        except PyRaise as e:
            ok = False
            pending = e
        if pending is not None:
            ex = pending.val
            for h in s.handlers:
                if h.type is not None:
                    t = self.eval(h.type, fr)
                    if not self.p.branch(self.exc_match(ex, t)):
                        continue
                    ex = self.narrow_exc(ex, t)
                self.exc_stack.append(ex)
                try:
                    if h.name:
                        self.setvar(fr, h.name, ex)
                    try:
                        sig = self.block(h.body, fr)
                        pending = None
                    except PyRaise as e2:
                        pending = e2
                finally:
                    self.exc_stack.pop()
                break
        elif ok and s.orelse and sig is None:
            try:
                sig = self.block(s.orelse, fr)
            except PyRaise as e:
                pending = e
        if s.finalbody:
            r = self.block(s.finalbody, fr)
            if r is not None:
                return r
        if pending is not None:
            raise pending
        return sig

    def exc_match(self, ex, t):
        if isinstance(t, (tuple, Seq)):
            return self.bor(*[self.exc_match(ex, x[1] if isinstance(t, Seq) else x)
                              for x in (t.parts if isinstance(t, Seq) else t)])
        return self.isinstance_(ex, t)

    def narrow_exc(self, ex, t):
        if isinstance(ex, S) and isinstance(t, type) and is_cls(ex.h) and issubclass(t, ex.h):
            return S(ex.t, t)
        return ex

    def st_With(self, s, fr):
        return self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        m = self.eval(items[0].context_expr, fr)
        leave = self.getattr(m, "__exit__")
        x = self.call(self.getattr(m, "__enter__"), [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, x, fr)
        try:
            sig = self.with_items(items[1:], body, fr)
        except PyRaise as e:
            r = self.call(leave, [self.typeof(e.val), e.val, None], {})
            if r is not None and self.p.branch(self.truth(r)):
                return None
            raise
        self.call(leave, [None, None, None], {})
        return sig

    def st_ClassDef(self, s, fr):
        raise Unsupported("local class")

    # -- loops ------------------------------------------------------------
    def st_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def body(x):
            self.assign(s.target, x, fr)
            return self.block(s.body, fr)

        sig = self.iterate(it, body, fr, self.nodekey(s, fr))
        if sig is None and s.orelse:
            return self.block(s.orelse, fr)
        if sig is not None and sig[0] == "break":
            return None
        return sig

    def nodekey(self, n, fr):
        return (fr.glob.get("__name__", ""), getattr(n, "lineno", 0), getattr(n, "col_offset", 0))

    def st_While(self, s, fr):
        sig = self.sym_loop(
            None,
            lambda: self.test(s.test, fr),
            lambda _: self.block(s.body, fr),
            fr,
            self.nodekey(s, fr),
        )
        if sig is None and s.orelse:
            return self.block(s.orelse, fr)
        if sig is not None and sig[0] == "break":
            return None
        return sig

    def iterate(self, it, body, fr, key, lenacc=None):
        """run body for the elements of it; returns the exit signal or None"""
        if isinstance(it, Gen):
            return self.iterate_gen(it, body, key)
        if isinstance(it, EnumV):
            cnt = {"n": it.start}

            def b2(x, ix=None):
                if ix is not None:
                    i = self.mkint(ix + (cnt["n"] if isinstance(cnt["n"], int) else self.intt(cnt["n"])))
                    return body((i, x))
                i = cnt["n"]
                cnt["n"] = i + 1 if isinstance(i, int) else self.mkint(self.intt(i) + 1)
                return body((i, x))

            b2.wants_ix = True
            b2.cnt = cnt
            return self.iterate(it.src, b2, fr, key)
        if isinstance(it, ZipV):
            cs = [self.content(x) for x in it.srcs]
            if all(all(p[0] == "e" for p in c) for c in cs):
                return self.iterate(
                    self.mkseq([("e", tuple(p[1] for p in ps)) for ps in zip(*cs)]), body, fr, key
                )
            return self.iterate_zip(cs, body, fr, key)
        if isinstance(it, BoundM) or isinstance(it, (types.FunctionType,)):
            raise self.exc(TypeError, "not iterable")
        if isinstance(it, Obj) and it.items is None and it.base is None or (
            isinstance(it, S) and self.user_op(it, "__iter__") is not None
        ):
            f = self.user_op(it, "__iter__")
            if f is not None:
                return self.iterate(self.call(f, [it], {}), body, fr, key)
        if isinstance(it, Obj) and it.ghost is not None and "iter" in it.ghost:
            it = it.ghost["iter"]()
        for p in list(self.content(it)):
            if p[0] == "e":
                sig = body(p[1])
            else:
                sig = self.sym_loop(p, None, body, fr, key)
            if sig is not None and sig[0] != "continue":
                return sig
        return None

    def iterate_zip(self, cs, body, fr, key):
        # leading concrete elements of the shortest
        if all(len(c) == 1 and c[0][0] == "s" for c in cs):
            ts = [c[0][1] for c in cs]
            zt = uf("zip%d" % len(ts), *([SeqV] * len(ts)), SeqV)(*ts)
            lens = [z3.Length(t) for t in ts]
            n = lens[0]
            for l in lens[1:]:
                n = z3.If(l < n, l, n)
            self.p.add(z3.Length(zt) == n)

            def b2(x, ix=None):
                vs = tuple(self.mk(z3.simplify(t[ix]), c[0][2]) for t, c in zip(ts, cs))
                return body(vs)

            b2.wants_ix = True
            return self.sym_loop(("s", zt, "any"), None, b2, fr, key)
        raise Unsupported("zip of symbolic sequences")

    def iterate_gen(self, g, body, key):
        def level(i, fr):
            if i == len(g.gens):
                return body(self.eval(g.elt, fr))
            gen = g.gens[i]
            src = g.first if i == 0 else self.eval(gen.iter, fr)

            def b(x):
                self.assign(gen.target, x, fr)
                for c in gen.ifs:
                    if not self.test(c, fr):
                        return None
                return level(i + 1, fr)

            return self.iterate(src, b, fr, self.nodekey(gen.iter, fr) + (key,))

        fr = self.frame(g.frame.glob, "<gen>", g.frame, g.frame.cls)
        fr.self_ = g.frame.self_
        return level(0, fr)

    # a loop over a symbolic sequence part, or a while loop (part None)
    def sym_loop(self, part, cond, body, fr, key):
        ex = self.p.ex
        run = self.r
        if self.unroll is not None:
            if part is not None:
                for q in self.expand([part]):
                    sig = body(q[1])
                    if sig is not None and sig[0] != "continue":
                        return sig
                return None
            for _ in range(self.unroll + 2):
                if not cond():
                    return None
                sig = body(None)
                if sig is not None and sig[0] != "continue":
                    return sig
            ex.bounded = True
            raise Infeasible()
        # what an exhausted loop, or one left in a later iteration, says about the
        # iterations before is not known: failed obligations are looked at again unrolled
        self.p.havoc = True
        k = run.nloop
        run.nloop += 1
        real = run.kind == "real"
        lkey = (run.kind, k, key)
        if real:
            info = LoopInfo()
            info.entries = {}
            info.afters = {}
            info.key = lkey
            info.seq = part
            info.elem = None
            info.sub = None
            m = self.p.choose(3)
            info.mode = ("step", "exhaust", "exit")[m]
            assert len(self.p.loops) == k
            self.p.loops.append(info)
        else:
            info = self.p.loops[k] if k < len(self.p.loops) else None
            bad = None
            if info is None:
                bad = "the contract has an additional loop"
            elif (info.seq is None) != (part is None):
                bad = "different kind of loop"
            elif part is not None and not self.same_part(info.seq, part):
                bad = "loops over different sequences"
            if bad is not None:
                if part is not None and self.p.implied(self.part_len(part) <= 0):
                    run.nloop -= 1
                    return None
                raise Mismatch(bad)
        carried = ex.carried.setdefault(lkey, [])
        ids = {l: None for l in carried}
        lf = LoopFrame(run.noid)
        lf.startf = self.nframe
        run.loopframes.append(lf)
        # resolve the carried locations of this execution
        locs = self.resolve_locs(carried)
        for lid, loc in locs:
            v0 = self.read_loc(loc)
            info.entries.setdefault((run.kind, lid), v0)
            info.entries[(run.kind, lid)] = v0
            self.note_hint(lkey, lid, v0)
        for lid, loc in locs:
            if (lkey, lid) in ex.lochint:
                ex.pairs.setdefault((lkey, lid), ex.lochint[(lkey, lid)][0])
        # the assumption made below (equal locations of a class) holds on entry:
        # no path is cut off by it
        self.check_classes(info, "entry", info.entries)
        self.unify_hints(k, real)
        if locs and self.p._check() == z3.unsat:
            raise Infeasible()
        for lid, loc in locs:
            self.havoc(info, lkey, k, lid, loc)
        if locs:
            self.p.havoc = True
            if self.p._check() == z3.unsat:
                raise Unsupported("contradictory loop assumption")
        fr_ix = None
        sig = None
        raised = None
        if part is not None:
            ix = T.const(f"ix!{k}", IntS)
            n = z3.Length(part[1]) if part[0] == "s" else self.range_len(part[1])
            wants = getattr(body, "wants_ix", False)
            la = getattr(body, "lenacc", None)
            if info.mode == "exhaust":
                if la is not None:
                    self.p.add(z3.Length(self.seqterm(self.content(la[0]))) == la[1] + n)
                cnt = getattr(body, "cnt", None)
                if cnt is not None:
                    cnt["n"] = self.mkint(self.intt(cnt["n"]) + n)
                sig = None
            else:
                self.p.add(ix >= 0)
                self.p.add(ix < n)
                if la is not None:
                    self.p.add(z3.Length(self.seqterm(self.content(la[0]))) == la[1] + ix)
                if part[0] == "r":
                    r = part[1]
                    x = self.mkint(self.intt(r.a) + ix * self.intt(r.c))
                elif isinstance(part[2], tuple) and part[2][0] == "rep":
                    x = part[2][1]
                else:
                    own = real or info.seq[0] == "s" and info.seq[1].eq(part[1])
                    el = T.const(f"el!{k}" if own else f"el!{k}!spec", Val)
                    self.p.add(el == part[1][ix])
                    x = self.mk(el, part[2])
                try:
                    sig = body(x, ix) if wants else body(x)
                except PyRaise as e:
                    raised = e
                    sig = ("raise",)
        else:
            try:
                c = cond()
                if not c:
                    sig = ("end",)
                else:
                    sig = body(None)
                    if sig is not None and sig[0] == "continue":
                        sig = None
            except PyRaise as e:
                raised = e
                sig = ("raise",)
            if info.mode == "exhaust":
                if sig != ("end",):
                    if real:
                        raise Infeasible()
                    raise Mismatch("the loops end differently")
                sig = None
            elif sig == ("end",):
                if real:
                    raise Infeasible()
                raise Mismatch("the loops end differently")
        run.loopframes.pop()
        # new carried locations?
        new = []
        for w in lf.writes:
            i = self.locid(w)
            if i is None or i in ids:
                continue
            ids[i] = None
            new.append(i)
        if new:
            carried.extend(new)
            raise RestartAll()
        if info.mode == "exhaust":
            return None
        if sig is not None and sig[0] == "continue":
            sig = None
        if info.mode == "step":
            if sig is not None:
                if real:
                    raise Infeasible()
                raise Mismatch("the loops end differently")
            for lid, loc in locs:
                v1 = self.read_loc(loc)
                info.afters[(run.kind, lid)] = v1
                self.note_hint(lkey, lid, v1)
            if not real:
                self.check_classes(info, "step", info.afters)
            raise Cut()
        # exit
        if sig is None:
            if real:
                raise Infeasible()
            raise Mismatch("the loops end differently")
        if raised is not None:
            raise raised
        return sig

    def same_part(self, a, b):
        """the loops run equally often: they are coupled iteration by iteration"""
        if a[0] == b[0] == "s" and a[1].eq(b[1]):
            return True
        return self.p.implied(self.part_len(a) == self.part_len(b))

    def part_len(self, p):
        return z3.Length(p[1]) if p[0] == "s" else self.range_len(p[1])

    # locations -----------------------------------------------------------
    def locid(self, w):
        if w[0] == "var":
            return ("var", w[1].site, w[2])
        if w[0] == "obj":
            return ("obj", w[1].site, w[2])
        if w[0] == "heap":
            k = str(w[1].t)
            self.p.ex.hrefs[k] = w[1]
            return ("heap", k, w[2])
        return w

    def resolve_locs(self, carried):
        out = []
        for c in carried:
            if c[0] == "var":
                f = self.frames.get(c[1])
                if f is None:
                    continue
                if c[2] not in f.env or f.env[c[2]] is MISSING or f.env[c[2]] is MAYBE:
                    f.env[c[2]] = MAYBE
                    continue
                out.append((c, ("var", f, c[2])))
            elif c[0] == "obj":
                o = self.r.allobjs.get(c[1])
                if o is None:
                    continue
                out.append((c, ("obj", o, c[2])))
            elif c[0] == "heap":
                ref = self.p.ex.hrefs[c[1]]
                if self.p.implied(Val.is_VNone(ref.t)):
                    continue
                out.append((c, ("heap", ref, c[2])))
            elif c[0] == "world":
                out.append((c, ("world",)))
        return out

    def new(self, cls):
        o = super().new(cls)
        o.site = self.site(("obj", getattr(cls, "__name__", str(cls)), self.curnode))
        self.r.allobjs[o.site] = o
        return o

    def initial(self, s, a):
        if a == "$items":
            if self.is_dictlike(s):
                return self.dcontent(s)
            if self.is_setlike(s):
                return self.scontent(s)
            return self.content(s)
        return self.getattr_s(s, a)

    def read_loc(self, loc):
        if loc[0] == "var":
            return loc[1].env[loc[2]]
        if loc[0] == "obj":
            o, a = loc[1], loc[2]
            if a == "$items":
                if o.items is None and o.base is not None:
                    return self.content(o.base)
                return o.items
            if a in o.attrs:
                return o.attrs[a]
            if o.base is not None:
                return self.getattr_s(o.base, a, owner=o)
            return MISSING
        if loc[0] == "heap":
            s, a = loc[1], loc[2]
            k = (self.key(s.t), a)
            if k in self.r.heap:
                return self.r.heap[k]
            return self.initial(s, a)
        return self.r.world

    def write_loc(self, loc, v):
        if loc[0] == "var":
            loc[1].env[loc[2]] = v
        elif loc[0] == "obj":
            if loc[2] == "$items":
                loc[1].items = v
            else:
                loc[1].attrs[loc[2]] = v
        elif loc[0] == "heap":
            self.r.heap[(self.key(loc[1].t), loc[2])] = v
        else:
            self.r.world = v

    def sort_of(self, v):
        if isinstance(v, z3.ExprRef):
            return "view" if v.sort() == View else "world"
        if isinstance(v, list) and (not v or isinstance(v[0], tuple) and v[0] and v[0][0] in ("e", "s", "r")):
            return "seq"
        if isinstance(v, (CDict, DictC)):
            return "dict"
        if v is MISSING:
            return "missing"
        return "val"

    def note_hint(self, lkey, lid, v):
        ex = self.p.ex
        so = self.sort_of(v)
        if so in ("view", "world"):
            h = so
        elif so == "seq":
            h = None if not v else self.parts_hint(v)
            if h is None:
                h = ("empty",)
        elif so == "dict":
            d = self.to_sym(v)
            h = ("dict", d.hk, d.hv) if not (isinstance(v, CDict) and not v.pairs) else ("empty",)
        elif so == "missing":
            return
        else:
            h = self.hint_of(v)
        kk = (lkey, lid)
        old = ex.lochint.get(kk)
        if old is None:
            ex.lochint[kk] = (so, h)
            return
        if old[0] != so:
            raise Unsupported("loop variable of changing sort")
        if old[1] == ("empty",):
            j = h
        elif h == ("empty",):
            j = old[1]
        elif so == "dict":
            j = ("dict", self.join(old[1][1], h[1]), self.join(old[1][2], h[2]))
        elif so in ("view", "world"):
            j = h
        else:
            j = self.join(old[1], h)
        if j != old[1]:
            ex.lochint[kk] = (so, j)
            raise RestartAll()

    def unify_hints(self, k, real):
        """the locations of a class have the same type"""
        ex = self.p.ex
        cl = {}
        for kk, c in ex.pairs.items():
            if kk[0][1] == k and kk in ex.lochint:
                cl.setdefault(c, []).append(kk)
        changed = False
        for ms in cl.values():
            hs = [ex.lochint[kk] for kk in ms]
            so = hs[0][0]
            if len(ms) < 2 or so in ("view", "world") or any(h[0] != so for h in hs):
                continue
            j = None
            for _, h in hs:
                if h == ("empty",) or h == j:
                    continue
                if j is None:
                    j = h
                elif so == "dict":
                    j = ("dict", self.join(j[1], h[1]), self.join(j[2], h[2]))
                else:
                    j = self.join(j, h)
            if j is None:
                continue
            for kk in ms:
                if ex.lochint[kk][1] != j:
                    ex.lochint[kk] = (so, j)
                    changed = True
        if changed:
            raise RestartAll()

    def havoc(self, info, lkey, k, lid, loc):
        ex = self.p.ex
        so, h = ex.lochint[(lkey, lid)] if (lkey, lid) in ex.lochint else (None, None)
        if so is None:
            return
        c = ex.pairs.setdefault((lkey, lid), so)
        name = f"lv!{k}!{c}"
        if so == "world":
            v = T.const(name, World)
        elif so == "view":
            v = T.const(name, View)
        elif so == "seq":
            if h == ("empty",):
                return
            v = [("s", T.const(name, SeqV), h)]
        elif so == "dict":
            if h == ("empty",):
                return
            v = DictC(T.const(name + "a", ArrV), T.const(name + "k", SeqV), h[1], h[2])
        else:
            v = self.mk(T.const(name, Val), h)
        self.write_loc(loc, v)

    def check_classes(self, info, what, vals):
        """the locations of a class have equal values (both executions)"""
        ex = self.p.ex
        # class -> members
        cl = {}
        for (kind, lid), v in vals.items():
            lkey = info.key if kind == "real" else None
            kk = None
            for q in ex.pairs:
                if q[1] == lid and q[0][0] == kind and q[0][1] == info.key[1]:
                    kk = q
                    break
            if kk is None:
                continue
            cl.setdefault(ex.pairs[kk], []).append((kk, v))
        split = False
        for c, ms in cl.items():
            if len(ms) < 2:
                continue
            groups = []
            for kk, v in ms:
                for g in groups:
                    if self.same_value(g[0][1], v):
                        g.append((kk, v))
                        break
                else:
                    groups.append([(kk, v)])
            if len(groups) > 1:
                split = True
                for i, g in enumerate(groups):
                    for kk, v in g:
                        ex.pairs[kk] = f"{c}/{i}"
        if split:
            raise RestartAll()

    def same_value(self, a, b):
        sa, sb = self.sort_of(a), self.sort_of(b)
        if sa != sb:
            return False
        if sa in ("view", "world"):
            return a.eq(b) or self.p.implied(a == b)
        if sa == "seq":
            x, y = self.seqterm(a), self.seqterm(b)
            return x.eq(y) or self.p.implied(x == y)
        if sa == "dict":
            x, y = self.to_sym(a), self.to_sym(b)
            return self.p.implied(z3.And(x.arr == y.arr, x.keys == y.keys))
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b or (
                isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls
                and a.cls in self.m.records and self.p.implied(self.enc(a) == self.enc(b))
            )
        x, y = self.enc(a), self.enc(b)
        return x.eq(y) or self.p.implied(x == y)

    # ------------------------------------------------------------------
    # expressions
    def eval(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), mangled(e.attr, fr))

    def ev_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.name == "<gen>" and f.parent is not None:
            f = f.parent
        self.setvar(f, e.target.id, v)
        return v

    def ev_Tuple(self, e, fr):
        parts = self.elts(e.elts, fr)
        return self.mkseq(parts)

    def elts(self, es, fr):
        parts = []
        for x in es:
            if isinstance(x, ast.Starred):
                parts.extend(self.tolist(self.eval(x.value, fr)).items)
            else:
                parts.append(("e", self.eval(x, fr)))
        return parts

    def ev_List(self, e, fr):
        return self.newlist(self.elts(e.elts, fr))

    def ev_Set(self, e, fr):
        o = self.new(set)
        o.items = CDict([])
        for p in self.elts(e.elts, fr):
            if p[0] != "e":
                raise Unsupported("starred set element")
            self.dict_set(o, p[1], True)
        return o

    def ev_Dict(self, e, fr):
        o = self.new(dict)
        o.items = CDict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.call(self.builtin_method(o, "update"), [self.eval(v, fr)], {})
            else:
                kk = self.eval(k, fr)
                self.dict_set(o, kk, self.eval(v, fr))
        return o

    def gen(self, e, fr):
        first = self.eval(e.generators[0].iter, fr)
        return Gen(e.elt, e.generators, fr, first)

    def ev_GeneratorExp(self, e, fr):
        return self.gen(e, fr)

    def ev_ListComp(self, e, fr):
        return self.collect(self.gen(e, fr), self.nodekey(e, fr))

    def collect(self, g, key, cls=list):
        if (isinstance(g, Gen) and len(g.gens) == 1 and not g.gens[0].ifs and isinstance(g.elt, ast.Name)
                and isinstance(g.gens[0].target, ast.Name) and g.elt.id == g.gens[0].target.id):
            return self.tolist(g.first, cls)  # [x for x in y] is list(y)
        acc = self.newlist((), cls)
        body = lambda x: self.list_append(acc, x)
        if isinstance(g, Gen) and len(g.gens) == 1 and not g.gens[0].ifs:
            return self.collect_map(g, acc, key)
        self.iterate(g, body, None if not isinstance(g, Gen) else g.frame, key)
        return acc

    def collect_map(self, g, acc, key):
        fr = self.frame(g.frame.glob, "<gen>", g.frame, g.frame.cls)
        fr.self_ = g.frame.self_
        gen = g.gens[0]

        def b(x):
            self.assign(gen.target, x, fr)
            self.list_append(acc, self.eval(g.elt, fr))

        if isinstance(g.first, (Gen, EnumV, ZipV)) or (
            isinstance(g.first, (Obj,)) and g.first.items is None
        ):
            self.iterate(g.first, b, fr, key)
            return acc
        src = g.first
        if isinstance(src, S) and self.user_op(src, "__iter__") is not None:
            self.iterate(src, b, fr, key)
            return acc
        for p in list(self.content(src)):
            if p[0] == "e":
                b(p[1])
            else:
                ln = self.seqlen(acc.items)
                b.lenacc = (acc, self.intt(ln))
                self.sym_loop(p, None, b, fr, key)
        return acc

    def tolist(self, it, cls=list):
        if isinstance(it, Gen):
            return self.collect(it, ("tolist", self.nodekey(it.elt, it.frame)), cls)
        if isinstance(it, (EnumV, ZipV)):
            return self.collect(it, ("tolist",), cls)
        if isinstance(it, Obj) and it.items is None and it.base is None or (
            isinstance(it, S) and self.user_op(it, "__iter__") is not None
        ):
            f = self.user_op(it, "__iter__")
            if f is not None:
                return self.tolist(self.call(f, [it], {}), cls)
        return self.newlist(self.content(it), cls)

    def ev_SetComp(self, e, fr):
        o = self.new(set)
        o.items = CDict([])
        self.iterate(self.gen(e, fr), lambda x: self.dict_set(o, x, True), fr, self.nodekey(e, fr))
        return o

    def ev_DictComp(self, e, fr):
        o = self.new(dict)
        o.items = CDict([])
        t = ast.Tuple([e.key, e.value], ast.Load())
        g = Gen(t, e.generators, fr, self.eval(e.generators[0].iter, fr))
        self.iterate(g, lambda x: self.dict_set(o, x[0], x[1]), fr, self.nodekey(e, fr))
        return o

    def ev_Lambda(self, e, fr):
        return self.make_closure(e, fr, "<lambda>")

    def ev_IfExp(self, e, fr):
        if self.test(e.test, fr):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def ev_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.p.branch(self.truth(v))
            if isinstance(e.op, ast.And) and not t:
                return self.known_truth(v, False)
            if isinstance(e.op, ast.Or) and t:
                return self.known_truth(v, True)
        return v

    def known_truth(self, v, b):
        if isinstance(v, S) and v.h == "bool":
            return b
        return v

    def ev_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            t = self.truth(self.eval(e.operand, fr))
            return self.mkbool(self.bnot(t))
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return self.pos(v)
        raise Unsupported("~")

    def ev_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op), a, b)

    def ev_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        r = True
        n = len(e.ops)
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(x, fr)
            if i == n - 1 and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                d, rd = ORDER[type(op)]
                f = self.user_op(a, d)
                if f is not None:
                    return self.call(f, [a, b], {})
                f = self.user_op(b, rd)
                if f is not None:
                    return self.call(f, [b, a], {})
            r = self.compare(op, a, b)
            if i < n - 1:
                if not self.p.branch(r):
                    return False
            a = b
        return self.mkbool(r)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.bnot(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.bnot(self.contains(b, a))
        s = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return self.less(s, a, b)

    def ne(self, a, b):
        for x, y in ((a, b), (b, a)):
            f = self.user_op(x, "__ne__")
            if f is not None:
                return self.truth(self.call(f, [x, y], {}))
            c = self.maybe_casefold(x)
            if c is not False and self.p.branch(c):
                cf = self.casefold_class()
                return self.truth(self.call(cf.__dict__["__ne__"], [self.rehint(x, cf), y], {}))
        return self.bnot(self.eq(a, b))

    def ev_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        return self.getitem(v, self.eval(e.slice, fr))

    def ev_Slice(self, e, fr):
        return SliceV(
            *[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)]
        )

    def ev_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.eval(x.value, fr)
                if x.format_spec is not None:
                    self.eval(x.format_spec, fr)
                    out.append(self.fresh_str("fmt"))
                elif x.conversion in (-1, 115):
                    out.append(self.tostr_quiet(v))
                else:
                    out.append(self.fresh_str("repr"))
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return self.mkstr(z3.Concat(*[self.strt(x) for x in out]) if len(out) > 1 else self.strt(out[0]))

    ev_FormattedValue = None

    def fresh_str(self, tag):
        return self.mkstr(T.const(f"{tag}!{self.r.kind}!{self.nextid()}", StrS))

    def nextid(self):
        self.r.nid += 1
        return self.r.nid

    def tostr_quiet(self, v):
        """text of a value inside a message; never raises or branches"""
        if isinstance(v, str):
            return v
        if isinstance(v, (int, bool, float)) or v is None:
            return str(v)
        if isinstance(v, S) and v.h == "str":
            return v
        if isinstance(v, S):
            return self.mkstr(uf("strof", Val, StrS)(v.t))
        if isinstance(v, enum.Enum):
            return str(v)
        if isinstance(v, type):
            return str(v)
        return self.fresh_str("str")

    def tostr(self, v, how="__str__"):
        if isinstance(v, str):
            return v
        if isinstance(v, S):
            v = self.resolve(v)
        if isinstance(v, (int, bool, float, enum.Enum)) or v is None:
            return str(v)
        if isinstance(v, S) and v.h == "str":
            return v
        f = self.user_op(v, how)
        if f is None and how == "__str__":
            f = self.user_op(v, "__repr__")
        if f is not None:
            return self.call(f, [v], {})
        if isinstance(v, S):
            h = v.h
            if h in ("bool", "int", "intb"):
                return self.mkstr(uf("strof", Val, StrS)(v.t))
            if h == "any":
                if self.p.branch(self.is_kind(v, "str")):
                    return self.as_(v, "str")
            return self.mkstr(uf("strof", Val, StrS)(v.t))
        try:
            return self.mkstr(uf("strof", Val, StrS)(self.enc(v)))
        except Unsupported:
            return self.fresh_str("str")

    def hash_(self, v):
        f = self.user_op(v, "__hash__")
        if f is not None:
            return self.call(f, [v], {})
        if not self.symbolic(v):
            if isinstance(v, (int, bool)):
                return int(v)
        k = self.enc(v)
        return self.mkint(uf("hashof", Val, IntS)(k))

    def ev_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def ev_Yield(self, e, fr):
        acc = self.lookup(fr, "$yield")
        self.list_append(acc, None if e.value is None else self.eval(e.value, fr))
        return None

    def ev_YieldFrom(self, e, fr):
        acc = self.lookup(fr, "$yield")
        self.list_extend(acc, self.eval(e.value, fr))
        return None

    def ev_Call(self, e, fr):
        pos = (e.lineno, e.col_offset)
        f0 = e.func
        if isinstance(f0, ast.Name) and f0.id == "super" and not e.args:
            fx = fr
            while fx is not None and fx.cls is None:
                fx = fx.parent
            if fx is None:
                raise Unsupported("super() outside a class")
            # the frame holding the first argument
            return SuperV(fx.cls, self.first_arg(fr))
        f = self.eval(f0, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                parts = self.tolist(v).items
                if all(p[0] == "e" for p in parts):
                    args.extend(p[1] for p in parts)
                else:
                    args.append(Star(parts))
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for kx in e.keywords:
            if kx.arg is None:
                d = self.eval(kx.value, fr)
                c = self.dcontent(d)
                if not isinstance(c, CDict) or not all(isinstance(q, str) for q, _ in c.pairs):
                    raise Unsupported("** of symbolic dictionary")
                kwargs.update(dict(c.pairs))
            else:
                kwargs[kx.arg] = self.eval(kx.value, fr)
        old = self.curnode
        self.curnode = (fr.name,) + pos
        try:
            return self.call(f, args, kwargs)
        finally:
            self.curnode = old

    def first_arg(self, fr):
        f = fr
        while f is not None:
            if f.self_ is not None and f.cls is not None:
                return f.self_
            f = f.parent
        raise Unsupported("super()")

    # ------------------------------------------------------------------
    # containers: methods
    def list_extend(self, o, it):
        if isinstance(it, Gen):
            self.iterate(it, lambda x: self.list_append(o, x), it.frame,
                         ("extend", self.nodekey(it.elt, it.frame)))
            return
        parts = self.tolist(it).items
        self.set_content(o, list(self.content(o)) + list(parts))

    def set_update(self, o, it):
        d = self.scontent(o)
        if isinstance(it, S):
            it = self.resolve(it)
        if isinstance(it, (S, Obj)) and not self.is_setlike(it) and not self.is_listlike(it):
            f = self.user_op(it, "__iter__")
            if f is not None:
                it = self.call(f, [it], {})
        if self.is_dictlike(it):
            e = self.to_sym(self.dcontent(it)) if isinstance(self.dcontent(it), DictC) else self.dcontent(it)
            if isinstance(e, CDict):
                for k, _ in e.pairs:
                    self.dict_set(o, k, True)
                return
            k = self.new(set)
            k.items = DictC(uf("dict_keyset", ArrV, ArrV)(e.arr), e.keys, e.hk, "bool")
            it = k
        if isinstance(it, (Gen, EnumV, ZipV)):
            self.iterate(it, lambda x: self.dict_set(o, x, True), getattr(it, "frame", None),
                         ("set", ) + ((self.nodekey(it.elt, it.frame)) if isinstance(it, Gen) else ()))
            return
        if self.is_setlike(it):
            e = self.scontent(it)
            if isinstance(e, CDict):
                for k, _ in e.pairs:
                    self.dict_set(o, k, True)
                return
            if isinstance(d, CDict) and not d.pairs:
                self.set_items(o, e)
                return
            d = self.to_sym(d)
            self.set_items(o, DictC(
                uf("set_or", ArrV, ArrV, ArrV)(d.arr, e.arr),
                uf("seq_or", SeqV, SeqV, SeqV)(d.keys, e.keys),
                self.join(d.hk, e.hk), "bool"))
            return
        for p in self.tolist(it).items:
            if p[0] == "e":
                self.dict_set(o, p[1], True)
            elif p[0] == "s":
                d = self.to_sym(self.scontent(o))
                hk = p[2] if d.hk == "any" else self.join(d.hk, p[2])
                self.set_items(o, DictC(
                    uf("set_addseq", ArrV, SeqV, ArrV)(d.arr, p[1]),
                    uf("seq_addseq", SeqV, SeqV, SeqV)(d.keys, p[1]), hk, "bool"))
            else:
                raise Unsupported("set of a range")

    def set_minus(self, o, it):
        if self.unroll is not None:
            for p in list(self.content(it)):
                self.dict_del(o, p[1], True)
            return
        if self.is_setlike(it):
            e = self.to_sym(self.scontent(it))
            if isinstance(self.scontent(it), CDict) and not self.scontent(it).pairs:
                return
            d = self.to_sym(self.scontent(o))
            self.set_items(o, DictC(
                uf("set_minus", ArrV, ArrV, ArrV)(d.arr, e.arr),
                uf("seq_minus", SeqV, ArrV, SeqV)(d.keys, e.arr), d.hk, "bool"))
            return
        raise Unsupported("set difference")

    def set_op(self, sym, a, b):
        r = self.new(set)
        r.items = self.scontent(a)
        if sym == "|":
            self.set_update(r, b)
        elif sym == "-":
            self.set_minus(r, b)
        elif self.unroll is not None and sym in "&^":
            if sym == "^":
                self.set_update(r, b)
            for k, _ in list(r.items.pairs):
                both = self.p.branch(self.contains(a, k)) and self.p.branch(self.contains(b, k))
                if both == (sym == "^"):
                    self.dict_del(r, k, True)
        else:
            raise Unsupported("set operation")
        return r

    def to_concrete_list(self, parts):
        return [p[1] for p in parts] if all(p[0] == "e" for p in parts) else None

    def builtin_method(self, v, name):
        if isinstance(v, S):
            v = self.resolve(v)
        if isinstance(v, str) or (isinstance(v, S) and v.h == "str"):
            return self.str_method(v, name)
        if self.is_dictlike(v):
            return self.dict_method(v, name)
        if self.is_setlike(v) or isinstance(v, (set, frozenset)):
            return self.set_method(v, name)
        if isinstance(v, (types.MappingProxyType, inspect.Signature, inspect.Parameter)):
            return getattr(v, name)
        if isinstance(v, (Obj, S, list, Seq, tuple)):
            if isinstance(v, S) and v.h in ("int", "bool", "float", "intb", "none"):
                raise self.exc(AttributeError, name)
            return self.list_method(v, name)
        if isinstance(v, (int, float)):
            if hasattr(v, name):
                return getattr(v, name)
            raise self.exc(AttributeError, name)
        if hasattr(v, name):
            return getattr(v, name)
        raise self.exc(AttributeError, name)

    def str_method(self, v, name):
        if not hasattr(str, name):
            raise self.exc(AttributeError, name)

        def fn(args, kwargs):
            args = self.flat(args)
            if isinstance(v, str) and not any(self.symbolic(a) for a in args) and not kwargs:
                try:
                    return getattr(v, name)(*args)
                except Exception as e:
                    raise self.exc(type(e), str(e))
            if name == "format":
                return self.fresh_fmt(v, args)
            if name == "join":
                parts = self.tolist(args[0]).items
                items = self.to_concrete_list(parts)
                if items is None:
                    return self.mkstr(uf("strjoin", StrS, SeqV, StrS)(self.strt(v), self.seqterm(parts)))
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(self.strt(v))
                    if not self.p.branch(self.is_kind(x, "str")):
                        raise self.exc(TypeError, "join")
                    out.append(self.strt(self.as_(x, "str")))
                return self.mkstr(T.str_term("") if not out else out[0] if len(out) == 1 else z3.Concat(*out))
            st = self.strt(v)
            if name in ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase") and not args:
                return self.mkstr(uf("str_" + name, StrS, StrS)(st))
            if name in ("strip", "lstrip", "rstrip") and len(args) == 1:
                return self.mkstr(uf("str2_" + name, StrS, StrS, StrS)(st, self.strt(args[0])))
            if name in ("startswith", "endswith"):
                a = args[0]
                if len(args) == 1:
                    if isinstance(a, (tuple, Seq)):
                        rs = []
                        for p in self.content(a):
                            if p[0] != "e":
                                raise Unsupported("startswith of a symbolic tuple")
                            rs.append(self.affix(name, st, p[1]))
                        return self.mkbool(self.bor(*rs))
                    return self.mkbool(self.affix(name, st, a))
            if name in ("find", "rfind", "index", "rindex", "count"):
                a = args[0]
                if not self.p.branch(self.is_kind(a, "str")):
                    raise self.exc(TypeError, "must be str")
                ps = []
                for x in (list(args[1:]) + [None, None])[:2]:
                    ok = self.bor(self.is_intlike(x), self.is_kind(x, "none"))
                    if not self.p.branch(ok):
                        raise self.exc(TypeError, "slice indices must be integers")
                    ps.append(self.norm_int(x))
                if z3.is_app(ps[0]) and ps[0].eq(Val.VNone):
                    ps[0] = Val.VInt(z3.IntVal(0))
                return self.mkint(
                    uf("str_" + name, StrS, StrS, Val, Val, IntS)(
                        st, self.strt(self.as_(a, "str")), z3.simplify(ps[0]), z3.simplify(ps[1])
                    )
                )
            if name in ("removeprefix", "removesuffix") and len(args) == 1:
                x = self.strt(args[0])
                n, k = z3.Length(st), z3.Length(x)
                if name == "removeprefix":
                    return self.mkstr(z3.If(z3.PrefixOf(x, st), z3.SubString(st, k, n - k), st))
                return self.mkstr(z3.If(z3.SuffixOf(x, st), z3.SubString(st, 0, n - k), st))
            if name == "replace" and len(args) == 2:
                return self.mkstr(uf("str_replace", StrS, StrS, StrS, StrS)(st, *[self.strt(a) for a in args]))
            if name in ("isdigit", "isalpha", "isspace", "isupper", "islower", "isnumeric") and not args:
                return self.mkbool(uf("str_" + name, StrS, BoolS)(st))
            if name == "__len__":
                return self.length(v)
            if name == "__contains__":
                return self.mkbool(self.contains(v, args[0]))
            if name in ("split", "splitlines", "partition", "rpartition", "rsplit"):
                return self.newlist([("s", uf("str_" + name, StrS, Val, SeqV)(
                    st, self.enc(args[0]) if args else Val.VNone), "str")])
            raise Unsupported(f"str.{name}")

        return Builtin("str." + name, fn)

    def fresh_fmt(self, v, args):
        if isinstance(v, str):
            import string

            try:
                pieces = list(string.Formatter().parse(v))
                out = []
                i = 0
                ok = True
                for lit, field, spec, conv in pieces:
                    if lit:
                        out.append(lit)
                    if field is None:
                        continue
                    if field != "" and not field.isdigit() or spec or conv:
                        ok = False
                        break
                    a = args[int(field)] if field else args[i]
                    i += 1
                    out.append(self.fmt_str(a))
                if ok:
                    if all(isinstance(x, str) for x in out):
                        return "".join(out)
                    return self.mkstr(z3.Concat(*[self.strt(x) for x in out]) if len(out) > 1 else self.strt(out[0]))
            except (ValueError, IndexError):
                pass
        return self.fresh_str("fmt")

    def fmt_str(self, a):
        if isinstance(a, S) and a.h != "str":
            return self.tostr_quiet(a)
        if isinstance(a, (S, str)):
            return a
        if isinstance(a, Obj):
            return self.tostr(a)
        return self.tostr_quiet(a)

    def affix(self, name, st, a):
        if not self.p.branch(self.is_kind(a, "str")):
            raise self.exc(TypeError, "first arg must be str")
        x = self.strt(self.as_(a, "str"))
        return z3.PrefixOf(x, st) if name == "startswith" else z3.SuffixOf(x, st)

    def list_method(self, v, name):
        def fn(args, kwargs):
            args = self.flat(args)
            c = self.content(v)
            conc = all(p[0] == "e" for p in c)
            if name == "append":
                self.list_append(v, args[0])
                return None
            if name == "extend":
                self.list_extend(v, args[0])
                return None
            if name == "clear":
                self.set_content(v, [])
                return None
            if name == "copy":
                return self.newlist(c)
            if name == "__len__":
                return self.length(v)
            if name == "__iter__":
                return v
            if name == "__contains__":
                return self.mkbool(self.contains(v, args[0]))
            if name == "__getitem__":
                return self.getitem(v, args[0])
            if name == "insert":
                i, x = args
                if i == 0 and isinstance(i, int):
                    self.set_content(v, [("e", x)] + list(c))
                    return None
                if conc and isinstance(i, int):
                    q = list(c)
                    q.insert(i, ("e", x))
                    self.set_content(v, q)
                    return None
                raise Unsupported("list.insert")
            if name == "pop":
                i = args[0] if args else -1
                if not isinstance(i, int):
                    raise Unsupported("list.pop")
                if not self.p.branch(self.truth(self.length(v))):
                    raise self.exc(IndexError, "pop from empty list")
                if i == -1 and c[-1][0] == "e":
                    self.set_content(v, c[:-1])
                    return c[-1][1]
                if i == 0 and c[0][0] == "e":
                    self.set_content(v, c[1:])
                    return c[0][1]
                if conc:
                    q = list(c)
                    try:
                        x = q.pop(i)
                    except IndexError:
                        raise self.exc(IndexError, "pop index")
                    self.set_content(v, q)
                    return x[1]
                t = self.seqterm(c)
                n = z3.Length(t)
                h = self.parts_hint(c)
                if i == -1:
                    self.set_content(v, [("s", z3.Extract(t, 0, n - 1), h)])
                    return self.mk(t[n - 1], h)
                if i == 0:
                    self.set_content(v, [("s", z3.Extract(t, 1, n - 1), h)])
                    return self.mk(t[0], h)
                raise Unsupported("list.pop")
            if name in ("remove", "index"):
                x = args[0]
                if conc:
                    for j, p in enumerate(c):
                        if self.p.branch(self.eq(p[1], x)):
                            if name == "index":
                                return j
                            self.set_content(v, c[:j] + c[j + 1:])
                            return None
                    raise self.exc(ValueError, "not in list")
                r = self.contains(self.mkseq(c) if not isinstance(v, S) else v, x)
                if not self.p.branch(r):
                    raise self.exc(ValueError, "not in list")
                t = self.seqterm(c)
                kt = self.elem_key(c, x)
                if name == "remove":
                    self.set_content(v, [("s", uf("seq_remove", SeqV, Val, SeqV)(t, kt), self.parts_hint(c))])
                    return None
                i = uf("seq_index", SeqV, Val, IntS)(t, kt)
                self.p.add(z3.And(i >= 0, i < z3.Length(t)))
                return self.mkint(i)
            if name == "count":
                x = args[0]
                return self.mkint(uf("seq_count", SeqV, Val, IntS)(self.seqterm(c), self.elem_key(c, x)))
            if name == "sort":
                self.set_content(v, self.sorted_parts(v, kwargs))
                return None
            if name == "reverse":
                if conc:
                    self.set_content(v, list(reversed(c)))
                    return None
                raise Unsupported("reverse")
            raise Unsupported(f"list.{name}")

        if not hasattr(list, name) and not hasattr(tuple, name):
            raise self.exc(AttributeError, name)
        return Builtin("list." + name, fn)

    def elem_key(self, c, x):
        h = self.parts_hint(c)
        cf = self.casefold_class()
        if cf is not None and is_cls(h) and issubclass(h, cf):
            return self.m.fold_key(self, x)
        return self.enc(x)

    def sorted_parts(self, v, kwargs):
        if kwargs:
            if set(kwargs) - {"key", "reverse"} or kwargs.get("reverse", False) is not False:
                raise Unsupported("sorted with options")
            key = kwargs.get("key")
        else:
            key = None
        if self.is_setlike(v) and not isinstance(self.scontent(v), CDict):
            d = self.scontent(v)
            return [("s", uf("sortedset", ArrV, SeqV)(d.arr), d.hk)]
        c = self.tolist(v).items
        items = self.to_concrete_list(c)
        if items is not None and key is None:
            if len(items) <= 1:
                return list(c)
            if not any(self.symbolic(x) for x in items):
                try:
                    return [("e", x) for x in sorted(items)]
                except TypeError as e:
                    raise self.exc(TypeError, str(e))
        if self.unroll is not None and items is not None:
            done = []
            for x in items:
                kx = x if key is None else self.call(key, [x], {})
                j = len(done)
                while j > 0 and self.p.branch(self.truth(self.compare(ast.Lt(), kx, done[j - 1][0]))):
                    j -= 1
                done.insert(j, (kx, x))
            return [("e", x) for _, x in done]
        h = self.parts_hint(c)
        t = self.seqterm(c)
        kn = Val.VNone
        if key is not None:
            kn = Val.VPy(z3.IntVal(T.py_id(key if not isinstance(key, Closure) else ast.dump(key.node))))
        r = uf("seqsorted", SeqV, Val, SeqV)(t, kn)
        self.p.add(z3.Length(r) == z3.Length(t))
        return [("s", r, h)]

    def dict_method(self, v, name):
        def fn(args, kwargs):
            args = self.flat(args)
            if name == "get":
                return self.dict_get(v, args[0], args[1] if len(args) > 1 else kwargs.get("default"))
            if name == "__getitem__":
                return self.dict_get(v, args[0])
            if name == "__setitem__":
                return self.dict_set(v, args[0], args[1])
            if name == "__delitem__":
                return self.dict_del(v, args[0])
            if name == "__contains__":
                return self.mkbool(self.contains(v, args[0]))
            if name == "__len__":
                return self.length(v)
            if name in ("keys", "__iter__"):
                return self.mkseq(self.content(v))
            if name in ("values", "items"):
                d = self.dcontent(v)
                if isinstance(d, CDict):
                    return self.mkseq([("e", x if name == "values" else (k, x)) for k, x in d.pairs])
                h = d.hv if name == "values" else ("tup", d.hk, d.hv)
                t = uf("dict_" + name, ArrV, SeqV, SeqV)(d.arr, d.keys)
                self.p.add(z3.Length(t) == z3.Length(d.keys))
                return self.mkseq([("s", t, h)])
            if name == "update":
                for a in args:
                    if self.is_dictlike(a):
                        e = self.dcontent(a)
                        d = self.dcontent(v)
                        if isinstance(e, CDict):
                            for k, x in e.pairs:
                                self.dict_set(v, k, x)
                        elif isinstance(d, CDict) and not d.pairs:
                            self.set_dcontent(v, e)
                        else:
                            d = self.to_sym(d)
                            self.set_dcontent(v, DictC(
                                uf("dict_upd", ArrV, ArrV, SeqV, ArrV)(d.arr, e.arr, e.keys),
                                uf("dict_updk", SeqV, SeqV, ArrV, SeqV)(d.keys, e.keys, d.arr),
                                self.join(d.hk, e.hk), self.join(d.hv, e.hv)))
                    else:
                        self.iterate(a, lambda x: self.dict_set(
                            v, self.getitem(x, 0), self.getitem(x, 1)), getattr(a, "frame", None), ("update",))
                for k, x in kwargs.items():
                    self.dict_set(v, k, x)
                return None
            if name == "clear":
                self.set_dcontent(v, CDict([]))
                return None
            if name == "copy":
                r = self.new(dict)
                r.items = self.dcontent(v)
                return r
            if name == "pop":
                if self.p.branch(self.contains(v, args[0])):
                    return self.dict_del(v, args[0])
                if len(args) > 1:
                    return args[1]
                raise self.exc(KeyError, args[0])
            if name == "setdefault":
                if self.p.branch(self.contains(v, args[0])):
                    return self.dict_get(v, args[0])
                x = args[1] if len(args) > 1 else None
                self.dict_set(v, args[0], x)
                return x
            raise Unsupported(f"dict.{name}")

        if not hasattr(dict, name):
            raise self.exc(AttributeError, name)
        return Builtin("dict." + name, fn)

    def set_method(self, v, name):
        def fn(args, kwargs):
            args = self.flat(args)
            if name == "add":
                return self.dict_set(v, args[0], True)
            if name == "discard":
                self.dict_del(v, args[0], True)
                return None
            if name == "remove":
                self.dict_del(v, args[0])
                return None
            if name == "update":
                for a in args:
                    self.set_update(v, a)
                return None
            if name in ("union", "copy"):
                r = self.new(set)
                r.items = self.scontent(v)
                for a in args:
                    self.set_update(r, a)
                return r
            if name in ("difference_update", "difference"):
                r = v
                if name == "difference":
                    r = self.new(set)
                    r.items = self.scontent(v)
                for a in args:
                    self.set_minus(r, a)
                return r if name == "difference" else None
            if name == "clear":
                self.set_items(v, CDict([]))
                return None
            if name == "__contains__":
                return self.mkbool(self.contains(v, args[0]))
            if name == "__len__":
                return self.length(v)
            if name == "__iter__":
                return v
            raise Unsupported(f"set.{name}")

        if not hasattr(set, name):
            raise self.exc(AttributeError, name)
        return Builtin("set." + name, fn)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


# ---------------------------------------------------------------------------
# builtin functions

NATIVE = {}


def native(*fs):
    def deco(h):
        for f in fs:
            NATIVE[f] = h
        return h

    return deco


@native(isinstance)
def _isinstance(I, a, k):
    return I.mkbool(I.isinstance_(a[0], a[1]))


@native(issubclass)
def _issubclass(I, a, k):
    return I.mkbool(I.issub(a[0], a[1]))


@native(len)
def _len(I, a, k):
    return I.length(a[0])


@native(str)
def _str(I, a, k):
    return I.tostr(a[0]) if a else ""


@native(repr)
def _repr(I, a, k):
    if not I.symbolic(a[0]):
        return repr(a[0])
    f = I.user_op(a[0], "__repr__")
    if f is not None:
        return I.call(f, [a[0]], {})
    return I.mkstr(uf("reprof", Val, StrS)(I.enc(a[0])))


@native(bool)
def _bool(I, a, k):
    return I.mkbool(I.truth(a[0])) if a else False


def _num(I, a, name, py):
    if not a:
        return py()
    v = a[0]
    if isinstance(v, S):
        v = I.resolve(v)
    if not I.symbolic(v):
        try:
            return py(v)
        except Exception as e:
            raise I.exc(type(e), str(e))
    if len(a) > 1:
        raise Unsupported("int with base")
    if isinstance(v, S):
        if v.h == "any":
            v = kindsplit(I, v)
        if v.h in ("int", "bool", "intb"):
            if name == "int":
                return I.mkint(I.intt(v))
            return I.mkflt(I.fltt(v))
        if v.h == "float":
            if name == "float":
                return v
            if I.p.branch(uf("f2i_exc", Flt, BoolS)(I.fltt(v))):
                raise PyRaise(I.mk(uf("f2i_err", Flt, Val)(I.fltt(v)), Exception))
            return I.mkint(uf("f2i", Flt, IntS)(I.fltt(v)))
        if v.h == "str":
            s = I.strt(v)
            if I.p.branch(uf(f"s2{name}_exc", StrS, BoolS)(s)):
                raise PyRaise(I.mk(uf(f"s2{name}_err", StrS, Val)(s), ValueError))
            if name == "int":
                return I.mkint(uf("s2int", StrS, IntS)(s))
            return I.mkflt(uf("s2float", StrS, Flt)(s))
    raise I.exc(TypeError, f"{name}() argument")


def kindsplit(I, v):
    for kd in ("none", "bool", "int", "float", "str"):
        if I.p.branch(I.is_kind(v, kd)):
            return S(v.t, kd)
    return S(v.t, object)


@native(int)
def _int(I, a, k):
    return _num(I, a, "int", int)


@native(float)
def _float(I, a, k):
    return _num(I, a, "float", float)


@native(list)
def _list(I, a, k):
    return I.newlist() if not a else I.tolist(a[0])


@native(tuple)
def _tuple(I, a, k):
    return () if not a else I.mkseq(I.tolist(a[0]).items)


@native(iter)
def _iter(I, a, k):
    x = I.resolve(a[0])
    f = I.user_op(x, "__iter__")
    if f is not None:
        return I.call(f, [x], {})
    return x


@native(dict)
def _dict(I, a, k):
    o = I.new(dict)
    o.items = CDict([])
    I.call(I.builtin_method(o, "update"), a, k)
    return o


@native(dict.fromkeys)
def _fromkeys(I, a, k):
    o = I.new(dict)
    o.items = CDict([])
    x = a[1] if len(a) > 1 else None
    I.iterate(a[0], lambda e: I.dict_set(o, e, x), getattr(a[0], "frame", None), ("fromkeys",))
    return o


@native(set, frozenset)
def _set(I, a, k):
    o = I.new(set)
    o.items = CDict([])
    if a:
        I.set_update(o, a[0])
    return o


@native(sorted)
def _sorted(I, a, k):
    return I.newlist(I.sorted_parts(a[0], k))


@native(any)
def _any(I, a, k):
    r = I.iterate(a[0], lambda x: ("break",) if I.p.branch(I.truth(x)) else None,
                  getattr(a[0], "frame", None), ("any",))
    return r is not None


@native(all)
def _all(I, a, k):
    r = I.iterate(a[0], lambda x: None if I.p.branch(I.truth(x)) else ("break",),
                  getattr(a[0], "frame", None), ("all",))
    return r is None


@native(next)
def _next(I, a, k):
    box = []

    def b(x):
        box.append(x)
        return ("break",)

    I.iterate(a[0], b, getattr(a[0], "frame", None), ("next",))
    if box:
        return box[-1]
    if len(a) > 1:
        return a[1]
    raise I.exc(StopIteration)


@native(sum)
def _sum(I, a, k):
    fr = I.frame({}, "sum")
    fr.env["acc"] = a[1] if len(a) > 1 else k.get("start", 0)
    I.iterate(a[0], lambda x: I.setvar(fr, "acc", I.binop(ast.Add, fr.env["acc"], x)), fr, ("sum",))
    return fr.env["acc"]


@native(enumerate)
def _enumerate(I, a, k):
    return EnumV(a[0], a[1] if len(a) > 1 else k.get("start", 0))


@native(zip)
def _zip(I, a, k):
    return ZipV(a)


@native(map)
def _map(I, a, k):
    if len(a) != 2:
        raise Unsupported("map of several sequences")
    acc = I.newlist()
    I.iterate(a[1], lambda x: I.list_append(acc, I.call(a[0], [x], {})),
              getattr(a[1], "frame", None), ("map",))
    return acc


@native(filter)
def _filter(I, a, k):
    acc = I.newlist()

    def b(x):
        if I.p.branch(I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)):
            I.list_append(acc, x)

    I.iterate(a[1], b, getattr(a[1], "frame", None), ("filter",))
    return acc


@native(range)
def _range(I, a, k):
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    for x in a:
        if not I.p.branch(I.is_intlike(x)):
            raise I.exc(TypeError, "range")
    a = [I._ibn(x) for x in a]
    if I.p.branch(I.intt(a[2]) == 0):
        raise I.exc(ValueError, "range() arg 3 must not be zero")
    return RangeV(*a)


@native(slice)
def _slice(I, a, k):
    a = list(a)
    if len(a) == 1:
        a = [None, a[0], None]
    return SliceV(*(a + [None] * (3 - len(a))))


@native(min, max)
def _minmax(I, a, k):
    raise Unsupported("min/max")


def minmax(op):
    def f(I, a, k):
        key = k.pop("key", None)
        if k:
            raise Unsupported("min/max with a default")
        if len(a) == 1:
            ps = I.content(a[0])
            if not all(p[0] == "e" for p in ps):
                raise Unsupported("min/max of a sequence")
            a = [p[1] for p in ps]
            if not a:
                raise I.exc(ValueError, "empty sequence")
        best, kb = a[0], a[0] if key is None else I.call(key, [a[0]], {})
        for x in a[1:]:
            kx = x if key is None else I.call(key, [x], {})
            lt = I.less("<", kx, kb) if op == "<" else I.less("<", kb, kx)
            if I.p.branch(lt):
                best, kb = x, kx
        return best

    return f


native(min)(minmax("<"))
native(max)(minmax(">"))


@native(abs)
def _abs(I, a, k):
    if not I.symbolic(a[0]):
        return abs(a[0])
    if I.p.branch(I.is_intlike(a[0])):
        x = I.intt(I._ibn(a[0]))
        return I.mkint(z3.If(x < 0, -x, x))
    raise Unsupported("abs")


@native(type)
def _type(I, a, k):
    if len(a) != 1:
        raise Unsupported("type()")
    return I.typeof(a[0])


@native(id)
def _id(I, a, k):
    raise Unsupported("id()")


@native(hash)
def _hash(I, a, k):
    return I.hash_(a[0])


@native(dir)
def _dir(I, a, k):
    if len(a) == 1 and isinstance(a[0], Obj) and a[0].items is None and isinstance(a[0].cls, type):
        return I.newlist([("e", n) for n in sorted(set(dir(a[0].cls)) | set(a[0].attrs))])
    if len(a) == 1 and isinstance(a[0], (type, types.ModuleType)):
        return I.newlist([("e", n) for n in dir(a[0])])
    raise Unsupported("dir()")


@native(inspect.signature)
def _signature(I, a, k):
    f = a[0]
    if k or len(a) != 1:
        raise Unsupported("inspect.signature()")
    if isinstance(f, BoundM) and isinstance(f.fn, types.FunctionType):
        s = inspect.signature(f.fn)
        return s.replace(parameters=list(s.parameters.values())[1:])
    if isinstance(f, types.FunctionType):
        return inspect.signature(f)
    raise Unsupported("inspect.signature()")


@native(callable)
def _callable(I, a, k):
    v = a[0]
    if isinstance(v, (Closure, BoundM, Builtin, types.FunctionType, type)):
        return True
    raise Unsupported("callable")


@native(getattr)
def _getattr(I, a, k):
    if not isinstance(a[1], str):
        h = I.m.prims.get("$getattr")
        if h is not None:
            return h(I, a, k)
        raise Unsupported("getattr with symbolic name")
    if len(a) == 3:
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if I.p.branch(I.isinstance_(e.val, AttributeError)):
                return a[2]
            raise
    return I.getattr(a[0], a[1])


@native(hasattr)
def _hasattr(I, a, k):
    if not isinstance(a[1], str):
        h = I.m.prims.get("$hasattr")
        if h is not None:
            return h(I, a, k)
        raise Unsupported("hasattr with symbolic name")
    if isinstance(a[0], (type, types.ModuleType)):
        return hasattr(a[0], a[1])
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if I.p.branch(I.isinstance_(e.val, AttributeError)):
            return False
        raise


@native(setattr)
def _setattr(I, a, k):
    return I.setattr(a[0], a[1], a[2])


@native(print)
def _print(I, a, k):
    raise Unsupported("print")


@native(object)
def _object(I, a, k):
    return I.new(object)


@native(reversed)
def _reversed(I, a, k):
    c = I.tolist(a[0]).items
    if all(p[0] == "e" for p in c):
        return I.mkseq(list(reversed(c)))
    raise Unsupported("reversed")


@native(typing.cast)
def _cast(I, a, k):
    return a[1]


@native(_copy.copy)
def _copycopy(I, a, k):
    v = a[0]
    if isinstance(v, S):
        v = I.resolve(v)
    if isinstance(v, S):
        cls, _ = I.pyclass(v.h)
        if isinstance(v.h, tuple) and v.h[0] == "list" or cls is not None and issubclass(cls, list):
            o = I.new(cls or list)
            o.items = list(I.content(v))
            return o
        if isinstance(v.h, tuple) and v.h[0] in ("dict",):
            return I.call(I.builtin_method(v, "copy"), [], {})
        if cls is None:
            raise Unsupported("copy of unknown value")
        if cls in I.m.records:
            return v
        f = I.user_op(v, "__copy__")
        if f is not None:
            return I.call(f, [v], {})
        o = I.new(cls)
        o.base = v
        # values written since the beginning
        kk = I.key(v.t)
        for (q, n), x in I.r.heap.items():
            if q == kk:
                o.attrs[n] = x
        return o
    if isinstance(v, Obj):
        f = I.user_op(v, "__copy__")
        if f is not None:
            return I.call(f, [v], {})
        o = I.new(v.cls)
        o.base = v.base
        o.attrs = dict(v.attrs)
        o.items = list(v.items) if isinstance(v.items, list) else v.items
        o.ghost = v.ghost
        return o
    return v


@native(_copy.deepcopy)
def _deepcopy(I, a, k):
    raise Unsupported("deepcopy")


@native(pathlib.Path, pathlib.PurePath)
def _path(I, a, k):
    v = a[0]
    o = I.new(PathV)
    o.attrs["text"] = v
    return o


class PathV:
    """stands for pathlib.Path"""

    @property
    def name(self):
        return path_name(self.text)


def path_name(t):
    raise NotImplementedError


@native(path_name)
def _path_name(I, a, k):
    v = a[0]
    if isinstance(v, str):
        return pathlib.Path(v).name
    return I.mkstr(uf("path_name", StrS, StrS)(I.strt(v)))


for _op, _n in (
    (operator.add, ast.Add), (operator.sub, ast.Sub), (operator.mul, ast.Mult),
    (operator.truediv, ast.Div), (operator.mod, ast.Mod), (operator.pow, ast.Pow),
    (operator.floordiv, ast.FloorDiv), (operator.or_, ast.BitOr), (operator.and_, ast.BitAnd),
):
    NATIVE[_op] = (lambda n: lambda I, a, k: I.binop(n, a[0], a[1]))(_n)
for _op, _n in (
    (operator.eq, ast.Eq), (operator.ne, ast.NotEq), (operator.lt, ast.Lt),
    (operator.le, ast.LtE), (operator.gt, ast.Gt), (operator.ge, ast.GtE),
    (operator.is_, ast.Is), (operator.is_not, ast.IsNot),
):
    NATIVE[_op] = (lambda n: lambda I, a, k: I.mkbool(I.compare(n(), a[0], a[1])))(_n)
NATIVE[operator.contains] = lambda I, a, k: I.mkbool(I.contains(a[0], a[1]))
NATIVE[operator.neg] = lambda I, a, k: I.neg(a[0])
NATIVE[operator.pos] = lambda I, a, k: I.pos(a[0])
NATIVE[operator.not_] = lambda I, a, k: I.mkbool(I.bnot(I.truth(a[0])))
NATIVE[operator.truth] = lambda I, a, k: I.mkbool(I.truth(a[0]))
NATIVE[operator.getitem] = lambda I, a, k: I.getitem(a[0], a[1])
