"""Symbolic interpreter for the Python subset used by the code and the contracts."""
import ast
import builtins
import copy as _copy
import enum
import importlib
import inspect
import operator
import pathlib
import re
import sys
import types
import typing

import z3

from . import terms as T
from .core import *  # noqa
from .core import S, Obj, Closure, BoundM, Builtin, Gen, RangeV, EnumV, ZipV, SliceV
from .core import SuperV, Seq, DictC, CDict
from .terms import Val, VL, View, World, SeqV, ArrV, StrS, IntS, BoolS, Flt, uf

NoneType = type(None)
KINDS = ("none", "bool", "int", "float", "str")


# ---------------------------------------------------------------------------
# source lookup

_files = {}


def file_index(fname):
    if fname not in _files:
        path = fname
        if fname.startswith("<frozen "):
            path = sys.modules[fname[8:-1]].__file__
        with open(path, encoding="utf-8") as fp:
            tree = ast.parse(fp.read(), fname)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = n.lineno
                if n.decorator_list:
                    ln = min(d.lineno for d in n.decorator_list)
                idx.setdefault((n.name, ln), n)
            elif isinstance(n, ast.Lambda):
                idx.setdefault(("<lambda>", n.lineno), []).append(n)
        _files[fname] = idx
    return _files[fname]


_fn_nodes = {}


def fn_node(f):
    c = f.__code__
    if c in _fn_nodes:
        return _fn_nodes[c]
    idx = file_index(c.co_filename)
    n = idx.get((c.co_name, c.co_firstlineno))
    if isinstance(n, list):
        if len(n) != 1:
            # select by column
            pos = [p for p in c.co_positions() if p[2] is not None]
            cand = [
                x
                for x in n
                if pos and x.col_offset <= min(p[2] for p in pos if p[0] == x.lineno)
            ]
            if len(cand) != 1:
                raise Unsupported("ambiguous lambda")
            n = cand
        n = n[0]
    if n is None:
        raise Unsupported(f"no source for {f.__qualname__}")
    _fn_nodes[c] = n
    return n


# ---------------------------------------------------------------------------
# the model: what is known about classes, fields, opaque functions, contracts


class Model:
    def __init__(self):
        self.records = {}  # cls -> tuple of fields
        self.fields = {}  # (cls, attr) -> hint
        self.inv = {}  # record cls -> fn(term)->z3 Bool
        self.contracts = {}  # function object -> spec function
        self.opaque = {}  # function object -> handler(interp, args, kwargs)
        self.late = {}  # (class, method) -> function: what the subclasses define
        self.virtual = {}  # (class, attribute) -> handler(interp, object)
        self.prims = {}  # spec-level primitive functions -> handler
        self.nodecls = None  # base class of parse tree nodes
        self.classes = set()
        self._sub = {}
        self.pure_native = set()

    def field_hint(self, cls, attr):
        for c in cls.__mro__:
            if (c, attr) in self.fields:
                return self.fields[(c, attr)]
        return None

    def subclasses(self, c):
        if c not in self._sub:
            r = {c}
            todo = [c]
            while todo:
                x = todo.pop()
                try:
                    subs = type.__subclasses__(x)
                except TypeError:
                    subs = []
                for s in subs:
                    if s not in r:
                        r.add(s)
                        todo.append(s)
            self._sub[c] = frozenset(r)
        return self._sub[c]

    def common(self, a, b):
        if issubclass(a, b) or issubclass(b, a):
            return True
        return bool(self.subclasses(a) & self.subclasses(b))

    def rec_classes(self, c):
        return [r for r in self.records if issubclass(r, c)]


def is_cls(h):
    return isinstance(h, type)


class Frame:
    __slots__ = ("mangle", "env", "parent", "glob", "cls", "name", "self_", "nonlocals", "uid", "site")

    def __init__(self, glob, name, parent=None, cls=None):
        self.env = {}
        self.parent = parent
        self.glob = glob
        self.name = name
        self.cls = cls
        self.mangle = parent.mangle if parent is not None else None
        self.self_ = None
        self.nonlocals = ()


class LoopFrame:
    __slots__ = ("start", "writes", "startf")

    def __init__(self, start):
        self.start = start
        self.writes = []


MISSING = object()


_stored = None


def stored_names():
    """names of the attributes the code under verification sets anywhere"""
    global _stored
    if _stored is None:
        _stored = set()
        import wizard
        for f in pathlib.Path(wizard.__file__).parent.rglob("*.py"):
            if "antlr4" in f.parts:
                continue
            for n in ast.walk(ast.parse(f.read_text(encoding="utf-8"))):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    _stored.add(n.attr)
    return _stored


class Interp:
    def __init__(self, model, path, run, target=None):
        self.m = model
        self.p = path
        self.r = run
        self.target = target
        self.depth = 0

    # ------------------------------------------------------------------
    # hints and terms
    def hint_of(self, v):
        if v is None:
            return "none"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int) and not isinstance(v, enum.Enum):
            return "int"
        if isinstance(v, float):
            return "float"
        if isinstance(v, str):
            return "str"
        if isinstance(v, S):
            return v.h
        if isinstance(v, Obj):
            if v.cls in self.m.records:
                return v.cls
            raise Unsupported(f"cannot abstract {v!r}")
        if isinstance(v, tuple):
            hs = [self.hint_of(x) for x in v]
            return ("tup",) + tuple(hs)
        if isinstance(v, (type, enum.Enum, types.FunctionType)):
            return ("py", v)
        raise Unsupported(f"cannot abstract {type(v).__name__}")

    def join(self, a, b):
        if a == b:
            return a
        if a == "any" or b == "any":
            return "any"
        alts = []
        for h in (a, b):
            for x in h[1:] if isinstance(h, tuple) and h[0] == "or" else (h,):
                if x not in alts:
                    alts.append(x)
        # subsumption between classes
        out = []
        for x in alts:
            if is_cls(x) and any(
                is_cls(y) and y is not x and issubclass(x, y) for y in alts
            ):
                continue
            out.append(x)
        return out[0] if len(out) == 1 else ("or",) + tuple(out)

    def alts(self, h):
        if isinstance(h, tuple) and h[0] == "or":
            r = []
            for x in h[1:]:
                r.extend(self.alts(x))
            return r
        if isinstance(h, tuple) and h[0] == "opt":
            return ["none"] + self.alts(h[1])
        return [h]

    def constrain(self, t, h):
        """the typing assumption for term t"""
        if h == "any":
            return True
        if h == "none":
            return Val.is_VNone(t)
        if h == "bool":
            return Val.is_VBool(t)
        if h == "int":
            return Val.is_VInt(t)
        if h == "intb":
            return z3.Or(Val.is_VInt(t), Val.is_VBool(t))
        if h == "float":
            return Val.is_VFlt(t)
        if h == "str":
            return Val.is_VStr(t)
        if is_cls(h):
            return self.class_constraint(t, h)
        k = h[0]
        if k in ("or", "opt"):
            return z3.Or(*[z3.BoolVal(True) if c is True else c
                           for c in (self.constrain(t, x) for x in self.alts(h))])
        if k == "exact":
            c = self.class_constraint(t, h[1])
            return c
        if k == "py":
            return z3.Or(*[t == self.enc(o) for o in h[1:]])
        if k == "list":
            return z3.And(Val.is_VRef(t), self.inst(t, list))
        if k in ("dict", "set"):
            return z3.And(Val.is_VRef(t), self.inst(t, dict if k == "dict" else set))
        if k == "seq":
            return Val.is_VSeqB(t)
        if k == "tup":
            cs = [Val.is_VTup(t)]
            l = Val.vtl(t)
            for x in h[1:]:
                cs.append(VL.is_cons(l))
                c = self.constrain(VL.hd(l), x)
                if c is not True:
                    cs.append(c)
                l = VL.tl(l)
            cs.append(VL.is_nil(l))
            return z3.And(*cs)
        raise Unsupported(f"hint {h}")

    def class_constraint(self, t, c):
        recs = self.m.rec_classes(c)
        alts = []
        for r in recs:
            cs = [Val.is_VRec(t), Val.vc(t) == T.py_id(r)]
            for i, f in enumerate(self.m.records[r]):
                fh = self.m.field_hint(r, f) or "any"
                fc = self.constrain(T.rec_field(t, i), fh)
                if fc is not True:
                    cs.append(fc)
            # exact arity
            l = Val.vfs(t) if not (z3.is_app(t) and t.decl().eq(Val.VRec)) else t.arg(1)
            if not (z3.is_app(t) and t.decl().eq(Val.VRec)):
                for f in self.m.records[r]:
                    cs.append(VL.is_cons(l))
                    l = VL.tl(l)
                cs.append(VL.is_nil(l))
            if r in self.m.inv:
                cs.append(self.m.inv[r](self, t))
            alts.append(z3.And(*cs))
        if c not in self.m.records:
            alts.append(z3.And(Val.is_VRef(t), self.inst(t, c)))
        return alts[0] if len(alts) == 1 else z3.Or(*alts)

    def key(self, t):
        i = t.get_id()
        self.p.refs[i] = t
        return i

    def inst(self, t, c):
        """UF: the object t is an instance of c (t is a reference)"""
        b = uf("inst_" + c.__module__ + "." + c.__qualname__, Val, BoolS)(t)
        k = self.key(t)
        d = self.p.isinst.setdefault(k, {})
        if c not in d:
            for o, ob in d.items():
                if issubclass(c, o):
                    self.p.add(z3.Implies(b, ob))
                elif issubclass(o, c):
                    self.p.add(z3.Implies(ob, b))
                elif not self.m.common(c, o):
                    self.p.add(z3.Not(z3.And(b, ob)))
            d[c] = b
        return b

    def mk(self, t, h):
        """symbolic value with its typing assumption"""
        c = self.constrain(t, h)
        if c is not True:
            self.p.add(c)
        return self.simp(S(t, h))

    def simp(self, s):
        """turn a term that is a literal into a constant"""
        t = s.t
        if z3.is_app(t):
            d = t.decl()
            if d.eq(Val.VNone):
                return None
            if d.eq(Val.VBool):
                if z3.is_true(t.arg(0)):
                    return True
                if z3.is_false(t.arg(0)):
                    return False
            elif d.eq(Val.VInt):
                if z3.is_int_value(t.arg(0)):
                    return t.arg(0).as_long()
            elif d.eq(Val.VStr):
                if z3.is_string_value(t.arg(0)):
                    return pystr(t.arg(0))
            elif d.eq(Val.VPy):
                if z3.is_int_value(t.arg(0)):
                    return T.py_obj(t.arg(0).as_long())
        return s

    def enc(self, v):
        if v is None:
            return Val.VNone
        if isinstance(v, S):
            return v.t
        if isinstance(v, bool):
            return Val.VBool(z3.BoolVal(v))
        if isinstance(v, enum.Enum):
            return Val.VPy(z3.IntVal(T.py_id(v)))
        if isinstance(v, int):
            return Val.VInt(z3.IntVal(v))
        if isinstance(v, float):
            return Val.VFlt(T.flt_const(v))
        if isinstance(v, str):
            return Val.VStr(T.str_term(v))
        if isinstance(v, tuple):
            return Val.VTup(T.vlist([self.enc(x) for x in v]))
        if isinstance(v, Obj):
            if v.cls in self.m.records:
                fs = self.m.records[v.cls]
                if set(v.attrs) != set(fs):
                    raise Unsupported(
                        f"representation of {v.cls.__name__} changed: {sorted(v.attrs)}"
                    )
                v.frozen = True
                return Val.VRec(
                    z3.IntVal(T.py_id(v.cls)), T.vlist([self.enc(v.attrs[f]) for f in fs])
                )
            if isinstance(v.cls, type) and issubclass(v.cls, BaseException):
                # errors are compared by class and data, not by message
                keep = [k for k in sorted(v.attrs) if k not in ("args", "__cause__")]
                return Val.VRec(
                    z3.IntVal(T.py_id(v.cls)),
                    T.vlist([self.enc(v.attrs[k]) for k in keep]),
                )
            if isinstance(v.items, list):
                return Val.VSeqB(uf("boxseq", SeqV, T.SqB)(self.seqterm(v.items)))
            if "$view" in v.attrs:
                return Val.VViewB(v.attrs["$view"])
            return Val.VRef(z3.IntVal(-1000 - v.oid))
        if isinstance(v, Seq):
            return Val.VSeqB(uf("boxseq", SeqV, T.SqB)(self.seqterm(v.parts)))
        if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType)) or (
            isinstance(v, (types.GenericAlias, types.UnionType, re.Pattern))
        ):
            return Val.VPy(z3.IntVal(T.py_id(v)))
        if isinstance(v, BoundM):
            return Val.VTup(T.vlist([self.enc(v.self_), self.enc(v.fn)]))
        if isinstance(v, z3.ExprRef):
            if v.sort() == View:
                return Val.VViewB(v)
            if v.sort() == Val:
                return v
        raise Unsupported(f"cannot encode {type(v).__name__}")

    # -- sequences -------------------------------------------------------
    def seqterm(self, parts):
        ts = []
        for p in parts:
            if p[0] == "e":
                ts.append(z3.Unit(self.enc(p[1])))
            elif p[0] == "s":
                ts.append(p[1])
            else:
                r = p[1]
                ts.append(
                    uf("rangeseq", IntS, IntS, IntS, SeqV)(
                        self.intt(r.a), self.intt(r.b), self.intt(r.c)
                    )
                )
        if not ts:
            return z3.Empty(SeqV)
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def seqlen(self, parts):
        n = 0
        sym = []
        for p in parts:
            if p[0] == "e":
                n += 1
            elif p[0] == "s":
                sym.append(z3.Length(p[1]))
            else:
                sym.append(self.range_len(p[1]))
        if not sym:
            return n
        t = z3.Sum(*sym) if len(sym) > 1 else sym[0]
        return S(Val.VInt(t + n if n else t), "int")

    def range_len(self, r):
        if all(isinstance(x, int) for x in (r.a, r.b, r.c)):
            return z3.IntVal(len(range(r.a, r.b, r.c)))
        a, b, c = self.intt(r.a), self.intt(r.b), self.intt(r.c)
        n = z3.If(
            c > 0,
            z3.If(b > a, (b - a + c - 1) / c, 0),
            z3.If(a > b, (a - b - c - 1) / (-c), 0),
        )
        return n

    # -- term views of scalars --------------------------------------------
    def intt(self, v):
        """Int term of an int/bool value (kind already established)"""
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        t = v.t
        if v.h == "int":
            return self.proj(t, Val.VInt, Val.vi)
        if v.h == "bool":
            return z3.If(self.proj(t, Val.VBool, Val.vb), z3.IntVal(1), z3.IntVal(0))
        return z3.If(
            Val.is_VBool(t), z3.If(Val.vb(t), z3.IntVal(1), z3.IntVal(0)), Val.vi(t)
        )

    def proj(self, t, cons, acc):
        if z3.is_app(t) and t.decl().eq(cons):
            return t.arg(0)
        return acc(t)

    def strt(self, v):
        if isinstance(v, str):
            return T.str_term(v)
        return self.proj(v.t, Val.VStr, Val.vs)

    def fltt(self, v):
        """Flt term of a number"""
        if isinstance(v, bool) or isinstance(v, int):
            return uf("i2f", IntS, Flt)(z3.IntVal(int(v)))
        if isinstance(v, float):
            return T.flt_const(v)
        t = v.t
        if v.h == "float":
            return self.proj(t, Val.VFlt, Val.vf)
        if v.h in ("int", "bool"):
            return uf("i2f", IntS, Flt)(self.intt(v))
        return z3.If(
            Val.is_VFlt(t), Val.vf(t), uf("i2f", IntS, Flt)(self.intt(S(t, "intb")))
        )

    def mkint(self, t):
        return self.simp(S(Val.VInt(z3.simplify(t)), "int"))

    def mkbool(self, c):
        if isinstance(c, bool):
            return c
        return self.simp(S(Val.VBool(z3.simplify(c)), "bool"))

    def mkstr(self, t):
        return self.simp(S(Val.VStr(z3.simplify(t)), "str"))

    def mkflt(self, t):
        return S(Val.VFlt(t), "float")

    # -- kinds -------------------------------------------------------------
    def is_kind(self, v, k):
        """bool or z3 Bool: v is a none/bool/int/float/str (int excludes bool)"""
        if isinstance(v, S):
            hs = self.alts(v.h)
            can = [self.hint_kind(h, k) for h in hs]
            if all(c is True for c in can):
                return True
            if all(c is False for c in can):
                return False
            t = v.t
            return {
                "none": Val.is_VNone,
                "bool": Val.is_VBool,
                "int": Val.is_VInt,
                "float": Val.is_VFlt,
                "str": Val.is_VStr,
            }[k](t)
        if v is None:
            return k == "none"
        if isinstance(v, bool):
            return k == "bool"
        if isinstance(v, enum.Enum):
            return False
        if isinstance(v, int):
            return k == "int"
        if isinstance(v, float):
            return k == "float"
        if isinstance(v, str):
            return k == "str"
        return False

    def hint_kind(self, h, k):
        if h == "any":
            return None
        if h == "intb":
            return None if k in ("int", "bool") else False
        if isinstance(h, str):
            return h == k
        if isinstance(h, tuple) and h[0] == "py":
            r = {self.is_kind(o, k) for o in h[1:]}
            return r.pop() if len(r) == 1 else None
        return False

    def bor(self, *cs):
        cs = [c for c in cs if c is not False]
        if any(c is True for c in cs):
            return True
        if not cs:
            return False
        return cs[0] if len(cs) == 1 else z3.Or(*cs)

    def band(self, *cs):
        cs = [c for c in cs if c is not True]
        if any(c is False for c in cs):
            return False
        if not cs:
            return True
        return cs[0] if len(cs) == 1 else z3.And(*cs)

    def bnot(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def is_intlike(self, v):
        return self.bor(self.is_kind(v, "int"), self.is_kind(v, "bool"))

    def is_num(self, v):
        return self.bor(self.is_intlike(v), self.is_kind(v, "float"))

    def as_(self, v, h):
        """re-hint a symbolic value whose kind was established"""
        if isinstance(v, S):
            return self.simp(S(v.t, h))
        return v

    def resolve(self, v):
        """narrow a symbolic value to one alternative of its hint"""
        if not isinstance(v, S):
            return v
        hs = self.alts(v.h)
        if len(hs) == 1:
            return v
        for h in hs[:-1]:
            if h == "any":
                return S(v.t, "any")
            c = self.constrain(v.t, h)
            if c is True or self.p.branch(c):
                return self.simp(S(v.t, h))
        return self.simp(S(v.t, hs[-1]))

    # ------------------------------------------------------------------
    # exceptions
    def exc(self, cls, *args, **attrs):
        o = self.new(cls)
        o.attrs["args"] = tuple(args)
        o.attrs.update(attrs)
        return PyRaise(o)

    def new(self, cls):
        self.r.noid += 1
        return Obj(self.r.noid, cls, self.r)

    def newlist(self, parts=(), cls=list):
        o = self.new(cls)
        o.items = list(parts)
        return o

    # ------------------------------------------------------------------
    # writes
    def log_write(self, loc, oid=None):
        if loc[0] == "heap":
            self.p.hhint.setdefault(loc[1].t.get_id(), loc[1])
        for lf in self.r.loopframes:
            if oid is None or oid <= lf.start:
                lf.writes.append(loc)

    def set_items(self, o, items):
        if o.frozen:
            raise Unsupported("mutation of an embedded object")
        self.log_write(("obj", o, "$items"), o.oid)
        o.items = items

    # ------------------------------------------------------------------
    # attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name], c
        return MISSING, None

    def getattr(self, v, name):
        if isinstance(v, S):
            return self.getattr_s(v, name)
        if self.m.virtual:
            cls = v.cls if isinstance(v, Obj) else self.pyclass(v.h)[0] if isinstance(v, S) else None
            if isinstance(cls, type):
                for c in cls.__mro__:
                    if (c, name) in self.m.virtual:
                        return self.m.virtual[(c, name)](self, v)
        if isinstance(v, Obj):
            return self.getattr_obj(v, name)
        if isinstance(v, SuperV):
            mro = (type_of(v.obj) if not isinstance(v.obj, type) else v.obj).__mro__
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], v.obj, c)
            raise self.exc(AttributeError, name)
        if isinstance(v, BoundM) and name in ("__func__", "__self__", "__name__"):
            if name == "__name__":
                return v.fn.__name__
            return v.fn if name == "__func__" else v.self_
        if isinstance(v, (types.ModuleType,)):
            if not hasattr(v, name):
                raise self.exc(AttributeError, name)
            return getattr(v, name)
        if isinstance(v, type):
            a, c = self.class_attr(v, name)
            if a is MISSING:
                if name in ("__name__", "__qualname__", "__module__", "__mro__"):
                    return getattr(v, name)
                if hasattr(v, name):
                    return getattr(v, name)
                raise self.exc(AttributeError, name)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return BoundM(v, a.__func__)
            return getattr(v, name)
        if isinstance(v, enum.Enum):
            if name in ("name", "value"):
                return getattr(v, name)
            a, c = self.class_attr(type(v), name)
            if a is not MISSING:
                return self.bind(a, v, c)
            raise self.exc(AttributeError, name)
        if isinstance(v, (Closure, types.FunctionType)):
            if name == "__name__":
                return v.name if isinstance(v, Closure) else v.__name__
            raise Unsupported(f"function attribute {name}")
        if isinstance(v, (str, int, float, bool, tuple)) or v is None:
            if v is None:
                raise self.exc(AttributeError, name)
            return self.builtin_method(v, name)
        if isinstance(v, (Seq, DictC, CDict)):
            return self.builtin_method(v, name)
        if isinstance(v, (dict, list, set, frozenset, re.Pattern, type(operator),
                          inspect.Signature, inspect.Parameter, types.MappingProxyType)):
            return self.builtin_method(v, name)
        if isinstance(v, SliceV):
            return {"start": v.a, "stop": v.b, "step": v.c}[name]
        if hasattr(v, name):
            return getattr(v, name)
        raise self.exc(AttributeError, name)

    def bind(self, a, obj, cls):
        if isinstance(a, property):
            return self.call(a.fget, [obj], {})
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return BoundM(type_of(obj), a.__func__)
        if isinstance(a, types.FunctionType):
            return BoundM(obj, a)
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BoundM(obj, a)
        if hasattr(type(a), "__get__"):
            raise Unsupported(f"descriptor {type(a).__name__} {getattr(a, '__name__', '')}")
        return a

    def getattr_obj(self, o, name):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__class__":
            return self.typeof(o)
        if name == "__dict__":
            raise Unsupported("__dict__")
        if o.base is not None:
            s = o.base
            return self.getattr_s(s, name, owner=o)
        if o.items is not None:
            a, c = self.class_attr(o.cls, name)
            if isinstance(a, types.FunctionType) or isinstance(a, property):
                return self.bind(a, o, c)
            return self.builtin_method(o, name)
        a, c = self.class_attr(o.cls, name)
        if a is not MISSING:
            if isinstance(a, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                if name in o.attrs:
                    return o.attrs[name]
                raise self.exc(AttributeError, name)
            return self.bind(a, o, c)
        self.real(o)
        if name[0] == "$" or "$view" in o.attrs:
            raise Unsupported(f"attribute {name} of an object")
        raise self.exc(AttributeError, name)

    def real(self, *vs):
        """a class of the contracts that stands for a value only has the operations
        that are written down; that another one is missing says nothing"""
        for v in vs:
            cls = v.cls if isinstance(v, Obj) else self.pyclass(v.h)[0] if isinstance(v, S) else None
            if cls is not None and isinstance(cls, type) and getattr(cls, "stand_in", False):
                raise Unsupported(f"operation on a {cls.__name__}")

    def pyclass(self, h):
        """(class, exact) of a hint"""
        if is_cls(h):
            return h, h in self.m.records and len(self.m.rec_classes(h)) == 1
        if isinstance(h, tuple) and h[0] == "exact":
            return h[1], True
        return None, False

    def getattr_s(self, s, name, owner=None):
        if owner is None:
            s = self.resolve(s)
            if not isinstance(s, S):
                return self.getattr(s, name)
        else:
            s = S(s.t, self.alts(s.h)[0])
        h = s.h
        if h == "none":
            raise self.exc(AttributeError, name)
        if h in ("bool", "int", "float", "str", "intb"):
            return self.builtin_method(s, name)
        if isinstance(h, tuple) and h[0] in ("list", "dict", "set", "seq", "tup"):
            return self.builtin_method(s, name)
        if isinstance(h, tuple) and h[0] == "py":
            o = self.pick_py(s)
            return self.getattr(o, name)
        cls, exact = self.pyclass(h)
        if cls is None:
            # unknown: use what the path knows
            cands = []
            for k in ("none", "bool", "int", "float", "str"):
                c = self.is_kind(s, k)
                if c is not False and self.p.implied(c):
                    return self.getattr_s(S(s.t, k), name)
            for c, b in list(self.p.isinst.get(self.key(s.t), {}).items()):
                if self.p.facts.get(b.get_id()) is True or self.p.implied(b):
                    cands.append(c)
            for r in self.m.records:
                c = z3.And(Val.is_VRec(s.t), Val.vc(s.t) == T.py_id(r))
                if self.p.implied(c):
                    return self.getattr_s(self.mk(s.t, r), name)
            for c, b in self.p.tests.get(self.key(s.t), ()):
                if self.p.implied(b):
                    return self.getattr_s(S(s.t, c), name)
            if cands:
                cands.sort(key=lambda c: -len(c.__mro__))
                return self.getattr_s(S(s.t, cands[0]), name)
            if name in ("__name__", "__qualname__") and isinstance(h, tuple) and h[0] == "subclass":
                # of a class that is not known
                return self.mkstr(uf("type" + name, Val, StrS)(s.t))
            raise Unsupported(f"attribute {name} of unknown value")
        if name == "__class__":
            return self.typeof(s)
        me = owner if owner is not None else s
        if owner is None:
            k = (self.key(s.t), name)
            if k in self.r.heap:
                return self.r.heap[k]
        if cls in self.m.records and name in self.m.records[cls]:
            t = T.rec_field(s.t, self.m.records[cls].index(name))
            fh = self.m.field_hint(cls, name) or "any"
            nh = self.p.thints.get(t.get_id())
            if nh is not None:
                return self.simp(S(t, nh))
            return self.mk(z3.simplify(t), fh)
        fh = self.m.field_hint(cls, name)
        a, c = self.class_attr(cls, name)
        if issubclass(cls, (list, dict, set)) and a is not MISSING and not isinstance(
            a, (types.FunctionType, property)
        ):
            return self.builtin_method(me, name)
        if fh is not None and not isinstance(a, types.FunctionType):
            return self.field(s, cls, name, fh)
        if a is not MISSING:
            if isinstance(a, types.FunctionType) and not exact:
                self.check_override(cls, name, a)
            if isinstance(a, property) and not exact:
                self.check_override(cls, name, a)
            if not callable(a) and not hasattr(type(a), "__get__") and name in stored_names():
                raise Unsupported(f"{cls.__name__}.{name} may be set on the instance")
            return self.bind(a, me, c)
        # attribute of a subclass known on this path?
        for c2, b in list(self.p.isinst.get(self.key(s.t), {}).items()):
            if c2 is not cls and not issubclass(cls, c2) and (
                issubclass(c2, cls)
                or self.class_attr(c2, name)[0] is not MISSING
                or self.m.field_hint(c2, name) is not None
            ):
                if self.p.facts.get(b.get_id()) is True or self.p.implied(b):
                    return self.getattr_s(S(s.t, c2), name, owner)
        for c2 in cls.__mro__:
            if (c2, name) in self.m.late:
                return BoundM(me, self.m.late[(c2, name)])
        raise Unsupported(f"unknown attribute {cls.__name__}.{name}")

    def check_override(self, cls, name, a):
        f = a.fget if isinstance(a, property) else a
        if f in self.m.opaque or f in self.m.contracts:
            return
        for sc in self.m.subclasses(cls):
            if sc is not cls and name in sc.__dict__ and sc.__dict__[name] is not a:
                if sc in getattr(self.m, "ignored_subclasses", ()):
                    continue
                raise Unsupported(f"dynamic dispatch of {cls.__name__}.{name}")

    def field(self, s, cls, name, fh):
        """initial content of a field of an input object"""
        if fh == "$view":
            return uf("view0", Val, View)(s.t)
        t = uf("fld_" + name, Val, Val)(s.t)
        if isinstance(fh, tuple) and fh[0] == "const":
            return fh[1]
        return self.mk(t, fh)

    def pick_py(self, s):
        for o in s.h[1:-1]:
            if self.p.branch(s.t == self.enc(o)):
                return o
        return s.h[-1]

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            if v.frozen:
                raise Unsupported("mutation of an embedded object")
            if "$view" in v.attrs and name[0] != "$":
                raise Unsupported("attribute of a state set from outside")
            cls = v.cls if isinstance(v.cls, type) else None
            if cls is not None:
                a, _ = self.class_attr(cls, name)
                if isinstance(a, property):
                    if a.fset is None:
                        raise self.exc(AttributeError, name)
                    self.call(a.fset, [v, val], {})
                    return
            self.log_write(("obj", v, name), v.oid)
            v.attrs[name] = val
            return
        if isinstance(v, S):
            v = self.resolve(v)
            self.log_write(("heap", v, name))
            self.r.heap[(self.key(v.t), name)] = val
            return
        raise Unsupported(f"attribute assignment on {type(v).__name__}")

    # ------------------------------------------------------------------
    # type tests
    def hint_isinst(self, h, c):
        if c is object:
            return True
        if h == "any":
            return None
        if h == "intb":
            return True if c is int else (None if c is bool else False)
        if h == "none":
            return c is NoneType
        if isinstance(h, str):
            py = {"bool": bool, "int": int, "float": float, "str": str}[h]
            return issubclass(py, c)
        if is_cls(h) or h[0] == "exact":
            k = h if is_cls(h) else h[1]
            if issubclass(k, c):
                return True
            if not is_cls(h):
                return False
            if not self.m.common(k, c):
                return False
            return None
        if h[0] == "list":
            if c in (list,) or c.__module__ in ("collections.abc", "typing"):
                return issubclass(list, c)
            return False
        if h[0] == "dict":
            return issubclass(dict, c)
        if h[0] == "set":
            return issubclass(set, c)
        if h[0] in ("tup", "seq"):
            return issubclass(tuple, c)
        if h[0] == "py":
            r = {isinstance(o, c) for o in h[1:]}
            return r.pop() if len(r) == 1 else None
        return None

    def isinstance_(self, v, c):
        """bool or z3 Bool"""
        if isinstance(c, tuple):
            return self.bor(*[self.isinstance_(v, x) for x in c])
        if isinstance(c, types.UnionType) or typing.get_origin(c) is typing.Union:
            return self.bor(*[self.isinstance_(v, x) for x in c.__args__])
        if isinstance(c, Seq) or (isinstance(c, Obj) and c.items is not None):
            ps = c.parts if isinstance(c, Seq) else c.items
            if all(p[0] == "e" for p in ps):
                return self.bor(*[self.isinstance_(v, p[1]) for p in ps])
            if len(ps) == 1 and ps[0][0] == "s":
                # one of an unknown sequence of classes
                return uf("inst_any", Val, SeqV, BoolS)(self.enc(v), ps[0][1])
            parts = []
            for p in ps:
                if p[0] == "e":
                    parts.append(self.isinstance_(v, p[1]))
                else:
                    parts.append(uf("inst_any", Val, SeqV, BoolS)(self.enc(v), p[1]))
            return self.bor(*parts)
        if isinstance(c, S):
            h = self.alts(c.h)
            if isinstance(c.h, tuple) and c.h[0] in ("seq", "list"):
                return uf("inst_any", Val, SeqV, BoolS)(
                    self.enc(v), self.seqterm(self.content(c))
                )
            if isinstance(c.h, tuple) and c.h[0] == "py":
                return self.isinstance_(v, self.pick_py(c))
            raise Unsupported("isinstance with unknown class")
        if c is None:
            c = NoneType
        if isinstance(c, types.GenericAlias):
            raise Unsupported("isinstance with generic alias")
        if typing.get_origin(c) is not None:
            c = typing.get_origin(c)
        if not isinstance(c, type):
            raise Unsupported(f"isinstance with {c!r}")
        if isinstance(v, Obj):
            if v.base is not None:
                return self.isinstance_(v.base, c)
            return issubclass(v.cls, c)
        if isinstance(v, S):
            rs = [self.hint_isinst(h, c) for h in self.alts(v.h)]
            if all(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            t = v.t
            k = {bool: "bool", float: "float", str: "str", NoneType: "none"}.get(c)
            if k:
                return self.is_kind(v, k)
            if c is int:
                return self.is_intlike(v)
            if c is tuple:
                return Val.is_VTup(t)
            alts = []
            for r in self.m.rec_classes(c):
                alts.append(
                    z3.And(Val.is_VRec(t), Val.vc(t) == T.py_id(r))
                )
            if c not in self.m.records:
                alts.append(z3.And(Val.is_VRef(t), self.inst(t, c)))
            r = self.bor(*alts)
            if len(alts) > 1 and isinstance(r, z3.ExprRef):
                self.p.tests.setdefault(self.key(t), []).append((c, r))
            return r
        if isinstance(v, (Closure, BoundM, Builtin)):
            return c in (types.FunctionType, object)
        if isinstance(v, Seq):
            return issubclass(tuple, c)
        if isinstance(v, (RangeV, Gen, EnumV, ZipV)):
            return c is object
        return isinstance(v, c)

    def typeof(self, v):
        if isinstance(v, Obj):
            if v.base is not None:
                return self.typeof(v.base)
            return v.cls
        if isinstance(v, S):
            v = self.resolve(v)
            if not isinstance(v, S):
                return type(v)
            c, exact = self.pyclass(v.h)
            if c is not None and exact:
                return c
            if isinstance(v.h, str) and v.h != "any":
                return {"none": NoneType, "bool": bool, "int": int, "float": float,
                        "str": str}[v.h]
            if isinstance(v.h, tuple) and v.h[0] in ("list", "dict", "set"):
                return {"list": list, "dict": dict, "set": set}[v.h[0]]
            # class of unknown subclass
            return S(uf("classof", Val, Val)(v.t), ("subclass", c or object, v))
        if isinstance(v, Seq):
            return tuple
        return type(v)

    def issub(self, a, c):
        if isinstance(c, tuple):
            return self.bor(*[self.issub(a, x) for x in c])
        if isinstance(a, S):
            a = self.resolve(a)
            if not isinstance(a, S):
                return self.issub(a, c)
            if isinstance(a.h, tuple) and a.h[0] == "py":
                return self.issub(self.pick_py(a), c)
            if isinstance(a.h, tuple) and a.h[0] == "subclass":
                if issubclass(a.h[1], c):
                    return True
                if len(a.h) > 2:
                    return self.isinstance_(a.h[2], c)
                return uf("subcls_" + c.__qualname__, Val, BoolS)(a.t)
            raise Unsupported("issubclass of unknown")
        return issubclass(a, c)

    # ------------------------------------------------------------------
    # truth
    def simple_truth(self, h):
        """the truth of a value of this kind is a formula (no call, no branch)"""
        if isinstance(h, str):
            return h not in ("any", "$view")
        if isinstance(h, tuple):
            return h[0] in ("list", "seq", "tup")
        cls, exact = self.pyclass(h)
        if cls is None or self.m.casefold is not None and cls is self.m.casefold:
            return False
        for sc in self.m.subclasses(cls):
            if "__bool__" in sc.__dict__ or "__len__" in sc.__dict__:
                return False
        b, _ = self.class_attr(cls, "__bool__")
        n, _ = self.class_attr(cls, "__len__")
        if b is not MISSING:
            return False
        return n is MISSING or issubclass(cls, list) and n is list.__len__

    def truth(self, v):
        if isinstance(v, S):
            alts = self.alts(v.h)
            if len(alts) > 1 and not all(self.simple_truth(h) for h in alts):
                v = self.resolve(v)
                if not isinstance(v, S):
                    return self.truth(v)
            t = v.t
            h = v.h
            if h == "bool":
                return self.proj(t, Val.VBool, Val.vb)
            if h == "int":
                return self.intt(v) != 0
            if h == "str":
                return self.strt(v) != T.str_term("")
            if h == "none":
                return False
            if h == "float":
                return uf("ftruth", Flt, BoolS)(self.fltt(v))
            if h == "intb":
                return self.intt(v) != 0
            if isinstance(h, tuple) and h[0] in ("list", "set", "seq", "dict"):
                n = self.length(v)
                return self.truth(n)
            if isinstance(h, tuple) and h[0] == "tup":
                return len(h) > 1
            if isinstance(h, tuple) and h[0] == "py":
                return self.truth(self.pick_py(v))
            if isinstance(h, tuple) and h[0] == "or":
                cs = []
                for x in self.alts(h):
                    c = self.constrain(t, x)
                    cs.append(self.band(c, self.truth(S(t, x))))
                return self.bor(*cs)
            cls, exact = self.pyclass(h)
            if cls is not None:
                a, c = self.class_attr(cls, "__bool__")
                if a is MISSING:
                    a, c = self.class_attr(cls, "__len__")
                    if a is MISSING:
                        if not exact:
                            for sc in self.m.subclasses(cls):
                                if sc is not cls and (
                                    "__bool__" in sc.__dict__ or "__len__" in sc.__dict__
                                ):
                                    raise Unsupported("truth of open class")
                        return True
                    if issubclass(cls, (list, dict, set)):
                        return self.truth(self.length(v))
                return self.truth(self.call(a, [v], {}))
            if h == "any":
                for k in KINDS:
                    c = self.is_kind(v, k)
                    if self.p.branch(c):
                        return self.truth(S(t, k))
                raise Unsupported("truth of unknown value")
            raise Unsupported(f"truth of {h}")
        if isinstance(v, Obj):
            if v.items is not None:
                return self.truth(self.length(v))
            if v.base is not None:
                return True
            a, c = self.class_attr(v.cls, "__bool__")
            if a is not MISSING and isinstance(a, types.FunctionType):
                return self.truth(self.call(a, [v], {}))
            a, c = self.class_attr(v.cls, "__len__")
            if a is not MISSING and isinstance(a, types.FunctionType):
                return self.truth(self.call(a, [v], {}))
            self.real(v)
            return True
        if isinstance(v, Seq):
            return self.truth(self.seqlen(v.parts))
        if isinstance(v, (Closure, BoundM, Builtin, Gen, SliceV)):
            return True
        if isinstance(v, RangeV):
            return self.range_len(v) != 0
        if isinstance(v, z3.BoolRef):
            return v
        return bool(v)

    # ------------------------------------------------------------------
    # container contents
    def elem_hint(self, h):
        if isinstance(h, tuple) and h[0] in ("list", "seq", "set"):
            return h[1]
        cls, _ = self.pyclass(h)
        if cls is not None:
            fh = self.m.field_hint(cls, "$elem")
            if fh is not None:
                return fh
        return "any"

    unroll = None  # bounded mode: sequences of at most this many elements

    def bounded_len(self, n):
        """a length, decided; longer ones are left out"""
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 64:
            return max(n.as_long(), 0)
        for j in range(self.unroll + 1):
            if self.p.branch(n == j):
                return j
        self.p.ex.bounded = True
        raise Infeasible()

    def expand(self, parts):
        out = []
        for p in parts:
            if p[0] == "e":
                out.append(p)
            elif p[0] == "r":
                r = p[1]
                for i in range(self.bounded_len(self.range_len(r))):
                    out.append(("e", self.mkint(self.intt(r.a) + i * self.intt(r.c))))
            elif isinstance(p[2], tuple) and p[2][0] == "rep":
                for i in range(self.bounded_len(z3.Length(p[1]))):
                    out.append(("e", p[2][1]))
            else:
                for i in range(self.bounded_len(z3.Length(p[1]))):
                    out.append(("e", self.mk(z3.simplify(p[1][i]), p[2])))
        return out

    def expand_dict(self, d):
        n = self.bounded_len(z3.Length(d.keys))
        ks = [self.mk(z3.simplify(d.keys[i]), d.hk) for i in range(n)]
        ts = [self.dict_key(k) for k in ks]
        arr = z3.K(Val, Val.VAbsent)
        pairs = []
        for k, t in zip(ks, ts):
            e = z3.simplify(self.sel(d.arr, t))
            self.p.add(e != Val.VAbsent)
            pairs.append((k, self.mk(e, d.hv)))
            arr = z3.Store(arr, t, e)
        if len(ts) > 1:
            self.p.add(z3.Distinct(*ts))
        self.p.add(d.arr == arr)
        return CDict(pairs)

    def content(self, v):
        if self.unroll is None:
            return self.content_(v)
        v = self.resolve(v)
        if isinstance(v, S) and v.h == "str":
            st = self.strt(v)
            return [("e", self.mkstr(z3.SubString(st, i, 1))) for i in range(self.bounded_len(z3.Length(st)))]
        if self.is_dictlike(v):
            return [("e", k) for k, _ in self.dcontent(v).pairs]
        if self.is_setlike(v):
            return [("e", k) for k, _ in self.scontent(v).pairs]
        return self.expand(self.content_(v))

    def content_(self, v):
        """parts of a list/tuple/sequence value"""
        if isinstance(v, Obj):
            if isinstance(v.items, list):
                return v.items
            if isinstance(v.items, CDict):
                return [("e", k) for k, _ in v.items.pairs]
            if isinstance(v.items, DictC):
                return [("s", v.items.keys, v.items.hk)]
            if v.base is not None:
                return self.content(v.base)
            f = self.user_op(v, "__iter__")
            if f is not None:
                return self.content(self.call(f, [v], {}))
            self.real(v)
            raise self.exc(TypeError, "not iterable")
        if isinstance(v, Seq):
            return v.parts
        if isinstance(v, (tuple, list)):
            return [("e", x) for x in v]
        if isinstance(v, (set, frozenset, dict)):
            return [("e", x) for x in v]
        if isinstance(v, RangeV):
            if all(isinstance(x, int) for x in (v.a, v.b, v.c)):
                return [("e", i) for i in range(v.a, v.b, v.c)]
            return [("r", v)]
        if isinstance(v, str):
            return [("e", c) for c in v]
        if isinstance(v, S):
            v = self.resolve(v)
            if not isinstance(v, S):
                return self.content(v)
            k = (self.key(v.t), "$items")
            if k in self.r.heap:
                c = self.r.heap[k]
                if isinstance(c, DictC):
                    return [("s", c.keys, c.hk)]
                return c
            h = v.h
            if h == "str":
                return [("s", uf("chars", StrS, SeqV)(self.strt(v)), "str")]
            if isinstance(h, tuple) and h[0] == "tup":
                r = []
                l = Val.vtl(v.t)
                for x in h[1:]:
                    r.append(("e", self.mk(VL.hd(l), x)))
                    l = VL.tl(l)
                return r
            if isinstance(h, tuple) and h[0] in ("list", "set"):
                return [("s", uf("dkeys" if h[0] == "set" else "content", Val, SeqV)(v.t), h[1])]
            if isinstance(h, tuple) and h[0] == "seq":
                return [("s", uf("unboxseq", T.SqB, SeqV)(Val.vq(v.t)), h[1])]
            if isinstance(h, tuple) and h[0] == "dict":
                return [("s", uf("dkeys", Val, SeqV)(v.t), h[1])]
            cls, _ = self.pyclass(h)
            if cls is not None and issubclass(cls, (list, set)):
                return [("s", uf("content", Val, SeqV)(v.t), self.elem_hint(h))]
            if h in ("none", "bool", "int", "float", "intb"):
                raise self.exc(TypeError, "not iterable")
            if cls is not None and "__iter__" in dir(cls):
                a, c = self.class_attr(cls, "__iter__")
                if isinstance(a, types.FunctionType):
                    return self.content(self.call(a, [v], {}))
            if h == "any":
                raise Unsupported("content of unknown value")
            self.real(v)
            raise self.exc(TypeError, "not iterable")
        if isinstance(v, (Gen, EnumV, ZipV)):
            return self.tolist(v).items
        if v is None or isinstance(v, (bool, int, float)):
            raise self.exc(TypeError, "not iterable")
        if isinstance(v, types.MappingProxyType):
            return [("e", x) for x in v]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [("e", x) for x in v]
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return [("e", x) for x in v]
        raise Unsupported(f"content of {type(v).__name__}")

    def dcontent(self, v):
        d = self.dcontent_(v)
        if self.unroll is not None and isinstance(d, DictC):
            return self.expand_dict(d)
        return d

    def dcontent_(self, v):
        """content of a dictionary value"""
        if isinstance(v, Obj) and isinstance(v.items, (CDict, DictC)):
            return v.items
        if isinstance(v, Obj) and v.base is not None:
            return self.dcontent(v.base)
        if isinstance(v, (dict, types.MappingProxyType)):
            return CDict(list(v.items()))
        if isinstance(v, S):
            v = self.resolve(v)
            k = (self.key(v.t), "$items")
            if k in self.r.heap:
                return self.r.heap[k]
            h = v.h
            if isinstance(h, tuple) and h[0] == "dict":
                arr = uf("darr", Val, ArrV)(v.t)
                return DictC(arr, uf("dkeys", Val, SeqV)(v.t), h[1], h[2])
        raise Unsupported(f"dict content of {v!r}")

    def set_dcontent(self, v, c):
        if isinstance(v, Obj):
            self.set_items(v, c)
        elif isinstance(v, S):
            self.log_write(("heap", v, "$items"))
            self.r.heap[(self.key(v.t), "$items")] = c
        else:
            raise Unsupported("mutation of a constant")

    set_content = set_dcontent

    def length(self, v):
        if isinstance(v, (str, tuple, dict, list, set, frozenset)):
            return len(v)
        if isinstance(v, Obj) and isinstance(v.items, CDict):
            return len(v.items.pairs)
        if isinstance(v, S):
            v = self.resolve(v)
            if not isinstance(v, S):
                return self.length(v)
            if v.h == "str":
                return self.mkint(z3.Length(self.strt(v)))
            if v.h in ("none", "bool", "int", "float", "intb"):
                raise self.exc(TypeError, "no len()")
        if isinstance(v, RangeV):
            return self.mkint(self.range_len(v))
        cls = None
        if isinstance(v, Obj) and v.items is None and isinstance(v.cls, type):
            cls = v.cls
        elif isinstance(v, S):
            cls, _ = self.pyclass(v.h)
        if cls is not None:
            a, c = self.class_attr(cls, "__len__")
            if isinstance(a, types.FunctionType):
                return self.call(a, [v], {})
            if a is MISSING:
                self.real(v)
                raise self.exc(TypeError, "no len()")
        n = self.seqlen(self.content(v))
        return self.simp(S(z3.simplify(n.t), "int")) if isinstance(n, S) else n

    def tolist(self, it, cls=list):
        """list(it)"""
        if isinstance(it, (Gen, EnumV, ZipV)):
            acc = self.newlist((), cls)
            fr = Frame({}, "list")
            fr.env["$acc"] = acc
            self.iterate(it, lambda x: self.list_append(acc, x), fr, ("tolist",))
            return acc
        return self.newlist(self.content(it), cls)

    def list_append(self, o, x):
        c = list(self.content(o))
        c.append(("e", x))
        self.set_content(o, c)

    # ------------------------------------------------------------------
    # equality
    def dict_key(self, k):
        """term under which k is stored in hash containers"""
        h = self.m.hash_key(self, k) if hasattr(self.m, "hash_key") else None
        if h is not None:
            return h
        if isinstance(k, bool):
            return self.enc(int(k))
        return self.enc(k)

    def casefold_class(self):
        return getattr(self.m, "casefold", None)

    def maybe_casefold(self, v):
        c = self.casefold_class()
        if c is None:
            return False
        if isinstance(v, (S, Obj)):
            return self.isinstance_(v, c)
        return False

    def eq(self, a, b):
        """a == b as bool / z3 Bool (may raise)"""
        if a is b and not isinstance(a, (S, Obj)):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and x.items is None and isinstance(x.cls, type):
                f, c = self.class_attr(x.cls, "__eq__")
                if isinstance(f, types.FunctionType):
                    return self.truth(self.call(f, [x, y], {}))
        ca, cb = self.maybe_casefold(a), self.maybe_casefold(b)
        if ca is not False and self.p.branch(ca):
            cf = self.casefold_class()
            f = cf.__dict__["__eq__"]
            return self.truth(self.call(f, [self.rehint(a, cf), b], {}))
        if cb is not False and self.p.branch(cb):
            cf = self.casefold_class()
            f = cf.__dict__["__eq__"]
            return self.truth(self.call(f, [self.rehint(b, cf), a], {}))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S):
                cls, _ = self.pyclass(x.h)
                if cls is not None:
                    f, c = self.class_attr(cls, "__eq__")
                    if isinstance(f, types.FunctionType):
                        return self.truth(self.call(f, [x, y], {}))
        if not isinstance(a, (S, Obj, Seq)) and not isinstance(b, (S, Obj, Seq)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                return self.band(*[self.eq(x, y) for x, y in zip(a, b)])
            if isinstance(a, (Closure, BoundM)) or isinstance(b, (Closure, BoundM)):
                return a is b
            return a == b
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Seq):
            if isinstance(a, S) and not (isinstance(a.h, tuple) and a.h[0] == "tup"):
                return self.is_tuple_eq(b, a)
            if isinstance(b, S) and not (isinstance(b.h, tuple) and b.h[0] == "tup"):
                return self.is_tuple_eq(a, b)
            pa, pb = self.content(a), self.content(b)
            if all(p[0] == "e" for p in pa + pb):
                if len(pa) != len(pb):
                    return False
                return self.band(*[self.eq(x[1], y[1]) for x, y in zip(pa, pb)])
            return self.seqterm(pa) == self.seqterm(pb)
        # lists
        la, lb = self.is_listlike(a), self.is_listlike(b)
        if la or lb:
            if la and lb:
                pa, pb = self.content(a), self.content(b)
                if all(p[0] == "e" for p in pa + pb):
                    if len(pa) != len(pb):
                        return False
                    return self.band(*[self.eq(x[1], y[1]) for x, y in zip(pa, pb)])
                return self.seq_eq(self.seqterm(pa), self.seqterm(pb))
            o = b if la else a
            if isinstance(o, S) and any(self.could_list(h) for h in self.alts(o.h)):
                o2 = self.resolve(o)
                if la:
                    return self.eq(a, o2) if o2.h != o.h else False
                return self.eq(o2, b) if o2.h != o.h else False
            return False
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj):
                if a.cls in self.m.records and b.cls in self.m.records:
                    return a is b
                return a is b
            o, s = (a, b) if isinstance(a, Obj) else (b, a)
            if o.cls in self.m.records and isinstance(s, S) and self.may_be(s, o.cls):
                return self.ident_eq(o, s)
            return False
        # symbolic scalars / references
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and any(self.could_list(h) for h in self.alts(x.h)):
                if len(self.alts(x.h)) > 1:
                    x2 = self.resolve(x)
                    return self.eq(x2, y)
        na, nb = self.is_num(a), self.is_num(b)
        if na is False or nb is False:
            return self.band(
                self.bnot(na) if na is not False else True,
                self.bnot(nb) if nb is not False else True,
                self.ident_eq(a, b),
            )
        ia, ib = self.is_intlike(a), self.is_intlike(b)
        num = None
        if ia is True and ib is True:
            num = self.intt(a) == self.intt(b)
        else:
            num = self.bor(
                self.band(ia, ib, self._ieq(a, b)),
                self.band(
                    self.bnot(self.band(ia, ib)),
                    uf("feq", Flt, Flt, BoolS)(*canon(self.fltt(a), self.fltt(b))),
                ),
            )
        return self.bor(
            self.band(na, nb, num),
            self.band(self.bnot(na), self.bnot(nb), self.ident_eq(a, b)),
        )

    def may_be(self, s, cls):
        """may the value be an instance of the record class?"""
        for h in self.alts(s.h):
            if h == "any":
                return True
            c, _ = self.pyclass(h)
            if c is not None and (issubclass(c, cls) or issubclass(cls, c)):
                return True
        return False

    def ident_eq(self, a, b):
        """== of values without an __eq__ of their own: equal encodings, and for
        records (whose encoding says nothing of identity) the unknown fact that
        they are the same object"""
        ea, eb = self.enc(a), self.enc(b)
        cs = []
        for r in self.m.records:
            if self.class_attr(r, "__eq__")[0] is not object.__eq__:
                continue
            if all(self.may_be(x, r) if isinstance(x, S) else isinstance(x, Obj) and x.cls is r
                   for x in (a, b)):
                cs.append(z3.And(Val.is_VRec(ea), Val.vc(ea) == T.py_id(r)))
        if not cs:
            return ea == eb
        return z3.And(ea == eb, z3.Implies(z3.Or(*cs), uf("identity", Val, BoolS)(ea)))

    def _ieq(self, a, b):
        return self.intt(self._ib(a)) == self.intt(self._ib(b))

    def _ib(self, v):
        if isinstance(v, S) and v.h not in ("int", "bool"):
            return S(v.t, "intb")
        if isinstance(v, float):
            return S(Val.VFlt(T.flt_const(v)), "intb")
        return v

    def is_tuple_eq(self, tup, s):
        return self.enc(tup) == s.t

    def seq_eq(self, x, y):
        if x.eq(y):
            return True
        return uf("seqeq", SeqV, SeqV, BoolS)(*canon(x, y))

    def could_list(self, h):
        if isinstance(h, tuple) and h[0] == "list":
            return True
        c, _ = self.pyclass(h)
        return c is not None and issubclass(c, list)

    def is_listlike(self, v):
        if isinstance(v, Obj):
            return isinstance(v.items, list) and issubclass(v.cls, list)
        if isinstance(v, list):
            return True
        if isinstance(v, S):
            hs = self.alts(v.h)
            return len(hs) == 1 and self.could_list(hs[0])
        return False

    def rehint(self, v, cls):
        if isinstance(v, S):
            hs = self.alts(v.h)
            if len(hs) == 1 and is_cls(hs[0]) and issubclass(hs[0], cls):
                return v
            # choose the alternative
            v2 = self.resolve(v)
            if isinstance(v2, S) and v2.h == "any":
                for r in self.m.rec_classes(cls):
                    if self.p.branch(
                        z3.And(Val.is_VRec(v.t), Val.vc(v.t) == T.py_id(r))
                    ):
                        return self.mk(v.t, r)
                return S(v.t, cls)
            return v2
        return v

    def is_(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        if isinstance(a, S) or isinstance(b, S):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Closure, BoundM, Seq, Builtin)):
                    return False
                if isinstance(x, S) and isinstance(x.h, tuple) and x.h[0] == "subclass":
                    if isinstance(y, type) and not issubclass(y, x.h[1]):
                        return False
            return self.enc(a) == self.enc(b)
        if isinstance(a, (int, str, float, tuple)) and type(a) is type(b):
            return a == b
        return a is b

    # ------------------------------------------------------------------
    # operators
    BINOPS = {
        ast.Add: ("+", "__add__", "__radd__", operator.add),
        ast.Sub: ("-", "__sub__", "__rsub__", operator.sub),
        ast.Mult: ("*", "__mul__", "__rmul__", operator.mul),
        ast.Div: ("/", "__truediv__", "__rtruediv__", operator.truediv),
        ast.FloorDiv: ("//", "__floordiv__", "__rfloordiv__", operator.floordiv),
        ast.Mod: ("%", "__mod__", "__rmod__", operator.mod),
        ast.Pow: ("**", "__pow__", "__rpow__", operator.pow),
        ast.BitOr: ("|", "__or__", "__ror__", operator.or_),
        ast.BitAnd: ("&", "__and__", "__rand__", operator.and_),
        ast.BitXor: ("^", "__xor__", "__rxor__", operator.xor),
        ast.LShift: ("<<", "__lshift__", "__rlshift__", operator.lshift),
        ast.RShift: (">>", "__rshift__", "__rrshift__", operator.rshift),
    }

    def user_op(self, v, dunder):
        cls = None
        if isinstance(v, Obj) and isinstance(v.cls, type):
            cls = v.cls
        elif isinstance(v, S):
            hs = self.alts(v.h)
            if len(hs) > 1:
                return None
            cls, _ = self.pyclass(hs[0])
        if cls is None:
            return None
        a, c = self.class_attr(cls, dunder)
        if isinstance(a, types.FunctionType):
            return a
        return None

    def binop(self, op, a, b):
        sym, d, rd, pf = self.BINOPS[op]
        f = self.user_op(a, d)
        if f is not None:
            return self.call(f, [a, b], {})
        f = self.user_op(b, rd)
        if f is not None:
            return self.call(f, [b, a], {})
        if isinstance(a, Obj) and isinstance(a.items, list) or (
            isinstance(a, S) and self.is_listlike(a)
        ) or isinstance(a, Seq) or (isinstance(a, S) and isinstance(a.h, tuple) and a.h[0] in ("seq", "tup")):
            if sym == "+":
                if isinstance(a, Seq) or not self.is_listlike(a):
                    if not (isinstance(b, (Seq, tuple)) or isinstance(b, S)):
                        raise self.exc(TypeError, "+")
                    return self.mkseq(self.content(a) + self.content(b))
                if not self.is_listlike(b):
                    raise self.exc(TypeError, "+")
                return self.newlist(self.content(a) + self.content(b))
            if sym == "*":
                raise Unsupported("sequence repetition")
            if sym == "|" or sym == "-":
                pass
        if isinstance(a, Obj) and isinstance(a.cls, type) and issubclass(a.cls, set):
            return self.set_op(sym, a, b)
        if isinstance(a, Obj) and isinstance(a.items, (CDict, DictC)) and sym == "|":
            r = self.new(dict)
            r.items = self.dcontent(a)
            self.builtin_method(r, "update").fn([b], {})
            return r
        if isinstance(a, tuple) and isinstance(b, (Seq, S)) and sym == "+":
            return self.mkseq(self.content(a) + self.content(b))
        if isinstance(a, tuple) and isinstance(b, S) and sym == "*":
            return self.repeat(a, b)
        if not isinstance(a, (S, Obj, Seq)) and not isinstance(b, (S, Obj, Seq)):
            try:
                return pf(a, b)
            except ZeroDivisionError:
                raise self.exc(ZeroDivisionError, "division by zero")
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        if isinstance(a, str) and sym == "%":
            raise Unsupported("%-formatting")
        self.real(a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            raise self.exc(TypeError, f"unsupported operand for {sym}")
        if sym in ("|", "&", "^"):
            ba, bb = self.is_kind(a, "bool"), self.is_kind(b, "bool")
            if self.p.branch(self.band(ba, bb)):
                ta, tb = self.truth(self.as_(a, "bool")), self.truth(self.as_(b, "bool"))
                ta = z3.BoolVal(ta) if isinstance(ta, bool) else ta
                tb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
                return self.mkbool(
                    {"|": z3.Or(ta, tb), "&": z3.And(ta, tb), "^": z3.Xor(ta, tb)}[sym]
                )
            raise Unsupported("bit operations")
        # strings
        if sym == "+":
            sa, sb = self.is_kind(a, "str"), self.is_kind(b, "str")
            if self.p.branch(self.band(sa, sb)):
                return self.mkstr(
                    z3.Concat(self.strt(self.as_(a, "str")), self.strt(self.as_(b, "str")))
                )
        ia, ib = self.is_intlike(a), self.is_intlike(b)
        if self.p.branch(self.band(ia, ib)):
            a = self._ibn(a)
            b = self._ibn(b)
            x, y = self.intt(a), self.intt(b)
            if sym == "+":
                return self.mkint(x + y)
            if sym == "-":
                return self.mkint(x - y)
            if sym == "*":
                return self.mkint(x * y)
            if sym in ("/", "//", "%"):
                if self.p.branch(y == 0):
                    raise self.exc(ZeroDivisionError, "division by zero")
                if sym == "/":
                    return self.mkflt(uf("idiv", IntS, IntS, Flt)(x, y))
                if sym == "%":
                    return self.mkint(
                        z3.If(y > 0, x % y, -((-x) % (-y)))
                    )
                return self.mkint(z3.If(y > 0, x / y, (-x) / (-y)))
            if sym == "**":
                if self.p.branch(uf("ipow_exc", IntS, IntS, BoolS)(x, y)):
                    raise PyRaise(
                        self.mk(uf("ipow_err", IntS, IntS, Val)(x, y), Exception)
                    )
                return self.mk(
                    uf("ipow", IntS, IntS, Val)(x, y), ("or", "int", "float", Complex)
                )
            raise Unsupported(f"int {sym}")
        na, nb = self.is_num(a), self.is_num(b)
        if self.p.branch(self.band(na, nb)):
            x, y = self.fltt(self._nn(a)), self.fltt(self._nn(b))
            nm = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv", "%": "fmod",
                  "//": "ffdiv", "**": "fpow"}[sym]
            if sym in ("/", "%", "//"):
                if self.p.branch(z3.Not(uf("ftruth", Flt, BoolS)(y))):
                    raise self.exc(ZeroDivisionError, "division by zero")
            if sym == "**":
                if self.p.branch(uf("fpow_exc", Flt, Flt, BoolS)(x, y)):
                    raise PyRaise(
                        self.mk(uf("fpow_err", Flt, Flt, Val)(x, y), Exception)
                    )
                return self.mk(
                    uf("fpow", Flt, Flt, Val)(x, y), ("or", "float", Complex)
                )
            return self.mkflt(uf(nm, Flt, Flt, Flt)(x, y))
        if sym == "*":
            sa, sb = self.is_kind(a, "str"), self.is_kind(b, "str")
            if self.p.branch(self.band(sa, ib)):
                return self.mkstr(uf("srep", StrS, IntS, StrS)(self.strt(self.as_(a, "str")), self.intt(self._ibn(b))))
            if self.p.branch(self.band(sb, ia)):
                return self.mkstr(uf("srep", StrS, IntS, StrS)(self.strt(self.as_(b, "str")), self.intt(self._ibn(a))))
            if any(isinstance(x, S) and any(self.could_list(h) for h in self.alts(x.h)) for x in (a, b)):
                raise Unsupported("list repetition")
        if sym == "%" and self.is_kind(a, "str") is not False:
            if self.p.branch(self.is_kind(a, "str")):
                raise Unsupported("%-formatting")
        if sym == "+" and any(
            isinstance(x, S) and any(self.could_list(h) for h in self.alts(x.h))
            for x in (a, b)
        ):
            a2, b2 = self.resolve(a), self.resolve(b)
            if self.is_listlike(a2) and self.is_listlike(b2):
                return self.newlist(self.content(a2) + self.content(b2))
        raise self.exc(TypeError, f"unsupported operand type(s) for {sym}")

    def _ibn(self, v):
        if isinstance(v, S) and v.h not in ("int", "bool"):
            return S(v.t, "intb")
        return v

    def _nn(self, v):
        if isinstance(v, S) and v.h not in ("int", "bool", "float", "intb"):
            return S(v.t, "num")
        return v

    def mkseq(self, parts):
        if all(p[0] == "e" for p in parts):
            return tuple(p[1] for p in parts)
        return Seq(parts)

    def repeat(self, a, n):
        """tuple * int"""
        nt = self.intt(n)
        if self.p.branch(nt <= 0):
            return ()
        if len(a) == 0:
            return ()
        if self.p.implied(nt <= 8):
            for k in range(1, 9):
                if self.p.branch(nt == k):
                    return tuple(a) * k
        if len(a) == 1:
            r = uf("replicate", Val, IntS, SeqV)(self.enc(a[0]), nt)
            self.p.add(z3.Length(r) == nt)
            return Seq([("s", r, ("rep", a[0], nt))])
        raise Unsupported("tuple repetition")

    def neg(self, v):
        if not isinstance(v, (S, Obj)):
            try:
                return -v
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        f = self.user_op(v, "__neg__")
        if f is not None:
            return self.call(f, [v], {})
        if self.p.branch(self.is_intlike(v)):
            return self.mkint(-self.intt(self._ibn(v)))
        if self.p.branch(self.is_kind(v, "float")):
            return self.mkflt(uf("fneg", Flt, Flt)(self.fltt(self._nn(v))))
        raise self.exc(TypeError, "bad operand for unary -")

    def pos(self, v):
        if not isinstance(v, (S, Obj)):
            return +v
        f = self.user_op(v, "__pos__")
        if f is not None:
            return self.call(f, [v], {})
        if self.p.branch(self.is_intlike(v)):
            return self.mkint(self.intt(self._ibn(v)))
        if self.p.branch(self.is_kind(v, "float")):
            return self.as_(v, "float")
        raise self.exc(TypeError, "bad operand for unary +")

    def less(self, op, a, b):
        """ordering comparison; op in < <= > >="""
        d = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
        rd = {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op]
        f = self.user_op(a, d)
        if f is not None:
            return self.truth(self.call(f, [a, b], {}))
        f = self.user_op(b, rd)
        if f is not None:
            return self.truth(self.call(f, [b, a], {}))
        for x, y, dd in ((a, b, d), (b, a, rd)):
            c = self.maybe_casefold(x)
            if c is not False and self.p.branch(c):
                cf = self.casefold_class()
                return self.truth(self.call(cf.__dict__[dd], [self.rehint(x, cf), y], {}))
        if not isinstance(a, (S, Obj)) and not isinstance(b, (S, Obj)):
            try:
                return {"<": operator.lt, "<=": operator.le, ">": operator.gt,
                        ">=": operator.ge}[op](a, b)
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        if op in (">", ">="):
            a, b = b, a
            op = {">": "<", ">=": "<="}[op]
        ia, ib = self.is_intlike(a), self.is_intlike(b)
        if self.p.branch(self.band(ia, ib)):
            x, y = self.intt(self._ibn(a)), self.intt(self._ibn(b))
            return x < y if op == "<" else x <= y
        na, nb = self.is_num(a), self.is_num(b)
        if self.p.branch(self.band(na, nb)):
            x, y = self.fltt(self._nn(a)), self.fltt(self._nn(b))
            return uf("flt" if op == "<" else "fle", Flt, Flt, BoolS)(x, y)
        sa, sb = self.is_kind(a, "str"), self.is_kind(b, "str")
        if self.p.branch(self.band(sa, sb)):
            x, y = self.strt(self.as_(a, "str")), self.strt(self.as_(b, "str"))
            return x < y if op == "<" else x <= y
        self.real(a, b)
        raise self.exc(TypeError, "unorderable types")

    def contains(self, c, x):
        """x in c"""
        c = self.resolve(c)
        f = self.user_op(c, "__contains__")
        if f is not None:
            return self.truth(self.call(f, [c, x], {}))
        if isinstance(c, Obj) and c.ghost is not None and "contains" in c.ghost:
            return c.ghost["contains"](x)
        if isinstance(c, S):
            c = self.resolve(c)
        if isinstance(c, (str,)) or (isinstance(c, S) and c.h == "str"):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if not self.p.branch(self.is_kind(x, "str")):
                raise self.exc(TypeError, "'in <string>' requires string")
            return z3.Contains(self.strt(c), self.strt(self.as_(x, "str")))
        if self.is_dictlike(c):
            d = self.dcontent(c)
            if isinstance(d, CDict):
                return self.bor(*[self.key_eq(k, x) for k, _ in d.pairs])
            k = self.dict_key(x)
            return self.sel(d.arr, k) != Val.VAbsent
        if self.is_setlike(c):
            d = self.scontent(c)
            if isinstance(d, CDict):
                return self.bor(*[self.key_eq(k, x) for k, _ in d.pairs])
            return self.sel(d.arr, self.dict_key(x)) != Val.VAbsent
        if isinstance(c, (dict, set, frozenset)):
            return self.bor(*[self.key_eq(k, x) for k in c])
        if isinstance(c, (Gen, EnumV, ZipV)):
            return self.truth(self.any_eq(c, x))
        cls = c.cls if isinstance(c, Obj) else (self.pyclass(c.h)[0] if isinstance(c, S) else None)
        if cls is not None and not issubclass(cls, (list, tuple)) and not self.is_listlike(c):
            f, k = self.class_attr(cls, "__contains__")
            if isinstance(f, types.FunctionType):
                return self.truth(self.call(f, [c, x], {}))
            f, k = self.class_attr(cls, "__getitem__")
            if f is MISSING and self.class_attr(cls, "__iter__")[0] is MISSING:
                self.real(c)
                raise self.exc(TypeError, "not iterable")
        parts = self.content(c)
        rs = []
        for p in parts:
            if p[0] == "e":
                r = self.eq(p[1], x)
                if r is True:
                    return True
                rs.append(r)
            elif p[0] == "s":
                rs.append(self.seq_contains(p, x))
            else:
                raise Unsupported("in range")
        return self.bor(*rs)

    def key_eq(self, k, x):
        if not isinstance(k, (S, Obj)) and not isinstance(x, (S, Obj)):
            return k == x
        return self.dict_key(k) == self.dict_key(x)

    def seq_contains(self, part, x):
        """membership in a symbolic sequence, elements compared with =="""
        cf = self.casefold_class()
        h = part[2]
        while z3.is_app(part[1]) and part[1].decl().name() == "seqsorted":
            # sorting does not change what is contained
            part = ("s", part[1].arg(0), h)
        if cf is not None and is_cls(h) and issubclass(h, cf):
            # raises TypeError if compared with something else
            ok = self.bor(self.is_kind(x, "str"), self.maybe_casefold(x))
            if not self.p.branch(ok):
                if self.p.branch(z3.Length(part[1]) > 0):
                    raise self.exc(TypeError, "cannot compare")
                return False
            key = self.m.fold_key(self, x)
            return uf("cf_contains", SeqV, Val, BoolS)(part[1], key)
        hx = None
        if h in ("str", "int", "bool") or (isinstance(h, tuple) and h[0] == "py"):
            return z3.Contains(part[1], z3.Unit(self.enc(x)))
        return uf("eq_contains", SeqV, Val, BoolS)(part[1], self.enc(x))

    def any_eq(self, it, x):
        fr = self.frame({}, "in")
        r = {"v": False}

        def body(e):
            if self.p.branch(self.eq(e, x)):
                r["v"] = True
                return ("break",)

        self.iterate(it, body, fr, ("in",))
        return r["v"]

    def is_dictlike(self, c):
        if isinstance(c, Obj):
            return isinstance(c.cls, type) and issubclass(c.cls, dict)
        if isinstance(c, S):
            return isinstance(c.h, tuple) and c.h[0] == "dict"
        return isinstance(c, (dict, types.MappingProxyType))

    def is_setlike(self, c):
        if isinstance(c, Obj):
            return isinstance(c.cls, type) and issubclass(c.cls, (set, frozenset))
        if isinstance(c, S):
            return isinstance(c.h, tuple) and c.h[0] == "set"
        return False

    def scontent(self, c):
        d = self.scontent_(c)
        if self.unroll is not None and isinstance(d, DictC):
            return self.expand_dict(d)
        return d

    def scontent_(self, c):
        if isinstance(c, Obj):
            return c.items
        k = (self.key(c.t), "$items")
        if k in self.r.heap:
            return self.r.heap[k]
        return DictC(
            uf("darr", Val, ArrV)(c.t), uf("dkeys", Val, SeqV)(c.t), c.h[1], "bool"
        )

    # dict operations ------------------------------------------------------
    def sel(self, a, k):
        """a[k], through unions and differences of sets"""
        if z3.is_app(a):
            n = a.decl().name()
            if n == "set_or":
                x = self.sel(a.arg(0), k)
                return z3.If(x != Val.VAbsent, x, self.sel(a.arg(1), k))
            if n == "set_minus":
                return z3.If(self.sel(a.arg(1), k) != Val.VAbsent, Val.VAbsent, self.sel(a.arg(0), k))
            if n == "dict_keyset":
                return z3.If(self.sel(a.arg(0), k) != Val.VAbsent, Val.VBool(z3.BoolVal(True)), Val.VAbsent)
            if z3.is_store(a):
                return z3.If(a.arg(1) == k, a.arg(2), self.sel(a.arg(0), k))
        return z3.Select(a, k)

    def to_sym(self, d):
        if isinstance(d, DictC):
            return d
        arr = z3.K(Val, Val.VAbsent)
        keys = []
        hk = hv = None
        for k, v in d.pairs:
            arr = z3.Store(arr, self.dict_key(k), self.enc(v))
            keys.append(z3.Unit(self.enc(k)))
            hk = self.hint_of(k) if hk is None else self.join(hk, self.hint_of(k))
            hv = self.hint_of(v) if hv is None else self.join(hv, self.hint_of(v))
        return DictC(arr, T.concat(keys), hk or "any", hv or "any")

    def concrete_key(self, k):
        return not isinstance(k, (S, Obj))

    def dict_set(self, v, k, x):
        d = self.dcontent(v) if not self.is_setlike(v) else self.scontent(v)
        if isinstance(d, CDict) and self.concrete_key(k) and all(
            self.concrete_key(q) for q, _ in d.pairs
        ):
            pairs = []
            done = False
            for q, y in d.pairs:
                if q == k:
                    pairs.append((q, x))
                    done = True
                else:
                    pairs.append((q, y))
            if not done:
                pairs.append((k, x))
            self.set_dcontent(v, CDict(pairs))
            return
        if self.unroll is not None and isinstance(d, CDict):
            for j, (q, y) in enumerate(d.pairs):
                if self.p.branch(self.key_eq(q, k)):
                    self.set_dcontent(v, CDict(d.pairs[:j] + [(q, x)] + d.pairs[j + 1:]))
                    return
            self.set_dcontent(v, CDict(d.pairs + [(k, x)]))
            return
        empty = isinstance(d, CDict) and not d.pairs
        d = self.to_sym(d)
        kt = self.dict_key(k)
        present = self.sel(d.arr, kt) != Val.VAbsent
        keys = z3.simplify(z3.If(
            present, d.keys, z3.Concat(d.keys, z3.Unit(self.enc(k)))
        ))
        hk = self.hint_of(k)
        hv = self.hint_of(x)
        if isinstance(x, S):
            self.p.add(x.t != Val.VAbsent)
        self.set_dcontent(
            v,
            DictC(
                z3.Store(d.arr, kt, self.enc(x)),
                keys,
                hk if empty or d.hk == "any" else self.join(d.hk, hk),
                hv if empty or d.hv == "any" else self.join(d.hv, hv),
            ),
        )

    def dict_get(self, v, k, default=MISSING):
        d = self.dcontent(v)
        if isinstance(d, CDict):
            for q, y in d.pairs:
                if self.p.branch(self.key_eq(q, k)):
                    return y
            if default is MISSING:
                raise self.exc(KeyError, k)
            return default
        kt = self.dict_key(k)
        e = z3.simplify(self.sel(d.arr, kt))
        if self.p.branch(e == Val.VAbsent):
            if default is MISSING:
                raise self.exc(KeyError, k)
            return default
        return self.mk(e, d.hv)

    def dict_del(self, v, k, missing_ok=False):
        d = self.dcontent(v) if not self.is_setlike(v) else self.scontent(v)
        if isinstance(d, CDict):
            for i, (q, y) in enumerate(d.pairs):
                if self.p.branch(self.key_eq(q, k)):
                    self.set_dcontent(v, CDict(d.pairs[:i] + d.pairs[i + 1:]))
                    return y
            if missing_ok:
                return None
            raise self.exc(KeyError, k)
        kt = self.dict_key(k)
        e = z3.simplify(self.sel(d.arr, kt))
        if self.p.branch(e == Val.VAbsent):
            if missing_ok:
                return None
            raise self.exc(KeyError, k)
        self.set_dcontent(
            v,
            DictC(
                z3.Store(d.arr, kt, Val.VAbsent),
                uf("seq_del", SeqV, Val, SeqV)(d.keys, kt),
                d.hk,
                d.hv,
            ),
        )
        return S(e, d.hv)

    # ------------------------------------------------------------------
    # indexing
    def getitem(self, v, i):
        v = self.resolve(v)
        f = self.user_op(v, "__getitem__")
        if f is not None:
            return self.call(f, [v, i], {})
        if isinstance(v, Obj) and v.ghost is not None and "getitem" in v.ghost:
            return v.ghost["getitem"](i)
        if isinstance(v, S):
            v = self.resolve(v)
        if isinstance(i, SliceV):
            return self.getslice(v, i)
        if self.is_dictlike(v):
            return self.dict_get(v, i)
        if isinstance(v, type) or typing.get_origin(v) is not None or isinstance(v, typing.TypeVar):
            return v  # generic subscription
        if not isinstance(v, (S, Obj, Seq, RangeV)) and not isinstance(i, (S, Obj)):
            try:
                return v[i]
            except IndexError as e:
                raise self.exc(IndexError, str(e))
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        self.real(v)
        if not self.p.branch(self.is_intlike(i)):
            raise self.exc(TypeError, "indices must be integers")
        i = self._ibn(i)
        it = self.intt(i)
        if isinstance(v, str) or (isinstance(v, S) and v.h == "str"):
            st = self.strt(v)
            n = z3.Length(st)
            if not self.p.branch(z3.And(it >= -n, it < n)):
                raise self.exc(IndexError, "string index out of range")
            pos = z3.If(it < 0, it + n, it)
            return self.mkstr(z3.SubString(st, pos, z3.IntVal(1)))
        parts = self.content(v)
        if all(p[0] == "e" for p in parts):
            n = len(parts)
            if isinstance(i, int):
                if -n <= i < n:
                    return parts[int(i)][1]
                raise self.exc(IndexError, "list index out of range")
            for j in range(n):
                if self.p.branch(z3.Or(it == j, it == j - n)):
                    return parts[j][1]
            raise self.exc(IndexError, "list index out of range")
        # leading concrete elements
        if isinstance(i, int) and i >= 0:
            j = 0
            for p in parts:
                if p[0] != "e":
                    break
                if j == i:
                    return p[1]
                j += 1
        if isinstance(i, int) and i < 0:
            j = -1
            for p in reversed(parts):
                if p[0] != "e":
                    break
                if j == i:
                    return p[1]
                j -= 1
        if any(p[0] == "r" for p in parts):
            raise Unsupported("index of a range")
        t = self.seqterm(parts)
        n = z3.Length(t)
        if not self.p.branch(z3.And(it >= -n, it < n)):
            raise self.exc(IndexError, "list index out of range")
        pos = z3.simplify(z3.If(it < 0, it + n, it))
        h = None
        for p in parts:
            ph = p[2] if p[0] == "s" else self.hint_of(p[1])
            h = ph if h is None else self.join(h, ph)
        return self.mk(self.nth(t, pos), h)

    def nth(self, t, pos):
        return t[pos]

    def getslice(self, v, s):
        if not isinstance(v, (S, Obj, Seq)) and all(
            not isinstance(x, (S, Obj)) for x in (s.a, s.b, s.c)
        ):
            try:
                return v[slice(s.a, s.b, s.c)]
            except ValueError as e:
                raise self.exc(ValueError, str(e))
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        if isinstance(v, str) or (isinstance(v, S) and v.h == "str"):
            st = self.strt(v)
            for x in (s.a, s.b, s.c):
                ok = self.bor(self.is_intlike(x), self.is_kind(x, "none"))
                if not self.p.branch(ok):
                    raise self.exc(TypeError, "slice indices must be integers")
            if isinstance(s.a, int) and s.a >= 0 and s.b is None and s.c is None:
                n = z3.Length(st)
                return self.mkstr(
                    z3.SubString(st, z3.IntVal(s.a), n - s.a)
                    if s.a
                    else st
                )
            if s.a is None and s.b is None and s.c is None:
                return v
            c = s.c
            if c is not None:
                if self.p.branch(
                    self.band(self.is_intlike(c), self._ieq(c, 0))
                ):
                    raise self.exc(ValueError, "slice step cannot be zero")
            norm = [self.norm_int(x) for x in (s.a, s.b, s.c)]
            return self.mkstr(
                uf("slice", StrS, Val, Val, Val, StrS)(st, *norm)
            )
        parts = self.content(v)
        if all(p[0] == "e" for p in parts) and all(
            x is None or isinstance(x, int) for x in (s.a, s.b, s.c)
        ):
            r = parts[slice(s.a, s.b, s.c)]
            return self.newlist(r) if self.is_listlike(v) else self.mkseq(r)
        if s.a is None and s.b is None and s.c is None:
            return self.newlist(parts) if self.is_listlike(v) else self.mkseq(parts)
        t = self.seqterm(parts)
        norm = [self.norm_int(x) for x in (s.a, s.b, s.c)]
        h = self.parts_hint(parts)
        if isinstance(s.a, int) and s.a > 0 and s.b is None and s.c is None:
            n = z3.Length(t)
            ps = [("s", z3.SubSeq(t, z3.IntVal(s.a), z3.If(n > s.a, n - s.a, 0)), h)]
            return self.newlist(ps) if self.is_listlike(v) else Seq(ps)
        ps = [("s", uf("seqslice", SeqV, Val, Val, Val, SeqV)(t, *norm), h)]
        return self.newlist(ps) if self.is_listlike(v) else Seq(ps)

    def parts_hint(self, parts):
        h = None
        for p in parts:
            ph = p[2] if p[0] == "s" else self.hint_of(p[1]) if p[0] == "e" else "int"
            h = ph if h is None else self.join(h, ph)
        return h or "any"

    def norm_int(self, x):
        """int-or-None as a term, booleans counted as integers"""
        if x is None:
            return Val.VNone
        if isinstance(x, (bool, int)):
            return Val.VInt(z3.IntVal(int(x)))
        n = self.is_kind(x, "none")
        if n is False:
            return Val.VInt(z3.simplify(self.intt(self._ibn(x))))
        return z3.If(n, Val.VNone, Val.VInt(self.intt(S(x.t, "intb"))))

    def setitem(self, v, i, x):
        v = self.resolve(v)
        f = self.user_op(v, "__setitem__")
        if f is not None:
            return self.call(f, [v, i, x], {})
        if isinstance(v, S):
            v = self.resolve(v)
        if self.is_dictlike(v) and not isinstance(v, dict):
            return self.dict_set(v, i, x)
        if isinstance(v, Obj) and isinstance(v.items, list) and isinstance(i, int):
            if all(p[0] == "e" for p in v.items):
                n = len(v.items)
                if not -n <= i < n:
                    raise self.exc(IndexError, "assignment index out of range")
                items = list(v.items)
                items[i] = ("e", x)
                return self.set_items(v, items)
        if self.is_listlike(v):
            if isinstance(i, SliceV):
                a, b = self.cut(v, i)
                return self.set_content(v, a + list(self.content(x)) + b)
            a, b = self.around(v, i)
            return self.set_content(v, a + [("e", x)] + b)
        raise Unsupported("item assignment")

    def around(self, v, i):
        """the content of a list before and behind a position"""
        parts = list(self.content(v))
        if not self.p.branch(self.is_intlike(i)):
            raise self.exc(TypeError, "indices must be integers")
        i = self._ibn(i)
        if isinstance(i, int) and all(p[0] == "e" for p in parts):
            n = len(parts)
            if not -n <= i < n:
                raise self.exc(IndexError, "assignment index out of range")
            i %= n
            return parts[:i], parts[i + 1:]
        if any(p[0] == "r" for p in parts):
            raise Unsupported("index of a range")
        t, it = self.seqterm(parts), self.intt(i)
        n = z3.Length(t)
        if not self.p.branch(z3.And(it >= -n, it < n)):
            raise self.exc(IndexError, "assignment index out of range")
        pos = z3.simplify(z3.If(it < 0, it + n, it))
        h = self.parts_hint(parts)
        return ([("s", z3.SubSeq(t, z3.IntVal(0), pos), h)],
                [("s", z3.SubSeq(t, pos + 1, n - pos - 1), h)])

    def cut(self, v, s):
        """the content of a list before and behind a slice"""
        if s.c is not None and s.c != 1:
            raise Unsupported("slice with a step")
        parts = list(self.content(v))
        if s.a is None and s.b is None:
            return [], []
        if all(x is None or isinstance(x, int) for x in (s.a, s.b)) and all(p[0] == "e" for p in parts):
            i, j, _ = slice(s.a, s.b).indices(len(parts))
            return parts[:i], parts[max(i, j):]
        if any(p[0] == "r" for p in parts):
            raise Unsupported("slice of a range")
        t = self.seqterm(parts)
        n = z3.Length(t)

        def bound(x, default):
            if x is None:
                return default
            if not self.p.branch(self.is_intlike(x)):
                raise Unsupported("slice bounds")
            y = self.intt(self._ibn(x))
            y = z3.If(y < 0, z3.If(y + n < 0, 0, y + n), z3.If(y > n, n, y))
            return z3.simplify(y)

        i, j = bound(s.a, z3.IntVal(0)), bound(s.b, n)
        j = z3.simplify(z3.If(j < i, i, j))
        h = self.parts_hint(parts)
        return ([("s", z3.SubSeq(t, z3.IntVal(0), i), h)], [("s", z3.SubSeq(t, j, n - j), h)])

    def delitem(self, v, i):
        v = self.resolve(v)
        f = self.user_op(v, "__delitem__")
        if f is not None:
            return self.call(f, [v, i], {})
        if isinstance(v, S):
            v = self.resolve(v)
        if self.is_dictlike(v):
            self.dict_del(v, i)
            return
        if self.is_listlike(v) and isinstance(i, SliceV) and i.a is None and i.b is None and i.c is None:
            return self.set_content(v, [])
        if self.is_listlike(v):
            a, b = self.cut(v, i) if isinstance(i, SliceV) else self.around(v, i)
            return self.set_content(v, a + b)
        raise Unsupported("item deletion")


def canon(x, y):
    """arguments of a commutative operation in a fixed order"""
    x, y = z3.simplify(x), z3.simplify(y)
    return (x, y) if x.get_id() <= y.get_id() else (y, x)


class Complex:
    """stands for complex numbers (result of a power)"""


def type_of(v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, S):
        h = v.h
        if isinstance(h, type):
            return h
        if isinstance(h, tuple) and h[0] == "exact":
            return h[1]
        raise Unsupported("class of unknown")
    return type(v)


def pystr(t):
    s = t.as_string()
    # z3 escapes non-ASCII characters
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
