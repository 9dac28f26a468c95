"""Verification of a function against its contract."""
import ast
import time
import traceback

import z3

from . import terms as T
from .core import *  # noqa
from .core import S, Obj, Closure, BoundM, Builtin, Gen, RangeV, EnumV, ZipV, SliceV
from .core import Seq, DictC, CDict, Cut, Explorer, Run, Oblig
from .interp import MISSING, fn_node
from .execu import Exec
from .terms import Val, View, World, SeqV


class Target:
    """fn under contract spec, for the inputs made by args(I) (a precondition)"""

    def __init__(self, name, fn, spec, args, props, budget=60, kwargs=None, call=None):
        self.name = name
        self.fn = fn
        self.spec = spec
        self.args = args
        self.props = props if isinstance(props, tuple) else (props,)
        self.budget = budget
        self.call = call


class Result:
    def __init__(self, target):
        self.target = target
        self.status = None  # proved / refuted / undecided
        self.reason = ""
        self.paths = 0
        self.normal = 0
        self.raising = 0
        self.cut = 0
        self.obligations = 0
        self.discharged = 0
        self.failed = []
        self.solver_s = 0.0
        self.wall = 0.0
        self.used = set()
        self.unreached = []  # lines of the function no complete path goes through
        self.cov = set()


class Compare:
    def __init__(self, IR, IS, path):
        self.a = IR
        self.b = IS
        self.p = path
        self.out = []  # (name, formula, imprecise)
        self.memo = {}
        self.imprecise = False
        self.rebound = []  # containers one of the two runs has put another object in place of

    def add(self, name, f, imprecise=False):
        self.out.append((name, f, imprecise or self.imprecise))

    def val(self, name, x, y):
        """x of the real run, y of the contract"""
        if x is y and not isinstance(x, Obj):
            return
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            return self.add(name, x == y)
        if isinstance(x, (Seq, tuple)) or isinstance(y, (Seq, tuple)):
            return self.seq(name, x, y)
        if isinstance(x, Obj) and isinstance(y, Obj):
            return self.obj(name, x, y)
        if isinstance(x, Obj) or isinstance(y, Obj):
            o, s = (x, y) if isinstance(x, Obj) else (y, x)
            if isinstance(o.cls, type) and o.cls in self.a.m.records:
                return self.add(name, self.a.enc(x) == self.b.enc(y))
            if isinstance(s, S) and o.base is not None and s.t.eq(o.base.t):
                # same object up to identity?
                self.add(name + " (a copy or the object itself)", False, True)
                return
            if isinstance(o.cls, type) and issubclass(o.cls, BaseException):
                self.add(name, False)
                return
            if isinstance(s, S):
                self.rebound.append(s.t)
            ia = self.a if o is x else self.b
            ib = self.b if o is x else self.a
            if isinstance(s, S) and isinstance(o.items, (CDict, DictC)) and self.a.is_dictlike(s) \
                    and self.a.is_dictlike(o):
                self.items(name, ia.dcontent(o), ib.dcontent(s))
                self.add(name + " (a copy or the object itself)", False, True)
                return
            if isinstance(s, S) and isinstance(o.items, list) and self.a.is_listlike(s):
                self.add(name, ia.seqterm(o.items) == ib.seqterm(ib.content(s)))
                self.add(name + " (a copy or the object itself)", False, True)
                return
            self.add(name, False, not (s is None))
            return
        if isinstance(x, (Closure, Gen, Builtin)) or isinstance(y, (Closure, Gen, Builtin)):
            raise Unsupported("comparison of functions")
        try:
            f = self.a.enc(x) == self.b.enc(y)
        except Unsupported:
            if type(x) is type(y) and x == y:
                return
            raise
        self.add(name, f)

    def seq(self, name, x, y):
        def parts(i, v):
            if isinstance(v, Seq):
                return v.parts
            if isinstance(v, tuple):
                return [("e", e) for e in v]
            if isinstance(v, S) and isinstance(v.h, tuple) and v.h[0] in ("seq", "tup"):
                return i.content(v)
            return None

        px, py = parts(self.a, x), parts(self.b, y)
        if px is None or py is None:
            self.add(name, False, True)
            return
        self.parts(name, px, py)

    def parts(self, name, px, py):
        if all(q[0] == "e" for q in px + py):
            if len(px) != len(py):
                return self.add(name + ".length", False)
            for i, (q, r) in enumerate(zip(px, py)):
                self.val(f"{name}[{i}]", q[1], r[1])
            return
        tx, ty = self.a.seqterm(px), self.b.seqterm(py)
        self.add(name, tx == ty)

    def obj(self, name, x, y):
        k = (id(x), id(y))
        if k in self.memo:
            return
        for (q, r) in self.memo:
            if (q == id(x)) != (r == id(y)):
                # aliasing differs
                self.add(name + " (aliasing)", False, True)
                return
        self.memo[k] = (x, y)
        isx = isinstance(x.cls, type) and issubclass(x.cls, BaseException)
        if x.cls is not y.cls:
            self.add(name + ".class", False, getattr(x.cls, "__name__", "") == getattr(y.cls, "__name__", ""))
            return
        if (x.base is None) != (y.base is None):
            self.add(name + ".base", False, True)
            return
        if x.base is not None:
            if not x.base.t.eq(y.base.t):
                self.add(name + ".copied-from", x.base.t == y.base.t)
        names = sorted(set(x.attrs) | set(y.attrs))
        for n in names:
            if isx and n in ("args", "__cause__", "__context__"):
                continue
            vx = x.attrs.get(n, MISSING)
            vy = y.attrs.get(n, MISSING)
            if vx is MISSING or vy is MISSING:
                if x.base is not None:
                    if vx is MISSING:
                        vx = self.a.getattr_s(x.base, n, owner=x)
                    if vy is MISSING:
                        vy = self.b.getattr_s(y.base, n, owner=y)
                else:
                    # the code does not set what its other functions read, or has other attributes
                    lost = vx is MISSING and read_by(x.cls, n)
                    self.add(f"{name}.{n} (representation)", False, not lost)
                    continue
            self.val(f"{name}.{n}", vx, vy)
        if (x.items is None) != (y.items is None):
            return self.add(name + ".items", False, True)
        if x.items is not None:
            self.items(name, x.items, y.items, isinstance(x.cls, type) and issubclass(x.cls, (set, frozenset)))

    def items(self, name, cx, cy, isset=False):
        if isinstance(cx, list) and isinstance(cy, list):
            return self.parts(name + "[]", cx, cy)
        if isinstance(cx, list) or isinstance(cy, list):
            return self.add(name, False, True)
        if isinstance(cx, CDict) and isinstance(cy, CDict) and not isset:
            if len(cx.pairs) == len(cy.pairs):
                for (k1, v1), (k2, v2) in zip(cx.pairs, cy.pairs):
                    self.val(name + ".key", k1, k2)
                    self.val(f"{name}[{k1}]", v1, v2)
                return
        dx, dy = self.a.to_sym(cx), self.b.to_sym(cy)
        self.add(name + ".entries", dx.arr == dy.arr)
        if not isset:  # the order of a set is not specified
            self.add(name + ".order", dx.keys == dy.keys)

    def heaps(self):
        ra, rb = self.a.r, self.b.r
        for k in sorted(set(ra.heap) | set(rb.heap), key=lambda k: (k[1] == "$items", str(k))):
            ref = self.p.refs[k[0]]
            # what is no longer there may have been changed or not
            self.imprecise = k[1] == "$items" and any(ref.eq(t) for t in self.rebound)
            nm = f"heap({str(ref)[:40]}).{k[1]}"
            vx = ra.heap.get(k, MISSING)
            vy = rb.heap.get(k, MISSING)
            hint = self.p.hhint.get(k[0])
            if hint is None:
                hint = self.p.ex.hrefs.get(str(ref))
            if vx is MISSING:
                vx = self.init(self.a, hint, k[1], nm)
            if vy is MISSING:
                vy = self.init(self.b, hint, k[1], nm)
            if k[1] == "$items":
                self.items(nm, vx, vy, isinstance(hint, S) and self.a.is_setlike(hint))
            else:
                self.val(nm, vx, vy)
        self.imprecise = False
        self.add("external calls", ra.world == rb.world)

    def init(self, I, hint, attr, nm):
        if hint is None:
            raise Unsupported("unknown heap location")
        return I.initial(hint, attr)


_reads = {}


def read_by(cls, n):
    """functions of the class read the attribute, and nothing else supplies it"""
    if not isinstance(cls, type) or hasattr(cls, n) or hasattr(cls, "__getattr__"):
        return False
    k = (cls, n)
    if k not in _reads:
        _reads[k] = False
        for c in cls.__mro__:
            for f in vars(c).values():
                f = getattr(f, "fget", None) or getattr(f, "__func__", f)
                if not hasattr(f, "__code__"):
                    continue
                try:
                    node = fn_node(f)
                except Exception:
                    continue
                if any(isinstance(e, ast.Attribute) and e.attr == n and isinstance(e.ctx, ast.Load)
                       for e in ast.walk(node)):
                    _reads[k] = True
    return _reads[k]


OPS = {"str.++", "and", "or"}


def ufs_of(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if f.get_id() in seen:
        return acc
    seen.add(f.get_id())
    if z3.is_app(f):
        if f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.num_args() > 0:
            acc.add(f.decl().name())
        for c in f.children():
            ufs_of(c, acc, seen)
    return acc


def run_one(I, fn, args, kwargs):
    try:
        return ("ret", I.call(fn, list(args), dict(kwargs)))
    except PyRaise as e:
        return ("exc", e.val)
    except Cut:
        return ("cut", None)


def verify(target, model, budget=None, unroll=None):
    """unroll: a bounded check instead of a proof (sequences of at most that many elements,
    loops executed one iteration after the other)"""
    res = Result(target)
    t0 = time.time()
    ex = Explorer(target.name, budget=budget or target.budget)

    def one(p):
        rr, rs = Run("real"), Run("spec")
        IR = Exec(model, p, rr, target.fn)
        IR.unroll = unroll
        made = target.args(IR)
        args, kwargs = made if isinstance(made, tuple) and len(made) == 2 and isinstance(made[1], dict) else (made, {})
        IR.target = target.fn
        base_objs = [a for a in args if isinstance(a, Obj)]
        o1 = run_one(IR, target.fn, args, kwargs)
        IS = Exec(model, p, rs, None)
        IS.unroll = unroll
        made = target.args(IS)
        args2, kwargs2 = made if isinstance(made, tuple) and len(made) == 2 and isinstance(made[1], dict) else (made, {})
        IS.target = None
        res.used |= {getattr(f, "__qualname__", str(f)) for f in rr.used}
        name = f"{target.name}: "
        try:
            o2 = run_one(IS, target.spec, args2, kwargs2)
        except Mismatch as e:
            p.obligs.append(Oblig(name + f"loop coupling ({e})", "failed", str(e), True))
            return
        if o1[0] == "cut" or o2[0] == "cut":
            if o1[0] != o2[0]:
                p.obligs.append(Oblig(name + "loop coupling", "failed", "", True))
                return
            ex.n_cut += 1
            p.obligs.append(Oblig(name + "loop step preserves the coupling invariant", "proved"))
            return
        if o1[0] != o2[0]:
            d = f"code: {describe(o1)}; contract: {describe(o2)}"
            seen = p.reached()
            if seen is False:
                return
            p.obligs.append(Oblig(name + "outcome (result or exception)", "failed", d, p.havoc or seen is None, modelof(p, None)))
            return
        if o1[0] == "ret":
            ex.n_normal += 1
        else:
            ex.n_raise += 1
        if IR.r.nloop != IS.r.nloop:
            # additional loops of the code were executed for nothing
            pass
        c = Compare(IR, IS, p)
        c.val("result" if o1[0] == "ret" else "exception", o1[1], o2[1])
        for i, (x, y) in enumerate(zip(args, args2)):
            if isinstance(x, Obj):
                if o1[0] == "exc" and i == 0 and getattr(target.fn, "__name__", "") == "__init__":
                    continue  # an object whose construction failed is never seen
                c.val(f"argument {i}", x, y)
        if o1[0] == "ret" or True:
            c.heaps()
        # a difference in shape counts where the path is known to be taken
        seen = p.reached() if any(f is False for (_, f, _) in c.out) else True
        if seen is False:
            return
        for (n, f, imp) in c.out:
            if f is False:
                imp = imp or seen is None
                p.obligs.append(Oblig(name + n, "failed", f"code: {describe(o1)}; contract: {describe(o2)}", imp or p.havoc, modelof(p, None)))
                continue
            if f is True:
                p.obligs.append(Oblig(name + n, "proved"))
                continue
            r = p.valid(f)
            if r is True:
                p.obligs.append(Oblig(name + n, "proved"))
            elif r is False:
                g = z3.simplify(f)
                kids = f.children()
                imp2 = imp or p.havoc
                if len(kids) == 2 and not (ufs_of(kids[0]) - {"identity"} <= ufs_of(kids[1])):
                    imp2 = True
                p.obligs.append(Oblig(name + n, "failed", str(g)[:600], imp2, modelof(p, z3.Not(f))))
            else:
                p.obligs.append(Oblig(name + n, "unknown", str(f)[:300], True))

    try:
        ex.explore(one)
        res.status = None
    except Unsupported as e:
        res.status, res.reason = "undecided", f"unsupported: {e}"
        res.tb = traceback.format_exc()
    except Budget as e:
        res.status, res.reason = "undecided", f"budget: {e}"
    except Mismatch as e:
        res.status, res.reason = "undecided", f"mismatch: {e}"
    except RecursionError:
        res.status, res.reason = "undecided", "recursion"
    except z3.Z3Exception as e:
        res.status, res.reason = "undecided", f"z3: {e}"
        res.tb = traceback.format_exc()
    except Exception as e:  # an internal limitation never counts as a verdict
        res.status, res.reason = "undecided", f"internal: {type(e).__name__}: {e}"
        res.tb = traceback.format_exc()
    res.cov = ex.cov
    try:
        for n in ast.walk(fn_node(target.fn)):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n not in ex.cov:
                if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    res.unreached.append(n.lineno)
    except Exception:
        pass
    res.wall = time.time() - t0
    res.solver_s = ex.solver_s
    res.paths, res.normal, res.raising, res.cut = ex.n_paths, ex.n_normal, ex.n_raise, ex.n_cut
    res.obligations = len(ex.obligs)
    res.discharged = sum(1 for o in ex.obligs if o.status == "proved")
    res.failed = [o for o in ex.obligs if o.status != "proved"]
    res.bounded = unroll is not None
    if unroll is not None and res.status == "undecided":
        bad = [o for o in res.failed if o.status == "failed" and not o.imprecise]
        if bad:  # found before the limit
            res.status, res.reason = "refuted", bad[0].name
    if res.status is None:
        if not res.failed:
            if res.normal + res.raising == 0:
                res.status, res.reason = "undecided", "vacuous: no complete path"
            else:
                res.status = "proved"
        elif any(o.status == "failed" and not o.imprecise for o in res.failed):
            res.status = "refuted"
            res.reason = next(o for o in res.failed if o.status == "failed" and not o.imprecise).name
        else:
            res.status = "undecided"
            res.reason = res.failed[0].name + " " + res.failed[0].status
    return res


def describe(o):
    k, v = o
    if isinstance(v, Obj):
        s = getattr(v.cls, "__name__", str(v.cls))
        if v.cls in ():
            pass
        return f"{k} {s}"
    if isinstance(v, S):
        return f"{k} {str(v.t)[:120]}"
    return f"{k} {str(v)[:120]}"


def modelof(p, extra):
    try:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*p.pc)
        if extra is not None:
            s.add(extra)
        if s.check() == z3.sat:
            m = s.model()
            return "\n".join(f"{d.name()} = {m[d]}" for d in m.decls())[:3000]
    except z3.Z3Exception:
        pass
    return None
