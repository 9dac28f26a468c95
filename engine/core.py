"""Symbolic values, paths and the exploration loop of the verifier.

A *target* is a function of /repo together with a contract: a specification
function written in the same language.  For every path of the real function the
specification is executed from the same (symbolic) initial heap and the two
outcomes - result or exception, final heap, trace of external calls - are
compared by verification conditions discharged by z3."""
import time

import z3

from .terms import *  # noqa: F401,F403
from . import terms as T


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Restart(Exception):
    pass


class RestartAll(Exception):
    pass


class Cut(Exception):
    pass


class Mismatch(Exception):
    """a coupling that cannot be made"""


class PyRaise(Exception):
    def __init__(self, val):
        self.val = val


class Budget(Exception):
    pass


# --------------------------------------------------------------------------
# hints (static knowledge about a symbolic value)
#
#  'none','bool','int','float','str','any','exc', 'callable'
#  Python class                   instance of (a subclass of) the class
#  ('exact', cls)                 instance of exactly this class
#  ('py', o1, o2..)               one of these Python objects
#  ('or', h...)                   union
#  ('list', h) ('seq', h)         Python list / any immutable sequence
#  ('dict', hk, hv)  ('set', h)


class S:
    """symbolic value: a term of sort Val with a hint"""

    __slots__ = ("t", "h")

    def __init__(self, t, h="any"):
        self.t = t
        self.h = h

    def __repr__(self):
        return f"S({self.t}:{hname(self.h)})"


def hname(h):
    if isinstance(h, tuple):
        return "(" + ",".join(hname(x) for x in h) + ")"
    return getattr(h, "__name__", None) or str(h)


class Obj:
    """object allocated during the execution"""

    __slots__ = ("oid", "cls", "attrs", "base", "items", "frozen", "run", "ghost", "site")

    def __init__(self, oid, cls, run):
        self.oid = oid
        self.cls = cls
        self.attrs = {}
        self.base = None  # S this object is a shallow copy of
        self.items = None  # content of list/dict/set
        self.frozen = False
        self.run = run
        self.ghost = None
        self.site = None

    def __repr__(self):
        return f"<{getattr(self.cls, '__name__', self.cls)}#{self.oid} {self.attrs}>"


class Closure:
    __slots__ = ("node", "env", "glob", "name", "defaults", "kwdefaults", "cls")

    def __init__(self, node, env, glob, name, defaults=(), kwdefaults=None, cls=None):
        self.node = node
        self.env = env
        self.glob = glob
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.cls = cls


class BoundM:
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn


class Builtin:
    """method of a builtin container / engine primitive"""

    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Gen:
    """generator expression, evaluated lazily"""

    __slots__ = ("elt", "gens", "frame", "first")

    def __init__(self, elt, gens, frame, first):
        self.elt = elt
        self.gens = gens
        self.frame = frame
        self.first = first


class RangeV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class EnumV:
    """enumerate(x, start)"""

    __slots__ = ("src", "start")

    def __init__(self, src, start):
        self.src, self.start = src, start


class ZipV:
    __slots__ = ("srcs",)

    def __init__(self, srcs):
        self.srcs = srcs


class SliceV:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


# sequence parts: ('e', value) or ('s', seqterm, hint) or ('r', RangeV)


class Seq:
    """immutable sequence of parts (engine level)"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)


class DictC:
    """symbolic dictionary content: array + key order"""

    __slots__ = ("arr", "keys", "hk", "hv")

    def __init__(self, arr, keys, hk, hv):
        self.arr, self.keys, self.hk, self.hv = arr, keys, hk, hv


class CDict:
    """concrete-key dictionary content: list of (key, value)"""

    __slots__ = ("pairs",)

    def __init__(self, pairs):
        self.pairs = list(pairs)


# --------------------------------------------------------------------------


class Run:
    def __init__(self, kind):
        self.kind = kind  # 'real' or 'spec'
        self.heap = {}  # (termkey, attr) -> value
        self.world = T.const("world0", World)
        self.noid = 0
        self.nloop = 0
        self.approx = set()
        self.loopframes = []
        self.steps = 0
        self.nid = 0
        self.used = set()
        self.objs = {}
        self.allobjs = {}
        self.sites = {}


class Path:
    def __init__(self, ex, decisions):
        self.ex = ex
        self.decisions = decisions
        self.trail = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.solver.set("rlimit", 5_000_000)
        self.solver.set("random_seed", 1)
        self.pc = []
        self.facts = {}
        self.nfresh = {}
        self.loops = []
        self.isinst = {}
        self.refs = {}
        self.hhint = {}
        self.known = set()
        self.obligs = []
        self.havoc = False
        self.keep = []
        self.thints = {}
        self.tests = {}
        self.cov = set()

    # -- solver ---------------------------------------------------------
    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        i = c.get_id()
        if self.facts.get(i) is True:
            return
        self.keep.append(c)
        self.facts[i] = True
        if z3.is_not(c):
            self.facts[c.arg(0).get_id()] = False
        elif z3.is_and(c):
            for a in c.children():
                self.facts[a.get_id()] = True
                if z3.is_not(a):
                    self.facts[a.arg(0).get_id()] = False
        else:
            n = z3.simplify(z3.Not(c))
            self.keep.append(n)
            self.facts[n.get_id()] = False
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *extra):
        ex = self.ex
        if time.time() > ex.deadline:
            raise Budget("time budget")
        t0 = time.time()
        r = self.solver.check(*extra)
        ex.solver_s += time.time() - t0
        ex.n_checks += 1
        return r

    def feasible(self, c):
        return self._check(c) != z3.unsat

    def valid(self, c):
        """True / False(sat) / None(unknown)"""
        if isinstance(c, bool):
            if c:
                return True
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if self.facts.get(c.get_id()) is True:
            return True
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        # another attempt with a fresh solver and more time
        s = z3.Solver()
        s.set("timeout", 60000)
        s.set("rlimit", 40_000_000)
        s.add(*self.pc)
        s.add(z3.Not(c))
        t0 = time.time()
        r = s.check()
        self.ex.solver_s += time.time() - t0
        self.ex.n_checks += 1
        return True if r == z3.unsat else False if r == z3.sat else None

    def reached(self):
        """whether the path can be taken: True / False / None(unknown)"""
        r = self._check()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", 60000)
            s.set("rlimit", 40_000_000)
            s.add(*self.pc)
            r = s.check()
        return False if r == z3.unsat else True if r == z3.sat else None

    def implied(self, c):
        return self.valid(c) is True

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        f = self.facts.get(c.get_id())
        if f is not None:
            return f
        i = len(self.trail)
        if i < len(self.decisions):
            d = self.decisions[i]
            self.trail.append((d, False))
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c))
            if not ft and not ff:
                raise Infeasible()
            d = ft
            self.trail.append((d, ft and ff))
        self.add(c if d else z3.Not(c))
        return d

    def choose(self, n, tag=""):
        """non-deterministic choice"""
        for k in range(n - 1):
            i = len(self.trail)
            if i < len(self.decisions):
                d = self.decisions[i]
                self.trail.append((d, False))
            else:
                d = True
                self.trail.append((True, True))
            if d:
                return k
        return n - 1

    def fresh(self, tag, sort):
        n = self.nfresh.get(tag, 0)
        self.nfresh[tag] = n + 1
        return T.const(f"{tag}!{n}", sort)


class Oblig:
    __slots__ = ("name", "status", "detail", "imprecise", "model")

    def __init__(self, name, status, detail="", imprecise=False, model=None):
        self.name = name
        self.status = status  # 'proved' 'failed' 'unknown'
        self.detail = detail
        self.imprecise = imprecise
        self.model = model


class Explorer:
    def __init__(self, name, budget=60.0, max_paths=4000):
        self.name = name
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.solver_s = 0.0
        self.n_checks = 0
        self.n_paths = 0
        self.n_normal = 0
        self.n_raise = 0
        self.n_cut = 0
        self.carried = {}
        self.lochint = {}
        self.pairs = {}
        self.hrefs = {}
        self.obligs = []
        self.cov = set()
        self.restarts = 0

    def explore(self, fn):
        """fn(path) executes one path; explores all of them"""
        while True:
            try:
                self._explore(fn)
                return
            except RestartAll:
                self.restarts += 1
                if self.restarts > 60:
                    raise Unsupported("loop coupling does not stabilise")

    def _explore(self, fn):
        self.obligs = []
        self.cov = set()
        self.n_paths = self.n_normal = self.n_raise = self.n_cut = 0
        stack = [[]]
        while stack:
            dec = stack.pop()
            tries = 0
            while True:
                p = Path(self, dec)
                try:
                    fn(p)
                    self.n_paths += 1
                    self.obligs.extend(p.obligs)
                    self.cov |= p.cov
                except Infeasible:
                    pass
                except Restart:
                    tries += 1
                    if tries > 40:
                        raise Unsupported("loop analysis does not stabilise")
                    if time.time() > self.deadline:
                        raise Budget("time budget")
                    continue
                break
            vals = [d for d, _ in p.trail]
            for i in range(len(dec), len(p.trail)):
                if p.trail[i][1]:
                    stack.append(vals[:i] + [not vals[i]])
            if self.n_paths > self.max_paths:
                raise Budget("too many paths")
            if time.time() > self.deadline:
                raise Budget("time budget")
