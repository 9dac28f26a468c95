"""Random script generator; weights focus it on the constructs of a property."""
import copy
import random

from bounded.ref import KEYWORDS, N

INTS = [0, 1, 2, 3, 4, 5, 7, 10, -1, -2, -3, 12, 100]
FLOATS = [0.0, 0.5, 1.0, 2.5, 3.75, 10.25]
STRS = ["", "_", "a_", "Z[", "a", "b", "A", "ab", "Abc", "abc", "aXbXc", "x y", "B", "é", "Straße", "10", "-3",
        "2.5", "Option A", "Option B", "main", "|x", "a\nb", "t\tq", "back\\slash", "two  blanks ", " lead", "\tx\t", "it's", "q\"q"]
VARS = {"int": ["a", "b", "i", "n", "A", "len"], "float": ["f", "g"], "str": ["s", "t", "u", "S", "t_1"],
        "bool": ["p", "q"], "sp": ["pk"], "any": ["z", "y"]}
PKGS = [
    [("Main", ["data/a.txt", "data/Main.esp", "sub/x.esm"]), ("Extra", ["Extra.esp", "readme.TXT"]),
     ("straße", ["q.esl"])],
    [("Solo", ["only.esp"])],
    [],
    [("A", ["m.esp", "x/m.esp"]), ("b", ["M.ESP", "n.esm"]), ("C", []), ("d d", ["m.esm", "dir/p.esp"])],
    [("Zeta", ["z.esp"]), ("alpha", ["shared.esp", "al.esm"]), ("Mid", ["shared.esp", "mid.esp"])],
]
PLUGS = ["Main.esp", "main.ESP", "x.esm", "Extra.esp", "q.esl", "only.esp", "m.esp", "n.esm",
         "p.esp", "shared.esp", "z.esp", "none.esp"]
PKGN = ["Main", "main", "MAIN", "Extra", "extra", "STRASSE", "Solo", "A", "a", "B", "C", "D D", "missing",
        "zeta", "Alpha", "mid"]

DEFAULT = dict(
    assign=10, compound=5, expr=5, inc=3, **{"if": 5, "while": 3, "range": 3, "in": 2, "break": 3,
    "continue": 3, "return": 0.3, "cancel": 0.3, "exec": 1, "select": 2, "keyword": 4, "ini": 1,
    "bad": 0.15},
)


class Gen:
    def __init__(self, seed, focus=None, ints=(), strs=(), depth=3, size=6, err=0.01):
        self.r = random.Random(seed)
        self.wt = dict(DEFAULT)
        self.wt.update(focus or {})
        self.ints = INTS + list(ints)
        self.strs = STRS + list(strs)
        self.depth = depth
        self.size = size
        self.err = err if self.r.random() < 0.5 else 0
        self.nw = 0
        self.known = set()
        self.pkgs = self.r.choice(PKGS)
        if self.r.random() < 0.7:
            self.pkgs = self.r.choice([PKGS[0], PKGS[3], PKGS[4]])
        self.in_exec = False
        self.reserved = []

    # expressions -----------------------------------------------------------
    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def lit(self, t):
        r = self.r
        if t == "int":
            v = self.pick(self.ints[:13]) if r.random() < 0.9 or len(self.ints) == 13 else self.pick(self.ints[13:])
            if v < 0:
                return N("neg", N("lit", -v, sp=False))
            return N("lit", v, sp=False)
        if t == "float":
            return N("lit", self.pick(FLOATS), sp=False)
        if t == "bool":
            return N("lit", r.random() < 0.5, sp=False)
        if t == "sps":
            return N("lit", "SubPackages", sp=True)
        v = self.pick(STRS) if r.random() < 0.8 else self.pick(self.strs)
        return N("lit", v, sp=False, q=self.pick("\"'"), raw=r.random() < 0.6)

    def args(self, ts, d):
        return [self.ex(t, d - 1) for t in ts]

    def ex(self, t, d):
        r = self.r
        if r.random() < self.err:
            t = self.pick(["int", "str", "float", "bool", "sps"])
        if t == "any":
            t = self.pick(["int", "str", "bool", "float", "int", "str"])
        if t == "num":
            t = self.pick(["int", "int", "float", "bool"])
        if t == "sp":
            if self.pkgs and r.random() < 0.8:
                return N("index", N("lit", "SubPackages", sp=True),
                         N("lit", r.randrange(len(self.pkgs)), sp=False))
            return N("var", "pk") if "pk" in self.known else self.lit("int")
        if t == "sps":
            return self.lit("sps")
        if d <= 0 or r.random() < 0.25:
            vs = [v for v in VARS[t] if v in self.known]
            if vs and r.random() < 0.7:
                return N("var", self.pick(vs))
            if r.random() < 0.01:
                return N("var", self.pick(["unset1", "unset2"]))
            return self.lit(t)
        if r.random() < 0.1:
            return N("call", "probe", [self.ex(t, d - 1)])
        if r.random() < 0.06:
            return N("paren", self.ex(t, d - 1))
        e = getattr(self, "x_" + t)(d)
        return e

    def x_int(self, d):
        r = self.r
        k = self.pick(["bin"] * 5 + ["inc"] * 2 + ["neg", "call", "method", "slice", "mgr", "conv"])
        if k == "bin":
            op = self.pick("+-*+-*%^")
            if op == "^":
                if r.random() < 0.2:
                    a, b, c = (N("lit", r.randrange(n), sp=False) for n in (4, 4, 3))
                    if r.random() < 0.5:
                        return N("bin", op, N("bin", op, a, b), c)
                    return N("bin", op, a, N("bin", op, b, c))
                return N("bin", op, self.ex("int", 0), N("lit", r.randrange(4), sp=False))
            if op == "%":
                return N("bin", op, self.ex("int", d - 1), N("lit", 1 + r.randrange(5), sp=False))
            return N("bin", op, self.ex("int", d - 1), self.ex("int", d - 1))
        if k == "inc":
            vs = [v for v in VARS["int"] if v in self.known]
            if not vs:
                return self.lit("int")
            return N("inc", self.pick(vs), self.pick([1, -1]), r.random() < 0.5)
        if k == "neg":
            return N("neg", self.ex("int", d - 1))
        if k == "call":
            f = self.pick(["len", "find", "rfind"])
            if f == "len":
                return N("call", "len", [self.ex("str", d - 1)])
            n = r.randrange(2, 5)
            return N("call", f, [self.ex("str", d - 1), self.ex("str", 0)] + [self.ex("int", 0) for _ in range(n - 2)])
        if k == "method":
            f = self.pick(["len", "find", "rfind", "int"])
            rec = self.ex("str", d - 1)
            if f == "len":
                return N("method", rec, f, [])
            if f == "int":
                return N("method", N("lit", self.pick(["10", "-3", " 7 "]), sp=False), f, [])
            n = r.randrange(1, 4)
            return N("method", rec, f, [self.ex("str", 0)] + [self.ex("int", 0) for _ in range(n - 1)])
        if k == "mgr":
            f = self.pick(["CompareGameVersion", "CompareSEVersion", "CompareGEVersion",
                           "CompareWBVersion", "GetPluginLoadOrder", "GetPluginStatus", "GetEspmStatus"])
            a = [self.ex("str", d - 1)]
            if f == "GetPluginLoadOrder" and r.random() < 0.5:
                a.append(self.ex("int", d - 1))
            return N("call", f, a)
        if k == "conv":
            return N("call", "int", [self.ex(self.pick(["int", "float", "bool"]), d - 1)])
        return self.lit("int")

    def x_float(self, d):
        k = self.pick(["bin", "bin", "div", "conv"])
        if k == "bin":
            return N("bin", self.pick("+-*"), self.ex("float", d - 1), self.ex("num", d - 1))
        if k == "div":
            return N("bin", "/", self.ex("num", d - 1), N("lit", self.pick([1, 2, 4, 0.5]), sp=False))
        return N("call", "float", [self.ex("num", d - 1)])

    def x_str(self, d):
        r = self.r
        k = self.pick(["cat", "cat", "slice", "index", "lower", "str", "mgr", "name"])
        if k == "cat":
            return N("bin", "+", self.ex("str", d - 1), self.ex("str", d - 1))
        if k == "slice":
            q = lambda: self.ex("int", 0) if r.random() < 0.6 else None
            s = None
            if r.random() < 0.3:
                s = self.lit("int")
                if s.k == "lit" and s.a[0] == 0:
                    s = N("lit", 2, sp=False)
            return N("slice", self.ex("str", d - 1), q(), q(), s, colon2=r.random() < 0.2)
        if k == "index":
            s = self.pick([x for x in self.strs if x])
            i = r.randrange(len(s))
            i = N("lit", i, sp=False) if r.random() < 0.6 else N("neg", N("lit", len(s) - i, sp=False))
            return N("index", N("lit", s, sp=False), i)
        if k == "lower":
            a = self.ex("str", d - 1)
            return N("method", a, "lower", []) if r.random() < 0.5 else N("call", "lower", [a])
        if k == "str":
            a = self.ex("any", d - 1)
            if r.random() < 0.5 and not (a.k == "lit" and not isinstance(a.a[0], str)):
                return N("method", a, "str", [])
            return N("call", "str", [a])
        if k == "mgr":
            return N("call", self.pick(["GetFilename", "GetFolder"]), [self.ex("str", d - 1)])
        return N("call", "str", [self.ex("sp", 0)])

    def x_bool(self, d):
        r = self.r
        k = self.pick(["and", "or", "not", "cmp", "cmp", "cmps", "cmps", "in", "fn", "eq", "mgr", "in"])
        if k in ("and", "or"):
            w = self.pick(["and", "&"] if k == "and" else ["or", "|"])
            return N(k, w, self.ex(self.pick(["bool", "bool", "any"]), d - 1),
                     self.ex(self.pick(["bool", "bool", "any"]), d - 1))
        if k == "not":
            return N("not", self.pick(["!", "not"]), self.ex("any", d - 1))
        if k == "cmp":
            return N("cmp", self.pick(["<", "<=", ">", ">="]), False, self.ex("num", d - 1), self.ex("num", d - 1))
        if k == "cmps":
            return N("cmp", self.pick(["<", "<=", ">", ">=", "==", "!="]), r.random() < 0.5,
                     self.ex("str", d - 1), self.ex("str", d - 1))
        if k == "eq":
            return N("cmp", self.pick(["==", "!="]), False, self.ex("any", d - 1), self.ex("any", d - 1))
        if k == "in":
            if r.random() < 0.5:
                a = self.ex("sp", 0) if r.random() < 0.3 else N("lit", self.pick(PKGN), sp=False)
                return N("in", r.random() < 0.5, a, N("lit", "SubPackages", sp=True))
            if not self.pkgs:
                return self.lit("bool")
            p = r.randrange(len(self.pkgs))
            f = self.pick(self.pkgs[p][1] or ["zz"])
            f = self.pick([f, f.upper(), f.lower(), "zz"])
            return N("in", r.random() < 0.5, N("lit", f, sp=False),
                     N("index", N("lit", "SubPackages", sp=True), N("lit", p, sp=False)))
        if k == "fn":
            f = self.pick(["startswith", "endswith"])
            a = self.args(["str"] * r.randrange(0, 3), 1)
            rec = self.ex("str", d - 1)
            return N("method", rec, f, a) if r.random() < 0.5 else N("call", f, [rec] + a)
        return N("call", "DataFileExists", self.args(["str"] * r.randrange(1, 4), d - 1))

    # statements --------------------------------------------------------------
    def block(self, d, loop=False, brk=False, n=None):
        r = self.r
        n = r.randrange(0, self.size) if n is None else n
        out = []
        for _ in range(n):
            s = self.stmt(d, loop, brk)
            if s is None:
                continue
            for x in s if isinstance(s, list) else [s]:
                # a statement that can take the next expression as its own
                if x.k in ("expr", "exec") and out and (
                    out[-1].k == "cancel" and out[-1].a[0] is None
                    or out[-1].k == "keyword" and not out[-1].a[1]
                ):
                    out.append(N("assign", "y", self.lit("int")))
                    self.known.add("y")
                out.append(x)
                if x.k in ("assign", "compound", "expr", "keyword", "if") and self.r.random() < 0.03:
                    # the same statement again
                    if x.k == "keyword" and not x.a[1]:
                        out.append(N("assign", "y", self.lit("int")))
                        self.known.add("y")
                    out += [copy.deepcopy(x) for _ in range(self.pick([1, 1, 2]))]
        return out

    def stmt(self, d, loop, brk):
        r = self.r
        ks = [k for k in self.wt if self.wt[k] > 0]
        k = r.choices(ks, [self.wt[k] for k in ks])[0]
        if d <= 0 and k in ("if", "while", "range", "in", "select", "exec"):
            k = "assign"
        if k == "break" and not brk or k == "continue" and not loop:
            if r.random() > 0.03:
                k = "assign"
            else:
                return N("bad" + k)
        return getattr(self, "g_" + k)(d, loop, brk)

    def var(self, t):
        return self.pick([v for v in VARS[t] if v not in self.reserved])

    def g_assign(self, d, loop, brk):
        if self.r.random() < 0.03:
            # a variable without content, never read
            return N("assign", self.pick(["void1", "void2"]),
                     self.pick([N("call", "sink", []), N("call", "DisableINILine", self.args(["str"] * 3, 1))]))
        t = self.pick(["int", "int", "str", "bool", "float", "any", "sp"])
        e = self.ex(t, 2)
        v = self.var(t)
        self.known.add(v)
        return N("assign", v, e)

    def g_compound(self, d, loop, brk):
        r = self.r
        t = self.pick(["int", "int", "str", "float"])
        vs = [v for v in VARS[t] if v in self.known and v not in self.reserved]
        if not vs:
            return self.g_assign(d, loop, brk)
        v = self.pick(vs)
        if r.random() < 0.02:
            v = "unset3"
        if t == "str":
            return N("compound", v, "+", self.ex("str", 2))
        op = self.pick("+-*+-*/%^")
        if t == "int" and op in "/%":
            op = "%"
        if op in "/%":
            return N("compound", v, op, N("lit", self.pick([1, 2, 3, 4]), sp=False))
        if op == "^":
            return N("compound", v, op, N("lit", self.pick([1, 0, 2]), sp=False)) if t == "int" and r.random() < .3 else \
                N("compound", v, "+", self.ex("int", 1))
        return N("compound", v, op, self.ex(t, 2))

    def g_expr(self, d, loop, brk):
        r = self.r
        return N("expr", N("call", self.pick(["probe", "sink"]),
                           [self.ex("any", 2) for _ in range(r.randrange(0, 4))]))

    def g_inc(self, d, loop, brk):
        vs = [v for v in VARS["int"] if v in self.known and v not in self.reserved]
        if not vs:
            return self.g_assign(d, loop, brk)
        return N("expr", N("inc", self.pick(vs), self.pick([1, -1]), False))

    def g_ini(self, d, loop, brk):
        r = self.r
        f = self.pick(["Main.ini", "main.INI", "other.ini", "Ä.ini", "d/a.ini", " a.ini"])
        if r.random() < 0.5:
            return N("expr", N("call", "DisableINILine", [N("lit", f, sp=False)] + self.args(["str", "str"], 2)))
        a = [N("lit", f, sp=False)] + self.args(["str", "str", "any"], 2)
        if r.random() < 0.5:
            a.append(self.ex("str", 1))
        return N("expr", N("call", "EditINI", a))

    def cond(self):
        return self.ex(self.pick(["bool", "bool", "bool", "any"]), 2)

    def g_if(self, d, loop, brk):
        r = self.r
        bs = [(self.cond(), self.block(d - 1, loop, brk))]
        for _ in range(self.pick([0, 0, 1, 2, 3])):
            bs.append((self.cond(), self.block(d - 1, loop, brk)))
        e = self.block(d - 1, loop, brk) if r.random() < 0.5 else None
        return N("if", bs, e)

    def g_while(self, d, loop, brk):
        r = self.r
        self.nw += 1
        w = f"w{self.nw}"
        lim = r.randrange(0, 5)
        if r.random() < 0.3:
            # the condition itself counts
            c = N("cmp", "<", False, N("inc", w, 1, False), N("lit", lim, sp=False))
            body = self.block(d - 1, True, True)
        else:
            c = N("cmp", "<", False, N("var", w), N("lit", lim, sp=False))
            if r.random() < 0.3:
                c = N("and", "and", N("paren", c), self.cond())
            body = [N("expr", N("inc", w, 1, False))] + self.block(d - 1, True, True)
        return [N("assign", w, N("lit", 0, sp=False)), N("while", c, body)]

    def g_range(self, d, loop, brk):
        r = self.r
        v = self.var("int")
        a = self.pick([0, 1, 2, 3, 5, -2])
        by = self.pick([None, None, 1, 2, 3, -1, -2, -3])
        b = a + self.pick([-6, -5, -3, -1, 0, 1, 2, 3, 4, 6])
        q = lambda x: N("lit", x, sp=False) if x >= 0 else N("neg", N("lit", -x, sp=False))
        a, b = q(a), q(b)
        if r.random() < 0.15:
            a = self.ex("bool", 1)
        if r.random() < 0.1 and v in self.known:
            a = N("inc", v, 1, False)
            b = N("bin", "+", N("var", v), N("lit", 3, sp=False))
        self.known.add(v)
        return N("range", v, a, b, None if by is None else q(by), self.block(d - 1, True, True))

    def g_in(self, d, loop, brk):
        t = self.pick(["sps", "sps", "sp", "str"])
        e = self.ex(t, 1)
        v = self.var({"sps": "sp", "sp": "str", "str": "str"}[t])
        if t == "sps":
            self.known.add(v)
        elif v not in self.known:
            pre = N("assign", v, self.lit("str"))
            self.known.add(v)
            return [pre, N("in", v, e, self.block(d - 1, True, True))]
        return N("in", v, e, self.block(d - 1, True, True))

    def g_break(self, d, loop, brk):
        if self.r.random() < 0.5:
            return N("if", [(self.cond(), [N("break")])], None)
        return N("break")

    def g_continue(self, d, loop, brk):
        if self.r.random() < 0.5:
            return N("if", [(self.cond(), [N("continue")])], None)
        return N("continue")

    def g_return(self, d, loop, brk):
        return N("return")

    def g_cancel(self, d, loop, brk):
        return N("cancel", self.ex("str", 2) if self.r.random() < 0.6 else None)

    def g_bad(self, d, loop, brk):
        r = self.r
        k = self.pick(["name", "arity", "cmp", "index", "ini", "type", "method", "zero", "kwarity", "exec",
                       "mgr", "header", "neg", "compound", "cond"])
        e = None
        if k == "name":
            e = N("call", self.pick(["foo", "Index", "Expr", "EndExec", "String", "visit", "len_"]), [self.ex("int", 1)])
        elif k == "arity":
            f = self.pick(["len", "find", "CompareGameVersion", "GetPluginLoadOrder", "lower", "DataFileExists", "startswith"])
            e = N("call", f, self.args(["str"] * self.pick([0, 1, 5]), 1))
        elif k == "cmp":
            e = N("cmp", self.pick(["<", ">=", "=="]), r.random() < 0.5, self.ex("int", 1), self.ex("str", 1))
        elif k == "index":
            e = N("index", N("lit", self.pick(["abc", "", "é"]), sp=False), self.ex("int", 1))
        elif k == "ini":
            e = N("call", self.pick(["EditINI", "DisableINILine"]), self.args(["str"] * self.pick([1, 2, 3, 6]), 1))
        elif k == "type":
            e = N("bin", self.pick("+-*/%^"), self.ex("str", 1), self.ex("int", 1))
        elif k == "method":
            e = N("method", self.ex("any", 1), self.pick(["len", "foo", "str"]), [])
            if e.a[0].k == "lit" and not isinstance(e.a[0].a[0], str):
                e = N("method", N("paren", e.a[0]), e.a[1], [])
        elif k == "zero":
            e = N("bin", self.pick("/%"), self.ex("int", 1), N("lit", 0, sp=False))
        elif k == "neg":
            e = N("neg", self.ex(self.pick(["bool", "str"]), 1))
        elif k == "mgr":
            e = N("call", self.pick(["CompareGameVersion", "GetFolder", "DataFileExists"]), self.args(["int"], 1))
        elif k == "kwarity":
            kw = self.pick(sorted(KEYWORDS))
            lo, hi = KEYWORDS[kw][1:]
            n = self.pick([lo - 1, hi + 1])
            if n < 0:
                n = hi + 1
            return N("keyword", kw, [N("call", "probe", [self.ex("str", 1)]) for _ in range(n)])
        elif k == "exec":
            return self.pick([
                N("exec", [], None), N("exec", [self.ex("int", 1)], None),
                N("exec", self.args(["str", "str"], 1), None)])
        elif k == "header":
            return self.pick([
                N("range", "i", self.ex("str", 1), self.ex("int", 1), None, []),
                N("in", "s", self.ex("int", 1), []),
                N("cancel", self.ex("int", 1)),
                N("if", [(N("cmp", "<", False, self.lit("int"), self.lit("str")), [])], None),
            ])
        elif k == "compound":
            return N("compound", "s", self.pick("-*/+"), self.ex("int", 1))
        else:
            return N("while", N("bin", "-", self.ex("str", 1), self.ex("str", 1)), [])
        if e.k == "neg":
            return N("assign", "z", e)
        return self.pick([N("assign", "z", e), N("expr", N("call", "sink", [self.ex("int", 1), e])),
                          N("if", [(e, [])], None)])

    def g_keyword(self, d, loop, brk):
        r = self.r
        kw = self.pick(sorted(KEYWORDS))
        act = KEYWORDS[kw][0]
        S = lambda x: N("lit", x, sp=False)
        pr = lambda e: N("call", "probe", [e]) if r.random() < 0.1 else e
        if act in ("SelectPlugin", "DeSelectPlugin", "ResetPluginName"):
            a = [pr(S(self.pick(PLUGS)))]
        elif act in ("SelectSubPackage", "DeSelectSubPackage"):
            a = [pr(S(self.pick(PKGN)))]
        elif act == "RenamePlugin":
            a = [S(self.pick(PLUGS)), pr(self.ex("str", 1))]
        elif act == "Note":
            a = [self.ex("any" if r.random() < 0.2 else "str", 2)]
        elif act == "RequireVersions":
            a = [self.ex("str", 1) for _ in range(r.randrange(1, 5))]
        else:
            a = []
        return N("keyword", kw, a)

    def g_select(self, d, loop, brk):
        r = self.r
        many = r.random() < 0.5
        n = r.randrange(1, 5)
        names = [self.pick(["A", "B", "C", "a", "", "Option é", "X", "A ", " A", "C\t", "Option  é"]) for _ in range(n)]
        opts = []
        for nm in names:
            m = "|" + nm if r.random() < 0.35 else nm
            if r.random() < 0.1:
                m = "|" + m
            e = N("lit", m, sp=False)
            if r.random() < 0.15:
                e = N("call", "probe", [e])
            opts.append([e, self.ex("str", 1), self.pick([N("lit", "", sp=False), N("lit", " ", sp=False),
                                                           N("lit", "img.png", sp=False), self.ex("str", 1)])])
        cases = []
        for _ in range(r.randrange(1, 5)):
            lb = self.pick(names + ["Z", "|" + names[0]])
            if r.random() < 0.15:
                lb = self.pick([lb.strip(), lb + " ", " " + lb, lb.swapcase(), lb[:-1], lb + "|"])
            lb = N("lit", lb, sp=False)
            if r.random() < 0.2:
                lb = N("call", "probe", [lb])
            b = self.block(d - 1, loop, True)
            if r.random() < 0.6:
                b = b + [N("break")]
            cases.append((lb, b))
        default = None
        if r.random() < 0.5:
            default = self.block(d - 1, loop, True)
            if r.random() < 0.3:
                default = default + [N("break")]
        return N("select", many, self.ex("str", 2), opts, cases, default)

    def g_exec(self, d, loop, brk):
        return N("exec", None, self.block(d - 1, loop, brk, n=self.r.randrange(0, 4)))

    def script(self):
        n = self.r.randrange(3, 3 + self.size * 2)
        out = []
        q = self.r.random()
        full = q < 0.7
        if q > 0.86:
            # nothing is set at the beginning
            return self.block(self.depth, n=n)
        for t in ("int", "str", "bool", "float"):
            for v in VARS[t] if full else VARS[t][:2]:
                if full or self.r.random() < 0.8:
                    out.append(N("assign", v, self.lit(t)))
                    self.known.add(v)
        return out + self.block(self.depth, n=n)


def finish(block, r):
    """the texts of executed sub-scripts"""
    from bounded.ref import to_text

    def walk(b):
        for s in b:
            if s.k == "if":
                for _, x in s.a[0]:
                    walk(x)
                if s.a[1]:
                    walk(s.a[1])
            elif s.k == "while":
                walk(s.a[1])
            elif s.k == "range":
                walk(s.a[4])
            elif s.k == "in":
                walk(s.a[2])
            elif s.k == "select":
                for _, x in s.a[3]:
                    walk(x)
                if s.a[4]:
                    walk(s.a[4])
            elif s.k == "exec" and s.a[0] is None:
                walk(s.a[1])
                t = to_text(s.a[1])
                e = N("lit", t, sp=False)
                q = r.random()
                if q < 0.2:
                    i = r.randrange(len(t) + 1)
                    e = N("bin", "+", N("lit", t[:i], sp=False), N("lit", t[i:], sp=False))
                elif q < 0.3:
                    e = N("call", "probe", [e])
                s.a = ([e], s.a[1])

    walk(block)


def make(seed, **kw):
    from bounded.ref import to_text

    g = Gen(seed, **kw)
    b = g.script()
    finish(b, g.r)
    sev = {}
    if g.r.random() < 0.5:
        for i in ("MULTIPLE_DEFAULTS_IN_SELECT_ON", "USAGE_OF_NOTSET_VARIABLES",
                  "USAGE_OF_ANYTHING_IN_NOTE", "SELECT_MISSING_SUBPACKAGE", "SELECT_MISSING_PLUGIN"):
            if g.r.random() < 0.5:
                sev[i] = g.pick(["warning", "allow", "error", "warning"])
        if g.r.random() < 0.4:
            sev[None] = g.pick(["allow", "error", "warning", "allow"])
    return b, to_text(b), g.pkgs, sev
