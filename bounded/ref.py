"""An independent reference interpreter of BAIN Wizard scripts, over its own syntax
tree (the scripts given to the code under test are printed from that tree)."""
import random


class N:
    """syntax tree node; pos is set when it is printed"""

    def __init__(self, k, *a, **kw):
        self.k = k
        self.a = a
        self.pos = None
        self.__dict__.update(kw)

    def __repr__(self):
        return f"{self.k}{self.a}"


class SP:
    def __init__(self, name, files):
        self.name, self.files = name, files

    def plugins(self):
        return [f.replace("\\", "/").split("/")[-1] if False else f.split("/")[-1]
                for f in self.files if f[-4:] in (".esp", ".esm", ".esl")]

    def __repr__(self):
        return repr(self.name)

    def __str__(self):
        return self.name


class SPS(list):
    pass


class VoidV:
    def __repr__(self):
        return "void"


VOID = VoidV()


class Err(Exception):
    """an error of the script: kind, position, detail"""

    def __init__(self, kind, pos, detail=None):
        self.kind, self.pos, self.detail = kind, pos, detail


class TE(Exception):
    pass


class IE(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class End(Exception):
    def __init__(self, kind, msg=None):
        self.kind, self.msg = kind, msg


class Limit(Exception):
    pass


class Script(Exception):
    """request of a callback: rewind(index of the callback) / abort / raise"""


# ---------------------------------------------------------------------------
# values

def isnum(v):
    return isinstance(v, (int, float))


def tname(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "integer"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "string"
    if v is VOID:
        return "void"
    if isinstance(v, SPS):
        return "SubPackage[]"
    return "SubPackage"


def fold(x):
    return x.casefold()


def eq(a, b):
    if isinstance(a, SP) or isinstance(b, SP):
        x = a.name if isinstance(a, SP) else a
        y = b.name if isinstance(b, SP) else b
        if isinstance(x, str) and isinstance(y, str):
            return fold(x) == fold(y)
        raise TE()
    if isinstance(a, SPS) and isinstance(b, SPS):
        return a is b or len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isnum(a) and isnum(b) or isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is b


def truth(v):
    if isnum(v):
        return v != 0
    if isinstance(v, (str, SPS)):
        return len(v) > 0
    return True


def arith(op, a, b):
    if op == "+" and isinstance(a, str) and isinstance(b, str):
        return a + b
    if not (isnum(a) and isnum(b)):
        raise TE()
    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
         "%": lambda: a % b, "^": lambda: a ** b}[op]()
    if isinstance(r, complex):
        raise ValueError("complex")
    return r


def order(op, a, b):
    if not (isnum(a) and isnum(b) or isinstance(a, str) and isinstance(b, str)):
        raise TE()
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def contains(c, item, ci):
    if isinstance(c, SPS):
        names = [s.name for s in c]
    elif isinstance(c, SP):
        names = list(c.files)
    else:
        raise TE()
    if isinstance(item, SP):
        item = item.name
    if not isinstance(item, str):
        raise TE()
    if ci:
        return item.lower() in [n.lower() for n in names]
    return item in names


def index(c, i):
    if isinstance(c, SP):
        c = c.name
    if not isinstance(c, (str, SPS)) or not isinstance(i, int):
        raise TE()
    if not -len(c) <= i < len(c):
        raise IE(int(i))
    return c[int(i)]


def slc(c, a, b, s):
    if not isinstance(c, str):
        raise TE()
    for x in (a, b, s):
        if x is not None and not isinstance(x, int):
            raise TE()
    return c[a:b:s]


def f_str(v):
    return str(v)


def f_int(v):
    if v is VOID or isinstance(v, (SP, SPS)):
        return 0
    return int(v)


def f_float(v):
    if v is VOID or isinstance(v, (SP, SPS)):
        return 0.0
    return float(v)


def f_len(v):
    return len(v) if isinstance(v, str) else 0


def f_starts(v, *ps):
    return isinstance(v, str) and any(isinstance(p, str) and v[:len(p)] == p for p in ps)


def f_ends(v, *ps):
    return isinstance(v, str) and any(
        isinstance(p, str) and len(p) <= len(v) and v[len(v) - len(p):] == p for p in ps)


def f_lower(v):
    return v.lower() if isinstance(v, str) else v


def _range(v, sub, a, b):
    n = len(v)
    a = max(a + n, 0) if a < 0 else a
    b = n if b == -1 else max(b + n, 0) if b < 0 else min(b, n)
    return [i for i in range(a, b - len(sub) + 1) if v[i:i + len(sub)] == sub]


def f_find(v, sub, a=0, b=-1):
    if not (isinstance(v, str) and isinstance(sub, str) and isinstance(a, int) and isinstance(b, int)):
        return -1
    r = _range(v, sub, int(a), int(b))
    return r[0] if r else -1


def f_rfind(v, sub, a=0, b=-1):
    if not (isinstance(v, str) and isinstance(sub, str) and isinstance(a, int) and isinstance(b, int)):
        return -1
    r = _range(v, sub, int(a), int(b))
    return r[-1] if r else -1


BASIC = {  # name -> (function, least, most)
    "str": (f_str, 1, 1), "int": (f_int, 1, 1), "float": (f_float, 1, 1), "len": (f_len, 1, 1),
    "startswith": (f_starts, 1, None), "endswith": (f_ends, 1, None), "lower": (f_lower, 1, 1),
    "find": (f_find, 2, 4), "rfind": (f_rfind, 2, 4),
}
MANAGER = {  # name -> (method, types, variadic)
    "CompareGameVersion": ("compareGameVersion", [str], False),
    "CompareSEVersion": ("compareSEVersion", [str], False),
    "CompareGEVersion": ("compareGEVersion", [str], False),
    "CompareWBVersion": ("compareWBVersion", [str], False),
    "GetPluginLoadOrder": ("getPluginLoadOrder", [str, (int,)], False),
    "GetPluginStatus": ("getPluginStatus", [str], False),
    "GetEspmStatus": ("getPluginStatus", [str], False),
    "GetFilename": ("getFilename", [str], False),
    "GetFolder": ("getFolder", [str], False),
    "DataFileExists": ("dataFileExists", [str], True),
}
KEYWORDS = {  # name -> (action, least, most)
    "DeSelectAll": ("DeSelectAll", 0, 0),
    "DeSelectAllPlugins": ("DeSelectAllPlugins", 0, 0),
    "DeSelectAllEspms": ("DeSelectAllPlugins", 0, 0),
    "DeSelectPlugin": ("DeSelectPlugin", 1, 1), "DeSelectEspm": ("DeSelectPlugin", 1, 1),
    "DeSelectSubPackage": ("DeSelectSubPackage", 1, 1),
    "Note": ("Note", 1, 1),
    "RenamePlugin": ("RenamePlugin", 2, 2), "RenameEspm": ("RenamePlugin", 2, 2),
    "RequireVersions": ("RequireVersions", 1, 4),
    "ResetPluginName": ("ResetPluginName", 1, 1), "ResetEspmName": ("ResetPluginName", 1, 1),
    "ResetAllPluginNames": ("ResetAllPluginNames", 0, 0),
    "ResetAllEspmNames": ("ResetAllPluginNames", 0, 0),
    "SelectAll": ("SelectAll", 0, 0),
    "SelectAllPlugins": ("SelectAllPlugins", 0, 0), "SelectAllEspms": ("SelectAllPlugins", 0, 0),
    "SelectPlugin": ("SelectPlugin", 1, 1), "SelectEspm": ("SelectPlugin", 1, 1),
    "SelectSubPackage": ("SelectSubPackage", 1, 1),
}


def manager_result(method, args):
    """what the manager of both interpreters answers"""
    h = sum(ord(c) for a in args for c in str(a)) + len(method)
    if method.startswith("compare"):
        return h % 3 - 1
    if method == "dataFileExists":
        return all(len(a) % 2 == 0 for a in args)
    if method == "getPluginLoadOrder":
        return args[1] if len(args) > 1 and h % 2 else h % 7
    if method == "getPluginStatus":
        return h % 4 - 1
    return f"<{method}:{args[0]}>"


class State:
    def __init__(self):
        self.vars = {}
        self.subs, self.plugins = [], []
        self.renames = {}
        self.disabled, self.modified, self.notes = [], [], []

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.subs, s.plugins = list(self.subs), list(self.plugins)
        s.renames = dict(self.renames)
        s.disabled, s.modified, s.notes = list(self.disabled), list(self.modified), list(self.notes)
        return s

    def snap(self):
        return {
            "variables": {k: show(v) for k, v in self.vars.items()},
            "subpackages": sorted(self.subs, key=fold),
            "plugins": sorted(self.plugins, key=fold),
            "renames": {k: show(v) for k, v in self.renames.items()},
            "disabled": [tuple(map(show, x)) for x in self.disabled],
            "modified": [tuple(map(show, x)) for x in self.modified],
            "notes": list(map(show, self.notes)),
        }


def show(v):
    if isinstance(v, SP):
        return ("SubPackage", v.name)
    if isinstance(v, SPS):
        return ("SubPackage[]", tuple(s.name for s in v))
    if isinstance(v, float):
        return ("float", repr(v))
    if v is VOID:
        return ("void",)
    if isinstance(v, bool):
        return ("bool", v)
    if v is None:
        return None
    if isinstance(v, int):
        return ("integer", v)
    return ("string", v)


class Ref:
    """runs a tree.  chooser(kind, description, options, default(s)) answers menus"""

    def __init__(self, packages, severity, chooser, limit=3000):
        self.packages = SPS(packages)
        self.severity = severity
        self.chooser = chooser
        self.events = []
        self.steps = 0
        self.limit = limit
        self.st = State()
        self.before = self.st.copy()
        pl = {}
        for p in self.packages:
            for x in p.plugins():
                pl.setdefault(fold(x), x)
        self.all_plugins = pl

    def run(self, block):
        """-> (status, detail, state)"""
        try:
            self.block(block)
        except End as e:
            return e.kind, e.msg, self.st
        except Err as e:
            return "error", (e.kind, e.pos, e.detail), self.before
        except (Brk, Cont):
            raise AssertionError
        except (ValueError, ZeroDivisionError, OverflowError, AttributeError, KeyError) as e:
            return "error", ("raw " + type(e).__name__, None, None), self.before
        return "complete", None, self.st

    def issue(self, name, err, hint):
        s = self.severity.get(name, self.severity.get(None, "warning"))
        if s == "error":
            raise err
        if s == "warning":
            self.events.append(("warning", hint))

    def step(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Limit()
        self.before = self.st.copy()

    # statements ----------------------------------------------------------
    def block(self, b):
        for s in b:
            self.step()
            getattr(self, "s_" + s.k)(s)

    def s_assign(self, s):
        self.st.vars[s.a[0]] = self.ev(s.a[1])

    def s_compound(self, s):
        n, op, e = s.a
        v = self.ev(e)
        if n not in self.st.vars:
            raise Err("name", s.pos, n)
        try:
            self.st.vars[n] = arith(op, self.st.vars[n], v)
        except TE:
            raise Err("type", s.pos)

    def s_expr(self, s):
        self.ev(s.a[0])

    def s_if(self, s):
        for c, b in s.a[0]:
            if truth(self.ev(c)):
                return self.block(b)
        if s.a[1] is not None:
            self.block(s.a[1])

    def s_while(self, s):
        while truth(self.ev(s.a[0])):
            self.step()
            try:
                self.block(s.a[1])
            except Brk:
                return
            except Cont:
                pass
            self.step()

    def s_range(self, s):
        n, a, b, c, body = s.a
        x = self.typed(a, int)
        y = self.typed(b, int)
        z = self.typed(c, int) if c is not None else 1
        if z == 0:
            raise ValueError
        vals = []
        i = int(x)
        while (z > 0 and i <= y) or (z < 0 and i >= y):
            vals.append(i)
            i += z
        self.loop(n, vals, body)

    def s_in(self, s):
        n, e, body = s.a
        v = self.ev(e)
        if isinstance(v, SP):
            vals = list(v.files)
        elif isinstance(v, (SPS, str)):
            vals = list(v)
        else:
            raise Err("type", s.hpos)
        self.loop(n, vals, body)

    def loop(self, n, vals, body):
        for v in vals:
            self.step()
            self.st.vars[n] = v
            try:
                self.block(body)
            except Brk:
                return
            except Cont:
                pass

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_badbreak(self, s):
        raise Err("parse", s.pos)

    s_badcontinue = s_badbreak

    def s_broken(self, s):
        raise Err("parse", None)

    def s_return(self, s):
        raise End("return")

    def s_cancel(self, s):
        m = None
        if s.a[0] is not None:
            m = self.typed(s.a[0], str)
        raise End("cancel", m)

    def s_exec(self, s):
        args, inner = s.a
        if len(args) != 1:
            raise Err("type", s.pos)
        self.typed(args[0], str)
        if inner is None:
            raise Err("parse", s.pos)
        self.block(inner)

    def s_select(self, s):
        many, desc, opts, cases, default = s.a
        d = self.typed(desc, str)
        os, defs = [], []
        for n, de, im in opts:
            n, de, im = self.typed(n, str), self.typed(de, str), self.typed(im, str)
            isdef = n[:1] == "|"
            if isdef:
                n = n[1:]
            os.append((n, de, im if im.strip() else None))
            if isdef:
                defs.append(os[-1])
        if not many and not defs:
            defs = [os[0]]
        if not many and len(defs) != 1:
            self.issue("MULTIPLE_DEFAULTS_IN_SELECT_ON", Err("type", s.mpos), "default")
            defs = defs[:1]
        self.events.append(("many" if many else "one", d, tuple(os),
                            tuple(defs) if many else defs[0]))
        names = self.chooser(self, os, defs, many)
        self.step()
        found = through = False
        for label, body in cases:
            self.step()
            if found and not many and not through:
                return
            t = self.typed(label, str)
            if through or t in names:
                found = through = True
                try:
                    self.block(body)
                except Brk:
                    through = False
        if default is not None and (through or not found):
            self.step()
            try:
                self.block(default)
            except Brk:
                pass

    def s_keyword(self, s):
        kw, args = s.a
        act, lo, hi = KEYWORDS[kw]
        # the arguments of RequireVersions are evaluated before the step
        vs = [self.ev(a) for a in args]
        if not lo <= len(vs) <= hi:
            raise Err("type", s.pos)
        vs += [None] * (hi - len(vs))
        getattr(self, "k_" + act)(s, *vs)

    def k_DeSelectAll(self, s):
        self.st.subs, self.st.plugins = [], []

    def k_DeSelectAllPlugins(self, s):
        self.st.plugins = []

    def k_DeSelectPlugin(self, s, n):
        self.st.plugins = [p for p in self.st.plugins if fold(p) != fold(n)]

    def k_DeSelectSubPackage(self, s, n):
        self.st.subs = [p for p in self.st.subs if fold(p) != fold(n)]

    def k_Note(self, s, v):
        if not isinstance(v, str):
            self.issue("USAGE_OF_ANYTHING_IN_NOTE", Err("type", s.pos), "Note")
        self.st.notes.append(str(v))

    def k_RenamePlugin(self, s, a, b):
        self.st.renames[fold(a)] = b

    def k_RequireVersions(self, s, *vs):
        self.events.append(("requires", vs[0]) + tuple(v or None for v in vs[1:]))

    def k_ResetPluginName(self, s, n):
        self.st.renames.pop(fold(n), None)

    def k_ResetAllPluginNames(self, s):
        self.st.renames = {}

    def k_SelectAll(self, s):
        self.st.subs = [p.name for p in self.packages]
        self.k_SelectAllPlugins(s)

    def k_SelectAllPlugins(self, s):
        r = {}
        for p in self.packages:
            if p.name in self.st.subs:
                for x in p.plugins():
                    r.setdefault(fold(x), x)
        self.st.plugins = list(r.values())

    def k_SelectPlugin(self, s, n):
        if fold(n) not in self.all_plugins:
            return self.issue("SELECT_MISSING_PLUGIN", Err("plugin", s.pos, n), n)
        self.add_plugin(self.all_plugins[fold(n)])

    def add_plugin(self, p):
        if fold(p) not in [fold(x) for x in self.st.plugins]:
            self.st.plugins.append(p)

    def k_SelectSubPackage(self, s, n):
        for p in self.packages:
            if fold(p.name) == fold(n):
                if p.name not in self.st.subs:
                    self.st.subs.append(p.name)
                for x in p.plugins():
                    self.add_plugin(x)
                return
        self.issue("SELECT_MISSING_SUBPACKAGE", Err("package", s.pos, n), n)

    # expressions ---------------------------------------------------------
    def typed(self, e, t):
        v = self.ev(e)
        if not isinstance(v, t):
            raise Err("type", e.pos)
        return v

    def ev(self, e):
        self.steps += 1
        if self.steps > 20 * self.limit:
            raise Limit()
        try:
            return getattr(self, "e_" + e.k)(e, *e.a)
        except TE:
            raise Err("type", e.pos)
        except IE as x:
            raise Err("index", e.pos, x.args[0])

    def e_lit(self, e, v):
        if v == "SubPackages" and e.sp:
            return self.packages
        return v

    def e_var(self, e, n):
        if n not in self.st.vars:
            self.issue("USAGE_OF_NOTSET_VARIABLES", Err("name", e.pos, n), n)
            return 0
        return self.st.vars[n]

    def e_paren(self, e, x):
        return self.ev(x)

    def e_bin(self, e, op, a, b):
        x = self.ev(a)
        y = self.ev(b)
        return arith(op, x, y)

    def e_and(self, e, w, a, b):
        x = truth(self.ev(a))
        y = truth(self.ev(b))
        return x and y

    def e_or(self, e, w, a, b):
        x = truth(self.ev(a))
        y = truth(self.ev(b))
        return x or y

    def e_not(self, e, w, a):
        return not truth(self.ev(a))

    def e_neg(self, e, a):
        x = self.ev(a)
        if not isnum(x) or isinstance(x, bool):
            raise TE()
        return -x

    def e_cmp(self, e, op, ci, a, b):
        x = self.ev(a)
        y = self.ev(b)
        if ci:
            if not (isinstance(x, str) and isinstance(y, str)):
                raise TE()
            x, y = x.lower(), y.lower()
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return not eq(x, y)
        return order(op, x, y)

    def e_in(self, e, ci, a, b):
        c = self.ev(b)
        x = self.ev(a)
        return contains(c, x, ci)

    def e_index(self, e, a, b):
        x = self.ev(a)
        return index(x, self.ev(b))

    def e_slice(self, e, c, a, b, s):
        x = self.ev(c)
        v = [None if q is None else self.ev(q) for q in (a, b, s)]
        return slc(x, *v)

    def e_inc(self, e, n, d, pre):
        if n not in self.st.vars:
            raise Err("name", e.pos, n)
        v = self.st.vars[n]
        if not isnum(v):
            raise TE()
        self.st.vars[n] = v + d
        return v + d

    def e_call(self, e, n, args):
        if n in ("Exec", "EndExec"):
            raise Err("name", e.pos, None)
        if n in BASIC:
            vs = [self.ev(a) for a in args]
            return self.basic(n, vs)
        if n in MANAGER:
            vs = [self.ev(a) for a in args]
            return self.manager(n, vs)
        if n in ("probe", "sink"):
            vs = [self.ev(a) for a in args]
            self.events.append((n,) + tuple(show(v) for v in vs))
            self.hook()
            return vs[0] if n == "probe" and vs else VOID
        if n == "EditINI":
            vs = [self.ev(a) for a in args]
            if not 4 <= len(vs) <= 5:
                raise TE()
            self.st.modified.append(tuple(vs) if len(vs) == 5 else tuple(vs) + ("",))
            return VOID
        if n == "DisableINILine":
            vs = [self.ev(a) for a in args]
            if len(vs) != 3:
                raise TE()
            self.st.disabled.append(tuple(vs))
            return VOID
        raise Err("name", e.pos, n)

    def hook(self):
        pass

    def basic(self, n, vs):
        f, lo, hi = BASIC[n]
        if len(vs) < lo or hi is not None and len(vs) > hi:
            raise TE()
        return f(*vs)

    def manager(self, n, vs):
        m, ts, var = MANAGER[n]
        least = sum(not isinstance(t, tuple) for t in ts)
        if len(vs) < least or len(vs) > len(ts) and not var:
            raise TE()
        for i, v in enumerate(vs):
            t = ts[min(i, len(ts) - 1)]
            if not isinstance(v, t):
                raise TE()
        self.events.append((m,) + tuple(vs))
        return manager_result(m, vs)

    def e_method(self, e, r, n, args):
        v = self.ev(r)
        t = tname(v)
        if not (t == "string" and n in BASIC or t in ("integer", "float", "bool") and n == "str"):
            raise Err("name", e.pos, f"{t}.{n}")
        vs = [v] + [self.ev(a) for a in args]
        return self.basic(n, vs)


# ---------------------------------------------------------------------------
# printing

class Writer:
    def __init__(self):
        self.out = []
        self.line, self.col = 1, 0
        self.ind = 0
        self.loose = random.Random(1)

    def w(self, s):
        self.out.append(s)
        for c in s:
            if c == "\n":
                self.line += 1
                self.col = 0
            else:
                self.col += 1

    def at(self, n):
        n.pos = (self.line, self.col)

    def nl(self):
        self.w("\n" + "  " * self.ind)

    def text(self):
        return "".join(self.out)


ESC = {"\n": "\\n", "\t": "\\t", "\\": "\\\\", "\r": "\\r"}


def quote(s, q='"', raw=False):
    r = []
    for c in s:
        if raw and c == "\t":
            r.append(c)
        elif c == q:
            r.append("\\x%02x" % ord(c))
        elif c in ESC:
            r.append(ESC[c])
        else:
            r.append(c)
    return q + "".join(r) + q


# how strongly the grammar binds the operators (all of them group to the left)
LEVEL = {"^": 10, "*": 9, "/": 9, "%": 9, "+": 8, "-": 8, ">": 7, ">=": 7, "<": 6, "<=": 6,
         "==": 5, "!=": 5, "or": 4, "|": 4, "||": 4, "and": 3, "&": 3, "&&": 3}


def level(e):
    if e.k == "in":
        return 2
    return LEVEL.get(e.a[0]) if e.k in ("bin", "cmp", "and", "or") else None


def operand(w, e, top, side):
    """print an operand of an operator of that level, at times without the brackets
    that it does not need"""
    mine = level(e)
    if mine is not None and (mine > top or mine == top and side == 0) and w.loose.random() < 0.5:
        pe(w, e)
    elif e.k in ("neg", "not") and side == 0 and w.loose.random() < 0.5:
        pe(w, e)
    else:
        pe(w, e, True)


ATOM = {"lit", "var", "paren", "call", "method", "index", "slice"}


def pe(w, e, tight=False):
    """print an expression; tight: as an operand"""
    if tight and not (e.k in ATOM and not (e.k == "lit" and isnum(e.a[0]) and not isinstance(e.a[0], bool) and (e.a[0] < 0))):
        w.w("(")
        pe(w, e)
        w.w(")")
        return
    w.at(e)
    k, a = e.k, e.a
    if k == "lit":
        v = a[0]
        if e.sp:
            w.w("SubPackages")
        elif isinstance(v, str):
            w.w(quote(v, getattr(e, "q", '"'), getattr(e, "raw", False)))
        else:
            w.w(getattr(e, "src", None) or repr(v))
    elif k == "var":
        w.w(a[0])
    elif k == "paren":
        w.w("(")
        pe(w, a[0])
        w.w(")")
    elif k == "bin":
        op = {"^": "^"}.get(a[0], a[0])
        operand(w, a[1], level(e), 0)
        w.w(f" {op} ")
        operand(w, a[2], level(e), 1)
    elif k in ("and", "or"):
        operand(w, a[1], level(e), 0)
        w.w(f" {a[0]} ")
        operand(w, a[2], level(e), 1)
    elif k == "not":
        w.w(a[0] if a[0] == "!" else "not ")
        pu(w, a[1])
    elif k == "neg":
        w.w("-")
        pu(w, a[0])
    elif k == "cmp":
        operand(w, a[2], level(e), 0)
        w.w(f" {a[0]}{':' if a[1] else ''} ")
        operand(w, a[3], level(e), 1)
    elif k == "in":
        operand(w, a[1], 2, 0)
        w.w(" in ")
        operand(w, a[2], 2, 1)
        if a[0]:
            w.w(":")
    elif k == "index":
        pe(w, a[0], True)
        w.w("[")
        pe(w, a[1])
        w.w("]")
    elif k == "slice":
        pe(w, a[0], True)
        w.w("[")
        if a[1] is not None:
            pe(w, a[1], a[1].k == "in")
        w.w(":")
        if a[2] is not None:
            pe(w, a[2], a[2].k == "in")
        if a[3] is not None or getattr(e, "colon2", False):
            w.w(":")
            if a[3] is not None:
                pe(w, a[3])
        w.w("]")
    elif k == "inc":
        op = "++" if a[1] > 0 else "--"
        w.w(op + a[0] if a[2] else a[0] + op)
    elif k == "call":
        w.w(a[0] + "(")
        pl(w, a[1])
        w.w(")")
    elif k == "method":
        pe(w, a[0], True)
        w.w("." + a[1] + "(")
        pl(w, a[2])
        w.w(")")
    else:
        raise AssertionError(k)


def pu(w, e):
    """print the operand of a prefix operator"""
    if e.k in ("index", "slice", "method"):
        w.w("(")
        pe(w, e)
        w.w(")")
    else:
        pe(w, e, True)


def pl(w, es):
    for i, x in enumerate(es):
        if i:
            w.w(", ")
        pe(w, x)


def pb(w, b):
    w.ind += 1
    for s in b:
        w.nl()
        ps(w, s)
    w.ind -= 1


def ps(w, s):
    w.at(s)
    k, a = s.k, s.a
    if k == "assign":
        w.w(a[0] + " = ")
        pe(w, a[1])
    elif k == "compound":
        w.w(f"{a[0]} {a[1]}= ")
        pe(w, a[2])
    elif k == "expr":
        # what it begins with decides whether it continues the line before
        loose, w.loose = w.loose, random.Random()
        w.loose.random = lambda: 1.0
        pe(w, a[0])
        w.loose = loose
    elif k == "if":
        for i, (c, b) in enumerate(a[0]):
            if i:
                w.nl()
            w.w("Elif " if i else "If ")
            pe(w, c)
            pb(w, b)
        if a[1] is not None:
            w.nl()
            w.w("Else")
            pb(w, a[1])
        w.nl()
        w.w("EndIf")
    elif k == "while":
        w.w("While ")
        pe(w, a[0])
        pb(w, a[1])
        w.nl()
        w.w("EndWhile")
    elif k == "range":
        w.w(f"For {a[0]} from ")
        pe(w, a[1])
        w.w(" to ")
        pe(w, a[2])
        if a[3] is not None:
            w.w(" by ")
            pe(w, a[3])
        pb(w, a[4])
        w.nl()
        w.w("EndFor")
    elif k == "in":
        w.w(f"For {a[0]} ")
        s.hpos = (w.line, w.col)
        w.w("in ")
        pe(w, a[1])
        pb(w, a[2])
        w.nl()
        w.w("EndFor")
    elif k in ("break", "badbreak"):
        w.w("Break")
    elif k in ("continue", "badcontinue"):
        w.w("Continue")
    elif k == "return":
        w.w("Return")
    elif k == "cancel":
        w.w("Cancel")
        if a[0] is not None:
            w.w(" ")
            pe(w, a[0])
    elif k == "exec":
        w.w("Exec(")
        pl(w, a[0])
        w.w(")")
    elif k == "broken":
        w.w(a[0])
    elif k == "select":
        many, desc, opts, cases, default = a
        s.mpos = (w.line, w.col)
        w.w("SelectMany " if many else "SelectOne ")
        pe(w, desc)
        for o in opts:
            w.w(", \\")
            w.nl()
            w.w("    ")
            pl(w, o)
        for label, body in cases:
            w.nl()
            w.w("Case ")
            pe(w, label)
            pb(w, body)
        if default is not None:
            w.nl()
            w.w("Default")
            pb(w, default)
        w.nl()
        w.w("EndSelect")
    elif k == "keyword":
        w.w(a[0])
        if a[1]:
            w.w(" ")
            pl(w, a[1])
    else:
        raise AssertionError(k)


def to_text(block):
    w = Writer()
    for s in block:
        ps(w, s)
        w.nl()
    return w.text()
