"""Large cases: thresholds the ordinary generated scripts do not reach (bounded)."""
import random

from bounded import gen as G
from bounded import real
from bounded import ref as R
from bounded import suites as S
from bounded.ref import N
from bounded.suites2 import call, lit

LONG = 25000  # steps of the reference


def size(rr, most):
    """mostly moderate, sometimes up to the limit; near round numbers too"""
    q = rr.random()
    if q < 0.3:
        return min(most, max(1, rr.choice([16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000]) + rr.randrange(-1, 2)))
    return max(1, round(most ** rr.uniform(0.3, 1)))


def tick(x=None):
    return call("sink", *([x] if x is not None else []), N("var", "k"))


def sometimes(rr, v, m, b):
    return N("if", [(N("cmp", "==", False, N("bin", "%", N("var", v), lit(m)), lit(rr.randrange(m))), b)], None)


def b_range(rr):
    n = size(rr, 2500)
    by = rr.choice([None, 1, 2, 3, -1, -2, 7])
    st = 1 if by is None else by
    a = rr.randrange(-20, 20)
    body = [N("compound", "k", "+", N("var", "i"))]
    if rr.random() < 0.5:
        body.append(sometimes(rr, "i", 97, [call("sink", N("var", "i"))]))
    if rr.random() < 0.3:
        body.insert(0, sometimes(rr, "i", 5, [N("continue")]))
    return [N("range", "i", lit(a), lit(a + st * (n - 1)), None if by is None else lit(by), body)]


def b_while(rr):
    n = size(rr, 2000)
    body = [N("expr", N("inc", "i", 1, False))]
    if rr.random() < 0.4:
        body.append(sometimes(rr, "i", rr.choice([2, 3, 50]), [N("continue")]))
    if rr.random() < 0.3:
        body.append(N("if", [(N("cmp", ">", False, N("var", "i"), lit(n - 2)), [N("break")])], None))
    body.append(N("compound", "k", "+", N("var", "i")))
    return [N("while", N("cmp", "<", False, N("var", "i"), lit(n)), body)]


def b_in(rr):
    n = size(rr, 1500)
    q = rr.random()
    if q < 0.4:
        e = N("lit", "".join(rr.choice("abcß é") for _ in range(n)), sp=False)
    else:
        e = N("index", N("lit", "SubPackages", sp=True), lit(0)) if q < 0.8 else N("lit", "SubPackages", sp=True)
    return [N("in", "f", e, [N("expr", N("inc", "k", 1, False)),
                             sometimes(rr, "k", rr.choice([1, 7, 50]), [call("sink", N("var", "f"))])])]


def b_nest(rr):
    d = rr.randrange(3, 14)
    jumps = ["break", "continue"]
    b = [N(rr.choice(jumps)), tick()]
    for j in range(d):
        q = rr.random()
        inc = N("expr", N("inc", "k", 1, False))
        if q < 0.4:
            b = [N("if", [(lit(rr.random() < 0.85), b)], [tick()])]
        elif q < 0.6:
            b = [N("range", f"i{j}", lit(0), lit(rr.choice([0, 1, 1, 2]) if j < 6 else 0), None, [inc] + b + [tick()])]
        elif q < 0.7:
            b = [N("assign", f"w{j}", lit(0)),
                 N("while", N("cmp", "<", False, N("inc", f"w{j}", 1, False), lit(2 if j < 6 else 1)), [inc] + b + [tick()])]
        elif q < 0.8:
            b = [N("in", f"f{j}", lit("ab" if j < 6 else "a"), [inc] + b + [tick()])]
        elif q < 0.9:
            b = [N("select", rr.random() < 0.5, lit("q"), [[lit("|A"), lit(""), lit("")], [lit("B"), lit(""), lit("")]],
                   [(lit("A"), b + [tick()]), (lit("B"), [tick()] + ([N("break")] if rr.random() < 0.5 else []))], None)]
        else:
            b = b + [tick()]
    return [N("range", "i", lit(1), lit(2), None, b + [tick()])]


def b_if(rr):
    n = size(rr, 60)
    x = rr.randrange(n + 1)
    arms = [(N("cmp", "==", False, N("bin", "+", N("var", "j"), N("paren", N("inc", "k", 1, False))) if rr.random() < 0.2
               else N("var", "j"), lit(t)), [call("sink", lit(t))]) for t in range(n)]
    return [N("assign", "j", lit(x)), N("if", arms, [tick()] if rr.random() < 0.7 else None)]


def b_body(rr):
    n = size(rr, 250)
    out = []
    for t in range(n):
        q = rr.random()
        if q < 0.4:
            out.append(N("assign", f"v{rr.randrange(n)}", rr.choice([lit(t), N("var", "k"), lit(str(t))])))
        elif q < 0.6:
            out.append(N("compound", "k", "+", lit(t)))
        elif q < 0.8:
            out.append(N("expr", N("inc", "k", 1, False)))
        else:
            out.append(call("sink", lit(t)))
    return out


def b_menu(rr):
    n = size(rr, 70)
    many = rr.random() < 0.5
    names = [f"o{j}" for j in range(n)]
    if rr.random() < 0.3:
        names = [rr.choice(names) for _ in names]
    marks = set(rr.sample(range(n), rr.choice([1, min(n, 2), n]))) if many else {rr.randrange(n)} if rr.random() < 0.8 else set()
    opts = [[lit("|" * (j in marks) + x), lit(f"d{j}"), lit(rr.choice(["", f"i{j}.png"]))] for j, x in enumerate(names)]
    labels = list(names) + ["other"]
    rr.shuffle(labels)
    cases = [(lit(x), [call("sink", lit(x))] + ([N("break")] if rr.random() < 0.85 else [])) for x in labels]
    return [N("select", many, lit("what"), opts, cases, [tick()] if rr.random() < 0.5 else None)]


def b_exec(rr):
    b = [tick(), N("assign", "deep", N("var", "k"))] + ([N("break")] if rr.random() < 0.3 else [])
    if rr.random() < 0.3:
        return [N("range", "i", lit(0), lit(1), None, [N("exec", None, b_body(rr)[:120] + b)])]
    for j in range(rr.randrange(2, 7)):
        b = [N("exec", None, b)]
        if rr.random() < 0.6:
            b.append(tick())
        if rr.random() < 0.3:
            b = [N("range", f"i{j}", lit(0), lit(1), None, b)]
    return [N("range", "i", lit(0), lit(0), None, b)]


def b_expr(rr):
    n = size(rr, 60)
    q = rr.random()
    op = rr.choice(["+", "-", "*", "and", "or"])
    if q < 0.4:
        e = N("var", "k")
        for j in range(n):
            e = N("paren", e) if rr.random() < 0.2 else N("neg", N("paren", e)) if op in "+-*" and rr.random() < 0.1 else e
            y = rr.choice([N("inc", "k", 1, False), lit(j), N("call", "probe", [lit(j)])])
            e = N(op, rr.choice([op, {"and": "&", "or": "|"}[op]]), e, y) if op in ("and", "or") else N("bin", op, e, y)
    elif q < 0.7:
        e = lit("x")
        for j in range(n):
            e = N("bin", "+", e, lit(str(j)))
        e = N("slice", N("paren", e), lit(rr.randrange(-n, n)), None, lit(rr.choice([1, 2, 3])), colon2=False)
    else:
        e = N("call", "DataFileExists", [rr.choice([lit(f"f{j}"), N("call", "probe", [lit(f"g{j}")])]) for j in range(n)])
    return [N("assign", "r", e), call("sink", N("var", "r"))]


def b_keywords(rr):
    out = []
    n = size(rr, 120)
    for _ in range(n):
        p = f"P{rr.randrange(n)}.esp"
        p = rr.choice([p, p, p.lower()])
        kw = rr.choice(["SelectPlugin", "SelectPlugin", "SelectSubPackage", "DeSelectPlugin", "RenamePlugin", "Note",
                        "ResetPluginName", "DeSelectSubPackage", "EditINI", "EditINI", "DisableINILine"])
        if rr.random() < 0.02:
            kw = rr.choice(["SelectAll", "SelectAllPlugins", "DeSelectAllPlugins", "ResetAllPluginNames"])
        if kw in ("EditINI", "DisableINILine"):
            a = [lit(rr.choice(["a.ini", "B.INI"])), lit("s"), lit(f"k{rr.randrange(n)}")]
            out.append(call(kw, *a, *([lit(rr.randrange(9))] if kw[0] == "E" else [])))
            continue
        if "Package" in kw:
            a = [lit(f"Pkg{rr.randrange(12)}")]
        elif kw == "Note":
            a = [lit(f"note {rr.randrange(9)}")]
        elif kw == "RenamePlugin":
            a = [lit(p), lit("N" + p)]
        else:
            a = [lit(p)] if R.KEYWORDS[kw][1] else []
        out.append(N("keyword", kw, a))
        if not a:
            # an expression statement would be read as its argument
            out.append(N("assign", "y", lit(1)))
    return out


def pkgs(rr):
    if rr.random() < 0.5:
        return [("Main", [f"d/f{j}.txt" for j in range(size(rr, 1500))])]
    k = rr.randrange(1, 60)
    return [(f"Pkg{j}", [f"P{rr.randrange(90)}.esp" for _ in range(rr.randrange(0, 6))]) for j in range(k)]


KINDS = {"range": b_range, "while": b_while, "in": b_in, "nest": b_nest, "if": b_if, "body": b_body, "menu": b_menu,
         "exec": b_exec, "expr": b_expr, "keywords": b_keywords}


def big(box, seed, n, kinds=()):
    for i in range(n):
        if box.full:
            return
        s = seed * 97 + i
        rr = random.Random(s)
        kind = kinds[i % len(kinds)]
        b = [N("assign", "k", lit(0)), N("assign", "i", lit(0))] + KINDS[kind](rr) + [tick()]
        pk = pkgs(rr) if kind in ("in", "keywords") else []
        if kind == "keywords":
            pk = [(f"Pkg{j}", [f"P{rr.randrange(90)}.esp" for _ in range(rr.randrange(0, 30))]) for j in range(12)]
        sev = {"USAGE_OF_NOTSET_VARIABLES": "allow"} if rr.random() < 0.5 else {}
        if kind == "keywords":
            sev = {None: "allow"} if rr.random() < 0.7 else {}
        G.finish(b, random.Random(s))
        S.script_case(box, b, R.to_text(b), pk, sev, s, limit=LONG)
