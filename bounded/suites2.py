"""More suites: loops (C04), menus (C06), calls (C14), broken scripts (C23)."""
import random

from bounded import gen as G
from bounded import real
from bounded import ref as R
from bounded.ref import N
from bounded import suites as S


def lit(v):
    if isinstance(v, int) and not isinstance(v, bool) and v < 0:
        return N("neg", N("lit", -v, sp=False))
    return N("lit", v, sp=False)


def call(n, *a):
    return N("expr", N("call", n, list(a)))


def go(box, block, pkgs=(), sev=None, seed=0):
    G.finish(block, random.Random(seed))
    S.script_case(box, block, R.to_text(block), list(pkgs), sev or {}, seed)


# ---------------------------------------------------------------------------
# C04


def loop_body(rr, v, depth=0):
    """statements of a loop body; the loop variable v may be changed by it"""
    b = [call("sink", N("var", v), N("var", "k"))]
    k = rr.randrange(9)
    some = [N("cmp", rr.choice(["==", ">", "<"]), False, N("var", "k"), lit(rr.randrange(5)))]
    b.append(N("expr", N("inc", "k", 1, False)))
    if k == 0:
        b.append(N("assign", v, lit(rr.randrange(-3, 9))))
    elif k == 1:
        b.append(N("expr", N("inc", v, rr.choice([1, -1]), False)))
    elif k == 2:
        b.append(N("if", [(some[0], [N("continue")])], None))
    elif k == 3:
        b.append(N("if", [(some[0], [N("break")])], None))
    elif k == 4 and depth < 2:
        w = "v" + str(depth)
        b.append(loop(rr, rr.choice([v, w]), depth + 1))
    elif k == 5:
        b.append(N("assign", "top", lit(rr.randrange(-4, 6))))
    elif k == 6:
        b.append(N("compound", "top", rr.choice("+-"), lit(1)))
    b.append(call("sink", N("var", v)))
    return b


def bound(rr, x):
    q = rr.random()
    if q < 0.15:
        return N("call", "probe", [lit(x)])
    if q < 0.25:
        return N("bin", "+", lit(x - 1), lit(1))
    if q < 0.3 and x in (0, 1):
        return lit(bool(x))
    return lit(x)


def loop(rr, v, depth=0):
    q = rr.random()
    if q < 0.7:
        a = rr.randrange(-6, 10)
        by = rr.choice([None, None, 1, 2, 3, 5, 7, -1, -2, -3, -5])
        d = rr.randrange(-9, 10)
        if by is not None and rr.random() < 0.5:
            d = by * rr.randrange(0, 4) + rr.choice([0, 0, 1, -1])
        e = bound(rr, a + d)
        if rr.random() < 0.12:
            e = N("var", "top")
        if rr.random() < 0.05:
            e = N("bin", "+", N("var", v), lit(rr.randrange(3)))
        return N("range", v, bound(rr, a), e, None if by is None else bound(rr, by), loop_body(rr, v, depth))
    if q < 0.85:
        e = rr.choice([N("lit", rr.choice(["", "a", "aba", "éß", "10"]), sp=False), N("lit", "SubPackages", sp=True),
                       N("index", N("lit", "SubPackages", sp=True), lit(rr.randrange(3)))])
        return N("in", v, e, loop_body(rr, v, depth))
    c = N("cmp", "<", False, N("inc", "k", 1, rr.random() < 0.5), lit(rr.randrange(12)))
    if rr.random() < 0.3:
        c = N("and", "and", N("paren", c), N("cmp", "<", False, N("var", "k"), N("var", "top")))
    return N("while", c, loop_body(rr, v, depth))


def loops(box, seed, n):
    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 31 + i)
        b = [N("assign", "k", lit(0)), N("assign", "top", lit(rr.randrange(-3, 9)))]
        for v in ("i", "v0", "v1"):
            if rr.random() < 0.9:
                b.append(N("assign", v, lit(rr.choice([0, 3, -1]))))
        for _ in range(rr.randrange(1, 3)):
            b.append(loop(rr, "i"))
        b.append(call("sink", N("var", "i"), N("var", "k"), N("var", "top")))
        go(box, b, rr.choice(G.PKGS[:1] + G.PKGS[3:]), {}, seed + i)


# ---------------------------------------------------------------------------
# C06

NAMES = ["A", "A ", "a", "", "|", "||x", "Été", "two words", "B|C", " lead", "|Default", "Other", "x|", "Z" * 30]
IMAGES = ["", " ", "\t", "a.png", " b.png ", "dir/é.png", "\n", "  x"]
DESCS = ["", "some text", "a\nb", "é", "x" * 50]


def menus(box, seed, n):
    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 17 + i)
        many = rr.random() < 0.5

        def text(v):
            e = N("lit", v, sp=False)
            q = rr.random()
            if q < 0.1:
                return N("call", "probe", [e])
            if q < 0.2 and v:
                j = rr.randrange(len(v))
                return N("bin", "+", N("lit", v[:j], sp=False), N("lit", v[j:], sp=False))
            if q < 0.25:
                return N("var", "s")
            if q < 0.28:
                return N("call", "str", [N("inc", "k", 1, rr.random() < 0.5)])
            return e

        k = rr.choice([1, 1, 2, 2, 3, 4, 6, 9])
        marks = rr.choice([0, 0, 1, 1, 1, 2, k])
        marked = set(rr.sample(range(k), min(marks, k)))
        names = [rr.choice(NAMES) for _ in range(k)]
        opts = [[text("|" * (j in marked) + names[j]), text(rr.choice(DESCS)), text(rr.choice(IMAGES))]
                for j in range(k)]
        if rr.random() < 0.04:
            opts[rr.randrange(k)][rr.randrange(3)] = lit(rr.choice([1, 2.5, True]))
        def label(nm):
            nm = nm[1:] if nm[:1] == "|" and rr.random() < 0.5 else nm
            if rr.random() < 0.15:
                nm = rr.choice([nm.strip(), nm + " ", " " + nm, nm.swapcase(), nm[:-1], "|" + nm, nm.casefold()])
            return nm

        cases = [(N("lit", label(nm), sp=False),
                  [call("sink", lit(j))] + [N("break")] * (rr.random() < 0.7))
                 for j, nm in enumerate(names) if rr.random() < 0.8]
        default = [call("sink", lit("default"))] if rr.random() < 0.5 else None
        if not cases:
            cases = [(lit("nothing"), [])]
        b = [N("assign", "k", lit(1)), N("assign", "s", lit(rr.choice(["|s", "s", ""]))),
             N("select", many, text("what"), opts, cases, default),
             call("sink", N("var", "k"))]
        sev = {}
        if rr.random() < 0.5:
            sev["MULTIPLE_DEFAULTS_IN_SELECT_ON"] = rr.choice(["error", "warning", "allow"])
        if rr.random() < 0.3:
            sev[None] = rr.choice(["error", "warning", "allow"])
        go(box, b, [], sev, seed * 3 + i)


# ---------------------------------------------------------------------------
# C14


def calls(box, seed, n):
    fns = sorted(R.BASIC) + sorted(R.MANAGER) + ["EditINI", "DisableINILine", "probe", "unknown", "Len", "Exec2"]
    vals = ["text", "a", "", 0, 1, 2, -1, 3.5, True, False, "x.esp"]
    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 13 + i)
        b = [N("assign", "k", lit(1)), N("assign", "s", lit("abc"))]
        for _ in range(2):
            f = rr.choice(fns)
            kinds = rr.random()
            args = []
            for _ in range(rr.randrange(0, 6)):
                v = rr.choice([x for x in vals if isinstance(x, str)]) if kinds < 0.5 else rr.choice(vals)
                e = lit(v)
                q = rr.random()
                if q < 0.2:
                    e = N("call", "probe", [e])
                elif q < 0.3:
                    e = N("inc", "k", 1, rr.random() < 0.5)
                elif q < 0.35:
                    e = N("var", rr.choice(["s", "k", "unset"]))
                elif q < 0.38:
                    e = N("lit", "SubPackages", sp=True)
                args.append(e)
            if rr.random() < 0.35:
                recv = rr.choice([N("var", "s"), lit("abcab"), N("paren", lit(5)), N("paren", lit(2.5)),
                                  N("paren", lit(True)), N("var", "k"), N("call", "probe", [lit("q")])])
                e = N("method", recv, f, args)
            else:
                e = N("call", f, args)
            b.append(N("assign", "r", e) if rr.random() < 0.5 else call("sink", e))
        b.append(call("sink", N("var", "k")))
        go(box, b, G.PKGS[0], {}, seed * 5 + i)
    wrapped(box, seed, n // 4)


def wrapped(box, seed, n):
    """functions registered with every shape of signature, called with every number and
    kind of arguments"""
    import inspect
    from wizard import functions as F
    from wizard.state import WizardInterpreterState
    from wizard.value import Value, Void

    wrap, optional = getattr(F, "wrap_function", None), getattr(F, "optional", None)
    if wrap is None or optional is None or list(inspect.signature(wrap).parameters) != [
            "name", "method", "args", "varargs", "rawargs"]:
        return box.skip("wrap_function has another signature")
    rr = random.Random(seed)
    types = [int, str, bool, float, object]
    pool = [1, 0, "a", "", True, 2.5, Void()]
    ok = {int: 3, str: "s", bool: True, float: 1.5, object: "o"}
    for _ in range(n):
        if box.full:
            return
        req = [rr.choice(types) for _ in range(rr.randrange(0, 3))]
        opts = [rr.choice(types) for _ in range(rr.choice([0, 0, 1, 2]))]
        flat = req + opts
        var = bool(flat) and not opts and rr.random() < 0.4
        raw = rr.random() < 0.4
        result = rr.choice([7, "r", None, True, "", 0, False, 0.0])
        seen = []

        def fn(*a):
            seen.append(a)
            return result if not raw or result is None else Value(result)

        args = [rr.choice(pool) for _ in range(rr.randrange(0, len(flat) + 3))]
        if flat and rr.random() < 0.7:  # mostly good types
            args = [ok[flat[min(j, len(flat) - 1)]] for j in range(len(args))]
            if args and rr.random() < 0.3:
                args[rr.randrange(len(args))] = rr.choice(pool)
        accepted = len(args) >= len(req) and (var or len(args) <= len(flat))
        typed = accepted and all(isinstance(v, flat[min(j, len(flat) - 1)]) for j, v in enumerate(args))
        vs = [Value(a) for a in args]
        sig = [t.__name__ for t in req] + [t.__name__ + "?" for t in opts]
        box.case(repr((sig, var, raw, args)), accepted)
        try:
            w = wrap("name", fn, *req, *map(optional, opts), varargs=var, rawargs=raw)
            got = w(WizardInterpreterState(), vs)
            out = "value"
        except TypeError as ex:
            out, got = "type error", ex
        except Exception as ex:
            out, got = "other", ex
        what = None
        if out != ("value" if typed else "type error"):
            what = f"{out} {got!r}"
        elif not typed and seen:
            what = "the function was called"
        elif typed:
            if len(seen) != 1 or len(seen[0]) != len(args) or not all(
                    a is b if raw else type(a) is type(b) and a == b
                    for a, b in zip(seen[0], vs if raw else args)):
                what = f"the function was called with {seen!r}"
            elif result is not None and not (isinstance(got, Value) and type(got.value) is type(result)
                                             and got.value == result):
                what = f"the result is {got!r}"
            elif result is None and not raw and not isinstance(got.value, Void):
                what = f"the result is {got!r}"
        if what:
            return box.fail(f"a registered function: {what}", signature=repr(sig), varargs=var, rawargs=raw,
                            returns=repr(result), arguments=repr(args))


# ---------------------------------------------------------------------------
# C23


def tokens(text):
    from antlr4 import InputStream
    from wizard.antlr4.wizardLexer import wizardLexer

    lx = wizardLexer(InputStream(text))
    lx.removeErrorListeners()
    return [(t.start, t.stop + 1, t.type) for t in lx.getAllTokens() if t.channel == 0]


POOL = [")", "(", "]", "=", ",", "+", "== ==", "If", "EndIf", "Else", "Elif", "For", "While", "EndWhile", "EndFor",
        "Case", "Default", "EndSelect", "SelectOne", "Break", "Continue", "Return", "@", "'x", "in", "from", "to", "by",
        "Exec(", "x = )", "foo(", "x = 3 3)", "+= 4", ".", "[", ":", "and", "not"]


def mutate(rr, text):
    """-> (text, position of the first change)"""
    ts = tokens(text)
    k = rr.randrange(len(ts))
    a, b, _ = ts[k]
    q = rr.random()
    if rr.random() < 0.2:
        # an expression that is not finished
        ends = [j for j in range(1, len(ts)) if "\n" in text[ts[j - 1][1]:ts[j][0]]
                or text[ts[j][0]:ts[j][1]] in (",", ")", "to", "by", "\n")]
        heads = [j for j in ends if any(w in text[text.rfind("\n", 0, ts[j][0] - 1) + 1:ts[j][0]]
                                        for w in ("For ", "Exec", "Select", "Case", "Note", "Cancel"))]
        j = rr.choice(heads or ends or [1]) if rr.random() < 0.6 else rr.choice(ends or [1])
        p = ts[j - 1][1]
        return text[:p] + rr.choice(["[", "(", ".", " +", "[1:", "(1,", "++[", "++ ++", "--(", " - *", "[ ++", ".x["]) + text[p:], \
            ts[j - 1][0]
    if rr.random() < 0.15:
        # a structure that is not finished, on lines of its own
        a = text.rfind("\n", 0, a) + 1
        return text[:a] + rr.choice(["If\n", "While\n", "For\n", "For i in\n", "If (\n", "SelectOne\n", "Case\n",
                                     "x = )\n", "If x\nIf\nEndIf\n", "If x\n = \n", "Elif\n", "SelectMany 'd',\n",
                                     "While 1 1 1\n", "For i from 1 1\n"]) + text[a:], a
    if q < 0.35:
        return text[:a] + text[b:], a
    if q < 0.75:
        p = rr.choice(POOL)
        if rr.random() < 0.25:  # on a line of its own
            a = text.rfind("\n", 0, a) + 1
            return text[:a] + p + "\n" + text[a:], a
        return text[:a] + p + " " + text[a:], a
    if q < 0.9:
        return text[:a] + rr.choice(POOL) + text[b:], a
    c, d, _ = rr.choice(ts)
    if c < a:
        a, b, c, d = c, d, a, b
    return text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:], a


def marked(ctx):
    """the innermost broken part that contains the node"""
    while ctx is not None:
        if getattr(ctx, "exception", None):
            return ctx
        ctx = ctx.parentCtx
    return None


RAW_OK = {"raw ZeroDivisionError", "raw ValueError", "raw OverflowError", "raw NotImplementedError",
          "raw MemoryError", "raw RecursionError"}


def broken(box, seed, n):
    for i in range(n):
        if box.full:
            return
        s = seed + i
        rr = random.Random(s)
        _, text, pk, sev = G.make(s, size=4, depth=3, err=0.0,
                                  focus=dict(select=5, exec=1, bad=0, **{"if": 8, "while": 4, "range": 4}))
        bad, at = mutate(rr, text)
        for _ in range(rr.choice([0] * 14 + [1, 1, 1, 2, 5, 9])):
            bad, at2 = mutate(rr, bad)
            at = min(at, at2)
        try:
            with S.limit_cpu(40):
                broken_case(box, text, bad, at, pk, sev, s)
        except (RecursionError, MemoryError, R.Limit):
            box.skip("recursion limit")
        except real.TimeOut:
            box.skip("processor time")


def extent(c):
    """first and last character of what the step executes"""
    node = c.context
    if isinstance(c, S.WC.WizardBodyContext):
        kids = list(node.children or ())
        k = getattr(c, "_ichild", None)
        if not isinstance(k, int):
            return (-1, 10 ** 9)
        if k < len(kids):
            node = kids[k]
        else:
            return (node.stop.stop if node.stop else -1, 10 ** 9)
    if getattr(node, "start", None) is None:
        return (-1, 10 ** 9)
    last = node.stop.stop if node.stop is not None else 10 ** 9
    todo = [node]
    if isinstance(c, S.WC.WizardIfContext):
        # the step evaluates the conditions in turn, up to the last one
        todo = [node.elifStmt()[-1]] if node.elifStmt() else [node]
        if node.elifStmt():
            last = node.elifStmt()[-1].stop.stop if node.elifStmt()[-1].stop is not None else 10 ** 9
    while todo:
        x = todo.pop()
        if type(x).__name__ in ("BodyContext", "SelectCaseListContext") and x.start is not None:
            last = min(last, x.start.start - 1)
        todo.extend(getattr(x, "children", None) or ())
    return (node.start.start, last)


def steps(text, pk, sev, seed, most=400):
    """-> [(context class, start position, number of events before it, broken part, step's node)], end, events"""
    ch = S.chooser(seed)
    r = real.Runner(real.packages(pk), ch)
    real.configure(r, sev)
    out = []
    c = r.make_top_level_context(text)
    root = c.context
    end = None
    while len(out) < most:
        node = c.context
        out.append((type(c).__name__, extent(c), len(r.events), node))
        if isinstance(c, S.WizardTerminationContext):
            end = ("end", c.is_cancel(), c.is_return(), c.is_complete())
            break
        try:
            if isinstance(c, S.WC.WizardSelectOneContext):
                o = list(c.options)
                c = c.select(o[ch(r, [S.opt(x) for x in o], [S.opt(c.default)], False)[0]])
            elif isinstance(c, S.WC.WizardSelectManyContext):
                o = list(c.options)
                c = c.select([o[j] for j in ch(r, [S.opt(x) for x in o], [S.opt(x) for x in c.defaults], True)])
            c = c.exec()
        except (RecursionError, MemoryError, real.TimeOut):
            raise
        except Exception as ex:
            end = real.show_error(ex)
            break
    return out, end, r.events, root


def walk(root):
    todo = [root]
    while todo:
        x = todo.pop()
        yield x
        todo.extend(getattr(x, "children", None) or ())


def broken_case(box, text, bad, at, pk, sev, seed):
    try:
        out, end, ev, root = steps(bad, pk, sev, seed)
    except (RecursionError, MemoryError, real.TimeOut):
        raise
    except Exception as ex:
        from wizard.errors import WizardParseError
        if isinstance(ex, WizardParseError):
            return box.skip("not accepted")
        return box.fail(f"the script fails with {ex!r} before it is executed", script=bad, packages=pk)
    data = dict(script=bad, original=text, packages=pk, severity={str(a): b for a, b in sev.items()}, seed=seed)
    broken_nodes = [x for x in walk(root) if getattr(x, "exception", None)]
    box.case(bad, bool(broken_nodes))
    # no raw error, errors have a position
    if end and end[0] != "end":
        # (a keyword statement does not check the types of its arguments, see DESIGN.md)
        untyped = out and type(out[-1][3]).__name__ == "KeywordStmtContext"
        if end[0].startswith("raw") and end[0] not in RAW_OK and not untyped:
            return box.fail(f"a broken script fails with {end[0]}", **data)
        if end[0] == "parse" and (end[1] is None or end[1][0] is None):
            return box.fail("a parse error without position", **data)
    # a step of a broken part does nothing but raise (only the last step can be one)
    for k, (cls, st, n, node) in enumerate(out):
        m = getattr(node, "exception", None)
        if m and cls != "WizardTerminationContext" and not (
                k == len(out) - 1 and end and end[0] == "parse"):
            return box.fail(f"the broken {type(node).__name__} at {node.start.line}:{node.start.column} "
                            f"was executed ({cls})", **data)
    if out and getattr(out[-1][3], "exception", None) and out[-1][0] != "WizardTerminationContext":
        if len(ev) != out[-1][2]:
            return box.fail("a broken step had an effect", **data)
    # up to the first step behind the change, the script behaves as the original
    ref, _, rev, _ = steps(text, pk, sev, seed)
    for k in range(min(len(out), len(ref)) - 1):
        (c1, x1, n1, _), (c2, x2, n2, _) = out[k], ref[k]
        if (c1, x1) != (c2, x2) or x1[1] >= at:
            break
        if c1 == "WizardSelectCasesContext":
            continue
        e1, e2 = ev[n1:out[k + 1][2]], rev[n2:ref[k + 1][2]]
        if e1 != e2:
            return box.fail(f"the step {c1} at offset {x1}, before the broken part (offset {at}), has other effects: "
                            f"{e2!r} in the original, {e1!r} in the broken script", **data)


# ---------------------------------------------------------------------------
# recovery (C23): where parsing goes on behind a part that cannot be parsed


def closers(rec, P, L):
    """the tokens at which parsing resumes, by the structures around the broken part"""
    out = set()
    c = rec._ctx
    first = True
    while c is not None and c.invokingState >= 0:
        if isinstance(c, P.IfStmtContext) and first:
            out |= {L.EndIf}
        elif isinstance(c, (P.IfStmtContext, P.ElifStmtContext)):
            out |= {L.Elif, L.Else, L.EndIf}
        elif isinstance(c, P.ElseStmtContext):
            out |= {L.EndIf}
        elif isinstance(c, P.ForStmtContext):
            out |= {L.EndFor}
        elif isinstance(c, P.WhileStmtContext):
            out |= {L.EndWhile}
        elif isinstance(c, (P.CaseStmtContext, P.DefaultStmtContext)):
            out |= {L.Break}
        elif isinstance(c, P.SelectStmtContext):
            out |= {L.EndSelect}
        first = False
        c = c.parentCtx
    return out


def recovery(box, seed, n):
    from antlr4 import Token
    from antlr4.error.ErrorStrategy import DefaultErrorStrategy
    from wizard.antlr4.wizardLexer import wizardLexer as L
    from wizard.antlr4.wizardParser import wizardParser as P
    from wizard.utils import error_strategy as ES
    from wizard.utils import make_parse_wizard_context

    closing = {P.IfStmtContext: L.EndIf, P.ForStmtContext: L.EndFor, P.WhileStmtContext: L.EndWhile,
               P.SelectStmtContext: L.EndSelect}
    orig = ES.WizardErrorStrategy.recover
    log = []

    def recover(self, recognizer, e):
        st = recognizer.getTokenStream()
        ctx, i0 = recognizer._ctx, st.index
        want = closers(recognizer, P, L)
        chain, c = [], ctx
        while c is not None:
            chain.append(type(c).__name__[:-7])
            c = c.parentCtx
        # what the recovery of ANTLR would skip to
        toks = st.tokens

        def after(j):
            j += 1
            while toks[j].channel != 0:
                j += 1
            return j

        j = i0
        if getattr(self, "lastErrorIndex", -1) == i0 and recognizer.state in (self.lastErrorStates or ()):
            j = after(j) if toks[j].type != Token.EOF else j
        follow = DefaultErrorStrategy.getErrorRecoverySet(self, recognizer)
        while toks[j].type != Token.EOF and toks[j].type not in follow:
            j = after(j)
        r = orig(self, recognizer, e)
        # the expected position
        i = i0
        if want:
            toks = st.tokens
            while toks[i].type != Token.EOF and toks[i].type not in want:
                i += 1
                while toks[i].channel != 0:
                    i += 1
        if i != i0:
            if st.tokens[i].type == closing.get(type(ctx)) or any(
                    isinstance(ctx, k) and st.tokens[i].type == t for k, t in closing.items()):
                i += 1
                while st.tokens[i].channel != 0:
                    i += 1
        else:
            i = j
        log.append((chain, i0, i, st.index, st.tokens[i0], getattr(ctx, "exception", None) is not None))
        return r

    ES.WizardErrorStrategy.recover = recover
    try:
        for k in range(n):
            if box.full:
                return
            s = seed + k
            rr = random.Random(s * 3 + 1)
            _, text, pk, sev = G.make(s, size=4, depth=3, err=0.0,
                                      focus=dict(select=6, exec=0, bad=0, **{"if": 8, "while": 5, "range": 4}))
            bad = text
            for _ in range(rr.choice([1, 1, 1, 1, 2, 2, 3, 6, 10])):
                bad, _at = mutate(rr, bad)
            del log[:]
            box.current = bad
            try:
                with S.limit_cpu(40):
                    make_parse_wizard_context(bad)
            except (RecursionError, MemoryError, R.Limit, real.TimeOut):
                box.skip("limit")
                continue
            except Exception as ex:
                from wizard.errors import WizardError
                if not isinstance(ex, WizardError):
                    return box.fail(f"parsing fails with {ex!r}", script=bad)
            box.case(bad, bool(log))
            for chain, i0, want, got, tok, mk in log:
                if want != got:
                    return box.fail(f"behind the error at {tok.line}:{tok.column} (in {' < '.join(chain)}) parsing resumes "
                                    f"at token {got}, expected {want}", script=bad)
                if not mk:
                    return box.fail(f"the part broken at {tok.line}:{tok.column} (in {chain[0]}) is not marked", script=bad)
    finally:
        ES.WizardErrorStrategy.recover = orig


# ---------------------------------------------------------------------------
# the written forms of comparison and membership (C12)


def forms(box, seed, n):
    """every documented operator, with and without ':', on texts that differ in case or not"""
    pk = [("Pack", ["Dir/File.esp", "other.txt"])]
    texts = ["ab", "AB", "b", "B", "", "straße", "STRASSE", "a_", "A[", "_", "Z"]
    low = str.casefold
    rel = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
           ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}
    todo = []
    for op, f in rel.items():
        for ci in (False, True):
            for x in texts:
                for y in texts:
                    w = f(low(x), low(y)) if ci else f(x, y)
                    if x != x.lower() and not x.isascii() or "ß" in x + y:
                        if ci:
                            continue  # lower() or casefold(): not settled by the documentation
                    todo.append((op + ":" * ci, f'"{x}" {op}{":" * ci} "{y}"', w))
    for c, names in (("SubPackages", ["Pack"]), ("SubPackages[0]", [f for _, fs in pk for f in fs])):
        for nm in names + ["none"]:
            for v in (nm, nm.upper(), nm.lower()):
                todo.append(("in", f'"{v}" in {c}', v in names))
                ci = low(v) in map(low, names)
                todo.append(("in:", f'"{v}" in: {c}', ci))
                todo.append(("in ... :", f'"{v}" in {c}:', ci))
    rr = random.Random(seed)
    fixed = [t for t in todo if t[0] == "in:"]
    rr.shuffle(todo)
    found, wrong = set(), []
    rest = [t for t in todo if t[0] != "in:"]
    size = -(-len(rest) // max(1, n - len(fixed)))
    for group in [rest[i:i + size] for i in range(0, len(rest), size)] + [[t] for t in fixed]:
        text = "".join(f"x{i} = {e}\n" for i, (_, e, _) in enumerate(group))
        box.current = text
        box.case(text)
        st, de, state, ev = real.run(text, pk, {}, S.chooser(0))
        for i, (form, e, w) in enumerate(group):
            got = state.get("variables", {}).get(f"x{i}")
            if st == "complete" and got == ("bool", w):
                continue
            if form == "in:" and st == "complete":
                wrong.append(f"{e} is {got[1] if got else None}".replace('"', "'"))
            elif form not in found:
                found.add(form)
                box.fail(f"the form `{form}`: {e} gives {got!r} ({st}), expected {w}", script=f"x = {e}\n", packages=pk)
    if wrong:
        box.fail("the form `in:` is wrong: " + "; ".join(wrong), script=f"x = {wrong[0].split(' is ')[0]}\n", packages=pk)


# ---------------------------------------------------------------------------
# texts of errors (C13)


ENDINGS = ["a = 1\n", "b = ", "a ", "++ ", "-- ", "[ ", "( ", "a[1:", "f(", "a.", '"x"', ".len", "!", " + ", "If a\n", "While a ",
           "For i ", "For i from ", "SelectOne ", '"d", ', "Exec(", "Note ", "Cancel ", "in ", "\t", "a ++ ["]


def errortexts(box, seed, n):
    """scripts that fail, mostly because a part cannot be parsed: line, column and text of the error"""
    import wizard.errors as E
    from antlr4 import Token
    from antlr4.error.Errors import InputMismatchException, NoViableAltException

    def quoted(s):
        return "'" + s.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + "'"

    for i in range(n):
        if box.full:
            return
        s = seed * 311 + i
        rr = random.Random(s)
        _, text, pk, sev = G.make(s, size=4, depth=2, err=0.3, focus=dict(select=3, exec=1, bad=1, **{"if": 5}))
        if rr.random() < 0.8:
            text, _ = mutate(rr, text)
            if rr.random() < 0.3:
                text, _ = mutate(rr, text)
        if rr.random() < 0.3:
            # the script ends in the middle of something
            text = "" if rr.random() < 0.5 else text.rstrip() + "\n"
            text += "".join(rr.choice(ENDINGS) for _ in range(rr.randint(1, 4)))
        r = real.Runner(real.packages(pk), S.chooser(s))
        real.configure(r, sev)
        try:
            with S.limit_cpu(40):
                try:
                    r.run(text)
                    ex = r.failed
                except E.WizardError as e:
                    ex = e
        except (RecursionError, MemoryError, real.TimeOut):
            box.skip("limit")
            continue
        except Exception:
            # (not an error of the script's execution)
            box.skip("not a wizard error")
            continue
        if not isinstance(ex, E.WizardError):
            box.skip("no wizard error")
            continue
        a = ex.args[0] if ex.args else None
        box.case(text + type(ex).__name__, isinstance(a, (InputMismatchException, NoViableAltException)))
        start = ex.context.start if ex.context is not None else None
        pos = (start.line, start.column) if start is not None else (-1, -1)
        data = dict(script=text, packages=pk, severity={str(k): v for k, v in sev.items()})
        try:
            shown = str(ex)
        except Exception as e2:
            box.fail(f"the text of a {type(ex).__name__} cannot be made: {e2!r}", **data)
            continue
        if (ex.line, ex.column) != pos:
            box.fail(f"the error is located at {(ex.line, ex.column)}, its context starts at {pos}", **data)
            continue
        head = "Line {}, Column {}: ".format(*pos)
        if not shown.startswith(head):
            box.fail(f"the text {shown!r} of the error does not begin with {head!r}", **data)
            continue
        rest = shown[len(head):]
        parts = []
        if isinstance(a, InputMismatchException):
            t = a.offendingToken
            parts = ["mismatched input " + quoted(t.text if t.text is not None else "<EOF>" if t.type == Token.EOF else f"<{t.type}>"),
                     a.getExpectedTokens().toString(a.recognizer.literalNames, a.recognizer.symbolicNames)]
        elif isinstance(a, NoViableAltException):
            toks = a.recognizer.getTokenStream().tokens[a.startToken.tokenIndex:a.offendingToken.tokenIndex + 1]
            shown_input = "<EOF>" if a.startToken.type == Token.EOF else "".join(t.text for t in toks if t.type != Token.EOF)
            parts = ["no viable alternative at input " + quoted(shown_input)]
        elif isinstance(ex, E.WizardIndexError):
            parts = [str(ex.index)]
        elif isinstance(ex, E.WizardNameError):
            parts = [ex.name]
        elif isinstance(ex, (E.WizardMissingPackageError, E.WizardMissingPluginError)):
            parts = [ex.subpackage]
        elif len(ex.args) == 1:
            parts = [str(a)]
        for p in parts:
            if p not in rest:
                box.fail(f"the text {shown!r} of the {type(ex).__name__} does not tell {p!r}", **data)
                break


# ---------------------------------------------------------------------------
# sources of a script (C26)


def sources(box, seed, n):
    """the same script as a text, a stream, a path, a binary and a text file"""
    import io
    import pathlib
    import shutil
    import tempfile
    from antlr4 import InputStream

    d = tempfile.mkdtemp(prefix="bwi-sources-")
    try:
        for i in range(n):
            if box.full:
                return
            s = seed * 521 + i
            rr = random.Random(s)
            _, text, pk, sev = G.make(s, size=5, depth=2, err=0.05, focus=dict(select=4, exec=2, keyword=6, bad=0.5))
            k = i % 6
            if k == 0:
                text = rr.choice(["", "\n", "; nothing\n", "a", "\n\n\n", "a = 1"])
            text = "".join(c for c in text if ord(c) < 128)
            bom = ""
            if i % 75 == 3:
                # a long file
                text = "; comment\n" * 7000 + text
            if i == 9:
                # a very long one
                text = rr.choice(["; " + "x" * 1_200_000 + "\n", "\n" * 300_000, ";;;\n" * 200_000]) + text
            if k in (1, 2):
                # with a byte order mark any text is detected for certain
                text += 'z = "{}"\n'.format("".join(rr.choice("éàß€λЖ語😀") for _ in range(rr.randint(1, 9))))
                bom = rr.choice(["utf-8-sig", "utf-16", "utf-32"])
            if rr.random() < 0.3:
                text = text.replace("\n", "\r\n")
            data = text.encode(bom or "ascii")
            p = pathlib.Path(d) / f"{i}.txt"
            p.write_bytes(data)
            forms = [("an input stream", lambda: InputStream(text)), ("a path", lambda: p),
                     ("a binary file object", lambda: io.BytesIO(data)), ("a text file object", lambda: io.StringIO(text, newline="")),
                     ("an open file", lambda: open(p, "rb")), ("a buffer", lambda: io.BufferedReader(io.BytesIO(data)))]
            try:
                with S.limit_cpu(25):
                    want = sourced(text, pk, sev, s)
                    box.case(text, bool(text.strip()))
                    for name, make in forms:
                        x = make()
                        got = sourced(x, pk, sev, s)
                        if hasattr(x, "close") and not isinstance(x, pathlib.Path):
                            x.close()
                        if got != want:
                            box.fail(f"the script behaves differently as {name}: {got!r}, as a text: {want!r}",
                                     script=text, data=data.hex(), packages=pk)
                            break
                    if p.read_bytes() != data:
                        box.fail("the file of the script was changed", script=text)
            except (RecursionError, MemoryError, R.Limit):
                box.skip("recursion limit")
            except real.TimeOut:
                box.skip("processor time")
            p.unlink()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sourced(x, pk, sev, seed):
    return real.run(x, pk, sev, S.chooser(seed))
