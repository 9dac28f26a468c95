"""Bounded suites: generated cases run by the real code and by independent references.

A suite is a function (box, seed, n); it reports cases with box.case and failures with
box.fail.  A failure is reported only for a difference of what the code did, never for
a problem of the harness."""
import ast
import itertools
import math
import os
import random
import re
import signal
import time
import zlib

from bounded import gen as G
from bounded import real
from bounded import ref as R

REPO = os.environ.get("VERIF_REPO", "/repo")


class Box:
    def __init__(self, limit=3):
        self.n = 0
        self.kinds = set()
        self.samples = []
        self.failures = []
        self.current = ""  # the case that runs
        self.skipped = {}
        self.limit = limit

    def case(self, text, nontrivial=True):
        self.n += 1
        if nontrivial:
            self.kinds.add(zlib.crc32(text.encode("utf-8", "replace")))
        if len(self.samples) < 1:
            self.samples.append(text[:1500])

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def fail(self, what, **data):
        self.failures.append(dict(what=what, **data))

    @property
    def full(self):
        return len(self.failures) >= self.limit


class limit_cpu:
    """stops a case that uses too much processor time"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise real.TimeOut()
        self.old = signal.signal(signal.SIGVTALRM, h)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


_mined = None


def mined():
    """small integers and short texts written in the code under test"""
    global _mined
    if _mined is None:
        ints, strs = set(), set()
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            if "antlr4" in d:
                continue
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
                except (SyntaxError, UnicodeDecodeError, OSError):
                    continue
                docs = set()
                for n in ast.walk(tree):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        docs.add(id(n.value))
                    if isinstance(n, ast.JoinedStr):
                        docs.update(id(x) for x in ast.walk(n))
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        v = n.value
                        if type(v) is int and abs(v) < 300:
                            ints.update((v, v + 1, -v))
                        elif type(v) is str and 0 < len(v) <= 16 and v.isprintable():
                            strs.add(v)
        _mined = (sorted(ints), sorted(strs))
    return _mined


def chooser(seed):
    def ch(it, opts, defs, many):
        it.nch = getattr(it, "nch", 0) + 1
        rr = random.Random(zlib.crc32(repr((seed, it.nch, len(opts))).encode()))
        if rr.random() < 0.2:  # the default(s)
            return [next(i for i, o in enumerate(opts) if o == d) for d in defs]
        if many:
            return [i for i in range(len(opts)) if rr.random() < 0.4]
        return [rr.randrange(len(opts))]
    return ch


def plain(x):
    """sub-packages by name"""
    if isinstance(x, tuple):
        return tuple(map(plain, x))
    if isinstance(x, (R.SP, real.SubPackage)):
        return ("SubPackage", x.name)
    if isinstance(x, (R.VoidV, real.Void)):
        return ("void",)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, real.SubPackages)):
        return ("list",) + tuple(map(plain, x))
    return x


def same_event(x, y):
    x, y = plain(x), plain(y)
    if x == y:
        return True
    return x[0] == y[0] == "warning" and x[1] in y[1]


def same_events(a, b):
    return len(a) == len(b) and all(map(same_event, a, b))


def same_detail(st, a, b):
    if a == b:
        return True
    if st != "error" or a is None or b is None:
        return False
    if a[0].startswith("raw"):
        return b[0].startswith("raw")
    return a[0] == b[0] and (a[1] is None or a[1] == b[1]) and (a[2] is None or a[2] == b[2])


def difference(ref, code):
    """text of the first difference of (status, detail, state, events), or None"""
    st, de, sn, ev = ref
    st2, de2, sn2, ev2 = code
    if not same_events(ev, ev2):
        for i, (x, y) in enumerate(zip(ev, ev2)):
            if not same_event(x, y):
                return f"event {i}: expected {x!r}, got {y!r}"
        return f"expected {len(ev)} events, got {len(ev2)}: {(ev + ev2)[min(len(ev), len(ev2))]!r}"[:600]
    if st != st2:
        return f"expected {st} {de!r}, got {st2} {de2!r}"
    if not same_detail(st, de, de2):
        return f"expected {de!r}, got {de2!r}"
    for k in sn:
        if plain(sn[k]) != plain(sn2.get(k)):
            return f"{k}: expected {sn[k]!r}, got {sn2.get(k)!r}"[:900]
    return None


def reference(block, pkgs, sev, ch, limit=1500):
    r = R.Ref([R.SP(*p) for p in pkgs], sev, lambda it, o, d, m: [o[i][0] for i in ch(it, o, d, m)], limit)
    st, de, state = r.run(block)
    return st, de, state.snap(), r.events


def script_case(box, block, text, pkgs, sev, chseed, hint="", limit=1500):
    try:
        with limit_cpu(10):
            want = reference(block, pkgs, sev, chooser(chseed), limit)
    except (R.Limit, RecursionError, MemoryError, real.TimeOut):
        return box.skip("too long for the reference")
    box.case(text, len(want[3]) > 0 or len(want[2]["variables"]) > 0)
    try:
        with limit_cpu(25):
            got = real.run(text, pkgs, sev, chooser(chseed))
    except (R.Limit, MemoryError):
        return box.skip("recursion limit")
    except real.TimeOut:
        box.limit = 0  # the next one may take as long
        return box.fail("the run does not end (25 s processor time)", script=text, packages=pkgs,
                        severity=sev, expected=repr(want[:2]))
    d = difference(want, got)
    if d:
        box.fail(d, script=text, packages=pkgs, severity={str(k): v for k, v in sev.items()},
                 choices_seed=chseed, hint=hint)


def scripts(focus=None, **kw):
    def suite(box, seed, n):
        ints, strs = mined()
        for i in range(n):
            if box.full:
                return
            s = seed + i
            rr = random.Random(s)
            k = dict(kw)
            if rr.random() < 0.3:
                k["depth"] = k.get("depth", 3) + rr.randrange(1, 3)
                k["size"] = max(2, k.get("size", 6) - 2)
            b, text, pk, sev = G.make(s, focus=focus, ints=ints, strs=strs, **k)
            script_case(box, b, text, pk, sev, s)
    return suite


# ---------------------------------------------------------------------------
# steps (C01, C25)

from wizard import contexts as WC  # noqa: E402
from wizard.contexts import WizardInterpreterContext, WizardTerminationContext  # noqa: E402


def opt(o):
    return None if o is None else (o.name, o.description, o.image)


def obs(c):
    """what a user can see of a step"""
    o = {"class": type(c).__name__, "state": real.show_state(c.state)}
    t = getattr(c.context, "start", None)
    o["at"] = (t.line, t.column) if t is not None else None
    if isinstance(c, (WC.WizardSelectOneContext, WC.WizardSelectManyContext)):
        o["menu"] = (c.description, tuple(map(opt, c.options)))
        o["choice"] = opt(c.default) if isinstance(c, WC.WizardSelectOneContext) else tuple(map(opt, c.defaults))
    if isinstance(c, WizardTerminationContext):
        o["end"] = (c.is_cancel(), c.is_return(), c.is_complete(), c.message() if c.is_cancel() else None)
    return o


def successor(c):
    """-> (observable, step or None)"""
    try:
        n = c.exec()
    except (RecursionError, MemoryError, real.TimeOut):
        raise
    except Exception as ex:
        return ("error", real.show_error(ex)), None
    return ("step", obs(n)), n


def purity(box, seed, n):
    ints, strs = mined()
    for i in range(n):
        if box.full:
            return
        s = seed + i
        rr = random.Random(s)
        _, text, pk, sev = G.make(s, focus=dict(keyword=10, select=5, exec=2, ini=4, bad=0, **{"in": 4}),
                                  ints=ints, strs=strs, err=0.0, size=5)
        try:
            with limit_cpu(25):
                purity_case(box, text, pk, sev, rr, s)
        except (RecursionError, MemoryError, R.Limit):
            box.skip("recursion limit")
        except real.TimeOut:
            box.skip("processor time")


def purity_case(box, text, pk, sev, rr, s):
    r = real.Runner(real.packages(pk), None)
    real.configure(r, sev)
    try:
        c = r.make_top_level_context(text)
    except Exception as ex:
        return box.fail(f"the script is not accepted: {ex!r}", script=text)
    box.case(text)
    seen = [(c, obs(c))]
    links = []  # (step, observable successor)

    def check(what, ctxs):
        for x, o in ctxs:
            now = obs(x)
            if now != o:
                k = next(k for k in o if o[k] != now.get(k))
                box.fail(f"{what} changed an earlier step ({o['class']} at {o['at']}): {k} was "
                         f"{o[k]!r}, is {now[k]!r}", script=text, packages=pk,
                         severity={str(a): b for a, b in sev.items()}, seed=s)
                return False
        return True

    for step in range(120):
        if isinstance(c, WizardTerminationContext) or c is None:
            if step > 100:
                break
            c = rr.choice(seen)[0]
            if isinstance(c, WizardTerminationContext):
                continue
        q = rr.random()
        if isinstance(c, (WC.WizardSelectOneContext, WC.WizardSelectManyContext)) and q < 0.8:
            os_ = list(c.options)
            if isinstance(c, WC.WizardSelectOneContext):
                n = c.select(rr.choice(os_))
            else:
                n = c.select([o for o in os_ if rr.random() < 0.5])
            what = "selecting an option"
            if not check(what, seen[-12:]):
                return
            seen.append((n, obs(n)))
            c = n
        elif q < 0.15 and len(seen) > 3:
            c = rr.choice(seen)[0]  # go back
            continue
        before = obs(c)
        o, n = successor(c)
        if obs(c) != before:
            return check("executing a step", [(c, before)])
        links.append((c, o))
        if not check(f"executing the {before['class']} step at {before['at']}", seen[-12:]):
            return
        if n is not None:
            seen.append((n, o[1]))
        c = n
    if not check("running the script", seen):
        return
    rr.shuffle(links)
    for c, o in links[:40]:
        o2, _ = successor(c)
        if o2 != o:
            return box.fail(f"executing the step {type(c).__name__} again gave another result: "
                            f"{o!r} at first, {o2!r} again", script=text, packages=pk, seed=s,
                            severity={str(a): b for a, b in sev.items()})


def copies(box, seed, n):
    """copies of states are equal and independent, whatever the keywords and assignments
    do to them (states are only changed in the ways the interpreter does it)"""
    from wizard.runner import WizardRunnerExpressionVisitor, WizardRunnerKeywordVisitor, WizardRunnerState
    from wizard.severity import SeverityContext
    from wizard.state import WizardInterpreterState

    class Quiet(SeverityContext):
        def warning(self, text):
            pass

    class At:
        context = None

    ev = object.__new__(WizardRunnerExpressionVisitor)
    names = ["a", "b", "Main.esp", "main.ESP", "x.esm", "Pack", "pack", "other"]
    for i in range(n):
        rr = random.Random(seed * 77 + i)
        kv = WizardRunnerKeywordVisitor(real.packages(rr.choice([
            [("Pack", ["Main.esp", "d/x.esm"]), ("other", ["x.esm", "b.esp"])], [("a", ["a", "b"])],
            [("b", ["a.esp"]), ("Pack", ["a.esp", "b.esl", "f.txt"]), ("other", [])]])), Quiet())
        own = [s.name for s in kv.subpackages] + [p.name for p in kv.plugins]
        st = WizardRunnerState() if rr.random() < 0.85 else WizardInterpreterState()
        full = isinstance(st, WizardRunnerState)
        sts = [st]
        snaps = [real.show_state(st)]
        log = []
        for _ in range(rr.randrange(2, 16)):
            j = rr.randrange(max(0, len(sts) - 3), len(sts))
            if rr.random() < 0.35:
                sts.append(sts[j].copy())
                snaps.append(real.show_state(sts[-1]))
                log.append(f"copy {j}")
                if snaps[-1] != snaps[j] or type(sts[-1]) is not type(sts[j]):
                    box.fail("a copy of a state differs from it", history=log, state=repr(snaps[j]),
                             copy=repr(snaps[-1]))
                    return
                continue
            op = rr.randrange(19) if full else 0
            x = rr.choice(own) if own and rr.random() < 0.7 else rr.choice(names)
            log.append(f"change {op} of {j} with {x}")
            t = sts[j]
            if op in (0, 1):
                t.set(x, real.Value(rr.choice([0, 1, 2, "", "x", 2.5, False, True, real.Void(), real.SubPackages([]),
                                               real.Pkg("p", [])])))
            elif op == 2:
                ev.visitDisableINILine(t, "f.ini", x, "s")
            elif op == 3:
                ev.visitEditINI(t, "f.ini", x, "s", "1", "c")
            elif op == 4:
                kv.visitNote(At, t, x)
            elif op == 5:
                kv.visitRenamePlugin(At, t, x, x + "2")
            elif op == 6:
                kv.visitResetPluginName(At, t, x)
            elif op == 7:
                kv.visitResetAllPluginNames(At, t)
            elif op == 8:
                kv.visitDeSelectAll(At, t)
            elif op == 9:
                kv.visitDeSelectAllPlugins(At, t)
            elif op == 10:
                kv.visitDeSelectPlugin(At, t, x)
            elif op == 11:
                kv.visitDeSelectSubPackage(At, t, x)
            elif op == 12:
                kv.visitSelectAll(At, t)
            elif op == 13:
                kv.visitSelectAllPlugins(At, t)
            elif op in (14, 15):
                kv.visitSelectPlugin(At, t, x)
            elif op in (16, 17):
                kv.visitSelectSubPackage(At, t, x)
            else:
                kv.visitNote(At, t, x)
                kv.visitNote(At, t, x)
            snaps[j] = real.show_state(t)
            for k, u in enumerate(sts):
                if real.show_state(u) != snaps[k]:
                    box.fail(f"changing state {j} changed state {k}", history=log)
                    return
            if [s.name for s in kv.subpackages] + [p.name for p in kv.plugins] != own:
                box.fail(f"changing state {j} changed what is available", history=log)
                return
        box.case(repr(log))


def until(box, seed, n):
    kinds = [WC.WizardSelectOneContext, WC.WizardSelectManyContext]
    for nm in dir(WC):
        k = getattr(WC, nm)
        if isinstance(k, type) and issubclass(k, WizardInterpreterContext) and k not in kinds:
            kinds.append(k)
    kinds.sort(key=lambda k: k.__name__)
    for i in range(n):
        if box.full:
            return
        s = seed + i
        rr = random.Random(s)
        _, text, pk, sev = G.make(s, size=5, depth=2, focus=dict(select=6, exec=2), err=0.01)
        try:
            with limit_cpu(25):
                until_case(box, text, pk, sev, rr, kinds)
        except (RecursionError, MemoryError, R.Limit):
            box.skip("recursion limit")
        except real.TimeOut:
            box.skip("processor time")


def until_case(box, text, pk, sev, rr, kinds):
    r = real.Runner(real.packages(pk), None)
    real.configure(r, sev)
    chain = [r.make_top_level_context(text)]
    marks = [0]
    end = None
    while len(chain) < 150:
        c = chain[-1]
        if isinstance(c, WizardTerminationContext):
            break
        o, m = successor(c)
        marks.append(len(r.events))
        if m is None:
            end = o
            break
        chain.append(m)
    if len(chain) >= 150:
        return box.skip("long script")
    box.case(text, len(chain) > 3)
    views = [obs(c) for c in chain]
    for _ in range(12):
        a = rr.randrange(len(chain))
        ks = [type(rr.choice(chain)) if rr.random() < 0.7 else rr.choice(kinds)
              for _ in range(rr.randrange(0, 3))]
        if rr.random() < 0.1:
            ks.append(WizardInterpreterContext)
        if rr.random() < 0.15:
            # many targets, some of them several times
            ks = [rr.choice(kinds) for _ in range(rr.randrange(5, 30))] + ks
        want = next((j for j in range(a, len(chain)) if isinstance(chain[j], tuple(ks))), None)
        e = None
        if want is None:
            if end is None:
                want = len(chain) - 1
            else:
                want, e = len(chain) - 1, end
        k0 = len(r.events)
        got = err = None
        try:
            got = r.exec_until(chain[a], tuple(ks) if rr.random() < 0.5 else list(ks))
        except (RecursionError, MemoryError):
            raise
        except Exception as ex:
            err = ("error", real.show_error(ex))
        ev = r.events[k0:]
        names = [k.__name__ for k in ks]
        d = None
        if e is not None:
            if err != e:
                d = f"expected the error {e}, got {err or obs(got)}"
        elif err is not None:
            d = f"unexpected {err}"
        elif obs(got) != views[want]:
            d = f"stopped at {obs(got)}, expected {views[want]}"
        elif want == a and got is not chain[a]:
            d = "a matching start is not returned itself"
        last = want + (e is not None)
        if d is None and ev != r.events[marks[a]:marks[last]]:
            d = f"executed other steps: {ev} instead of {r.events[marks[a]:marks[last]]}"
        if d:
            return box.fail(f"exec_until from step {a} for {names}: {d}", script=text, packages=pk,
                            severity={str(a): b for a, b in sev.items()})


# ---------------------------------------------------------------------------
# the script runner (C09)

class Stop(Exception):
    pass


class StopBase(ValueError):
    pass


def rewinds(box, seed, n):
    runner(box, seed, n, dict(select=9, expr=8, exec=2, **{"break": 8, "if": 6, "while": 5, "in": 3}),
           ["rewind"], dict(size=4, depth=3))


def runner(box, seed, n, focus=None, acts=None, kw=None):
    ints, strs = mined()
    for i in range(n):
        if box.full:
            return
        s = seed + i
        b, text, pk, sev = G.make(s, ints=ints, strs=strs, err=0.005, **(kw or dict(size=5, depth=2)),
                                  focus=focus or dict(select=8, expr=6, cancel=1, **{"return": 0.6}))
        try:
            with limit_cpu(25):
                runner_case(box, b, text, pk, sev, s, acts)
        except (RecursionError, MemoryError, R.Limit):
            box.skip("recursion limit")
        except real.TimeOut:
            box.skip("processor time")


class Driven(real.Runner):
    """a runner whose user rewinds, aborts and fails at chosen callbacks"""

    def __init__(self, packages, rr, plan):
        super().__init__(packages, self.answer, Driven.acted)
        self.rr = rr
        self.plan = plan  # number of the callback -> action
        self.count = 0
        self.line = []  # (event, step, answer) of the current lineage
        self.log = []
        self.raised = None
        self.asked = []  # answers of cancel() to give
        self.cancels = self.completes = 0
        self.errors = []
        self.at_abort = None
        self.taken = None
        self.final = None

    def acted(self):
        ev = self.events[-1]
        self.line.append([ev, self.context(), None])
        self.count += 1
        act = self.plan.get(self.count)
        if act is None:
            return
        if act == "raise":
            self.raised = (Stop if self.rr.random() < 0.5 else StopBase)("from the user")
            self.log.append((self.count, "raise"))
            self.final = real.show_state(self.context().state)
            raise self.raised
        if act in ("abort", "abort-no"):
            self.asked.append(act == "abort")
            self.log.append((self.count, act))
            self.final = real.show_state(self.context().state)
            if act == "abort-no":
                self.back(self.context())
            else:
                self.taken = "cancel"
            self.abort()
        j = self.rr.randrange(len(self.line))
        c = self.line[j][1]
        self.log.append((self.count, "rewind", j))
        self.back(c)
        self.rewind(c)

    def back(self, c):
        """the lineage before the first event of step c"""
        k = next(k for k, x in enumerate(self.line) if x[1] is c)
        del self.line[k:]

    def answer(self, it, opts, defs, many):
        if many:
            a = [i for i in range(len(opts)) if self.rr.random() < 0.4]
        else:
            a = [self.rr.randrange(len(opts))]
        self.line[-1][2] = a
        return a

    def warning(self, text):
        self.events.append(("warning", text))
        self.line.append([("warning", text), self.context(), None])

    def requiresVersions(self, *a):
        super().requiresVersions(*a)
        self.line.append([self.events[-1], self.context(), None])

    def mgr(self, m, *a):
        v = super().mgr(m, *a)
        self.line.append([self.events[-1], self.context(), None])
        return v

    def error(self, exc):
        self.errors.append(exc)
        self.failed = exc

    def cancel(self):
        self.cancels += 1
        return self.asked.pop(0) if self.asked else True

    def complete(self):
        self.completes += 1
        return True


def runner_case(box, b, text, pk, sev, s, acts=None):
    rr = random.Random(s * 31 + 5)
    plan = {}
    for _ in range(rr.randrange(1, 6) if acts else rr.randrange(0, 4)):
        plan[rr.randrange(1, rr.choice([4, 9, 20]))] = rr.choice(acts or ["rewind", "rewind", "rewind", "abort-no"])
    if not acts and rr.random() < 0.4:
        plan[rr.randrange(1, rr.choice([4, 9, 20]))] = rr.choice(["raise", "abort"])
    if rr.random() < 0.06:
        # a user who goes back again and again
        for _ in range(rr.randrange(10, 60)):
            plan.setdefault(rr.randrange(1, 120), "rewind")
    r = Driven(real.packages(pk), rr, plan)
    real.configure(r, sev)
    data = dict(script=text, packages=pk, severity={str(a): c for a, c in sev.items()}, plan=repr(plan))
    try:
        st, state = r.run(text)
    except (RecursionError, MemoryError):
        raise
    except Exception as ex:
        box.case(text)
        return box.fail(f"run() raised {ex!r} after {r.log}", **data)
    if isinstance(r.failed, RecursionError):
        raise R.Limit()
    box.case(text + repr(r.log), bool(r.log))
    st = real.STATUS[st]
    data["log"] = repr(r.log)
    ended_by_user = None
    if r.raised is not None:
        ended_by_user = "error"
        if len(r.errors) != 1 or not (r.errors[0] is r.raised or causes(r.errors[0], r.raised)):
            return box.fail(f"the error callback got {r.errors!r} for {r.raised!r}", **data)
    elif r.taken == "cancel":
        ended_by_user = "cancel"
    if ended_by_user:
        if st != ended_by_user:
            return box.fail(f"status {st} instead of {ended_by_user}", **data)
        if real.show_state(state) != r.final:
            return box.fail(f"final state {real.show_state(state)!r}, the last one was {r.final!r}", **data)
        if ended_by_user == "cancel" and (r.completes or r.errors):
            return box.fail("complete() or error() called after abort()", **data)
    # the lineage of steps is an undisturbed run with the same answers
    answers = [x[2] for x in r.line if x[0][0] in ("one", "many")]

    class Enough(Exception):
        pass

    def ch(it, o, d, m):
        it.na = getattr(it, "na", -1) + 1
        if it.na >= len(answers) or answers[it.na] is None:
            raise Enough()
        return [o[i][0] for i in answers[it.na]]

    ref = R.Ref([R.SP(*p) for p in pk], sev, ch, 1500)
    try:
        st0, de0, state0 = ref.run(b)
    except R.Limit:
        return box.skip("too long for the reference")
    except Enough:
        st0 = None
    ev = ref.events
    got = [x[0] for x in r.line]
    if ended_by_user or st0 is None:
        if not same_events(ev[:len(got)], got):
            return box.fail("after rewinding, the run is not the one from that step: "
                            + str(difference(("", None, {}, ev[:len(got)]), ("", None, {}, got))), **data)
        if not ended_by_user:
            return box.fail("the run ended although a menu was not answered", **data)
        return
    de = None
    if st == "error":
        de = real.show_error(r.failed)
        if len(r.errors) != 1 or r.completes or r.cancels > len([x for x in r.log if x[1] == "abort-no"]):
            return box.fail(f"{len(r.errors)} calls of error(), {r.completes} of complete()", **data)
    elif st == "cancel":
        de = de0
        if r.errors or r.completes or r.cancels != 1 + len([x for x in r.log if x[1] == "abort-no"]):
            return box.fail(f"cancel() called {r.cancels} times, complete() {r.completes}", **data)
    elif r.errors or r.completes != 1:
        return box.fail(f"complete() called {r.completes} times, errors {r.errors!r}", **data)
    d = difference((st0, de0, state0.snap(), ev), (st, de, real.show_state(state), got))
    if d:
        box.fail(d, **data)


def causes(e, x):
    while e is not None:
        if e is x:
            return True
        e = e.__cause__
    return False


# ---------------------------------------------------------------------------
# values (C10, C11, C15, C19)

def pool(rr, strs=()):
    pk = [R.SP("Main", ["a.txt", "Main.esp"]), R.SP("straße", []), R.SP("main", ["q.esl", "É.txt", "A.TXT"]),
          R.SP("", ["x"])]
    ss = ["", "a", "A", "ab", "abc", "ABC", "straße", "STRASSE", "éa", "Éa", "aXbXc", "main", "Main", "é", "a.txt",
          "q.ESL", "\u0130", "10", "İ", "ﬁ", "e\u0301"] + list(strs)
    vs = [True, False, 0, 1, 2, 3, 7, -1, -2, -5, 100, 2 ** 70, -10 ** 20, 0.0, -0.0, 0.5, 1.0, -2.5, 1e300, float("inf"),
          R.VOID, R.SPS(), R.SPS(pk[:2]), R.SPS(pk), R.SPS([pk[2]])] + pk + ss
    for _ in range(30):
        vs.append(rr.choice([rr.randrange(-400, 400), rr.uniform(-50, 50), rr.getrandbits(90),
                             "".join(rr.choice("abAB é ßx") for _ in range(rr.randrange(9)))]))
    return vs


def conv(v, memo):
    """value of the reference -> value of the code under test"""
    if isinstance(v, R.SP):
        if id(v) not in memo:
            memo[id(v)] = real.Pkg(v.name, v.files)
        return memo[id(v)]
    if isinstance(v, R.SPS):
        if id(v) not in memo:
            memo[id(v)] = real.SubPackages([conv(x, memo) for x in v])
        return memo[id(v)]
    if v is R.VOID:
        return real.Void()
    return v


def outcome(f):
    try:
        return ("ok", f())
    except R.TE:
        return ("type",)
    except R.IE as e:
        return ("index", e.args[0])
    except TypeError:
        return ("type",)
    except IndexError as e:
        return ("index",) + e.args
    except Exception as e:
        if type(e).__name__ == "WizardIndexError":
            return ("index", e.index)
        if isinstance(e, (ArithmeticError, ValueError, MemoryError)):
            return ("raw",)
        return ("other", type(e).__name__)


def small(op, a, b):
    if op == "^" and not isinstance(a, str) and isinstance(b, int) and isinstance(a, int) and abs(b) > 60:
        return False
    return not (op == "^" and isinstance(b, int) and abs(b) > 2000)


def operators():
    import wizard.errors as WE  # noqa: F401
    V = real.Value

    def idx(a, b):
        if isinstance(a, R.SPS) and isinstance(b, int) and -len(a) <= b < len(a):
            return a[int(b)]
        return R.index(a, b)

    out = [("neg", 1, lambda a: -a if R.isnum(a) and not isinstance(a, bool) else bad(), lambda a: -a),
           ("pos", 1, lambda a: a if R.isnum(a) else bad(), lambda a: +a),
           ("not", 1, lambda a: not R.truth(a), lambda a: a.logical_not())]
    for n, m in (("+", "__add__"), ("-", "__sub__"), ("*", "__mul__"), ("/", "__div__"), ("%", "__mod__"),
                 ("^", "__pow__")):
        out.append((n, 2, lambda a, b, n=n: R.arith(n, a, b), lambda a, b, m=m: getattr(a, m)(b)))
    out.append(("and", 2, lambda a, b: R.truth(a) and R.truth(b), lambda a, b: a & b))
    out.append(("or", 2, lambda a, b: R.truth(a) or R.truth(b), lambda a, b: a | b))
    import operator as O
    for n, o in (("<", O.lt), ("<=", O.le), (">", O.gt), (">=", O.ge)):
        out.append((n, 2, lambda a, b, n=n: R.order(n, a, b), lambda a, b, o=o: o(a, b)))
    out.append(("equals", 2, R.eq, lambda a, b: a.equals(b)))
    out.append(("not_equals", 2, lambda a, b: not R.eq(a, b), lambda a, b: a.not_equals(b)))
    out.append(("same", 2, same, lambda a, b: V(a == b)))
    out.append(("not same", 2, lambda a, b: not same(a, b), lambda a, b: V(a != b)))
    return out


def bad():
    raise R.TE()


def same(a, b):
    if R.tname(a) != R.tname(b):
        return False
    return a is b if a is R.VOID else R.eq(a, b)


def operator_args_ok(n, a, b):
    """pairs for which the specification is silent (the script operators == and != on two voids)"""
    return not (n in ("equals", "not_equals") and a is R.VOID and b is R.VOID)


def values(box, seed, n):
    """operators on all pairs of values (C10)"""
    rr = random.Random(seed)
    vs = pool(rr, mined()[1][:20])
    memo = {}
    core = [R.VOID, True, 0, 1, -3, 1.0, 0.5, "", "a", "A", R.SPS()]
    core += [next(v for v in vs if isinstance(v, R.SP)), next(v for v in vs if isinstance(v, R.SPS) and len(v))]
    for nm, ar, spec, op in operators():
        todo = [(v,) for v in vs] if ar == 1 else list(itertools.product(vs, vs))
        if ar == 2:
            rr.shuffle(todo)
            todo = [(a, b) for a in core for b in core] + todo[:n]
        for args in todo:
            if ar == 2 and not (small(nm, *args) and operator_args_ok(nm, *args)):
                continue
            want = outcome(lambda: spec(*args))
            ra = [real.Value(conv(x, memo)) for x in args]
            before = [real.show(x) for x in ra]
            got = outcome(lambda: op(*ra))
            w, g = want, got
            if want[0] == "ok":
                w = ("ok", R.show(want[1]))
            if got[0] == "ok":
                v = got[1]
                g = ("ok", real.show(v)) if isinstance(v, real.Value) else ("not a value", repr(v))
                if g[0] == "ok" and str(v.type) != g[1][0]:
                    g = ("badly typed", str(v.type), g)
            box.case(f"{nm} {args!r}")
            if w != g and not (w[0] == "raw" and g[0] == "raw"):
                box.fail(f"{nm} of {', '.join(map(lambda x: repr(R.show(x)), args))}: expected {w}, got {g}")
                if box.full:
                    return
            if [real.show(x) for x in ra] != before:
                box.fail(f"{nm} changed an operand of {args!r}")
                return


def containers(box, seed, n):
    """index, slice, membership, iteration (C11)"""
    rr = random.Random(seed)
    vs = pool(rr, mined()[1][:20])
    memo = {}
    cont = [v for v in vs if isinstance(v, (str, R.SP, R.SPS))]
    ints = [v for v in vs if isinstance(v, int)] + list(range(-8, 9)) + list(mined()[0][:40])

    def check(what, want, got):
        w = ("ok", R.show(want[1])) if want[0] == "ok" else want
        g = got
        if got[0] == "ok":
            g = ("ok", real.show(got[1])) if isinstance(got[1], real.Value) else ("not a value", repr(got[1]))
        box.case(what)
        if w != g and not (w[0] == "raw" and g[0] == "raw"):
            box.fail(f"{what}: expected {w}, got {g}")

    V = real.Value
    for _ in range(n):
        if box.full:
            return
        c = rr.choice(cont) if rr.random() < 0.8 else rr.choice(vs)
        i = rr.choice(ints) if rr.random() < 0.8 else rr.choice(vs)
        check(f"{R.show(c)}[{R.show(i)}]", outcome(lambda: R.index(c, i)),
              outcome(lambda: V(conv(c, memo))[V(conv(i, memo))]))
        b = [None if rr.random() < 0.3 else rr.choice(ints) if rr.random() < 0.9 else rr.choice(vs) for _ in range(3)]
        rb = [None if x is None else V(conv(x, memo)) for x in b]
        check(f"{R.show(c)}[{b[0]!r}:{b[1]!r}:{b[2]!r}]", outcome(lambda: R.slc(c, *b)),
              outcome(lambda: V(conv(c, memo)).slice(*rb)))
        it = rr.choice([v for v in vs if isinstance(v, (str, R.SP))]) if rr.random() < 0.8 else rr.choice(vs)
        c2 = rr.choice([v for v in cont if not isinstance(v, str)]) if rr.random() < 0.8 else rr.choice(vs)
        if isinstance(c2, (R.SP, R.SPS)) and rr.random() < 0.6:
            names = [s.name for s in c2] if isinstance(c2, R.SPS) else list(c2.files)
            if names:
                it = rr.choice(names)
                it = rr.choice([it, it.upper(), it.lower(), it + "x", it[1:], it.swapcase()])
        ci = rr.random() < 0.5
        check(f"{R.show(it)} in {R.show(c2)} ({'ignoring' if ci else 'with'} case)",
              outcome(lambda: R.contains(c2, it, ci)),
              outcome(lambda: V(conv(c2, memo)).contains(V(conv(it, memo)), ci)))
        c3 = rr.choice(vs)
        if isinstance(c3, (R.SP, R.SPS)):
            want = ("ok", [("string", x) for x in (list(c3.files) if isinstance(c3, R.SP) else [y.name for y in c3])])
        else:
            want = ("type",)
        got = outcome(lambda: [real.show(x) if isinstance(x, V) else ("not a value", x) for x in V(conv(c3, memo))])
        box.case(f"iterate {R.show(c3)}")
        if want != got:
            box.fail(f"iterating over {R.show(c3)}: expected {want}, got {got}")


def functions(box, seed, n):
    """built-in functions (C15)"""
    from wizard.functions import make_basic_functions

    fns = make_basic_functions()
    rr = random.Random(seed)
    vs = pool(rr, mined()[1][:20])
    ss = [v for v in vs if isinstance(v, str)] + ["10", "-3", " 7 ", "2.5", "1e3", "nan", "Infinity", "x1", "1_0", "0x1",
                                                  "_1", "1__0", "ΟΔΟΣ ΑΣ", "İI", "2.5f", "+4", "１２", "1.", ".5", "0 "]
    ints = [v for v in vs if isinstance(v, int)] + list(range(-6, 7)) + [-1, -1]
    memo = {}
    names = sorted(R.BASIC)
    for i in range(n):
        if box.full:
            return
        nm = names[i % len(names)]
        f, lo, hi = R.BASIC[nm]
        v = rr.choice(ss) if rr.random() < 0.75 else rr.choice(vs)
        m = rr.randrange(lo, (hi or 5) + 1) - 1
        if rr.random() < 0.03:
            m += rr.choice([-1, 1])
        if nm in ("find", "rfind"):
            a = [rr.choice(ss) if rr.random() < 0.9 else rr.choice(vs)] + [
                rr.choice(ints) if rr.random() < 0.93 else rr.choice(vs) for _ in range(m - 1)]
            if isinstance(v, str) and v and rr.random() < 0.7:
                x = rr.randrange(len(v))
                a[0] = v[x:x + rr.randrange(0, 3)]
            a = a[:max(m, 0)]
        else:
            a = [rr.choice(ss) if rr.random() < 0.9 else rr.choice(vs) for _ in range(m)]
            if isinstance(v, str) and v and a and rr.random() < 0.6:
                x = rr.randrange(len(v))
                a[rr.randrange(len(a))] = v[:x] if rr.random() < 0.5 else v[x:]
        args = [v] + a
        if m < 0:
            args = []

        def spec():
            if len(args) < lo or hi is not None and len(args) > hi:
                raise R.TE()
            if nm == "str" and isinstance(args[0], (R.SP, R.SPS, R.VoidV)):
                return None
            return f(*args)

        want = outcome(spec)
        if want == ("ok", None):
            continue
        ra = [real.Value(conv(x, memo)) for x in args]
        before = [real.show(x) for x in ra]
        ways = [(nm, lambda: fns[nm](real_state(), ra))]
        if args and isinstance(args[0], str) and ("string." + nm) in names_of(fns):
            ways.append(("method " + nm, lambda: fns["string." + nm](real_state(), ra)))
        for what, call in ways:
            got = outcome(call)
            w = ("ok", R.show(want[1])) if want[0] == "ok" else want
            g = ("ok", real.show(got[1])) if got[0] == "ok" else got
            box.case(f"{what}{args!r}")
            if w != g:
                if w[0] == "raw" and g[0] in ("raw",):
                    continue
                box.fail(f"{what}({', '.join(repr(R.show(x)) for x in args)}): expected {w}, got {g}")
            if [real.show(x) for x in ra] != before:
                box.fail(f"{what} changed an argument of {args!r}")


def real_state():
    from wizard.runner import WizardRunnerState
    return WizardRunnerState()


def names_of(fns):
    return {k for k in fns if isinstance(k, str)}


def names(box, seed, n):
    """named objects (C19)"""
    import operator as O
    rr = random.Random(seed)
    words = ["", "a", "A", "b", "B", "ab", "aB", "straße", "STRASSE", "strasse", "ﬁ", "fi", "FI", "İ", "i̇", "é", "É",
             "e\u0301", "z", "Z", "_", "[", "Main.esp", "MAIN.ESP", "a b", "ς", "σ", "Σ"] + mined()[1][:20]
    ops = [("==", O.eq), ("!=", O.ne), ("<", O.lt), ("<=", O.le), (">", O.gt), (">=", O.ge)]
    mk = [lambda x: real.Plugin(x), lambda x: real.SubPackage(x), lambda x: real.Pkg(x, []),
          lambda x: real.Plugin(real.SubPackage(x))]
    for _ in range(n):
        if box.full:
            return
        x, y = rr.choice(words), rr.choice(words)
        if rr.random() < 0.4:
            y = rr.choice([x.upper(), x.lower(), x.swapcase(), x.casefold(), x + "a"])
        if rr.random() < 0.2:
            x = "".join(rr.choice("aAbBéÉßẞſsSσςΣ") for _ in range(4))
        a, b = rr.choice(mk)(x), rr.choice(mk)(y)
        sides = [(a, b)]
        sides.append((a, y))
        box.case(f"{x!r} {y!r}")
        for l, r_ in sides:
            for nm, o in ops:
                w, g = o(x.casefold(), y.casefold()), outcome(lambda: o(l, r_))
                if g != ("ok", w):
                    box.fail(f"{type(l).__name__}({x!r}) {nm} {r_!r}: expected {w}, got {g}")
        if x.casefold() == y.casefold():
            if hash(a) != hash(b) or len({a, b}) != 1 or {a: 1}.get(b) != 1 or b not in [a]:
                box.fail(f"{x!r} and {y!r} are equal but not found as such in a set")
        elif len({a, b}) != 2:
            box.fail(f"{x!r} and {y!r} are the same in a set")
        if str(a) != x or a.name != x:
            box.fail(f"the name {x!r} is displayed as {a.name!r}, {str(a)!r}")
        for other in (1, None, 2.5, object(), [x], (x,)):
            for nm, o in ops:
                if outcome(lambda: o(a, other)) != ("type",):
                    box.fail(f"{x!r} {nm} {other!r} is not a type error")
                    return


# ---------------------------------------------------------------------------
# mappings, severity, selections, records

def mappings(box, seed, n):
    """histories of stacked mappings against dictionaries (C20)"""
    from wizard.utils.mappings import StackMutableMapping

    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 1009 + i)
        # a mapping, its own entries and the keys deleted in it
        stack = [(StackMutableMapping(), {}, set())]
        log = []
        keys = ["a", "b", "c", 1, None, (), "A", 0][:rr.randrange(1, 9)]
        steps, deepest = rr.randrange(3, 30), 5
        if rr.random() < 0.03:
            # a large history
            keys += list(range(2, rr.randrange(4, 120)))
            steps, deepest = rr.randrange(60, 300), 16

        def contents(lv):
            below = contents(lv - 1) if lv else {}
            return {**{x: y for x, y in below.items() if x not in stack[lv][2]}, **stack[lv][1]}

        for step in range(steps):
            q = rr.random()
            if q < 0.12 and len(stack) < deepest:
                log.append("stack")
                stack.append((StackMutableMapping(stack[-1][0]), {}, set()))
            # mostly the last one, at times one that others are stacked on
            at = len(stack) - 1 if rr.random() < 0.75 else rr.randrange(len(stack))
            m, own, gone = stack[at]
            d = contents(at)
            before = dict(d)
            k = rr.choice(keys)
            op = rr.choice(["set", "set", "del", "del", "get", "pop", "setdefault", "update", "clear", "popitem", "eq"])
            if op in ("clear", "popitem") and rr.random() < 0.8:
                op = "set"
            v = rr.choice([rr.randrange(9), None, 0, ""])
            log.append((at, op, k, v))
            put = set()
            if op == "set":
                m[k] = v
                d[k] = v
                put.add(k)
                g = w = None
            elif op == "del":
                g, w = mres(lambda: m.__delitem__(k)), mres(lambda: d.__delitem__(k))
            elif op == "get":
                g, w = mres(lambda: (m.get(k), m[k])), mres(lambda: (d.get(k), d[k]))
            elif op == "pop":
                g, w = mres(lambda: m.pop(k)), mres(lambda: d.pop(k))
            elif op == "setdefault":
                g, w = m.setdefault(k, v), d.setdefault(k, v)
            elif op == "update":
                m.update({k: v, "z": 1})
                d.update({k: v, "z": 1})
                put.update((k, "z"))
                g = w = None
            elif op == "clear":
                m.clear()
                d.clear()
                g = w = None
            elif op == "popitem":
                g, w = mres(lambda: m.popitem()), None
                if d:
                    if g[0] == "ok" and g[1][0] in d and d[g[1][0]] == g[1][1]:
                        d.pop(g[1][0])
                        g = w
                else:
                    g, w = g, ("KeyError",)
                    if g[0] == "err":
                        g = ("KeyError",)
            else:
                g, w = m == d, True
            if g != w:
                box.fail(f"{log[-1]}: expected {w}, got {g}", history=repr(log))
                break
            for x in set(before) - set(d):
                own.pop(x, None)
                gone.add(x)
            for x in (set(d) - set(before)) | put:
                own[x] = d[x]
                gone.discard(x)
            bad_ = None
            for lv, (mm, _, _) in enumerate(stack):
                dd = contents(lv)
                if len(mm) != len(dd) or set(mm) != set(dd) or len(list(mm)) != len(dd):
                    bad_ = f"level {lv}: keys {list(mm)!r} (length {len(mm)}), expected {list(dd)!r}"
                elif any((x in mm) != (x in dd) or mres(lambda: mm[x]) != mres(lambda: dd[x]) for x in keys + ["z"]):
                    bad_ = f"level {lv}: contents {dict(mm.items())!r}, expected {dd!r}"
                if bad_:
                    break
            if bad_:
                box.fail(bad_, history=repr(log))
                break
        box.case(repr(log))


def mres(f):
    try:
        return ("ok", f())
    except KeyError as e:
        return ("err",) + e.args
    except Exception as e:
        return ("other", type(e).__name__)


def severities(box, seed, n):
    """(C21)"""
    from wizard.severity import Issue, Severity, SeverityContext

    class Ctx(SeverityContext):
        def __init__(self):
            super().__init__()
            self.seen = []

        def warning(self, text):
            self.seen.append(text)

    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 1013 + i)
        cs = [(Ctx(), {}) for _ in range(rr.randrange(1, 4))]
        log = []
        for _ in range(rr.randrange(1, 16)):
            j = rr.randrange(len(cs))
            c, d = cs[j]
            op = rr.choice(["set", "set", "default", "ask", "ask", "new"])
            iss, sv = rr.choice(list(Issue)), rr.choice(list(Severity))
            log.append((j, op, iss.name, sv.name))
            if op == "set":
                c.set_severity(iss, sv)
                d[iss] = sv
            elif op == "default":
                c.set_default_severity(sv)
                d[None] = sv
            elif op == "new":
                cs.append((Ctx(), {}))
            for k, (c2, d2) in enumerate(cs):
                for iss in Issue:
                    sv = d2.get(iss, d2.get(None, Severity.WARNING))
                    c2.seen.clear()
                    exc = rr.choice([ValueError, KeyError, RuntimeError])("x")
                    got = None
                    try:
                        c2.raise_or_warn(iss, exc, "text %s")
                    except Exception as e:
                        got = e
                    w = ["text %s"] if sv is Severity.WARNING else []
                    if (got is not exc if sv is Severity.ERROR else got is not None) or c2.seen != w:
                        box.fail(f"context {k}, {iss.name} set to {sv.name}: raised {got!r}, warned {c2.seen}",
                                 history=repr(log))
                        return
        box.case(repr(log))


SPECS = G.PKGS + [
    [("x", ["a/One.esp", "b/two.ESP", "c/three.esp.txt", "four.esm", "five.esl", "six.es"]), ("X y", ["one.ESM"]),
     ("é", ["É.esp", "One.esp", "ONE.esp"])],
    [("p%d" % i, ["f%d.esp" % i, "f%d.esm" % (i // 2)]) for i in range(9)],
]


def selections(box, seed, n):
    """histories of selection keywords, renames, notes and INI tweaks (C17, C18)"""
    N = R.N
    for i in range(n):
        if box.full:
            return
        s = seed * 101 + i
        rr = random.Random(s)
        pk = rr.choice(SPECS)
        plugs = [f.split("/")[-1] for _, fs in pk for f in fs] + ["none.esp", ""]
        pkgs = [p for p, _ in pk] + ["nope", ""]
        ini = ["Main.ini", "main.INI", "Other.ini", "é.ini", "É.ini"]

        def var(x):
            return rr.choice([x, x, x.upper(), x.lower(), x.swapcase()])

        L = lambda x: N("lit", x, sp=False)
        blk = []
        for _ in range(rr.randrange(1, 18)):
            kw = rr.choice(sorted(R.KEYWORDS) + ["SelectSubPackage", "SelectPlugin", "DeSelectPlugin",
                                                  "DeSelectSubPackage", "EditINI", "DisableINILine", "EditINI"])
            if kw in ("EditINI", "DisableINILine"):
                a = [L(rr.choice(ini)), L(rr.choice(["S", "s", "", "sec", "[sec]", " s "])),
                     L(rr.choice(["k", "K", "x y", ";k", "k=v", " k"]))]
                if kw == "EditINI":
                    a.append(rr.choice([L(1), L("v"), L(True), L(2.5), L(""), L("|x"), L(" v "), L("1"), L(0), L(False),
                                        L("True"), L("a;b"), L("1.0"), L(3.0)]))
                    if rr.random() < 0.5:
                        a.append(L(rr.choice(["", "note", " ", "; c", "None"])))
                if blk and blk[-1].k == "keyword" and not blk[-1].a[1]:
                    blk.append(N("assign", "y", L(1)))
                blk.append(N("expr", N("call", kw, a)))
                continue
            act, lo, hi = R.KEYWORDS[kw]
            if act in ("SelectPlugin", "DeSelectPlugin", "ResetPluginName"):
                a = [L(var(rr.choice(plugs)))]
            elif act in ("SelectSubPackage", "DeSelectSubPackage"):
                a = [L(var(rr.choice(pkgs)))]
            elif act == "RenamePlugin":
                a = [L(var(rr.choice(plugs))), L(rr.choice(["new.esp", "N2.esp", ""]))]
            elif act == "Note":
                a = [rr.choice([L("note"), L("a\nb"), L(""), L(3), L(True), L(2.5)])]
            elif act == "RequireVersions":
                a = [L(rr.choice(["1.0", ""])) for _ in range(rr.randrange(1, 5))]
            else:
                a = []
            blk.append(N("keyword", kw, a))
        text = R.to_text(blk)
        sev = {}
        for nm in ("SELECT_MISSING_SUBPACKAGE", "SELECT_MISSING_PLUGIN", "USAGE_OF_ANYTHING_IN_NOTE"):
            if rr.random() < 0.4:
                sev[nm] = rr.choice(["allow", "warning", "allow", "error"])
        script_case(box, blk, text, pk, sev, s)


def tweaks(box, seed, n):
    """per-file retrieval (C18)"""
    from wizard.runner import WizardRunnerExpressionVisitor, WizardRunnerState

    ev = object.__new__(WizardRunnerExpressionVisitor)
    ini = ["Main.ini", "main.INI", "Other.ini", "é.ini", "É.ini", "", "a", "B", "b", "d/a", "d\\a", " a", "a.ini ",
           "ΑΣ", "ας", "ßa", "SSa"]
    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 1019 + i)
        st = WizardRunnerState()
        mod, dis = [], []
        for _ in range(rr.randrange(0, 9) if rr.random() < 0.96 else rr.randrange(9, 200)):
            f, k = rr.choice(ini), rr.choice(["x", "y", "z", "X", ";x", " x", "x=1"])
            s = rr.choice(["s", "s", "[s]", "", " s", "S"])
            v = rr.choice([1, 1, "1", " v", True, 1.0, "", None, "s"])
            if rr.random() < 0.5:
                dis.append((f, s, k))
                ev.visitDisableINILine(st, f, s, k)
            elif rr.random() < 0.5:
                c = rr.choice(["c", "c", "", " ", None, "; c"])
                mod.append((f, s, k, v, c))
                ev.visitEditINI(st, f, s, k, v, c)
            else:
                mod.append((f, s, k, v, ""))
                ev.visitEditINI(st, f, s, k, v)
        box.case(repr((mod, dis)))
        if rr.random() < 0.5:
            st = st.copy()

        def edit(x):
            return (x.filename, x.section, x.setting) + ((x.value, x.comment) if hasattr(x, "value") else ())

        t = st.tweaks
        for what, w, g in [
            ("modified", mod, [edit(x) for x in t.modified]),
            ("disabled", dis, [edit(x) for x in t.disabled]),
            ("files", sorted({x[0] for x in mod + dis}), list(t.files())),
            ("truth", bool(mod or dis), bool(t)),
        ] + [(f"tweaks({f!r})", [x for x in mod + dis if x[0].lower() == f.lower()], [edit(x) for x in t.tweaks(f)])
             for f in ini]:
            if repr(w) != repr(g):
                box.fail(f"{what}: expected {w}, got {g}", edits=repr(mod), disabled=repr(dis))
                return


# ---------------------------------------------------------------------------
# literals (C24)

PIECES = ([("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\a", "\a"), ("\\b", "\b"), ("\\f", "\f"),
           ("\\\\", "\\"), ("\\x41", "A"), ("\\xe9", "\xe9"), ("\\x00", "\0"), ("\\u00df", "\u00df"),
           ("\\u20ac", "\u20ac"), ("\\U0001F600", "\U0001F600"), ("\\101", "A"), ("\\377", "\xff"),
           ("\\000", "\0")])


def literal(rr, strs):
    """-> (text of a quoted literal, its value)"""
    q = rr.choice("\"'")
    src, val = [], []
    last = ""
    for _ in range(rr.choice([0, 1, 2, 3, 5, 9])):
        k = rr.random()
        if k < 0.35:
            c = rr.choice(["a", "B", " ", "|", "é", "ß", "€", "😀", "x", "7", "n", "u", "U", "0", "%s", "{", "/", "#", ";",
                           "'", '"', "\t", "İ", "\xa0", "\u0301", "\xff", "\x7f", "\xad"]) if rr.random() < 0.8 else rr.choice(strs)
            if q in c or "\\" in c:
                continue
            s, v = c, c
        elif k < 0.75:
            s, v = rr.choice(PIECES)
        else:
            c = rr.choice(["q", "z", "8", "9", "'", '"', "v", "N", "é", "ß", " ", "(", "*", "A", "S", "d", "-", "😀", "B", "E"])
            if c == q:
                continue
            s, v = "\\" + c, c
        src.append(s)
        val.append(v)
        last = s
    return q + "".join(src) + q, "".join(val)


SIMPLE = dict(a="\a", b="\b", f="\f", n="\n", r="\r", t="\t")
SIMPLE["\\"] = "\\"
OCT, HEX = "01234567", "0123456789abcdefABCDEF"


def escaped(body):
    """the characters a quoted text denotes, or None for an incomplete numeric escape"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        i += 1
        if c != "\\":
            out.append(c)
            continue
        c = body[i]
        i += 1
        if c in SIMPLE:
            out.append(SIMPLE[c])
        elif c in "xuU":
            n = dict(x=2, u=4, U=8)[c]
            d = body[i:i + n]
            if len(d) < n or any(x not in HEX for x in d) or int(d, 16) > 0x10FFFF:
                return None
            out.append(chr(int(d, 16)))
            i += n
        elif c in OCT:
            j = i
            while j < len(body) and j < i + 2 and body[j] in OCT:
                j += 1
            out.append(chr(int(body[i - 1:j], 8)))
            i = j
        else:
            out.append(c)
    return "".join(out)


def shorttexts(box, seed, n):
    """short texts over the characters that escape sequences are made of; in each run of
    eight parts all of up to four characters, longer ones at random"""
    alpha = "\\qnx4\u00e9u0'\""
    part = (seed // 8009) % 8
    todo = ["".join(t) for k in range(5) for t in itertools.product(alpha, repeat=k)][part::8]
    rr = random.Random(seed)
    while len(todo) < n:
        todo.append("".join(rr.choice(alpha + "\\\\8 aU\u20ac") for _ in range(rr.randint(5, 12))))
    good = []
    for t in todo:
        k = len(t) - len(t.rstrip("\\"))
        if k % 2 or re.search(r"(?<!\\)(\\\\)*\"", t):
            continue
        try:
            v = escaped(t)
        except IndexError:
            continue
        if v is not None:
            # the same text between the other quotation marks
            swap = str.maketrans("'\"", "\"'")
            good.append((f'"{t}"', v))
            if rr.random() < 0.3 or '"' in t or "'" in t:
                good.append(("'" + t.translate(swap) + "'", v.translate(swap)))
    for i in range(0, len(good), 40):
        if box.full:
            return
        some = good[i:i + 40]
        text = "\n".join(f"x{j} = {t}" for j, (t, v) in enumerate(some)) + "\n"
        box.case(text)
        box.n += len(some) - 1
        try:
            with limit_cpu(25):
                st, de, state, ev = real.run(text, [], {}, chooser(0))
        except (R.Limit, real.TimeOut):
            box.skip("limit")
            continue
        got = state.get("variables", {})
        for j, (t, v) in enumerate(some):
            if got.get(f"x{j}") != ("string", v):
                box.fail(f'{t} is {got.get(f"x{j}")!r}, expected {v!r} ({st} {de})', script=f"x{j} = {t}")
                break


def number(rr):
    n = "".join(rr.choice("0123456789") for _ in range(rr.choice([1, 1, 2, 3, 8, 25])))
    if rr.random() < 0.5:
        return n, int(n)
    f = n + "." + "".join(rr.choice("0123456789") for _ in range(rr.choice([1, 2, 6, 18])))
    return f, float(f)


def literals(box, seed, n):
    strs = mined()[1] or ["a"]
    for i in range(n):
        if box.full:
            return
        rr = random.Random(seed * 103 + i)
        pk = rr.choice(G.PKGS)
        lines, want = [], {}
        for j in range(6):
            k = rr.random()
            if k < 0.65:
                t, v = literal(rr, strs)
                w = ("string", v)
            elif k < 0.9:
                t, v = number(rr)
                w = ("integer", v) if isinstance(v, int) else ("float", repr(v))
            elif k < 0.96:
                t = rr.choice(["True", "False"])
                w = ("bool", t == "True")
            else:
                t, w = "SubPackages", ("SubPackage[]", tuple(p for p, _ in pk))
            lines.append(f"x{j} = {t}")
            want[f"x{j}"] = w
        text = "\n".join(lines) + "\n"
        box.case(text)
        try:
            with limit_cpu(25):
                st, de, state, ev = real.run(text, pk, {}, chooser(0))
        except (R.Limit, real.TimeOut):
            box.skip("limit")
            continue
        if st != "complete" or ev:
            box.fail(f"the literals were not accepted: {st} {de} {ev}", script=text)
        elif state["variables"] != want:
            k = next((k for k in want if state["variables"].get(k) != want[k]), None)
            box.fail(f"{k}: expected {want.get(k)!r}, got {state['variables'].get(k)!r}", script=text, packages=pk)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    from bounded import big, suites2
    return getattr(big if name == "big" else suites2, name)
