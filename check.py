#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property for /repo's current source.

1. every function under contract for the property is verified against its contract,
   from the source in /repo (engine/, contracts/);
2. the bounded suites of the property run the code itself (bounded/), which supplies
   failing inputs for failed obligations and stands in where a function is out of reach.
"""
import hashlib
import functools
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault("VERIF_REPO", "/repo")
WANT = f"{HERE}:{REPO}/src:/opt/venv/lib/python3.12/site-packages"
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.environ.get("PYTHONPATH") != WANT or os.environ.get("PYTHONHASHSEED") != "0":
    # the code under test is compiled from its current source, whatever is cached
    env = dict(os.environ, PYTHONPATH=WANT, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

import plan  # noqa: E402

sys.setrecursionlimit(20000)
WORKERS = min(8, os.cpu_count() or 2)


# ---------------------------------------------------------------------------
# tasks run in child processes

def child(fn, args, conn):
    try:
        r = ("ok", fn(*args))
    except BaseException as e:  # noqa: BLE001
        r = ("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    try:
        conn.send(r)
    except Exception as e:
        conn.send(("crash", f"result: {e}"))
    conn.close()
    os._exit(0)


ENOUGH = 12  # failing inputs


def run_tasks(tasks, deadline):
    """tasks: [(key, fn, args, limit in s)] -> {key: ("ok", r) / ("crash", text) / ("timeout", text)}"""
    out, queue, live = {}, list(tasks), []
    bad = 0
    ctx = mp.get_context("fork")
    while queue or live:
        now = time.time()
        while queue and len(live) < WORKERS:
            if now > deadline:
                for k, *_ in queue:
                    out[k] = ("timeout", "the time of the whole check was used up")
                queue = []
                break
            k, fn, args, lim = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(fn, args, b))
            p.start()
            b.close()
            live.append((k, p, a, min(now + lim, deadline + 5)))
        rest = []
        for k, p, a, end in live:
            if a.poll():
                try:
                    out[k] = a.recv()
                    bad += k[0] == "bounded" and out[k][0] == "ok" and len(out[k][1]["failures"])
                except (EOFError, OSError):
                    out[k] = ("crash", "the worker ended without a result")
                p.join()
            elif not p.is_alive():
                out[k] = ("crash", f"the worker ended (exit code {p.exitcode})")
            elif time.time() > end:
                p.kill()
                p.join()
                out[k] = ("timeout", "time limit")
            else:
                rest.append((k, p, a, end))
        live = rest
        if bad >= ENOUGH:
            for k, *_ in queue:
                if k[0] == "bounded":
                    out[k] = ("ok", dict(n=0, kinds=[], samples=[], failures=[], skipped={"enough failing inputs": 1}))
            queue = [t for t in queue if t[0][0] != "bounded"]
        if live:
            mp.connection.wait([a for _, _, a, _ in live], 0.5)
    return out


_models = {}


def load_contracts():
    """-> ([(name of the contract module, model, targets)], [problem])"""
    from contracts import groups

    out, problems = [], []
    for g in groups():
        try:
            model, targets = g.load()
            problems += g.problems
        except Exception as e:
            problems.append(f"{g.name}: {type(e).__name__}: {e}")
            continue
        out.append((g.name, model, targets))
    return out, problems


UNROLL = 2  # elements per sequence in the bounded second look


def prove(target, model):
    """the proof; where it fails without a definite counterexample, a bounded second look
    with the loops unrolled, which can only find differences, never prove"""
    from engine.verify import verify

    r = summary(verify(target, model))
    if r["status"] == "undecided":
        b = summary(verify(target, model, unroll=UNROLL, budget=min(90, target.budget)))
        r["second_look"] = dict(bound=UNROLL, status={"proved": "agree"}.get(b["status"], b["status"]),
                                reason=b["reason"], paths=b["paths"])
        if b["status"] == "refuted":
            r.update(status="refuted", reason=b["reason"] + f" (loops unrolled, at most {UNROLL} elements)",
                     failed=b["failed"] + r["failed"], nfailed=b["nfailed"] + r["nfailed"])
        else:
            r["reason"] += f"; with loops unrolled (at most {UNROLL} elements): " + r["second_look"]["status"]
    return r


def summary(r):
    return dict(status=r.status, reason=r.reason, paths=r.paths, normal=r.normal, raising=r.raising, cut=r.cut,
                obligations=r.obligations, discharged=r.discharged, solver_s=r.solver_s, wall=r.wall,
                used=sorted(map(str, r.used)),
                nfailed=len(r.failed),
                failed=[dict(name=o.name, status=o.status, detail=o.detail, imprecise=bool(o.imprecise),
                             model=getattr(o, "model", None)) for o in r.failed[:40]])


FRAME = re.compile(r"heap\(|aliasing|the object itself|copied-from|argument \d|coupling|outcome")


def prove_frame(target, model):
    """only what the function may change and share (its result is another property's matter)"""
    r = prove(target, model)
    kept = [o for o in r["failed"] if FRAME.search(o["name"].split(": ", 1)[-1])]
    if r["failed"] and not kept and r["nfailed"] <= len(r["failed"]):
        r.update(status="proved", reason="frame obligations only", failed=[],
                 discharged=r["discharged"], obligations=r["discharged"])
    elif r["status"] == "refuted":
        r["failed"] = kept
        if not any(o["status"] == "failed" and not o["imprecise"] for o in kept):
            r["status"] = "undecided"
        r["reason"] = (kept or [dict(name=r["reason"])])[0]["name"]
    return r


def suite(name, kw, seed, n):
    from bounded import suites

    box = suites.Box()
    f = suites.scripts(**kw) if name == "scripts" else functools.partial(getattr(suites, name), **kw)
    try:
        f(box, seed, n)
    except Exception as e:
        # an unexpected exception of the code under test is a failure; one of the suite itself is not
        tb = traceback.extract_tb(e.__traceback__)
        if not (tb and os.path.realpath(tb[-1].filename).startswith(os.path.realpath(REPO) + "/src/")):
            raise
        box.fail(f"unexpected {type(e).__name__}: {e} (at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno} "
                 f"{tb[-1].name})", case=str(box.current)[:4000],
                 trace=traceback.format_exc()[-2500:], cases_before=box.n, suite_seed=seed)
    return dict(n=box.n, kinds=sorted(box.kinds), samples=box.samples, failures=box.failures, skipped=box.skipped)


# ---------------------------------------------------------------------------

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)

    groups, problems = load_contracts()
    tasks, targets = [], {}
    for gname, model, ts in groups:
        for t in ts:
            frame = prop not in t.props and prop + ":frame" in t.props
            if prop in t.props or frame:
                targets[t.name] = t
                tasks.append((("proof", t.name), prove_frame if frame else prove, (t, model), t.budget * (1 if tier == "quick" else 4) + 200))
    bounded = "--no-bounded" not in sys.argv
    for bi, entry in enumerate(plan.BOUNDED.get(prop, ()) if bounded else ()):
        name, kw = entry[0], entry[1] if len(entry) == 4 else {}
        total = entry[-2] if tier == "quick" else entry[-1]
        chunks = WORKERS * (1 if tier == "quick" else 8)
        per = max(1, (total + chunks - 1) // chunks)
        for c in range(chunks):
            tasks.append((("bounded", bi, name, c), suite,
                          (name, kw, seed * 1000003 + bi * 70001 + c * 8009 * (1 + per // 8009), per),
                          400 if tier == "quick" else 3600))
    # the long tasks first
    res = run_tasks(tasks, deadline)

    proofs, failures, stats = {}, [], dict(cases=0, kinds=set(), samples=[], skipped={}, lost=[])
    for k, (st, r) in res.items():
        if k[0] == "proof":
            proofs[k[1]] = r if st == "ok" else dict(
                status="undecided", reason=f"{st}: {r}", paths=0, normal=0, raising=0, cut=0, obligations=0,
                discharged=0, solver_s=0.0, wall=0.0, used=[], failed=[])
        elif st == "ok":
            stats["cases"] += r["n"]
            stats["kinds"].update((k[1], x) for x in r["kinds"])
            if len(stats["samples"]) < 3:
                stats["samples"] += [f"{k[2]}: {s}" for s in r["samples"][:1]]
            for w, c in r["skipped"].items():
                stats["skipped"][w] = stats["skipped"].get(w, 0) + c
            failures += [dict(f, suite=k[2]) for f in r["failures"]]
        else:
            stats["lost"].append(f"{k[2]}: {st}: {r}")
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
             if k["property"] == prop]
    hit, fresh = [], []
    for f in failures:
        k = next((k for k in known if k["match"] in json.dumps(f, default=str)), None)
        (hit if k else fresh).append((f, k))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    undecided = {n: r for n, r in proofs.items() if r["status"] == "undecided"}
    refuted = {n: r for n, r in proofs.items() if r["status"] == "refuted"}
    code = 0
    if fresh or refuted:
        code = 1
        path = os.path.join(evdir, "replays", f"{prop}-{tier}.json")
        with open(path, "w") as fh:
            json.dump(dict(
                property=prop, seed=seed,
                failing_inputs=[f for f, _ in fresh][:5],
                failed_obligations=[
                    dict(function=n, obligation=o["name"], status=o["status"], detail=o["detail"],
                         verifier_model=o["model"], contract=source_of(targets[n].spec))
                    for n, r in list(refuted.items()) + list(undecided.items())
                    for o in r["failed"]]), fh, indent=1, default=str)
        for f, _ in fresh[:3]:
            print(f"  failing input ({f['suite']}): {f['what']}"[:600])
        for n, r in refuted.items():
            print(f"  failed obligation: {r['reason']}"[:600])
        print(f"VIOLATION property={prop} replay={path}" + ("" if fresh else " no-failing-input-found"))
    for n, r in undecided.items():
        print(f"UNDECIDED property={prop} function={n}: {r['reason']}"[:400])
    for p in problems:
        print(f"UNDECIDED property={prop} contracts not applicable: {p}"[:400])
    for p in stats["lost"]:
        print(f"NOTE bounded run lost: {p}"[:600])

    obl = sum(r["obligations"] for r in proofs.values())
    dis = sum(r["discharged"] for r in proofs.values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level=plan.LEVEL.get(prop, "proof"),
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd=f"python3 /verif/check.py {prop} --no-bounded",
            trusted_base=plan.TRUSTED,
            functions_under_contract=len(proofs),
            functions_proved=sum(r["status"] == "proved" for r in proofs.values()),
            back_end="z3 " + z3_version(),
            solver_s=round(sum(r["solver_s"] for r in proofs.values()), 3),
            functions=[dict(function=n, status=r["status"], paths=r["paths"], obligations=r["obligations"],
                            discharged=r["discharged"], solver_s=round(r["solver_s"], 3),
                            calls=r["used"], **({"reason": r["reason"]} if r["reason"] else {}),
                            **({"bounded_second_look": r["second_look"]} if "second_look" in r else {}))
                       for n, r in sorted(proofs.items())],
            undecided=sorted(undecided), contract_problems=problems,
            bounded=dict(
                note="bounded runs of the real code; never counted as proved",
                evaluations=stats["cases"], distinct_nontrivial=len(stats["kinds"]),
                rule="generated cases (see bounded/suites.py), distinct by their text; non-trivial: with an "
                     "observable effect",
                samples=stats["samples"] or ["none"], skipped=stats["skipped"], lost=stats["lost"],
                suites=[(e[0], e[-2] if tier == "quick" else e[-1]) for e in plan.BOUNDED.get(prop, ())]),
        ),
        assumptions=plan.COMMON + plan.EXTRA.get(prop, []),
        wall_s=round(time.time() - t0, 2),
        violations=len(fresh) + len(refuted),
    )
    if not proofs:
        ev["level"] = "exploration"
        ev["coverage"].update(evaluations=stats["cases"], distinct_nontrivial=len(stats["kinds"]),
                              rule=ev["coverage"]["bounded"]["rule"], samples=stats["samples"] or ["none"])
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{prop}: {ev['coverage']['functions_proved']}/{len(proofs)} functions proved, {dis}/{obl} obligations, "
          f"{stats['cases']} bounded cases ({len(stats['kinds'])} distinct), {ev['wall_s']} s")
    return code


def source_of(f):
    import inspect
    try:
        return inspect.getsource(f)
    except (OSError, TypeError):
        return getattr(f, "__name__", str(f))


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
