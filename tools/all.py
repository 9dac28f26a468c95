"""verify every target in parallel: all.py [-v]; prints what is not proved"""
import sys
from concurrent.futures import ProcessPoolExecutor
from contracts import groups
from engine.verify import verify

K = next((int(a[9:]) for a in sys.argv if a.startswith("--unroll=")), None)


def work(gn):
    g = next(g for g in groups() if g.name == gn[0])
    m, ts = g.load()
    out = []
    for i, t in enumerate(ts):
        if i % gn[2] == gn[1]:
            r = verify(t, m, unroll=K)
            if r.status == "undecided" and K is None:
                b = verify(t, m, unroll=2, budget=90)
                r.reason = (r.reason[:90] + " || unrolled: " + b.status + " " + b.reason)
                if b.status == "refuted":
                    r.status = "refuted"
            out.append((gn[0], t.name, r.status, r.reason[:200], r.paths, r.cut, round(r.wall, 1), r.unreached))
    return out

if __name__ == "__main__":
    jobs = [(g.name, i, n) for g in groups() for n in [8 if g.name in ("interpreter",) else 1 if g.name in ("recover", "severity") else 3] for i in range(n)]
    tot = 0
    with ProcessPoolExecutor(8) as ex:
        for rs in ex.map(work, jobs):
            for r in rs:
                tot += 1
                if r[2] != "proved" or "-v" in sys.argv or r[-2] > 30 or r[-1]:
                    print(*r, flush=True)
    print(tot, "targets")
