"""verify targets by name: one.py <group> [name-substring] [-v] [--unroll=K]"""
import sys
from contracts import groups
from engine.verify import verify
pat = next((a for a in sys.argv[2:] if a[0] != "-"), "")
K = next((int(a[9:]) for a in sys.argv if a.startswith("--unroll=")), None)
for g in groups():
    if g.name != sys.argv[1] and sys.argv[1] not in g.modules:
        continue
    m, ts = g.load()
    print(*g.problems)
    for t in ts:
        if pat not in t.name: continue
        if sys.argv[1] != g.name and not t.spec.__module__.endswith(sys.argv[1]): continue
        r = verify(t, m, unroll=K)
        print(f"{t.name:35} {r.status:10} paths={r.paths} n={r.normal} e={r.raising} cut={r.cut} obl={r.discharged}/{r.obligations} {r.wall:.1f}s {r.reason}", flush=True)
        if r.status != "proved" and "-v" in sys.argv:
            print("\n".join(getattr(r, "tb", "").splitlines()[-30:]))
            for o in r.failed[:4]: print("   ", o.name, o.status, o.imprecise, o.detail[:500]); print(o.model[:800] if o.model else "")
