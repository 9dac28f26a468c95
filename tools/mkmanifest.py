"""writes MANIFEST.json from properties.jsonl, plan.py and the contracts"""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import plan
from contracts import groups

count = {}
for g in groups():
    _, ts = g.load()
    for t in ts:
        for p in t.props:
            count[p] = count.get(p, 0) + 1
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)["id"]
    n = count.get(p, 0)
    if n:
        level = "proof"
        tech = "contract-based deductive verification of the functions in /repo (own VC generator over their source, z3)"
        note = plan.NOTE.get(p, "") or (
            "Every path of the listed functions is proved to refine its contract for all inputs; callees are used "
            "by contract.")
        note += (" Trusted: the VC generator in /verif/engine, z3, the ANTLR runtime and generated parser; floats and "
                 "library string functions are uninterpreted. A bounded differential run of the real code against "
                 "independent references accompanies it (never counted as proved).")
    else:
        level = "exploration"
        tech = "bounded checking of the real code against an independent reference"
        note = plan.NOTE.get(p, "") or "Bounded stand-in; no contract discharged."
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough",
                       technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo. 'fix:' commits in /repo are listed in known_findings.json."),
          open("MANIFEST.json", "w"), indent=1)
print({p: count.get(p, 0) for p in sorted(plan.BOUNDED)})
