"""Writes MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "cases": "TLC evaluates the TLA+ specification on every recorded case (seeded generation) and judges what the real code did; the exhaustive TLC models of the same specification are replayed run by run. Holds for what was explored: bounded sizes, seeded samples. Trusts TLC, Python's correctly rounded float reading, and the harness that records.",
}
SKIP = {}
for a in sys.argv[1:]:
    pid, _, why = a.partition("=")
    SKIP[pid] = why
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
na = {}
na.update(SKIP)
CLI = {"C18", "C19", "C25"}
checks = []
for p in props:
    i = p["id"]
    if i in na:
        continue
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
        evidence_file=f"evidence/{i}.json",
        technique="TLA+ model of the command-line run explored by TLC; its behaviours replayed on the real binary" if i in CLI else
                  "TLA+ specification checked with TLC: exhaustive models replayed on the real code, recorded runs of the real code judged by the specification",
        level="model_checking", level_note=NOTE["cases"]))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the public API is enough", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
         notes="check.py sees VERIF_TIER (quick, thorough) and VERIF_SEED; check.py --replay FILE runs a reported violation again.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
