"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(H, "pbt/props/%s.py" % pid.lower())
    if not os.path.exists(f):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    tech = "property-based testing (Hypothesis), generated cases against a reference model"
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "TECHNIQUE":
            tech = ast.literal_eval(node.value)
    checks.append(dict(
        property=pid,
        quick_cmd="python3 run_check.py %s" % pid,
        thorough_cmd="VERIF_TIER=thorough python3 run_check.py %s" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=tech,
        level="exploration",
        level_note="Held on every generated case of the run (counts, labels and samples in the evidence file); "
                   "no claim beyond them. Trusts the oracle in pbt/props/%s.py and pbt/ref.py, NumPy/SciPy/"
                   "Matplotlib and Hypothesis." % pid.lower()))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="All checks: 8 workers, count-bounded, seeded from VERIF_SEED. Replay: python3 run_check.py --replay FILE. "
               "No hooks in /repo.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
