import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import config as C
checks = []
for i in C.IDS:
    proved = bool(C.PROOF.get(i))
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                       evidence_file=f"evidence/{i}.json",
                       technique=("deductive verification: SMT-discharged contracts on the extracted source (pyvc), bounded run-time contracts for the rest"
                                  if proved else "run-time contract checking (bounded stand-in)"),
                       level=C.LEVEL[i], level_note=C.EXPLAIN[i]))
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=[],
         notes="no hooks: /repo carries only fix: commits; see DESIGN.md and known_findings.json")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
