import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = "Decided by executing the real code built from the current tree, in a build with assertions and overflow checks and in an optimised build without; complete within the stated bounds, says nothing beyond them. Trusted: the reference model in /verif/mc and the compiler. Bounds (quick): "
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"],
                           level_note=NOTE + c["bounds"]["quick"] + ". " + c["note"]))
    else:
        na.append(dict(property=i, reason="Model checking applies; the explorer for it is not finished yet."))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
