#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = {}
exec(open(H + "/tools/notes.py").read()) if os.path.exists(H + "/tools/notes.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if not (os.path.exists(H + "/props/%s.cpp" % i) or os.path.exists(H + "/props/%s.py" % i)):
        na.append({"property": i, "reason": "harness not written yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "property-based testing: structured random generation (choice-sequence engine with shrinking and replay) under ASan+UBSan" + ("; " + NOTE[i][0] if i in NOTE else ""),
                   "level": "exploration",
                   "level_note": (NOTE[i][1] + " " if i in NOTE else "") + "Sampled, not exhaustive: no counterexample among the generated cases within the stated numeric tolerances; trusts the independent Eigen reference model in harness/gen.hpp and the compiler."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources as they are (ASan+UBSan). fix: commits and known findings are in known_findings.json."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
