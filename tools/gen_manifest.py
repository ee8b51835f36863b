#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("Searches generated inputs, it proves nothing: a violation outside the generated cases is missed. Trusts the oracle in harness/{src}, the "
        "compilers and libm. Seeded by VERIF_SEED; every reported failure is shrunk and replayed three times.")
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    src = os.path.basename(c["units"]("quick")[0][0])
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c.get("technique", "property-based testing: generated component values, operand kinds and types against an independent scalar oracle, with shrinking"),
                       level="exploration", level_note=NOTE.format(src=src) + (" " + c["note"] if c.get("note") else "")))
m = dict(version=1, setup_cmd="python3 --version && clang++ --version && g++ --version", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in CHECKS],
         notes="Each check compiles its own harness against /repo/include in /verif/.build (ignored by git) and removes it. Known and fixed defects: known_findings.json.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
