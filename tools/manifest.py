#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
bad = [p for p in PROPS if p not in ids]
assert not bad, f"no property text for {bad}"
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    specs = sorted({t["spec"] for t in p["traces"]}); mods = [m["mod"] for m in p.get("mc", [])]
    checks.append(dict(
        property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique="TLA+ specification; TLC " + (f"model checking of {', '.join(mods)} and " if mods else "") +
                  f"trace validation of recorded executions of the real runtime against {', '.join(specs)}",
        level="model_checking",
        level_note=p.get("note") or (("The design model is checked exhaustively within its constants; t" if mods else "T") +
                   "he implementation is bound by validating, event by event, recorded executions under seeded schedules (not every schedule). "
                   "Trusts the MPI and magistrate stand-ins in shim/ and the event logging in the driver.")))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/build.py " , checks=checks, not_applicable=na,
         notes="No hooks: /repo carries only fix: commits. known_findings.jsonl lists the repaired and the known defects.")
m["setup_cmd"] = "python3 tools/build.py --all"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
