#!/usr/bin/env python3
"""Write MANIFEST.json from tools/checks.json (run by hand after editing checks.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(V, "tools", "checks.json")))
checks = []
for k, p in sorted(c["properties"].items()):
    cmd = "python3 tools/check.py " + k
    e = {"property": k, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % k, "level": p["level"],
         "technique": p.get("technique") or ("Verus contracts on functions extracted from /repo each run; bounded replay driver" if p["proof"]
                      else "bounded evaluation of the public API against a definitional oracle (stand-in, no contract discharged yet)"),
         "level_note": p.get("level_note") or ("every obligation of the slice is discharged by Verus/Z3" if p["proof"]
                       else "bounded stand-in, not a proof")}
    if p.get("theorems"):
        e["theorems"] = p["theorems"]
    checks.append(e)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: /repo is read as it is; contracts live in /verif/contracts", "source_commits": []},
     "checks": checks, "not_applicable": c["not_applicable"], "notes": c.get("notes", "")}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
