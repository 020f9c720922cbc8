#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.txt from properties.jsonl, the check modules and tools/fixes.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tech = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/pbt/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "python3 pbt/run.py %s" % i, "thorough_cmd": "python3 pbt/run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech[i][0], "level": "exploration", "level_note": tech[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
with open(V + "/known_findings.txt", "w") as f:
    f.write("# Genuine defects of QLVL/nephosem found by the checks. 'fixed:' lines suppress nothing.\n")
    for pid, what in json.load(open(V + "/tools/findings.json")):
        f.write("finding: property=%s %s\n" % (pid, what))
    for c, pid, what in json.load(open(V + "/tools/fixes.json")):
        f.write("fixed: property=%s %s %s\n" % (pid, c, what))
