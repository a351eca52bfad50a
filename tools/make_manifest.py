#!/usr/bin/env python3
"""Writes MANIFEST.json, and the generated section of DESIGN.md, from methods.py, checks.py and properties.jsonl."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from checks import CHECKS
from methods import M, PLANNED
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na, design = [], [], []
for p in props:
    c = p["id"]
    if c in CHECKS:
        tech, gen, oracle, bounds, reach = M[c]
        checks.append({"property": c, "quick_cmd": "python3 check.py %s quick" % c, "thorough_cmd": "python3 check.py %s thorough" % c,
                       "evidence_file": "evidence/%s.json" % c, "technique": tech, "level": "exploration",
                       "level_note": "Generated-input search, not proof. Generated: %s. Oracle: %s. Bounds and assumptions: %s." % (gen, oracle, bounds)})
        design.append("### %s %s\n- technique: %s\n- generated: %s\n- oracle: %s\n- bounds, assumptions: %s\n- reach beyond the tests: %s\n" % (c, p["title"], tech, gen, oracle, bounds, reach))
    else:
        na.append({"property": c, "reason": PLANNED.get(c, "the generated-input check for it is not built yet; nothing is claimed")})
        design.append("### %s %s\nNot claimed: %s\n" % (c, p["title"], na[-1]["reason"]))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check: python3 check.py ID quick|thorough; python3 check.py ID --replay FILE re-runs a saved case. See DESIGN.md."}
hooks = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hooks): m["hooks"] = json.load(open(hooks))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
d = open(V + "/DESIGN.md").read()
a, b = "<!-- generated: tools/make_manifest.py -->\n", "<!-- end of generated -->"
d = d[:d.index(a) + len(a)] + "\n".join(design) + d[d.index(b):]
open(V + "/DESIGN.md", "w").write(d)
print(len(checks), "claimed,", len(na), "not")
