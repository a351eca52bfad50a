#!/usr/bin/env python3
"""record_fixed.py COMMIT=PROPERTY... : append "fixed" entries for fix commits of /repo"""
import subprocess, json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for a in sys.argv[1:]:
    h, c = a.split("=")
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", h]).decode().strip()
    assert s.startswith("fix:")
    with open(V + "/known_findings.jsonl", "a") as f:
        f.write(json.dumps({"status": "fixed", "property": c, "commit": h, "what": s[5:], "text": "fixed: property=%s %s %s" % (c, h, s[5:])}) + "\n")
