"""Append a repaired defect to known_findings.json:  addfixed.py P01 <commit> <what failed>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
for prop in sys.argv[1].split(","):
    d["fixed"].append(f"fixed: property={prop} {sys.argv[2]} {sys.argv[3]}")
json.dump(d, open(p, "w"), indent=1)
