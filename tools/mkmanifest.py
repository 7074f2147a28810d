"""Rewrite MANIFEST.json from the checks present (python3 tools/mkmanifest.py)."""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.isfile(os.path.join(VERIF, "checks", pid.lower() + ".py")):
        m = importlib.import_module("checks." + pid.lower())
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./run {pid} --tier quick",
                "thorough_cmd": f"./run {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": getattr(m, "TECHNIQUE", "runtime monitor with an independent oracle"),
                "level": "exploration",
                "level_note": getattr(m, "LEVEL_NOTE", "; ".join(m.ASSUMPTIONS)),
            }
        )
    else:
        na.append({"property": pid, "reason": "check still being built"})
json.dump(
    {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sympy, mpmath; print(sympy.__version__)'",
        "checks": checks,
        "hooks": {
            "guard": "none",
            "enable": "no hooks in /repo: the monitors wrap public constructors at run time from /verif",
            "source_commits": [],
        },
        "not_applicable": na,
        "notes": "See DESIGN.md. Every check runs /repo's working tree (PYTHONPATH) in worker "
        "processes with private caches; nothing is built outside a scratch folder.",
    },
    open(os.path.join(VERIF, "MANIFEST.json"), "w"),
    indent=1,
)
