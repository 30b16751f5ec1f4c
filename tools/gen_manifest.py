#!/opt/venv/bin/python
"""Writes MANIFEST.json from the check modules that exist (mc/checks/c??.py)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
PY = "/opt/venv/bin/python"
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    m = importlib.import_module("mc.checks." + i.lower())
    checks.append({"property": i, "quick_cmd": f"{PY} run.py {i} --tier quick",
                   "thorough_cmd": f"{PY} run.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json",
                   "technique": getattr(m, "TECHNIQUE", "bounded exhaustive enumeration of inputs on the real code against an independent reference"),
                   "level": m.LEVEL,
                   "level_note": getattr(m, "NOTE", m.RULE) + " Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + "."})
out = {"version": 1,
       "setup_cmd": f"{PY} tools/setup_check.py",
       "hooks": {"guard": "none", "enable": "no hooks: checks build a scratch copy of /repo's working tree and drive it through its public interfaces and by replacing module attributes in the checking process", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "Every check copies /repo's working tree to a scratch directory, builds it there and removes it; nothing is written in /repo. See DESIGN.md."}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
