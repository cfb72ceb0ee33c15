#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of built checks (lib/p_*.py each define NOTE)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TODO = json.load(open(os.path.join(V, "tools", "not_claimed.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", "p_%s.py" % i.lower())):
        m = importlib.import_module("p_" + i.lower())
        if getattr(m, "NOTE", None):
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "technique": m.TECHNIQUE, "level": "model_checking", "level_note": m.NOTE})
            continue
    na.append({"property": i, "reason": TODO.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "JPP_VERIF", "enable": "-DJPP_VERIF (no hook is needed so far: harnesses of /verif compile /repo's sources as they are)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, harnesses in harness/, one driver per property in lib/p_<id>.py; see DESIGN.md"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", len(na), "not claimed:", " ".join(x["property"] for x in na))
