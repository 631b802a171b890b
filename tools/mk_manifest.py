#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import importlib.util, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "mc"))
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "mc", "props", p.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p, reason="its check is not built yet"))
        continue
    spec = importlib.util.spec_from_file_location(p, f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    checks.append(dict(property=p, quick_cmd="python3 mc/run.py %s --tier quick" % p,
                       thorough_cmd="python3 mc/run.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=m.TECHNIQUE, level=m.LEVEL,
                       level_note="Exhaustive within: %s. Assumes: %s" % (m.BOUNDS["quick"], "; ".join(m.ASSUMPTIONS) or "nothing beyond the common base (DESIGN.md)")))
json.dump(dict(version=1, setup_cmd="python3 mc/setup.py", checks=checks, not_applicable=na,
               notes="Every check runs the real code of /repo's working tree in fresh processes; pure Python, nothing to build. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
