#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = f"{ROOT}/checks/{pid.lower()}.py"
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    tree = ast.parse(open(path).read())
    doc = (ast.get_docstring(tree) or "").split("\n")[0]
    parts = [tree]
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.module and n.module.split(".")[0] == "checks":
            for name in [n.module.split(".")[-1]] + [a.name for a in n.names]:
                q = f"{ROOT}/checks/{name}.py"
                if os.path.exists(q) and not (name[0] == "c" and name[1:].isdigit()):
                    parts.append(ast.parse(open(q).read()))
    mods = sorted({n.args[0].value for t in parts for n in ast.walk(t)
                   if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "tlc"
                   and n.args and isinstance(n.args[0], ast.Constant)})
    mods = ", ".join(f"spec/{m}.tla" for m in mods)
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": f"TLA+ specification ({mods}) model-checked with TLC; every behaviour TLC emits is replayed "
                     f"through the public API of the working tree and compared with the specification ({doc})",
        "level": "model_checking",
        "level_note": "TLC checks the listed invariants exhaustively within the stated bounds plus seeded random "
                      "instances; the implementation is bound to the model by replaying every emitted behaviour, "
                      "so conformance is established for those behaviours, not proved for all inputs.",
    })
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks: the public API exposes the abstract state", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Technique family: explicit TLA+ specification checked with TLC, bound to the code by conformance replay. "
              "VERIF_SEED seeds all random scenarios; VERIF_TIER=thorough enlarges the bounds. See DESIGN.md."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
