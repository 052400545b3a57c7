#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from contracts/*.py headers and properties.jsonl."""
import ast, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
na = {}
nap = os.path.join(root, "tools", "not_applicable.json")
if os.path.exists(nap):
    na = json.load(open(nap))
checks, nas = [], []
for p in props:
    i = p["id"]
    f = os.path.join(root, "contracts", i + ".py")
    if i in na or not os.path.exists(f):
        nas.append({"property": i, "reason": na.get(i, "machinery for this property is not built yet")})
        continue
    src = open(f).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    note = " ".join(next(ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and n.targets[0].id == "LEVEL_NOTE").split())
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3-vt run.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3-vt run.py {i}",
        "technique": "contract-based deductive verification (own VC generator over the Python AST of /repo, z3/cvc5) with replay on the real code",
        "level": level, "level_note": note, "evidence_file": f"evidence/{i}.json"})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5' && test -x /opt/venv/bin/python",
     "checks": checks, "not_applicable": nas,
     "notes": "Contracts in contracts/, verifier in vc/, executable contracts and replay in concrete/. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(nas), "not")
