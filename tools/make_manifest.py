"""Writes /verif/MANIFEST.json from the checks that exist."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    fs = glob.glob(f"{V}/checks/{pid.lower()}_*.py")
    if not fs:
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    tree = ast.parse(open(fs[0]).read())
    c = {}
    for n in tree.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    try: c[t.id] = ast.literal_eval(n.value)
                    except ValueError: pass
                elif isinstance(t, ast.Tuple):
                    for a, b in zip(t.elts, ast.literal_eval(n.value)): c[a.id] = b
    note = "Holds on every execution observed: " + c["RULE"] + "."
    if c.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(c["ASSUMPTIONS"]) + "."
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} quick", "thorough_cmd": f"./check.sh {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": c.get("TECHNIQUE", "runtime monitoring: reference-model oracle over generated workloads"),
                   "level": c["LEVEL"], "level_note": note})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import recap.types'", "checks": checks, "not_applicable": na,
           "notes": "All checks import recap from /repo's working tree at run time; nothing needs to be built and no hooks are committed in /repo."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])
