"""Regenerate MANIFEST.json from properties.jsonl and the check modules present in mc/."""
import json, os, ast
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    f = os.path.join(here, "mc", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    t = ast.parse(open(f).read())
    c = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    bound = ast.literal_eval(c["BOUND"])
    oracle = ast.literal_eval(c["ORACLE"])
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid} --tier quick",
        "thorough_cmd": f"python3 run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "explicit-state bounded exhaustive exploration of the real code against a reference model",
        "level": "model_checking",
        "level_note": f"Exhaustive within the bound, on the real library through its public API. Bound (quick): {bound['quick']}. "
                      f"Oracle: {oracle}. Nothing is claimed outside the bound; floating point comparisons use relative tolerances stated in the module.",
    })
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py mc/core.py && echo ok", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
