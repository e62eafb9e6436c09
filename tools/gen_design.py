"""Compose DESIGN.md from tools/design/* , the check modules, known_findings.jsonl and seeded/."""
import json, os, ast, glob, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(here, "tools", "design")
sys.path.insert(0, D)
from notes import NOTES
rd = lambda f: open(os.path.join(D, f)).read()
out = [rd("head.md"), "\n## 2. Properties: alphabet, oracle, bounds, cost\n"]
cost = json.load(open(os.path.join(D, "cost.json"))) if os.path.exists(os.path.join(D, "cost.json")) else {}
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    t = ast.parse(open(os.path.join(here, "mc", pid.lower() + ".py")).read())
    c = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    g = lambda k: ast.literal_eval(c[k])
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"* Operations enumerated: {g('ALPHABET')}\n* Oracle: {g('ORACLE')}\n* Quick bound: {g('BOUND')['quick']}\n* Thorough bound: {g('BOUND')['thorough']}")
    if pid in cost:
        out.append(f"* Cost: {cost[pid]}")
    out.append(f"\n{NOTES.get(pid, '')}\n")
fs = []
for l in open(os.path.join(here, "known_findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"):
        _, prop, com, *rest = l.split(" ", 3)
        fs.append(f"* {prop.split('=')[1]} (fixed in {com}): {rest[0]}")
    elif l:
        d = json.loads(l)
        fs.append(f"* {d['property']} (known finding `{d['key']}`): {d['what']}")
caught = json.load(open(os.path.join(D, "caught.json"))) if os.path.exists(os.path.join(D, "caught.json")) else {}
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(i, [])) or '-'} |")
out.append(rd("tail.md").replace("@FINDINGS@", "\n".join(fs)).replace("@SEEDED@", "\n".join(rows)).replace("@PLANTNOTES@", rd("plantnotes.md")))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
