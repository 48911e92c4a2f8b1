"""Development aid: fills DESIGN.md from lib/DESIGN.tmpl.md, MANIFEST.json, known_findings.jsonl and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/lib/DESIGN.tmpl.md").read()
m = json.load(open(V + "/MANIFEST.json"))
na = "\n".join(f"* **{x.get('property') or x.get('id')}**: {x['reason']}" for x in m["not_applicable"])
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
bugs = ""
for d in sorted(os.listdir(V + "/seeded")):
    j = json.load(open(f"{V}/seeded/{d}/meta.json"))
    bugs += f"| {d} | {j['what_it_breaks']} (needs {j['needs']}) | {j['property']} |\n"
import glob
CONFIRMED = {"p05-typedef-signed-char", "p09-caseless-order", "p11-save-warning", "p16-negative-condition", "p01-predecrement-value", "p02-cast-of-product", "p04-repeated-step", "p06-enum-zero"}
have = set(os.listdir(V + "/seeded"))
for f in sorted(glob.glob(V + "/lib/bugs/b*.py")):
    g = {}
    exec(open(f).read(), g)
    for b in g["B"]:
        if b["id"] in CONFIRMED - have:
            have.add(b["id"])
            bugs += f"| {b['id']} (as `lib/{os.path.relpath(f, V + '/lib')}`, written out by `lib/mkbug.py`) | {b['breaks']} (needs {b['needs']}) | {b['property']} |\n"
parts = {"NA": na, "NFIX": str(sum(k["status"] == "fixed" for k in kf)), "BUGS": bugs.rstrip()}
for f in ("MORE", "PROPS"):
    p = f"{V}/lib/design_{f.lower()}.md"
    parts[f] = open(p).read().rstrip() if os.path.exists(p) else ""
for k, x in parts.items():
    t = t.replace("@" + k + "@", x)
open(V + "/DESIGN.md", "w").write(t)
