"""Regenerate DESIGN.md (development helper): head and tail by hand, the tables from the rules, the properties and seeded/."""
import ast, json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(x) for x in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
caught = json.load(open(V + "/dev/caught.json")) if os.path.exists(V + "/dev/caught.json") else {}
out = [open(V + "/dev/design_head.md").read()]
out.append("## 2. Per property: how it is decided\n")
for p in P:
    i = p["id"]
    if i in na:
        continue
    t = ast.parse(open(f"{V}/tools/rules/{i.lower()}.py").read())
    doc = ast.get_docstring(t)
    ass = [ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS"]
    out.append(f"### {i} {p['title']}\n\n{doc.strip()}\n")
    if ass and ass[0]:
        out.append("Assumes: " + "; ".join(ass[0]) + ".\n")
out.append("## 3. Not applicable\n")
for i, r in na.items():
    out.append(f"* **{i}** {[p['title'] for p in P if p['id'] == i][0]}: {r}")
out.append("\n## 4. Planted bugs and what catches them\n\nOwn property's check (and others) that report a violation with the bug applied.\n")
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    c = caught.get(s)
    out.append(f"| {s} | {m['property']} | {' '.join(m['needs'].split())[:160].replace('|', '/')} | {', '.join(c) if c else 'missed (undecided)' if c is not None else '?'} |")
tail = open(V + "/dev/design_tail.md").read()
f = "\n".join("* " + x[len("fixed: "):].strip() for x in open(V + "/known_findings.txt") if x.startswith("fixed:"))
tail = tail.replace("@FINDINGS@", f).replace("@C38@", "See section 3." if "C38" in na else "It is now stated as what the code guarantees: pairing by rank.")
out.append("\n" + tail)
open(V + "/DESIGN.md", "w").write("\n".join(out))
