"""Regenerate MANIFEST.json from properties.jsonl and the rule modules (development helper)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C35": "numeric correctness of the windows (interpolation between samples, window lengths, shifts) is arithmetic over "
        "arbitrary float series computed with numpy/pandas vector operations; no static abstraction in reach bounds it "
        "(the structural part, which window is chosen and how limits compare, is C18)",
 "C37": "progress depends on run-time resource contention, levels and user-supplied expressions; the set of feasible "
        "models is not statically bounded",
 "C38": "the pairing is computed by data-dependent sorting and grouping of pandas tables whose row order is run-time "
        "data; no sound static argument in reach relates rows to executions",
}
PENDING = "check not built yet"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    f = os.path.join(V, "tools", "rules", pid.lower() + ".py")
    if pid in NA or not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(pid, PENDING)})
        continue
    t = ast.parse(open(f).read())
    doc = ast.get_docstring(t)
    tech = doc.split("\n\n")[0].split("\n")[0].rstrip(".")
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 -B tools/run.py {pid} quick",
        "thorough_cmd": f"python3 -B tools/run.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "static analysis: " + tech[0].lower() + tech[1:],
        "level": "other",
        "level_note": " ".join(doc.split()) + "  Decided on effect graphs built from the source on every run by the "
        "abstract interpreter in tools/; sound up to the modelling assumptions listed in DESIGN.md (simpy, pandas and "
        "networkx semantics as documented, library code reached only through its public classes).",
    })
m = {"version": 1,
     "setup_cmd": "python3 -B -c \"import sys; sys.path.insert(0, 'tools'); import lib\"",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static: no code of /repo is imported or executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
