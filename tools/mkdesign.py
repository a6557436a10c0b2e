"""Writes /verif/DESIGN.md from design/, properties.jsonl, the property modules and the planted bugs."""
import ast
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(here, *p)).read()  # noqa: E731
res = {}
if os.path.exists(os.path.join(here, "design", "results.json")):
    res = json.loads(rd("design", "results.json"))
out = [rd("design", "head.md"), "\n## The properties and how each is decided\n"]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    f = "gcheck/props/%s.py" % p["id"].lower()
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if not os.path.exists(os.path.join(here, f)):
        out.append("Not claimed yet.\n")
        continue
    v = {}
    for n in ast.parse(rd(f)).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append("*Statement.* %s\n" % p["statement"])
    out.append("*Decided by* `%s`.  %s\n" % (f, " ".join(v["EXPLANATION"].split())))
    out.append("*Rule.* %s.\n" % v["RULE"].rstrip("."))
    b = v.get("NOTE", "") + " " + " ".join("Assumed: " + a for a in v.get("ASSUMPTIONS", []))
    out.append("*Bounds.* %s\n" % (b.strip() or "Sizes are symbolic wherever the operations used are modelled symbolically; "
                                   "ranks and options are enumerated."))
    c = res.get("cost", {}).get(p["id"])
    if c:
        out.append("*Cost.* %s\n" % c)
    out.append("*Why tests do not reach it.* %s\n" % p["why_tests_cant"])
out.append("## Planted bugs\n\nEach was confirmed in a scratch copy (builds, stable tests pass, its demonstration fails with it and "
           "passes without it).  The last column names the checks that report it.\n")
out.append("| bug | property | needs | what it breaks | reported by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], ", ".join(res.get("bugs", {}).get(n, ["?"]))))
out.append("")
for x in ("mutants.md", "refactorings.md"):
    if os.path.exists(os.path.join(here, "design", x)):
        out.append(rd("design", x))
out.append(rd("design", "tail.md"))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
