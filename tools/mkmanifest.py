"""Writes /verif/MANIFEST.json from the property modules that exist."""
import ast
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "abstract interpretation of the source with value numbering of tensor index terms",
}
NOTE = ("Sound for the modelled Python/PyTorch operations over real arithmetic: every trace of the source is abstractly "
        "interpreted from the public entry point with symbolic sizes where possible and the obligation compared as a "
        "term. Trusts the library operation models in gcheck/ and, where normal forms differ, identity testing of "
        "terms; constructs outside the models are reported as undecided in the evidence.")
checks, na = [], []
REASONS = {}
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    f = os.path.join(here, "gcheck", "props", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason=REASONS.get(pid, "check under construction")))
        continue
    tree = ast.parse(open(f).read())
    names = {t.id: n.value for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    tech = ast.literal_eval(names["TECHNIQUE"]) if "TECHNIQUE" in names else TECH["default"]
    note = ast.literal_eval(names["NOTE"]) + " " + NOTE if "NOTE" in names else NOTE
    checks.append(dict(
        property=pid, technique=tech, level="other", level_note=note,
        quick_cmd="python3 -m gcheck %s --tier quick" % pid,
        thorough_cmd="python3 -m gcheck %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid))
doc = dict(version=1, setup_cmd="python3 -m compileall -q gcheck", checks=checks, not_applicable=na,
           notes="Nothing of /repo is imported or executed by a check; the analyzer needs only the Python standard "
                 "library. No hooks are needed in /repo.")
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
