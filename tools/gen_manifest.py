"""Writes MANIFEST.json from the checks present in checks/ (technique and note are read from each file's TECH/NOTE literals)."""
import ast, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
DEFNOTE = ("Bounded random search: the property held on every generated case of this run (counts in the evidence file); it is not a proof. "
           "Trusts the generator's coverage, the reference model in the check, and CPython. ")
for p in props:
    f = os.path.join(here, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
        continue
    lits = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECH", "NOTE"):
            lits[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python run.py %s quick" % p["id"],
                       thorough_cmd="/opt/venv/bin/python run.py %s thorough" % p["id"],
                       technique=lits.get("TECH", "property-based testing (Hypothesis): generated dataflows against a reference evaluator"),
                       level=lits["LEVEL"], level_note=DEFNOTE + lits.get("NOTE", "")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
         notes="No hooks: all observation is through generated user functions, adapters and public API. Checks import hamilton from /repo's working tree; no build step is needed for pure Python.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
