"""Maintenance: add entries to known_findings.json:  kf.py known <prop> <key> <what> | kf.py fixed <prop> <commit> <what>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
kind, prop, a, what = sys.argv[1:5]
if kind == "known":
    k["findings"] = [f for f in k["findings"] if (f["property"], f["key"]) != (prop, a)] + [dict(property=prop, key=a, status="known", what=what)]
else:
    line = "fixed: property=%s %s %s" % (prop, a, what)
    k["fixed"] = [f for f in k["fixed"] if f != line] + [line]
json.dump(k, open(p, "w"), indent=1)
