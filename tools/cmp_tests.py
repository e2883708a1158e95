import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x, list): return set(map(str, x))
    for k in ("passed", "stable", "tests", "pass"):
        if k in x: return set(map(str, x[k]))
    raise SystemExit(list(x)[:10])
miss = names(b) - names(r)
print(len(names(b)), "baseline;", len(miss), "missing"); print("\n".join(sorted(miss)[:20]))
