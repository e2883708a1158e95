"""C19: fingerprints are deterministic and tell different values apart."""
import json, logging, os, subprocess, sys, time
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from hamilton.caching import fingerprinting as F
from vlib.core import Part, Violation, require
from vlib import fpvals as V

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated values and single mutations of them; equality of fingerprints against structural equality, also across processes"
NOTE = "Collisions recorded as known findings (primitives by str(), list/tuple/set/mapping kinds, object class, array shape and dtype) are kept out of the generator by tagging containers with their kind."
SERVERS = []


def setup():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for seed in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        p = subprocess.Popen([sys.executable, os.path.join(root, "vlib", "fpserver.py"), json.dumps([x for x in sys.path if x])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd="/")
        SERVERS.append(p)
    for p in SERVERS:
        if p.stdout.readline().strip() != "ready":
            raise RuntimeError("fingerprint server did not start")


def ask(i, specs):
    p = SERVERS[i % len(SERVERS)]
    p.stdin.write(json.dumps(specs) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


@st.composite
def det_case(draw):
    return {"specs": draw(st.lists(V.tree(), min_size=2, max_size=4)), "srv": draw(st.integers(0, 1))}


def check_det(case, ctx):
    specs = case["specs"]
    here = []
    for s in specs:
        v, w = V.mk(s), V.mk(s, True)
        before = V.canon(v)
        require(V.canon(w) == before, "harness: %s", s)
        a, b, c = F.hash_value(v), F.hash_value(w), F.hash_value(v)
        require(V.canon(v) == before, "fingerprinting changed the value %s", s)
        require(isinstance(a, str) and a == b == c, "equal values got fingerprints %s %s %s: %s", a, b, c, before)
        here.append(a)
    there = ask(case["srv"], specs[::-1])[::-1]
    require(here == there, "another process computes %s, this one %s for %s", there, here, [V.canon(V.mk(s)) for s in specs])
    ctx.nontrivial(any(s["t"] in ("dict", "set", "fset", "obj") or s["t"].startswith("p") for t in specs for _, s in V.subs(t)))


@st.composite
def mut_case(draw):
    s = draw(V.tree())
    return {"a": s, "b": draw(V.mutation(s)), "wrap": draw(st.lists(st.sampled_from(["list", "dict", "tuple"]), min_size=4, max_size=12)) if draw(st.integers(0, 3)) == 0 else []}


def wrap(v, kinds):
    for k in kinds:
        v = [v] if k == "list" else (v,) if k == "tuple" else {"k": v}
    return v


def check_mut(case, ctx):
    a, b = V.mk(case["a"]), V.mk(case["b"]["spec"])
    if case["wrap"]:
        a, b = wrap(a, case["wrap"]), wrap(b, case["wrap"])
        ctx.note("deep")
    ca, cb = V.canon(a), V.canon(b)
    fa, fb = F.hash_value(a), F.hash_value(b)
    if ca == cb:
        require(fa == fb, "equal values, different fingerprints: %s", ca)
        return
    if F.UNHASHABLE in (fa, fb):
        ctx.note("unhashable")
        return
    require(fa != fb, "values that differ (%s) share the fingerprint %s:\n  %s\n  %s", case["b"]["what"], fa, ca, cb)
    ctx.note(case["b"]["what"])
    ctx.nontrivial()


@st.composite
def batch_case(draw):
    return {"specs": draw(st.lists(V.tree(max_leaves=6), min_size=3, max_size=25))}


def plain(s):
    """Values that must have a fingerprint (otherwise nothing downstream of them is ever cached)."""
    return all(x["t"] in ("int", "float", "str", "bytes", "bool", "none", "list", "tuple", "dict", "set", "fset", "pddf", "pdser", "pldf", "plser", "nd", "obj") for _, x in V.subs(s)) and depth(s) < 5


def depth(s):
    return max(len(p) for p, _ in V.subs(s))


def check_batch(case, ctx):
    seen = {}
    for s in case["specs"]:
        v = V.mk(s)
        c, f = V.canon(v), F.hash_value(v)
        if f == F.UNHASHABLE:
            require(not plain(s), "no fingerprint for %s", c)
            continue
        require(seen.setdefault(f, c) == c, "fingerprint %s for\n  %s\nand\n  %s", f, seen[f], c)
    require(len(set(seen.values())) == len(seen), "equal values with several fingerprints: %s", seen)
    ctx.nontrivial(len(seen) > 2)


@st.composite
def big_case(draw):
    n = draw(st.sampled_from([300, 1500, 6000, 12000]))
    return {"kind": draw(st.sampled_from(["df", "ser", "nd", "nd2", "list", "str", "bytes", "set", "dict", "pl", "wide", "objnd"])), "n": n, "at": draw(st.integers(0, n - 1)), "by": draw(st.sampled_from([1, -1]))}


def big(kind, n, at=None, by=0):
    a = np.arange(n, dtype="int64") % 1000
    if at is not None:
        a[at] += by
    if kind == "df":
        return pd.DataFrame({"x": np.zeros(n), "y": a})
    if kind == "wide":
        return pd.DataFrame(a.reshape(1, -1)[:, :1500])
    if kind == "ser":
        return pd.Series(a)
    if kind == "nd":
        return a
    if kind == "nd2":
        return a.astype("float32").reshape(-1, 10)
    if kind == "objnd":
        return a[:1500].astype(object)
    if kind == "list":
        return a.tolist()
    if kind == "str":
        return "".join(chr(97 + x % 26) for x in a.tolist())
    if kind == "bytes":
        return bytes([x % 251 for x in a.tolist()])
    if kind == "set":
        return {i * 7 for i in range(n) if i != at}
    if kind == "dict":
        return {"k%d" % i: x for i, x in enumerate(a.tolist())}
    if kind == "pl":
        return V.pl.DataFrame({"x": a})


def check_big(case, ctx):
    k, n, at = case["kind"], case["n"], case["at"]
    if k in ("wide", "objnd"):
        at %= min(n, 1500)
    a, a2, b = big(k, n), big(k, n), big(k, n, at, case["by"])
    require(F.hash_value(a) == F.hash_value(a2), "two equal %s values of size %d have different fingerprints", k, n)
    require(F.hash_value(a) != F.hash_value(b), "%s values of size %d that differ only at position %d share a fingerprint", k, n, at)
    ctx.note(k)
    ctx.nontrivial()


def known_str():
    return F.hash_value(1) == F.hash_value("1") and F.hash_value(True) == F.hash_value("True") and F.hash_value(b"a") == F.hash_value("a")


def known_seq():
    return F.hash_value([1, 2]) == F.hash_value((1, 2)) and F.hash_value({"a": 1}) == F.hash_value(["a", 1]) and F.hash_value([]) == F.hash_value({}) == F.hash_value(set())


def known_obj():
    class A:
        def __init__(self):
            self.x = 1

    class B(A):
        pass
    return F.hash_value(A()) == F.hash_value(B()) == F.hash_value({"x": 1})


def known_nd():
    a = np.zeros(4, dtype="int32")
    return F.hash_value(a) == F.hash_value(a.reshape(2, 2)) == F.hash_value(np.zeros(2, dtype="int64"))


def known_attr():
    from vlib.cachegen import Pt
    return F.hash_value(Pt(complex(1))) == F.hash_value(Pt(complex(2)))


KNOWN = {"skipped-attribute": known_attr, "primitive-str": known_str, "container-kind": known_seq, "object-class": known_obj, "array-shape": known_nd}
PARTS = [
    Part("deterministic", det_case, check_det, 700, 15000, "some mapping, set, object or table is involved", shards=2, tshards=3, setup=setup),
    Part("mutation", mut_case, check_mut, 3000, 80000, "the values differ and both have a fingerprint", shards=3, tshards=4),
    Part("large", big_case, check_big, 120, 2500, "always: one element of a large value differs", shards=1, tshards=2),
    Part("batch", batch_case, check_batch, 500, 12000, "three or more different values", shards=2, tshards=3),
]
