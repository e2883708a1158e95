"""Generated cached dataflows: sources with editable literals, a value domain free of the documented fingerprint collisions, and history operations."""
import hashlib, threading, textwrap
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import dags


class Calls:
    def __init__(self):
        self.lock = threading.Lock()
        self.names = []
        self.on = True

    def add(self, name):
        if self.on:
            with self.lock:
                self.names.append(name)


CALLS = Calls()


class Pt:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return "Pt(%r)" % (self.x,)


class Boom(Exception):
    pass


def canon(v):
    """Canonical text of a value, type and structure included."""
    if isinstance(v, pd.DataFrame):
        return "DF(%s|%s|%s)" % ([(repr(c), str(t)) for c, t in v.dtypes.items()], list(v.index), [[canon(x) for x in row] for row in v.itertuples(index=False, name=None)])
    if isinstance(v, pd.Series):
        return "SER(%r|%s|%s|%s)" % (v.name, v.dtype, list(v.index), [canon(x) for x in v.tolist()])
    if isinstance(v, np.ndarray):
        return "ND(%s|%s|%s)" % (v.dtype, v.shape, v.tolist())
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(canon(x) for x in v) + ")"
    if isinstance(v, dict):
        return "dict(" + ",".join(sorted(canon(a) + ":" + canon(b) for a, b in v.items())) + ")"
    if isinstance(v, (set, frozenset)):
        return type(v).__name__ + "(" + ",".join(sorted(canon(x) for x in v)) + ")"
    if isinstance(v, Pt):
        return "Pt(" + canon(v.x) + ")"
    return type(v).__name__ + ":" + repr(v)


KINDS = ["mix", "mix", "mix", "small", "lst", "dct", "maybe", "first", "setk", "df", "ser", "nd", "pt", "cplx", "byt", "flt"]


def op(name, kind, k, args):
    """The value of a generated function: depends on everything given, and on nothing else."""
    CALLS.add(name)
    return value_of(kind, k, args)


def value_of(kind, k, args):
    d = int.from_bytes(hashlib.sha256(("%s|%r|%s" % (kind, k, [canon(a) for a in args])).encode()).digest()[:5], "big")
    if kind == "mix":
        return "s%08x" % (d % 2 ** 32)
    if kind == "small":
        return d % 2
    if kind == "lst":
        return ["lst", k] + list(args)
    if kind == "dct":
        return {"k": k, "a": ["lst"] + list(args)}
    if kind == "maybe":
        return None if d % 2 else "s%d" % (d % 7)
    if kind == "first":
        return args[0] if args else "s%s" % (k,)
    if kind == "setk":
        return {"set", "s%d" % (d % 5)}
    if kind == "df":
        return pd.DataFrame({"c%d" % (d % 2): [1, 2, d % 3], "z": ["u", "v", "s%d" % (d % 2)]})
    if kind == "ser":
        return pd.Series([0.5, float(d % 3), 2.5], name="n%d" % (d % 2))
    if kind == "nd":
        return np.array([1, 2, d % 3], dtype="int64")
    if kind == "pt":
        return Pt(d % 3)
    if kind == "cplx":
        return complex(d % 3, 1)
    if kind == "byt":
        return b"b%d" % (d % 3)
    if kind == "flt":
        return (d % 5) + 0.25
    if kind == "boom":
        if d % 3 == 0:
            raise Boom("boom")
        return "s%d" % (d % 11)
    if kind == "json":
        return {"k": "s%d" % (d % 5), "n": d % 3, "l": ["lst", d % 2]}
    if kind == "items":
        return [["lst", k, j] + list(args) for j in range(d % 4)]
    raise ValueError(kind)


HEADER = """from typing import *
import pandas as pd
from hamilton.function_modifiers import *
from hamilton.htypes import Parallelizable, Collect
from vlib.cachegen import op as _op
"""

val = st.one_of(
    st.integers(0, 3), st.sampled_from(["s0", "s1", "s2"]), st.none(), st.booleans(), st.sampled_from([0.5, 1.5]),
    st.lists(st.integers(0, 2), max_size=2).map(lambda l: ["lst"] + l), st.sampled_from([{"$": "df", "v": 0}, {"$": "df", "v": 1}, {"$": "nd", "v": 1}, {"$": "nd", "v": 2}, {"$": "pt", "v": 1}, {"$": "cplx", "v": 1}]),
    st.integers(0, 2).map(lambda i: {"k": i}))


def dec(v):
    """A fresh Python value for a JSON value."""
    if isinstance(v, dict) and "$" in v:
        k, i = v["$"], v["v"]
        if k == "df":
            return pd.DataFrame({"c%d" % i: [1, 2]})
        if k == "nd":
            return np.array([i, 5], dtype="int64")
        if k == "pt":
            return Pt(i)
        if k == "cplx":
            return complex(i, 2)
        if k == "tuple":
            return tuple(dec(x) for x in v["v"])
        raise ValueError(k)
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        return {a: dec(b) for a, b in v.items()}
    return v


BEH = ["default", "recompute", "disable", "ignore"]


@st.composite
def project(draw, decos=("plain",), max_fns=6, kinds=None, behaviors=False, fmts=False):
    """Functions n0.. over inputs i0..i2 (i2 is only ever an optional parameter)."""
    kinds = kinds or KINDS
    n = draw(st.integers(1, max_fns))
    fns, outs = [], []
    for j in range(n):
        name = "n%d" % j
        avail = ["i0", "i1"] + outs[-5:]
        params = draw(st.lists(st.sampled_from(avail), max_size=3, unique=True))
        f = dict(name=name, params=params, kind=draw(st.sampled_from(kinds)), k=draw(st.integers(0, 2)), deco=draw(st.sampled_from(decos)), lit=draw(st.integers(0, 2)), opt=None, cfg=draw(st.integers(0, 1)))
        if draw(st.integers(0, 3)) == 0:
            f["opt"] = dict(name="i2", default=draw(st.sampled_from([0, 1, None, "s0"])))
        if behaviors and draw(st.integers(0, 2)) == 0:
            f["behavior"] = draw(st.sampled_from(BEH))
        if fmts and f["deco"] == "plain" and draw(st.integers(0, 2)) == 0:
            f["fmt"] = draw(st.sampled_from(["json", "pickle"]))
            if f["fmt"] == "json":
                f["kind"] = "json"
        if f["deco"] == "fields":
            f["kind"] = "mix"
        fns.append(f)
        outs += outputs(f)
    return dict(fns=fns)


def outputs(f):
    n = f["name"]
    return {"param": [n + "_p0", n + "_p1"], "fields": [n, n + "_a", n + "_b"]}.get(f["deco"], [n])


def all_outputs(proj):
    return [o for f in proj["fns"] for o in outputs(f)]


def sig(f, lead=()):
    ps = list(lead) + ["%s: Any" % p for p in f["params"]]
    if f["opt"]:
        ps.append("%s: Any = %r" % (f["opt"]["name"], f["opt"]["default"]))
    return ", ".join(ps)


def argl(f, lead=()):
    return "[" + ", ".join(list(lead) + f["params"] + ([f["opt"]["name"]] if f["opt"] else [])) + "]"


def fn_src(f):
    n, k, kind = f["name"], f["k"], f["kind"]
    pre = ""
    if f.get("behavior") or f.get("fmt"):
        pre = "@cache(%s)\n" % ", ".join("%s=%r" % (a, f[b]) for a, b in (("behavior", "behavior"), ("format", "fmt")) if f.get(b))
    ann = {"json": "dict", "pickle": "Any"}.get(f.get("fmt"), "Any")
    doc = ("    '''%s'''\n" % f["doc"] if f.get("doc") else "") + ("    # %s\n" % f["comment"] if f.get("comment") else "")
    body = doc + "    return _op(%r, %r, %r, %s)\n"
    dc = f["deco"]
    if dc == "plain":
        return pre + "def %s(%s) -> %s:\n" % (n, sig(f), ann) + body % (n, kind, k, argl(f))
    if dc == "param" and f["cfg"]:  # the parameter that is bound has a default
        g = sig(f)
        return pre + "@parameterize(%s_p0=dict(lit=value(%d)), %s_p1=dict(lit=source('i0')))\ndef %s(%s) -> Any:\n" % (n, f["lit"], n, n, (g + ", " if g else "") + "lit: Any = 4") + body % (n, kind, k, argl(f, ["lit"]))
    if dc == "param":
        return pre + "@parameterize(%s_p0=dict(lit=value(%d)), %s_p1=dict(lit=value(%d)))\ndef %s(%s) -> Any:\n" % (n, f["lit"], n, f["lit"] + 5, n, sig(f, ["lit: int"])) + body % (n, kind, k, argl(f, ["lit"]))
    if dc == "fields":
        return pre + "@extract_fields({'%s_a': Any, '%s_b': Any})\ndef %s(%s) -> dict:\n" % (n, n, n, sig(f)) + doc + "    v = _op(%r, %r, %r, %s)\n    return {'%s_a': v, '%s_b': ['lst', v]}\n" % (n, kind, k, argl(f), n, n)
    if dc == "when":
        return "".join(pre + "@config.when(mode=%r)\ndef %s__%s(%s) -> Any:\n" % (m, n, m, sig(f)) + body % (n, kind, [k, m] if f["cfg"] else k, argl(f)) for m in ("x", "y"))
    if dc == "cfgin":  # reads a configuration value as a parameter
        return pre + "def %s(%s) -> Any:\n" % (n, sig(f, ["knob: Any"])) + body % (n, kind, k, argl(f, ["knob"]))
    if dc == "sub":
        p = f["params"][0] if f["params"] else "i0"
        return "def in%s(u%s: Any, w%s: Any) -> Any:\n" % (n, n, n) + "    return _op(%r, %r, %r, [u%s, w%s])\n" % ("in" + n, kind, k, n, n) + \
            "@subdag(in%s, inputs={'u%s': source(%r), 'w%s': value(%d)}, config={'c%s': %d})\ndef %s(in%s: Any) -> Any:\n" % (n, n, p, n, f["lit"], n, k, n, n) + doc + "    return _op(%r, %r, %r, [in%s])\n" % (n, kind, 7, n)
    if dc == "pipe":
        return "def _st%s(x: Any, lit: int) -> Any:\n    return _op(%r, 'mix', 1, [x, lit])\n" % (n, "st" + n) + \
            "@%s(step(_st%s, lit=value(%d)))\ndef %s(%s) -> Any:\n" % ("pipe_output" if not f["params"] or f["cfg"] else "pipe_input", n, f["lit"], n, sig(f)) + body % (n, kind, k, argl(f))
    raise ValueError(dc)


def proj_src(proj):
    return "\n".join(fn_src(f) for f in proj["fns"]) + "\n"


def module(proj, name=None):
    return dags.make_module(proj_src(proj), header=HEADER, name=name)
