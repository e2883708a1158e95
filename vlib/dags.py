"""Generated dataflows: JSON-able specs, conversion to real modules, and an independent reference evaluator."""
import hashlib, itertools, linecache, sys, threading, types
from hypothesis import strategies as st


class Obj:
    """An opaque value with identity."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "Obj(%r)" % (self.k,)


class Prickly:
    """A value that, like a data frame, has no truth value, cannot be hashed and has no usable equality."""
    __hash__ = None

    def __init__(self, k):
        self.k = k

    def __bool__(self):
        raise ValueError("the truth value of this object is ambiguous")

    def __eq__(self, o):
        raise ValueError("equality is ambiguous")

    def __ne__(self, o):
        raise ValueError("equality is ambiguous")

    def __repr__(self):
        return "Prickly(%r)" % (self.k,)


QUIET = threading.local()  # set while the harness itself prints values


class Grumpy:
    """A value that cannot be printed (say a detached database row)."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        if getattr(QUIET, "on", 0):
            return "Grumpy(%r)" % (self.k,)
        raise RuntimeError("this value cannot be printed")


_POOL = {}


def decode(v):
    """JSON value -> Python value ({"$": kind, "v": ..} are special; the same token decodes to the same object)."""
    if isinstance(v, dict) and "$" in v:
        k = v["$"]
        if k == "obj":
            return _POOL.setdefault(("o", v["v"]), Obj(v["v"]))
        if k == "prickly":
            return _POOL.setdefault(("p", v["v"]), Prickly(v["v"]))
        if k == "grumpy":
            return _POOL.setdefault(("g", v["v"]), Grumpy(v["v"]))
        if k == "tuple":
            return tuple(decode(x) for x in v["v"])
        if k == "set":
            return set(decode(x) for x in v["v"])
        if k == "bytes":
            return v["v"].encode()
        if k == "float":
            return float(v["v"])
        raise ValueError(k)
    if isinstance(v, list):
        return [decode(x) for x in v]
    if isinstance(v, dict):
        return {a: decode(b) for a, b in v.items()}
    return v


def same(a, b):
    """Strict structural sameness (types included; opaque objects by identity)."""
    if isinstance(a, (Obj, Prickly, Grumpy)) or isinstance(b, (Obj, Prickly, Grumpy)):
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def qrepr(x):
    QUIET.on = getattr(QUIET, "on", 0) + 1
    try:
        return repr(x)
    finally:
        QUIET.on -= 1


class Recorder:
    def __init__(self):
        self.lock = threading.Lock()
        self.reset()

    def reset(self):
        self.events = []  # ("s"|"e", name)
        self.calls = []  # (name, repr(args))
        self.fail = {}   # name -> exception instance to raise
        self.extra = None

    def call(self, name, ret, mode, kw):
        with self.lock:
            self.events.append(("s", name))
            self.calls.append((name, qrepr(sorted(kw.items(), key=lambda t: t[0]))))
        if self.extra is not None:
            self.extra(name, kw)
        e = self.fail.get(name)
        if e is not None:
            raise e
        v = node_value(name, ret, mode, kw)
        with self.lock:
            self.events.append(("e", name))
        return v

    def names(self):
        return [c[0] for c in self.calls]


REC = Recorder()


def digest(name, kw):
    return int.from_bytes(hashlib.sha256((name + "|" + qrepr(sorted(kw.items(), key=lambda t: t[0]))).encode()).digest()[:5], "big")


def node_value(name, ret, mode, kw):
    d = digest(name, kw)
    falsy = mode == "falsy"
    if ret == "int":
        return 0 if falsy else d
    if ret == "str":
        return "" if falsy else "s%x" % d
    if ret == "float":
        return 0.0 if falsy else d / 7.0
    if ret == "bool":
        return False if falsy else bool(d & 1)
    if ret == "list":
        return [] if falsy else [d, "x%x" % (d % 97), None]
    if ret == "dict":
        return {} if falsy else {"k": d, "z": [d % 5]}
    if ret == "tuple":
        return () if falsy else (d, "t")
    if ret == "Optional[int]":
        return None if falsy else d
    if ret in ("Any", "object"):
        if falsy:
            return [None, 0, False, "", [], {}][d % 6]
        if mode == "prickly":
            return _POOL.setdefault(("p", d), Prickly(d))
        if mode == "grumpy":
            return _POOL.setdefault(("g", d), Grumpy(d))
        return _POOL.setdefault(("o", d), Obj(d))
    if ret == "None":
        return None
    raise ValueError(ret)


RETS = ["int", "str", "float", "bool", "list", "dict", "tuple", "Optional[int]", "Any"]
# names with shared prefixes, digits, dunder-free, shadowing builtins is fine
NAMES = ["a", "ab", "abc", "a_b", "b", "b1", "b10", "b2", "c", "ca", "cab", "d", "dd", "e", "x1", "x10", "x100", "node_1", "node_10",
         "total", "total_raw", "sum_", "id", "type", "name", "inputs", "final", "node", "result", "A", "Ab", "zz", "mean_x", "x_mean"]
INPUT_NAMES = ["i", "ii", "i_1", "i_10", "in1", "kwargs_", "p", "pp", "q", "flag", "user_id", "raw", "overrides", "config"]


def value_for(t):
    """JSON strategy for a value of annotation t."""
    if t == "int":
        return st.sampled_from([0, 1, -1, 2, 7, 10**12])
    if t == "str":
        return st.sampled_from(["", "a", "None", "0", "é"])
    if t == "float":
        return st.sampled_from([0.0, 1.5, -2.25])
    if t == "bool":
        return st.booleans()
    if t == "list":
        return st.sampled_from([[], [0], [1, None], ["a", []]])
    if t == "dict":
        return st.sampled_from([{}, {"a": 0}, {"k": {"z": None}}])
    if t == "tuple":
        return st.sampled_from([{"$": "tuple", "v": []}, {"$": "tuple", "v": [1, 2]}])
    if t == "Optional[int]":
        return st.sampled_from([None, 0, 5])
    if t in ("Any", "object"):
        return st.sampled_from([None, 0, False, "", [], {}, 3, "s", {"$": "obj", "v": 1}, {"$": "prickly", "v": 1}, {"$": "prickly", "v": 2}])
    raise ValueError(t)


def ann_for(t):
    """Annotations a parameter may carry to accept a producer of type t."""
    if t == "Any":
        return st.just("Any")
    if t == "Optional[int]":
        return st.sampled_from(["Optional[int]", "Any"])
    return st.sampled_from([t, t, "Any", "Optional[%s]" % t, "Union[%s, bytes]" % t])


@st.composite
def dag(draw, max_fns=10, max_inputs=4, min_fns=1, max_modules=3, rets=None, modes=("normal", "normal", "falsy", "prickly"),
        defaults=True, names=None, fresh_inputs=True, max_params=4, big=True):
    """A plain dataflow.  Returns a spec dict:
    inputs: name -> {type, default (bool: every consumer has a default)}
    fns: [{name, params: [{name, ann, default?}], ret, mode, module}] in declaration order (not topological)."""
    rets = rets or RETS
    n_in = draw(st.integers(0, max_inputs))
    n_fn = draw(st.integers(min_fns, max_fns))
    in_names = draw(st.permutations(INPUT_NAMES))[:n_in]
    fn_names = draw(st.permutations(names or NAMES))[:n_fn]
    inputs = {}
    for n in in_names:
        inputs[n] = {"type": draw(st.sampled_from(rets))}
    avail = [(n, inputs[n]["type"], True) for n in in_names]
    fns = []
    nmod = draw(st.integers(1, max_modules))
    for n in fn_names:
        k = draw(st.integers(0, min(max_params, len(avail))))
        ps = []
        if k:
            idx = draw(st.lists(st.integers(0, len(avail) - 1), min_size=k, max_size=k, unique=True))
            for i in idx:
                pn, pt, isin = avail[i]
                ann = pt if isin else draw(ann_for(pt))
                p = {"name": pn, "ann": ann}
                ps.append(p)
            if defaults:
                # defaults must be trailing
                nd = draw(st.sampled_from([0, 0, 1, 2]))
                for p in ps[len(ps) - min(nd, len(ps)):]:
                    base = p["ann"]
                    if base.startswith("Union["):
                        base = base[6:].split(",")[0]
                    elif base.startswith("Optional[") and base != "Optional[int]":
                        base = base[9:-1]
                    p["default"] = draw(value_for(base).filter(lambda v: not (isinstance(v, dict) and v.get("$") in ("obj", "prickly"))))
        ret = draw(st.sampled_from(rets))
        mode = draw(st.sampled_from(list(modes)))
        if mode in ("prickly", "grumpy") and ret != "Any":
            mode = "normal"
        f = {"name": n, "params": ps, "ret": ret, "mode": mode, "module": draw(st.integers(0, nmod - 1))}
        if ps and draw(st.integers(0, 5)) == 0:
            f["kwonly"] = draw(st.integers(1, len(ps)))
        fns.append(f)
        avail.append((n, ret, False))
    # now and then something large: a function of everything, a long chain, many functions side by side, a long name
    extra = draw(st.integers(0, 159)) if big else 0

    def param(i):
        pn, pt, isin = avail[i]
        return {"name": pn, "ann": pt if isin else "Any" if pt == "Any" else pt}

    def add(n, idx):
        fns.append({"name": n, "params": [param(i) for i in idx], "ret": "int" if "int" in rets else rets[0], "mode": "normal", "module": draw(st.integers(0, nmod - 1))})
        avail.append((n, fns[-1]["ret"], False))
    if extra == 1 and avail:
        add("takes_everything", range(len(avail)))
    elif extra == 2 and avail:
        add("ch0", [draw(st.integers(0, len(avail) - 1))])
        for j in range(1, draw(st.sampled_from([12, 25, 40]))):
            add("ch%d" % j, [len(avail) - 1])
    elif extra == 3 and avail:
        k0 = len(avail)
        for j in range(draw(st.sampled_from([11, 20, 33]))):
            add("side%d" % j, [draw(st.integers(0, k0 - 1))])
        add("gathers", range(k0, len(avail)))
    elif extra == 4:
        add("a_rather_long_name_" * 5 + "x", [len(avail) - 1] if avail else [])
    fns = draw(st.permutations(fns)) if len(fns) > 1 else fns
    spec = {"inputs": inputs, "fns": list(fns), "nmod": nmod}
    if draw(st.integers(0, 5)) == 0:
        spec["future"] = True
    if draw(st.integers(0, 9)) == 0:
        spec["adhoc"] = True
    return spec


_counter = itertools.count()


def fn_source(f, decorators=()):
    params = []
    kwonly = f.get("kwonly", 0)
    for i, p in enumerate(f["params"]):
        if kwonly and i == len(f["params"]) - kwonly:
            params.append("*")
        s = "%s: %s" % (p["name"], p["ann"])
        if "default" in p:
            s += " = _dec(%r)" % (p["default"],)
        params.append(s)
    kw = ", ".join("%r: %s" % (p["name"], p["name"]) for p in f["params"])
    lines = list(decorators)
    lines.append("%sdef %s(%s) -> %s:" % ("async " if f.get("async") else "", f["name"], ", ".join(params), f["ret"]))
    lines.append('    """doc of %s"""' % f["name"])
    if f.get("async"):
        lines.append("    await _sleep(%r)" % (f.get("steps", 0),))
    lines.append("    return _REC.call(%r, %r, %r, {%s})" % (f.get("alias", f["name"]), f["ret"], f["mode"], kw))
    return "\n".join(lines) + "\n"


HEADER = """from typing import *
from typing import Any, Optional, Union, Dict, List, Tuple
from vlib.dags import REC as _REC, decode as _dec, asleep as _sleep
"""


async def asleep(n):
    """Give up control n times (the event loop is deterministic, so this scripts the completion order)."""
    import asyncio
    for _ in range(n):
        await asyncio.sleep(0)


def make_module(source, name=None, ns=None, header=HEADER, register=True):
    """exec source as a module registered in sys.modules, with linecache so that inspect.getsource works."""
    name = name or "vgen_%d" % next(_counter)
    mod = types.ModuleType(name)
    fname = "<%s>" % name
    src = header + source
    mod.__file__ = fname
    if ns:
        mod.__dict__.update(ns)
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    if register:
        sys.modules[name] = mod
    exec(compile(src, fname, "exec"), mod.__dict__)
    return mod


def drop_modules(mods):
    for m in mods:
        sys.modules.pop(m.__name__, None)
        linecache.cache.pop(m.__file__, None)


def build_modules(spec, decorators=None):
    srcs = [""] * spec["nmod"]
    for f in spec["fns"]:
        srcs[f["module"]] += fn_source(f, (decorators or {}).get(f["name"], ())) + "\n"
    header = ("from __future__ import annotations\n" if spec.get("future") else "") + HEADER
    mods = [make_module(s, header=header) for s in srcs]
    if spec.get("adhoc"):
        from hamilton import ad_hoc_utils
        out = []
        for m in mods:
            fns = [v for k, v in vars(m).items() if isinstance(v, types.FunctionType) and v.__module__ == m.__name__]
            t = ad_hoc_utils.create_temporary_module(*fns, module_name="vadhoc_%d" % next(_counter))
            t.__file__ = m.__file__
            out.append(t)
            sys.modules.pop(m.__name__, None)
        return out
    return mods


class Missing(Exception):
    pass


def fn_map(spec):
    return {f["name"]: f for f in spec["fns"]}


def ref_eval(spec, requests, inputs, overrides=None):
    """Independent evaluation. Returns (values of requests, {called fn name: args})."""
    fm = fn_map(spec)
    overrides = overrides or {}
    memo, called = {}, {}
    NOTHING = object()

    def val(n):
        if n in overrides:
            return overrides[n]
        if n in memo:
            return memo[n]
        if n in fm:
            f = fm[n]
            kw = {}
            for p in f["params"]:
                v = val(p["name"])
                if v is NOTHING:
                    if "default" not in p:
                        raise Missing(p["name"])
                    v = decode(p["default"])
                kw[p["name"]] = v
            called[n] = kw
            memo[n] = node_value(f.get("alias", n), f["ret"], f["mode"], kw)
            return memo[n]
        if n in inputs:
            return inputs[n]
        return NOTHING

    out = {}
    for r in requests:
        v = val(r)
        if v is NOTHING:
            raise Missing(r)
        out[r] = v
    return out, called


def upstream(spec, names, stop=()):
    """All names (functions and inputs) reachable from names, not going through `stop`."""
    fm = fn_map(spec)
    seen, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in fm and n not in stop:
            todo += [p["name"] for p in fm[n]["params"]]
    return seen


def used_inputs(spec):
    """inputs that appear in the graph -> required? (some consumer without default)"""
    out = {}
    for f in spec["fns"]:
        for p in f["params"]:
            if p["name"] in spec["inputs"]:
                out[p["name"]] = out.get(p["name"], False) or "default" not in p
    return out


def required_inputs(spec, requests, overrides=()):
    """Inputs needed without default by some function that would run."""
    fm = fn_map(spec)
    up = upstream(spec, [r for r in requests], stop=overrides)
    req = set()
    for n in up:
        if n in fm and n not in overrides:
            for p in fm[n]["params"]:
                if p["name"] in spec["inputs"] and "default" not in p and p["name"] not in overrides:
                    req.add(p["name"])
    return req
