"""C41: the file-based caching adapters return what the functions compute, and recompute exactly when their rules say so."""
import logging, os
from collections import Counter
import pandas as pd
from hypothesis import strategies as st
from hamilton import base, driver
from hamilton.experimental import h_cache
from hamilton.lifecycle.default import CacheAdapter
from vlib.core import Part, Violation, require
from vlib import dags

try:
    from hamilton.plugins import h_diskcache
except ImportError:
    h_diskcache = None

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated execution histories over one cache directory (edits, inputs, deleted files, failures, restarts), against a model of the caching rule and a reference evaluator"
NOTE = "DiskCacheAdapter and CacheAdapter are driven with undecorated functions only (known findings for nodes made by decorators)."


class Boom(Exception):
    pass


class Log:
    def __init__(self):
        self.calls = Counter()

    def __call__(self, name, kind, k, args):
        self.calls[name] += 1
        return value_of(name, kind, k, args)


def num(v):
    """A number standing for any value the functions exchange."""
    if isinstance(v, pd.DataFrame):
        return int(v["a"].sum()) + 5
    if isinstance(v, pd.Series):
        return int(v.sum()) + 6
    if v is None:
        return 7
    if isinstance(v, str):
        return len(v) + sum(map(ord, v)) % 17
    if isinstance(v, (list, tuple)):
        return sum(num(x) * (i + 1) for i, x in enumerate(v)) + 3
    if isinstance(v, dict):
        return sum(num(x) for x in v.values()) + 4
    return int(v)


def value_of(name, kind, k, args):
    n = k + sum((i + 2) * num(v) for i, v in enumerate(args)) + sum(map(ord, name)) % 5
    if kind == "boom":
        if n % 3 == 0:
            raise Boom(name)
        return n
    return {"int": n, "none": None, "zero": 0, "str": "s%d" % n, "lst": [n, "x"], "dct": {"n": n, "m": [n % 3]}, "opt": None if n % 2 else n,
            "df": pd.DataFrame({"a": [n, n + 1]}) if kind == "df" else 0, "ser": pd.Series([n, 2 * n, 1], name=name) if kind == "ser" else 0}[kind]


ANN = {"int": "int", "boom": "int", "zero": "int", "none": "object", "opt": "object", "str": "str", "lst": "list", "dct": "dict", "df": "pd.DataFrame", "ser": "pd.Series"}
FMTS = {"int": ["pickle"], "boom": ["pickle"], "zero": ["pickle"], "none": ["pickle"], "opt": ["pickle"], "str": ["pickle", "own"], "lst": ["pickle"], "dct": ["json", "pickle"],
        "df": ["parquet", "feather", "pickle", "json"], "ser": ["pickle", "parquet", "feather"]}
HEADER = "import pandas as pd\nfrom hamilton.function_modifiers import tag\n"


def render(fns):
    src = ""
    for f in fns:
        kinds = {g["name"]: g["kind"] for g in fns}
        ps = ["%s: %s" % (p, ANN[kinds[p]] if p in kinds else "int") for p in f["params"]] + ["%s: int = %d" % (p, d) for p, d in f.get("opts", [])]
        args = f["params"] + [p for p, _ in f.get("opts", [])]
        if f.get("fmt"):
            src += "@tag(cache=%r)\n" % f["fmt"]
        src += "def %s(%s) -> %s:\n    return _log(%r, %r, %d, [%s])\n\n" % (f["name"], ", ".join(ps), ANN[f["kind"]], f["name"], f["kind"], f["k"], ", ".join(args))
    return src


def module(fns, log):
    return dags.make_module(render(fns), header=HEADER, ns={"_log": log})


def canon(v):
    if isinstance(v, pd.DataFrame):
        return ["df", [[c] + [int(x) for x in v[c]] for c in v.columns]]
    if isinstance(v, pd.Series):
        return ["ser", [int(x) for x in v]]
    if isinstance(v, (list, dict)):
        return [type(v).__name__, repr(v)]
    return [type(v).__name__, v]


def own_write(data, filepath, name):
    with open(filepath, "w") as f:
        f.write(name + ":" + data)


def own_read(expected, filepath):
    require(expected == "", "the reader was not given an empty object of the node's type but %r", expected)
    with open(filepath) as f:
        return f.read().split(":", 1)[1]


@st.composite
def program(draw, kinds, tags, opts):
    fns = []
    for i in range(draw(st.integers(1 + tags, 6))):
        pool = ["i0", "i1"] + [f["name"] for f in fns]
        ps = draw(st.lists(st.sampled_from(pool[::-1]), min_size=0, max_size=3, unique=True))
        f = {"name": "f%d" % i, "params": ps, "kind": draw(st.sampled_from(kinds)), "k": draw(st.integers(0, 3))}
        if tags and draw(st.integers(0, 3)):
            f["fmt"] = draw(st.sampled_from(FMTS[f["kind"]]))
        if opts and draw(st.booleans()):
            f["opts"] = [[p, draw(st.integers(0, 2))] for p in draw(st.sampled_from([["o0"], ["o0", "o1"], ["o1", "o0"]]))]
        fns.append(f)
    return fns


def needed(fns, req, ov):
    by = {f["name"]: f for f in fns}
    seen, stack = set(), list(req)
    while stack:
        n = stack.pop()
        if n in seen or n not in by:
            continue
        seen.add(n)
        if n not in ov:
            stack += by[n]["params"]
    return [f for f in fns if f["name"] in seen and f["name"] not in ov]


# ---------------------------------------------------------------- the adapter that follows tags
@st.composite
def tag_case(draw):
    fns = draw(program(["int", "str", "lst", "dct", "df", "ser", "zero", "opt", "boom"], True, False))
    names = [f["name"] for f in fns]
    ops = []
    for i in range(draw(st.integers(3, 9))):
        op = {"req": names[-2:] if draw(st.integers(0, 2)) else draw(st.lists(st.sampled_from(names[::-1]), min_size=1, max_size=3, unique=True)), "force": draw(st.one_of(st.none(), st.just([]), st.lists(st.sampled_from(names), max_size=2, unique=True))) if draw(st.integers(0, 2)) == 0 else None,
              "new": draw(st.integers(0, 2)) == 0, "ins": [draw(st.integers(0, 3)), draw(st.integers(0, 3))] if draw(st.integers(0, 2)) == 0 else None,
              "del": draw(st.lists(st.sampled_from(names), max_size=2, unique=True)) if draw(st.booleans()) else [],
              "edit": [draw(st.integers(0, 5)), draw(st.integers(0, 3))] if draw(st.integers(0, 3)) == 0 else None,
              "ov": {draw(st.sampled_from(names)): draw(st.integers(0, 5))} if draw(st.integers(0, 5)) == 0 else {}}
        ops.append(op)
    return {"fns": fns, "ins": [1, 2], "ops": ops, "build": draw(st.sampled_from(["legacy", "builder"]))}


def check_tag(case, ctx):
    d, log = ctx.fresh_dir(), Log()
    fns = [dict(f) for f in case["fns"]]
    ins = dict(zip(("i0", "i1"), case["ins"]))
    disk, mods, adapter, dr = {}, [], None, None
    hits = recomputed = 0
    try:
        mods.append(module(fns, log))
        for oi, op in enumerate(case["ops"]):
            if op["ins"]:
                ins = dict(zip(("i0", "i1"), op["ins"]))
            for n in op["del"]:
                for f in fns:
                    if f["name"] == n and n in disk:
                        os.remove(os.path.join(d, "%s.%s" % (n, f["fmt"])))
                        del disk[n]
            if op["edit"]:
                fns[op["edit"][0] % len(fns)]["k"] = op["edit"][1]
                mods.append(module(fns, log))
            if adapter is None or op["new"] or op["edit"] or op["force"] is not None:
                force = op["force"]
                adapter = h_cache.CachingGraphAdapter(d, base.DictResult(), readers={"own": own_read}, writers={"own": own_write}, **({} if force is None else {"force_compute": set(force)}))
                dr = driver.Driver({}, mods[-1], adapter=adapter) if case["build"] == "legacy" else driver.Builder().with_modules(mods[-1]).with_adapters(adapter).build()
            # the rule
            computed, vals, calls, err = set(), dict(ins), Counter(), None
            vals.update(op["ov"])
            for f in needed(fns, op["req"], op["ov"]):
                n = f["name"]
                implied = any(p in computed for p in f["params"])
                if f.get("fmt") and n in disk and not implied and n not in (force or ()):
                    vals[n] = disk[n]
                    hits += 1
                    continue
                calls[n] += 1
                try:
                    vals[n] = value_of(n, f["kind"], f["k"], [vals[p] for p in f["params"]])
                except Boom as e:
                    err = e
                    break
                if f.get("fmt"):
                    recomputed += n in disk
                    computed.add(n)
                elif implied:
                    computed.add(n)
            log.calls = Counter()
            got = exc = None
            try:
                got = dr.execute(op["req"], inputs=ins, overrides=dict(op["ov"]))
            except Boom as e:
                exc = e
            if err is not None:
                # what ran before the failure depends on the order of independent nodes
                require(exc is not None, "op %d: %s did not fail", oi, err)
                adapter = None
                for f in fns:
                    if f.get("fmt") and log.calls[f["name"]]:
                        n = f["name"]
                        if os.path.exists(os.path.join(d, "%s.%s" % (n, f["fmt"]))):
                            v = full_value(fns, n, ins, op["ov"], disk, log.calls)
                            if v is not None:
                                disk[n] = v[0]
                force = None
                continue
            require(exc is None, "op %d: raised %r, expected values", oi, exc)
            require(list(got) == op["req"], "op %d: keys %s", oi, list(got))
            for n in op["req"]:
                require(canon(got[n]) == canon(vals[n]), "op %d: %s is %s, expected %s", oi, n, canon(got[n]), canon(vals[n]))
            require(+log.calls == +calls, "op %d: called %s, expected %s (on disk: %s)", oi, dict(log.calls), dict(calls), sorted(disk))
            for f in fns:
                if f.get("fmt") and calls[f["name"]]:
                    disk[f["name"]] = vals[f["name"]]
            want = sorted("%s.%s" % (f["name"], f["fmt"]) for f in fns if f["name"] in disk)
            require(sorted(os.listdir(d)) == want, "op %d: files %s, expected %s", oi, sorted(os.listdir(d)), want)
        ctx.nontrivial(hits > 0 and recomputed > 0)
    finally:
        dags.drop_modules(mods)


def full_value(fns, name, ins, ov, disk, calls):
    """The value a function that ran in a failed execution computed: [value], or None when it is the one that failed."""
    vals = dict(ins)
    vals.update(ov)
    for f in needed(fns, [name], ov):
        n = f["name"]
        if not calls[n] and n in disk:
            vals[n] = disk[n]
            continue
        try:
            vals[n] = value_of(n, f["kind"], f["k"], [vals[p] for p in f["params"]])
        except Boom:
            return None
    return [vals[name]]


# ---------------------------------------------------------------- the adapters that key on code and arguments
@st.composite
def key_case(draw):
    which = draw(st.sampled_from(["shelve", "disk"] if h_diskcache else ["shelve"]))
    fns = draw(program(["int", "int", "str", "lst", "dct", "zero", "none", "opt", "boom"], False, which == "shelve"))
    names = [f["name"] for f in fns]
    sub = st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True)
    ops = []
    for i in range(draw(st.integers(2, 10))):
        ops.append({"req": draw(st.lists(st.sampled_from(names[::-1]), min_size=1, max_size=3, unique=True)), "version": draw(st.integers(0, 2)), "adapter": draw(st.integers(0, 2)), "same": draw(st.booleans()),
                    "ins": [draw(st.integers(0, 1)), draw(st.sampled_from([0, 0, 0, 1]))], "o": draw(st.dictionaries(st.sampled_from(["o0", "o1"]), st.integers(1, 2), max_size=2)),
                    "ov": {draw(st.sampled_from(names)): draw(st.integers(0, 5))} if draw(st.integers(0, 5)) == 0 else {}, "evict": draw(st.integers(0, 8)) == 0})
    vers = [[[draw(st.integers(0, 5)), draw(st.integers(0, 3))] for _ in range(draw(st.integers(1, 2)))] for _ in range(2)]
    return {"fns": fns, "which": which, "ops": ops, "vers": vers, "vars": [draw(st.one_of(st.none(), sub)) for _ in range(3)]}


def check_key(case, ctx):
    d, log = ctx.fresh_dir(), Log()
    versions = [case["fns"]]
    for v in case["vers"]:
        fns = [dict(f) for f in versions[-1]]
        for i, k in v:
            fns[i % len(fns)]["k"] = k
        versions.append(fns)
    mods, adapters, drivers = [module(v, log) for v in versions], {}, {}
    names = [f["name"] for f in case["fns"]]
    prev, hits = None, 0

    def key(a, v):
        if a not in adapters:
            if case["which"] == "shelve":
                adapters[a] = CacheAdapter(cache_path=os.path.join(d, "c"), cache_vars=case["vars"][a])
            else:
                adapters[a] = h_diskcache.DiskCacheAdapter(cache_path=d, cache_vars=case["vars"][a])
        if (a, v) not in drivers:
            drivers[a, v] = driver.Builder().with_modules(mods[v]).with_adapters(adapters[a]).build()
        return drivers[a, v]
    stored = set()  # (code, arguments) of results known to be in the cache
    try:
        for oi, op in enumerate(case["ops"]):
            if op["same"] and prev is not None:
                op = dict(prev, adapter=op["adapter"], evict=op["evict"])
            prev = op
            fns = versions[op["version"]]
            dr = key(op["adapter"], op["version"])
            cached = case["vars"][op["adapter"]] or names
            ins = dict(zip(("i0", "i1"), op["ins"]), **op["o"])
            vals, may, must, err, done = dict(ins), Counter(), Counter(), None, []
            vals.update(op["ov"])
            for f in needed(fns, op["req"], op["ov"]):
                n = f["name"]
                opts = [[p, vals.get(p, dflt)] for p, dflt in f.get("opts", [])]
                ident = repr((n, f["k"], [vals[p] for p in f["params"]], [p for p, _ in opts if p in vals], opts))
                try:
                    vals[n] = value_of(n, f["kind"], f["k"], [vals[p] for p in f["params"]] + [v for _, v in opts])
                except Boom as e:
                    err = e
                    break
                if n in cached and vals[n] is not None:
                    if ident in stored:
                        must[n] = 0
                        hits += 1
                    if all(isinstance(vals[p], int) for p in f["params"]):  # equal containers may be pickled differently
                        done.append((n, ident))
                may[n] = 1
            log.calls = Counter()
            got = exc = None
            try:
                got = dr.execute(op["req"], inputs={k: v for k, v in ins.items() if any(k in f["params"] or k in dict(f.get("opts", [])) for f in fns)}, overrides=dict(op["ov"]))
            except Boom as e:
                exc = e
            if err is not None:
                require(exc is not None, "op %d: %s did not fail", oi, err)
                continue
            require(exc is None, "op %d: raised %r, expected values", oi, exc)
            for n in op["req"]:
                require(canon(got[n]) == canon(vals[n]), "op %d: %s is %s, expected %s", oi, n, canon(got[n]), canon(vals[n]))
            for n in log.calls:
                require(log.calls[n] <= may[n], "op %d: %s was called %d times", oi, n, log.calls[n])
                require(n not in must, "op %d: %s was called again although its result is in the cache", oi, n)
            for n in may:
                require(log.calls[n] or n in cached and vals[n] is not None, "op %d: %s was not called although it is not cached", oi, n)
            stored.update(i for _, i in done)
            if op["evict"] and case["which"] == "disk":
                h_diskcache.evict_all_except_driver(dr)
                keep = {(f["name"], f["k"]) for f in fns}
                stored = {s for s in stored if any(s.startswith("(%r, %d, " % nk) for nk in keep)}
                # adapters keep what they read at their creation
                adapters, drivers = {}, {}
        ctx.nontrivial(hits > 0 and len(stored) > 1)
    finally:
        for a in adapters.values():
            try:
                a.cache.close()
            except Exception:
                pass
        dags.drop_modules(mods)


def known(which, src, runs, req):
    """Whether executing src through the adapter gives other values than without."""
    import shutil, tempfile
    d = tempfile.mkdtemp()
    mod = dags.make_module("from hamilton.function_modifiers import parameterize, value\n" + src, header="")
    try:
        a = CacheAdapter(cache_path=os.path.join(d, "c")) if which == "shelve" else h_diskcache.DiskCacheAdapter(cache_path=d)
        dr, plain = driver.Builder().with_modules(mod).with_adapters(a).build(), driver.Builder().with_modules(mod).build()
        try:
            return any(dr.execute(req, inputs=i) != plain.execute(req, inputs=i) for i in runs)
        except Exception as e:
            return repr(e)
    finally:
        dags.drop_modules([mod])
        shutil.rmtree(d, ignore_errors=True)


DECO = "@parameterize(a=dict(x=value(1)), b=dict(x=value(2)))\ndef f(x: int, y: int) -> int:\n    return x + y\n"
OPTS = "def f(x: int = 0, y: int = 0) -> int:\n    return x + 2 * y\n"
KNOWN = {"shelve-decorated": lambda: known("shelve", DECO, [{"y": 1}], ["a", "b"]),
         "diskcache-decorated": lambda: h_diskcache and known("disk", DECO, [{"y": 1}], ["a", "b"]),
         "diskcache-optional": lambda: h_diskcache and known("disk", OPTS, [{"x": 1}, {"y": 1}], ["f"])}

@st.composite
def few_case(draw):
    """Long histories of one or two functions in two versions under two adapters."""
    which = draw(st.sampled_from(["shelve", "disk"] if h_diskcache else ["shelve"]))
    fns = [{"name": "f0", "params": ["i0"], "kind": draw(st.sampled_from(["int", "zero", "lst", "opt"])), "k": 0}]
    if draw(st.booleans()):
        fns.append({"name": "f1", "params": ["f0"], "kind": "int", "k": 1})
    req = [fns[-1]["name"]]
    ops = [{"req": req, "version": draw(st.integers(0, 1)), "adapter": draw(st.integers(0, 1)), "same": False, "ins": [draw(st.integers(0, 1)), 0], "o": {}, "ov": {}, "evict": draw(st.integers(0, 15)) == 0} for _ in range(draw(st.integers(5, 14)))]
    return {"fns": fns, "which": which, "ops": ops, "vers": [[[draw(st.integers(0, 1)), draw(st.integers(2, 3))]], []], "vars": [None, None, None]}


PARTS = [
    Part("tagged", tag_case, check_tag, 500, 12000, "some value is read from a file and some file is replaced", shards=3, tshards=8),
    Part("keyed", key_case, check_key, 450, 9000, "some result is served from the cache, which holds two or more", shards=3, tshards=8),
    Part("versions", few_case, check_key, 200, 6000, "some result is served from the cache, which holds two or more", shards=2, tshards=4),
]
