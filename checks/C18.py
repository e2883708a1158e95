"""C18: caching skips exactly the work it should, per node behaviour, against an exact reference model of the cache."""
import copy, glob, itertools, json, logging, os, shutil, tempfile
from collections import Counter
import pandas as pd
from hypothesis import strategies as st
from hamilton import driver, registry
from hamilton.caching.adapter import HamiltonCacheAdapter
from hamilton.caching.stores.memory import InMemoryMetadataStore
from vlib.core import Part, Violation, require
from vlib import cachegen as G, dags
from vlib.drv import configure_task
from checks.C17 import World, build, edit

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated histories against an exact model of which functions a cached execution calls and what it stores"


def setup():
    registry.load_extension("pandas")


BEH = ["default", "recompute", "disable", "ignore"]
MODES = ["builder", "builder", "builder", "task:default:sync:sync", "task:nodes:sync:sync", "task:asone:sync:sync", "task:level:sync:sync"]
KINDS = ["mix", "mix", "small", "lst", "dct", "maybe", "first", "first", "setk", "df", "nd", "cplx", "pt"]


@st.composite
def case_(draw):
    proj = draw(G.project(decos=("plain",), kinds=KINDS, max_fns=6))
    tagp = draw(st.integers(0, 3))
    for f in proj["fns"]:
        if tagp == 0 and draw(st.integers(0, 2)) == 0:
            f["behavior"] = draw(st.sampled_from(BEH))
    outs = G.all_outputs(proj)
    names = outs + ["i0", "i1"]
    ops = []
    for i in range(draw(st.integers(2, 7))):
        acts = []
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2])) if i else 0):
            acts.append(draw(st.one_of(
                st.fixed_dictionaries({"a": st.just("edit"), "fn": st.integers(0, 9), "what": st.sampled_from(["k", "k", "default", "params", "comment", "comment"]), "v": st.integers(0, 5)}),
                st.fixed_dictionaries({"a": st.sampled_from(["reopen", "delmeta", "delresults", "undo"])}),
                st.fixed_dictionaries({"a": st.just("delres"), "n": st.sampled_from(outs)}),
                st.fixed_dictionaries({"a": st.just("in"), "n": st.sampled_from(["i0", "i1", "i2"]), "v": G.val}))))
        beh = {}
        dflt = {}
        z = draw(st.integers(0, 5))
        if z == 0:
            beh = {n: draw(st.sampled_from(BEH)) for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True))}
        elif z == 1:
            dflt = {draw(st.sampled_from(BEH)): True}
        dd = draw(st.sampled_from([None] * 6 + BEH))
        ops.append({"acts": acts, "beh": beh, "all": dflt, "dd": dd, "req": draw(st.lists(st.sampled_from(outs), min_size=1, max_size=3, unique=True)) if draw(st.booleans()) else [outs[-1]],
                    "ov": {draw(st.sampled_from(outs)): draw(G.val)} if draw(st.integers(0, 5)) == 0 else {}, "new": draw(st.integers(0, 2)) == 0})
    return {"proj": proj, "store": draw(st.sampled_from(["disk", "disk", "mem", "memmeta", "memres"])), "mode": draw(st.sampled_from(MODES)), "ops": ops,
            "inputs": {"i0": draw(G.val), "i1": draw(G.val)}, "i2": draw(st.one_of(st.none(), G.val.map(lambda v: {"v": v})))}


def unhashable(v):
    if isinstance(v, complex):
        return True
    if isinstance(v, (list, tuple, set)):
        return any(unhashable(x) for x in v)
    if isinstance(v, dict):
        return any(unhashable(x) for x in v.values())
    return False


class Model:
    """meta: cache key -> version; results: version -> value."""

    def __init__(self):
        self.meta, self.results, self.c = {}, {}, itertools.count()
        self.unhashable = False

    def fresh(self):
        return "fresh%d" % next(self.c)

    def version(self, v):
        if unhashable(v):
            self.unhashable = True
            return self.fresh()
        return G.canon(v)

    def run(self, proj, srcs, req, inputs, ov, beh):
        by = {f["name"]: f for f in proj["fns"]}
        vals, vers, calls = {}, {}, []
        for k, v in {**inputs, **ov}.items():
            vals[k], vers[k] = v, self.version(v)

        def ev(n):
            if n in vals:
                return
            f = by[n]
            kw = {}
            for p in f["params"]:
                ev(p)
                kw[p] = vals[p]
            if f["opt"]:
                p = f["opt"]["name"]
                kw[p] = vals.get(p, f["opt"]["default"])

            def compute():
                calls.append(n)
                return G.value_of(f["kind"], f["k"], [kw[p] for p in f["params"]] + ([kw[f["opt"]["name"]]] if f["opt"] else []))
            b = beh(n)
            if b == "disable":
                vals[n] = compute()
                return
            if b == "ignore":
                vals[n] = compute()
                return
            deps = []
            for p, v in kw.items():
                pb = beh(p)
                deps.append((p, "<ignore>" if pb == "ignore" else self.fresh() if pb == "disable" else vers[p] if p in vers else self.version(v)))
            key = json.dumps([n, srcs[n], sorted(deps)])
            ver = self.meta.get(key)
            if b == "default" and ver is not None and ver in self.results:
                vals[n], vers[n] = self.results[ver], ver
                return
            vals[n] = compute()
            vers[n] = self.meta[key] = self.version(vals[n])
            self.results.setdefault(vers[n], vals[n])
        for r in req:
            ev(r)
        return {r: vals[r] for r in req}, calls, vers


def behaviour(proj, op):
    tags = {f["name"]: f.get("behavior") for f in proj["fns"]}

    def beh(n):
        if op["all"]:
            return list(op["all"])[0]
        if n in op["beh"]:
            return op["beh"][n]
        return tags.get(n) or op["dd"] or "default"
    return beh


def code(f):
    g = dict(f)
    g.pop("comment", None)
    return G.fn_src(g)


def check(case, ctx):
    d = ctx.fresh_dir()
    world, model = World(case, d), Model()
    proj, past, mods, drivers = case["proj"], [], {}, {}
    live = {k: G.dec(v) for k, v in case["inputs"].items()}
    if case["i2"] is not None:
        live["i2"] = G.dec(case["i2"]["v"])
    real_v, model_v = {}, {}
    some_hit = some_change = False
    try:
        for oi, op in enumerate(case["ops"]):
            for act in op["acts"]:
                a = act["a"]
                some_change |= a in ("edit", "in", "undo")
                if a == "edit":
                    past.append(proj)
                    proj = edit(proj, act)
                elif a == "undo" and past:
                    proj = past.pop(0)
                elif a == "reopen":
                    world.open()
                    drivers = {}
                elif a == "delmeta":
                    world.meta.delete_all()
                    model.meta = {}
                elif a == "delresults":
                    world.res.delete_all()
                    model.results = {}
                elif a == "delres":
                    rv = real_v.get(act["n"])
                    if rv is not None and act["n"] in model_v:
                        world.res.delete(rv)
                        model.results.pop(model_v[act["n"]], None)
                elif a == "in":
                    live[act["n"]] = G.dec(act["v"])
            src = G.proj_src(proj)
            if src not in mods:
                mods[src] = dags.make_module(src, header=G.HEADER)
            kw = {b: [n for n, x in op["beh"].items() if x == b] for b in BEH}
            kw = {b: v for b, v in kw.items() if v}
            kw.update(op["all"])
            if op["dd"]:
                kw["default_behavior"] = op["dd"]
            key = json.dumps([src, kw], sort_keys=True)
            if op["new"] or key not in drivers:
                drivers[key] = build(mods[src], case["mode"], {}, world, kw)
            dr = drivers[key]
            ov = {k: G.dec(v) for k, v in op["ov"].items()}
            G.CALLS.names = []
            got = dr.execute(list(op["req"]), inputs=dict(live), overrides=dict(ov))
            calls = Counter(G.CALLS.names)
            want, wcalls, vers = model.run(proj, {f["name"]: code(f) for f in proj["fns"]}, op["req"], live, ov, behaviour(proj, op))
            if model.unhashable and ":level:" in case["mode"]:
                ctx.note("unhashable value between tasks of several nodes: how often it is recomputed is not specified")
                return
            require(calls == Counter(wcalls), "run %d of %r: functions called %s, expected %s (settings %s)\nsource:\n%s", oi, op["req"], dict(calls), dict(Counter(wcalls)), kw, src)
            require({k: G.canon(v) for k, v in got.items()} == {k: G.canon(v) for k, v in want.items()}, "run %d: results %s, expected %s", oi, got, want)
            if case["store"] in ("disk", "memmeta"):
                nf = len([p for p in os.listdir(d) if "metadata_store" not in p])
                require(nf == len(model.results), "run %d: %d results stored, expected %d (%s)", oi, nf, len(model.results), kw)
            elif case["store"] in ("mem", "memres"):
                nf = len(world.res._results) if hasattr(world.res, "_results") else len(model.results)
                require(nf == len(model.results), "run %d: %d results stored in memory, expected %d", oi, nf, len(model.results))
            real_v = {k: v for k, v in dr.cache.data_versions[dr.cache.last_run_id].items() if isinstance(v, str)}
            model_v = vers
            some_hit |= len(wcalls) < len(G.all_outputs(proj)) and oi > 0
            if kw:
                ctx.note("with driver settings")
            if not wcalls:
                ctx.note("run served entirely from the cache")
        ctx.nontrivial(some_hit and (some_change or any(o["beh"] or o["all"] or o["dd"] for o in case["ops"])))
    finally:
        dags.drop_modules(mods.values())


# ---------------------------------------------------------------- parallel: item-level reuse
@st.composite
def par_case(draw):
    runs = [{"items": draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, "s1", {"k": 1}, None]), max_size=6)), "u": draw(st.integers(0, 1)), "kb": draw(st.integers(0, 1)), "kc": draw(st.integers(0, 1)), "beh": draw(st.sampled_from([None, None, None, "b1", "col"])),
             "how": draw(st.sampled_from(["recompute", "disable"]))} for _ in range(draw(st.integers(2, 5)))]
    return {"runs": runs, "nodep": draw(st.integers(0, 2)) == 0}


ITEMS = []
PSRC = """
def exp(xs: Any) -> Parallelizable[Any]:
    for x in xs:
        yield x

def b1(exp: Any, u: Any) -> Any:
    return _op('b1', 'mix', {kb}, [exp, u])

def b2(b1: Any, exp: Any) -> Any:
    return _op('b2', 'lst', 1, [b1, exp])

def col(b2: Collect[Any]) -> Any:
    return _op('col', 'lst', {kc}, [list(b2)])
"""


def check_par(case, ctx):
    d, mods = ctx.fresh_dir(), {}
    b1seen, b2seen, colseen = set(), set(), set()
    reuse = 0
    try:
        for i, r in enumerate(case["runs"]):
            src = PSRC.format(kb=r["kb"], kc=r["kc"])
            if case["nodep"]:  # the items come from outside of the dataflow
                src = src.replace("def exp(xs: Any)", "def exp()").replace("in xs:", "in _ITEMS:")
                ctx.note("expansion without dependencies")
            if src not in mods:
                mods[src] = dags.make_module(src, header=G.HEADER + "from checks.C18 import ITEMS as _ITEMS\n")
            ITEMS[:] = [G.dec(x) for x in r["items"]]
            kw = {r["how"]: [r["beh"]]} if r["beh"] else {}
            dr = configure_task(driver.Builder().with_modules(mods[src]).enable_dynamic_execution(allow_experimental_mode=True), "task:default:sync:sync").with_cache(path=d, **kw).build()
            G.CALLS.names = []
            res = dr.execute(["col"], inputs={"xs": [G.dec(x) for x in r["items"]], "u": r["u"]})
            got = Counter(G.CALLS.names)
            want = Counter()
            outs = []
            for x in r["items"]:
                k1 = json.dumps([x, r["u"], r["kb"]])
                if k1 not in b1seen or r["beh"] == "b1":
                    want["b1"] += 1
                if not (r["beh"] == "b1" and r["how"] == "disable"):
                    b1seen.add(k1)
                v1 = G.value_of("mix", r["kb"], [G.dec(x), r["u"]])
                k2 = json.dumps([v1, x])
                if r["beh"] == "b1" and r["how"] == "disable":
                    want["b2"] += 1
                else:
                    want["b2"] += k2 not in b2seen
                    b2seen.add(k2)
                outs.append([v1, x])
            kc = json.dumps([outs, r["kc"]])
            want["col"] += kc not in colseen or r["beh"] == "col"
            if not (r["beh"] == "col" and r["how"] == "disable"):
                colseen.add(kc)
            fresh = G.value_of("lst", r["kc"], [[G.value_of("lst", 1, [v1, G.dec(x)]) for v1, x in outs]])
            require(G.canon(res["col"]) == G.canon(fresh), "run %d over %r: result %r, expected %r", i, r["items"], res["col"], fresh)
            require(got == +want, "run %d over %r: functions called %s, expected %s (settings %s)", i, r["items"], dict(got), dict(+want), kw)
            reuse += sum(want.values()) < 2 * len(r["items"]) + 1
        ctx.nontrivial(reuse > 0)
    finally:
        dags.drop_modules(mods.values())


# ---------------------------------------------------------------- loaders, savers and the precedence of settings
@st.composite
def set_case(draw):
    b = st.sampled_from([None] * 5 + BEH)
    return {"tag_l": draw(b), "tag_s": draw(b), "dl": draw(b), "ds": draw(b), "dd": draw(b), "drv_l": draw(b), "drv_s": draw(b), "drv_g": draw(b), "changes": draw(st.lists(st.integers(0, 1), min_size=1, max_size=4)),
            "form": draw(st.sampled_from(["dataloader", "load_from"])), "sform": draw(st.sampled_from(["datasaver", "save_to"])), "via": draw(st.sampled_from(["builder", "builder", "adapter"]))}


LOADS = {"dataloader": "{t}@dataloader()\ndef dat(p: str) -> Tuple[dict, dict]:\n    return _read(p), {{}}\n\ndef got(dat: dict) -> Any:\n    return _op('got', 'lst', 0, [dat])\n",
         "load_from": "{t}@load_from.c18json(path=source('p'))\ndef got(dat: dict) -> Any:\n    return _op('got', 'lst', 0, [dat])\n"}
SAVES = {"datasaver": "{t}@datasaver()\ndef saved(got: Any, q: str) -> dict:\n    _write(got, q)\n    return {{'to': q}}\n", "save_to": "{t}@save_to.c18json(path=source('q'), output_name_='saved')\ndef sv(got: Any) -> list:\n    return got\n"}


def _read(p):
    G.CALLS.add("load")
    return json.load(open(p))


def _write(v, q):
    G.CALLS.add("save")
    with open(q, "w") as f:
        json.dump(v, f)


def setup_set():
    import dataclasses
    from typing import Any, Collection, Dict, Tuple, Type
    from hamilton.io.data_adapters import DataLoader, DataSaver
    from hamilton.registry import LOADER_REGISTRY, register_adapter
    setup()
    if "c18json" in LOADER_REGISTRY:
        return

    @dataclasses.dataclass
    class L(DataLoader):
        path: str

        @classmethod
        def applicable_types(cls):
            return [dict]

        @classmethod
        def name(cls):
            return "c18json"

        def load_data(self, type_):
            return _read(self.path), {}

    @dataclasses.dataclass
    class S(DataSaver):
        path: str

        @classmethod
        def applicable_types(cls):
            return [dict, list]

        @classmethod
        def name(cls):
            return "c18json"

        def save_data(self, data):
            _write(data, self.path)
            return {"to": self.path}
    register_adapter(L)
    register_adapter(S)


def check_set(case, ctx):
    """Which of the loader, the function in between and the saver are called by a run after the source changed (1) or did not (0)."""
    d, data = ctx.fresh_dir(), ctx.fresh_dir()
    p, q = os.path.join(data, "p"), os.path.join(data, "q")
    tag = lambda b: "@cache(behavior=%r)\n" % b if b else ""
    lf = case["form"] == "load_from"
    src = LOADS[case["form"]].format(t="" if lf else tag(case["tag_l"])) + "\n" + SAVES[case["sform"]].format(t="" if case["sform"] == "save_to" else tag(case["tag_s"]))
    mod = dags.make_module(src, header=G.HEADER + "from checks.C18 import _read, _write\n")
    try:
        kw = {}
        for n, b in (("dat", case["drv_l"]), ("saved", case["drv_s"]), ("got", case["drv_g"])):
            if b:
                kw.setdefault(b, []).append(n)
        for a, b in (("dl", "default_loader_behavior"), ("ds", "default_saver_behavior"), ("dd", "default_behavior")):
            if case[a]:
                kw[b] = case[a]
        # the adapter's loader and saver defaults fall back to its general default; the builder's own are "default"
        dd = case["dd"] if case["via"] == "adapter" else None
        bl = case["drv_l"] or (not lf and case["tag_l"]) or case["dl"] or dd or "default"
        bs = case["drv_s"] or (case["sform"] == "datasaver" and case["tag_s"]) or case["ds"] or dd or "default"
        bg = case["drv_g"] or case["dd"] or "default"
        binp = case["dd"] or "default"  # p and q themselves
        content, n = 0, 0
        m = Model()
        keys = {}

        def node(name, beh, value, deps, stored_value=None):
            """-> (called, version) of one node by the reference model"""
            if beh in ("disable", "ignore"):
                return True, value, None
            ds = []
            for dn, db, dver in deps:
                ds.append((dn, "<ignore>" if db == "ignore" else m.fresh() if db == "disable" else dver))
            key = json.dumps([name, ds])
            ver = m.meta.get(key)
            if beh == "default" and ver is not None:
                return False, m.results[ver], ver
            ver = m.meta[key] = json.dumps(value) if stored_value is None else stored_value + key
            m.results.setdefault(ver, value)
            return True, value, ver
        for ch in [1] + case["changes"]:
            if ch:
                content += 1
                with open(p, "w") as f:
                    json.dump({"k": content}, f)
            if os.path.exists(q):
                os.unlink(q)
            bld = driver.Builder().with_modules(mod)
            dr = (bld.with_cache(path=d, **kw) if case["via"] == "builder" else bld.with_adapters(HamiltonCacheAdapter(path=d, **kw))).build()
            G.CALLS.names = []
            res = dr.execute(["got", "saved"], inputs={"p": p, "q": q})
            calls = Counter(G.CALLS.names)
            lc, lv, lver = node("loader", bl, {"k": content}, [("p", binp, "p")])
            # the node that drops the loader's metadata has the loader's behaviour
            _, fv, fver = node("filter", bl, lv, [("loader", bl, lver)])
            gc, gv, gver = node("got", bg, ["lst", 0, fv], [("dat", bl, fver)])
            if case["sform"] == "save_to":
                gb, gname = ("default" if not case["dd"] else case["dd"]), "sv"
                _, svv, svver = node("sv", gb, gv, [("got", bg, gver)])
                deps = [("sv", gb, svver), ("q", binp, "q")]
            else:
                deps = [("got", bg, gver), ("q", binp, "q")]
            sc, _, _ = node("saved", bs, {"to": q}, deps, stored_value="saver") if bs != "x" else None
            want = Counter(load=lc, got=gc, save=sc)
            require(calls == +want, "loader/function/saver called %s, expected %s; loader %s function %s saver %s (%s)", dict(calls), dict(+want), bl, bg, bs, kw)
            require(res["got"] == gv, "got %r expected %r", res["got"], gv)
        ctx.note("loader " + bl, "saver " + bs, "set through the " + case["via"])
        ctx.nontrivial(bool(kw) or bool(case["tag_l"]) or bool(case["tag_s"]))
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- results are kept in the format asked for
@st.composite
def fmt_case(draw):
    n = draw(st.integers(1, 4))
    fns = [{"fmt": draw(st.sampled_from([None, "json", "json", "pickle"])), "beh": draw(st.sampled_from([None, None, None, "recompute"]))} for _ in range(n)]
    runs = [{"k": [draw(st.integers(0, 1)) for _ in fns], "del": draw(st.sampled_from([None, None, "one", "all", "plain"])), "x": draw(st.integers(0, 20)), "req": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))} for _ in range(draw(st.integers(1, 4)))]
    return {"fns": fns, "runs": runs}


def check_fmt(case, ctx):
    d, mods = ctx.fresh_dir(), []
    shared = False
    try:
        for ri, r in enumerate(case["runs"]):
            src = "".join("%sdef f%d(i%d: int) -> dict:\n    return {'v': i%d, 'l': ['x', i%d]}\n\n" % (
                "@cache(%s)\n" % ", ".join(["%s=%r" % (a, f[b]) for a, b in (("format", "fmt"), ("behavior", "beh")) if f[b]]) if f["fmt"] or f["beh"] else "", j, j, j, j) for j, f in enumerate(case["fns"]))
            if not mods:
                mods.append(dags.make_module(src, header=G.HEADER))
            if r["del"]:
                fs = sorted(p for p in os.listdir(d) if "metadata_store" not in p and os.path.isfile(os.path.join(d, p)) and ("." in p) == (r["del"] != "plain"))
                for p in fs if r["del"] == "all" else fs[r["x"] % len(fs):][:1] if fs else []:
                    os.unlink(os.path.join(d, p))
                    ctx.note("a stored file was removed")
            dr = driver.Builder().with_modules(mods[0]).with_cache(path=d).build()
            res = dr.execute(["f%d" % j for j in r["req"]], inputs={"i%d" % j: k for j, k in enumerate(r["k"])})
            vers = dr.cache.data_versions[dr.cache.last_run_id]
            for j in r["req"]:
                want = {"v": r["k"][j], "l": ["x", r["k"][j]]}
                require(res["f%d" % j] == want, "run %d: f%d is %r instead of %r", ri, j, res["f%d" % j], want)
                fmt = case["fns"][j]["fmt"]
                if fmt:
                    v = vers["f%d" % j]
                    p = os.path.join(d, "%s.%s" % (v, fmt))
                    require(os.path.exists(p), "run %d: the result of f%d, to be kept as %s, is not (files %s)", ri, j, fmt, sorted(os.listdir(d)))
                    if fmt == "json":
                        require(json.load(open(p)) == want, "run %d: the file of f%d holds %r", ri, j, open(p).read())
                    else:
                        require(pd.read_pickle(p) == want, "run %d: the file of f%d holds another value", ri, j)
            shared |= len({case["fns"][j]["fmt"] for j in r["req"]}) > 1 and len({r["k"][j] for j in r["req"]}) < len(r["req"])
        ctx.nontrivial(shared or any(r["del"] for r in case["runs"][1:]))
    finally:
        dags.drop_modules(mods)


# ---------------------------------------------------------------- contradictory settings
def contra_cases(tier):
    return [{"a": a, "b": b, "all": al} for a in BEH for b in BEH if a != b for al in (False, True)]


def check_contra(case, ctx):
    mod = dags.make_module("def n0(i0: int) -> int:\n    return _op('n0', 'small', 0, [i0])\n", header=G.HEADER)
    try:
        kw = {case["a"]: True, case["b"]: True} if case["all"] else {case["a"]: ["n0"], case["b"]: ["n0"]}
        G.CALLS.names = []
        try:
            driver.Builder().with_modules(mod).with_cache(path=ctx.fresh_dir(), **kw).build().execute(["n0"], inputs={"i0": 1})
        except ValueError:
            pass
        else:
            raise Violation("contradictory settings %s were accepted" % kw)
        require(not G.CALLS.names, "a function ran before contradictory settings were rejected")
        ctx.nontrivial()
    finally:
        dags.drop_modules([mod])


PARTS = [
    Part("history", lambda: case_(), check, 900, 12000, "something was served from the cache in a history with changes or per-node settings", shards=5, tshards=7, setup=setup),
    Part("items", lambda: par_case(), check_par, 150, 1200, "some run reuses item results of another", shards=1, tshards=3, setup=setup),
    Part("settings", lambda: set_case(), check_set, 350, 3000, "some behaviour is set", shards=2, tshards=4, setup=setup_set),
    Part("formats", lambda: fmt_case(), check_fmt, 200, 4000, "the same value is kept in several formats, or a stored file was removed", shards=1, tshards=3, setup=setup),
    Part("contradictions", None, check_contra, 0, 0, "every pair of different behaviours", shards=1, tshards=1, enumerate_cases=contra_cases),
]
