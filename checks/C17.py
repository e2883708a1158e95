"""C17: over any history sharing a cache, a cached execution returns what an uncached one would."""
import copy, glob, json, logging, os, shutil
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from hamilton import driver, registry
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
from vlib.core import Part, Violation, require
from vlib import cachegen as G, dags
from vlib.drv import configure_task

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated execution histories over a shared cache, differential against the same execution without a cache"
NOTE = "Values whose fingerprints are known to collide (known findings of C19) are kept out of the generator."


def setup():
    registry.load_extension("pandas")


MODES = ["builder", "builder", "builder", "task:default:sync:sync", "task:default:thread2:thread3", "task:nodes:sync:sync", "task:level:sync:sync", "task:asone:sync:sync", "task:level:thread2:thread2"]
DECOS = ("plain", "plain", "plain", "param", "fields", "when", "cfgin", "sub", "pipe")


@st.composite
def run_op(draw, outs, first=False):
    op = {}
    acts = []
    if not first:
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
            acts.append(draw(st.one_of(
                st.fixed_dictionaries({"a": st.just("edit"), "fn": st.integers(0, 9), "what": st.sampled_from(["k", "k", "lit", "kind", "default", "params", "comment"]), "v": st.integers(0, 5)}),
                st.fixed_dictionaries({"a": st.sampled_from(["reopen", "delmeta", "delresults", "switch", "undo", "mutout"])}),
                st.fixed_dictionaries({"a": st.just("delfile"), "i": st.integers(0, 20)}),
                st.fixed_dictionaries({"a": st.just("mutin"), "n": st.sampled_from(["i0", "i1"])}),
                st.fixed_dictionaries({"a": st.just("in"), "n": st.sampled_from(["i0", "i1", "i2"]), "v": G.val}),
                st.fixed_dictionaries({"a": st.just("cfg"), "n": st.sampled_from(["mode", "knob"]), "v": st.integers(0, 1)}))))
    op["acts"] = acts
    op["req"] = draw(st.lists(st.sampled_from(outs), min_size=1, max_size=3, unique=True)) if draw(st.booleans()) else [outs[-1]]
    op["ov"] = {draw(st.sampled_from(outs)): draw(G.val)} if draw(st.integers(0, 4)) == 0 else {}
    op["beh"] = {n: draw(st.sampled_from(["recompute", "disable", "default"])) for n in draw(st.lists(st.sampled_from(outs), max_size=2, unique=True))} if draw(st.integers(0, 4)) == 0 else {}
    op["default_behavior"] = draw(st.sampled_from([None] * 9 + ["recompute", "disable", "default"]))
    op["new"] = draw(st.integers(0, 2)) == 0
    return op


@st.composite
def case_(draw, decos=DECOS, kinds=G.KINDS + ["boom"]):
    proj = draw(G.project(decos=decos, kinds=kinds, fmts=True))
    if draw(st.integers(0, 3)) == 0:
        for f in proj["fns"]:
            if draw(st.integers(0, 3)) == 0:
                f["behavior"] = draw(st.sampled_from(["recompute", "disable", "default"]))
    outs = G.all_outputs(proj)
    store = draw(st.sampled_from(["disk", "disk", "disk", "mem", "memmeta", "memres"]))
    ops = [draw(run_op(outs, i == 0)) for i in range(draw(st.integers(2, 7)))]
    return {"proj": proj, "store": store, "mode": draw(st.sampled_from(MODES)), "ops": ops, "inputs": {"i0": draw(G.val), "i1": draw(G.val)}, "i2": draw(st.one_of(st.none(), G.val.map(lambda v: {"v": v}))),
            "cfg": {"mode": draw(st.integers(0, 1)), "knob": draw(st.integers(0, 1))}}


def edit(proj, act):
    p = copy.deepcopy(proj)
    f = p["fns"][act["fn"] % len(p["fns"])]
    w, v = act["what"], act["v"]
    if w == "k":
        f["k"] = v % 3
    elif w == "lit":
        f["lit"] = v % 3
    elif w == "kind":
        if f["kind"] not in ("json",) and f["deco"] != "fields":
            f["kind"] = G.KINDS[v % 8]
    elif w == "default":
        if f["opt"]:
            f["opt"]["default"] = [0, 1, None, "s0", 2, "s1"][v]
    elif w == "params":
        if len(f["params"]) > 1:
            f["params"] = f["params"][1:] + f["params"][:1] if v % 2 else f["params"][1:]
    else:
        f["comment"] = "c%d" % v
    return p


def mutate(v):
    """Change a value in place, if it can be."""
    if isinstance(v, list):
        v.append(2)
    elif isinstance(v, dict):
        v["zz"] = 9
    elif isinstance(v, set):
        v.add("zz")
    elif isinstance(v, pd.DataFrame):
        v["zz"] = 1
    elif isinstance(v, pd.Series):
        v.iloc[0] = 99
    elif isinstance(v, np.ndarray) and v.size:
        v[0] = 99
    elif isinstance(v, G.Pt):
        v.x = 77
    else:
        return False
    return True


def overrides(proj, spec):
    fields = {f["name"] for f in proj["fns"] if f["deco"] == "fields"}
    return {k: {k + "_a": G.dec(v), k + "_b": G.dec(v)} if k in fields else G.dec(v) for k, v in spec.items()}


class World:
    def __init__(self, case, d):
        self.d, self.kind, self.n = d, case["store"], 0
        self.open()

    def open(self):
        mem_meta, mem_res = self.kind in ("mem", "memmeta"), self.kind in ("mem", "memres")
        if self.n == 0 or not mem_meta:
            self.meta = InMemoryMetadataStore() if mem_meta else SQLiteMetadataStore(path=self.d)
        if self.n == 0 or not mem_res:
            self.res = InMemoryResultStore() if mem_res else FileResultStore(path=self.d)
        self.n += 1

    def files(self):
        return sorted(p for p in glob.glob(os.path.join(self.d, "*")) + glob.glob(os.path.join(self.d, "*", "*")) if os.path.isfile(p) and "metadata_store" not in p)


def build(mod, mode, config, world=None, cachekw=None):
    b = driver.Builder().with_modules(mod).with_config(config)
    if mode != "builder":
        b = configure_task(b.enable_dynamic_execution(allow_experimental_mode=True), mode)
    if world:
        b = b.with_cache(path=world.d, metadata_store=world.meta, result_store=world.res, **cachekw)
    return b.build()


def outcome(f):
    try:
        r = f()
        return "ok", {k: G.canon(v) for k, v in r.items()}, r
    except G.Boom as e:
        return "boom", str(e), None


def check(case, ctx):
    d = ctx.fresh_dir()
    world = World(case, d)
    proj, past = case["proj"], []
    live = {k: G.dec(v) for k, v in case["inputs"].items()}
    if case["i2"] is not None:
        live["i2"] = G.dec(case["i2"]["v"])
    cfg = dict(case["cfg"])
    mods, drivers, last = {}, {}, None
    hits = changes = 0
    try:
        for oi, op in enumerate(case["ops"]):
            for act in op["acts"]:
                a = act["a"]
                changes += a in ("edit", "in", "cfg", "switch", "undo", "mutin")
                if a == "edit":
                    past.append(proj)
                    proj = edit(proj, act)
                elif a == "undo" and past:
                    proj = past.pop(0)
                elif a == "reopen":
                    world.open()
                    drivers = {}
                elif a == "delmeta":
                    world.meta.delete_all()
                elif a == "delresults":
                    world.res.delete_all()
                elif a == "delfile":
                    fs = world.files()
                    if fs:
                        os.unlink(fs[act["i"] % len(fs)])
                elif a == "mutin":
                    mutate(live.get(act["n"]))
                elif a == "mutout" and last and case["store"] in ("disk", "memmeta"):
                    for v in last.values():
                        mutate(v)
                elif a == "in":
                    live[act["n"]] = G.dec(act["v"])
                elif a == "cfg":
                    cfg[act["n"]] = act["v"]
                elif a == "switch" and case["store"] == "disk":  # copy the cache elsewhere and carry on there
                    nd = ctx.fresh_dir()
                    shutil.copytree(world.d, nd, dirs_exist_ok=True)
                    world.d, drivers = nd, {}
                    world.open()
            src = G.proj_src(proj)
            if src not in mods:
                mods[src] = dags.make_module(src, header=G.HEADER)
            config = {"mode": "xy"[cfg["mode"]], "knob": cfg["knob"]}
            kw = {b: [n for n, x in op["beh"].items() if x == b] for b in ("recompute", "disable", "default")}
            kw = {b: v for b, v in kw.items() if v}
            if op["default_behavior"]:
                kw["default_behavior"] = op["default_behavior"]
            key = json.dumps([src, config, kw], sort_keys=True)
            if op["new"] or key not in drivers:
                drivers[key] = build(mods[src], case["mode"], config, world, kw)
            req = [r for r in op["req"]]
            ov = overrides(proj, op["ov"])
            G.CALLS.names = []
            got = outcome(lambda: drivers[key].execute(req, inputs=dict(live), overrides=dict(ov)))
            called = len(G.CALLS.names)
            last = got[2]
            G.CALLS.names = []
            want = outcome(lambda: build(mods[src], "builder", config).execute(req, inputs=dict(live), overrides=dict(ov)))
            require(got[:2] == want[:2], "run %d of %r with the cache gives %s, without it %s\nsource:\n%s", oi, req, got[:2], want[:2], src)
            if called < len(G.CALLS.names):
                hits += 1
                ctx.note("served from the cache")
            if want[0] == "boom":
                ctx.note("failing run")
        ctx.note("store:" + case["store"], "task" if case["mode"] != "builder" else "plain")
        ctx.nontrivial(hits > 0 and changes > 0)
    finally:
        dags.drop_modules(mods.values())


# ---------------------------------------------------------------- parallel blocks under a cache
@st.composite
def par_case(draw):
    runs = []
    for i in range(draw(st.integers(2, 5))):
        runs.append({"items": draw(st.lists(st.sampled_from([0, 1, 2, 3, "s1", None, {"k": 1}, {"$": "pt", "v": 1}, {"$": "df", "v": 0}, {"$": "cplx", "v": 1}]), max_size=5)), "u": draw(st.integers(0, 1)), "ke": draw(st.integers(0, 1)), "kb": draw(st.integers(0, 1)),
                     "kc": draw(st.integers(0, 1)), "reopen": draw(st.booleans()), "del": draw(st.sampled_from([None, None, None, "delmeta", "delresults", 0, 3])),
                     "beh": draw(st.sampled_from([{}, {}, {}, {"b1": "recompute"}, {"b1": "disable"}, {"col": "disable"}, {"b2": "recompute"}, {"pre": "disable"}]))})
        if i and draw(st.integers(0, 2)):  # as an earlier run but for one thing
            r = dict(runs[draw(st.integers(0, i - 1))], reopen=runs[i]["reopen"], beh={}, **{"del": None})
            w, it = draw(st.sampled_from(["reverse", "reverse", "rotate", "dup", "drop", "same", "u", "ke", "kb", "kc"])), r["items"]
            if w in ("u", "ke", "kb", "kc"):
                r[w] = 1 - r[w]
            else:
                r["items"] = {"reverse": it[::-1], "rotate": it[1:] + it[:1], "dup": it + it[-1:], "drop": it[1:], "same": it}[w]
            runs[i] = r
    return {"runs": runs, "two": draw(st.booleans()), "pre": draw(st.booleans()), "kind": draw(st.sampled_from(["mix", "lst", "small", "first", "maybe", "df", "pt"])), "ckind": draw(st.sampled_from(["lst", "mix"])),
            "ex": draw(st.sampled_from(["sync", "thread2", "thread4"])), "pick": draw(st.booleans())}


PAR = """
def pre(u: Any) -> Any:
    return _op('pre', 'mix', 1, [u])

def exp(xs: Any, u: Any) -> Parallelizable[Any]:
    for x in _xs(xs, u, {ke}):
        yield x

def b1(exp: Any{bpre}) -> Any:
    return _op('b1', {kind!r}, {kb}, [exp{bprea}])
{b2}
def col({last}: Collect[Any], u: Any) -> Any:
    return _op('col', {ckind!r}, {kc}, [list({last}), u])

def fin(col: Any, pre: Any) -> Any:
    return _op('fin', 'lst', 0, [col, pre])
"""


def _xs(xs, u, ke):
    G.CALLS.add("exp")
    return [x for x in xs] + ([["lst", u]] if ke else [])


def check_par(case, ctx):
    d = ctx.fresh_dir()
    mods, hits, changes, prev = {}, 0, 0, None
    meta, res = SQLiteMetadataStore(path=d), FileResultStore(path=d)
    try:
        for i, r in enumerate(case["runs"]):
            if r["reopen"]:
                meta, res = SQLiteMetadataStore(path=d), FileResultStore(path=d)
            if r["del"] == "delmeta":
                meta.delete_all()
            elif r["del"] == "delresults":
                res.delete_all()
            elif r["del"] is not None:
                fs = sorted(p for p in glob.glob(os.path.join(d, "*")) if os.path.isfile(p) and "metadata_store" not in p)
                if fs:
                    os.unlink(fs[r["del"] % len(fs)])
            b2 = "def b2(b1: Any, exp: Any) -> Any:\n    return _op('b2', 'lst', 1, [b1, exp])\n" if case["two"] else ""
            src = PAR.format(ke=r["ke"], kb=r["kb"], kc=r["kc"], kind=case["kind"], ckind=case["ckind"], b2=b2, last="b2" if case["two"] else "b1", bpre=", pre: Any" if case["pre"] else "", bprea=", pre" if case["pre"] else "")
            if src not in mods:
                mods[src] = dags.make_module(src, header=G.HEADER + "from checks.C17 import _xs\n")
            kw = {}
            for n, b in r["beh"].items():
                if n != "b2" or case["two"]:
                    kw.setdefault(b, []).append(n)

            def mk(cached):
                bld = driver.Builder().with_modules(mods[src]).enable_dynamic_execution(allow_experimental_mode=True)
                bld = configure_task(bld, "task:default:sync:" + case["ex"])
                if cached:
                    bld = bld.with_cache(path=d, metadata_store=meta, result_store=res, **kw)
                return bld.build()
            ins = lambda: {"xs": [G.dec(x) for x in r["items"]], "u": r["u"]}
            G.CALLS.names = []
            got = outcome(lambda: mk(True).execute(["fin", "col"], inputs=ins()))
            called = len(G.CALLS.names)
            G.CALLS.names = []
            want = outcome(lambda: mk(False).execute(["fin", "col"], inputs=ins()))
            require(got[:2] == want[:2], "run %d with the cache gives %s, without it %s\n%s", i, got[:2], want[:2], src)
            hits += called < len(G.CALLS.names)
            changes += prev is not None and prev != (src, repr(r["items"]), r["u"])
            prev = (src, repr(r["items"]), r["u"])
        ctx.nontrivial(hits > 0 and changes > 0)
    finally:
        dags.drop_modules(mods.values())


# ---------------------------------------------------------------- loaders and savers under a cache
IOSRC = {
    "from": "def got(dat: dict) -> Any:\n    return _op('got', 'lst', {k}, [dat])\n",
    "load_from": "@load_from.json(path=source('p'))\ndef got(dat: dict) -> Any:\n    return _op('got', 'lst', {k}, [dat])\n",
    "load_from_lit": "@load_from.json(path=value({path!r}))\ndef got(dat: dict) -> Any:\n    return _op('got', 'lst', {k}, [dat])\n",
    "dataloader": "@dataloader()\ndef dat(p: str) -> Tuple[dict, dict]:\n    return _read(p), {{'at': 's'}}\n\ndef got(dat: dict) -> Any:\n    return _op('got', 'lst', {k}, [dat])\n",
    "dataloader_t": "@dataloader()\ndef dat(p: str) -> Tuple[tuple, dict]:\n    x = _read(p)\n    return (x['k'], {k}, [x]), {{'at': 's'}}\n\ndef got(dat: tuple) -> Any:\n    return _op('got', 'lst', {k}, [dat])\n",
}
IOTAIL = """
def out(got: Any, v: Any) -> dict:
    return {{'k': _op('out', 'mix', {k2}, [got, v])}}

def after(out: Any) -> Any:
    return _op('after', 'lst', 1, [out])
"""
SAVERS = {
    "none": "",
    "datasaver": "@datasaver()\ndef saved(out: dict, q: str) -> dict:\n    _write(out, q)\n    return {{'to': q}}\n",
    "save_to": "@save_to.json(path=source('q'), output_name_='saved')\ndef sv(out: dict) -> dict:\n    return out\n",
}


def _read(p):
    with open(p) as f:
        return json.load(f)


def _write(o, p):
    with open(p, "w") as f:
        json.dump(o, f)


@st.composite
def io_case(draw):
    runs = [{"path": draw(st.integers(0, 1)), "content": draw(st.one_of(st.none(), st.integers(0, 2))), "v": draw(st.integers(0, 1)), "q": draw(st.integers(0, 1)), "k": draw(st.integers(0, 1)), "k2": draw(st.integers(0, 1)),
             "swap": draw(st.booleans())} for _ in range(draw(st.integers(1, 3)))]
    for _ in range(draw(st.integers(1, 4))):
        # one earlier run again, mostly with a single difference
        r = dict(draw(st.sampled_from(runs)))
        f = draw(st.sampled_from(["path", "v", "q", "q", "k", "k2", "content", None]))
        if f == "content":
            r[f] = draw(st.one_of(st.none(), st.integers(0, 2)))
        elif f:
            r[f] = 1 - r[f]
        runs.append(r)
    return {"runs": runs, "load": draw(st.sampled_from(sorted(IOSRC))), "save": draw(st.sampled_from(sorted(SAVERS) + ["to"])), "task": draw(st.integers(0, 3)) == 0, "sb": draw(st.sampled_from(["recompute", "recompute", "default"])), "lb": draw(st.sampled_from(["recompute", "recompute", "default"]))}


def check_io(case, ctx):
    """What a loader reads is outside the dataflow: with the loader set to recompute (the documented setting for changing sources), every run must see the current
    content and path; whatever a saver returned earlier for other data must not come back."""
    from hamilton.io.materialization import from_, to
    d, data = ctx.fresh_dir(), ctx.fresh_dir()
    # a saver that is cached need not write again, but what it returns is what saving this data there returns
    skip_files = case.get("sb") == "default" and case["save"] != "none"
    paths = [os.path.join(data, "p%d.json" % i) for i in range(2)]
    outs = [os.path.join(data, "q%d.json" % i) for i in range(2)]
    for i, p in enumerate(paths):
        _write({"k": "s%d" % i}, p)
    mods, changes = {}, set()
    try:
        for i, r in enumerate(case["runs"]):
            if r["content"] is not None and case.get("lb") != "default":  # a cached loader does not see that the file changed
                _write({"k": "c%d" % r["content"]}, paths[r["path"]])
            src = (IOSRC[case["load"]] + IOTAIL + SAVERS.get(case["save"], "")).format(k=r["k"], k2=r["k2"], path=paths[r["path"]])
            if src not in mods:
                mods[src] = dags.make_module(src, header=G.HEADER + "from checks.C17 import _read, _write\n")
            changes.add((src, r["path"], r["content"], r["v"], r["q"]))

            def mk(cached):
                b = driver.Builder().with_modules(mods[src])
                if case["task"]:
                    b = b.enable_dynamic_execution(allow_experimental_mode=True)
                ms = []
                if case["load"] == "from":
                    ms.append(from_.json(target="dat", path=paths[r["path"]]))
                if case["save"] == "to":
                    ms.append(to.json(id="saved", dependencies=["out"], path=outs[r["q"]]))
                if ms:
                    b = b.with_materializers(*ms)
                if cached:
                    b = b.with_cache(path=d, default_loader_behavior=case.get("lb", "recompute"), default_saver_behavior="default" if skip_files else "recompute")
                return b.build()
            ins = {"v": r["v"]}
            if case["load"] in ("load_from", "dataloader", "dataloader_t"):
                ins["p"] = paths[r["path"]]
            if case["save"] in ("datasaver", "save_to"):
                ins["q"] = outs[r["q"]]
            req = ["after"] + ([] if case["save"] == "none" else ["saved"])

            def run(cached):
                for o in outs:
                    if os.path.exists(o):
                        os.unlink(o)
                res = mk(cached).execute(req, inputs=ins)
                files = {os.path.basename(o): open(o).read() for o in outs if os.path.exists(o)}
                meta = res.pop("saved", None)
                if isinstance(meta, dict):
                    meta = meta.get("to") or (meta.get("file_metadata") or {}).get("path")
                return {k: G.canon(v) for k, v in res.items()}, meta, None if skip_files else files
            got, want = run(True), run(False)
            require(got == want, "run %d with the cache gives %s, without it %s\n%s", i, got, want, src)
        ctx.nontrivial(len(changes) > 1)
    finally:
        dags.drop_modules(mods.values())


# ---------------------------------------------------------------- several processes sharing a cache at the same time
@st.composite
def conc_case(draw):
    proj = draw(G.project(decos=("plain",), kinds=["mix", "small", "lst", "maybe", "df", "pt", "first"], fmts=True, max_fns=4))
    return {"proj": proj, "procs": draw(st.lists(st.fixed_dictionaries({"i0": st.integers(0, 1), "k": st.integers(0, 1), "times": st.integers(1, 3)}), min_size=2, max_size=4))}


def check_conc(case, ctx):
    import pickle, signal, sys
    d = ctx.fresh_dir()
    outs, mods, wants = G.all_outputs(case["proj"]), [], []
    for p in case["procs"]:
        q = copy.deepcopy(case["proj"])
        q["fns"][0]["k"] += 3 * p["k"]
        mods.append(G.module(q))
    try:
        for p, m in zip(case["procs"], mods):
            wants.append({k: G.canon(v) for k, v in build(m, "builder", {}).execute(outs, inputs={"i0": p["i0"], "i1": 1}).items()})
        go_r, go_w = os.pipe()
        kids = []
        for p, m in zip(case["procs"], mods):
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(go_w)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(90)
                    os.read(go_r, 1)
                    res = []
                    try:
                        for _ in range(p["times"]):
                            dr = driver.Builder().with_modules(m).with_cache(path=d).build()
                            res.append({k: G.canon(v) for k, v in dr.execute(outs, inputs={"i0": p["i0"], "i1": 1}).items()})
                    except BaseException as e:
                        res.append(repr(e))
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        os.close(go_r)
        os.close(go_w)
        for (pid, r), want, p in zip(kids, wants, case["procs"]):
            with os.fdopen(r, "rb") as f:
                buf = f.read()
            os.waitpid(pid, 0)
            require(buf, "a process sharing the cache died")
            for got in pickle.loads(buf):
                if isinstance(got, str) and "database is locked" in got:
                    ctx.note("timed out waiting for the database")
                    continue
                require(got == want, "a process sharing the cache with others gets %s, expected %s", got, want)
        ctx.nontrivial(len(case["procs"]) > 1)
    finally:
        dags.drop_modules(mods)


PARTS = [
    Part("concurrent", lambda: conc_case(), check_conc, 60, 1500, "two or more processes", shards=2, tshards=3, setup=setup),
    Part("history", lambda: case_(), check, 500, 12000, "some execution was served at least partly from the cache and the history changed code, inputs or configuration", shards=6, tshards=7, setup=setup),
    Part("parallel", lambda: par_case(), check_par, 80, 1600, "some execution was served partly from the cache and the history changed code or inputs", shards=2, tshards=4, setup=setup),
    Part("io", lambda: io_case(), check_io, 50, 800, "the history has at least two different executions", shards=1, tshards=2, setup=setup),
]


# ---------------------------------------------------------------- known findings (DESIGN.md): each must still reproduce exactly as listed
def _two_runs(srcs, inputs=({}, {}), request="out", configs=({}, {}), mem=False, mutate_first=False):
    import tempfile
    d = tempfile.mkdtemp(prefix="c17known")
    mods = [dags.make_module(s, header=G.HEADER) for s in srcs]
    try:
        kw = dict(metadata_store=InMemoryMetadataStore(), result_store=InMemoryResultStore()) if mem else {}
        got = []
        for m, i, c in zip(mods, inputs, configs):
            cfg = {"hamilton.enable_power_user_mode": True, **c}
            got.append(driver.Builder().with_modules(m).with_config(cfg).with_cache(path=d, **kw).build().execute([request], inputs=i)[request])
            if mutate_first and len(got) == 1:
                mutate(got[0])
        want = driver.Builder().with_modules(mods[1]).with_config({"hamilton.enable_power_user_mode": True, **configs[1]}).build().execute([request], inputs=inputs[1])[request]
        return G.canon(got[1]) != G.canon(want)
    finally:
        dags.drop_modules(mods)
        shutil.rmtree(d, ignore_errors=True)


def known_step_body():
    src = "def _s(x: Any) -> Any:\n    return [x, %d]\n\n@pipe_output(step(_s))\ndef out(u: int) -> Any:\n    return u\n"
    return _two_runs([src % 1, src % 2], ({"u": 1}, {"u": 1}))


def known_does_body():
    src = "def _d(**kw) -> int:\n    return kw['u'] + %d\n\n@does(_d)\ndef out(u: int) -> int:\n    pass\n"
    return _two_runs([src % 1, src % 2], ({"u": 1}, {"u": 1}))


def known_resolve():
    src = "@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda w: parameterize(out=dict(lit=value(w))))\ndef fn(u: int, lit: int) -> int:\n    return u + lit\n"
    return _two_runs([src, src], ({"u": 1}, {"u": 1}), configs=({"w": 1}, {"w": 2}))


def known_type_collision():
    src = "def a(u: Any) -> Any:\n    return u\n\ndef out(a: Any) -> Any:\n    return ['lst', a]\n"
    return _two_runs([src, src], ({"u": 1}, {"u": "1"}))


def known_memory_shared():
    src = "def out(u: int) -> list:\n    return [u]\n"
    return _two_runs([src, src], ({"u": 1}, {"u": 1}), mem=True, mutate_first=True)


KNOWN = {"step-body": known_step_body, "does-body": known_does_body, "resolve-config": known_resolve, "type-collision": known_type_collision, "memory-shared": known_memory_shared}
