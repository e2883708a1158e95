"""C29: a driver's answer depends only on the call, not on its past."""
import asyncio, copy, importlib.machinery, logging, re
from hypothesis import strategies as st
from hamilton import async_driver, base, driver, registry
from hamilton.execution import executors
from hamilton.io.materialization import to, from_
from hamilton.lifecycle import api as lapi, default as ldefault
from vlib.core import Part, require
from vlib import dags, decogen

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "stateful property-based testing: generated call histories over drivers, builders and copies sharing modules; each answer against a driver freshly built from re-imported modules that answers only that call"

EXTRA = '''
def boom(i: int) -> int:
    """fails for some inputs"""
    if i % 3 == 0:
        raise ValueError("boom %d" % i)
    return _h("boom", i)


def box(j: int, k: int = 4) -> dict:
    return {"j": j, "k": [k]}


def unbox(box: dict, i: int) -> int:
    return _h("unbox", sorted(box), i)


@config.when_not(flavour="x")
def flav__d(i: int) -> int:
    return _h("flav d", i)


@config.when(flavour="x")
def flav__x(j: int) -> int:
    return _h("flav x", j)


@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda reps=2: parameterize(**{"rep_%d" % r: {"u": value(r)} for r in range(reps)}))
def rep(u: int, i: int) -> int:
    return _h("rep", u, i)
'''
PAR = '''
from hamilton.htypes import Parallelizable, Collect


def par_items(i: int) -> Parallelizable[int]:
    for q in range(i % 4):
        yield q


def par_work(par_items: int, j: int) -> int:
    if par_items == 2 and j % 5 == 0:
        raise ValueError("par")
    return _h("w", par_items, j)


def par_more(par_work: int, par_items: int) -> int:
    return par_work + par_items


def par_all(par_more: Collect[int], k: int) -> int:
    return _h("all", sorted(par_more), k)
'''


def setup():
    registry.load_extension("pandas")


class Rec(lapi.NodeExecutionHook, lapi.GraphExecutionHook):
    def __init__(self):
        self.log = []

    def run_before_node_execution(self, *, node_name, node_kwargs, **kw):
        self.log.append(("pre", node_name, repr(sorted(node_kwargs.items(), key=repr))))

    def run_after_node_execution(self, *, node_name, result, error, success, **kw):
        self.log.append(("post", node_name, success, repr(error)))

    def run_before_graph_execution(self, *, final_vars, inputs, overrides, **kw):
        self.log.append(("start", tuple(final_vars), repr(sorted((inputs or {}).items())), repr(sorted((overrides or {}).items(), key=repr))))

    def run_after_graph_execution(self, *, success, error, **kw):
        self.log.append(("end", success, repr(error)))


ADAPTERS = {
    "rec": Rec,
    "graceful": lambda: ldefault.GracefulErrorAdapter(error_to_catch=ValueError, sentinel_value=None),
    "types": ldefault.FunctionInputOutputTypeChecker,
    "dict": base.DictResult,
}


# ---------------------------------------------------------------- specifications of builders
def spec0(mods):
    return {"mods": mods, "cfg": [], "adapters": [], "legacy": False, "mats": [], "over": False, "dyn": None, "api": "builder"}


def fork(s):
    return {k: (list(v) if isinstance(v, list) else v) for k, v in s.items()}


def merged(s):
    c = {}
    for d in s["cfg"]:
        c.update(d)
    return c


def mat_of(m, mods, byfn=None):
    if m[0] == "from":
        return from_.literal(target=m[1], value=m[2])
    return to.memory(id=m[1], dependencies=list(m[2]), combine=base.DictResult())


CALLS = ["execute", "execute", "execute", "execute", "raw", "materialize", "materialize", "list", "list_tag", "upstream", "downstream", "path", "validate", "validate_mat", "draw", "draw_all", "draw_mat", "draw_path", "export", "cycles", "fresh_inputs"]


@st.composite
def case_st(draw):
    c = draw(decogen.blocks(min_n=1, max_n=4))
    c["par"] = draw(st.integers(0, 2)) == 0
    n = draw(st.integers(3, 14))
    ops = [{"op": "builder", "dyn": draw(st.sampled_from([None, None, "sync", "thread"])), "legacy": draw(st.integers(0, 4)) == 0, "over": draw(st.integers(0, 4)) == 0, "mods": 0}, {"op": "build", "b": 0}]
    for _ in range(n):
        op = draw(st.sampled_from(["call"] * 10 + ["build", "build", "builder", "copy", "config", "config", "adapter", "mat", "module", "direct", "copy_driver", "allow"]))
        o = {"op": op, "b": draw(st.integers(0, 3)), "d": draw(st.integers(0, 5))}
        if op == "call":
            o["call"] = draw(st.sampled_from(CALLS))
            o["req"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=3))
            o["inp"] = draw(st.integers(0, 3))
            o["ov"] = draw(st.integers(0, 5))
            o["missing"] = draw(st.integers(0, 9)) == 0
            o["from"] = draw(st.integers(0, 3)) == 0
        elif op == "builder":
            o.update(dyn=draw(st.sampled_from([None, "sync", "thread"])), legacy=draw(st.integers(0, 4)) == 0, over=draw(st.booleans()), mods=draw(st.integers(0, 2)))
        elif op in ("config", "direct"):
            o["cfg"] = draw(st.sampled_from([{}, {"mode": "A"}, {"mode": "B"}, {"i": 3}, {"i": 5}, {"flavour": "x"}, {"flavour": "y"}, {"reps": 3}, {"reps": 1}, {"k": 8}, {"extra": 1}]))
        elif op == "adapter":
            o["kind"] = draw(st.sampled_from(sorted(ADAPTERS)))
        elif op == "mat":
            o["m"] = draw(st.sampled_from([("from", "i", 7), ("from", "j", 9), ("from", "newvar", 1), ("to", "saved", ("boom",)), ("to", "saved2", ("flav", "boom"))]))
        ops.append(o)
    c["ops"] = ops
    c["ovs"] = draw(st.lists(st.lists(st.integers(0, 60), max_size=2), min_size=3, max_size=3))
    return c


def sources(case):
    srcs = decogen.render(case)
    srcs[0] += EXTRA
    if case["par"]:
        srcs[0] += PAR
    out = [s for s in srcs if s]
    n = case["blocks"][0]["n"]
    out.append("def boom(j: int) -> int:\n    return _h('other boom', j)\n\ndef later(boom: int, i: int) -> int:\n    return _h('later', boom, i)\n")
    return out


def load(case, srcs, which):
    """which: indices of sources."""
    out = {i: dags.make_module(srcs[i], header=decogen.HEADER + "from hamilton.function_modifiers import resolve, ResolveAt\n") for i in which}
    for m in out.values():
        m.__spec__ = importlib.machinery.ModuleSpec(m.__name__, None)
    return out


def make_builder(s, mods, adapters):
    """A Builder for spec s (adapters: instances)."""
    b = driver.Builder().with_modules(*[mods[i] for i in s["mods"]])
    for d in s["cfg"]:
        b.with_config(dict(d))
    if adapters:
        b.with_adapters(*adapters)
    if s["legacy"]:
        b.with_adapter(base.SimplePythonGraphAdapter(base.DictResult()))
    if s["over"]:
        b.allow_module_overrides()
    if s["mats"]:
        b.with_materializers(*[mat_of(m, mods) for m in s["mats"]])
    dyn(b, s["dyn"])
    return b


def dyn(b, d):
    if d:
        b.enable_dynamic_execution(allow_experimental_mode=True)
        if d == "sync":
            b.with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(executors.SynchronousLocalTaskExecutor())


def build_fresh(s, mods, adapters):
    if s["api"] == "driver":
        return driver.Driver(merged(s), *[mods[i] for i in s["mods"]], adapter=list(adapters) + ([] if any(isinstance(a, base.ResultMixin) for a in adapters) else [base.DictResult()]), allow_module_overrides=s["over"])
    return make_builder(s, mods, adapters).build()


MODRE = re.compile(r"vgen_\d+")
ADDR = re.compile(r" at 0x[0-9a-f]+")


def norm(x):
    return ADDR.sub("", MODRE.sub("MOD", x))


def var(v):
    return (v.name, repr(v.type) if not isinstance(v.type, type) else v.type.__name__, norm(repr(sorted(v.tags.items(), key=repr))), v.is_external_input, sorted(v.required_dependencies), sorted(v.optional_dependencies), v.documentation,
            norm(repr(sorted((v.optional_dependencies_default_values or {}).items()))))


def drawing(dot):
    out = []
    for line in dot.source.split("\n"):
        rows = re.findall(r"<tr>.*?</tr>", line)
        out.append(re.sub(r"<tr>.*</tr>", "".join(sorted(rows)), line))
    return norm("\n".join(sorted(out)))


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__, "".join(sorted(norm(str(e)))))


def perform(dr, o, names, inputs, overrides, matname):
    """One call on a driver; returns comparable data."""
    req = list(dict.fromkeys(names[i % len(names)] for i in o["req"]))
    keep = list(req)
    call = o["call"]
    kw = {"deduplicate_inputs": False}
    first, last = req[0], req[-1]

    def mats():
        m = [to.memory(id=matname, dependencies=list(req), combine=base.DictResult())]
        if o["from"]:
            m.append(from_.literal(target="j", value=11))
        return m

    def saved(r):
        m, a = r
        return sorted((k, repr(type(v)) if not isinstance(v, dict) else sorted(v)) for k, v in m.items()), a

    table = {
        "execute": lambda: dr.execute(req, inputs=inputs, overrides=overrides),
        "fresh_inputs": lambda: dr.execute(req),
        "raw": lambda: dr.raw_execute(req, inputs=inputs, overrides=overrides),
        "materialize": lambda: saved(dr.materialize(*mats(), additional_vars=req[:1], inputs=inputs, overrides=overrides)),
        "list": lambda: sorted(map(var, dr.list_available_variables())),
        "list_tag": lambda: sorted(map(var, dr.list_available_variables(tag_filter={"owner": None}))),
        "upstream": lambda: sorted(map(var, dr.what_is_upstream_of(*req))),
        "downstream": lambda: sorted(map(var, dr.what_is_downstream_of(*req))),
        "path": lambda: sorted(map(var, dr.what_is_the_path_between(first, last))),
        "validate": lambda: dr.validate_execution(req, inputs=inputs, overrides=overrides),
        "validate_mat": lambda: dr.validate_materialization(*mats(), additional_vars=req, inputs=inputs, overrides=overrides),
        "draw": lambda: drawing(dr.visualize_execution(req, inputs=inputs, overrides=overrides, **kw)),
        "draw_all": lambda: drawing(dr.display_all_functions(**kw)),
        "draw_mat": lambda: drawing(dr.visualize_materialization(*mats(), additional_vars=req, inputs=inputs, overrides=overrides, **kw)),
        "draw_path": lambda: drawing(dr.visualize_path_between(first, last, **kw)),
        "export": lambda: norm(dr.export_execution(req, inputs=inputs, overrides=overrides)),
        "cycles": lambda: dr.has_cycles(req),
    }
    r = outcome(table[call])
    require(req == keep, "the requested list was modified: %r", req)
    return r


def check(case, ctx):
    srcs = sources(case)
    nb = len(srcs) - 1  # the last one overrides
    shared = load(case, srcs, range(nb + 1))
    every = list(shared.values())
    builders, drivers = [], []  # (spec, Builder, adapters) / (spec, Driver, adapters)
    base_in = {"i": 4, "j": 6, "ii": 2, "k": 1}
    inputs = [dict(base_in), dict(base_in, i=7, j=10), dict(base_in, i=3), {k: v for k, v in base_in.items() if k != "k"}]
    pristine = copy.deepcopy(inputs)
    ov_objs = None
    calls = {}
    cfg_objs = []
    try:
        for step, o in enumerate(case["ops"]):
            op = o["op"]
            if op == "builder":
                s = spec0(list(range(nb + 1)) if o["mods"] == 2 else list(range(nb)))
                s.update(dyn=o["dyn"], legacy=o["legacy"], over=o["over"])
                s["cfg"].append({"mode": case["cfg"], "hamilton.enable_power_user_mode": True})
                b = make_builder(s, shared, [])
                builders.append((s, b, []))
                continue
            s, b, ads = builders[o["b"] % len(builders)]
            if op == "copy":
                builders.append((fork(s), b.copy(), list(ads)))
            elif op == "config":
                d = dict(o["cfg"])
                cfg_objs.append((d, dict(d)))
                b.with_config(d)
                s["cfg"].append(dict(d))
            elif op == "adapter":
                a = ADAPTERS[o["kind"]]()
                b.with_adapters(a)
                ads.append(a)
                s["adapters"].append(o["kind"])
            elif op == "mat":
                if o["m"] not in s["mats"]:
                    b.with_materializers(mat_of(o["m"], shared))
                    s["mats"].append(o["m"])
            elif op == "module":
                if nb not in s["mods"]:
                    b.with_modules(shared[nb])
                    s["mods"].append(nb)
            elif op == "allow":
                b.allow_module_overrides()
                s["over"] = True
            elif op in ("build", "direct"):
                s = fork(s)
                if op == "direct":
                    s.update(api="driver", cfg=s["cfg"] + [o["cfg"]], mats=[], legacy=False, dyn=None)
                    cfg = merged(s)
                    cfg_objs.append((cfg, dict(cfg)))
                    got = outcome(lambda: driver.Driver(cfg, *[shared[i] for i in s["mods"]], adapter=list(ads) + ([] if any(isinstance(a, base.ResultMixin) for a in ads) else [base.DictResult()]), allow_module_overrides=s["over"]))
                else:
                    got = outcome(b.build)
                fm = load(case, srcs, s["mods"])
                every += fm.values()
                want = outcome(lambda: build_fresh(s, fm, [ADAPTERS[k]() for k in s["adapters"]]))
                require(got[0] == want[0] and (got[0] == "ok" or got == want), "step %d: building gives %r, from a fresh builder %r\nspec %r", step, got, want, s)
                if got[0] == "ok":
                    drivers.append((s, got[1], list(ads)))
                dags.drop_modules(fm.values())
            elif not drivers:
                continue
            elif op == "copy_driver":
                s, dr, ads = drivers[o["d"] % len(drivers)]
                drivers.append((s, copy.copy(dr), ads))
            elif op == "call":
                k = o["d"] % len(drivers)
                s, dr, ads = drivers[k]
                fm = load(case, srcs, s["mods"])
                every += fm.values()
                fads = [ADAPTERS[a]() for a in s["adapters"]]
                fresh = build_fresh(s, fm, fads)
                names = sorted(v.name for v in fresh.list_available_variables() if not v.is_external_input)
                if o["missing"]:
                    names = names + ["nowhere"]
                if ov_objs is None:
                    ov_objs = [{names[i % len(names)]: 10 + i for i in q} for q in case["ovs"]]
                    ov_keep = copy.deepcopy(ov_objs)
                ov = ov_objs[o["ov"]] if o["ov"] < 3 else None
                clash = set(merged(s))
                inp = inputs[o["inp"]]
                if clash & set(inp) and o["inp"] % 2 == 0:
                    inp = {n: v for n, v in inp.items() if n not in clash}
                marks = [len(a.log) for a in ads if isinstance(a, Rec)]
                got = perform(dr, o, names, inp, ov, "mat%d" % step)
                log = [sorted(a.log[m:], key=repr) for a, m in zip([a for a in ads if isinstance(a, Rec)], marks)]
                fmarks = [len(a.log) for a in fads if isinstance(a, Rec)]
                want = perform(fresh, o, names, copy.deepcopy(inp), copy.deepcopy(ov), "mat%d" % step)
                flog = [sorted(a.log[m:], key=repr) for a, m in zip([a for a in fads if isinstance(a, Rec)], fmarks)]
                require(got == want, "step %d: %s answers\n%r\na fresh driver\n%r\nspec %r", step, o["call"], got, want, s)
                if not (s["dyn"] == "thread" and got[0] == "raised"):
                    require(norm(repr(log)) == norm(repr(flog)), "step %d: %s: the hooks saw\n%r\nwith a fresh driver\n%r", step, o["call"], log, flog)
                require(inputs == pristine, "step %d: the caller's inputs were modified: %r", step, inputs)
                require(ov_objs == ov_keep, "step %d: the caller's overrides were modified: %r", step, ov_objs)
                calls[k] = calls.get(k, 0) + 1
                ctx.note(o["call"] + ":" + got[0])
                dags.drop_modules(fm.values())
            for d, keep in cfg_objs:
                require(d == keep, "step %d: a configuration given by the caller was modified: %r, was %r", step, d, keep)
        if max(calls.values(), default=0) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(every)


# ---------------------------------------------------------------- the async driver
ASRC = """
async def boom(i: int) -> int:
    if i % 3 == 0:
        raise ValueError("boom %d" % i)
    return _h("boom", i)

def mid(boom: int, j: int = 3) -> int:
    return _h("mid", boom, j)

@config.when_not(flavour="x")
async def flav__d(mid: int, i: int) -> int:
    return _h("flav d", mid, i)

@config.when(flavour="x")
def flav__x(j: int) -> int:
    return _h("flav x", j)

@extract_fields({"fa": int, "fb": int})
async def both(flav: int) -> dict:
    return {"fa": flav + 1, "fb": flav + 2}
"""
AOVER = "async def mid(i: int) -> int:\n    return _h('other mid', i)\n"


@st.composite
def async_st(draw):
    ops = [{"op": "builder", "b": 0, "over": draw(st.booleans()), "two": draw(st.booleans())}, {"op": "build", "b": 0}]
    for _ in range(draw(st.integers(2, 9))):
        op = draw(st.sampled_from(["call"] * 5 + ["build", "copy", "config", "allow", "module", "builder"]))
        o = {"op": op, "b": draw(st.integers(0, 3)), "d": draw(st.integers(0, 3)), "over": draw(st.booleans()), "two": draw(st.booleans())}
        if op == "call":
            o.update(req=draw(st.lists(st.sampled_from(["boom", "mid", "flav", "both", "fa", "fb"]), min_size=1, max_size=3, unique=True)), i=draw(st.integers(1, 4)), j=draw(st.integers(1, 3)), ov=draw(st.sampled_from([None, None, {"mid": 5}, {"boom": 4, "flav": 2}])))
        elif op == "config":
            o["cfg"] = draw(st.sampled_from([{"flavour": "x"}, {"flavour": "y"}, {"i": 5}, {"i": 3}, {"z": 1}]))
        ops.append(o)
    return {"ops": ops}


def check_async(case, ctx):
    load2 = lambda: [dags.make_module(s, header=decogen.HEADER) for s in (ASRC, AOVER)]
    shared = load2()
    every = list(shared)
    builders, drivers, n = [], [], 0

    def fresh(s, mods):
        b = async_driver.Builder().with_modules(*[mods[i] for i in s["mods"]]).with_config(merged(s))
        if s["over"]:
            b.allow_module_overrides()
        return b

    async def run():
        nonlocal n
        for step, o in enumerate(case["ops"]):
            if o["op"] == "builder":
                s = spec0([0, 1] if o["two"] else [0])
                s["over"] = o["over"]
                builders.append((s, fresh(s, shared)))
                continue
            s, b = builders[o["b"] % len(builders)]
            if o["op"] == "copy":
                builders.append((fork(s), b.copy()))
            elif o["op"] == "config":
                b.with_config(o["cfg"])
                s["cfg"].append(o["cfg"])
            elif o["op"] == "allow":
                b.allow_module_overrides()
                s["over"] = True
            elif o["op"] == "module":
                if 1 not in s["mods"]:
                    b.with_modules(shared[1])
                    s["mods"].append(1)
            elif o["op"] == "build":
                s = fork(s)
                got = await aoutcome(b.build())
                fm = load2()
                every.extend(fm)
                want = await aoutcome(fresh(s, fm).build())
                require(got[0] == want[0] and (got[0] == "ok" or got == want), "step %d: building gives %r, from a fresh builder %r\nspec %r", step, got, want, s)
                if got[0] == "ok":
                    drivers.append((s, got[1]))
            elif drivers:
                s, dr = drivers[o["d"] % len(drivers)]
                fm = load2()
                every.extend(fm)
                fd = await fresh(s, fm).build()
                inp = {k: v for k, v in (("i", o["i"]), ("j", o["j"])) if k not in merged(s)}
                ov = copy.deepcopy(o["ov"])
                got = await aoutcome(dr.execute(list(o["req"]), inputs=inp, overrides=ov))
                want = await aoutcome(fd.execute(list(o["req"]), inputs=dict(inp), overrides=copy.deepcopy(o["ov"])))
                require(got == want, "step %d: the async driver answers %r, a fresh one %r (%r)", step, got, want, s)
                require(ov == o["ov"] and set(inp) <= {"i", "j"}, "inputs %r or overrides %r were modified", inp, ov)
                n += 1

    try:
        asyncio.run(run())
        if n > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(every)


async def aoutcome(c):
    try:
        return ("ok", await c)
    except Exception as e:
        return ("raised", type(e).__name__, "".join(sorted(norm(str(e)))))


PARTS = [
    Part("history", case_st, check, quick=1200, thorough=30000, rule="some driver answers at least two calls", setup=setup),
    Part("async", async_st, check_async, quick=300, thorough=6000, rule="at least two executions", setup=setup),
]
