"""C14: lifecycle hooks see every event once, properly nested, with truth."""
import asyncio, dataclasses, logging, threading, warnings, contextlib, io
from collections import Counter
from hypothesis import strategies as st
from hamilton import async_driver, base, lifecycle
from hamilton.lifecycle import base as lb, default as ld
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from vlib.gen import plain_case
from checks.C11 import executor

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows, adapter sets, failures and run sequences; recorded event histories against a reference history"

EV = []  # (who, kind, payload)
LOCK = threading.Lock()


def put(who, kind, **kw):
    with LOCK:
        EV.append((who, kind, kw))


class _Named:
    def __init__(self, who):
        self.who = who


class NodeHook(_Named, lifecycle.NodeExecutionHook):
    def run_before_node_execution(self, **kw):
        put(self.who, "pre_node", **kw)

    def run_after_node_execution(self, **kw):
        put(self.who, "post_node", **kw)


class PreNodeOnly(_Named, lb.BasePreNodeExecute):
    def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
        put(self.who, "pre_node", node_name=node_.name, node_kwargs=kwargs, task_id=task_id, run_id=run_id)


class PostNodeOnly(_Named, lb.BasePostNodeExecute):
    def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
        put(self.who, "post_node", node_name=node_.name, node_kwargs=kwargs, task_id=task_id, run_id=run_id, success=success, error=error, result=result)


class GraphHook(_Named, lifecycle.GraphExecutionHook):
    def run_before_graph_execution(self, **kw):
        put(self.who, "pre_graph", **kw)

    def run_after_graph_execution(self, **kw):
        put(self.who, "post_graph", **kw)


class PreGraphOnly(_Named, lb.BasePreGraphExecute):
    def pre_graph_execute(self, **kw):
        put(self.who, "pre_graph", **kw)


class PostGraphOnly(_Named, lb.BasePostGraphExecute):
    def post_graph_execute(self, **kw):
        put(self.who, "post_graph", **kw)


class TaskHook(_Named, lifecycle.TaskExecutionHook):
    def run_before_task_execution(self, **kw):
        put(self.who, "pre_task", **kw)

    def run_after_task_execution(self, **kw):
        put(self.who, "post_task", **kw)


class Construct(_Named, lifecycle.GraphConstructionHook):
    def run_after_graph_construction(self, **kw):
        put(self.who, "construct", **kw)


class Everything(NodeHook, GraphHook, TaskHook, Construct):
    pass


class NodeAndGraph(GraphHook, NodeHook):
    pass


class SubNode(NodeHook):
    """A subclass of a hook class (the hook appears several times in its MRO)."""


@dataclasses.dataclass(eq=True)
class EqualNode(lifecycle.NodeExecutionHook):
    """All instances compare equal."""
    label: str = "x"

    def run_before_node_execution(self, **kw):
        put(id(self), "pre_node", **kw)

    def run_after_node_execution(self, **kw):
        put(id(self), "post_node", **kw)


class ANode(_Named, lb.BasePreNodeExecuteAsync, lb.BasePostNodeExecuteAsync):
    async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
        put(self.who, "pre_node", node_name=node_.name, node_kwargs=kwargs, task_id=task_id, run_id=run_id)

    async def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
        put(self.who, "post_node", node_name=node_.name, node_kwargs=kwargs, task_id=task_id, run_id=run_id, success=success, error=error, result=result)


class AGraph(_Named, lb.BasePreGraphExecuteAsync, lb.BasePostGraphExecuteAsync):
    async def pre_graph_execute(self, **kw):
        put(self.who, "pre_graph", **kw)

    async def post_graph_execute(self, **kw):
        put(self.who, "post_graph", **kw)


class AConstruct(_Named, lb.BasePostGraphConstructAsync):
    async def post_graph_construct(self, **kw):
        put(self.who, "construct", **kw)


class AEverything(ANode, AGraph, AConstruct):
    pass


class Method(_Named, lifecycle.NodeExecutionMethod):
    __hash__ = None  # like a dataclass

    def run_to_execute_node(self, *, node_name, node_callable, node_kwargs, task_id, **kw):
        put(self.who, "method", node_name=node_name, node_kwargs=node_kwargs, task_id=task_id)
        return node_callable(**node_kwargs)


class Accept(lifecycle.StaticValidator):
    pass


SYNC = {c.__name__: c for c in [NodeHook, PreNodeOnly, PostNodeOnly, GraphHook, PreGraphOnly, PostGraphOnly, TaskHook, Construct, Everything, NodeAndGraph, SubNode]}
ASYNC = {c.__name__: c for c in [ANode, AGraph, AConstruct, AEverything]}
KINDS = {"pre_node": (NodeHook, PreNodeOnly, EqualNode, ANode), "post_node": (NodeHook, PostNodeOnly, EqualNode, ANode), "pre_graph": (GraphHook, PreGraphOnly, AGraph),
         "post_graph": (GraphHook, PostGraphOnly, AGraph), "pre_task": (TaskHook,), "post_task": (TaskHook,), "construct": (Construct, AConstruct)}


class Boom(Exception):
    pass


class BaseBoom(ValueError):
    pass


@st.composite
def case_(draw):
    c = draw(plain_case(allow_overrides=True, dag_kw=dict(max_fns=8, min_fns=2)))
    k = draw(st.sampled_from(["builder", "builder", "legacy", "task", "task", "task", "async"]))
    if k == "task":
        k = "task:%s:%s:%s" % (draw(st.sampled_from(["default", "nodes", "asone", "level"])), draw(executor()), draw(executor()))
    c["mode"] = k
    ads = []
    for _ in range(draw(st.integers(1, 4))):
        if k == "async":
            ads.append(draw(st.sampled_from(sorted(ASYNC) + ["GraphHook", "Construct"])))
        else:
            ads.append(draw(st.sampled_from(sorted(SYNC) + ["Everything", "EqualNode", "EqualNode"])))
    if k != "async":
        if draw(st.integers(0, 3)) == 0:
            ads.insert(draw(st.integers(0, len(ads))), "Method")
        if draw(st.integers(0, 3)) == 0:
            ads.insert(draw(st.integers(0, len(ads))), draw(st.sampled_from(["Accept", "PrintLn", "Lenient"])))
    c["adapters"] = ads
    fns = [f["name"] for f in c["dag"]["fns"]]
    if k == "async":
        for f in c["dag"]["fns"]:
            if draw(st.booleans()):
                f["async"] = True
                f["steps"] = draw(st.sampled_from([0, 1, 3]))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        runs.append({"fail": draw(st.lists(st.sampled_from(fns), max_size=1, unique=True)) if draw(st.integers(0, 2)) == 0 else [],
                     "ov": draw(st.booleans()), "sub": draw(st.booleans()), "entry": draw(st.sampled_from(["execute", "execute", "execute", "materialize"]))})
    c["runs"] = runs
    return c


def build(ads):
    out = []
    for i, a in enumerate(ads):
        if a == "EqualNode":
            out.append(EqualNode())
        elif a == "Method":
            out.append(Method(i))
        elif a == "Accept":
            out.append(Accept())
        elif a == "PrintLn":
            out.append(ld.PrintLn(verbosity=2, print_fn=lambda s: None))
        elif a == "Lenient":
            out.append(ld.NoEdgeAndInputTypeChecking())
        else:
            out.append({**SYNC, **ASYNC}[a](i))
    return out


def who(a):
    return id(a) if isinstance(a, EqualNode) else a.who


def has(a, kind):
    return isinstance(a, KINDS[kind])


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    del EV[:]
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        adapters = build(case["adapters"])
        mode = case["mode"]
        loop = asyncio.new_event_loop() if mode == "async" else None
        fm = dags.fn_map(spec)
        try:
            if loop:
                async def mk():
                    d = await async_driver.Builder().with_modules(*mods).with_config(config).with_adapters(*adapters).build()
                    await d.ainit()  # it is initialised already: nothing to announce again
                    return d
                dr = loop.run_until_complete(mk())
            elif mode == "legacy":
                from hamilton import driver as _d
                dr = _d.Driver(config, *mods, adapter=[*adapters, base.DictResult()])
            else:
                dr = make_driver(mods, mode, config, adapters=adapters)
            names = {v.name for v in dr.list_available_variables()}
            for a in adapters:
                mine = [e for e in EV if e[0] == (who(a) if hasattr(a, "who") else None) and e[1] == "construct"]
                if has(a, "construct"):
                    require(len(mine) == 1, "graph construction hook of adapter %s was called %d times", type(a).__name__, len(mine))
                    g = mine[0][2]["graph"]
                    got = {n.name for n in g.nodes} if hasattr(g.nodes, "append") else set(g.nodes)
                    require(got == names, "graph construction hook saw nodes %s instead of %s", got, names)
                    require(mine[0][2]["config"] == config, "graph construction hook saw config %s", mine[0][2]["config"])
            seen_ids = set()
            for ri, run in enumerate(case["runs"]):
                one(case, ctx, spec, fm, dr, adapters, config, run, ri, seen_ids, loop, mode)
        finally:
            if loop:
                loop.close()
        ctx.note("mode:" + mode.split(":")[0], *["adapter:" + a for a in case["adapters"]])
    finally:
        dags.drop_modules(mods)


def one(case, ctx, spec, fm, dr, adapters, config, run, ri, seen_ids, loop, mode):
    inputs = {k: decode(v) for k, v in case["inputs"].items()}
    ov = {k: decode(v) for k, v in case["overrides"].items()} if run["ov"] else {}
    req = case["requests"][:1] if run["sub"] else list(case["requests"])
    try:
        want, called = dags.ref_eval(spec, req, {**config, **inputs}, ov)
    except dags.Missing:
        return
    mat = run["entry"] == "materialize" and loop is None
    fail = [n for n in run["fail"] if n in called]
    err = {n: (Boom(n) if ri % 2 else BaseBoom(n)) for n in fail}
    for x in err.values():
        if ri != 1:
            x.__cause__ = KeyError("cause")  # raised from another error
    del EV[:]
    REC.reset()
    REC.fail = dict(err)
    REC.extra = lambda name, kw: put("fn", "call", name=name, kw=kw)
    exc, got = None, None
    given_in = dict(inputs) if (inputs or case["empty_inputs"]) else None
    given_ov = dict(ov) if (ov or case["empty_inputs"]) else None
    try:
        if loop:
            async def go():
                from checks.C13 import drain
                try:
                    return await asyncio.wait_for(dr.execute(list(req), inputs=given_in, overrides=given_ov), 30)
                finally:
                    await drain()
            got = loop.run_until_complete(go())
        elif mat:
            got = dr.materialize(additional_vars=list(req), inputs=given_in, overrides=given_ov)[1]
        else:
            got = dr.execute(list(req), inputs=given_in, overrides=given_ov)
    except Exception as e:
        exc = e
    finally:
        REC.fail, REC.extra = {}, None
    ev = list(EV)
    if fail:
        require(exc is err[fail[0]], "%s raised %r but the execution raised %r", fail[0], err[fail[0]], exc)
        ctx.note("failing-run")
    else:
        require(exc is None, "unexpected error %r", exc)
    if exc is None:
        for n in want:
            require(same(got[n], want[n]), "with hooks node %s is %r instead of %r", n, got[n], want[n])
    ran = [e[2]["name"] for e in ev if e[1] == "call"]
    if exc is None:
        require(Counter(ran) == Counter(called.keys()), "with hooks the functions called are %s instead of %s", ran, list(called))
    run_ids = set()
    reference = {}
    for a in adapters:
        if not hasattr(a, "who") and not isinstance(a, EqualNode):
            continue
        w = who(a)
        tn = type(a).__name__
        mine = [(i, k, p) for i, (x, k, p) in enumerate(ev) if x == w]
        for i, k, p in mine:
            if "run_id" in p:
                run_ids.add(p["run_id"])
        # each kind: agreement between the adapters
        for kind in KINDS:
            if kind == "construct":
                continue
            part = [(i, p) for i, k, p in mine if k == kind]
            if not has(a, kind):
                require(not part, "%s received %s events it does not implement", tn, kind)
                continue
            if kind in ("pre_graph", "post_graph"):
                require(len(part) == 1, "%s: %s hook called %d times in one execution", tn, kind, len(part))
                i, p = part[0]
                if kind == "pre_graph":
                    require(not [e for e in ev[:i] if e[1] in ("call", "pre_node", "post_node", "pre_task", "post_task", "post_graph")], "%s: work happened before the graph execution hook", tn)
                    require(list(p["final_vars"]) == list(req), "%s: final_vars is %s instead of %s", tn, p["final_vars"], req)
                    require((p["inputs"] or {}).keys() == (given_in or {}).keys() and all(same(p["inputs"][x], given_in[x]) for x in given_in or {}), "%s: inputs are %s", tn, p["inputs"])
                    require((p["overrides"] or {}).keys() == (given_ov or {}).keys() and all(same(p["overrides"][x], given_ov[x]) for x in given_ov or {}), "%s: overrides are %s", tn, p["overrides"])
                    if "execution_path" in p:
                        require(Counter(p["execution_path"]) == Counter(called.keys()), "%s: execution_path is %s, the functions that run are %s", tn, sorted(p["execution_path"]), sorted(called))
                else:
                    require(not [e for e in ev[i + 1:] if e[1] in ("call", "pre_node", "post_node", "pre_task", "post_task", "pre_graph")] or (loop and exc is not None), "%s: work happened after the graph execution hook", tn)
                    require(p["success"] is (exc is None), "%s: post graph success is %r, error was %r", tn, p["success"], exc)
                    require(p["error"] is exc, "%s: post graph error is %r, error was %r", tn, p["error"], exc)
                    if exc is None:
                        require(p["results"] is not None and set(p["results"]) == set(want) and all(same(p["results"][n], want[n]) for n in want), "%s: post graph results are %r instead of %r", tn, p["results"], want)
                    if exc is None and mode == "legacy" and not mat:
                        require(p["results"] is got, "%s: post graph results are not what was returned", tn)
            elif kind in ("pre_node", "post_node"):
                seen = Counter(p["node_name"] for _, p in part)
                require(seen == Counter(ran), "%s: %s events for %s, functions called %s", tn, kind, sorted(seen.elements()), sorted(ran))
                for i, p in part:
                    n = p["node_name"]
                    ci = [j for j, e in enumerate(ev) if e[1] == "call" and e[2]["name"] == n][0]
                    require((i < ci) if kind == "pre_node" else (i > ci), "%s: the %s event of %s is on the wrong side of its call", tn, kind, n)
                    params = {q["name"] for q in fm[n]["params"]}
                    actual = {x: v for x, v in called[n].items()}
                    for x, v in p["node_kwargs"].items():
                        require(x in params and same(v, actual[x]), "%s: argument %s of %s reported as %r, it was called with %r", tn, x, n, v, actual.get(x))
                    for q in fm[n]["params"]:
                        if q["name"] not in p["node_kwargs"]:
                            require("default" in q and q["name"] not in fm and q["name"] not in inputs and q["name"] not in config and q["name"] not in ov, "%s: argument %s of %s is not reported", tn, q["name"], n)
                    if kind == "post_node":
                        bad = n in err
                        require(p["success"] is (not bad), "%s: success of %s is %r", tn, n, p["success"])
                        require(p["error"] is err.get(n), "%s: error of %s is %r", tn, n, p["error"])
                        res = None if bad else dags.node_value(n, fm[n]["ret"], fm[n]["mode"], called[n])
                        require(same(p["result"], res), "%s: result of %s is %r instead of %r", tn, n, p["result"], res)
                    if not mode.startswith("task"):
                        require(p["task_id"] is None, "%s: task id %r in an execution without tasks", tn, p["task_id"])
                    else:
                        require(p["task_id"] is not None, "%s: no task id in a task-based execution", tn)
            elif mode.startswith("task"):
                for i, p in part:
                    t = p["task_id"]
                    other = [(j, q) for j, k, q in mine if k == ("post_task" if kind == "pre_task" else "pre_task") and q["task_id"] == t]
                    require(len(other) == 1 and len([1 for _, q in part if q["task_id"] == t]) == 1, "%s: task %s does not have exactly one before and one after event", tn, t)
                    inside = {x.name for x in p["nodes"]}
                    for j, (x, k, q) in enumerate(ev):
                        if k in ("pre_node", "post_node") and q["task_id"] == t:
                            require((i < j) if kind == "pre_task" else (i > j), "%s: %s of %s is outside its task %s", tn, k, q["node_name"], t)
                            require(q["node_name"] in inside, "%s: node %s is not among the nodes %s of its task %s", tn, q["node_name"], sorted(inside), t)
                    if kind == "post_task":
                        bad = [n for n in inside if n in err and n in ran]
                        require(p["success"] is (not bad), "%s: success of task %s is %r although %s failed", tn, t, p["success"], bad)
                        require(p["error"] is (err[bad[0]] if bad else None), "%s: error of task %s is %r", tn, t, p["error"])
                        if not bad:
                            for n in inside:
                                if n in called and n not in ov:
                                    require(n in p["results"] and same(p["results"][n], dags.node_value(n, fm[n]["ret"], fm[n]["mode"], called[n])), "%s: results of task %s for %s: %r", tn, t, n, p["results"])
                tasks = {p["task_id"] for _, p in part}
                for x, k, q in ev:
                    if k in ("pre_node", "post_node"):
                        require(q["task_id"] in tasks, "%s: node %s ran in task %s that the adapter was not told about", tn, q["node_name"], q["task_id"])
                for n in ran:
                    require(sum(n in {x.name for x in p["nodes"]} for _, p in part) == 1, "%s: function %s ran, tasks announced: %s", tn, n, [[x.name for x in p["nodes"]] for _, p in part])
            else:
                require(not part, "%s: task events in an execution without tasks", tn)
            key = [(p.get("node_name"), p.get("task_id")) for _, p in part]
            if kind in reference:
                require(Counter(key) == Counter(reference[kind]), "adapters disagree on %s events: %s and %s", kind, key, reference[kind])
            reference[kind] = key
        if isinstance(a, Method):
            m = Counter(p["node_name"] for _, k, p in mine if k == "method")
            require(m == Counter(ran), "execution method ran for %s, functions called %s", m, ran)
    # plain execution: nothing overlaps
    if mode in ("builder", "legacy"):
        cur = None
        for x, k, p in ev:
            if k in ("pre_node", "post_node", "call"):
                n = p["name"] if k == "call" else p["node_name"]
                stage = {"pre_node": 0, "call": 1, "post_node": 2}[k]
                if cur is None or cur[0] != n:
                    cur = (n, stage)
                else:
                    require(stage >= cur[1], "events of %s are not in the order before, call, after", n)
                    cur = (n, stage)
    if loop is None and (mat or not inputs):
        invalid(case, spec, dr, adapters, config, mat, req, ov)
    require(len(run_ids) <= 1, "one execution used several run ids %s", run_ids)
    for r in run_ids:
        require(r is not None and r not in seen_ids, "run id %r was used before", r)
        seen_ids.add(r)
    ctx.nontrivial(len(ran) >= 2 and any(has(a, "pre_node") or has(a, "post_node") or has(a, "pre_task") for a in adapters))


def invalid(case, spec, dr, adapters, config, mat, req, ov):
    """A call that is rejected runs nothing, and the graph events that were announced are completed, with the error."""
    need = dags.required_inputs(spec, req, ov) - set(config)
    if not mat and not need:
        return
    del EV[:]
    REC.reset()
    try:
        if mat:
            dr.materialize(inputs={})
        else:
            dr.execute(list(req), overrides=dict(ov))
        raise Violation("an invalid call was accepted")
    except ValueError as e:
        exc = e
    ev = list(EV)
    require(not REC.calls and not [e for e in ev if e[1] in ("pre_node", "post_node", "pre_task", "post_task")], "work was done for a rejected call")
    n = Counter(e[:2] for e in ev if e[1] in ("pre_graph", "post_graph"))
    for a in adapters:
        if has(a, "pre_graph") and has(a, "post_graph"):
            w = who(a)
            require(n[(w, "pre_graph")] == n[(w, "post_graph")] <= 1, "rejected call: %d graph events before, %d after", n[(w, "pre_graph")], n[(w, "post_graph")])
    for x, k, p in ev:
        if k == "post_graph":
            require(p["success"] is False and p["error"] is exc, "rejected call: reported success %r, error %r", p["success"], p["error"])


class Building(_Named, base.ResultMixin):
    """A result builder that records what it was given, and can fail."""
    error = None

    def build_result(self, **outputs):
        put(self.who, "build", outputs=outputs)
        if self.error is not None:
            raise self.error
        return [outputs]


@st.composite
def built_(draw):
    c = draw(plain_case(dag_kw=dict(max_fns=5, min_fns=1)))
    k = draw(st.sampled_from(["builder", "legacy", "task"]))
    if k == "task":
        k = "task:%s:%s:%s" % (draw(st.sampled_from(["default", "nodes", "asone"])), draw(executor()), draw(executor()))
    c["mode"] = k
    c["adapters"] = draw(st.lists(st.sampled_from(["GraphHook", "PostGraphOnly", "Everything", "NodeAndGraph"]), min_size=1, max_size=3))
    c["at"] = draw(st.integers(0, 3))
    c["runs"] = draw(st.lists(st.booleans(), min_size=1, max_size=3))
    return c


def check_built(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        hooks = build(case["adapters"])
        b = Building("b")
        ads = list(hooks)
        ads.insert(case["at"] % (len(ads) + 1), b)
        dr = make_driver(mods, case["mode"], config, adapters=ads)
        want, called = dags.ref_eval(spec, case["requests"], {**config, **inputs})
        for fails in case["runs"]:
            del EV[:]
            b.error = Boom("cannot build") if fails else None
            exc, got = None, None
            try:
                got = dr.execute(list(case["requests"]), inputs=dict(inputs))
            except Exception as e:
                exc = e
            require(exc is b.error, "the result builder %s, the execution raised %r", "failed" if fails else "did not fail", exc)
            blds = [p["outputs"] for _, k, p in EV if k == "build"]
            require(len(blds) == 1 and set(blds[0]) == set(want) and all(same(blds[0][n], want[n]) for n in want), "the result builder was given %r", blds)
            at = [i for i, e in enumerate(EV) if e[1] == "build"][0]
            for a in hooks:
                post = [(i, p) for i, (w, k, p) in enumerate(EV) if w == who(a) and k == "post_graph"]
                require(len(post) == 1, "%s: %d events after the execution", type(a).__name__, len(post))
                i, p = post[0]
                require(p["success"] is (not fails) and p["error"] is b.error, "%s: the result builder %s; reported success %r, error %r", type(a).__name__, "failed" if fails else "succeeded", p["success"], p["error"])
                if not fails:
                    require(i > at and p["results"] is got, "%s: reported results %r, returned %r", type(a).__name__, p["results"], got)
        ctx.nontrivial(any(case["runs"]))
    finally:
        dags.drop_modules(mods)


PARTS = [Part("builders", built_, check_built, 1200, 15000, "a result builder fails", shards=2, tshards=4),
         Part("histories", case_, check, 8000, 120000, "an execution that calls two or more functions is watched by a node or task hook", shards=8, tshards=8, timeout=120)]
