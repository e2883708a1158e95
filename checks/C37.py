"""C37: the Dask and Ray backends agree with plain execution."""
import copy, itertools, json, linecache, logging, os, shutil, sys, tempfile, threading, types, warnings
import pandas as pd
from hypothesis import strategies as st
from hamilton import base, driver
from vlib.core import CLEANUP, Part, Violation, require
from vlib import dags
from vlib.dags import decode, same
from vlib.gen import plain_case
from checks import C12

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows, differential between the Dask / Ray adapters and executors and a reference evaluator"
RETS = ["int", "str", "list", "dict", "tuple", "Optional[int]", "float", "bool"]
S = {}


class Fail(Exception):
    pass


def setup_dask():
    import dask
    from hamilton.plugins import h_dask
    S.update(dask=dask, h=h_dask)


def setup_client():
    setup_dask()
    from dask.distributed import Client
    os.chdir(tempfile.mkdtemp(prefix="c37"))
    S["client"] = Client(processes=False, n_workers=1, threads_per_worker=4, dashboard_address=None, silence_logs=60)
    CLEANUP.append(lambda: S["client"].close())


def setup_ray():
    tmp = tempfile.mkdtemp(prefix="vr", dir="/tmp")  # short: ray puts sockets there
    os.makedirs(tmp + "/m")
    sys.path.insert(0, tmp + "/m")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("VERIF_REPO", "/repo")
    os.environ["PYTHONPATH"] = os.pathsep.join([tmp + "/m", here, os.path.join(here, "vendor"), repo])
    os.environ["RAY_USAGE_STATS_ENABLED"] = "0"
    import ray
    try:
        ray.init(num_cpus=2, include_dashboard=False, log_to_driver=False, logging_level=logging.CRITICAL, _temp_dir=tmp, object_store_memory=200 * 2 ** 20)
    except Exception as e:  # no ray instance can be started here: nothing is decided about it
        S.update(ray=None, why=repr(e))
        return
    from hamilton.plugins import h_ray
    S.update(ray=ray, h=h_ray, dir=tmp + "/m")

    def end():
        ray.shutdown()
        shutil.rmtree(tmp, True)
    CLEANUP.append(end)


@st.composite
def dask_case(draw, ray=False):
    c = draw(plain_case(allow_overrides=not ray, dag_kw=dict(max_fns=8, modes=("normal", "falsy"), rets=RETS)))
    c["kind"] = draw(st.sampled_from(["delayed", "delayed", "together", "plain"])) if not ray else "ray"
    c["sched"] = draw(st.sampled_from(["synchronous", "threads"]))
    c["edit"] = draw(st.sampled_from([f["name"] for f in c["dag"]["fns"]]))
    c["vary"] = draw(st.sampled_from(["function", "function", "input"]))
    c["fail"] = draw(st.sampled_from([None] * 4 + [f["name"] for f in c["dag"]["fns"]]))
    return c


def plainv(v):
    return not isinstance(v, (dags.Obj, dags.Prickly, dags.Grumpy)) and (not isinstance(v, (list, tuple, dict, set)) or all(plainv(x) for x in (v.values() if isinstance(v, dict) else v)))


def values(case):
    config = {k: decode(v) for k, v in case["config"].items()}
    inputs = {k: decode(v) for k, v in case["inputs"].items()}
    ov = {k: decode(v) for k, v in case.get("overrides", {}).items()}
    return config, inputs, ov


def mk(mods, config, kind):
    h = S["h"]
    ad = h.DaskGraphAdapter(None, base.DictResult(), use_delayed=kind != "plain", compute_at_end=kind == "delayed")
    return driver.Driver(dict(config), *mods, adapter=ad)


def check_dask(case, ctx):
    spec = case["dag"]
    config, inputs, ov = values(case)
    if not all(plainv(v) for v in list(config.values()) + list(inputs.values()) + list(ov.values())):
        return
    reqs = [r for r in dict.fromkeys(case["requests"])]
    mods = dags.build_modules(spec)
    other = json.loads(json.dumps(spec))
    for f in other["fns"]:
        if f["name"] == case["edit"]:
            f["alias"] = f["name"] + "_edited"
    mods2 = []
    try:
        want, called = dags.ref_eval(spec, reqs, {**config, **inputs}, ov)
        dags.REC.reset()
        fail = case["fail"] if case["fail"] in called else None
        if fail:
            dags.REC.fail = {fail: Fail(fail)}
        with S["dask"].config.set(scheduler=case["sched"]):
            def run(ms, config, inputs):
                dr = mk(ms, config, case["kind"])
                r = dr.execute(reqs, inputs=dict(inputs), overrides=dict(ov))
                return dr, r
            if fail:
                try:
                    _, r = run(mods, config, inputs)
                    if case["kind"] == "together":
                        r = r.compute()
                except Fail as e:
                    require(str(e) == fail, "the failure of %s was reported as %r", fail, e)
                    ctx.note("failing function")
                    return
                raise Violation("%s raised, the execution on dask returned %r" % (fail, r))
            _, r = run(mods, config, inputs)
            if case["kind"] == "together":
                # a second driver with one function changed, or other inputs; computed together
                inputs2 = dict(inputs)
                if case["vary"] == "function":
                    mods2 = dags.build_modules(other)
                    ms2 = mods2
                else:
                    ms2 = mods
                    for k in sorted(inputs2):
                        if isinstance(inputs2[k], (int, str)) and not isinstance(inputs2[k], bool):
                            inputs2[k] = inputs2[k] * 2 + (1 if isinstance(inputs2[k], int) else "x")
                            break
                _, r2 = run(ms2, config, inputs2)
                want2 = ref_alias(other if case["vary"] == "function" else spec, reqs, {**config, **inputs2}, ov)
                got, got2 = S["dask"].compute(r, r2)
                for n in want2:
                    require(same(got2[n], want2[n]), "computed together with another driver: %s of the second is %r instead of %r", n, got2[n], want2[n])
                ctx.note("two drivers computed together", "differing in " + case["vary"])
            else:
                got = r
        require(set(got) == set(want), "keys %s instead of %s", sorted(got), sorted(want))
        for n in want:
            require(same(got[n], want[n]), "dask (%s, %s): %s is %r instead of %r", case["kind"], case["sched"], n, got[n], want[n])
        ctx.note(case["kind"])
        ctx.nontrivial(len(called) >= 3)
    finally:
        dags.REC.reset()
        dags.drop_modules(mods + mods2)


def ref_alias(spec, reqs, vals, ov):
    """ref_eval with functions that compute under another name"""
    by = dags.fn_map(spec)
    memo = {}

    def ev(n):
        if n in ov:
            return ov[n]
        if n in memo:
            return memo[n]
        if n not in by or n in vals:
            return vals[n]
        f = by[n]
        kw = {}
        for p in f["params"]:
            if p["name"] in by or p["name"] in vals or p["name"] in ov:
                kw[p["name"]] = ev(p["name"])
            else:
                kw[p["name"]] = decode(p["default"])
        memo[n] = dags.node_value(f.get("alias", n), f["ret"], f["mode"], kw)
        return memo[n]
    return {r: ev(r) for r in reqs}


# ---------------------------------------------------------------- executors: task-based execution with parallel blocks
_n = itertools.count()


def file_module(src, d):
    """A module in a file, so that other processes can import it."""
    name = "c37m_%d_%d" % (os.getpid(), next(_n))
    p = os.path.join(d, name + ".py")
    with open(p, "w") as f:
        f.write(src)
    import importlib
    importlib.invalidate_caches()
    return importlib.import_module(name)


def exec_check(case, ctx, make_executor, d):
    mod = file_module(C12.HEADER + C12.render(case), d)
    try:
        want, calls = C12.evaluate(case)
        b = driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(make_executor())
        dr = b.build()
        have = {v.name for v in dr.list_available_variables()}
        inputs = {k: v for k, v in case["inputs"].items() if k in have}
        if case["optval"] is not None and "o" in have:
            inputs["o"] = case["optval"]
        other = copy.deepcopy(case)
        for k in other["inputs"]:
            if type(other["inputs"][k]) is int:
                other["inputs"][k] += 7
        if case.get("twice") and other["inputs"] != case["inputs"]:
            # at the same time, another execution on the same cluster, with other inputs
            want2, _ = C12.evaluate(other)
            inputs2 = dict(inputs, **{k: v for k, v in other["inputs"].items() if k in inputs})
            dr2 = driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(make_executor()).build()
            box = []

            def second():
                try:
                    box.append(("ok", dr2.execute(list(case["requests"]), inputs=dict(inputs2), overrides=dict(case["overrides"]))))
                except Exception as e:  # noqa: BLE001
                    box.append(("err", e))
            t = threading.Thread(target=second, daemon=True)
            t.start()
            got = dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(case["overrides"]))
            t.join(120)
            require(box and box[0][0] == "ok", "a second execution at the same time: %r", box or "does not end")
            for n in want2:
                require(same(box[0][1][n], want2[n]), "a second execution with other inputs at the same time: %s is %r instead of %r", n, box[0][1][n], want2[n])
            ctx.note("two executions at the same time")
        else:
            got = dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(case["overrides"]))
        for n in want:
            require(same(got[n], want[n]), "%s is %r instead of %r", n, got[n], want[n])
        ctx.nontrivial(any(it["t"] == "expand" and len(it["items"]) > 1 for it in case["items"]))
    finally:
        sys.modules.pop(mod.__name__, None)
        os.unlink(mod.__file__)


def check_daskexec(case, ctx):
    d = ctx.fresh_dir()
    sys.path.insert(0, d)
    try:
        exec_check(case, ctx, lambda: S["h"].DaskExecutor(client=S["client"]), d)
    finally:
        sys.path.remove(d)


def check_rayexec(case, ctx):
    if S["ray"] is None:
        ctx.note("no ray instance can be started here: " + S["why"][:200])
        return
    if "fns" in case.get("dag", {}):
        return check_ray(case, ctx)
    exec_check(case, ctx, lambda: S["h"].RayTaskExecutor(skip_init=True), S["dir"])
    ctx.note("ray executor")


COLLIDE = ("node", "execute_lifecycle_for_node", "method_name", "self")


def known_collision():
    """do_remote_execute is handed the function's arguments beside its own: a parameter called "node" clashes"""
    from hamilton.lifecycle import base as lb

    class Remote(lb.BaseDoRemoteExecute):
        def do_remote_execute(self, *, execute_lifecycle_for_node, node, **kwargs):
            return execute_lifecycle_for_node(**kwargs)
    mod = types.ModuleType("c37_known")
    exec("def node() -> int:\n    return 1\ndef b(node: int) -> int:\n    return node + 1\n", mod.__dict__)
    for f in ("node", "b"):
        mod.__dict__[f].__module__ = "c37_known"
    sys.modules["c37_known"] = mod
    dr = driver.Builder().with_modules(mod).with_adapters(Remote(), base.DictResult()).build()
    try:
        return dr.execute(["b"]) != {"b": 2}
    except TypeError as e:
        return repr(e)


KNOWN = {"ray-node-parameter": known_collision}


def check_ray(case, ctx):
    spec = case["dag"]
    config, inputs, ov = values(case)
    if not all(plainv(v) for v in list(config.values()) + list(inputs.values())):
        return
    reqs = [r for r in dict.fromkeys(case["requests"])]
    srcs = [""] * spec["nmod"]
    fail = case["fail"]
    for f in spec["fns"]:
        srcs[f["module"]] += dags.fn_source(f) + "\n"
    header = ("from __future__ import annotations\n" if spec.get("future") else "") + dags.HEADER
    if fail:
        header += "from checks.C37 import Fail as _Fail\n"
        srcs = [s.replace("    return _REC.call(%r," % fail, "    raise _Fail(%r)\n    return _REC.call(%r," % (fail, fail)) for s in srcs]
    mods = [file_module(header + s, S["dir"]) for s in srcs]
    try:
        want, called = dags.ref_eval(spec, reqs, {**config, **inputs}, {})
        if any(p["name"] in COLLIDE for f in spec["fns"] for p in f["params"]):
            ctx.note("known finding: a parameter named like one of the hook's own")
            return
        fail = fail if fail in called else None
        dr = driver.Builder().with_modules(*mods).with_config(config).with_adapters(S["h"].RayGraphAdapter(result_builder=base.DictResult())).build()
        try:
            got = dr.execute(reqs, inputs=dict(inputs))
        except Exception as e:
            require(fail is not None and isinstance(e, Fail), "the execution on ray failed: %r", e)
            ctx.note("ray adapter: failing function")
            return
        require(fail is None, "%s raised, the execution on ray returned %r", fail, got)
        require(set(got) == set(want), "keys %s instead of %s", sorted(got), sorted(want))
        for n in want:
            require(same(got[n], want[n]), "ray: %s is %r instead of %r", n, got[n], want[n])
        ctx.note("ray adapter")
        ctx.nontrivial(len(called) >= 3)
    finally:
        for m in mods:
            sys.modules.pop(m.__name__, None)
            os.unlink(m.__file__)


def exec_case():
    return st.tuples(C12.case_(), st.booleans()).map(lambda t: dict(t[0], twice=t[1]))


PARTS = [
    Part("dask", dask_case, check_dask, 4000, 60000, "three or more functions run", shards=4, tshards=4, setup=setup_dask),
    Part("dask-executor", exec_case, check_daskexec, 100, 1500, "an expansion of two or more items", shards=1, tshards=1, setup=setup_client, timeout=90),
    Part("ray", lambda: st.one_of(dask_case(ray=True), exec_case()), check_rayexec, 60, 1500, "three or more functions run, or an expansion of two or more items", shards=1, tshards=1, setup=setup_ray, timeout=120),
]
