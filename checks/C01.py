"""C01: execution returns what the user's functions compute."""
import logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from vlib.gen import plain_case

logging.disable(logging.CRITICAL)
LEVEL = "exploration"


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        exp, called = dags.ref_eval(spec, case["requests"], {**config, **inputs})
        dr = make_driver(mods, case["mode"], config)
        REC.reset()
        req = list(case["requests"])
        fm = dags.fn_map(spec)
        final = []
        for r, how in zip(req, case["how"]):
            if how == "fn" and r in fm:
                final.append(getattr(mods[fm[r]["module"]], r))
            elif how == "var":
                final.append(next(v for v in dr.list_available_variables() if v.name == r))
            else:
                final.append(r)
        got = dr.execute(final, inputs=inputs if inputs or case["empty_inputs"] else None)
        require(isinstance(got, dict), "result is %r", type(got))
        require(set(got) == set(req), "requested %s, got keys %s", req, list(got))
        for k in exp:
            require(same(got[k], exp[k]), "node %s: expected %r, got %r", k, exp[k], got[k])
        # every function saw the right arguments
        for name, args in REC.calls:
            require(name in called, "function %s was called but is not needed", name)
            e = repr(sorted(called[name].items(), key=lambda t: t[0]))
            require(args == e, "function %s called with %s, expected %s", name, args, e)
        ctx.nontrivial(len(called) >= 3)
        ctx.note("mode:" + case["mode"])
        if any("default" in p for n in called for p in fm[n]["params"]):
            ctx.note("default-param")
        if any(fm[n]["mode"] == "falsy" for n in called):
            ctx.note("falsy-value")
        if any(fm[n]["mode"] == "prickly" for n in called):
            ctx.note("prickly-value")
        if case["config"]:
            ctx.note("config-supplied")
        if spec["nmod"] > 1:
            ctx.note("multi-module")
        if len(called) >= 8:
            ctx.note("big")
    finally:
        dags.drop_modules(mods)


def strat():
    return plain_case(modes=["builder", "builder", "legacy", "graph_adapter", "task"])


@st.composite
def named_config(draw):
    """Configuration keys that name functions: the configured value stands for the node, whatever it is."""
    c = draw(plain_case(modes=["builder", "builder", "legacy", "task"], dag_kw=dict(max_fns=7, min_fns=2)))
    fns = c["dag"]["fns"]
    for f in draw(st.lists(st.sampled_from(fns), min_size=1, max_size=2, unique_by=lambda f: f["name"])):
        for g in fns:
            for q in g["params"]:
                if q["name"] == f["name"]:
                    q["ann"] = f["ret"]
        c["config"][f["name"]] = draw(st.one_of(st.none(), dags.value_for(f["ret"])))
    c["how"] = ["str"] * len(c["requests"])
    return c


def check_named(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        fm = dags.fn_map(spec)
        fixed = {k: v for k, v in config.items() if k in fm}
        exp, called = dags.ref_eval(spec, case["requests"], {**config, **inputs}, fixed)
        dr = make_driver(mods, case["mode"], config)
        REC.reset()
        got = dr.execute(list(case["requests"]), inputs=inputs)
        for k in exp:
            require(same(got[k], exp[k]), "configuration %s: node %s is %r, expected %r", config, k, got[k], exp[k])
        require(sorted(REC.names()) == sorted(called), "configuration %s: functions called %s, expected %s", config, sorted(REC.names()), sorted(called))
        up = dags.upstream(spec, case["requests"])
        ctx.nontrivial(bool(set(fixed) & set(up)))
        if any(isinstance(v, (int, str, list, dict, type(None))) and not v for v in fixed.values()):
            ctx.note("falsy-configured")
    finally:
        dags.drop_modules(mods)


PARTS = [Part("eval", strat, check, 16000, 200000, "at least three functions are evaluated", shards=8, tshards=8),
         Part("configured", named_config, check_named, 2500, 30000, "a node needed by the request is given by the configuration", shards=2, tshards=4)]
