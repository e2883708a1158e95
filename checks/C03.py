"""C03: overrides replace a node's value everywhere and nothing else."""
import asyncio, logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
MODES = ["builder", "builder", "legacy", "graph_adapter", "task", "task:nodes", "task:nodes:thread3", "task:level", "task:asone", "async"]


@st.composite
def strat_(draw):
    spec = draw(dags.dag(max_fns=9, min_fns=2))
    fns = [f["name"] for f in spec["fns"]]
    ui = dags.used_inputs(spec)
    ins = sorted(ui)
    config = {}
    for n in ins:
        if draw(st.integers(0, 9)) == 0:
            config[n] = draw(dags.value_for(spec["inputs"][n]["type"]))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(1, 3))
        reqs = draw(st.lists(st.sampled_from(fns), min_size=k, max_size=k))
        pool = fns + [r for r in reqs]
        ov = draw(st.lists(st.sampled_from(pool), min_size=0, max_size=4, unique=True))
        ov = {n: draw(dags.value_for("Any")) for n in ov}
        need = dags.required_inputs(spec, reqs, ov)
        inputs = {}
        for n in ins:
            if n in config:
                continue
            if n in need or draw(st.integers(0, 2)) == 0:
                inputs[n] = draw(dags.value_for(spec["inputs"][n]["type"]))
        if (inputs or config) and draw(st.integers(0, 3)) == 0:
            # override a supplied input
            n = draw(st.sampled_from(sorted(inputs) + sorted(config)))
            ov[n] = draw(dags.value_for("Any"))
        calls.append({"requests": reqs, "overrides": ov, "inputs": inputs, "none_inputs": draw(st.booleans())})
    return {"dag": spec, "config": config, "calls": calls, "mode": draw(st.sampled_from(MODES))}


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    loop = None
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        if case["mode"] == "async":
            from hamilton import async_driver, base
            loop = asyncio.new_event_loop()
            dr = loop.run_until_complete(async_driver.Builder().with_modules(*mods).with_config(config).build())
        else:
            dr = make_driver(mods, case["mode"], config)
        for c in case["calls"]:
            inputs = {k: decode(v) for k, v in c["inputs"].items()}
            ov = {k: decode(v) for k, v in c["overrides"].items()}
            exp, called = dags.ref_eval(spec, c["requests"], {**config, **inputs}, ov)
            REC.reset()
            kw = dict(inputs=None if (not inputs and c["none_inputs"]) else dict(inputs),
                      overrides=None if not ov and c["none_inputs"] else dict(ov))
            if case["mode"] == "async":
                got = loop.run_until_complete(dr.execute(list(c["requests"]), **kw))
            else:
                got = dr.execute(list(c["requests"]), **kw)
            require(set(got) == set(c["requests"]), "keys %s for requests %s", list(got), c["requests"])
            for k in exp:
                require(same(got[k], exp[k]), "node %s with overrides %s: expected %r, got %r", k, sorted(ov), exp[k], got[k])
            for n in REC.names():
                require(n not in ov, "overridden node %s was computed", n)
                require(n in called, "node %s ran although overrides %s make it unnecessary", n, sorted(ov))
            if ov:
                up = dags.upstream(spec, c["requests"], stop=ov)
                ctx.nontrivial(any(n in up and n not in c["requests"] for n in ov))
                if any(n in c["requests"] for n in ov):
                    ctx.note("override-requested")
                if any(n in spec["inputs"] for n in ov):
                    ctx.note("override-input")
                if any(v is None for v in ov.values()):
                    ctx.note("override-None")
        if len(case["calls"]) > 1:
            ctx.note("several-calls")
        ctx.note("mode:" + case["mode"])
    finally:
        if loop:
            loop.close()
        dags.drop_modules(mods)


PARTS = [Part("override", strat_, check, 8000, 120000,
              "an overridden node lies strictly upstream of a requested output that is still computed", shards=8, tshards=8)]
