"""C02: only what is needed runs, once, dependencies first."""
import logging
from collections import Counter
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode
from vlib.drv import make_driver
from vlib.gen import plain_case

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
MODES = ["builder", "builder", "legacy", "graph_adapter", "task", "task:nodes", "task:nodes:thread3", "task:level", "task:asone"]


def verify_trace(spec, called, events, overrides):
    fm = dags.fn_map(spec)
    starts = Counter(n for k, n in events if k == "s")
    for n in called:
        require(starts[n] == 1, "needed function %s was called %d times", n, starts[n])
    for n in starts:
        require(n in called, "function %s was called but nothing requested needs it", n)
    done = set()
    for k, n in events:
        if k == "e":
            done.add(n)
        else:
            for p in fm[n]["params"]:
                d = p["name"]
                if d in fm and d not in overrides:
                    require(d in done, "%s started before its dependency %s had produced its value", n, d)


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        ov = {k: decode(v) for k, v in case["overrides"].items()}
        _, called = dags.ref_eval(spec, case["requests"], {**config, **inputs}, ov)
        dr = make_driver(mods, case["mode"], config)
        REC.reset()
        dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(ov) if ov or case["empty_inputs"] else None)
        verify_trace(spec, called, REC.events, ov)
        # a second execution is again exact
        REC.reset()
        dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(ov))
        verify_trace(spec, called, REC.events, ov)
        allfn = len(spec["fns"])
        ctx.nontrivial(len(called) >= 3 and len(called) < allfn)
        ctx.note("mode:" + case["mode"])
        if ov:
            ctx.note("overrides")
        uses = Counter(p["name"] for n in called for p in dags.fn_map(spec)[n]["params"])
        if any(uses[n] > 1 for n in called):
            ctx.note("shared-ancestor")
    finally:
        dags.drop_modules(mods)


def strat():
    return plain_case(modes=MODES, allow_overrides=True, dag_kw=dict(max_fns=12, min_fns=2))


PARTS = [Part("trace", strat, check, 9000, 150000, "three or more functions run and at least one function of the dataflow must not run",
              shards=8, tshards=8)]
