"""C11: task-based execution agrees with plain execution."""
import logging
from collections import Counter
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from vlib.gen import plain_case
from checks.C02 import verify_trace

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows and completion schedules, differential against plain execution and a reference evaluator"
GROUPS = ["default", "nodes", "blocks", "asone", "level"]


@st.composite
def executor(draw, process=False):
    k = draw(st.sampled_from(["sync", "thread", "script", "script"] if not process else ["process"]))
    if k == "sync":
        return "sync"
    if k in ("thread", "process"):
        return "%s%d" % (k, draw(st.sampled_from([1, 2, 4])))
    return "script%d=%s" % (draw(st.sampled_from([1, 2, 3, 8])), ".".join(map(str, draw(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=1, max_size=6)))))


@st.composite
def case_(draw, process=False):
    c = draw(plain_case(modes=["task"], allow_overrides=True, dag_kw=dict(max_fns=12, min_fns=2, **(dict(modes=("normal", "falsy"), rets=["int", "str", "list", "dict", "tuple", "Optional[int]"]) if process else {}))))
    g = draw(st.sampled_from(GROUPS if not process else ["nodes", "level", "asone"]))
    lo = draw(executor())
    rem = draw(executor(process))
    if process:
        lo = "sync"
    c["mode"] = "task:%s:%s:%s" % (g, lo, rem)
    trim = draw(st.sampled_from(["keep"] * 12 + ["none", "given", "extra", "only-extra"]))
    if trim == "none":
        c["requests"] = []
    elif trim == "given":  # only names whose value is given
        given = sorted(set(c["inputs"]) | set(c["config"]) | set(c["overrides"]))
        if given:
            c["requests"] = draw(st.lists(st.sampled_from(given), min_size=1, max_size=3, unique=True))
    elif trim != "keep":  # a name that nothing in the dataflow uses
        c["inputs"] = dict(c["inputs"], zz_extra=draw(st.sampled_from([0, None, "x", [1]])))
        c["requests"] = ["zz_extra"] + ([] if trim == "only-extra" else list(c["requests"]))
    c["trim"] = trim
    return c


def check(case, ctx, process=False):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        ov = {k: decode(v) for k, v in case["overrides"].items()}
        if process and any(isinstance(v, (dags.Obj, dags.Prickly)) for v in list(config.values()) + list(inputs.values()) + list(ov.values())):
            return
        exp, called = dags.ref_eval(spec, case["requests"], {**config, **inputs}, ov)
        if process and any(isinstance(v, (dags.Obj, dags.Prickly)) for n in called for v in [dags.node_value(n, dags.fn_map(spec)[n]["ret"], dags.fn_map(spec)[n]["mode"], called[n])]):
            return
        plain = make_driver(mods, "builder", config).execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(ov))
        dr = make_driver(mods, case["mode"], config)
        for rnd in range(1 if process else 2):
            REC.reset()
            got = dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(ov))
            require(set(got) == set(exp), "keys %s instead of %s", sorted(got), sorted(exp))
            for n in exp:
                require(same(got[n], exp[n]), "%s (execution %d): node %s is %r, plain execution gives %r", case["mode"], rnd, n, got[n], plain[n])
                require(same(plain[n], exp[n]), "plain execution: node %s is %r instead of %r", n, plain[n], exp[n])
            if not process:
                verify_trace(spec, called, REC.events, ov)
        parts = case["mode"].split(":")
        ctx.note("request:" + case["trim"], "grouping:" + parts[1], "local:" + parts[2][:6], "remote:" + parts[3][:6])
        ctx.nontrivial(len(called) >= 3)
    finally:
        dags.drop_modules(mods)


def check_process(case, ctx):
    check(case, ctx, process=True)


PARTS = [Part("agree", case_, check, 7000, 110000, "three or more functions run", shards=8, tshards=7, timeout=60),
         Part("processes", lambda: case_(process=True), check_process, 120, 1500, "three or more functions run", shards=2, tshards=1, timeout=60)]
