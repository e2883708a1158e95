"""C04: invalid requests are rejected before any user code runs."""
import asyncio, logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode
from vlib.drv import make_driver

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
MODES = ["builder", "builder", "legacy", "graph_adapter", "task", "async"]

# annotation -> (conforming values, definitely non-conforming values); None always conforms as an input
TYPES = {
    "int": ([0, 5, True], ["x", [1], 1.5, {"$": "tuple", "v": []}]),
    "str": (["", "a"], [0, 1, [], ["a"], {}]),
    "float": ([0.0, 2.5], ["x", [], {}]),
    "bool": ([True, False], ["", 0.5, []]),
    "list": ([[], [0]], [{}, "x", 0]),
    "dict": ([{}, {"a": 0}], [[], "x", 0]),
    "tuple": ([{"$": "tuple", "v": [1]}], [{}, "x", 3]),
    "Optional[int]": ([0, 5], ["", [], {}]),
    "Any": ([0, "", {"$": "prickly", "v": 1}], []),
    "Union[int, str]": ([0, "x"], [[], 1.5, {}]),
    "List[int]": ([[], [1, 2]], [0, 2.5, {}]),
    "Dict[str, int]": ([{}, {"a": 1}], [0, "", [], ["a"]]),
    "List[str]": ([[], ["a"]], [0, 1.5]),
    "Literal['a', 'b']": (["a", "b"], ["c", "", 0]),
    "dict[str, list]": ([{}, {"a": []}], [0, "", []]),
    "Optional[List[int]]": ([[], [1]], [0, 2.5, {}]),
    "Sequence[int]": ([[], [1], {"$": "tuple", "v": [2]}], [0, {}, 1.5]),
    "Set[int]": ([{"$": "set", "v": []}, {"$": "set", "v": [1]}], [0, 2.5]),
    "bytes": ([{"$": "bytes", "v": "a"}], ["a", 0, []]),
}


@st.composite
def strat_(draw):
    spec = draw(dags.dag(max_fns=8, min_fns=1, max_inputs=5, rets=["int", "str", "Any", "list"]))
    # give the inputs types of the richer language, consistently over all consumers
    for n in spec["inputs"]:
        t = draw(st.sampled_from(sorted(TYPES)))
        spec["inputs"][n]["type"] = t
        for f in spec["fns"]:
            for p in f["params"]:
                if p["name"] == n:
                    p["ann"] = t
                    if "default" in p:
                        p["default"] = draw(st.sampled_from([v for v in TYPES[t][0] if not (isinstance(v, dict) and v.get("$") == "prickly")]))
    fns = [f["name"] for f in spec["fns"]]
    ui = sorted(dags.used_inputs(spec))
    sup = {}
    p_miss = draw(st.sampled_from([0, 0, 1, 3]))
    p_bad = draw(st.sampled_from([0, 0, 1, 3]))
    for n in ui:
        r = draw(st.integers(0, 9))
        t = spec["inputs"][n]["type"]
        if r < p_miss:
            continue
        if r >= 10 - p_bad and TYPES[t][1]:
            sup[n] = {"v": draw(st.sampled_from(TYPES[t][1])), "ok": False}
        elif r == 5 and draw(st.booleans()):
            sup[n] = {"v": None, "ok": True}
        else:
            sup[n] = {"v": draw(st.sampled_from(TYPES[t][0])), "ok": True}
        sup[n]["config"] = draw(st.integers(0, 4)) == 0
    clash = draw(st.lists(st.sampled_from(sorted(sup)), max_size=1)) if sup and draw(st.integers(0, 6)) == 0 else []
    k = draw(st.integers(1, 3))
    reqs = draw(st.lists(st.sampled_from(fns + [n for n in sup]), min_size=k, max_size=k))
    unknown = []
    if draw(st.integers(0, 6)) == 0:
        unknown = [draw(st.sampled_from(["nope", "aa", "b11", "", "a.b", "x1000"]))]
        unknown = [u for u in unknown if u not in fns and u not in spec["inputs"]]
        reqs = draw(st.permutations(reqs + unknown))
    ov = draw(st.lists(st.sampled_from(fns), max_size=2, unique=True)) if draw(st.booleans()) else []
    extra = {"extra_" + n: 1 for n in draw(st.lists(st.sampled_from(["p", "q"]), max_size=1))}
    return {"dag": spec, "supplied": sup, "clash": clash, "requests": list(reqs), "unknown": unknown,
            "overrides": {n: draw(dags.value_for("Any")) for n in ov}, "extra": extra,
            "mode": draw(st.sampled_from(MODES)), "order": draw(st.booleans())}


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    loop = None
    try:
        config = {k: decode(s["v"]) for k, s in case["supplied"].items() if s["config"] or k in case["clash"]}
        inputs = {k: decode(s["v"]) for k, s in case["supplied"].items() if not s["config"] or k in case["clash"]}
        inputs.update(case["extra"])
        ov = {k: decode(v) for k, v in case["overrides"].items()}
        reqs = case["requests"]
        known = [r for r in reqs if r not in case["unknown"]]
        fm = dags.fn_map(spec)
        # --- oracle
        offending = set(case["unknown"])
        have = {**config, **inputs}
        need = dags.required_inputs(spec, known, ov)
        offending |= {n for n in need if n not in have}
        up = dags.upstream(spec, known, stop=ov)
        offending |= {n for n in up if n in case["supplied"] and not case["supplied"][n]["ok"]}
        clash = bool(case["clash"])
        bad = bool(offending) or clash
        # --- the real thing
        loop = asyncio.new_event_loop() if case["mode"] == "async" else None
        if loop:
            from hamilton import async_driver
            dr = loop.run_until_complete(async_driver.Builder().with_modules(*mods).with_config(config).build())
        else:
            dr = make_driver(mods, case["mode"], config)

        def run():
            REC.reset()
            try:
                if loop:
                    loop.run_until_complete(dr.execute(list(reqs), inputs=dict(inputs), overrides=dict(ov)))
                else:
                    dr.execute(list(reqs), inputs=dict(inputs), overrides=dict(ov))
                return None
            except Exception as e:
                return e

        def dry():
            try:
                dr.validate_execution(list(reqs), inputs=dict(inputs), overrides=dict(ov))
                return None
            except Exception as e:
                return e

        if case["order"] and not loop:
            d = dry()
            e = run()
        else:
            e = run()
            ncalls = list(REC.calls)
            d = dry() if not loop else "skip"
            REC.calls[:] = ncalls
        if bad:
            require(e is not None, "invalid request (%s%s) was accepted", sorted(offending), " config clash" if clash else "")
            require(isinstance(e, (ValueError, KeyError)), "invalid request raised %r", e)
            require(not REC.calls, "user code ran (%s) before the invalid request (%s) was rejected: %r", REC.names(), sorted(offending), e)
            names = set(offending) | set(case["clash"])
            require(any(n in str(e) for n in names), "error %r does not name any of %s", str(e), sorted(names))
            if not clash and not case["unknown"]:
                for n in offending:
                    require(n in str(e), "error %r does not name %s", str(e), n)
        else:
            require(e is None, "valid request was rejected: %r", e)
        if d != "skip":
            require((d is None) == (e is None), "dry run says %r, execution says %r", d, e)
        ctx.note("mode:" + case["mode"], "invalid" if bad else "valid")
        if case["unknown"]:
            ctx.note("unknown-request")
        if clash:
            ctx.note("config-clash")
        if {n for n in need if n not in have}:
            ctx.note("missing-input")
        if any(not case["supplied"][n]["ok"] for n in up if n in case["supplied"]):
            ctx.note("mistyped-input")
        irrelevant = any(not s["ok"] and n not in up for n, s in case["supplied"].items()) or any(
            n not in have and n not in need for n in dags.used_inputs(spec))
        if irrelevant:
            ctx.note("irrelevant-problem")
        ctx.nontrivial(bad or irrelevant)
    finally:
        if loop:
            loop.close()
        dags.drop_modules(mods)


# chains of input annotations, each narrower than the one before, and values with the narrowest annotation they conform to
CHAINS = [
    (["Any", "Union[int, str, list]", "int"], [(3, 2), ("x", 1), ([1], 1), (2.5, 0), ({}, 0)]),
    (["Any", "Union[int, str]", "str"], [(3, 1), ("x", 2), ([], 0)]),
    (["Any", "Optional[int]", "int"], [(3, 2), ("x", 0), (None, 2)]),
    (["Union[int, str]", "int"], [(3, 1), ("x", 0), ([], -1)]),
    (["Any", "Union[list, dict]", "dict"], [([], 1), ({}, 2), (3, 0)]),
    (["Any", "float"], [(1.5, 1), ("x", 0), ([], 0)]),
]


@st.composite
def shared_(draw):
    k = draw(st.integers(0, len(CHAINS) - 1))
    n = draw(st.integers(2, 4))
    fns = [{"ann": draw(st.integers(0, len(CHAINS[k][0]) - 1)), "opt": draw(st.integers(0, 3)) == 0, "on": draw(st.lists(st.integers(0, i - 1), max_size=1)) if i else []} for i in range(n)]
    return {"chain": k, "fns": fns, "order": draw(st.permutations(list(range(n)))), "val": draw(st.integers(0, len(CHAINS[k][1]) - 1)), "req": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)), "mode": draw(st.sampled_from(["builder", "legacy", "task"])), "split": draw(st.booleans()), "config": draw(st.booleans())}


def check_shared(case, ctx):
    anns, vals = CHAINS[case["chain"]]
    value, level = vals[case["val"]]
    srcs = [[], []]
    for i in case["order"]:
        f = case["fns"][i]
        ps = ["i: %s" % anns[f["ann"]]]
        ps = ["f%d: int" % j for j in f["on"]] + ps
        if f["opt"]:
            ps[-1] += " = 1" if anns[f["ann"]] not in ("str", "dict", "Union[list, dict]") else " = None"
        srcs[case["split"] and i % 2].append("def f%d(%s) -> int:\n    CALLS.append(%d)\n    return %d\n" % (i, ", ".join(ps), i, i))
    mods = [dags.make_module("from typing import *\nCALLS = []\n" + "\n".join(x), header="") for x in srcs if x]
    try:
        dr = make_driver(mods, case["mode"], {"i": value} if case["config"] else {})
        up = set()
        todo = list(case["req"])
        while todo:
            i = todo.pop()
            if i not in up:
                up.add(i)
                todo += case["fns"][i]["on"]
        wrong = [i for i in sorted(up) if case["fns"][i]["ann"] > level and value is not None]
        anywhere = any(f["ann"] > level for f in case["fns"]) and value is not None
        req = ["f%d" % i for i in case["req"]]
        err = None
        try:
            got = dr.execute(req, inputs={} if case["config"] else {"i": value})
        except Exception as e:
            err = e
        called = [x for m in mods for x in m.CALLS]
        if wrong:
            require(err is not None, "input i = %r was accepted although it is wrong for %s, which needs %s", value, ["f%d" % i for i in wrong], [anns[case["fns"][i]["ann"]] for i in wrong])
            require(isinstance(err, ValueError) and "i" in str(err) and not called, "wrong input: %r after calling %s", err, called)
        elif not anywhere:
            require(err is None, "input i = %r conforms to every use %s but is rejected: %r", value, [anns[f["ann"]] for f in case["fns"]], err)
            require({k: got[k] for k in req} == {"f%d" % i: i for i in case["req"]}, "result %s", got)
        ctx.nontrivial(len({f["ann"] for f in case["fns"]}) > 1 and bool(wrong or not anywhere))
    finally:
        dags.drop_modules(mods)


PARTS = [Part("shared", shared_, check_shared, 2500, 30000, "uses of one input have different annotations, and all or none of those concerned accept the value", shards=2, tshards=4),
         Part("requests", strat_, check, 12000, 150000,
              "the request is invalid, or contains a missing/mistyped input that is irrelevant to it", shards=8, tshards=8)]
