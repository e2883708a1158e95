"""C39: dataflows run as Spark UDFs agree with computing row by row."""
import logging, warnings
from hypothesis import strategies as st
from hamilton import driver
from vlib import sparkgen as sg
from vlib.core import Part, Violation, require

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated functions, frames and histories of executions (failing ones included) through PySparkUDFGraphAdapter; oracle = evaluation of the functions row by row"
NOTE = "Integers below 2**31 and strings; frames of at most four rows. Where no Spark session can be started nothing is decided."


@st.composite
def case_(draw):
    fns = draw(sg.functions(["row", "row", "pandas", "str"], n=6, strict=True))
    drv = []
    if draw(st.booleans()):
        drv.append({"name": "drv", "kind": "driver", "params": [], "exts": [["e0", None], ["e1", None]][:draw(st.integers(1, 2))], "m": draw(st.integers(1, 5))})
        for f in fns:
            if f["kind"] in ("row", "pandas") and draw(st.booleans()):
                f["exts"] = f["exts"][:1] + [["drv", None]]
    names = [f["name"] for f in fns]
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        req = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
        extra = draw(st.sampled_from([[], [], ["drv"] if drv else [], ["c0"]]))
        runs.append({"rows": draw(sg.rows_), "req": req + extra if draw(st.booleans()) else extra + req, "ext": {"e0": draw(st.integers(0, 9)), "e1": draw(st.integers(0, 9))}, "bad": draw(st.integers(0, 3)) == 0, "drop": draw(st.booleans()), "clash": draw(st.integers(0, 4)) == 0})
    return {"fns": fns + drv, "runs": runs}


def check(case, ctx):
    if sg.S["spark"] is None:
        ctx.note("no spark session can be started here: " + sg.S["why"])
        return
    from hamilton.plugins import h_spark
    by = {f["name"]: f for f in case["fns"]}
    names = sorted(by)
    m = sg.module(sg.HEAD + "\n".join(sg.render(f) for f in case["fns"]) + "\n\ndef bad(c0: int) -> dict:\n    return {}\n\ndef worse(bad: int, c1: int) -> int:\n    return 1\n" .replace("bad: int", "bad: dict"), "c39")
    try:
        dr = driver.Driver({}, m, adapter=h_spark.PySparkUDFGraphAdapter())
        for i, r in enumerate(case["runs"]):
            df = sg.frame(r["rows"])
            cols = {c: df for c in sg.BASE}
            have = {v.name for v in dr.list_available_variables() if v.is_external_input}
            inputs = {k: v for k, v in {**cols, **r["ext"]}.items() if k in have}
            opt = [e for f in by.values() for e, d in f["exts"] if d is None]
            if r["drop"]:
                inputs = {k: v for k, v in inputs.items() if k not in ("e0", "e1") or k in opt}
            ext = {e: inputs[e] for e in ("e0", "e1") if e in inputs}
            if r["bad"]:
                try:
                    got = dr.execute(r["req"][:1] + ["worse"], inputs=dict(inputs))
                except Exception:  # noqa: BLE001
                    ctx.note("failed execution first")
                else:
                    raise Violation("a function with an unsupported return type gave %r" % got)
            if r["clash"]:
                mine = sorted(n for n in names if by[n]["kind"] != "driver")[0]
                df2 = df.withColumn(mine, df["c0"])
                try:
                    got = dr.execute([mine], inputs={k: df2 if k in sg.BASE else v for k, v in inputs.items()})
                except Exception:  # noqa: BLE001
                    ctx.note("name of a column")
                else:
                    raise Violation("the frame has a column %s already: executing the function of that name gave columns %s" % (mine, got.columns))
            want_cols = sg.BASE + [n for n in r["req"] if n not in ("c0",)]
            got = dr.execute(list(r["req"]), inputs=dict(inputs))
            require(list(got.columns) == want_cols, "execution %d: columns %s instead of %s", i, got.columns, want_cols)
            rows = [list(x) for x in got.collect()]
            want = []
            for row in r["rows"]:
                env = dict(zip(sg.BASE, row), **ext)

                def ev(n):
                    if n in env:
                        return env[n]
                    f = by[n]
                    v = sg.value(f, {p: ev(p) for p in f["params"]}, {e: ev(e) for e, d in f["exts"] if e in by or e in ext})
                    return v
                want.append([ev(c) for c in want_cols])
            require(rows == want, "execution %d of %s: %s instead of %s", i, r["req"], rows, want)
            ctx.note("rows" if r["rows"] else "empty frame", *["kind:" + by[n]["kind"] for n in r["req"] if n in by])
        ctx.nontrivial(any(len(r["rows"]) >= 2 for r in case["runs"]) and len(case["fns"]) >= 2)
    finally:
        sg.drop(m)


PARTS = [Part("udf-adapter", case_, check, 60, 1500, "two or more functions on two or more rows", shards=2, tshards=3, setup=sg.setup, timeout=120)]
KNOWN = {}
