"""C31: column transforms equal direct frame manipulation."""
import logging
from hypothesis import strategies as st
import pandas as pd
import polars as pl
from hamilton import driver, registry
from vlib.core import Part, require
from vlib import dags
from vlib import sparkgen as sg

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated frames, column functions, selections and configurations; the transformed frame against list arithmetic on the original frame"


def setup():
    for e in ("pandas", "polars", "polars_lazyframe"):
        registry.load_extension(e)


LIBS = {
    "pandas": ("from hamilton.plugins.h_pandas import with_columns\nimport pandas as pd\nFRAME, COL = pd.DataFrame, pd.Series\n",),
    "polars": ("from hamilton.plugins.h_polars import with_columns\nimport polars as pl\nFRAME, COL = pl.DataFrame, pl.Series\n",),
    "lazy": ("from hamilton.plugins.h_polars_lazyframe import with_columns\nimport polars as pl\nFRAME, COL = pl.LazyFrame, pl.Expr\n",),
}
HEADER = "from typing import *\nfrom hamilton.function_modifiers import *\n"
COLS = ["a", "b", "ab", "c", "size", "index", "T", "x1", "x10", "name"]
NEW = ["n", "n1", "n10", "m", "values", "a_new", "count"]
SCALARS = ["scale", "shift"]


@st.composite
def case_st(draw):
    lib = draw(st.sampled_from(["pandas", "pandas", "polars", "lazy"]))
    cols = draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=5, unique=True))
    rows = draw(st.integers(0, 5))
    frame = {c: draw(st.lists(st.integers(-50, 50), min_size=rows, max_size=rows)) for c in cols}
    index = draw(st.sampled_from(["range", "range", "letters", "shuffled", "dup"]))
    stages = []
    have = list(cols)
    for k in range(draw(st.integers(1, 3))):
        mode = draw(st.sampled_from(["pass", "pass", "pass", "on_input"]))
        avail, fns, used = [], [], []
        if mode == "pass":
            passed = draw(st.lists(st.sampled_from(have), min_size=1, max_size=len(have), unique=True))
            avail = list(passed)
            names = [n for n in NEW + COLS if n not in passed]
        else:
            passed = None
            names = list(NEW + COLS)
        for _ in range(draw(st.integers(1, 4))):
            n = draw(st.sampled_from(names))
            if n in used:
                continue
            variants = draw(st.sampled_from([[None], [None], [None], ["A", "B"], ["A"], ["B"]]))
            if not fns:
                variants = [None]
            vs = []
            for v in variants:
                if mode == "on_input" and (not fns or draw(st.booleans())):
                    vs.append({"mode": v, "frame": True, "cols": draw(st.lists(st.sampled_from(have), min_size=1, max_size=2, unique=True)), "scalars": draw(st.lists(st.sampled_from(SCALARS), max_size=1)), "k": draw(st.integers(-3, 3)), "sum": draw(st.integers(0, 3)) == 0})
                else:
                    src = avail + [u for u in used]
                    vs.append({"mode": v, "frame": False, "cols": draw(st.lists(st.sampled_from(src), min_size=1, max_size=3, unique=True)), "scalars": draw(st.lists(st.sampled_from(SCALARS), max_size=2, unique=True)), "k": draw(st.integers(-3, 3)), "sum": draw(st.integers(0, 3)) == 0})
            fns.append({"n": n, "variants": vs, "scalar": False})
            # columns that exist in every configuration can be used by later functions
            if len(variants) == 2 or variants == [None]:
                used.append(n)
            else:
                names = [x for x in names if x != n]
        always = [f["n"] for f in fns if f["n"] in used]
        select = draw(st.one_of(st.none(), st.lists(st.sampled_from(always), min_size=1, max_size=len(always), unique=True)))
        stages.append({"mode": mode, "passed": passed, "fns": fns, "select": select, "ns": draw(st.sampled_from([None, None, "sub", "deep"])), "extra": draw(st.booleans()), "as_module": draw(st.booleans())})
        have = list(dict.fromkeys(have + (select if select is not None else always)))
    return {"lib": lib, "frame": frame, "index": index, "stages": stages, "modes": draw(st.sampled_from([["A"], ["B"], ["A", "B"], ["B", "A"], ["A", "A"]])), "clash": draw(st.booleans()), "bad": draw(st.sampled_from([None] * 8 + ["select", "both", "dup", "param"]))}


def fn_source(f, v, lib, param, indent=""):
    name = f["n"] + ("__" + v["mode"].lower() if v["mode"] else "")
    deco = "@config.when(mode=%r)\n" % v["mode"] if v["mode"] else ""
    if v["frame"]:
        args = ["%s: FRAME" % param]
        get = (lambda c: "pl.col(%r)" % c) if lib == "lazy" else (lambda c: "%s[%r]" % (param, c))
    else:
        args = ["%s: COL" % c for c in v["cols"]]
        get = lambda c: c
    args += ["%s: int" % s for s in v["scalars"]]
    expr = " + ".join(["%s * %d" % (get(c), i + 2) for i, c in enumerate(v["cols"])] + v["scalars"] + ["(%d)" % v["k"]])
    if v["sum"]:
        expr += " - %s.sum()" % get(v["cols"][0])
    return "%sdef %s(%s) -> COL:\n    return %s\n\n" % (deco, name, ", ".join(args), expr)


def evaluate(v, cols, scalars):
    data = [cols[c] for c in v["cols"]]
    add = sum(scalars[s] for s in v["scalars"]) + v["k"] - (sum(data[0]) if v["sum"] else 0)
    return [sum(x * (i + 2) for i, x in enumerate(row)) + add for row in zip(*data)]


def model(case, mode, scalars):
    """(columns in order, values, per stage results, order known)"""
    cur = {c: list(v) for c, v in case["frame"].items()}
    out = []
    for s in case["stages"]:
        inner = {c: cur[c] for c in s["passed"]} if s["passed"] else {}
        made = {}
        for f in s["fns"]:
            for v in f["variants"]:
                if v["mode"] in (None, mode):
                    made[f["n"]] = evaluate(v, cur if v["frame"] else {**inner, **made}, scalars)
        sel = s["select"] if s["select"] is not None else list(made)
        nxt = dict(cur)
        for c in sel:
            nxt[c] = made[c]
        out.append({"in": cur, "out": nxt, "made": made, "sel": sel, "ordered": s["select"] is not None})
        cur = nxt
    return out


def order_ok(out, base, got):
    """Original columns first, in order; the new ones follow, in the order of the selection when there is one."""
    if got[:len(base)] != base or set(got) != set(out["out"]) or len(got) != len(set(got)):
        return False
    return not out["ordered"] or got[len(base):] == [c for c in out["sel"] if c not in base]


def make_frame(case):
    d, n = case["frame"], len(next(iter(case["frame"].values())))
    if case["lib"] == "pandas":
        idx = {"range": range(n), "letters": list("edcba")[:n], "shuffled": [3, 1, 4, 0, 2][:n], "dup": [1, 1, 0, 0, 1][:n]}[case["index"]]
        return pd.DataFrame(d, index=pd.Index(idx, name="ix"), dtype="int64")
    f = pl.DataFrame(d, schema={c: pl.Int64 for c in d})
    return f.lazy() if case["lib"] == "lazy" else f


def columns_of(f):
    if isinstance(f, pl.LazyFrame):
        f = f.collect()
    return {c: f[c].tolist() if isinstance(f, pd.DataFrame) else f[c].to_list() for c in f.columns}


def render(case):
    lib = case["lib"]
    main, subs = "", []
    prev = "df"
    for k, s in enumerate(case["stages"]):
        param = prev
        fsrc = ["".join(fn_source(f, v, lib, param) for v in f["variants"]) for f in s["fns"]]
        body = "".join(fsrc)
        kw = []
        if s["mode"] == "pass":
            kw.append("columns_to_pass=%r" % s["passed"])
        else:
            kw.append("on_input=%r" % param)
        if s["select"] is not None:
            kw.append("select=%r" % s["select"])
        if s["ns"]:
            kw.append("namespace=%r" % (s["ns"] + str(k)))
        kw.append("config_required=['mode']" if any(v["mode"] for f in s["fns"] for v in f["variants"]) else "config_required=None")
        if case["bad"] == "select" and k == 0:
            kw = [x for x in kw if not x.startswith("select")] + ["select=%r" % ((s["select"] or []) + ["nosuch"])]
        if case["bad"] == "both" and k == 0:
            kw = [x for x in kw if not x.startswith(("on_input", "columns_to_pass"))] + ["on_input=%r" % param, "columns_to_pass=%r" % [sorted(case["frame"])[0]]]
        if case["bad"] == "dup" and k == 0 and s["passed"]:
            kw = [x for x in kw if not x.startswith("columns_to_pass")] + ["columns_to_pass=%r" % (s["passed"] + [s["fns"][0]["n"]])]
        if case["bad"] == "param" and k == 0:
            kw = [x for x in kw if not x.startswith(("on_input", "columns_to_pass"))] + ["on_input='nosuch'"]
        subs.append(body)
        args = "%s: FRAME" % param
        if s["mode"] == "on_input" and s["extra"]:
            args = "other: int, " + args
        elif s["extra"]:
            args += ", other: int"
        main += "@with_columns(*LOAD[%d], %s)\ndef st%d(%s) -> FRAME:\n    SEEN[%d] = %s\n    return %s\n\n" % (k, ", ".join(kw), k, args, k, "other" if s["extra"] else "None", param)
        prev = "st%d" % k
    if case["clash"]:  # nodes of the enclosing dataflow that are called like columns
        for c in sorted(case["frame"])[:2]:
            main += "def %s(scale: int) -> int:\n    return scale\n\n" % c
    return main, subs


def check(case, ctx):
    setup()
    lib = case["lib"]
    main, subs = render(case)
    mods = []
    scalars = {"scale": 3, "shift": -2}
    try:
        load, seen = [], {}
        for s, src in zip(case["stages"], subs):
            m = dags.make_module(src, header=HEADER + LIBS[lib][0])
            mods.append(m)
            own = [v for v in vars(m).values() if callable(v) and getattr(v, "__module__", "") == m.__name__ and hasattr(v, "__code__")]
            load.append([m] if s["as_module"] else own)
        bad = case["bad"] if not (case["bad"] == "dup" and case["stages"][0]["mode"] != "pass") else None
        try:
            mod = dags.make_module(main, header=HEADER + LIBS[lib][0], ns={"LOAD": load, "SEEN": seen})
            mods.append(mod)
            drs = [driver.Builder().with_modules(mod).with_config({"mode": m}).build() for m in case["modes"]]
        except Exception as e:
            require(bad, "refused: %r\n%s\n%s", e, main, "\n".join(subs))
            ctx.note("refused " + bad)
            return
        require(not bad, "an ill-formed with_columns (%s) was accepted\n%s\n%s", bad, main, "\n".join(subs))
        for rep in range(2):
            for dr, mode in zip(drs, case["modes"]):
                frame = make_frame(case)
                keep = make_frame(case)
                want = model(case, mode, scalars)
                names = {v.name for v in dr.list_available_variables()}
                ext = {v.name for v in dr.list_available_variables() if v.is_external_input} - {"mode"}
                inner = ["%s.%s" % (s["ns"] + str(k) if s["ns"] else "st%d" % k, c) for k, s in enumerate(case["stages"]) for c in want[k]["sel"]]
                require(set(inner) <= names, "columns are not nodes: %r; nodes %r\n%s", set(inner) - names, sorted(names), main)
                allowed = {"df", "scale", "shift", "other"}
                require(ext <= allowed, "the dataflow asks for the inputs %r, expected %r at most\n%s\n%s", sorted(ext), sorted(allowed), main, "\n".join(subs))
                inputs = {n: v for n, v in dict(scalars, df=frame, other=77).items() if n in ext}
                ask = ["st%d" % k for k in range(len(want))]
                r = dr.execute(ask + (inner if lib != "lazy" else []), inputs=inputs)
                before = list(case["frame"])
                for k, w in enumerate(want):
                    got = columns_of(r["st%d" % k])
                    require(got == w["out"], "stage %d (mode %r) gives %r, expected %r\n%s\n%s", k, mode, got, w["out"], main, "\n".join(subs))
                    require(order_ok(w, before, list(got)), "stage %d has the columns %r: they were %r, selected %r\n%s", k, list(got), before, w["sel"], main)
                    before = list(got)
                    f = r["st%d" % k]
                    require(type(f) is type(frame), "stage %d is a %s", k, type(f))
                    if lib == "pandas":
                        require(f.index.equals(frame.index) and f.index.name == "ix" and f.columns.is_unique, "stage %d has the index %r, expected %r", k, f.index, frame.index)
                    if case["stages"][k]["extra"]:
                        require(seen.get(k) == 77, "stage %d got other=%r", k, seen.get(k))
                    if lib != "lazy":
                        for c in w["sel"]:
                            v = r["%s.%s" % (case["stages"][k]["ns"] + str(k) if case["stages"][k]["ns"] else "st%d" % k, c)]
                            v = v.tolist() if lib == "pandas" else v.to_list()
                            require(v == w["made"][c], "column %s of stage %d is %r, expected %r", c, k, v, w["made"][c])
                require(columns_of(frame) == columns_of(keep), "the original frame was modified: %r, was %r", frame, keep)
                if case["clash"]:
                    c = sorted(case["frame"])[0]
                    require(dr.execute([c], inputs={"scale": 3}) == {c: 3}, "a node of the enclosing dataflow called like a column changed")
        ctx.note(lib, *(s["mode"] for s in case["stages"]))
        if next(iter(case["frame"].values())) and len(case["stages"][0]["fns"]) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(mods)

# ---------------------------------------------------------------- spark
@st.composite
def spark_case(draw):
    passed = draw(st.lists(st.sampled_from(sg.BASE), min_size=1, max_size=6, unique=True))
    if not {"c0", "c1", "d0", "d1"} & set(passed):
        passed.append("c0")
    rest = [c for c in sg.BASE if c not in passed]
    fns = draw(sg.functions(["row", "pandas", "col", "frame", "dfcol", "str"], free=tuple(passed), shadow=draw(st.sampled_from(rest)) if rest else None, n=5))
    names = [f["name"] for f in fns]
    select = draw(st.sampled_from([None, 1, 1]))
    if select is not None:      # the last function, whatever it needs, and any others
        select = draw(st.permutations([n for n in names[:-1] if draw(st.integers(0, 2)) == 0] + names[-1:]))
        select += [n for n in names if n in sg.BASE and n not in select]
    return {"fns": fns, "passed": passed, "select": select, "mode": draw(st.sampled_from(["append", "append", "select"])), "ns": draw(st.sampled_from([None, "ns", "ns"])), "how": draw(st.sampled_from(["functions", "module"])),
            "rows": draw(sg.rows_), "ext": {"e0": draw(st.integers(0, 9)), "e1": draw(st.integers(0, 9))}, "drop": draw(st.booleans()), "e1fn": draw(st.booleans()), "again": draw(st.booleans()), "post": draw(st.sampled_from(["", "", "limit", "add"])), "perm": draw(st.integers(0, 5))}


def check_spark(case, ctx):
    if sg.S["spark"] is None:
        ctx.note("no spark session can be started here: " + sg.S["why"])
        return
    from hamilton import driver
    fns = case["fns"]
    by = {f["name"]: f for f in fns}
    order = fns[case["perm"] % len(fns):] + fns[:case["perm"] % len(fns)]
    inner = sg.module(sg.HEAD + "\n".join(sg.render(f) for f in order), "c31i")
    need = {e for f in fns for e, d in f["exts"] if d is None}
    used = {e for f in fns for e, d in f["exts"]}
    ext = {e: v for e, v in case["ext"].items() if e in need or e in used and not case["drop"]}
    kw = "columns_to_pass=%r, namespace=%r" % (case["passed"], case["ns"])
    kw += ", %s=%r" % ("output_cols" if case["mode"] == "select" else "select", case["select"])
    src = sg.HEAD + "import %s as inner\n" % inner.__name__
    args = "inner" if case["how"] == "module" else ", ".join("inner." + f["name"] for f in order)
    body = {"": "return base", "limit": "return base.limit(2)", "add": "return base.withColumn('extra', F.lit(5))"}[case["post"]]
    src += "@h_spark.%s(%s, %s)\ndef final(base: DataFrame, other: int) -> DataFrame:\n    %s\n\n" % ("select" if case["mode"] == "select" else "with_columns", args, kw, body)
    if case["again"]:
        src += "@h_spark.%s(%s, %s)\ndef second(final: DataFrame) -> DataFrame:\n    return final\n\n" % ("with_columns", args, kw.replace("output_cols", "select").replace("namespace=%r" % case["ns"], "namespace='again'"))
    inputs = {"base": sg.frame(case["rows"]), "other": 1}
    if case["e1fn"] and "e1" in ext:
        src += "def e1(other: int) -> int:\n    return other + %d\n\n" % (ext["e1"] - 1)
        inputs.update({k: v for k, v in ext.items() if k != "e1"})
    else:
        inputs.update(ext)
    outer = sg.module(src, "c31o")
    try:
        dr = driver.Builder().with_modules(outer).build()
        again = case["again"] and case["mode"] == "append" and case["post"] != "limit"
        goal = "second" if again else "final"
        have = {v.name for v in dr.list_available_variables() if v.is_external_input}
        inputs = {k: v for k, v in inputs.items() if k in have}
        r = dr.execute([goal], inputs=dict(inputs))[goal]

        def apply(cols, rows, select, mode):
            out = []
            for row in rows:
                env = dict(row)
                memo = {}

                def ev(n):
                    if n in by and n not in case["passed"]:
                        if n not in memo:
                            f = by[n]
                            memo[n] = sg.value(f, {p: ev(p) for p in f["params"]}, ext)
                        return memo[n]
                    return env[n]
                new = {n: ev(n) for n in by}
                keep = select if select is not None else list(by)
                if mode == "select":
                    out.append({n: new[n] for n in keep})
                else:
                    out.append({**row, **{n: new[n] for n in keep}})
            keep = select if select is not None else list(by)
            return (list(keep) if mode == "select" else cols + [n for n in keep if n not in cols]), out
        cols, rows = apply(list(sg.BASE), [dict(zip(sg.BASE, x)) for x in case["rows"]], case["select"], case["mode"])
        if case["post"] == "add":
            cols, rows = cols + ["extra"], [dict(x, extra=5) for x in rows]
        if case["post"] == "limit":
            rows = rows[:2]
        if again:
            cols, rows = apply(cols, rows, case["select"], "append")
        fixed = len(cols) if case["mode"] == "select" and case["select"] is not None and case["post"] != "add" else len(sg.BASE) if case["mode"] == "append" else 0
        require(sorted(r.columns) == sorted(cols) and r.columns[:fixed] == cols[:fixed], "spark %s: the columns are %s instead of %s", case["mode"], r.columns, cols)
        got = [x.asDict() for x in r.collect()]
        require(got == rows, "spark %s: the rows are %s instead of %s", case["mode"], got, rows)
        ctx.note("spark " + case["mode"], *["kind:" + f["kind"] for f in fns])
        ctx.nontrivial(len(rows) >= 2 and len(fns) >= 2)
    finally:
        sg.drop(inner)
        sg.drop(outer)


PARTS = [
    Part("columns", case_st, check, quick=1500, thorough=40000, rule="a frame with rows and at least two column functions", setup=setup),
    Part("spark", spark_case, check_spark, quick=100, thorough=1500, rule="two or more functions, two or more rows", shards=2, tshards=3, setup=sg.setup, timeout=120),
]
