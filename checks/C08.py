"""C08: extraction decorators expose exactly the declared parts."""
import asyncio, logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
import pandas as pd
import polars as pl
from hamilton import registry, async_driver
from hamilton import function_modifiers as fm

for _e in ("pandas", "polars"):
    registry.load_extension(_e)
logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated results with missing, extra and falsy parts against a dictionary / frame oracle"
HEADER = dags.HEADER + ("import pandas as pd\nimport polars as pl\nfrom hamilton.function_modifiers import *\n"
                        "from vlib.values import T as _T\n")
FIELDS = ["f", "f1", "f10", "g", "a_b", "name", "keys", "items", "field_", "zz"]
FTYPES = ["int", "str", "Any", "list", "Optional[int]", "float", "Dict[str, int]", "List[int]"]
FVALS = {"int": [0, 5, -1], "str": ["", "s"], "Any": [None, 0, "x", {"$": "obj", "v": 3}, {"$": "prickly", "v": 3}], "list": [[], [1]],
         "Optional[int]": [None, 0, 3], "float": [0.0, 2.5], "Dict[str, int]": [{}, {"f": 1}], "List[int]": [[], [1, 2]]}


def run(dr, is_async, names, inputs, overrides=None):
    if is_async:
        return asyncio.run(dr.execute(names, inputs=inputs, overrides=overrides))
    return dr.execute(names, inputs=inputs, overrides=overrides)


def driver_for(mod, case):
    if case.get("async"):
        async def mk():
            return await async_driver.Builder().with_modules(mod).build()
        return asyncio.run(mk())
    return make_driver([mod], case["mode"])


@st.composite
def fields_case(draw):
    names = draw(st.permutations(FIELDS))[:draw(st.integers(1, 5))]
    fields = {n: draw(st.sampled_from(FTYPES)) for n in names}
    missing = [n for n in names if draw(st.integers(0, 4)) == 0]
    res = [[n, draw(st.sampled_from(FVALS[t]))] for n, t in fields.items() if n not in missing]
    if draw(st.booleans()):
        res.append(["extra", draw(st.sampled_from([None, 1, ""]))])
    res = draw(st.permutations(res))
    c = {"fields": fields, "result": list(res), "shape": draw(st.sampled_from(["dict"] * 14 + ["none", "list", "str"])),
         "async": draw(st.integers(0, 3)) == 0, "mode": draw(st.sampled_from(["builder", "builder", "task:nodes"])),
         "consumers": draw(st.lists(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True), max_size=3)),
         "ann": draw(st.sampled_from(["dict", "Dict[str, Any]"]))}
    if draw(st.integers(0, 2)) == 0:
        c["fill"] = draw(st.sampled_from([0, "", False, "fill", [], 7, {"$": "obj", "v": 9}]))
    return c


def check_fields(case, ctx):
    T = {"result": None}
    import vlib.values
    decl = ", ".join("%r: %s" % kv for kv in case["fields"].items())
    fill = ", fill_with=_T['fill']" if "fill" in case else ""
    src = "@extract_fields({%s}%s)\n%sdef whole(x: int) -> %s:\n    '''doc of whole'''\n    _REC.call('whole', 'int', 'normal', {'x': x})\n    return _T['make']()\n\n" % (
        decl, fill, "async " if case["async"] else "", case["ann"])
    for i, cs in enumerate(case["consumers"]):
        src += "def con%d(%s) -> list:\n    return [%s]\n\n" % (i, ", ".join("%s: %s" % (n, case["fields"][n]) for n in cs), ", ".join(cs))
    orig = {k: decode(v) for k, v in case["result"]}
    made = []

    def make():
        v = {"dict": lambda: dict(orig), "none": lambda: None, "list": lambda: list(case["fields"]), "str": lambda: " ".join(case["fields"])}[case["shape"]]()
        made.append(v)
        return v
    vlib.values.T["make"] = make
    if "fill" in case:
        vlib.values.T["fill"] = decode(case["fill"])
    mod = dags.make_module(src, header=HEADER)
    try:
        dr = driver_for(mod, case)
        have = {v.name: v for v in dr.list_available_variables()}
        require(set(have) == set(case["fields"]) | {"whole", "x"} | {"con%d" % i for i in range(len(case["consumers"]))}, "nodes %s", sorted(have))
        expect = {}
        for n in case["fields"]:
            if n in orig:
                expect[n] = orig[n]
            elif "fill" in case:
                expect[n] = decode(case["fill"])
        if case["shape"] != "dict":
            for n in case["fields"]:
                try:
                    got = run(dr, case["async"], [n], {"x": 1})
                except Exception:
                    continue
                raise Violation("a result of the wrong container type (%s) was accepted for field %s: %r" % (case["shape"], n, got))
            ctx.note("wrong-container")
            ctx.nontrivial()
            return
        # everything available at once
        REC.reset()
        made.clear()
        avail = sorted(expect)
        cons = [i for i, cs in enumerate(case["consumers"]) if all(n in expect for n in cs)]
        got = run(dr, case["async"], avail + ["whole"] + ["con%d" % i for i in cons], {"x": 1})
        require(len(REC.calls) == 1, "the producing function ran %d times", len(REC.calls))
        for n in avail:
            require(same(got[n], expect[n]), "field %s is %r instead of %r", n, got[n], expect[n])
        for i in cons:
            require(same(got["con%d" % i], [expect[n] for n in case["consumers"][i]]), "consumer of fields %s received %r", case["consumers"][i], got["con%d" % i])
        require(isinstance(got["whole"], dict) and all(k in got["whole"] and same(got["whole"][k], v) for k, v in orig.items()),
                "the function's own node lost part of its value: %r instead of %r", got["whole"], orig)
        extra = set(got["whole"]) - set(orig)
        require(extra <= (set(case["fields"]) if "fill" in case else set()), "the function's own node gained %s", extra)
        # one at a time
        for n in case["fields"]:
            REC.reset()
            err = None
            try:
                got = run(dr, case["async"], [n], {"x": 1})
            except Exception as e:
                err = e
            if n in expect:
                if err is not None:
                    raise err
                require(same(got[n], expect[n]), "field %s alone is %r instead of %r", n, got[n], expect[n])
                require(len(REC.calls) == 1, "the producing function ran %d times", len(REC.calls))
            else:
                require(err is not None, "missing field %s gave %r instead of an error", n, got.get(n) if err is None else None)
                require(n in str(err), "the error for missing field %s does not name it: %s", n, err)
        # an override of the whole is what the fields are taken from
        ov = {n: i for i, n in enumerate(case["fields"])}
        REC.reset()
        got = run(dr, case["async"], list(case["fields"]), {"x": 1}, {"whole": ov})
        require(not REC.calls and got == ov, "fields of an overridden whole: %s", got)
        ctx.note("async" if case["async"] else "sync", "fill" if "fill" in case else "nofill")
        ctx.nontrivial(len(expect) < len(case["fields"]) or "fill" in case or bool(cons))
    finally:
        dags.drop_modules([mod])


# ------------------------------------------------------------------ columns
COLS = ["c", "c1", "c10", "d", "col", "a_b", "sum", "index", "shape"]
CVALS = [[1, 2, 3], [0, 0, 0], [1.5, None, 2.0], ["a", "", "c"], [True, False, True]]
IDX = {"range": None, "str": ["r", "s", "t"], "dup": [1, 1, 0], "rev": [2, 1, 0]}


@st.composite
def cols_case(draw):
    lib = draw(st.sampled_from(["pandas", "pandas", "polars"]))
    names = draw(st.permutations(COLS))[:draw(st.integers(1, 5))]
    missing = [n for n in names if draw(st.integers(0, 4)) == 0]
    docs = [n for n in names if draw(st.integers(0, 2)) == 0]
    frame = [[n, draw(st.sampled_from(CVALS))] for n in names if n not in missing]
    if draw(st.booleans()):
        frame.append(["extra", [9, 8, 7]])
    c = {"lib": lib, "names": list(names), "docs": docs, "frame": list(draw(st.permutations(frame))), "index": draw(st.sampled_from(sorted(IDX))),
         "async": draw(st.integers(0, 3)) == 0, "mode": draw(st.sampled_from(["builder", "task:nodes"])), "rows": draw(st.sampled_from([3, 3, 3, 1, 0]))}
    if draw(st.integers(0, 2)) == 0:
        c["fill"] = draw(st.sampled_from([0, 1.5, "z", False]))
    return c


def eq_series(a, b):
    if isinstance(b, pd.Series):
        return isinstance(a, pd.Series) and a.dtype == b.dtype and a.index.equals(b.index) and a.equals(b)
    return isinstance(a, pl.Series) and a.dtype == b.dtype and a.to_list() == b.to_list()


def check_cols(case, ctx):
    import vlib.values
    decl = ", ".join("(%r, 'doc of col %s')" % (n, n) if n in case["docs"] else repr(n) for n in case["names"])
    if "fill" in case:
        decl += ", fill_with=%r" % (case["fill"],)
    T = {"pandas": "pd.DataFrame", "polars": "pl.DataFrame"}[case["lib"]]
    src = "@extract_columns(%s)\n%sdef whole(x: int) -> %s:\n    '''doc of whole'''\n    _REC.call('whole', 'int', 'normal', {'x': x})\n    return _T['make']()\n" % (
        decl, "async " if case["async"] else "", T)

    def make():
        data = {k: v[:case["rows"]] for k, v in case["frame"]}
        if case["lib"] == "polars":
            return pl.DataFrame(data, strict=False)
        ix = IDX[case["index"]]
        return pd.DataFrame(data, index=ix[:case["rows"]] if ix else range(case["rows"]))
    vlib.values.T["make"] = make
    mod = dags.make_module(src, header=HEADER)
    try:
        dr = driver_for(mod, case)
        have = {v.name: v for v in dr.list_available_variables()}
        require(set(have) == set(case["names"]) | {"whole", "x"}, "nodes %s", sorted(have))
        for n in case["docs"]:
            require(have[n].documentation == "doc of col " + n, "documentation of %s is %r", n, have[n].documentation)
        ref = make()
        expect = {}
        for n in case["names"]:
            if n in list(ref.columns):
                expect[n] = ref[n]
            elif "fill" in case:
                if case["lib"] == "pandas":
                    r2 = ref.copy()
                    r2[n] = case["fill"]
                    expect[n] = r2[n]
                else:
                    expect[n] = pl.Series(n, [case["fill"]] * len(ref)) if len(ref) else None
        if case["lib"] == "polars" and not ref.width:
            expect = {k: v for k, v in expect.items() if "fill" not in case}
            if "fill" in case:
                return
        REC.reset()
        got = run(dr, case["async"], sorted(expect) + ["whole"], {"x": 1})
        if not isinstance(got, dict):
            got = {k: got[k] for k in got}
        require(len(REC.calls) == 1, "the producing function ran %d times", len(REC.calls))
        for n, e in expect.items():
            if e is None:
                require(len(got[n]) == 0, "column %s of an empty frame is not empty", n)
            else:
                require(eq_series(got[n], e), "column %s is\n%s\ninstead of\n%s", n, got[n], e)
        for c in ref.columns:
            require(eq_series(got["whole"][c], ref[c]), "the function's own node: column %s changed", c)
        extra = set(got["whole"].columns) - set(ref.columns)
        require(extra <= (set(case["names"]) if "fill" in case else set()), "the function's own node gained columns %s", extra)
        for n in case["names"]:
            err = None
            try:
                got = run(dr, case["async"], [n], {"x": 1})
            except Exception as e:
                err = e
            if n in expect:
                if err is not None:
                    raise err
                require(expect[n] is None or eq_series(got[n], expect[n]), "column %s alone is wrong", n)
            else:
                require(err is not None, "missing column %s did not raise", n)
                require(n in str(err), "the error for missing column %s does not name it: %s", n, err)
        ctx.note(case["lib"], "async" if case["async"] else "sync", "fill" if "fill" in case else "nofill")
        ctx.nontrivial(len(expect) < len(case["names"]) or "fill" in case or len(expect) > 1)
    finally:
        dags.drop_modules([mod])


# ------------------------------------------------------------------ parameterize_extract_columns
@st.composite
def pec_case(draw):
    n = draw(st.integers(1, 3))
    pool = draw(st.permutations(["o%d" % i for i in range(9)]))
    cfg, k = [], 0
    for i in range(n):
        w = draw(st.integers(1, 3))
        outs = list(pool[k:k + w])
        k += w
        cfg.append({"outs": outs, "order": list(draw(st.permutations(outs))),
                    "p": draw(st.sampled_from([["source", "s1"], ["source", "s2"], ["source", "u"]])),
                    "q": draw(st.sampled_from([["value", 0], ["value", 3], ["source", "i1"], ["source", "i2"]]))})
    return {"cfg": cfg, "reassign": draw(st.booleans())}


def check_pec(case, ctx):
    args = []
    for c in case["cfg"]:
        args.append("ParameterizedExtract(%r, {'p': source(%r), 'q': %s(%r), 'cols': value(%r)})" % (tuple(c["outs"]), c["p"][1], c["q"][0], c["q"][1], c["order"]))
    src = ("def u(s1: pd.Series) -> pd.Series:\n    return s1 + 1000\n\n"
           "@parameterize_extract_columns(%s, reassign_columns=%r)\n"
           "def fn(p: pd.Series, q: int, cols: list) -> pd.DataFrame:\n"
           "    _REC.call('fn', 'int', 'normal', {})\n"
           "    return pd.DataFrame({c: p * (i + 1) + q for i, c in enumerate(cols)})\n") % (", ".join(args), case["reassign"])
    mod = dags.make_module(src, header=HEADER)
    try:
        dr = make_driver([mod], "builder")
        env = {"s1": pd.Series([1, 2, 3]), "s2": pd.Series([10, 20], index=["a", "b"]), "i1": 5, "i2": -7}
        inp = {k: v for k, v in env.items() if k in {x.name for x in dr.list_available_variables() if x.is_external_input}}
        env["u"] = env["s1"] + 1000
        REC.reset()
        names = [o for c in case["cfg"] for o in c["outs"]]
        got = dr.execute(names, inputs=inp)
        require(len(REC.calls) == len(case["cfg"]), "%d calls for %d parameterizations", len(REC.calls), len(case["cfg"]))
        for c in case["cfg"]:
            p, q = env[c["p"][1]], c["q"][1] if c["q"][0] == "value" else env[c["q"][1]]
            order = c["outs"] if case["reassign"] else c["order"]
            for i, o in enumerate(order):
                e = p * (i + 1) + q
                require(eq_series(got[o], e), "column %s: expected\n%s\ngot\n%s", o, e, got[o])
        ctx.note("reassign" if case["reassign"] else "own-columns")
        ctx.nontrivial(len(names) > 1)
    finally:
        dags.drop_modules([mod])


# ------------------------------------------------------------------ declaration errors
def bad_decl(tier):
    out = []
    for ret in ["int", "list", "str", "List[int]", "Tuple[int, ...]", "Set[str]", "pd.Series", "float", "Any"]:
        out.append({"dec": "extract_fields({'a': int})", "ret": ret})
        out.append({"dec": "extract_columns('a')", "ret": ret})
    out.append({"dec": "extract_columns('a')", "ret": "dict"})
    out.append({"dec": "extract_fields({'a': int})", "ret": "pd.DataFrame"})
    for d in ["extract_fields({})", "extract_fields({1: int})", "extract_fields({'a': 'b'})", "extract_fields({'a': 3})"]:
        out.append({"dec": d, "ret": "dict"})
    for d in ["extract_columns()", "extract_columns(['a', 'b'])"]:
        out.append({"dec": d, "ret": "pd.DataFrame"})
    return out


def check_bad(case, ctx):
    src = "@%s\ndef whole(x: int) -> %s:\n    return None\n" % (case["dec"], case["ret"])
    mod = None
    try:
        mod = dags.make_module(src, header=HEADER)
        make_driver([mod], "builder")
    except Exception:
        ctx.nontrivial()
        return
    finally:
        if mod:
            dags.drop_modules([mod])
    raise Violation("invalid declaration accepted: %s on a function returning %s" % (case["dec"], case["ret"]))


PARTS = [Part("fields", fields_case, check_fields, 5000, 80000, "a declared field is missing, a fill is declared, or a consumer uses the fields", shards=4, tshards=4),
         Part("columns", cols_case, check_cols, 2000, 30000, "a column is missing, a fill is declared, or several columns are extracted", shards=2, tshards=3),
         Part("parameterize_extract", pec_case, check_pec, 800, 10000, "more than one column", shards=1, tshards=1),
         Part("declarations", None, check_bad, 0, 0, "every listed invalid declaration", shards=1, tshards=1, enumerate_cases=bad_decl)]
