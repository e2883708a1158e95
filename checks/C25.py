"""C25: result builders assemble exactly the requested outputs."""
import asyncio, collections, logging, math, warnings
from hypothesis import strategies as st
import numpy as np
import pandas as pd
import polars as pl
from hamilton import async_driver, base, driver, registry
from hamilton.io.materialization import to
from hamilton.lifecycle import api
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.drv import configure_task

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated outputs (series, frames, arrays, scalars, indexes) and requests; cell-by-cell oracle on the assembled container"
HOLD = {}


def setup():
    for e in ("pandas", "numpy", "polars"):
        registry.load_extension(e)


# ---------------------------------------------------------------- running a builder in the various ways
def module_for(outputs, hidden):
    """outputs: {name: value}; dotted names come from a subdag; some nodes depend on others, so more runs than is requested."""
    src = ["from typing import *", "from hamilton.function_modifiers import subdag", "import checks.C25 as _C", ""]
    nss = {}
    for n in outputs:
        if "." in n:
            ns, x = n.split(".", 1)
            nss.setdefault(ns, []).append(x)
        else:
            src.append("def %s(%s: Any) -> Any:\n    return _C.HOLD[%r]\n" % (n, hidden, n))
    src.append("def %s() -> Any:\n    return 'hidden'\n" % hidden)
    mods = []
    for ns, xs in nss.items():
        inner = ["from typing import *", "import checks.C25 as _C", ""]
        for x in xs:
            inner.append("def %s() -> Any:\n    return _C.HOLD[%r]\n" % (x, ns + "." + x))
        m = dags.make_module("\n".join(inner), header="")
        mods.append(m)
        own = "_C.HOLD[%r]" % ns if ns in outputs else "0"
        # the subdag node itself may be requested too
        if ns in outputs:
            src = [s for s in src if not s.startswith("def %s(" % ns)]
        src.append("import %s as _m_%s\n@subdag(_m_%s)\ndef %s(%s) -> Any:\n    return %s\n" % (m.__name__, ns, ns, ns, ", ".join("%s: Any" % x for x in xs), own))
    return [dags.make_module("\n".join(src), header="")] + mods


WAYS = ["builder", "builder", "graph_adapter", "materialize", "task", "async", "legacy_default"]


def assemble(way, rb, outputs, request):
    """-> the built result"""
    HOLD.clear()
    HOLD.update(outputs)
    mods = module_for(outputs, "zz_hidden")
    try:
        if way == "builder":
            return driver.Builder().with_modules(mods[0]).with_adapters(rb).build().execute(request)
        if way == "graph_adapter":
            return driver.Driver({}, mods[0], adapter=base.SimplePythonGraphAdapter(rb)).execute(request)
        if way == "legacy_default":
            return driver.Driver({}, mods[0]).execute(request)
        if way == "task":
            return configure_task(driver.Builder().with_modules(mods[0]).with_adapters(rb).enable_dynamic_execution(allow_experimental_mode=True), "task:nodes").build().execute(request)
        if way == "materialize":
            dr = driver.Builder().with_modules(mods[0]).build()
            return dr.materialize(to.memory(id="zz_mat", dependencies=request, combine=rb))[0]["zz_mat"]
        if way == "async":
            async def go():
                dr = async_driver.AsyncDriver({}, mods[0], result_builder=rb)
                return await dr.execute(request)
            loop = asyncio.new_event_loop()
            try:
                return loop.run_until_complete(go())
            finally:
                loop.close()
    finally:
        dags.drop_modules(mods)
    raise ValueError(way)


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("err", "%s: %s" % (type(e).__name__, str(e)[:200]))


# ---------------------------------------------------------------- exactly the requested outputs
NAMES = ["a", "ab", "b", "outputs", "c", "result", "kwargs", "x1", "x10", "d.a", "d.b", "d", "cls", "name"]


class Rec(api.ResultBuilder):
    def __init__(self):
        self.got = []

    def build_result(self, **outputs):
        self.got.append(outputs)
        return ("built", len(self.got))


@st.composite
def exact_(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
    req = draw(st.lists(st.sampled_from(names), min_size=1, max_size=6))
    return {"names": names, "req": req, "kinds": [draw(st.integers(0, 6)) for _ in names], "way": draw(st.sampled_from(WAYS[:-1])), "rb": draw(st.sampled_from(["rec", "dict"]))}


def kind_value(k, n):
    return [None, 0, [], dags.Prickly(n), pd.Series([1, 2]), dags.Obj(n), {"a": 1}][k]


def check_exact(case, ctx):
    outs = {n: kind_value(k, n) for n, k in zip(case["names"], case["kinds"])}
    req = case["req"]
    if case["way"] == "materialize" and len(set(req)) != len(req):
        req = list(dict.fromkeys(req))
    if case["way"] == "materialize":
        outs_order = req
    want = list(dict.fromkeys(req))
    rb = Rec() if case["rb"] == "rec" else base.DictResult()
    r = assemble(case["way"], rb, outs, req)
    if case["rb"] == "rec":
        require(r == ("built", 1), "execute returned %r; the builder was called %d times", r, len(rb.got))
        got = rb.got[0]
    else:
        got = r
    require(type(got) is dict, "got %s", type(got))
    if case["way"] == "materialize":  # the order in which a materializer's dependencies arrive is not the caller's
        require(set(got) == set(want), "the builder received %s, requested %s", list(got), req)
    else:
        require(list(got) == want, "the builder received %s, requested %s", list(got), req)
    for n in want:
        require(got[n] is outs[n], "output %s is not the computed object", n)
    ctx.nontrivial(len(want) > 1)
    ctx.note(case["way"])


# ---------------------------------------------------------------- pandas
IDX = {"range": lambda n: pd.RangeIndex(n), "int": lambda n: pd.Index([5, 3, 9, 1][:n]), "int2": lambda n: pd.Index([3, 5, 7, 2][:n]), "str": lambda n: pd.Index(["b", "a", "c", "d"][:n]),
       "str2": lambda n: pd.Index(["a", "z", "c", "b"][:n]), "date": lambda n: pd.date_range("2020-01-01", periods=n), "date2": lambda n: pd.date_range("2020-01-02", periods=n), "dup": lambda n: pd.Index([1, 1, 2, 2][:n]), "float": lambda n: pd.Index([0.0, 1.5, 2.0, 3.0][:n]), "rev": lambda n: pd.Index([9, 7, 4, 2][:n]), "revdate": lambda n: pd.date_range("2020-02-01", periods=n)[::-1]}
PDK = ["series", "series", "series", "scalar", "scalar", "frame", "list", "array", "index", "other", "other"]
OTHER = ["tuple", "range", "cat", "parray", "deque", "string"]


@st.composite
def pandas_(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "ab", "x1", "d", "d.a", "d.b", "kwargs"]), min_size=1, max_size=5, unique=True))
    pool = draw(st.lists(st.sampled_from(sorted(IDX)), min_size=1, max_size=2, unique=True))
    n0 = draw(st.integers(0, 4))
    outs = {}
    for n in names:
        k = draw(st.sampled_from(PDK))
        ln = n0 if draw(st.integers(0, 3)) else draw(st.integers(0, 4))
        o = {"k": k, "n": ln, "idx": draw(st.sampled_from(pool)), "base": draw(st.integers(0, 50)), "dt": draw(st.sampled_from(["int", "float", "str"])), "named": draw(st.sampled_from([None, "zz", "a"]))}
        if k == "frame":
            o["cols"] = draw(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=3))
        if k == "other":
            o["o"] = draw(st.sampled_from(OTHER))
        if k == "scalar":
            o["v"] = draw(st.sampled_from([0, 1.5, "s", None, True, "", b"by", b"", 10**19, 1j]))
        outs[n] = o
    return {"outs": outs, "req": draw(st.permutations(names)), "way": draw(st.sampled_from(WAYS)), "rb": draw(st.sampled_from(["plain", "plain", "strict"]))}


def vals(o):
    r = [o["base"] + i for i in range(o["n"])]
    return r if o["dt"] == "int" else ([x / 2 for x in r] if o["dt"] == "float" else ["v%d" % x for x in r])


def pd_value(o):
    if o["k"] == "series":
        return pd.Series(vals(o), index=IDX[o["idx"]](o["n"]), name=o["named"], dtype={"int": "int64", "float": "float64", "str": object}[o["dt"]])
    if o["k"] == "frame":
        df = pd.DataFrame({j: [x * 10 + j if o["dt"] != "str" else "%s%d" % (x, j) for x in vals(o)] for j in range(len(o["cols"]))}, index=IDX[o["idx"]](o["n"]))
        df.columns = o["cols"]
        return df
    if o["k"] == "list":
        return vals(o)
    if o["k"] == "array":
        return np.array(vals(o))
    if o["k"] == "index":
        return pd.Index(vals(o))
    if o["k"] == "other":
        return {"tuple": lambda: tuple(vals(o)), "range": lambda: range(o["base"], o["base"] + o["n"]), "cat": lambda: pd.Categorical(vals(o)), "parray": lambda: pd.array(range(o["base"], o["base"] + o["n"]), dtype="Int64"),
                "deque": lambda: collections.deque(vals(o)), "string": lambda: pd.array(["v%d" % i for i in range(o["n"])], dtype="string")}[o["o"]]()
    return o["v"]


LISTS = (list, np.ndarray, pd.Index, tuple, range, pd.Categorical, pd.api.extensions.ExtensionArray, collections.deque)


def eqv(a, b):
    if a is b:
        return True
    try:
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        return bool(a == b)
    except Exception:
        return False


def isna(x):
    return x is None or x is pd.NaT or (isinstance(x, float) and math.isnan(x))


def check_pandas(case, ctx):
    outs = {n: pd_value(o) for n, o in case["outs"].items()}
    req = list(case["req"])
    way = case["way"]
    rb = base.StrictIndexTypePandasDataFrameResult() if case["rb"] == "strict" and way != "legacy_default" else base.PandasDataFrameResult()
    if way == "materialize":
        order_known = False
    else:
        order_known = True
    strict = isinstance(rb, base.StrictIndexTypePandasDataFrameResult)
    copies = {n: (v.copy() if hasattr(v, "copy") else v) for n, v in outs.items()}
    r = attempt(lambda: assemble(way, rb, outs, req))
    for n, v in outs.items():  # building must not change the outputs
        c = copies[n]
        if isinstance(v, pd.DataFrame):
            require(v.equals(c), "the output %s was modified", n)
        elif isinstance(v, pd.Series):
            require(v.equals(c) and v.name == c.name, "the output %s was modified", n)
    kinds = {n: case["outs"][n]["k"] for n in req}
    if len(req) == 1 and kinds[req[0]] == "frame":
        require(strict or r[0] == "ok", "%s", r)
        if r[0] == "ok":
            require(r[1] is outs[req[0]] or r[1].equals(outs[req[0]]), "single frame changed: %s", r[1])
        return
    # flatten
    cols, clash = [], False
    for n in req:
        v = outs[n]
        if isinstance(v, pd.DataFrame):
            for j, c in enumerate(v.columns):
                cols.append(("%s.%s" % (n, c), v.iloc[:, j]))
        else:
            cols.append((n, v))
    names = [c for c, _ in cols]
    clash = len(set(names)) != len(names)
    series = [v for _, v in cols if isinstance(v, pd.Series)]
    flat = [v for _, v in cols if isinstance(v, LISTS)]
    scal = [v for _, v in cols if not isinstance(v, (pd.Series,) + LISTS)]
    same_idx = all(s.index.equals(series[0].index) for s in series) if series else True
    dup = any(not s.index.is_unique for s in series)
    combinable = not clash
    if series and not same_idx and dup:
        # labels that occur twice cannot be aligned with others, except where pandas need not look them up
        combinable = None if any(set(s.index) <= set(t.index) for s in series for t in series if s is not t) else False
    union = None
    if series:
        union = list(dict.fromkeys(x for s in series for x in s.index))
        nrows = len(series[0]) if same_idx else len(union)
    elif flat:
        nrows = len(flat[0])
    else:
        nrows = 1
    if any(len(f) != nrows for f in flat):
        combinable = False
    if flat and series and not same_idx:
        combinable = None  # pandas decides on positions in the joined index
    if strict and combinable:
        types = {(type(s.index).__name__, str(s.index.dtype)) for s in series}
        if len(types) + (1 if any(k == "index" for k in kinds.values()) else 0) != 1:
            combinable = None
        if len({(type(s.index).__name__, str(s.index.dtype)) for s in series}) > 1:
            combinable = False
    if combinable is None:
        return
    if not combinable:
        require(r[0] == "err", "outputs %s cannot be combined (requested %s) but the result is\n%s", {n: (kinds[n], case["outs"][n]) for n in req}, req, r[1])
        ctx.note("refused")
        ctx.nontrivial(True)
        return
    if r[0] == "err" and len({str(s_.index.dtype) for s_ in series}) > 1:
        return  # labels of different kinds that pandas cannot join: an error, not a loss
    require(r[0] == "ok", "outputs %s: %s", {n: case["outs"][n] for n in req}, r[1])
    df = r[1]
    require(isinstance(df, pd.DataFrame), "got %s", type(df))
    require((list(df.columns) == names) if order_known else (sorted(df.columns) == sorted(names)), "columns %s, expected %s", list(df.columns), names)
    require(len(df) == nrows, "%d rows, expected %d:\n%s", len(df), nrows, df)
    if series:
        if same_idx:
            require(df.index.equals(series[0].index), "index %s, expected %s", df.index, series[0].index)
        else:
            require(len(set(df.index)) == len(union) and set(df.index) == set(union), "index %s, expected the labels %s", df.index, union)
    for c, v in cols:
        col = df[c]
        if isinstance(v, pd.Series):
            if same_idx:
                require(all(eqv(x, y) for x, y in zip(col.tolist(), v.tolist())), "column %s = %s, expected %s", c, col.tolist(), v.tolist())
            else:
                at = dict(zip(v.index, v.tolist()))
                for lab, x in zip(df.index, col.tolist()):
                    if lab in at:
                        require(eqv(x, at[lab]), "column %s at %r = %r, expected %r", c, lab, x, at[lab])
                    else:
                        require(isna(x), "column %s at %r = %r, expected a missing value", c, lab, x)
        elif isinstance(v, LISTS):
            require(all(eqv(x, y) for x, y in zip(col.tolist(), list(v))), "column %s = %s, expected %s", c, col.tolist(), list(v))
        else:
            require(all(eqv(x, v) or (v is None and isna(x)) for x in col.tolist()), "column %s = %s, expected %r everywhere", c, col.tolist(), v)
    ctx.note("same index" if same_idx else "joined")
    ctx.nontrivial(len(cols) > 1)


# ---------------------------------------------------------------- numpy
@st.composite
def numpy_(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "ab", "x1"]), min_size=1, max_size=4, unique=True))
    n0 = draw(st.integers(0, 4))
    outs = {}
    for n in names:
        k = draw(st.sampled_from(["array", "array", "list", "series", "scalar", "npscalar"]))
        outs[n] = {"k": k, "n": n0 if draw(st.integers(0, 4)) else draw(st.integers(0, 4)), "base": draw(st.integers(0, 9)), "f": draw(st.booleans())}
    return {"outs": outs, "req": draw(st.permutations(names)), "way": draw(st.sampled_from(WAYS[:-1]))}


def check_numpy(case, ctx):
    outs, exp = {}, {}
    for n, o in case["outs"].items():
        v = [(o["base"] + i) / (2 if o["f"] else 1) for i in range(o["n"])]
        if not o["f"]:
            v = [int(x) for x in v]
        exp[n] = v
        outs[n] = np.array(v, dtype=float if o["f"] else int) if o["k"] == "array" else (v if o["k"] == "list" else (pd.Series(v, dtype=float if o["f"] else int) if o["k"] == "series" else (o["base"] if o["k"] == "scalar" else np.int64(o["base"]))))
    req = list(case["req"])
    vec = [n for n in req if case["outs"][n]["k"] not in ("scalar", "npscalar")]
    lens = {len(exp[n]) for n in vec}
    r = attempt(lambda: assemble(case["way"], base.NumpyMatrixResult(), outs, req))
    if len(lens) > 1:
        require(r[0] == "err", "vectors of lengths %s were combined into %s", lens, r)
        ctx.note("refused")
        ctx.nontrivial(True)
        return
    require(r[0] == "ok", "%s: %s", case["outs"], r)
    rows = lens.pop() if lens else 1
    m = r[1]
    require(m.shape == (rows, len(req)), "shape %s, expected %s", m.shape, (rows, len(req)))
    if case["way"] != "materialize":
        for j, n in enumerate(req):
            want = exp[n] if n in vec else [case["outs"][n]["base"]] * rows
            got = [m[i, j] for i in range(rows)]
            require([float(x) for x in got] == [float(x) for x in want], "column %s = %s, expected %s", n, got, want)
    else:
        cols = sorted([float(m[i, j]) for i in range(rows)] for j in range(len(req)))
        want = sorted([float(x) for x in (exp[n] if n in vec else [case["outs"][n]["base"]] * rows)] for n in req)
        require(cols == want, "columns %s, expected %s", cols, want)
    ctx.nontrivial(len(req) > 1)


# ---------------------------------------------------------------- polars, pyarrow
@st.composite
def polars_(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "ab", "x1"]), min_size=1, max_size=4, unique=True))
    n0 = draw(st.integers(1, 4))
    outs = {}
    for n in names:
        outs[n] = {"k": draw(st.sampled_from(["series", "series", "series", "scalar", "frame", "lazy"] if len(names) == 1 else ["series", "series", "series", "scalar"])), "n": n0 if draw(st.integers(0, 4)) else draw(st.integers(2, 4)), "base": draw(st.integers(0, 9)), "named": draw(st.sampled_from(["", "zz", "a"]))}
    return {"outs": outs, "req": draw(st.permutations(names)), "way": draw(st.sampled_from(WAYS[:-1])), "rb": draw(st.sampled_from(["eager", "eager", "lazy", "arrow"]))}


def check_polars(case, ctx):
    from hamilton.plugins import h_polars, h_polars_lazyframe, h_pyarrow
    outs, exp = {}, {}
    for n, o in case["outs"].items():
        v = [o["base"] + i for i in range(o["n"])]
        exp[n] = v
        outs[n] = {"series": lambda: pl.Series(o["named"], v), "scalar": lambda: o["base"], "frame": lambda: pl.DataFrame({"p": v, "q": v}), "lazy": lambda: pl.LazyFrame({"p": v, "q": v})}[o["k"]]()
    req = list(case["req"])
    rb = {"eager": h_polars.PolarsDataFrameResult, "lazy": h_polars_lazyframe.PolarsLazyFrameResult, "arrow": h_pyarrow.PyarrowTableResult}[case["rb"]]()
    r = attempt(lambda: assemble(case["way"], rb, outs, req))
    kinds = {n: case["outs"][n]["k"] for n in req}
    if case["rb"] == "arrow":
        if len(req) > 1:
            require(r[0] == "err", "pyarrow builder accepted %d outputs: %s", len(req), r)
        elif kinds[req[0]] == "frame":
            require(r[0] == "ok" and r[1].to_pydict() == {"p": exp[req[0]], "q": exp[req[0]]}, "%s", r)
        return
    vec = [n for n in req if kinds[n] == "series"]
    lens = {len(exp[n]) for n in vec}
    if case["rb"] == "lazy" and r[0] == "ok":
        require(isinstance(r[1], pl.LazyFrame), "got %s", type(r[1]))
        r = attempt(lambda: r[1].collect())
    if len(req) == 1 and kinds[req[0]] in ("frame", "lazy"):
        if case["rb"] == "eager" or kinds[req[0]] == "lazy":
            require(r[0] == "ok" and r[1].to_dict(as_series=False) == {"p": exp[req[0]], "q": exp[req[0]]}, "%s", r)
        return
    if len(req) == 1 and kinds[req[0]] == "scalar" and case["rb"] == "lazy":
        return
    if len(lens) > 1:
        require(r[0] == "err", "series of lengths %s were combined into %s", lens, r)
        ctx.note("refused")
        return
    require(r[0] == "ok", "%s: %s", case["outs"], r)
    rows = lens.pop() if lens else 1
    want = {n: (exp[n] if kinds[n] == "series" else [case["outs"][n]["base"]] * rows) for n in req}
    got = r[1].to_dict(as_series=False)
    require(got == want and (case["way"] == "materialize" or list(got) == req), "got %s, expected %s", got, want)
    ctx.nontrivial(len(req) > 1)


PARTS = [Part("exact", exact_, check_exact, 500, 6000, "more than one distinct output requested", shards=4, tshards=8, setup=setup, timeout=60),
         Part("pandas", pandas_, check_pandas, 2000, 40000, "more than one column, or a combination that must be refused", shards=8, tshards=8, setup=setup, timeout=60),
         Part("numpy", numpy_, check_numpy, 500, 8000, "more than one column, or a combination that must be refused", shards=4, tshards=8, setup=setup, timeout=60),
         Part("polars", polars_, check_polars, 400, 6000, "more than one column", shards=4, tshards=8, setup=setup, timeout=60)]
