"""C26: data quality checks gate exactly the bad outputs."""
import asyncio, datetime as dt, logging, math, warnings
from hypothesis import strategies as st
import numpy as np
import pandas as pd
from hamilton import async_driver, base, driver, registry
from hamilton.data_quality import base as dq, default_validators as dv
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.drv import configure_task

logging.getLogger("hamilton").setLevel(logging.CRITICAL + 1)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated values, check arguments, importances, targets and decorator stacks; each verdict against an independent predicate, each run against a pass-through/abort model"

LOG = []


class _H(logging.Handler):
    def emit(self, record):
        LOG.append((record.levelno, record.getMessage()))


def setup():
    registry.load_extension("pandas")
    registry.load_extension("pydantic")
    lg = logging.getLogger("hamilton.data_quality.base")
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    lg.handlers[:] = [_H()]


# ---------------------------------------------------------------- values, check arguments and independent predicates
EPOCH = dt.datetime(2020, 1, 1)
small = st.integers(-4, 6)
flt = st.one_of(st.integers(-8, 12).map(lambda k: k / 2), st.sampled_from([float("nan"), float("inf"), float("-inf"), -0.0, 1e-9, 0.1, 0.3]))
words = st.text("ab c", max_size=4)
DT = {"int": int, "float": float, "str": str, "bool": bool, "object": object, "np.int64": np.int64, "np.int32": np.int32, "np.float64": np.float64, "np.float32": np.float32,
      "np.number": np.number, "np.integer": np.integer, "np.floating": np.floating, "np.object_": np.object_, "np.datetime64": np.datetime64, "np.bool_": np.bool_, "np.generic": np.generic, "np.str_": np.str_}
PYT = {"int": int, "float": float, "str": str, "bool": bool, "object": object}
NPMAP = {int: np.int64, float: np.float64, str: np.str_, bool: np.bool_, object: np.object_}
SER = {"int64": small, "int32": small, "float64": flt, "float32": st.one_of(st.integers(-8, 12).map(lambda k: k / 2), st.just(float("nan"))), "object": st.one_of(words, st.none()),
       "bool": st.booleans(), "datetime64[ns]": st.one_of(st.integers(0, 9), st.none()), "category": words, "Int64": st.one_of(small, st.none()), "string": st.one_of(words, st.none())}
SCALAR_OF = {"int64": np.int64, "int32": np.int32, "float64": np.float64, "float32": np.float32, "object": np.object_, "bool": np.bool_, "datetime64[ns]": np.datetime64, "category": np.object_, "Int64": np.int64, "string": np.str_}


def is_na(e):
    return e is None or (isinstance(e, float) and math.isnan(e))


def realize(v):
    if v[0] != "series":
        return v[1]
    _, d, xs, ix = v
    if d == "datetime64[ns]":
        xs = [pd.NaT if x is None else EPOCH + dt.timedelta(days=x) for x in xs]
    index = {0: None, 1: list(range(len(xs)))[::-1], 2: [0] * len(xs), 3: ["i%d" % i for i in range(len(xs))]}[ix]
    return pd.Series(xs, dtype=d, index=index, name="nm")


def elems(v):
    return [None if x is None else EPOCH + dt.timedelta(days=x) for x in v[2]] if v[1] == "datetime64[ns]" else list(v[2])


def realize_arg(kind, arg, dtype):
    if kind == "data_type":
        return DT[arg]
    if dtype == "datetime64[ns]" and kind in ("range", "values_in"):
        return type(arg)(EPOCH + dt.timedelta(days=x) for x in arg)
    return arg


def verdict(kind, arg, v):
    """The declared predicate, on plain Python values; None = too close to call."""
    ser = v[0] == "series"
    x = v[1]
    if kind == "allow_none":
        return arg or (ser or x is not None)
    if kind == "range":
        lo, hi = realize_arg(kind, arg, v[1] if ser else None)
        ok = lambda e: not is_na(e) and lo <= e <= hi
        return all(ok(e) for e in elems(v)) if ser else ok(x)
    if kind == "values_in":
        vals = list(realize_arg(kind, arg, v[1] if ser else None))
        return all(is_na(e) or any(e == a for a in vals) for e in elems(v)) if ser else any(x == a for a in vals)
    if kind == "data_type":
        t = DT[arg]
        return issubclass(SCALAR_OF[v[1]], NPMAP.get(t, t)) if ser else isinstance(x, t)
    if kind in ("max_fraction_nans", "allow_nans"):
        n = len(v[2])
        return (sum(map(is_na, v[2])) / n if n else 0) <= (arg if kind == "max_fraction_nans" else 0)
    if kind in ("mean_in_range", "max_standard_dev"):
        xs = [float(e) for e in v[2] if not is_na(e)]
        fin = all(map(math.isfinite, xs))
        if kind == "mean_in_range":
            if not xs:
                return False
            if not fin:
                m = sum(xs)
            else:
                m = math.fsum(xs) / len(xs)
            lo, hi = arg
            if math.isfinite(m) and min(abs(m - lo), abs(m - hi)) < 1e-5 * (1 + abs(m)) and not (m in (lo, hi) and len(xs) == 1):
                return None
            return lo <= m <= hi
        if len(xs) < 2 or not fin:
            return False
        m = math.fsum(xs) / len(xs)
        s = math.sqrt(math.fsum((e - m) ** 2 for e in xs) / (len(xs) - 1))
        if abs(s - arg) < 1e-5 * (1 + s) and s != 0:
            return None
        return s <= arg if s else (0 <= arg)
    if kind == "contains":
        return all(c in x for c in ([arg] if isinstance(arg, str) else arg))
    if kind == "does_not_contain":
        return not any(c in x for c in ([arg] if isinstance(arg, str) else arg))
    raise ValueError(kind)


def rng(el):
    return st.tuples(el, el)


frac = st.one_of(st.sampled_from([0, 0.0, 1, 1.0, 0.5, 0.25, 0.2, 0.3, 1 / 3, 0.6, 2 / 3]), st.floats(0, 1))
strs = st.one_of(st.sampled_from(["a", "", "b", " ", "ab"]), st.lists(st.sampled_from(["a", "", "b", "ab", "c "]), max_size=3))


def arg_for(kind, typ, d=None):
    el = {"int": small, "float": st.integers(-8, 12).map(lambda k: k / 2), "bool": st.booleans(), "str": words}.get(typ)
    if typ == "series":
        el = {"object": words, "category": words, "string": words, "bool": st.booleans(), "datetime64[ns]": st.integers(0, 9)}.get(d, st.integers(-8, 12).map(lambda k: k / 2))
    if kind == "range":
        return rng(el)
    if kind == "values_in":
        mix = el if typ == "series" and d in ("datetime64[ns]",) else st.one_of(el, el, el, words, small)
        if typ == "series" and d in ("category", "string", "bool", "Int64"):
            mix = el
        return st.lists(mix, max_size=5)
    if kind == "data_type":
        return st.sampled_from(sorted(DT if typ == "series" else PYT))
    if kind == "max_fraction_nans":
        return frac
    if kind == "allow_nans":
        return st.just(False)
    if kind == "allow_none":
        return st.booleans()
    if kind == "mean_in_range":
        return rng(st.one_of(small, st.floats(-4, 6), st.sampled_from([float("inf"), float("-inf")])))
    if kind == "max_standard_dev":
        return st.one_of(st.integers(0, 6), st.floats(0, 6))
    return strs


KINDS = {"int": ["range", "values_in", "data_type", "allow_none"], "float": ["range", "values_in", "data_type", "allow_none"], "bool": ["range", "values_in", "data_type", "allow_none"],
         "str": ["values_in", "data_type", "allow_none", "contains", "does_not_contain"]}


def kinds_of(typ, d):
    if typ != "series":
        return KINDS[typ]
    k = ["data_type", "max_fraction_nans", "allow_nans", "allow_none", "values_in"]
    if d in ("int64", "int32", "float64", "float32"):
        k += ["mean_in_range", "max_standard_dev", "range", "range"]
    if d == "datetime64[ns]":
        k += ["range"]
    return k


def value_of(draw, typ, d):
    if typ == "series":
        n = draw(st.sampled_from([0, 1, 2, 3, 3, 4, 5, 10]))
        return ("series", d, [draw(SER[d]) for _ in range(n)], draw(st.integers(0, 3)))
    if typ == "int":
        return ("int", draw(st.one_of(small, st.booleans())))
    if typ == "float":
        return ("float", draw(st.one_of(flt, small)))
    if typ == "bool":
        return ("bool", draw(st.booleans()))
    return ("str", draw(words))


@st.composite
def checked(draw, types=("int", "float", "str", "bool", "series", "series", "series"), max_checks=3):
    """One node's type, its value and its checks."""
    typ = draw(st.sampled_from(types))
    d = draw(st.sampled_from(sorted(SER))) if typ == "series" else None
    ks = draw(st.lists(st.sampled_from(kinds_of(typ, d)), min_size=1, max_size=max_checks, unique=True))
    checks = [(k, draw(arg_for(k, typ, d)), draw(st.sampled_from(["warn", "fail"]))) for k in ks]
    v = value_of(draw, typ, d)
    if ks == ["allow_none"] and draw(st.booleans()):
        v = (typ if typ != "series" else "int", None)
    return {"typ": typ, "d": d, "checks": checks, "v": v}


TYPES = {"int": int, "float": float, "str": str, "bool": bool, "series": pd.Series}
TNAME = {"int": "int", "float": "float", "str": "str", "bool": "bool", "series": "pd.Series"}


def verdicts_of(c):
    return [verdict(k, a, c["v"]) for k, a, _ in c["checks"]]


# ---------------------------------------------------------------- verdicts and gating on one node
HOLD = {}
RAN = []
WAYS = ["builder", "builder", "task:nodes", "task:asone", "async", "legacy"]


def run(way, mods, request, inputs=None, overrides=None, config=None):
    if way == "async":
        async def go():
            return await async_driver.AsyncDriver(config or {}, *mods, result_builder=base.DictResult()).execute(request, inputs=inputs or {}, overrides=overrides or {})
        loop = asyncio.new_event_loop()
        try:
            return loop.run_until_complete(go())
        finally:
            loop.close()
    if way == "legacy":
        return driver.Driver(config or {}, *mods, adapter=base.SimplePythonGraphAdapter(base.DictResult())).execute(request, inputs=inputs or {}, overrides=overrides or {})
    b = driver.Builder().with_modules(*mods).with_config(config or {})
    if way.startswith("task"):
        b = configure_task(b.enable_dynamic_execution(allow_experimental_mode=True), way)
    return b.build().execute(request, inputs=inputs or {}, overrides=overrides or {})


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("err", e)


HEAD = "import pandas as pd\nfrom typing import *\nfrom hamilton.function_modifiers import *\nimport checks.C26 as _C\n"


def is_dq_error(e):
    while e is not None:
        if isinstance(e, dq.DataValidationError):
            return True
        e = e.__cause__
    return False


@st.composite
def single(draw):
    c = draw(checked())
    c["way"] = draw(st.sampled_from(WAYS))
    c["imp"] = draw(st.sampled_from(["warn", "fail", "fail"]))
    c["custom"] = draw(st.booleans())
    c["override"] = draw(st.sampled_from([None, None, None, None, "raw", "final"]))
    c["async_fn"] = draw(st.booleans())
    return c


def deco_expr(i):
    return "@_C.HOLD['deco%d']" % i


def make_deco(c, target=None):
    from hamilton.function_modifiers import check_output, check_output_custom
    if c.get("custom"):
        out = []
        for k, a, imp in c["checks"]:
            out += dv.resolve_default_validators(TYPES[c["typ"]], importance=imp, **{k: realize_arg(k, a, c["d"])})
        return check_output_custom(*out, **({"target_": target} if target is not None else {}))
    return check_output(importance=c["imp"], **{k: realize_arg(k, a, c["d"]) for k, a, _ in c["checks"]}, **({"target_": target} if target is not None else {}))


def imps(c):
    return [imp if c.get("custom") else c["imp"] for _, _, imp in c["checks"]]


def check_single(case, ctx):
    vs = verdicts_of(case)
    if None in vs:
        ctx.note("too_close")
        return
    HOLD.clear()
    HOLD["deco0"], HOLD["v"] = make_deco(case), realize(case["v"])
    a = "async " if case["async_fn"] and case["way"] == "async" else ""
    src = "%s\n%sdef x() -> %s:\n    _C.RAN.append('x')\n    return _C.HOLD['v']\n\ndef down(x: %s) -> Any:\n    _C.RAN.append('down')\n    return x\n" % (
        deco_expr(0), a, TNAME[case["typ"]], TNAME[case["typ"]])
    mod = dags.make_module(src, header=HEAD)
    orig = realize(case["v"])
    names = ["x_" + k + "_validator" for k, _, _ in case["checks"]]
    try:
        del RAN[:], LOG[:]
        got = attempt(lambda: run(case["way"], [mod], names))
        require(got[0] == "ok", "running the checks alone failed: %r for %r", got[1], case)
        for (k, a_, _), n, exp in zip(case["checks"], names, vs):
            res = got[1][n]
            require(bool(res.passes) == exp, "check %s=%r says passes=%r for the value %r; its predicate is %r", k, a_, res.passes, case["v"], exp)
        bad = [(k, i) for (k, _, _), i, ok in zip(case["checks"], imps(case), vs) if not ok]
        fails = any(i == "fail" for _, i in bad)
        del RAN[:], LOG[:]
        ov = {} if case["override"] is None else {"x_raw" if case["override"] == "raw" else "x": HOLD["v"]}
        got = attempt(lambda: run(case["way"], [mod], ["down", "x"], overrides=ov))
        if case["override"] == "final":
            require(got[0] == "ok" and got[1]["x"] is HOLD["v"] and RAN == ["down"], "overriding the checked node: %r, ran %r", got, RAN)
            return
        if fails:
            require(got[0] == "err" and is_dq_error(got[1]), "failing checks %r of importance fail did not fail the run: %r (value %r)", bad, got, case["v"])
            require("down" not in RAN, "a function downstream of a failed check ran: %r, case %r", RAN, case)
            for k, i in bad:
                if i == "fail":
                    require(k in str(got[1]), "the error does not mention the failing check %r: %s", k, got[1])
        else:
            require(got[0] == "ok", "no failing check of importance fail, but the run failed: %r (case %r)", got[1], case)
            require(got[1]["x"] is HOLD["v"] and got[1]["down"] is HOLD["v"], "the value was not passed through: %r for %r", got[1], case)
            warned = [m for lv, m in LOG if lv == logging.WARNING]
            require(len(warned) == len(bad), "%d warnings logged for %d failing checks of importance warn: %r", len(warned), len(bad), warned)
        same = HOLD["v"].equals(orig) and HOLD["v"].dtype == orig.dtype and list(HOLD["v"].index) == list(orig.index) if isinstance(orig, pd.Series) else True
        require(same, "checking modified the value: %r, was %r", HOLD["v"], orig)
        require(RAN.count("x") == (0 if case["override"] == "raw" else 1), "x ran %d times", RAN.count("x"))
        ctx.note("failed" if fails else "warned" if bad else "passed")
        if len(case["checks"]) > 1 or bad:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- several checked nodes in a dataflow, with other decorators and targets
@st.composite
def graph(draw):
    n = draw(st.integers(1, 3))
    fns = []
    for i in range(n):
        kind = draw(st.sampled_from(["plain", "plain", "fields", "param", "pipe", "config", "cond", "subdag", "tagged", "loader"]))
        c = draw(checked(types=("int", "float", "str", "series")))
        c["custom"] = draw(st.booleans())
        c["imp"] = draw(st.sampled_from(["warn", "fail", "fail"]))
        c["kind"] = kind
        if c["custom"] and draw(st.integers(0, 2)) == 0:
            c["twice"] = [(k, draw(arg_for(k, c["typ"], c["d"])), draw(st.sampled_from(["warn", "fail"]))) for k, _, _ in c["checks"][:1]]
            c["checks"] = c["checks"] + c.pop("twice")
        nv = 2 if kind in ("fields", "param") else 1
        c["vals"] = [c["v"]] + [value_of(draw, c["typ"], c["d"]) for _ in range(nv - 1)]
        c["target"] = draw(st.sampled_from(["none", "none", "one", "list", "all"] if kind in ("fields", "param") else ["none", "none", "own"]))
        if c["v"][-1] is None and c["v"][0] != "series":
            c["kind"], c["target"], c["vals"] = "plain", "none", [c["v"]]
        fns.append(c)
    deps = [[j for j in range(i) if draw(st.booleans())] for i in range(n)]
    return {"fns": fns, "deps": deps, "way": draw(st.sampled_from(WAYS)), "mode": draw(st.sampled_from([1, 2])), "req": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True)),
            "sub": draw(st.booleans())}


def outputs_of(i, c):
    """the names of the value nodes of function i, in order of c['vals']"""
    if c["kind"] == "fields":
        return ["f%d_%d" % (i, j) for j in range(len(c["vals"]))]
    if c["kind"] == "param":
        return ["p%d_%d" % (i, j) for j in range(len(c["vals"]))]
    if c["kind"] == "subdag":
        return ["s%d.g%d" % (i, i)]
    return ["g%d" % i]


def checked_names(i, c):
    o = outputs_of(i, c)
    if c["kind"] in ("fields", "param"):
        return {"none": o, "one": o[:1], "list": o[1:], "all": o}[c["target"]]
    return o


def target_of(i, c):
    o = outputs_of(i, c)
    if c["target"] == "none":
        return None
    if c["target"] == "own":
        return o[0].split(".")[-1]
    if c["target"] == "one":
        return o[0]
    if c["target"] == "list":
        return o[1:]
    return o if c["kind"] == "fields" else ...


def source(case):
    src, inner = [], []
    for i, c in enumerate(case["fns"]):
        t = TNAME[c["typ"]]
        params = ", ".join("d_%s: Any" % j for j in case["deps"][i])
        d = deco_expr(i)
        body = "    _C.RAN.append('fn%d')\n    return %s\n"
        val = lambda j: "_C.HOLD['v%d_%d']" % (i, j)
        k = c["kind"]
        if k == "plain":
            src.append("%s\ndef g%d(%s) -> %s:\n%s" % (d, i, params, t, body % (i, val(0))))
        elif k == "tagged":
            src.append("@tag(a='b')\n%s\n@tag(c='d')\ndef g%d(%s) -> %s:\n%s" % (d, i, params, t, body % (i, val(0))))
        elif k == "fields":
            src.append("%s\n@extract_fields({%s})\ndef src%d(%s) -> dict:\n%s" % (
                d, ", ".join("'f%d_%d': %s" % (i, j, t) for j in range(len(c["vals"]))), i, params, body % (i, "{%s}" % ", ".join("'f%d_%d': %s" % (i, j, val(j)) for j in range(len(c["vals"]))))))
        elif k == "param":
            src.append("%s\n@parameterize(%s)\ndef src%d(which: int%s) -> %s:\n    _C.RAN.append('fn%d')\n    return _C.HOLD['v%d_%%d' %% which]\n" % (
                d, ", ".join("p%d_%d={'which': value(%d)}" % (i, j, j) for j in range(len(c["vals"]))), i, ", " + params if params else "", t, i, i))
        elif k == "pipe":
            src.append("def _st%d(v: Any) -> %s:\n    return v\n\n%s\n@pipe_output(step(_st%d))\ndef g%d(%s) -> %s:\n%s" % (i, t, d, i, i, params, t, body % (i, val(0))))
        elif k == "config":
            src.append("%s\n@config.when(mode=1)\ndef g%d__one(%s) -> %s:\n%s\n@config.when_not(mode=1)\n%s\ndef g%d__two(%s) -> %s:\n%s" % (
                d, i, params, t, body % (i, val(0)), d, i, params, t, body % (i, val(0))))
        elif k == "cond":  # the check is only part of the dataflow in mode 1
            src.append("@config.when(mode=1)\n%s\ndef g%d__one(%s) -> %s:\n%s\n@config.when_not(mode=1)\ndef g%d__two(%s) -> %s:\n%s" % (
                d, i, params, t, body % (i, val(0)), i, params, t, body % (i, val(0))))
        elif k == "loader":
            src.append("%s\n@inject(extra=value(1))\ndef g%d(extra: int%s) -> %s:\n%s" % (d, i, ", " + params if params else "", t, body % (i, val(0))))
        elif k == "subdag":
            inner.append("%s\ndef g%d(%s) -> %s:\n%s" % (d, i, params, t, body % (i, val(0))))
        # a consumer of all the function's outputs; later functions depend on it
        outs = outputs_of(i, c)
        if k == "subdag":
            pj = case["deps"][i]
            src.append("@subdag(_INNER, inputs={%s}, config={})\ndef s%d(g%d: %s) -> Any:\n    return g%d\n" % (", ".join("'d_%d': source('d_%d')" % (j, j) for j in pj), i, i, t, i))
            src.append("def d_%d(s%d: Any) -> Any:\n    _C.RAN.append('d%d')\n    return [s%d]\n" % (i, i, i, i))
        else:
            src.append("def d_%d(%s) -> Any:\n    _C.RAN.append('d%d')\n    return [%s]\n" % (i, ", ".join("%s: %s" % (o, t) for o in outs), i, ", ".join(outs)))
    return src, inner


def check_graph(case, ctx):
    HOLD.clear()
    fails, bad, n_checked = {}, 0, 0
    for i, c in enumerate(case["fns"]):
        HOLD["deco%d" % i] = make_deco(c, target_of(i, c))
        for j, v in enumerate(c["vals"]):
            HOLD["v%d_%d" % (i, j)] = realize(v)
        fails[i], ws = [], 0
        if c["kind"] == "cond" and case["mode"] != 1:
            continue
        for o in checked_names(i, c):
            v = c["vals"][outputs_of(i, c).index(o)]
            for (k, a, _), imp in zip(c["checks"], imps(c)):
                r = verdict(k, a, v)
                n_checked += 1
                if r is None:
                    ctx.note("too_close")
                    return
                if not r:
                    if imp == "fail":
                        fails[i].append((o, k))
                    else:
                        ws += 1
        bad += ws
    src, inner = source(case)
    mods = []
    imod = None
    if inner:
        imod = dags.make_module("\n".join(inner), header=HEAD)
        mods.append(imod)
    main = dags.make_module("\n".join(src), header=HEAD + ("import %s as _INNER\n" % imod.__name__ if imod else ""))
    mods.append(main)
    need = set()

    def up(i):
        if i not in need:
            need.add(i)
            for j in case["deps"][i]:
                up(j)
    for i in case["req"]:
        up(i)
    tainted = set()  # functions whose d_i cannot run
    for i in range(len(case["fns"])):
        if fails[i] or any(j in tainted for j in case["deps"][i]):
            tainted.add(i)
    try:
        del RAN[:], LOG[:]
        got = attempt(lambda: run(case["way"], [main], ["d_%d" % i for i in case["req"]], config={"mode": case["mode"]}))
        exp_fail = [f for i in sorted(need) for f in fails[i]]
        if exp_fail:
            require(got[0] == "err" and is_dq_error(got[1]), "failing checks %r did not fail the run: %r\n%s", exp_fail, got, "\n".join(inner + src))
            for i in range(len(case["fns"])):
                if i in tainted:
                    require("d%d" % i not in RAN, "d_%d ran although a check upstream failed: ran %r\n%s", i, RAN, "\n".join(inner + src))
                if any(j in tainted for j in case["deps"][i]):
                    require("fn%d" % i not in RAN, "fn%d ran although a check upstream failed: ran %r", i, RAN)
        else:
            require(got[0] == "ok", "no failing check, but the run failed: %r\n%s", got[1], "\n".join(inner + src))
            for i in case["req"]:
                want = [HOLD["v%d_%d" % (i, j)] for j in range(len(case["fns"][i]["vals"]))]
                have = got[1]["d_%d" % i]
                require(len(have) == len(want) and all(a is b for a, b in zip(have, want)), "values not passed through: %r, expected %r\n%s", have, want, "\n".join(src))
            exp_warn = 0
            for i in need:
                c = case["fns"][i]
                if c["kind"] == "cond" and case["mode"] != 1:
                    continue
                for o in checked_names(i, c):
                    v = c["vals"][outputs_of(i, c).index(o)]
                    exp_warn += sum(1 for (k, a, _), imp in zip(c["checks"], imps(c)) if imp == "warn" and not verdict(k, a, v))
            warned = [m for lv, m in LOG if lv == logging.WARNING]
            require(len(warned) == exp_warn, "%d warnings for %d failing checks of importance warn: %r\n%s", len(warned), exp_warn, warned, "\n".join(inner + src))
        require(all(x == "d" or RAN.count(x) <= 2 for x in RAN), "functions ran more than once: %r", RAN)
        ctx.note("failed" if exp_fail else "ok")
        if n_checked > 1 and (exp_fail or bad):
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(mods)


# ---------------------------------------------------------------- schema checks (pandera, pydantic) decide and never alter
@st.composite
def schema_(draw):
    lib = draw(st.sampled_from(["pandera_df", "pandera_df", "pandera_series", "pydantic", "h_pandera", "h_pydantic"]))
    if lib in ("pandera_df", "h_pandera"):
        cols = draw(st.lists(st.sampled_from("abc"), min_size=1, max_size=3, unique=True))
        n = draw(st.integers(1, 4))
        frame = {c: (draw(st.sampled_from(["int", "float", "str"])), None) for c in cols}
        frame = {c: [draw({"int": small, "float": st.integers(-4, 6).map(float), "str": st.integers(0, 9).map(str)}[t]) for _ in range(n)] for c, (t, _) in frame.items()}
        sch = {c: (draw(st.sampled_from(["int", "float", "str", None])), draw(st.one_of(st.none(), st.tuples(st.integers(-4, 3), st.integers(4, 6)))), draw(st.booleans()))
               for c in draw(st.lists(st.sampled_from("abcd"), min_size=1, max_size=3, unique=True))}
        return {"lib": lib, "frame": frame, "sch": sch, "strict": draw(st.sampled_from([False, True, "filter"])), "coerce": draw(st.booleans()), "imp": draw(st.sampled_from(["warn", "fail"]))}
    if lib == "pandera_series":
        t = draw(st.sampled_from(["int", "float", "str"]))
        xs = draw(st.lists({"int": small, "float": st.integers(-4, 6).map(float), "str": st.integers(0, 9).map(str)}[t], min_size=1, max_size=4))
        return {"lib": lib, "xs": xs, "t": draw(st.sampled_from(["int", "float", "str"])), "coerce": draw(st.booleans()), "rng": draw(st.one_of(st.none(), st.tuples(st.integers(-4, 3), st.integers(4, 6)))),
                "imp": draw(st.sampled_from(["warn", "fail"]))}
    fields = {f: draw(st.sampled_from(["int", "str", "float"])) for f in draw(st.lists(st.sampled_from("abc"), min_size=1, max_size=3, unique=True))}
    obj = {f: draw(st.one_of(small, words, st.just(1.5))) for f in draw(st.lists(st.sampled_from("abcd"), max_size=4, unique=True))}
    return {"lib": lib, "fields": fields, "obj": obj, "imp": draw(st.sampled_from(["warn", "fail"]))}


def pyt(x):
    return "int" if isinstance(x, int) else "float" if isinstance(x, float) else "str"


def coercible(x, t):
    if t == "str":
        return str(x)
    return {"int": int, "float": float}[t](x)


def col_ok(xs, t, rng_, coerce):
    """Whether a homogeneous column satisfies dtype t (after coercion if asked) and the inclusive range."""
    if not xs:
        return True
    if t is not None and coerce:
        xs = [coercible(x, t) for x in xs]
    elif t is not None and pyt(xs[0]) != t:
        return False if rng_ is None or pyt(xs[0]) != "str" else False
    if rng_ is not None:
        if pyt(xs[0]) == "str":
            return None  # comparing strings with numbers: pandera's business
        return all(rng_[0] <= x <= rng_[1] for x in xs)
    return True


def check_schema(case, ctx):
    import pandera as pa
    import pydantic
    from hamilton.function_modifiers import check_output
    from hamilton.plugins import h_pandera, h_pydantic
    NT = {"int": int, "float": float, "str": str, None: None}
    lib = case["lib"]
    if lib in ("pandera_df", "h_pandera"):
        value = pd.DataFrame(case["frame"])
        keep = value.copy(deep=True)
        ok = True
        for c, (t, r, req) in case["sch"].items():
            if c not in case["frame"]:
                ok = ok and not req
                continue
            o = col_ok(case["frame"][c], t, r, case["coerce"])
            if o is None:
                ctx.note("unspecified")
                return
            ok = ok and o
        if case["strict"] is True and set(case["frame"]) - set(case["sch"]):
            ok = False
        schema = pa.DataFrameSchema({c: pa.Column(NT[t], checks=[pa.Check.in_range(*r)] if r else None, required=req, coerce=case["coerce"]) for c, (t, r, req) in case["sch"].items()}, strict=case["strict"])
        if any(r and r[0] > r[1] for _, r, _ in case["sch"].values()):
            return
    elif lib == "pandera_series":
        if case["rng"] and case["rng"][0] > case["rng"][1]:
            return
        value = pd.Series(case["xs"])
        keep = value.copy(deep=True)
        ok = col_ok(case["xs"], case["t"], case["rng"], case["coerce"])
        if ok is None:
            return
        schema = pa.SeriesSchema(NT[case["t"]], checks=[pa.Check.in_range(*case["rng"])] if case["rng"] else None, coerce=case["coerce"])
    else:
        value = dict(case["obj"])
        keep = dict(value)
        ok = all(f in value and (pyt(value[f]) == t or (t == "float" and pyt(value[f]) == "int")) for f, t in case["fields"].items())
        model = pydantic.create_model("M", **{f: (NT[t], ...) for f, t in case["fields"].items()})
    HOLD.clear()
    HOLD["v"] = value
    if lib == "pandera_df":
        HOLD["deco0"], t = check_output(schema=schema, importance=case["imp"]), "pd.DataFrame"
    elif lib == "pandera_series":
        HOLD["deco0"], t = check_output(schema=schema, importance=case["imp"]), "pd.Series"
    elif lib == "pydantic":
        HOLD["deco0"], t = check_output(model=model, importance=case["imp"]), "dict"
    elif lib == "h_pydantic":
        HOLD["deco0"], HOLD["T"], t = h_pydantic.check_output(importance=case["imp"]), model, "_C.HOLD['T']"
    else:
        ns = {"__annotations__": {}}
        for c, (ty, r, req) in case["sch"].items():
            at = NT[ty] if ty else object
            if ty is None:
                return
            ns["__annotations__"][c] = pa.typing.Series[at] if req else __import__("typing").Optional[pa.typing.Series[at]]
            ns[c] = pa.Field(coerce=case["coerce"], **({"ge": r[0], "le": r[1]} if r else {}))
        ns["Config"] = type("Config", (), {"strict": case["strict"]})
        S = type("S", (pa.DataFrameModel,), ns)
        HOLD["deco0"], HOLD["T"], t = h_pandera.check_output(importance=case["imp"]), pa.typing.DataFrame[S], "_C.HOLD['T']"
    src = "@_C.HOLD['deco0']\ndef x() -> %s:\n    return _C.HOLD['v']\n\ndef down(x: %s) -> Any:\n    _C.RAN.append('down')\n    return x\n" % (t, t)
    mod = dags.make_module(src, header=HEAD)
    try:
        del RAN[:], LOG[:]
        got = attempt(lambda: run("builder", [mod], ["down"]))
        if ok or case["imp"] == "warn":
            require(got[0] == "ok", "schema satisfied=%r importance=%s, but the run failed: %r (case %r)", ok, case["imp"], got[1], case)
            require(got[1]["down"] is value, "the value was replaced by the check: %r", got[1]["down"])
            require(bool([m for lv, m in LOG if lv == logging.WARNING]) == (not ok), "warned=%r although schema satisfied=%r (case %r)", LOG, ok, case)
        else:
            require(got[0] == "err" and is_dq_error(got[1]) and not RAN, "schema not satisfied, but: %r, ran %r (case %r)", got, RAN, case)
        same = value.equals(keep) and (isinstance(value, pd.Series) or (list(value.columns) == list(keep.columns) and list(value.dtypes) == list(keep.dtypes))) if isinstance(keep, (pd.DataFrame, pd.Series)) else value == keep
        require(same, "the schema check altered the node's value (importance %s):\n%r\nwas\n%r (case %r)", case["imp"], value, keep, case)
        ctx.note(lib)
        ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- a check that cannot apply is refused, not dropped
@st.composite
def refuse_(draw):
    typ = draw(st.sampled_from(["int", "float", "str", "bool", "series", "dict", "list"]))
    allk = ["range", "values_in", "data_type", "allow_none", "contains", "does_not_contain", "max_fraction_nans", "allow_nans", "mean_in_range", "max_standard_dev", "nonsense"]
    return {"typ": typ, "kinds": draw(st.lists(st.sampled_from(allk), min_size=1, max_size=2, unique=True)), "imp": draw(st.sampled_from(["warn", "fail", "fail", "error", "FAIL"])), "stack": draw(st.integers(0, 5)) == 0}


SUP = {t: set(k) for t, k in KINDS.items()}
SUP["series"] = {"range", "values_in", "data_type", "allow_none", "max_fraction_nans", "allow_nans", "mean_in_range", "max_standard_dev"}
SUP["dict"] = SUP["list"] = {"allow_none"}
DEF = {"range": (-100, 100), "values_in": [1, "a", 1.0, True], "data_type": object, "allow_none": False, "contains": "", "does_not_contain": "zz", "max_fraction_nans": 1, "allow_nans": False, "mean_in_range": (-100, 100),
       "max_standard_dev": 1000, "nonsense": 1}


def check_refuse(case, ctx):
    from hamilton.function_modifiers import check_output
    HOLD.clear()
    HOLD["deco0"] = check_output(importance=case["imp"], **{k: np.number if k == "data_type" and case["typ"] == "series" else DEF[k] for k in case["kinds"]})
    HOLD["deco1"] = check_output(importance="fail", allow_none=False)
    HOLD["v"] = {"int": 1, "float": 1.0, "str": "a", "bool": True, "series": pd.Series([1.0, 1.0]), "dict": {}, "list": []}[case["typ"]]
    src = "%s@_C.HOLD['deco0']\ndef x() -> %s:\n    return _C.HOLD['v']\n" % ("@_C.HOLD['deco1']\n" if case["stack"] else "", dict(TNAME, dict="dict", list="list")[case["typ"]])
    mod = dags.make_module(src, header=HEAD)
    try:
        got = attempt(lambda: run("builder", [mod], ["x"]))
        ok = set(case["kinds"]) <= SUP[case["typ"]] and case["imp"] in ("warn", "fail") and not case["stack"]
        if case["stack"]:
            require(got[0] == "err", "stacked checks are documented as unsupported, but one was dropped silently: %r", got)
        else:
            require((got[0] == "ok") == ok, "checks %r (importance %r) on a %s: %r, expected %s", case["kinds"], case["imp"], case["typ"], got, "to work" if ok else "a build error")
        ctx.note("ok" if ok else "refused")
        if not ok:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- long series and tables with few bad rows; many checks on one node
class Flag(dq.DataValidator):
    def __init__(self, nm, ok, importance):
        super().__init__(importance=importance)
        self.nm, self.ok = nm, ok

    def applies_to(self, datatype):
        return True

    def description(self):
        return self.nm

    @classmethod
    def name(cls):
        return "flag"

    def validate(self, data):
        return dq.ValidationResult(passes=self.ok, message="<%s>" % self.nm, diagnostics={})


class Flag2(Flag):
    @classmethod
    def name(cls):
        return "other"


@st.composite
def bulk_(draw):
    what = draw(st.sampled_from(["series", "series", "frame", "many"]))
    imp = draw(st.sampled_from(["warn", "fail", "fail"]))
    if what == "many":
        n = draw(st.sampled_from([1, 3, 8, 12, 20, 30]))
        bad = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["warn", "fail"])), max_size=3))
        return {"what": what, "n": n, "bad": dict(bad), "imps": [draw(st.sampled_from(["warn", "fail"])) for _ in range(n)], "two": [draw(st.booleans()) for _ in range(n)]}
    n = draw(st.sampled_from([11, 19, 20, 50, 101, 128, 300, 1001, 1500]))
    pos = draw(st.lists(st.one_of(st.sampled_from([0, 1, n - 1, n - 2]), st.integers(0, n - 1)), max_size=4, unique=True))
    kind = draw(st.sampled_from(["range", "values_in", "max_fraction_nans", "allow_nans", "mean_in_range", "max_standard_dev"])) if what == "series" else "range"
    return {"what": what, "n": n, "pos": pos, "kind": kind, "imp": imp, "period": draw(st.integers(1, 7)), "bad": draw(st.sampled_from([99.0, -99.0, float("nan")])) if what == "series" else draw(st.sampled_from([99.0, -99.0])),
            "slack": draw(st.sampled_from([-1, 0, 0, 1])), "edge": draw(st.booleans()), "col": draw(st.sampled_from("ab"))}


def check_bulk(case, ctx):
    from hamilton.function_modifiers import check_output, check_output_custom
    HOLD.clear()
    if case["what"] == "many":
        fl = []
        for i in range(case["n"]):
            imp = case["bad"].get(i, case["imps"][i])
            fl.append((Flag2 if case["two"][i] else Flag)("v%dv" % i, i not in case["bad"], imp))
        HOLD["deco0"], value, t = check_output_custom(*fl), object(), "Any"
        bad = ["v%dv" % i for i, imp in case["bad"].items() if imp == "fail"]
        warn = len(case["bad"]) - len(bad)
        ok = not bad
    else:
        n = case["n"]
        hi = case["period"] - 1
        xs = [float(i % case["period"]) for i in range(n)]
        for p in case["pos"]:
            xs[p] = case["bad"]
        v = ("series", "float64", xs, 0)
        k = case["kind"]
        fin = [e for e in xs if not is_na(e)]
        if k == "range":
            arg = (0.0, float(hi) if case["edge"] else hi + 0.5)
        elif k == "values_in":
            arg = [float(i) for i in range(case["period"])]
        elif k == "max_fraction_nans":
            arg = min(1.0, max(0.0, (sum(map(is_na, xs)) + case["slack"]) / n))
        elif k == "allow_nans":
            arg = False
        elif k == "mean_in_range":
            m = math.fsum(fin) / len(fin)
            arg = (m - 1, m + 1 if case["slack"] >= 0 else m - 0.01)
        else:
            m = math.fsum(fin) / len(fin)
            sd = math.sqrt(math.fsum((e - m) ** 2 for e in fin) / (len(fin) - 1))
            arg = sd * (1 + case["slack"] * 1e-4) + (1e-3 if case["slack"] == 0 else 0)
        ok_ = verdict(k, arg, v)
        if ok_ is None:
            ctx.note("too_close")
            return
        if case["what"] == "series":
            HOLD["deco0"], value, t = check_output(importance=case["imp"], **{k: arg}), realize(v), "pd.Series"
        else:
            import pandera as pa
            other = [float(i % case["period"]) for i in range(n)]
            value, t = pd.DataFrame({"a": xs if case["col"] == "a" else other, "b": xs if case["col"] == "b" else other}), "pd.DataFrame"
            HOLD["deco0"] = check_output(importance=case["imp"], schema=pa.DataFrameSchema({c: pa.Column(float, checks=[pa.Check.in_range(*arg)]) for c in "ab"}))
        bad = [] if ok_ or case["imp"] == "warn" else [k if case["what"] == "series" else "schema"]
        warn = 1 if not ok_ and case["imp"] == "warn" else 0
        ok = not bad
    HOLD["v"] = value
    mod = dags.make_module("%s\ndef x() -> %s:\n    return _C.HOLD['v']\n\ndef down(x: %s) -> Any:\n    _C.RAN.append('down')\n    return x\n" % (deco_expr(0), t, t), header=HEAD)
    try:
        del RAN[:], LOG[:]
        got = attempt(lambda: run("builder", [mod], ["down"]))
        if ok:
            require(got[0] == "ok" and got[1]["down"] is value, "no check of importance fail is violated, but: %r (case %r)", got, case)
        else:
            require(got[0] == "err" and is_dq_error(got[1]) and not RAN, "violated checks %r did not fail the run: %r, ran %r (case %r)", bad, got[0], RAN, case)
            for b in bad:
                require(b in str(got[1]), "the error does not mention the violated check %r (case %r)", b, case)
        warned = [m for lv, m in LOG if lv == logging.WARNING]
        require(not ok or len(warned) == warn, "%d warnings for %d violated checks of importance warn (case %r)", len(warned), warn, case)
        ctx.note(case["what"])
        ctx.note("ok" if ok else "failed")
        if bad or warn:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


PARTS = [
    Part("verdict", single, check_single, quick=2400, thorough=60000, rule="several checks, or one that does not pass", setup=setup),
    Part("graph", graph, check_graph, quick=1600, thorough=40000, rule="at least two checks and one that does not pass", setup=setup),
    Part("bulk", bulk_, check_bulk, quick=800, thorough=20000, rule="a check is violated", setup=setup),
    Part("schema", schema_, check_schema, quick=500, thorough=12000, rule="every case", setup=setup),
    Part("refused", refuse_, check_refuse, quick=300, thorough=6000, rule="the combination must be refused", setup=setup),
]
