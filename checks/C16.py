"""C16: graceful error handling isolates exactly the failed branches."""
import logging, warnings
from collections import Counter
from hypothesis import strategies as st
from hamilton.lifecycle import default as ld
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same, node_value, digest
from vlib.drv import make_driver
from vlib.gen import plain_case
from checks.C11 import executor
from checks import C12

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows, failure plans, error classes and sentinels against a reference evaluator"


class E0(Exception):
    pass


class E1(E0):
    pass


class E2(E1, ValueError):
    pass


class Other(Exception):
    pass


class Sent:
    def __repr__(self):
        return "<sentinel>"


class SentSub(str):
    pass


ERR = {"E0": E0, "E1": E1, "E2": E2, "Value": ValueError, "Other": Other, "Exception": Exception}
SENT = {"obj": Sent(), "str": "FAILED", "tuple": ("failed", 1), "nan": float("nan"), "sub": SentSub("x"), "bytes": b"failed", "neg": -987654321, "none": None, "empty": (), "false": False, "zero": 0, "one": 1, "estr": ""}


@st.composite
def case_(draw):
    c = draw(plain_case(allow_overrides=True, dag_kw=dict(max_fns=10, min_fns=2, rets=["int", "str", "list", "dict", "Any", "tuple", "bool", "float"], modes=("normal", "normal", "falsy", "prickly"))))
    k = draw(st.sampled_from(["builder", "builder", "task"]))
    if k == "task":
        k = "task:%s:%s:%s" % (draw(st.sampled_from(["default", "nodes", "asone", "level"])), draw(executor()), draw(executor()))
    c["mode"] = k
    fns = [f["name"] for f in c["dag"]["fns"]]
    c["catch"] = draw(st.sampled_from(["E0", "E1", "Value", "Exception", "E2"]))
    c["sentinel"] = draw(st.sampled_from(sorted(SENT) + ["none"] * 3))
    c["fail"] = {n: draw(st.sampled_from(["E0", "E1", "E2", "E2", "Value", "Other"])) for n in draw(st.lists(st.sampled_from(fns), min_size=1, max_size=3, unique=True))}
    if draw(st.integers(0, 2)) > 0:
        ok = [k for k in ERR if k != "Exception" and issubclass(ERR[k], ERR[c["catch"]])]
        c["fail"] = {n: draw(st.sampled_from(ok)) for n in c["fail"]}
    c["accept"] = draw(st.lists(st.sampled_from(fns), max_size=2, unique=True))
    c["allow"] = draw(st.integers(0, 3)) > 0
    c["cause"] = {n: draw(st.sampled_from(["Value", "Other", "E0"])) for n in c["fail"] if draw(st.integers(0, 2)) == 0}
    c["direct"] = draw(st.integers(0, 3)) == 0
    if draw(st.booleans()):
        c["requests"] = fns[:]
    return c


def reference(case, spec, env, ov, errs, catch, sentinel):
    fm = dags.fn_map(spec)
    memo, calls, NOTHING = {}, Counter(), object()
    fatal = []

    def val(n):
        if n in ov:
            return ov[n]
        if n in memo:
            return memo[n]
        if n not in fm:
            return env.get(n, NOTHING)
        f = fm[n]
        kw, poisoned = {}, False
        for p in f["params"]:
            v = val(p["name"])
            if v is NOTHING:
                if "default" not in p:
                    raise dags.Missing(p["name"])
                v = decode(p["default"])
            elif v is sentinel:
                poisoned = True
            kw[p["name"]] = v
        if poisoned and not (n in case["accept"] and case["allow"]):
            memo[n] = sentinel
        else:
            calls[n] += 1
            if n in errs:
                if not isinstance(errs[n], catch):
                    fatal.append(n)
                memo[n] = sentinel
            else:
                memo[n] = node_value(n, f["ret"], f["mode"], kw)
        return memo[n]
    out = {}
    for r in case["requests"]:
        out[r] = val(r)
        if out[r] is NOTHING:
            raise dags.Missing(r)
    return out, calls, fatal


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec, {n: ["@_accept"] for n in case["accept"]}) if not spec.get("adhoc") or not case["accept"] else None
    if mods is None:
        spec = {**spec, "adhoc": False}
        mods = dags.build_modules(spec, {n: ["@_accept"] for n in case["accept"]})
    try:
        sentinel = SENT[case["sentinel"]]
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        ov = {k: decode(v) for k, v in case["overrides"].items()}
        errs = {n: ERR[k](n) for n, k in case["fail"].items()}
        for n, k in case["cause"].items():
            errs[n].__cause__ = ERR[k]("cause")
        catch = ERR[case["catch"]]
        try:
            want, calls, fatal = reference(case, spec, {**config, **inputs}, ov, errs, catch, sentinel)
        except dags.Missing:
            return
        dr = make_driver(mods, case["mode"], config, adapters=[ld.GracefulErrorAdapter(error_to_catch=catch, sentinel_value=sentinel, allow_injection=case["allow"])])
        for rnd in range(2):
            REC.reset()
            REC.fail = dict(errs)
            try:
                got, exc = dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(ov)), None
            except Exception as e:
                got, exc = None, e
            REC.fail = {}
            if fatal:
                require(exc is not None and any(exc is errs[n] for n in fatal), "%s raised errors that are not tolerated, the execution returned %r and raised %r", fatal, got, exc)
                ctx.note("untolerated")
            else:
                require(exc is None, "only tolerated errors were raised, but the execution raised %r", exc)
                for n in want:
                    require(got[n] is sentinel if want[n] is sentinel else same(got[n], want[n]), "node %s is %r instead of %r", n, got[n], want[n])
                require(Counter(REC.names()) == calls, "functions called: %s, should be %s", dict(Counter(REC.names())), dict(calls))
                ctx.nontrivial(any(v is sentinel for v in want.values()) and any(v is not sentinel for n, v in want.items() if n in dags.fn_map(spec) and n not in ov))
        ctx.note("sentinel:" + case["sentinel"], "mode:" + case["mode"].split(":")[0])
        if case["accept"] and case["allow"]:
            ctx.note("accepting")
    finally:
        dags.drop_modules(mods)


ACC = "from hamilton.lifecycle.default import accept_error_sentinels as _accept\n"
dags.HEADER += ACC


@st.composite
def block_case(draw):
    c = draw(C12.case_())
    c["overrides"] = {}
    c["sentinel"] = draw(st.sampled_from(sorted(set(SENT) - {"tuple", "empty"})))
    c["try_all"] = draw(st.booleans())
    c["fail"] = {n: draw(st.sampled_from([1, 2, 2, 3])) for n in draw(st.lists(st.sampled_from([x["name"] for x in c["items"]]), min_size=1, max_size=3, unique=True))}
    c["allow"] = draw(st.integers(0, 3)) > 0
    c["cause"] = draw(st.booleans())
    for it in c["items"]:
        if draw(st.integers(0, 3)) == 0:
            it["accept"], it["deco"] = True, "@_accept\n"
        if it["t"] == "expand" and draw(st.integers(0, 2)) == 0:
            it["form"] = "gen"
            it["fail_at"] = draw(st.integers(0, len(it["items"])))
    return c


def block_reference(case, sentinel):
    by = {it["name"]: it for it in case["items"]}
    memo, calls = {}, Counter()

    def fails(n, kw):
        return n in case["fail"] and digest(n, kw) % case["fail"][n] == 0

    def call(it, kw):
        if any(v is sentinel for v in kw.values()) and not (it.get("accept") and case["allow"]):
            return sentinel
        calls[it["name"]] += 1
        if fails(it["name"], kw):
            return sentinel
        return node_value(it["name"], "int", "normal", kw)

    def optv(it, kw):
        if it.get("opt"):
            kw["o"] = 7 if case["optval"] is None else case["optval"]
        return kw

    def val(n):
        if n in memo:
            return memo[n]
        if n not in by:
            return case["inputs"][n]
        it = by[n]
        if it["t"] == "fn":
            memo[n] = call(it, optv(it, {p: val(p) for p in it["params"]}))
        elif it["t"] == "expand":
            v = call(it, {p: val(p) for p in it["params"]})
            if v is sentinel:
                memo[n] = [sentinel]
            else:
                vals = [(v, x) if i % 3 == 2 else x for i, x in enumerate(decode(x) for x in it["items"])]
                if it.get("fail_at") is not None and it["fail_at"] < len(vals):
                    vals = vals[:it["fail_at"]] + [sentinel] if case["try_all"] else [sentinel]
                memo[n] = vals
        else:
            block, out = it["block"], []
            kw = {p: val(p) for p in it["params"]}
            todo, seen = [it["of"]], set()
            while todo:
                b = todo.pop()
                bi = by.get(b)
                if b in seen or b == block:
                    continue
                seen.add(b)
                if bi is None or bi["t"] != "body" or bi["block"] != block:
                    val(b)
                else:
                    todo += bi["params"]
            for item in val(block):
                m = {block: item}

                def bval(b):
                    if b not in m:
                        bi = by.get(b)
                        if bi is None or bi["t"] != "body" or bi["block"] != block:
                            return val(b)
                        m[b] = call(bi, optv(bi, {p: bval(p) for p in bi["params"]}))
                    return m[b]
                out.append(bval(it["of"]))
            memo[n] = call(it, {**kw, it["of"]: out})
        return memo[n]
    return {r: val(r) for r in case["requests"]}, calls


def check_block(case, ctx):
    mod = dags.make_module(C12.render(case), header=C12.HEADER + ACC)
    try:
        sentinel = SENT[case["sentinel"]]
        want, calls = block_reference(case, sentinel)
        dr = make_driver([mod], case["mode"], adapters=[ld.GracefulErrorAdapter(error_to_catch=E0, sentinel_value=sentinel, try_all_parallel=case["try_all"], allow_injection=case["allow"])])
        have = {v.name for v in dr.list_available_variables()}
        inputs = {k: v for k, v in case["inputs"].items() if k in have}
        if case["optval"] is not None and "o" in have:
            inputs["o"] = case["optval"]

        def extra(name, kw):
            if name in case["fail"] and digest(name, kw) % case["fail"][name] == 0:
                raise E1(name) from (Other("cause") if case["cause"] else None)
        for rnd in range(2):
            REC.reset()
            REC.extra, REC.boom = extra, E1("item")
            try:
                got = dr.execute(list(case["requests"]), inputs=dict(inputs))
            finally:
                REC.extra = None
            for n in want:
                require(got[n] is sentinel if want[n] is sentinel else same(got[n], want[n]), "node %s is %r instead of %r", n, got[n], want[n])
            require(Counter(REC.names()) == calls, "functions called: %s, should be %s", dict(Counter(REC.names())), dict(calls))
        big = [it for it in case["items"] if it["t"] == "collect" and it["name"] in calls]
        ctx.note("try_all:%s" % case["try_all"])
        ctx.nontrivial(bool(big) and any(n in calls for n in case["fail"]))
    finally:
        dags.drop_modules([mod])


PARTS = [Part("branches", case_, check, 7000, 110000, "some requested nodes are the sentinel and some are not", shards=8, tshards=8, timeout=120),
         Part("blocks", block_case, check_block, 4000, 60000, "a block is collected and a function with planned failures runs", shards=8, tshards=8, timeout=120)]
