"""C13: the async driver agrees with the synchronous one."""
import asyncio, logging, re, warnings
from collections import Counter
from hypothesis import strategies as st
from hamilton import async_driver, base
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from vlib.gen import plain_case
from checks.C02 import verify_trace

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated sync/async dataflows, await patterns and concurrent calls against a reference evaluator and the synchronous driver"
STEPS = [0, 0, 1, 2, 3, 7]


@st.composite
def case_(draw):
    names = dags.NAMES + ["fn", "node_", "kwargs", "run_id", "task_id"]
    c = draw(plain_case(allow_overrides=True, dag_kw=dict(max_fns=10, min_fns=2, names=names)))
    for f in c["dag"]["fns"]:
        if draw(st.integers(0, 2)) > 0:
            f["async"] = True
            f["steps"] = draw(st.sampled_from(STEPS))
    fns = [f["name"] for f in c["dag"]["fns"]]
    c["fail"] = draw(st.lists(st.sampled_from(fns), max_size=2, unique=True)) if draw(st.integers(0, 3)) == 0 else []
    c["error"] = draw(st.sampled_from(sorted(ERRORS)))
    c["build"] = draw(st.sampled_from(["builder", "builder", "noinit", "ctor"]))
    c["vary"] = draw(st.lists(st.sampled_from(["same", "alt", "sub"]), max_size=3))
    return c


class Boom(Exception):
    pass


class Keyed(KeyError, ValueError):
    """Both a KeyError and a ValueError, with extra arguments."""

    def __init__(self, a, b):
        super().__init__(a, b)


ERRORS = {"Boom": Boom, "Value": ValueError, "Key": KeyError, "Type": TypeError, "Attr": AttributeError, "Assert": AssertionError, "NotImpl": NotImplementedError, "Index": IndexError,
          "Runtime": RuntimeError, "OS": OSError, "Keyed": lambda n: Keyed(n, 1), "Invalid": asyncio.InvalidStateError, "Name": NameError, "Import": ImportError}


async def drain():
    while True:
        rest = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        if not rest:
            return
        await asyncio.wait(rest, timeout=20)


def make(mods, build, config):
    b = async_driver.Builder().with_modules(*mods).with_config(config)

    async def go():
        if build == "builder":
            return await b.build()
        if build == "noinit":
            return b.build_without_init()
        return async_driver.AsyncDriver(config, *mods, result_builder=base.DictResult())
    return go()


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        ov = {k: decode(v) for k, v in case["overrides"].items()}
        fm = dags.fn_map(spec)

        def variant(v):
            inp = {k: decode(x) for k, x in case["inputs"].items()}
            req = list(case["requests"])
            o = dict(ov)
            if v == "alt":
                inp = {k: (x if not isinstance(x, int) or isinstance(x, bool) else x + 1) for k, x in inp.items()}
                req = req[::-1]
            if v == "sub":
                req = req[:1]
                o = {}
            return req, inp, o
        runs = [variant("same")] + [variant(v) for v in case["vary"]]

        async def call(dr, r):
            req, inp, o = r
            return await asyncio.wait_for(dr.execute(list(req), inputs=inp, overrides=dict(o)), 30)

        async def main():
            dr = await make(mods, case["build"], config)
            # one after the other, then the same calls concurrently
            for r in runs:
                try:
                    want, called = dags.ref_eval(spec, r[0], {**config, **r[1]}, r[2])
                except dags.Missing:
                    continue
                REC.reset()
                got = await call(dr, r)
                await drain()
                require(list(got) and set(got) == set(want), "keys %s instead of %s", list(got), list(want))
                for n in want:
                    require(same(got[n], want[n]), "node %s is %r instead of %r", n, got[n], want[n])
                verify_trace(spec, called, REC.events, r[2])
            ok, calls = [], Counter()
            for r in runs:
                try:
                    want, called = dags.ref_eval(spec, r[0], {**config, **r[1]}, r[2])
                except dags.Missing:
                    continue
                ok.append((r, want))
                calls.update((n, repr(sorted(kw.items(), key=lambda t: t[0]))) for n, kw in called.items())
            if len(ok) > 1:
                REC.reset()
                outs = await asyncio.gather(*[call(dr, r) for r, _ in ok])
                await drain()
                for (r, want), got in zip(ok, outs):
                    require(set(got) == set(want), "concurrent calls: keys %s instead of %s", list(got), list(want))
                    for n in want:
                        require(same(got[n], want[n]), "concurrent calls: node %s is %r instead of %r", n, got[n], want[n])
                require(Counter(REC.calls) == calls, "concurrent calls: function calls differ: unexpected %s, missing %s",
                        dict(Counter(REC.calls) - calls), dict(calls - Counter(REC.calls)))
                ctx.note("concurrent")
            if case["fail"]:
                r = runs[0]
                want, called = dags.ref_eval(spec, r[0], {**config, **r[1]}, r[2])
                bad = [n for n in case["fail"] if n in called]
                errs = {n: ERRORS[case["error"]](n) for n in bad}

                def down(n):  # is n strictly downstream of a failing node (through nodes that are really evaluated)?
                    return any(d in errs or down(d) for d in [p["name"] for p in fm[n]["params"] if p["name"] in fm and p["name"] not in r[2]])
                first = [n for n in bad if not down(n)]
                REC.reset()
                REC.fail = errs
                try:
                    got = await call(dr, r)
                    e = None
                except Exception as ex:
                    e = ex
                await drain()
                ran = set(REC.names())
                REC.fail = {}
                if bad:
                    require(e is not None, "functions %s raised but the execution returned %r", bad, None if e else got)
                    require(any(e is errs[n] for n in first), "the execution raised %r instead of the error of one of %s", e, first)
                    for n in ran:
                        require(not down(n), "%s ran although it depends on a failed function", n)
                    ctx.note("failure")
                else:
                    require(e is None, "unexpected error %r", e)
                REC.reset()
                got = await call(dr, r)
                for n in want:
                    require(same(got[n], want[n]), "after a failed execution: node %s is %r instead of %r", n, got[n], want[n])
            return True
        asyncio.run(main())
        _, called = dags.ref_eval(spec, case["requests"], {**config, **{k: decode(x) for k, x in case["inputs"].items()}}, ov)
        ctx.note("build:" + case["build"])
        k = sum(1 for n in called if fm[n].get("async"))
        ctx.nontrivial(k >= 2 and len(called) > k)
    finally:
        dags.drop_modules(mods)


HEADER = dags.HEADER + "from hamilton.function_modifiers import *\nfrom checks.C13 import h as _h\n"


def h(name, **kw):
    return REC.call(name, "int", "normal", kw)


@st.composite
def dec_case(draw):
    """A module made of decorated functions, rendered once with and once without async."""
    avail = ["i", "j"]
    items = []
    names = iter(draw(st.permutations(["n%d" % k for k in range(16)])))
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["plain", "parameterize", "inject", "group", "fields", "pipe_in", "pipe_out", "check", "subdag", "psubdag", "tag", "when", "mutate"]))
        it = {"k": k, "name": next(names), "src": [draw(st.sampled_from(avail)) for _ in range(2)], "a": [draw(st.booleans()) for _ in range(3)], "s": [draw(st.sampled_from(STEPS)) for _ in range(3)]}
        if it["src"][0] == it["src"][1]:
            it["src"] = [it["src"][0]]
        outs = {"parameterize": ["_x", "_y"], "fields": ["_u", "_v"], "psubdag": ["_x", "_y"]}.get(k, [""])
        items.append(it)
        avail += [it["name"] + o for o in outs]
    return {"items": items, "requests": draw(st.lists(st.sampled_from(avail[2:]), min_size=1, max_size=4, unique=True)), "i": draw(st.integers(-2, 2)), "flag": draw(st.booleans())}


def render_dec(case, asyn):
    out = []
    for it in case["items"]:
        n, src = it["name"], it["src"]

        def fn(name, params, body_kw, which=0, ret="int", wrap="%s"):
            a = asyn and it["a"][which]
            return "%sdef %s(%s) -> %s:\n%s    return %s\n" % (
                "async " if a else "", name, ", ".join(params), ret, "    await _sleep(%d)\n" % it["s"][which] if a else "",
                wrap % ("_h(%r, %s)" % (name, ", ".join("%s=%s" % (p, p) for p in body_kw))))
        ps = ["%s: int" % s for s in src]
        k = it["k"]
        if k == "plain":
            out.append(fn(n, ps, src))
        elif k == "tag":
            out.append("@tag(owner='x')\n" + fn(n, ps, src))
        elif k == "parameterize":
            out.append("@parameterize(%s_x={'p': source(%r), 'q': value(3)}, %s_y={'p': value(4), 'q': source(%r)})\n" % (n, src[0], n, src[-1]) + fn(n, ["p: int", "q: int"], ["p", "q"]))
        elif k == "inject":
            out.append("@inject(p=source(%r), q=value(3))\n" % src[0] + fn(n, ["p: int", "q: int"], ["p", "q"]))
        elif k == "group":
            out.append("@inject(p=group(%s, value(3)))\n" % ", ".join("source(%r)" % s for s in src) + fn(n, ["p: List[int]"], ["p"]))
        elif k == "fields":
            out.append("@extract_fields({'%s_u': int, '%s_v': int})\n" % (n, n) + fn(n, ps, src, ret="Dict[str, int]", wrap="(lambda d: {'%s_u': d, '%s_v': d + 1})(%%s)" % (n, n)))
        elif k in ("pipe_in", "pipe_out"):
            st_ = fn("_s_" + n, ["x: int", "k: int"], ["x", "k"], which=1)
            s2 = fn("_t_" + n, ["x: int"], ["x"], which=2)
            steps = "step(_s_%s, k=%s), step(_t_%s)" % (n, "source(%r)" % src[-1] if it["s"][0] else "value(2)", n)
            out.append(st_ + s2 + "@%s(%s)\n" % ("pipe_input" if k == "pipe_in" else "pipe_output", steps) + fn(n, ps, src))
        elif k == "check":
            out.append("@check_output(range=(0, 10), importance='warn')\n" + fn(n, ps, src))
        elif k == "subdag":
            out.append(fn("_in_" + n, ["w: int"], ["w"], which=1).replace("_in_" + n + "(", "in_" + n + "(") if False else "")
            out.append("def _mk_%s():\n%s    return in_%s\n" % (n, "".join("    " + l + "\n" for l in fn("in_" + n, ["w: int"], ["w"], which=1).splitlines()), n))
            out.append("@subdag(_mk_%s(), inputs={'w': source(%r)})\n" % (n, src[0]) + fn(n, ["in_%s: int" % n], ["in_" + n]))
        elif k == "psubdag":
            out.append("def _mk_%s():\n%s    return in_%s\n" % (n, "".join("    " + l + "\n" for l in fn("in_" + n, ["w: int"], ["w"], which=1).splitlines()), n))
            out.append("@parameterized_subdag(_mk_%s(), %s_x={'inputs': {'w': source(%r)}}, %s_y={'inputs': {'w': value(9)}})\n" % (n, n, src[0], n) + fn(n, ["in_%s: int" % n], ["in_" + n]))
        elif k == "when":
            out.append("@config.when(flag=True)\n" + fn(n + "__t", ps, src).replace("_h('%s__t'" % n, "_h('%s__t'" % n))
            out.append("@config.when(flag=False)\n" + fn(n + "__f", ps, src, which=1))
        elif k == "mutate":
            out.append(fn(n, ps, src) + "@mutate(%s)\n" % n + fn("_m_" + n, ["x: int"], ["x"], which=1))
    return "\n".join(out)


def check_dec(case, ctx):
    plain = dags.make_module(render_dec(case, False), header=HEADER)
    mixed = dags.make_module(render_dec(case, True), header=HEADER)
    try:
        cfg = {"flag": case["flag"]}
        inputs = {"i": case["i"], "j": 5}
        dr = make_driver([plain], "builder", cfg)
        have = {v.name for v in dr.list_available_variables()}
        inputs = {k: v for k, v in inputs.items() if k in have}
        REC.reset()
        want = dr.execute(list(case["requests"]), inputs=dict(inputs))
        calls = Counter(REC.calls)

        async def main():
            adr = await async_driver.Builder().with_modules(mixed).with_config(cfg).build()
            require({v.name for v in adr.list_available_variables()} == have, "the async driver has other variables: %s", {v.name for v in adr.list_available_variables()} ^ have)
            REC.reset()
            got = await asyncio.wait_for(adr.execute(list(case["requests"]), inputs=dict(inputs)), 30)
            await drain()
            require(set(got) == set(want), "keys %s instead of %s", list(got), list(want))
            for n in want:
                require(same(got[n], want[n]), "node %s is %r under the async driver and %r under the synchronous one", n, got[n], want[n])
            require(Counter(REC.calls) == calls, "function calls differ: unexpected %s, missing %s", dict(Counter(REC.calls) - calls), dict(calls - Counter(REC.calls)))
        asyncio.run(main())
        for it in case["items"]:
            ctx.note("dec:" + it["k"])
        ctx.nontrivial(len(calls) >= 3 and any(it["a"][0] for it in case["items"]))
    finally:
        dags.drop_modules([plain, mixed])


PARTS = [Part("runs", case_, check, 8000, 120000, "at least two coroutines and one plain function run", shards=8, tshards=8, timeout=120),
         Part("decorated", dec_case, check_dec, 6000, 80000, "three or more calls with at least one decorated coroutine", shards=8, tshards=8, timeout=120)]
