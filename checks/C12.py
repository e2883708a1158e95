"""C12: parallel blocks map every item and collect in order."""
import logging
from collections import Counter
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from checks.C11 import executor

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated parallel dataflows and completion schedules against a reference evaluator"
HEADER = dags.HEADER + "from hamilton.htypes import Parallelizable, Collect\nimport vlib.values as _V\n"
ITEMS = [0, 1, 1, None, False, "", "a", 7, 7, [], {"$": "tuple", "v": [1]}, -3]


@st.composite
def case_(draw, process=False):
    inputs = draw(st.permutations(["i", "ii", "user"]))[:draw(st.integers(1, 3))]
    avail = list(inputs)
    items = []  # in order

    def ps(pool, k=2, must=()):
        chosen = draw(st.lists(st.sampled_from(pool), max_size=k, unique=True)) if pool else []
        return list(dict.fromkeys(list(must) + chosen))
    n = 0
    names = iter(draw(st.permutations(["a", "ab", "b", "b1", "b10", "c", "cc", "d", "dd", "e", "f", "g", "h", "k", "m", "n", "nn", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y"])))
    for bi in range(draw(st.sampled_from([1, 1, 2, 3]))):
        for _ in range(draw(st.integers(0, 2))):
            nm = next(names)
            items.append({"t": "fn", "name": nm, "params": ps(avail), "opt": draw(st.integers(0, 4)) == 0})
            avail.append(nm)
        ex = next(names)
        cnt = draw(st.sampled_from([2, 3, 4, 1, 0, 12]))
        vals = draw(st.lists(st.sampled_from(ITEMS), min_size=cnt, max_size=cnt))
        expander = {"t": "expand", "name": ex, "params": ps(avail), "items": vals, "form": draw(st.sampled_from(["gen", "list", "tuple", "iter"]))}
        items.append(expander)
        inner = [ex]
        # nodes the collected node depends on must all be reachable back to the expander
        last = ex
        for j in range(draw(st.integers(1, 4))):
            nm = next(names)
            body = {"t": "body", "name": nm, "params": ps([a for a in avail] + inner, 2, must=[draw(st.sampled_from(inner))]), "opt": draw(st.integers(0, 4)) == 0, "block": ex}
            items.append(body)
            inner.append(nm)
            last = nm
        col = next(names)
        items.append({"t": "collect", "name": col, "of": last, "params": ps(avail), "block": ex, "pos": draw(st.booleans())})
        if draw(st.integers(0, 3)) == 0:
            avail = list(inputs) + [col]
        else:
            avail.append(col)
    for _ in range(draw(st.integers(0, 2))):
        nm = next(names)
        items.append({"t": "fn", "name": nm, "params": ps(avail, 3), "opt": False})
        avail.append(nm)
    order = draw(st.permutations(list(range(len(items)))))
    cols = [x["name"] for x in items if x["t"] == "collect"]
    outer = [x["name"] for x in items if x["t"] in ("fn", "collect")]
    req = draw(st.lists(st.sampled_from(outer), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 3)) > 0:
        req = list(dict.fromkeys(req + [cols[-1]]))
    ovn = draw(st.lists(st.sampled_from(outer), max_size=1)) if draw(st.integers(0, 4)) == 0 else []
    return {"items": items, "order": list(order), "inputs": {i: draw(st.sampled_from([0, 3, None, "s"])) for i in inputs}, "requests": req, "overrides": {o: 99 for o in ovn},
            "mode": "task:default:%s:%s" % (draw(executor()), draw(executor(process))), "optval": draw(st.sampled_from([None, None, 5]))}


def render(case):
    src = [None] * len(case["items"])
    for i, it in enumerate(case["items"]):
        params = ["%s: Any" % p for p in it["params"]]
        kw = ["%r: %s" % (p, p) for p in it["params"]]
        ret = "Any"
        if it["t"] == "collect":
            cp = "%s: Collect[Any]" % it["of"]
            params = [cp] + params if it["pos"] else params + [cp]
            kw.append("%r: list(%s)" % (it["of"], it["of"]))
        if it.get("opt"):
            params.append("o: Any = 7")
            kw.append("'o': o")
        if it["t"] == "expand":
            ret = "Parallelizable[Any]"
        s = "%sdef %s(%s) -> %s:\n" % (it.get("deco", ""), it["name"], ", ".join(params), ret)
        if it["t"] == "expand":
            s += "    v = _REC.call(%r, 'int', 'normal', {%s})\n    vals = [[i, x] for i, x in enumerate([_dec(x) for x in %r])]\n    vals = [(v, x[1]) if x[0] %% 3 == 2 else x[1] for x in vals]\n" % (
                it["name"], ", ".join(kw), it["items"])
            s += {"gen": "    for i_, x in enumerate(vals):\n        if i_ == %r:\n            raise _REC.boom\n        yield x\n" % (it.get("fail_at"),), "list": "    return vals\n", "tuple": "    return tuple(vals)\n", "iter": "    return iter(vals)\n"}[it["form"]]
        else:
            s += "    return _REC.call(%r, 'int', 'normal', {%s})\n" % (it["name"], ", ".join(kw))
        src[i] = s
    return "\n".join(src[i] for i in case["order"])


def evaluate(case):
    by = {it["name"]: it for it in case["items"]}
    env = dict(case["inputs"])
    ov = case["overrides"]
    calls = []
    memo = {}

    def call(it, kw):
        calls.append((it["name"], repr(sorted(kw.items(), key=lambda t: t[0]))))
        return dags.node_value(it["name"], "int", "normal", kw)

    def optv(it, kw):
        if it.get("opt"):
            kw["o"] = 7 if case["optval"] is None else case["optval"]
        return kw

    def val(n):
        if n in ov:
            return ov[n]
        if n in memo:
            return memo[n]
        if n not in by:
            return env[n]
        it = by[n]
        if it["t"] == "fn":
            memo[n] = call(it, optv(it, {p: val(p) for p in it["params"]}))
        elif it["t"] == "expand":
            v = call(it, {p: val(p) for p in it["params"]})
            vals = [decode(x) for x in it["items"]]
            memo[n] = [(v, x) if i % 3 == 2 else x for i, x in enumerate(vals)]
        elif it["t"] == "collect":
            block = it["block"]
            out = []
            others = {p: val(p) for p in it["params"]}
            todo, seen = [it["of"]], set()  # the values the body takes from outside the block are needed even for zero items
            while todo:
                b = todo.pop()
                bi = by.get(b)
                if b in seen or b == block:
                    continue
                seen.add(b)
                if bi is None or bi["t"] != "body" or bi["block"] != block:
                    val(b)
                else:
                    todo += bi["params"]
            for item in val(block):
                m = {block: item}

                def bval(b):
                    if b in m:
                        return m[b]
                    bi = by.get(b)
                    if bi is None or bi["t"] != "body" or bi["block"] != block:
                        return val(b)
                    m[b] = call(bi, optv(bi, {p: bval(p) for p in bi["params"]}))
                    return m[b]
                out.append(bval(it["of"]))
            memo[n] = call(it, {**others, it["of"]: out})
        else:
            raise AssertionError(n)
        return memo[n]
    return {r: val(r) for r in case["requests"]}, calls


def check(case, ctx, process=False):
    mod = dags.make_module(render(case), header=HEADER)
    try:
        want, calls = evaluate(case)
        dr = make_driver([mod], case["mode"])
        have = {v.name for v in dr.list_available_variables()}
        inputs = {k: v for k, v in case["inputs"].items() if k in have}
        if case["optval"] is not None and "o" in have:
            inputs["o"] = case["optval"]
        for rnd in range(2):
            REC.reset()
            got = dr.execute(list(case["requests"]), inputs=dict(inputs), overrides=dict(case["overrides"]))
            for n in want:
                require(same(got[n], want[n]), "execution %d: node %s is %r instead of %r\ncalls %s\nexpected %s", rnd, n, got[n], want[n], REC.calls, calls)
            if process:
                continue
            # body nodes that do not depend on the item are ordinary nodes run once
            a, b = Counter(REC.calls), Counter(calls)
            require(a == b, "function calls differ: unexpected %s, missing %s", dict(a - b), dict(b - a))
            by = {it["name"]: it for it in case["items"]}
            done = Counter()
            for k, n in REC.events:
                it = by[n]
                if k == "e":
                    done[n] += 1
                elif it["t"] == "collect":
                    items = len(by[it["block"]]["items"])
                    require(done[it["of"]] == items, "%s started after %d of %d items were done", n, done[it["of"]], items)
        ctx.note("blocks:%d" % sum(it["t"] == "collect" for it in case["items"]))
        used = {n for n, _ in calls}
        big = [len(it["items"]) for it in case["items"] if it["t"] == "expand" and it["name"] in used]
        if 0 in big:
            ctx.note("zero-items")
        if any(b > 10 for b in big):
            ctx.note("more-than-ten-items")
        parts = case["mode"].split(":")
        ctx.note("local:" + parts[2][:6], "remote:" + parts[3][:6])
        ctx.nontrivial(any(b >= 2 for b in big))
    finally:
        dags.drop_modules([mod])


@st.composite
def sub_case(draw):
    c = draw(case_())
    c["overrides"] = {}
    c["ns"] = draw(st.sampled_from([["ns"], ["a"], ["ns", "b"]]))
    return c


def check_sub(case, ctx):
    """The same dataflow inside one or two subdags: one set of calls per instance."""
    inner = dags.make_module(render(case), header=HEADER)
    src = "import %s as inner\nfrom hamilton.function_modifiers import subdag\n" % inner.__name__
    for ns in case["ns"]:
        src += "@subdag(inner, namespace=%r)\ndef res_%s(%s) -> Any:\n    return {%s}\n\n" % (ns, ns, ", ".join("%s: Any" % r for r in case["requests"]), ", ".join("%r: %s" % (r, r) for r in case["requests"]))
    mod = dags.make_module(src, header=HEADER)
    try:
        want, calls = evaluate(case)
        dr = make_driver([mod], case["mode"])
        have = {v.name for v in dr.list_available_variables()}
        inputs = {k: v for k, v in case["inputs"].items() if k in have}
        if case["optval"] is not None and "o" in have:
            inputs["o"] = case["optval"]
        REC.reset()
        outs = ["res_" + ns for ns in case["ns"]]
        got = dr.execute(outs, inputs=inputs)
        for o in outs:
            for n in want:
                require(same(got[o][n], want[n]), "%s: node %s is %r instead of %r", o, n, got[o][n], want[n])
        a, b = Counter(REC.calls), Counter(calls * len(outs))
        require(a == b, "function calls differ: unexpected %s, missing %s", dict(a - b), dict(b - a))
        used = {n for n, _ in calls}
        ctx.nontrivial(any(len(it["items"]) >= 2 for it in case["items"] if it["t"] == "expand" and it["name"] in used))
    finally:
        dags.drop_modules([mod, inner])


def check_process(case, ctx):
    check(case, ctx, process=True)


# ---------------------------------------------------------------- many items
BIG = """def items(n: int, m: int) -> Parallelizable[int]:
    for i in range(n):
        yield i % m

def dbl(items: int, k: int) -> int:
    return items * 2 + k

def tag_(dbl: int, items: int) -> str:
    return "%d/%d" % (items, dbl)

def all_(tag_: Collect[str]) -> list:
    return list(tag_)
"""


def big_():
    return st.fixed_dictionaries({"n": st.one_of(st.integers(0, 40), st.integers(200, 700), st.sampled_from([100, 1000, 1001, 1024, 1100, 1300])), "m": st.sampled_from([1, 7, 10**9]), "k": st.integers(0, 3),
                                  "mode": st.sampled_from(["task:default:sync:sync", "task:default:sync:thread4", "task:default:sync:thread1"])})


def check_big(case, ctx):
    mod = dags.make_module(BIG, header="from hamilton.htypes import Parallelizable, Collect\n")
    try:
        dr = make_driver([mod], case["mode"])
        got = dr.execute(["all_"], inputs={"n": case["n"], "m": case["m"], "k": case["k"]})["all_"]
        want = ["%d/%d" % (i % case["m"], (i % case["m"]) * 2 + case["k"]) for i in range(case["n"])]
        require(len(got) == len(want), "%d items, %d results collected", len(want), len(got))
        bad = [i for i in range(len(want)) if got[i] != want[i]]
        require(not bad, "%d items: result %d is %r instead of %r", len(want), bad[0] if bad else 0, got[bad[0]] if bad else 0, want[bad[0]] if bad else 0)
        ctx.note("thousand" if case["n"] >= 1000 else "hundreds" if case["n"] >= 100 else "few")
        ctx.nontrivial(case["n"] >= 100)
    finally:
        dags.drop_modules([mod])


PARTS = [Part("many", big_, check_big, 24, 400, "a hundred or more items", timeout=180),
         Part("blocks", case_, check, 5000, 80000, "a block over two or more items runs", shards=8, tshards=7, timeout=60),
         Part("in-subdag", sub_case, check_sub, 800, 10000, "a block over two or more items runs", shards=2, timeout=60),
         Part("processes", lambda: case_(process=True), check_process, 60, 1000, "a block over two or more items runs", shards=2, tshards=1, timeout=60)]
