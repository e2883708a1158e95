"""C27: runtime type checks flag exactly the wrongly typed values."""
import asyncio, collections, functools, logging
from hypothesis import strategies as st
import pandas as pd
from hamilton import async_driver, base, driver, lifecycle, registry
from vlib.core import Part, Violation, require
from vlib import dags, decogen
from vlib.drv import configure_task

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated annotations with conforming and nonconforming values in generated dataflows; independent conformance oracle; differential against the unchecked run"
HOLD, RAN = {}, []


def setup():
    registry.load_extension("pandas")


class Base:
    pass


class Derived(Base):
    pass


# ---------------------------------------------------------------- annotations: nested tuples, rendered as text, with an independent conformance oracle
LEAF = ["int", "float", "str", "bool", "None", "Any", "object", "Base", "Derived", "list", "dict", "tuple", "set", "List", "Dict", "bytes", "pd.Series", "complex"]
LITS = [1, 2, "a", "b", None, b"x"]


@functools.lru_cache(None)
def types(depth):
    leaf = st.sampled_from(LEAF).map(lambda n: ("leaf", n))
    lit = st.lists(st.sampled_from(LITS), min_size=1, max_size=3, unique_by=repr).map(lambda v: ("lit", v))
    if depth == 0:
        return st.one_of(leaf, leaf, leaf, lit)
    sub = types(depth - 1)
    hsub = st.sampled_from(["int", "str", "bool", "float"]).map(lambda n: ("leaf", n))
    return st.one_of(
        leaf, lit, sub.map(lambda t: ("opt", t)), st.lists(sub, min_size=2, max_size=3).map(lambda t: ("union", t)),
        st.lists(sub, min_size=2, max_size=2).map(lambda t: ("bar", t)),
        st.tuples(st.sampled_from(["List", "list", "Sequence", "Iterable", "Collection"]), sub).map(lambda p: ("seq",) + p),
        st.tuples(st.sampled_from(["Set", "set", "FrozenSet", "frozenset"]), hsub).map(lambda p: ("seq",) + p),
        st.tuples(st.sampled_from(["Dict", "dict", "Mapping"]), hsub, sub).map(lambda p: ("map",) + p),
        st.tuples(st.sampled_from(["Tuple", "tuple"]), st.lists(sub, max_size=3)).map(lambda p: ("tup",) + p),
        st.tuples(st.sampled_from(["Tuple", "tuple"]), sub).map(lambda p: ("tupn",) + p),
        st.sampled_from([("call",), ("type",), ("ann", "int"), ("ann", "float")]),
    )


def text(t):
    k = t[0]
    if k == "leaf":
        return t[1]
    if k == "lit":
        return "Literal[%s]" % ", ".join(map(repr, t[1]))
    if k == "opt":
        return "Optional[%s]" % text(t[1])
    if k == "union":
        return "Union[%s]" % ", ".join(map(text, t[1]))
    if k == "bar":
        return "Union[%s]" % ", ".join(map(text, t[1])) if any(u[0] == "leaf" and u[1] == "None" for u in t[1]) else "%s | %s" % tuple(map(text, t[1]))
    if k == "seq":
        return "%s[%s]" % (t[1], text(t[2]))
    if k == "map":
        return "%s[%s, %s]" % (t[1], text(t[2]), text(t[3]))
    if k == "tup":
        return "%s[%s]" % (t[1], ", ".join(map(text, t[2])) or "()")
    if k == "tupn":
        return "%s[%s, ...]" % (t[1], text(t[2]))
    if k == "call":
        return "Callable[[int], int]"
    if k == "type":
        return "Type[Base]"
    if k == "ann":
        return "Annotated[pd.Series, %s]" % t[1]
    raise ValueError(k)


PY = {"int": int, "float": float, "str": str, "bool": bool, "None": type(None), "object": object, "Base": Base, "Derived": Derived, "list": list, "dict": dict, "tuple": tuple, "set": set, "List": list, "Dict": dict,
      "bytes": bytes, "pd.Series": pd.Series, "complex": complex}
KIND = {"List": list, "list": list, "Set": set, "set": set, "FrozenSet": frozenset, "frozenset": frozenset}


def conforms(v, t):
    """Independent oracle."""
    k = t[0]
    if k == "leaf":
        return t[1] == "Any" or isinstance(v, PY[t[1]])
    if k == "lit":
        return any(type(v) is type(x) and v == x for x in t[1])
    if k == "opt":
        return v is None or conforms(v, t[1])
    if k in ("union", "bar"):
        return any(conforms(v, u) for u in t[1])
    if k == "seq":
        name, e = t[1:]
        if name in KIND:
            ok = isinstance(v, KIND[name])
        elif name == "Sequence":
            ok = isinstance(v, (list, tuple, str, bytes, collections.deque))
        elif name == "Collection":
            ok = hasattr(type(v), "__len__") and hasattr(type(v), "__iter__") and hasattr(type(v), "__contains__")
        else:
            ok = hasattr(type(v), "__iter__")
        if not ok:
            return False
        return all(conforms(x, e) for x in v) if isinstance(v, (list, tuple, set, frozenset, str, bytes, dict, collections.deque)) else True
    if k == "map":
        return isinstance(v, dict) and all(conforms(a, t[2]) and conforms(b, t[3]) for a, b in v.items())
    if k == "tup":
        return isinstance(v, tuple) and len(v) == len(t[2]) and all(conforms(x, u) for x, u in zip(v, t[2]))
    if k == "tupn":
        return isinstance(v, tuple) and all(conforms(x, t[2]) for x in v)
    if k == "call":
        return callable(v)
    if k == "type":
        return isinstance(v, type)
    if k == "ann":
        return isinstance(v, pd.Series)
    raise ValueError(k)


# ---------------------------------------------------------------- values: specs realised afresh, aimed at the annotation or perturbed
SPEC = [("v", 0), ("v", 1), ("v", "a"), ("v", ""), ("v", 1.5), ("v", True), ("v", None), ("v", b"x"), ("v", 2j), ("obj", "Base"), ("obj", "Derived"), ("ser",), ("cls", "int"), ("cls", "Derived"), ("gen",), ("fn",),
        ("c", "list", []), ("c", "tuple", []), ("c", "set", []), ("c", "frozenset", []), ("d", []), ("c", "deque", [])]
any_spec = st.sampled_from(SPEC)


def hashable(s):
    return s[0] == "v"


@st.composite
def spec_for(draw, t, bad=0):
    """A spec that usually conforms to t; with bad=1 somewhere inside an arbitrary value may be put instead, with bad=2 or 3 an arbitrary value or None is used."""
    if bad == 2:
        return draw(any_spec)
    if bad == 3:
        return ("v", None)
    if bad and draw(st.integers(0, 3)) == 0:
        return draw(any_spec)
    k = t[0]
    if k == "leaf":
        return draw({"int": st.sampled_from([("v", 0), ("v", 7), ("v", True)]), "float": st.just(("v", 1.5)), "str": st.sampled_from([("v", "a"), ("v", "")]), "bool": st.just(("v", False)), "None": st.just(("v", None)),
                     "Base": st.sampled_from([("obj", "Base"), ("obj", "Derived")]), "Derived": st.just(("obj", "Derived")), "pd.Series": st.just(("ser",)), "bytes": st.just(("v", b"x")), "complex": st.just(("v", 2j)),
                     "list": st.just(("c", "list", [("v", 1), ("v", "a")])), "List": st.just(("c", "list", [("v", 1), ("v", "a")])), "dict": st.just(("d", [(("v", 1), ("v", "a"))])), "Dict": st.just(("d", [])),
                     "tuple": st.just(("c", "tuple", [("v", 1)])), "set": st.just(("c", "set", [("v", 1)]))}.get(t[1], any_spec))
    if k == "lit":
        return ("v", draw(st.sampled_from(t[1])))
    if k == "opt":
        return ("v", None) if draw(st.integers(0, 2)) == 0 else draw(spec_for(t[1], bad))
    if k in ("union", "bar"):
        return draw(spec_for(draw(st.sampled_from(t[1])), bad))
    n = draw(st.integers(0, 3))
    if k == "seq":
        kind = KIND.get(t[1], None)
        kind = kind.__name__ if kind else draw(st.sampled_from(["list", "tuple", "deque"] if t[1] == "Sequence" else ["list", "tuple", "deque", "dict", "dict"]))
        items = [draw(spec_for(t[2], bad)) for _ in range(n)]
        if kind == "dict":
            return ("d", [(i, ("v", 1)) for i in items if hashable(i)])
        if len(items) > 1 and draw(st.integers(0, 3)) == 0:
            items = items[:1] * draw(st.sampled_from([20, 130])) + items[1:]
        if kind in ("set", "frozenset"):
            items = [i for i in items if hashable(i)]
        return ("c", kind, items)
    if k == "map":
        items = [(draw(spec_for(t[2], bad)), draw(spec_for(t[3], bad))) for _ in range(n)]
        return ("d", [i for i in items if hashable(i[0])])
    if k == "tup":
        items = [draw(spec_for(u, bad)) for u in t[2]]
        if bad and draw(st.integers(0, 3)) == 0:
            items = items[:-1] if draw(st.booleans()) else items + [("v", 1)]
        return ("c", "tuple", items)
    if k == "tupn":
        return ("c", "tuple", [draw(spec_for(t[2], bad)) for _ in range(n)])
    return {"call": ("fn",), "type": ("cls", "Derived"), "ann": ("ser",)}[k]


def realize(s):
    k = s[0]
    if k == "v":
        return s[1]
    if k == "obj":
        return PY[s[1]]()
    if k == "ser":
        return pd.Series([1, 2])
    if k == "cls":
        return PY[s[1]]
    if k == "gen":
        return (i for i in [1, 2])
    if k == "fn":
        return len
    if k == "c":
        return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "deque": collections.deque}[s[1]](realize(x) for x in s[2])
    return {realize(a): realize(b) for a, b in s[1]}


def bool_vs_int(v, t):
    """Whether the verdict hangs on 1 == True inside a Literal, which the property leaves open."""
    return has(t, "lit")


def has(t, kind):
    if not isinstance(t, (tuple, list)):
        return False
    return (len(t) > 0 and t[0] == kind) or any(has(x, kind) for x in t)


def has_bool(s):
    return isinstance(s, (tuple, list)) and any(x is True or x is False or (isinstance(x, float) and x in (0.0, 1.0, 2.0)) or has_bool(x) for x in s)


HEAD = "import pandas as pd\nimport collections\nfrom typing import *\nfrom hamilton.function_modifiers import *\nfrom hamilton.htypes import Parallelizable, Collect\nimport checks.C27 as _C\nfrom checks.C27 import Base, Derived\n"
WAYS = ["builder", "builder", "task:nodes", "task:asone", "legacy"]  # not async: synchronous hooks on an AsyncDriver are documented as unsupported


def run(way, mods, request, adapters, inputs=None, config=None):
    if way == "async":
        async def go():
            dr = async_driver.AsyncDriver(config or {}, *mods, result_builder=base.DictResult(), adapters=list(adapters))
            return await dr.execute(request, inputs=inputs or {})
        loop = asyncio.new_event_loop()
        try:
            return loop.run_until_complete(go())
        finally:
            loop.close()
    if way == "legacy":
        return driver.Driver(config or {}, *mods, adapter=[base.SimplePythonGraphAdapter(base.DictResult()), *adapters]).execute(request, inputs=inputs or {})
    b = driver.Builder().with_modules(*mods).with_config(config or {})
    if adapters:
        b = b.with_adapters(*adapters)
    if way.startswith("task"):
        b = configure_task(b.enable_dynamic_execution(allow_experimental_mode=True), way)
    return b.build().execute(request, inputs=inputs or {})


def attempt(f):
    try:
        return ("ok", f())
    except BaseException as e:
        return ("err", e)


def names_node(e, node):
    import re
    return isinstance(e, TypeError) and re.search(r"(?<![\w.])%s(?![\w])" % re.escape(node), str(e)) is not None


@st.composite
def annot(draw):
    ti, to = draw(types(2)), draw(types(2))
    return {"ti": ti, "to": to, "vi": draw(spec_for(ti, draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3])))), "vo": draw(spec_for(to, draw(st.sampled_from([0, 0, 1, 1, 2, 3])))), "way": draw(st.sampled_from(WAYS)),
            "ci": draw(st.integers(0, 4)) > 0, "co": draw(st.integers(0, 4)) > 0, "dflt": draw(st.sampled_from([None, None, "omitted"]))}


def check_annot(case, ctx):
    for t, s in ((case["ti"], case["vi"]), (case["to"], case["vo"])):
        if has(t, "lit") and has_bool(s):
            ctx.note("literal_equality")
            return
    vi, vo = realize(case["vi"]), realize(case["vo"])
    HOLD.clear()
    HOLD.update(vi=vi, vo=vo)
    src = ("def src() -> Any:\n    return _C.HOLD['vi']\n\ndef node_f(src: %s%s) -> %s:\n    _C.RAN.append('f')\n    return _C.HOLD['vo']\n\ndef down(node_f: Any) -> Any:\n    _C.RAN.append('down')\n    return node_f\n"
           % (text(case["ti"]), ", other: int = 'not an int'" if case["dflt"] else "", text(case["to"])))
    mod = dags.make_module(src, header=HEAD)
    bad_in = case["ci"] and not conforms(vi, case["ti"])
    bad_out = case["co"] and not conforms(vo, case["to"])
    try:
        del RAN[:]
        plain = attempt(lambda: run(case["way"], [mod], ["down", "node_f"], []))
        if plain[0] != "ok":
            raise Violation("the unchecked run fails: %r\n%s" % (plain[1], src))
        del RAN[:]
        got = attempt(lambda: run(case["way"], [mod], ["down", "node_f"], [lifecycle.FunctionInputOutputTypeChecker(check_input=case["ci"], check_output=case["co"])]))
        what = "input %r: %s conforms=%r checked=%r; output %r: %s conforms=%r checked=%r" % (vi, text(case["ti"]), conforms(vi, case["ti"]), case["ci"], vo, text(case["to"]), conforms(vo, case["to"]), case["co"])
        if bad_in or bad_out:
            require(got[0] == "err", "a wrongly typed value was not flagged: %s", what)
            require(names_node(got[1], "node_f"), "the error does not name the node: %r (%s)", got[1], what)
            require(RAN == ([] if bad_in else ["f"]), "ran %r: %s", RAN, what)
        else:
            require(got[0] == "ok", "rightly typed values were flagged: %r (%s)", got[1], what)
            require(got[1]["down"] is vo and got[1]["node_f"] is vo, "the value changed under type checking: %r (%s)", got[1], what)
            require(RAN == ["f", "down"], "ran %r", RAN)
        ctx.note("flagged_in" if bad_in else "flagged_out" if bad_out else "clean")
        if case["ti"][0] not in ("leaf",) or case["to"][0] not in ("leaf",):
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- whole dataflows: some nodes return ill-typed values, some raise
@st.composite
def program(draw):
    n = draw(st.integers(2, 7))
    nodes = []
    for i in range(n):
        t = draw(types(1))
        nodes.append({"t": t, "v": draw(spec_for(t, draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 1, 2, 3])))), "deps": draw(st.lists(st.integers(0, i - 1), min_size=i % 2, max_size=3, unique=True)) if i else [],
                      "raises": draw(st.integers(0, 11)) == 11, "pt": {}})
    return {"nodes": nodes, "req": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)), "way": draw(st.sampled_from(WAYS)), "ci": draw(st.integers(0, 3)) > 0, "co": draw(st.integers(0, 3)) > 0,
            "input": draw(st.sampled_from([None, "int"]))}


class Boom(Exception):
    pass


def boom(n):
    raise Boom(n)


def check_program(case, ctx):
    HOLD.clear()
    src = []
    bad, raisers = set(), set()
    for i, nd in enumerate(case["nodes"]):
        if has(nd["t"], "lit") and has_bool(nd["v"]):
            return
        v = HOLD["n%d" % i] = realize(nd["v"])
        params = ["n%d: %s" % (j, text(case["nodes"][j]["t"])) for j in nd["deps"]]
        if i == 0 and case["input"]:
            params.append("inp: int")
        src.append("def n%d(%s) -> %s:\n    _C.RAN.append(%d)\n    %sreturn _C.HOLD['n%d']\n" % (i, ", ".join(params), text(nd["t"]), i, "_C.boom(%d)\n    " % i if nd["raises"] else "", i))
    need = set()

    def up(i):
        if i not in need:
            need.add(i)
            for j in case["nodes"][i]["deps"]:
                up(j)
    for i in case["req"]:
        up(i)
    # a node is a culprit if, everything upstream of it being fine, it fails
    culprits, dead = {}, set()
    for i in sorted(need):
        nd = case["nodes"][i]
        if any(j in dead for j in nd["deps"]):
            dead.add(i)
            continue
        if case["ci"] and any(not conforms(HOLD["n%d" % j], case["nodes"][j]["t"]) for j in nd["deps"]):
            culprits[i] = "type"
        elif nd["raises"]:
            culprits[i] = "boom"
        elif case["co"] and not conforms(HOLD["n%d" % i], nd["t"]):
            culprits[i] = "type"
        if i in culprits:
            dead.add(i)
    mod = dags.make_module("\n".join(src), header=HEAD)
    try:
        del RAN[:]
        got = attempt(lambda: run(case["way"], [mod], ["n%d" % i for i in case["req"]], [lifecycle.FunctionInputOutputTypeChecker(check_input=case["ci"], check_output=case["co"])], inputs={"inp": 3} if case["input"] else {}))
        ran = list(RAN)
        if culprits:
            require(got[0] == "err", "nodes %r should have failed the run\n%s", culprits, "\n".join(src))
            e = got[1]
            ok = any((k == "boom" and isinstance(e, Boom) and e.args == (i,)) or (k == "type" and names_node(e, "n%d" % i)) for i, k in culprits.items())
            require(ok, "the error is %r (%s), but the nodes at fault are %r\n%s", e, type(e).__name__, culprits, "\n".join(src))
            for i in ran:
                require(not any(j in dead for j in case["nodes"][i]["deps"]), "n%d ran although something upstream failed (ran %r, at fault %r)", i, ran, culprits)
        else:
            require(got[0] == "ok", "nothing is wrongly typed, but: %r\n%s", got[1], "\n".join(src))
            for i in case["req"]:
                require(got[1]["n%d" % i] is HOLD["n%d" % i], "n%d = %r", i, got[1]["n%d" % i])
            require(sorted(ran) == sorted(need), "ran %r, needed %r", ran, need)
        ctx.note(*(sorted(set(culprits.values())) or ["clean"]))
        if len(need) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- decorated dataflows: checking changes nothing when everything conforms
@st.composite
def deco(draw):
    c = draw(decogen.blocks(min_n=1, max_n=6))
    c["way"] = draw(st.sampled_from(["builder", "builder", "task:nodes", "legacy"]))
    return c


def check_deco(case, ctx):
    mods = decogen.modules(case)
    try:
        cfg = {"mode": case["cfg"]}
        dr = driver.Builder().with_modules(*mods).with_config(cfg).build()
        nodes = sorted(dr.graph.nodes)
        inputs = {n: v for n, v in decogen.inputs_for(nodes).items() if dr.graph.nodes[n].user_defined and n != "mode"}
        req = [n for n in nodes if not dr.graph.nodes[n].user_defined]
        plain = attempt(lambda: run(case["way"], mods, req, [], inputs=inputs, config=cfg))
        got = attempt(lambda: run(case["way"], mods, req, [lifecycle.FunctionInputOutputTypeChecker()], inputs=inputs, config=cfg))
        require(plain[0] == "ok", "the unchecked run fails: %r", plain[1])
        require(got[0] == "ok", "type checking fails a well-typed dataflow: %r\n%s", got[1], "\n".join(decogen.render(case)))
        require(got[1] == plain[1], "type checking changed the results: %r, unchecked %r", got[1], plain[1])
        if len(case["blocks"]) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(mods)


# ---------------------------------------------------------------- parallel blocks
@st.composite
def par(draw):
    el = draw(st.sampled_from(["int", "str", "Base"]))
    t = ("leaf", el)
    n = draw(st.integers(0, 4))
    items = [draw(spec_for(t, 0)) for _ in range(n)]
    outs = [draw(spec_for(t, draw(st.sampled_from([0, 0, 0, 1])))) for _ in range(n)]
    return {"t": el, "items": items, "outs": outs, "gen": draw(st.booleans()), "mode": draw(st.sampled_from(["task", "task:blocks", "task:blocks:sync:sync", "task:blocks:sync:thread2"])), "ci": draw(st.booleans()), "co": draw(st.booleans()),
            "container": draw(st.sampled_from(["ok", "ok", "ok", "bad"]))}


def check_par(case, ctx):
    t = ("leaf", case["t"])
    HOLD.clear()
    HOLD["items"] = list(range(len(case["items"])))
    HOLD["outs"] = [realize(s) for s in case["outs"]]
    src = ("def it() -> Parallelizable[int]:\n    %s\n\ndef work(it: int) -> %s:\n    return _C.HOLD['outs'][it]\n\ndef col(work: Collect[%s]) -> int:\n    return len(list(work))\n"
           % ("return 5" if case["container"] == "bad" else "yield from _C.HOLD['items']" if case["gen"] else "return list(_C.HOLD['items'])", case["t"], case["t"]))
    mod = dags.make_module(src, header=HEAD)
    try:
        bad = (case["ci"] or case["co"]) and any(not conforms(v, t) for v in HOLD["outs"])
        got = attempt(lambda: run(case["mode"], [mod], ["col"], [lifecycle.FunctionInputOutputTypeChecker(check_input=case["ci"], check_output=case["co"])]))
        if case["container"] == "bad":
            require(got[0] == "err", "a Parallelizable node returned a number, but: %r", got)
        elif bad:
            require(got[0] == "err" and (names_node(got[1], "work") or names_node(got[1], "col")), "a wrongly typed element of %r was not flagged: %r (inputs checked %r, outputs %r)", HOLD["outs"], got, case["ci"], case["co"])
        else:
            require(got == ("ok", {"col": len(case["items"])}), "a well-typed parallel block: %r\n%s", got, src)
        ctx.note("flagged" if bad else "clean")
        if len(case["items"]) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- containers with one ill-typed element somewhere
HASHABLE = {"int": [0, 7], "str": ["a", ""], "float": [1.5, 2.5], "bytes": [b"x", b"yz"]}


@st.composite
def elements(draw):
    el = draw(st.sampled_from(["int", "str", "float", "bytes"]))
    good = [("v", x) for x in HASHABLE[el]]
    bad = ("v", draw(st.sampled_from([x for k in HASHABLE if k != el for x in HASHABLE[k]] + [None, 2j])))
    name = draw(st.sampled_from(["List", "list", "Sequence", "Iterable", "Collection", "Set", "FrozenSet", "frozenset", "Mapping", "Dict", "dict", "Tuple", "tuple"]))
    n = draw(st.sampled_from([1, 2, 3, 5, 40, 130]))
    items = [good[i % 2] for i in range(n)]
    if draw(st.integers(0, 3)):
        items[draw(st.sampled_from([0, -1, n // 2]))] = bad
    if name in ("Mapping", "Dict", "dict"):
        if draw(st.booleans()):
            t, v = ("map", name, ("leaf", el), ("leaf", "int")), ("d", [(i, ("v", 1)) for i in items])
        else:
            t, v = ("map", name, ("leaf", "int"), ("leaf", el)), ("d", [(("v", k), i) for k, i in enumerate(items)])
    elif name in ("Tuple", "tuple"):
        t, v = (("tupn", name, ("leaf", el)) if n > 5 or draw(st.booleans()) else ("tup", name, [("leaf", el)] * n)), ("c", "tuple", items)
    else:
        kind = KIND[name].__name__ if name in KIND else draw(st.sampled_from(["list", "tuple", "deque"] + (["set", "frozenset", "dict"] if name != "Sequence" else [])))
        t, v = ("seq", name, ("leaf", el)), ("d", [(i, ("v", 1)) for i in items]) if kind == "dict" else ("c", kind, items)
    w = draw(st.sampled_from(["", "", "opt", "list", "values"]))
    if w == "opt":
        t = ("opt", t)
    elif w == "list" and v[0] == "c":
        t, v = ("seq", "List", t), ("c", "list", [v])
    elif w == "values":
        t, v = ("map", "Dict", ("leaf", "str"), t), ("d", [(("v", "k"), v)])
    side = draw(st.booleans())
    anyt, one = ("leaf", "Any"), ("v", 1)
    return {"ti": t if side else anyt, "to": anyt if side else t, "vi": v if side else one, "vo": one if side else v, "way": draw(st.sampled_from(WAYS)), "ci": True, "co": True, "dflt": None}


PARTS = [
    Part("elements", elements, check_annot, quick=700, thorough=20000, rule="a container annotation", setup=setup, shards=2),
    Part("annotations", annot, check_annot, quick=4000, thorough=80000, rule="an annotation that is not a plain class", setup=setup, shards=3),
    Part("programs", program, check_program, quick=1500, thorough=40000, rule="at least two nodes run", setup=setup, shards=2),
    Part("decorated", deco, check_deco, quick=400, thorough=10000, rule="at least two functions", setup=setup),
    Part("parallel", par, check_par, quick=300, thorough=8000, rule="at least two elements", setup=setup),
]
