"""C05: graph construction depends only on the set of functions."""
import itertools, logging, typing
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from hamilton import graph_types

logging.disable(logging.CRITICAL)
LEVEL = "exploration"


def signature(dr):
    g = graph_types.HamiltonGraph.from_graph(dr.graph)
    out = {}
    for n in g.nodes:
        require(n.name not in out, "node %s appears twice", n.name)
        out[n.name] = (str(n.type), n.is_external_input, frozenset(n.required_dependencies), frozenset(n.optional_dependencies))
    names = {v.name for v in dr.list_available_variables()}
    require(names == set(out), "available variables %s differ from graph nodes %s", sorted(names), sorted(out))
    return out


# ---------------------------------------------------------------- order independence
@st.composite
def order_case(draw):
    spec = draw(dags.dag(max_fns=9, min_fns=1, max_modules=1))
    fns = spec["fns"]
    lay = []
    for _ in range(2):
        k = draw(st.integers(1, 4))
        lay.append({"n": k, "of": [draw(st.integers(0, k - 1)) for _ in fns], "order": draw(st.permutations(range(len(fns)))),
                    "mods": draw(st.permutations(range(k))),
                    "private": [draw(st.sampled_from(["", "_a", "__b", "_c1"])) for _ in range(k)],
                    "import": draw(st.booleans()), "names": draw(st.sampled_from([["m", "my", "m_2", "mm"], ["lib", "lib2", "ib", "li"], ["p1", "p10", "p", "p.q"]]))})
    inputs = {n: draw(dags.value_for(spec["inputs"][n]["type"])) for n in sorted(dags.used_inputs(spec))}
    return {"dag": spec, "layouts": lay, "inputs": inputs}


def build_layout(spec, lay, salt):
    """modules of a layout; each may hold private helpers and functions/classes imported from a foreign module or from each other."""
    mods = []
    foreign_name = "%s_%s" % ("vf%d" % salt, "x")
    names = ["vf%d_%s" % (salt, n) for n in lay["names"]]
    if lay["names"][0] == "p1":
        names = ["vf%d_p1" % salt, "vf%d_p10" % salt, "vf%d_p" % salt, "vf%d_q" % salt]
    elif lay["names"][0] == "lib":
        names = ["lib%d" % salt, "mylib%d" % salt, "lib%d_extra" % salt, "b%d" % salt]
    foreign = dags.make_module("def foreign_fn(zz_dep: int) -> int:\n    return zz_dep\n\nclass Foreign:\n    pass\n",
                               name=names[0] + "_helpers")
    out = []
    for m in range(lay["n"]):
        src = ""
        if lay["import"]:
            src += "from %s import foreign_fn, Foreign\nimport %s as foreign_mod\n" % (foreign.__name__, foreign.__name__)
        for i in lay["order"]:
            if lay["of"][i] == m:
                src += dags.fn_source(spec["fns"][i]) + "\n"
        if lay["private"][m]:
            src += "def %s(zz_private: int, q_unused) -> int:\n    return 1\n" % lay["private"][m]
        src += "class SomeClass:\n    def method(self, x: int) -> int:\n        return x\nCONST = 3\n"
        out.append(dags.make_module(src, name=names[m]))
    mods = [out[i] for i in lay["mods"]]
    if lay["import"] and len(out) > 1:
        # a module that imports a function of another module does not define it again
        for k, v in list(vars(out[0]).items()):
            if callable(v) and getattr(v, "__module__", None) == out[0].__name__ and not k.startswith("_") and not isinstance(v, type):
                setattr(out[1], k, v)
                break
    return mods, out + [foreign]


_salt = [0]


def expected_signature(spec):
    import typing as t
    ns = dict(vars(t))
    fm = dags.fn_map(spec)
    exp = {}
    for f in spec["fns"]:
        exp[f["name"]] = (str(eval(f["ret"], ns)), False,
                          frozenset(p["name"] for p in f["params"] if "default" not in p),
                          frozenset(p["name"] for p in f["params"] if "default" in p))
    for n in dags.used_inputs(spec):
        exp[n] = (str(eval(spec["inputs"][n]["type"], ns)), True, frozenset(), frozenset())
    return exp


def check_order(case, ctx):
    spec = case["dag"]
    exp = expected_signature(spec)
    allnames = [f["name"] for f in spec["fns"]]
    inputs = {k: decode(v) for k, v in case["inputs"].items()}
    want, _ = dags.ref_eval(spec, allnames, inputs)
    used = []
    try:
        for lay in case["layouts"]:
            _salt[0] += 1
            mods, every = build_layout(spec, lay, _salt[0])
            used += every
            dr = make_driver(mods, "builder")
            sig = signature(dr)
            require(set(sig) == set(exp), "nodes %s, expected %s", sorted(sig), sorted(exp))
            for n in exp:
                require(sig[n] == exp[n], "node %s is %s, expected %s", n, sig[n], exp[n])
            got = dr.execute(allnames, inputs=inputs)
            for k in want:
                require(same(got[k], want[k]), "value of %s differs", k)
            if lay["import"]:
                ctx.note("imports")
            if any(lay["private"]):
                ctx.note("private-functions")
            if lay["n"] > 1:
                ctx.note("several-modules")
        a, b = case["layouts"]
        ctx.nontrivial(len(allnames) >= 3 and (a["of"] != b["of"] or a["order"] != b["order"] or a["mods"] != b["mods"]))
    finally:
        dags.drop_modules(used)


# ---------------------------------------------------------------- duplicate definitions
@st.composite
def dup_case(draw):
    spec = draw(dags.dag(max_fns=6, min_fns=1, max_modules=1, defaults=False))
    k = draw(st.integers(2, 3))
    homes = {f["name"]: [draw(st.integers(0, k - 1))] for f in spec["fns"]}
    ndup = draw(st.integers(0, 3))
    for n in draw(st.lists(st.sampled_from(sorted(homes)), max_size=ndup, unique=True)):
        extra = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=2, unique=True))
        homes[n] = sorted(set(homes[n]) | set(extra))
    ck = draw(st.sampled_from([None, None, sorted(homes)[0]]))
    for f in spec["fns"]:
        for p in f["params"]:
            if p["name"] == ck:  # becomes an input: all consumers must then agree on its type
                p["ann"] = dags.fn_map(spec)[ck]["ret"]
    return {"dag": spec, "k": k, "homes": homes, "order": draw(st.permutations(range(k))), "allow": draw(st.booleans()),
            "legacy": draw(st.booleans()), "async": draw(st.integers(0, 2)) == 0, "calls": draw(st.integers(1, k)), "config_key": ck,
            "inputs": {n: draw(dags.value_for(spec["inputs"][n]["type"])) for n in sorted(dags.used_inputs(spec))}}


def check_dup(case, ctx):
    import asyncio
    from hamilton import async_driver, driver, base
    spec = case["dag"]
    fm = dags.fn_map(spec)
    mods = []
    for m in range(case["k"]):
        src = ""
        for f in spec["fns"]:
            if m in case["homes"][f["name"]]:
                src += dags.fn_source(dict(f, alias="%s@%d" % (f["name"], m))) + "\n"
        mods.append(dags.make_module(src))
    try:
        ordered = [mods[i] for i in case["order"]]
        ck = case["config_key"]
        config = {}
        if ck is not None:
            config = {ck: dags.node_value("cfg", fm[ck]["ret"], "normal", {})}
        dup = [n for n, h in case["homes"].items() if len(h) > 1 and n not in config]
        err = None
        try:
            if case["legacy"]:
                if case["async"]:
                    dr = async_driver.AsyncDriver(config, *ordered, result_builder=base.DictResult(), allow_module_overrides=case["allow"])
                else:
                    dr = driver.Driver(config, *ordered, adapter=base.DefaultAdapter(), allow_module_overrides=case["allow"])
            else:
                b = (async_driver if case["async"] else driver).Builder().with_config(config)
                for i in range(0, len(ordered), case["calls"]):
                    b = b.with_modules(*ordered[i:i + case["calls"]])
                if case["allow"]:
                    b = b.allow_module_overrides()
                dr = b.build_without_init() if case["async"] else b.build()
        except ValueError as e:
            err = e
        if dup and not case["allow"]:
            require(err is not None, "functions %s are defined in several modules and the build was accepted", dup)
            require(any(n in str(err) for n in dup), "error %r does not name one of %s", str(err), dup)
        else:
            if err is not None:
                raise err
            eff = dict(spec)
            eff["fns"] = [dict(f, alias="%s@%d" % (f["name"], [m for m in case["order"] if m in case["homes"][f["name"]]][-1]))
                          for f in spec["fns"] if f["name"] not in config]
            names = [f["name"] for f in spec["fns"]]
            inputs = {k: decode(v) for k, v in case["inputs"].items()}
            want, _ = dags.ref_eval(eff, names, {**inputs, **config})
            need = dags.used_inputs(eff)
            got = dr.execute(names, inputs={k: v for k, v in inputs.items() if k in need})
            if case["async"]:
                got = asyncio.run(asyncio.wait_for(got, 30))
            for n in names:
                require(same(got[n], want[n]), "node %s: expected %r (last module wins, config first), got %r", n, want[n], got[n])
            if dup:
                ctx.note("override-allowed")
        if ck:
            ctx.note("config-replaces-node")
        ctx.nontrivial(bool(dup))
        ctx.note("duplicates" if dup else "no-duplicates")
    finally:
        dags.drop_modules(mods)


# ---------------------------------------------------------------- types on edges
ATOMS = ["int", "str", "float", "bool", "bytes", "Base", "Child", "GrandChild", "Other", "object"]
SUB = {"bool": {"int"}, "Child": {"Base"}, "GrandChild": {"Base", "Child"}}


def atom():
    return st.sampled_from(ATOMS).map(lambda a: ["atom", a])


def small():
    return st.one_of(atom(), st.just(["any"]))


def container():
    return st.one_of(
        st.tuples(st.sampled_from(["list", "set", "frozenset"]), st.sampled_from(["bare", "args"]), small(), st.sampled_from(["t", "b"])).map(
            lambda t: ["gen", t[0], [t[2]] if t[1] == "args" else [], t[3]]),
        st.tuples(st.sampled_from(["bare", "args"]), small(), small(), st.sampled_from(["t", "b"])).map(
            lambda t: ["gen", "dict", [t[1], t[2]] if t[0] == "args" else [], t[3]]),
        st.tuples(st.sampled_from(["bare", "args"]), st.lists(small(), min_size=1, max_size=3), st.sampled_from(["t", "b"])).map(
            lambda t: ["gen", "tuple", t[1] if t[0] == "args" else [], t[2]]),
        st.tuples(st.sampled_from(["bare", "args"]), small()).map(
            lambda t: ["gen", "Sequence", [t[1]] if t[0] == "args" else [], "t"]),
        st.tuples(st.sampled_from(["bare", "args"]), small(), small()).map(
            lambda t: ["gen", "Mapping", [t[1], t[2]] if t[0] == "args" else [], "t"]),
    )


def one_spelling(t):
    return ["gen", t[1], t[2], "t"] if t[0] == "gen" else t


def ty():
    base = st.one_of(atom(), atom(), container())
    # one spelling of generics inside unions: unions are compared as wholes and Tuple[X] / tuple[X] are different objects
    union = st.tuples(st.one_of(st.lists(base.map(one_spelling), min_size=2, max_size=3), st.lists(base.map(one_spelling), min_size=4, max_size=8)), st.sampled_from(["t", "o"])).map(lambda t: ["union", t[0], t[1]])
    return st.one_of(base, base, union, st.just(["any"]))


TNAME = {"list": "List", "set": "Set", "frozenset": "FrozenSet", "dict": "Dict", "tuple": "Tuple", "Sequence": "Sequence", "Mapping": "Mapping"}


def render(t):
    if t[0] == "any":
        return "Any"
    if t[0] in ("atom", "tv"):
        return t[1]
    if t[0] == "gen":
        n = t[1] if t[3] == "b" and t[1] in ("list", "set", "frozenset", "dict", "tuple") else TNAME[t[1]]
        return n if not t[2] else "%s[%s]" % (n, ", ".join(render(a) for a in t[2]))
    if t[0] == "union":
        if t[2] == "o":
            return "Optional[%s]" % render(t[1][0])
        return "Union[%s]" % ", ".join(render(a) for a in t[1])


def norm(t):
    """canonical form used by the oracle"""
    if t[0] == "gen":
        return ("gen", t[1], tuple(norm(a) for a in t[2]))
    if t[0] == "union":
        mem = frozenset([norm(t[1][0]), ("atom", "NoneType")] if t[2] == "o" else [norm(a) for a in t[1]])
        if len(mem) == 1:
            return next(iter(mem))
        return ("union", mem)
    return tuple(t)


GSUB = {"list": {"Sequence"}, "tuple": {"Sequence"}, "dict": {"Mapping"}}


def compatible(p, q):
    """may a producer of type p feed a parameter of type q"""
    if q == ("any",) or p == ("any",) or p == q:
        return True
    return sub(p, q)


def sub(p, q):
    if q == ("any",):
        return True
    if p == ("any",):
        return False
    if p == q:
        return True
    if q[0] == "union":
        return any(sub(p, m) for m in q[1])
    if p[0] == "union":
        return False
    if q == ("atom", "object"):
        return True
    if p[0] == "atom" and q[0] == "atom":
        return q[1] in SUB.get(p[1], ())
    if p[0] == "gen" and q[0] == "gen":
        if p[1] != q[1] and q[1] not in GSUB.get(p[1], ()):
            return False
        if p[2] and q[2]:
            return p[2] == q[2]
        return True
    if p == ("atom", "str") or p == ("atom", "bytes"):
        if q[0] == "gen" and q[1] == "Sequence":
            return True
    return False


TYPE_HEADER = dags.HEADER + "from checks.C05 import Base, Child, GrandChild, Other, T1, T2\nfrom hamilton.htypes import Parallelizable, Collect\n"


T1, T2 = typing.TypeVar("T1"), typing.TypeVar("T2")


class Base:
    pass


class Child(Base):
    pass


class GrandChild(Child):
    pass


class Other:
    pass


@st.composite
def type_case(draw):
    p = draw(ty())
    k = draw(st.sampled_from(["indep", "same", "same-wrapped", "bare"]))
    if k == "indep":
        q = draw(ty())
    elif k == "same":
        q = p
    elif k == "same-wrapped":
        q = ["union", [one_spelling(p), draw(atom())], draw(st.sampled_from(["t", "o"]))] if p[0] != "union" else p
    else:
        q = ["gen", p[1], [], draw(st.sampled_from(["t", "b"]))] if p[0] == "gen" else p
    if draw(st.booleans()):
        p, q = q, p
    kind = draw(st.sampled_from(["edge", "edge", "edge", "input", "input", "par", "col", "tv"]))
    if kind == "tv":
        p, q = draw(st.tuples(*[st.one_of(st.sampled_from([["tv", "T1"], ["tv", "T2"]]), atom())] * 2))
    return {"p": p, "q": q, "swap": draw(st.booleans()), "kind": kind, "two": draw(st.booleans())}


def plain_union(t):
    return t


def check_types(case, ctx):
    p, q = norm(case["p"]), norm(case["q"])
    P, Q = render(case["p"]), render(case["q"])
    name = "aa" if case["two"] else "zz"
    if case["kind"] == "par":  # one item of a parallel block feeds the parameter
        if p == ("any",) and q != p:
            return  # left open
        ok = sub(p, q)
        srcs = ["def up() -> Parallelizable[%s]:\n    yield None\n" % P, "def %s(up: %s) -> int:\n    return 1\n\ndef end(%s: Collect[int]) -> int:\n    return 1\n" % (name, Q, name)]
    elif case["kind"] == "col":
        ok = sub(p, q)
        srcs = ["def it() -> Parallelizable[int]:\n    yield 1\n\ndef up(it: int) -> %s:\n    return None\n" % P, "def %s(up: Collect[%s]) -> int:\n    return 1\n" % (name, Q)]
        if p == ("any",):
            ok = True
    elif case["kind"] == "tv":
        ok = p == q if "tv" in (p[0], q[0]) else compatible(p, q)
        srcs = ["def up() -> %s:\n    return None\n" % P, "def %s(up: %s) -> int:\n    return 1\n" % (name, Q)]
    elif case["kind"] == "edge":
        ok = compatible(p, q)
        srcs = ["def up() -> %s:\n    return None\n" % P, "def %s(up: %s) -> int:\n    return 1\n" % ("aa" if case["two"] else "zz", Q)]
    else:
        ok = compatible(p, q) or compatible(q, p)
        srcs = ["def one(up: %s) -> int:\n    return 1\n" % P, "def %s(up: %s) -> int:\n    return 1\n" % ("aa" if case["two"] else "zz", Q)]
    if case["swap"]:
        srcs.reverse()
    mods = [dags.make_module(s, header=TYPE_HEADER) for s in srcs]
    try:
        err = None
        try:
            make_driver(mods, "task" if case["kind"] in ("par", "col") else "builder")
        except ValueError as e:
            err = e
        if ok:
            require(err is None, "%s: %s into %s must be accepted, got %r", case["kind"], P, Q, err)
        else:
            require(err is not None, "%s: %s into %s was accepted", case["kind"], P, Q)
            require("up" in str(err), "error does not name the node: %r", err)
        ctx.note(case["kind"], "compatible" if ok else "incompatible")
        ctx.nontrivial(p != q)
    finally:
        dags.drop_modules(mods)


@st.composite
def shared_case(draw):
    """Any, plain types and one union of them: with several unions or generic types see the known finding."""
    atoms = ["int", "str", "float", "bytes"]
    u = draw(st.lists(st.sampled_from(atoms), min_size=2, max_size=3, unique=True))
    pool = ["Any", "Any", "Union[%s]" % ", ".join(u)] + [draw(st.sampled_from(u + atoms)) for _ in range(2)]
    return {"ts": draw(st.lists(st.sampled_from(pool), min_size=3, max_size=4))}


def check_shared(case, ctx):
    """Whether several functions can share an input does not depend on the order of their modules."""
    ts = case["ts"]
    mods = [dags.make_module("def f%d(up: %s) -> int:\n    return 1\n" % (i, t), header=TYPE_HEADER) for i, t in enumerate(ts)]
    try:
        res = {}
        for order in itertools.permutations(range(len(ts))):
            try:
                make_driver([mods[i] for i in order], "builder")
                res[order] = True
            except ValueError:
                res[order] = False
        require(len(set(res.values())) == 1, "functions that take one input as %s build a dataflow in the order %s, not in the order %s", ts, [o for o in res if res[o]][:1], [o for o in res if not res[o]][:1])
        ctx.note("accepted" if res[tuple(range(len(ts)))] else "rejected")
        ctx.nontrivial(len(set(ts)) > 2)
    finally:
        dags.drop_modules(mods)


def known_several_unions():
    mods = [dags.make_module("from typing import *\ndef f%d(up: %s) -> int:\n    return 1\n" % (i, t)) for i, t in enumerate(["Union[int, str]", "int", "Union[int, float]"])]
    res = []
    for order in ((0, 1, 2), (0, 2, 1)):
        try:
            make_driver([mods[i] for i in order], "builder")
            res.append(True)
        except ValueError:
            res.append(False)
    dags.drop_modules(mods)
    return res[0] != res[1]


KNOWN = {"input-several-unions": known_several_unions}
PARTS = [
    Part("shared", shared_case, check_shared, 1500, 30000, "three or more different annotations", shards=2, tshards=4),
    Part("order", order_case, check_order, 2500, 40000, "three or more functions laid out in two different ways", shards=4, tshards=8),
    Part("duplicates", dup_case, check_dup, 3000, 40000, "some name is defined in several modules", shards=2, tshards=4),
    Part("types", type_case, check_types, 9000, 120000, "producer and consumer annotations differ", shards=3, tshards=8),
]
