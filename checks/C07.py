"""C07: parameterized nodes behave like the hand-written functions."""
import logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from hamilton import graph_types

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated decorators against the hand-substituted function"
HEADER = dags.HEADER + ("from hamilton.function_modifiers import parameterize, parameterize_sources, parameterize_values, "
                        "source, value, group, inject, does, tag\n")
# upstream nodes by type: inputs x,y,z ; functions u0,u1 ; list node lst ; dict node dct ; w: optional, never supplied
INT_UP = ["x", "y", "z", "u0", "u1"]
BASE = '''
def u0(x: int) -> int:
    return x + 100

def u1(u0: int, y: int) -> int:
    return u0 * 10 + y

def lst(x: int) -> List[int]:
    return [x, x + 1]

def dct(y: int) -> Dict[str, int]:
    return {"y": y}
'''
LITS = {"int": [0, 5, -1, None, False], "List[int]": [[], [1], [0, 2], None], "Dict[str, int]": [{}, {"a": 0}, None]}
PTYPES = ["int", "int", "int", "List[int]", "Dict[str, int]"]


@st.composite
def binding(draw, p, allow_group=True):
    t = p["ann"]
    kinds = ["source", "value"]
    if t != "int" and allow_group:
        kinds += ["group", "group"]
    k = draw(st.sampled_from(kinds))
    if k == "value":
        return {"k": "value", "v": draw(st.sampled_from(LITS[t]))}
    if k == "source":
        if t == "int":
            if "default" in p and draw(st.integers(0, 4)) == 0:
                return {"k": "source", "s": "w"}
            return {"k": "source", "s": draw(st.sampled_from(INT_UP))}
        return {"k": "source", "s": "lst" if t == "List[int]" else "dct"}
    n = draw(st.integers(1, 4))
    items = []
    for i in range(n):
        if draw(st.booleans()):
            items.append({"k": "source", "s": draw(st.sampled_from(INT_UP))})
        else:
            items.append({"k": "value", "v": draw(st.sampled_from(LITS["int"]))})
    if t == "List[int]":
        return {"k": "glist", "items": items}
    keys = draw(st.permutations(["a", "b", "x", "k1"]))[:n]
    return {"k": "gdict", "items": [[k, i] for k, i in zip(keys, items)]}


def sources_of(b):
    if b["k"] == "source":
        return [b["s"]]
    if b["k"] == "glist":
        return [i["s"] for i in b["items"] if i["k"] == "source"]
    if b["k"] == "gdict":
        return [i["s"] for _, i in b["items"] if i["k"] == "source"]
    return []


def consistent(params, mapping):
    """The same upstream may be referred to several times only if every use is required (an optional and a required
    use of one upstream, or an unmentioned parameter of that name, is documented as undefined)."""
    uses = {}
    for p in params:
        b = mapping.get(p["name"])
        srcs = [p["name"]] if b is None else sources_of(b)
        opt = "default" in p
        for s in srcs:
            uses.setdefault(s, []).append((opt, "el" if b and b["k"] in ("glist", "gdict") else p["ann"]))
    for s, u in uses.items():
        if len(u) > 1 and any(o for o, _ in u):
            return False
    # a literal for a parameter whose name is also an (unsupplied) upstream
    return True


@st.composite
def case_(draw):
    names = draw(st.permutations(["x", "y", "p", "q", "r", "u0"]))[:draw(st.integers(1, 4))]
    params = []
    for n in names:
        t = "int" if n in ("x", "y", "u0") else draw(st.sampled_from(PTYPES))
        params.append({"name": n, "ann": t})
    nd = draw(st.integers(0, len(params)))
    for p in params[len(params) - min(nd, 2):] if nd else []:
        p["default"] = draw(st.sampled_from([v for v in LITS[p["ann"]] if v is not None]))
    form = draw(st.sampled_from(["parameterize", "parameterize", "parameterize_values", "parameterize_sources", "inject"]))
    outs = {}
    onames = draw(st.permutations(["o", "o1", "o10", "o_x", "out"]))
    if form == "parameterize":
        for i in range(draw(st.integers(1, 4))):
            sub = draw(st.lists(st.sampled_from(params), unique_by=lambda p: p["name"], max_size=len(params)))
            outs[onames[i]] = {"map": {p["name"]: draw(binding(p)) for p in sub}, "doc": draw(st.sampled_from([None, "Doc %d" % i]))}
    elif form == "parameterize_values":
        p = draw(st.sampled_from(params))
        for i in range(draw(st.integers(1, 4))):
            outs[onames[i]] = {"map": {p["name"]: {"k": "value", "v": draw(st.sampled_from(LITS[p["ann"]]))}}, "doc": "Doc %d" % i}
    elif form == "parameterize_sources":
        for i in range(draw(st.integers(1, 3))):
            sub = draw(st.lists(st.sampled_from(params), unique_by=lambda p: p["name"], min_size=1, max_size=len(params)))
            m = {}
            for p in sub:
                m[p["name"]] = {"k": "source", "s": draw(st.sampled_from(INT_UP)) if p["ann"] == "int" else ("lst" if p["ann"] == "List[int]" else "dct")}
            outs[onames[i]] = {"map": m, "doc": None}
    else:
        sub = draw(st.lists(st.sampled_from(params), unique_by=lambda p: p["name"], min_size=1, max_size=len(params)))
        outs["fn"] = {"map": {p["name"]: draw(binding(p)) for p in sub}, "doc": None}
    # drop bindings that would be undefined
    for o in outs.values():
        while not consistent(params, o["map"]):
            # make all parameters required: definedness is restored by removing defaults
            for p in params:
                p.pop("default", None)
            for oo in outs.values():
                for b in oo["map"].values():
                    if b.get("s") == "w":
                        b["s"] = "z"
    # unmentioned parameters without default need an input
    need = {}
    for o in outs.values():
        for p in params:
            if p["name"] not in o["map"] and p["name"] not in ("x", "y", "u0"):
                if "default" not in p or draw(st.booleans()):
                    need[p["name"]] = draw(st.sampled_from([v for v in LITS[p["ann"]] if v is not None]))
    return {"params": params, "form": form, "outs": outs, "inputs": need, "xyz": draw(st.lists(st.sampled_from([0, 1, 7, -3]), min_size=3, max_size=3)),
            "mode": draw(st.sampled_from(["builder", "builder", "task:nodes"]))}


def rb(b):
    if b["k"] == "source":
        return "source(%r)" % b["s"]
    if b["k"] == "value":
        return "value(%r)" % (b["v"],)
    if b["k"] == "glist":
        return "group(%s)" % ", ".join(rb(i) for i in b["items"])
    return "group(%s)" % ", ".join("%s=%s" % (k, rb(i)) for k, i in b["items"])


def render(case):
    f = {"name": "fn", "params": case["params"], "ret": "int", "mode": "normal"}
    form = case["form"]
    if form == "parameterize":
        args = []
        for o, d in case["outs"].items():
            m = "{%s}" % ", ".join("%r: %s" % (p, rb(b)) for p, b in d["map"].items())
            args.append("%s=%s" % (o, "(%s, %r)" % (m, d["doc"]) if d["doc"] else m))
        dec = "@parameterize(%s)" % ", ".join(args)
    elif form == "parameterize_values":
        (p,) = {p for d in case["outs"].values() for p in d["map"]}
        items = ", ".join("%r: %r" % ((o, d["doc"]) if d["doc"] else o, d["map"][p]["v"]) for o, d in case["outs"].items())
        dec = "@parameterize_values(parameter=%r, assigned_output={%s})" % (p, items)
    elif form == "parameterize_sources":
        dec = "@parameterize_sources(%s)" % ", ".join("%s=dict(%s)" % (o, ", ".join("%s=%r" % (p, b["s"]) for p, b in d["map"].items())) for o, d in case["outs"].items())
    else:
        dec = "@inject(%s)" % ", ".join("%s=%s" % (p, rb(b)) for p, b in case["outs"]["fn"]["map"].items())
    return dags.fn_source(f, [dec])


def check(case, ctx):
    src = BASE + render(case)
    mod = dags.make_module(src, header=HEADER)
    try:
        env = dict(zip("xyz", case["xyz"]))
        inputs = {**env, **case["inputs"]}
        env["u0"] = env["x"] + 100
        env["u1"] = env["u0"] * 10 + env["y"]
        env["lst"] = [env["x"], env["x"] + 1]
        env["dct"] = {"y": env["y"]}
        env.update(case["inputs"])
        dr = make_driver([mod], case["mode"])
        nodes = {n.name: n for n in graph_types.HamiltonGraph.from_graph(dr.graph).nodes}
        fnodes = {n for n, v in nodes.items() if not v.is_external_input}
        require(fnodes == {"u0", "u1", "lst", "dct"} | set(case["outs"]), "nodes %s", sorted(fnodes))
        want, deps = {}, {}
        for o, d in case["outs"].items():
            kw, dd = {}, set()
            for p in case["params"]:
                b = d["map"].get(p["name"])

                def one(x):
                    return env[x["s"]] if x["k"] == "source" else x["v"]
                if b is None:
                    dd.add(p["name"])
                    if p["name"] in env:
                        kw[p["name"]] = env[p["name"]]
                    else:
                        kw[p["name"]] = p["default"]
                elif b["k"] == "source" and b["s"] == "w":
                    dd.add("w")
                    kw[p["name"]] = p["default"]
                else:
                    dd.update(sources_of(b))
                    if b["k"] in ("source", "value"):
                        kw[p["name"]] = one(b)
                    elif b["k"] == "glist":
                        kw[p["name"]] = [one(i) for i in b["items"]]
                    else:
                        kw[p["name"]] = {k: one(i) for k, i in b["items"]}
            want[o] = dags.node_value("fn", "int", "normal", kw)
            deps[o] = dd
        for o in want:
            got = nodes[o].required_dependencies | nodes[o].optional_dependencies
            require(got == deps[o], "node %s depends on %s, expected %s", o, sorted(got), sorted(deps[o]))
            if case["outs"][o]["doc"]:
                require(nodes[o].documentation == case["outs"][o]["doc"], "documentation of %s is %r", o, nodes[o].documentation)
        names = sorted(want)
        inputs = {k: v for k, v in inputs.items() if k in nodes}
        for rnd in range(2):
            REC.reset()
            got = dr.execute(names + (["u1"] if rnd else []), inputs=inputs)
            for o in names:
                require(same(got[o], want[o]), "node %s: the hand-written function gives %r, the decorated one %r (calls %s)", o, want[o], got[o], REC.calls)
            require(len(REC.calls) == len(names), "%d calls for %d generated nodes", len(REC.calls), len(names))
        # a single one of them, alone
        for o in names:
            got = dr.execute([o], inputs=inputs)
            require(same(got[o], want[o]), "node %s requested alone: %r instead of %r", o, got[o], want[o])
        ctx.note("form:" + case["form"])
        kinds = {b["k"] for d in case["outs"].values() for b in d["map"].values()}
        ctx.note(*["binding:" + k for k in kinds])
        if any(b.get("s") in {p["name"] for p in case["params"]} for d in case["outs"].values() for b in d["map"].values()):
            ctx.note("source-named-like-parameter")
        if any("default" in p for p in case["params"]):
            ctx.note("defaults")
        ctx.nontrivial(len(kinds) >= 2 or len(names) >= 2)
    finally:
        dags.drop_modules([mod])


# ----------------------------------------------------------------------------- does
@st.composite
def does_case(draw):
    names = draw(st.permutations(["x", "y", "p", "q"]))[:draw(st.integers(1, 4))]
    params = [{"name": n, "ann": "int"} for n in names]
    for p in params[len(params) - draw(st.integers(0, min(2, len(params)))):] if draw(st.booleans()) else []:
        p["default"] = draw(st.sampled_from([0, 3]))
    mapping = {}
    for new in draw(st.lists(st.sampled_from(["a", "b"]), unique=True, max_size=2)):
        free = [n for n in names if n not in mapping.values()]
        if free:
            mapping[new] = draw(st.sampled_from(free))
    sup = {p["name"]: draw(st.sampled_from([0, 1, 9])) for p in params if "default" not in p or draw(st.booleans())}
    return {"params": params, "mapping": mapping, "inputs": sup}


def check_does(case, ctx):
    src = "def _impl(**kwargs) -> int:\n    return _REC.call('impl', 'int', 'normal', kwargs)\n\n"
    ps = ", ".join("%s: int%s" % (p["name"], " = %r" % p["default"] if "default" in p else "") for p in case["params"])
    src += "@does(_impl%s)\ndef fn(%s) -> int:\n    '''doc'''\n    pass\n" % ("".join(", %s=%r" % kv for kv in case["mapping"].items()), ps)
    mod = dags.make_module(src, header=HEADER)
    try:
        dr = make_driver([mod], "builder")
        back = {v: k for k, v in case["mapping"].items()}
        kw = {back.get(p["name"], p["name"]): case["inputs"].get(p["name"], p.get("default")) for p in case["params"]}
        got = dr.execute(["fn"], inputs=case["inputs"])["fn"]
        want = dags.node_value("impl", "int", "normal", kw)
        require(same(got, want), "@does: expected the replacing function applied to %s", kw)
        ctx.nontrivial(bool(case["mapping"]))
    finally:
        dags.drop_modules([mod])


PARTS = [Part("parameterize", case_, check, 7000, 100000, "two or more generated nodes or two or more kinds of binding", shards=7, tshards=8),
         Part("does", does_case, check_does, 800, 10000, "an argument mapping is used", shards=1, tshards=2)]
