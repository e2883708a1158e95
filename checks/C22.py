"""C22: code versions track behaviour, not layout."""
import json, logging, os, re, shutil, subprocess, sys, tempfile
from hypothesis import strategies as st
from hamilton import driver, graph_types
from vlib.core import Part, Violation, require, HarnessError
from vlib import dags, srcgen as S

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated function sources, layout edits and syntax-tree edits; equality of versions against equality of syntax trees, also across processes"
HEADER = "from typing import *\nfrom hamilton.function_modifiers import *\n\n"
SRV = []


def setup():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = tempfile.mkdtemp(prefix="c22srv", dir=os.environ.get("VERIF_SCRATCH") or None)
    import atexit
    atexit.register(shutil.rmtree, d, True)
    p = subprocess.Popen([sys.executable, os.path.join(root, "vlib", "verserver.py"), json.dumps([x for x in sys.path if x]), d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONHASHSEED="5"), cwd="/")
    if p.stdout.readline().strip() != "ready":
        raise RuntimeError("version server did not start")
    SRV.append(p)


def elsewhere(src, config):
    p = SRV[0]
    p.stdin.write(json.dumps({"src": src, "config": config}) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


CONFIG = {"cfg": 1}


def versions(*srcs):
    ms = [dags.make_module(src, header="") for src in srcs]
    try:
        dr = driver.Builder().with_modules(*ms).with_config(CONFIG).build()
        return {v.name: v.version for v in dr.list_available_variables()}, graph_types.HamiltonGraph.from_graph(dr.graph).version
    finally:
        dags.drop_modules(ms)


@st.composite
def case_(draw):
    names = ["f0", "f1", "f2"][:draw(st.integers(1, 3))]
    avail, srcs = ["u", "w"], []
    for n in names:
        srcs.append(draw(S.function(n, avail)))
    edits = []
    for s in srcs:
        e = {"layout": draw(st.lists(st.integers(0, 34), min_size=1, max_size=8)), "doc": draw(st.sampled_from(["keep", "keep", None, "other doc", "doc\n    on two lines # x"])), "unparse": draw(st.integers(0, 3)) == 0}
        edits.append(e)
    return {"srcs": srcs, "edits": edits, "order": draw(st.permutations(list(range(len(names))))), "pick": draw(st.integers(0, 10 ** 6)), "which": draw(st.integers(0, len(names) - 1)), "head": draw(st.sampled_from(["", "# a new header\n\n", "X = 1\n"]))}


def check(case, ctx):
    import ast
    srcs = case["srcs"]
    base, gbase = versions(HEADER + "\n\n".join(srcs))
    fns = ["f%d" % i for i in range(len(srcs))]
    require(all(base[f] for f in fns), "a node has no version: %s", base)
    # layout only
    new = []
    for s, e in zip(srcs, case["edits"]):
        t = S.layout_edit(s, e["layout"])
        if e["doc"] != "keep":
            t = S.doc_edit(t, e["doc"])
        if e["unparse"]:
            t = ast.unparse(ast.parse(t)) + "\n"
        if S.meaning(t) != S.meaning(s):
            raise HarnessError("layout edit changed the meaning of %s into %s" % (s, t))
        new.append(t)
    text = HEADER + case["head"] + "\n\n\n".join(new[i] for i in case["order"])
    lay, glay = versions(text)
    require(lay == base, "versions changed with layout only: %s -> %s\n%s\n->\n%s", base, lay, "\n".join(srcs), text)
    require(glay == gbase, "the graph's version changed with layout only\n%s\n->\n%s", "\n".join(srcs), text)
    if len(srcs) > 1:  # the functions spread over modules, in any order
        spread, gspread = versions(*[HEADER + new[i] for i in case["order"]])
        require([spread[f] for f in fns] == [base[f] for f in fns], "versions changed when the functions were spread over modules: %s -> %s", base, spread)
        # an external input has no code of its own (its version is that of one of its users), so it says nothing
        # about the graph when several functions use it
        if all(sum(bool(re.search(r"\b%s\b" % x, s)) for s in srcs) < 2 for x in base if x not in fns):
            require(gspread == gbase, "the graph's version changed when the functions were spread over modules in the order %s", case["order"])
            ctx.note("spread over modules")
    # another process, a real file
    o = elsewhere(HEADER + "\n\n".join(srcs), CONFIG)
    require("error" not in o, "the server failed: %s", o)
    require(o["nodes"] == base and o["graph"] == gbase, "another process computes versions %s, this one %s", o, (base, gbase))
    # a behavioural edit of one function changes the version of its node only
    w = case["which"]
    eds = [(a, b) for a, b in S.behaviour_edits(srcs[w]) if S.meaning(b) != S.meaning(srcs[w])]
    if eds:
        what, t = eds[case["pick"] % len(eds)]
        try:
            ch, gch = versions(HEADER + "\n\n".join(t if i == w else s for i, s in enumerate(srcs)))
        except Exception:
            ctx.note("edit not buildable: " + what)
            ch = None
        if ch is not None:
            f = "f%d" % w
            if f in ch:
                require(ch[f] != base[f], "the version of %s did not change with an edit (%s):\n%s\n->\n%s", f, what, srcs[w], t)
                require(gch != gbase, "the version of the graph did not change with an edit (%s) of %s", what, f)
            for g in fns:
                if g != f:
                    require(ch[g] == base[g], "the version of %s changed with an edit of %s (%s)", g, f, what)
            ctx.note(what)
            ctx.nontrivial()


# ---------------------------------------------------------------- nodes created by decorators
DEC = {
    "parameterize": ("@parameterize(a1=dict(k=value({v})), a2=dict(k=value(7)))\ndef a(u: int, k: int) -> int:\n    return u + k + {w}\n", ["a1", "a2"]),
    "fields": ("@extract_fields(dict(x=int, y=int))\ndef a(u: int) -> dict:\n    return {{'x': u + {v}, 'y': {w}}}\n", ["a", "x", "y"]),
    "subdag": ("def inner(q: int) -> int:\n    return q + {v}\n\n@subdag(inner, inputs={{'q': source('u')}})\ndef a(inner: int) -> int:\n    return inner + {w}\n", ["a.inner", "a"]),
    "pipe": ("def _s(x: int, k: int) -> int:\n    return x + k\n\n@pipe_output(step(_s, k=value({v})))\ndef a(u: int) -> int:\n    return u + {w}\n", ["a"]),
    "when": ("@config.when(cfg=1)\ndef a__one(u: int) -> int:\n    return u + {v}\n\n@config.when(cfg=2)\ndef a__two(u: int) -> int:\n    return u + {w}\n", ["a"]),
}


@st.composite
def dec_case(draw):
    return {"deco": draw(st.sampled_from(sorted(DEC))), "v": draw(st.integers(0, 3)), "w": draw(st.integers(0, 3)), "v2": draw(st.integers(0, 3)), "w2": draw(st.integers(0, 3)), "comment": draw(st.booleans())}


def check_dec(case, ctx):
    t, nodes = DEC[case["deco"]]
    a, ga = versions(HEADER + t.format(v=case["v"], w=case["w"]))
    b, gb = versions(HEADER + ("# note\n" if case["comment"] else "") + t.format(v=case["v2"], w=case["w2"]).replace(":\n", ":  # c\n" if case["comment"] else ":\n"))
    same = (case["v"], case["w"]) == (case["v2"], case["w2"])
    d = case["deco"]
    for n in nodes:
        own = same
        if d == "subdag":
            own = case["v"] == case["v2"] if n == "a.inner" else case["w"] == case["w2"]
        if d == "when":
            own = case["v"] == case["v2"]
        require(bool(a[n]), "no version for %s", n)
        require((a[n] == b[n]) == own, "%s: version of %s %s", d, n, "changed although nothing it is made of did" if own else "did not change with its function")
    ctx.nontrivial(not same)


PARTS = [Part("edits", case_, check, 1500, 16000, "a behavioural edit of one of the functions could be built", shards=5, tshards=6, setup=setup),
         Part("decorated", dec_case, check_dec, 200, 1500, "the function differs", shards=1, tshards=2)]
