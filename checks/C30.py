"""C30: tags and metadata reach exactly the nodes they name."""
import json, logging
from hypothesis import strategies as st
import pandas as pd
from hamilton import driver, registry
from hamilton.function_modifiers import tag
from hamilton.function_modifiers.base import InvalidDecoratorException
from hamilton.lifecycle import api as lapi
from vlib.core import Part, require
from vlib import dags, decogen

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated stacks of metadata and node-generating decorators against the same function without metadata plus a model of targets; generated tag sets and queries against a filter model"

HEADER = decogen.HEADER + """import pandas as pd
from hamilton.function_modifiers import schema, cache, tag_outputs, dataloader, datasaver, save_to, load_from
from hamilton.function_modifiers.metadata import ray_remote_options
"""


def setup():
    registry.load_extension("pandas")


# ---------------------------------------------------------------- functions that make nodes
# kind: (decorators of the function, helper code before, function source, helper code after, final nodes, is a frame)
def shape(kind):
    st_ = "def _st(x: int, y: int) -> int:\n    return _h('st', x, y)\n\n"
    inner = "def _mk():\n    def p(j: int) -> int:\n        return _h('p', j)\n\n    def q(p: int, w: int) -> int:\n        return _h('q', p, w)\n\n    def z(p: int) -> int:\n        return 1\n    return p, q, z\n\n"
    fn = 'def f(i: int, j: int) -> int:\n    """doc"""\n    return _h("f", i, j)\n'
    df = 'def f(i: int) -> pd.DataFrame:\n    """doc"""\n    return pd.DataFrame({"c0": [i, 2], "c1": [3, i]})\n'
    return {
        "plain": ([], "", fn, "", {"f"}),
        "tagged": (["@tag(owner='base', other=['u', 'v'])"], "", fn, "", {"f"}),
        "fields": (["@extract_fields({'fa': int, 'fb': int})"], "", 'def f(i: int) -> dict:\n    return {"fa": i, "fb": i + 1}\n', "", {"fa", "fb"}),
        "param": (["@parameterize(p={'u': source('i'), 'w': value(3)}, q={'u': value(2), 'w': source('j')})"], "", 'def f(u: int, w: int) -> int:\n    """doc"""\n    return _h("f", u, w)\n', "", {"p", "q"}),
        "chain_param": (["@parameterize(p={'u': source('i')}, q={'u': source('p')})"], "", 'def f(u: int) -> int:\n    """doc"""\n    return _h("f", u)\n', "", {"q"}),
        "inject": (["@inject(u=group(source('i'), source('j')))"], "", "def f(u: List[int]) -> int:\n    return _h('f', u)\n", "", {"f"}),
        "does": (["@does(_does)"], "def _does(**kw: int) -> int:\n    return _h('d', sorted(kw.items()))\n\n", "def f(i: int, j: int) -> int:\n    pass\n", "", {"f"}),
        "pipe_out": (["@pipe_output(step(_st, y=source('j')), step(_st, y=4))"], st_, fn, "", {"f"}),
        "pipe_in": (["@pipe_input(step(_st, y=source('j')), step(_st, y=4))"], st_, fn, "", {"f"}),
        "pipe_ns": (["@pipe_output(step(_st, y=1).named('one', namespace='sp'), step(_st, y=2).named('two', namespace='sp'))"], st_, fn, "", {"f"}),
        "check": (["@check_output_custom(Even(importance='warn'))"], "", fn, "", {"f"}),
        "check_fields": (["@check_output_custom(Even(importance='warn'), target_='fa')", "@extract_fields({'fa': int, 'fb': int})"], "", 'def f(i: int) -> dict:\n    return {"fa": i, "fb": i + 1}\n', "", {"fa", "fb"}),
        "subdag": (["@subdag(*_mk(), inputs={'w': source('i')})"], inner, "def f(q: int) -> int:\n    return _h('f', q)\n", "", {"f"}),
        "psubdag": (["@parameterized_subdag(*_mk(), inputs={'w': source('i')}, s={'inputs': {'j': source('i')}}, t={'inputs': {'j': value(3)}})"], inner, "def f(q: int) -> int:\n    return _h('f', q)\n", "", {"s", "t"}),
        "config": (["@config.when(mode='A')"], "", fn.replace("def f(", "def f__a("), "\n@config.when(mode='B')\ndef f__b(i: int) -> int:\n    return 1\n", {"f"}),
        "mutate": ([], "", fn, "\n@mutate(apply_to(f), z=source('j'))\ndef _mut(v: int, z: int) -> int:\n    return _h('mut', v, z)\n", {"f"}),
        "dataloader": (["@dataloader()"], "", "def f(i: int) -> Tuple[int, dict]:\n    return i, {'m': 1}\n", "", {"f"}),
        "datasaver": (["@datasaver()"], "", "def f(i: int) -> dict:\n    return {'m': 1}\n", "", {"f"}),
        "save_to": (["@save_to.memory(output_name_='mem')"], "", fn, "", {"mem"}),
        "load_from": (["@load_from.literal(value=value(5), inject_='i')"], "", fn, "", {"f"}),
        "df": ([], "", df, "", {"f"}),
        "columns": (["@extract_columns('c0', ('c1', 'doc c1'))"], "", df, "", {"c0", "c1"}),
        "df_param": (["@parameterize(p={'i': source('j')}, q={'i': value(3)})"], "", df, "", {"p", "q"}),
        "df_check": (["@check_output_custom(Even(importance='warn'))"], "", df, "", {"f"}),
    }[kind]


KINDS = ["plain", "tagged", "fields", "param", "chain_param", "inject", "does", "pipe_out", "pipe_in", "pipe_ns", "check", "check_fields", "subdag", "psubdag", "config", "mutate", "dataloader", "datasaver", "save_to", "load_from", "df", "columns", "df_param", "df_check"]
KEYS = ["owner", "other", "a.b", "team", "cache", "x"]
VALS = ["a", "b", "", "a,b", "ü", ["a"], ["a", "b"], ["b", "a", "c"]]


@st.composite
def stack_case(draw):
    kind = draw(st.sampled_from(KINDS))
    n = len(shape(kind)[0])
    decos = []
    for _ in range(draw(st.integers(1, 4))):
        what = draw(st.sampled_from(["tag", "tag", "tag", "tag", "outputs", "outputs", "cache", "ray", "schema"]))
        d = {"what": what, "pos": draw(st.integers(0, n)), "target": draw(st.sampled_from(["none", "none", "all", "one", "some", "missing" if draw(st.booleans()) else "none"])), "pick": draw(st.lists(st.integers(0, 20), min_size=1, max_size=3))}
        if what in ("tag", "outputs"):
            d["tags"] = [draw(st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALS), min_size=1, max_size=3)) for _ in range(3)]
        elif what == "cache":
            d["behavior"] = draw(st.sampled_from([None, "default", "recompute", "ignore", "disable"]))
            d["format"] = draw(st.sampled_from([None, "json", "pickle"]))
            d["default_target"] = draw(st.booleans())
        elif what == "ray":
            d["opts"] = draw(st.sampled_from([{"num_cpus": 1}, {"num_gpus": 2, "resources": {"r": 1}}]))
        else:
            d["fields"] = draw(st.lists(st.sampled_from([("c0", "int"), ("c1", "str"), ("c2", "float")]), min_size=1, max_size=3, unique=True))
        decos.append(d)
    if sum(d["what"] == "schema" for d in decos) > 1:
        decos = [d for d in decos if d["what"] != "schema"] + [next(d for d in decos if d["what"] == "schema")]
    return {"kind": kind, "decos": decos}


class Rec(lapi.NodeExecutionHook):
    def __init__(self):
        self.seen = {}

    def run_before_node_execution(self, *, node_name, node_tags, **kw):
        self.seen[node_name] = dict(node_tags)

    def run_after_node_execution(self, **kw):
        pass


def build(src, cfg):
    mod = dags.make_module(src, header=HEADER, name="vtagmod")
    rec = Rec()
    return mod, rec, driver.Builder().with_modules(mod).with_config(cfg).with_adapters(rec).build()


def facts(v):
    return (repr(v.type), v.is_external_input, sorted(v.required_dependencies), sorted(v.optional_dependencies), v.documentation, [g.__name__ for g in v.originating_functions or ()])


def same(a, b):
    if isinstance(a, pd.DataFrame):
        return a.equals(b)
    if isinstance(a, pd.Series):
        return a.equals(b)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and (a == b or repr(a) == repr(b) or hasattr(a, "passes"))


def check_stack(case, ctx):
    kind = case["kind"]
    decos, pre, fn, post, final = shape(kind)
    by = "def by(i: int) -> int:\n    return _h('by', i)\n\n@tag(owner='bystander')\ndef by2(by: int) -> int:\n    return by\n\n"
    users = "".join("def use_%d(u: %s, by: int) -> int:\n    return 1\n\n".replace("u:", n + ":") % (k, "Any") for k, n in enumerate(sorted(final)))
    cfg = {"mode": "A", "hamilton.enable_power_user_mode": True}
    plain = by + pre + "\n".join(decos) + "\n" + fn + post + "\n" + users
    mod, rec, dr = build(plain, cfg)
    mods = [mod]
    try:
        base = {v.name: v for v in dr.list_available_variables()}
        mine = {n for n in base if not base[n].is_external_input and n not in ("by", "by2") and not n.startswith("use_")}
        # the model of finality
        sinks = {n for n in mine if not any(n in set(base[m].required_dependencies) | set(base[m].optional_dependencies) for m in mine)}
        if kind not in ("subdag", "psubdag"):
            require(sinks == final, "harness: sinks %r, final %r", sinks, final)
        # the decorated one
        lines = [[] for _ in range(len(decos) + 1)]
        expected = {n: dict(base[n].tags) for n in base}
        refuse = False
        names = sorted(mine)
        todo = []
        for d in case["decos"]:
            t, pick = d["target"], sorted({names[i % len(names)] for i in d["pick"]})
            if d["what"] == "outputs":
                mapping = {n: d["tags"][k] for k, n in enumerate(pick)}
                if t == "missing":
                    mapping["nosuch"] = {"x": "y"}
                todo.append((d["pos"], "@tag_outputs(**%r)" % mapping, {n: mapping[n] for n in pick}, False))
                continue
            targ, sel = {"none": ("None", final), "all": ("...", mine), "one": (repr(pick[0]), {pick[0]}), "some": (repr(pick if d["pick"][0] % 2 else tuple(pick)), set(pick)), "missing": (repr(["nosuch"] + pick), None)}[t]
            if d["what"] == "tag":
                todo.append((d["pos"], "@tag(target_=%s, **%r)" % (targ, d["tags"][0]), None if sel is None else {n: d["tags"][0] for n in sel}, False))
            elif d["what"] == "cache":
                tags = {k: v for k, v in (("cache.behavior", d["behavior"]), ("cache.format", d["format"])) if v}
                dt = d["default_target"]
                todo.append((d["pos"], "@cache(behavior=%r, format=%r%s)" % (d["behavior"], d["format"], "" if dt else ", target_=%s" % targ), None if sel is None and not dt else {n: tags for n in (mine if dt else sel)}, False))
            elif d["what"] == "ray":
                todo.append((d["pos"], "@ray_remote_options(**%r)" % d["opts"], {n: {"ray_remote." + k: json.dumps(v) for k, v in d["opts"].items()} for n in final}, False))
            else:
                tags = {"hamilton.internal.schema_output": ",".join("%s=%s" % f for f in d["fields"])}
                todo.append((d["pos"], "@schema.output(%s, target_=%s)" % (", ".join(map(repr, d["fields"])), targ), None if sel is None else {n: tags for n in sel}, True))
        # bottom-most decorators are applied first
        order = [x for p in range(len(decos), -1, -1) for x in [y for y in todo if y[0] == p]]
        out = []
        for p in range(len(decos) + 1):
            out += [x[1] for x in reversed([y for y in todo if y[0] == p])]
            if p < len(decos):
                out.append(decos[p])
        own = [x for x in decos if x.startswith("@tag(")]
        if own:  # kind "tagged": its own tags sit at decorator position 0
            for n in mine:
                expected[n] = {k: v for k, v in expected[n].items() if k not in ("owner", "other")}
            k0 = [x for x in order if x[0] >= 1]
            order = k0 + [(0, own[0], {"f": {"owner": "base", "other": ["u", "v"]}}, False)] + [x for x in order if x[0] == 0]
        for _, text, upd, needs_frame in order:
            if upd is None:
                refuse = True
                continue
            for n, tags in upd.items():
                if needs_frame and base[n].type is not pd.DataFrame:
                    refuse = True
                expected[n].update(tags)
        src = by + pre + "\n".join(out) + "\n" + fn + post + "\n" + users
        try:
            mod2, rec2, dr2 = build(src, cfg)
        except InvalidDecoratorException as e:
            require(refuse, "refused: %s\n%s", e, src)
            ctx.note("refused")
            return
        mods.append(mod2)
        require(not refuse, "a target that does not exist, or a schema on something that is no frame, was accepted\n%s", src)
        got = {v.name: v for v in dr2.list_available_variables()}
        require(got.keys() == base.keys(), "nodes %r, without the metadata %r\n%s", sorted(got), sorted(base), src)
        for n in base:
            require(got[n].tags == expected[n], "%s has tags %r, expected %r\n%s", n, got[n].tags, expected[n], src)
            require(facts(got[n]) == facts(base[n]), "%s: %r, without the metadata %r\n%s", n, facts(got[n]), facts(base[n]), src)
        ask = sorted(n for n in base if not base[n].is_external_input)
        inputs = {n: 4 for n in base if base[n].is_external_input and n not in cfg}
        r, r2 = dr.execute(ask, inputs=inputs), dr2.execute(ask, inputs=inputs)
        for n in ask:
            require(same(r[n], r2[n]), "%s is %r, without the metadata %r\n%s", n, r2[n], r[n], src)
            require(rec2.seen.get(n) == expected[n], "hooks see the tags %r of %s, they are %r", rec2.seen.get(n), n, expected[n])
        # every view of the graph agrees
        for v in dr2.what_is_upstream_of(*sorted(final)):
            require(v.tags == expected[v.name], "what_is_upstream_of: %s has tags %r, expected %r", v.name, v.tags, expected[v.name])
        ctx.note(kind)
        if len(mine) > 1 or len(order) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(mods)


# ---------------------------------------------------------------- queries
@st.composite
def query_case(draw):
    val = st.sampled_from(["a", "b", "ab", "", ["a"], ["a", "b"], ["b", "c"], ["ab"]])
    keys = st.sampled_from(["k", "kk", "n.k", "module"])
    fns = [draw(st.dictionaries(st.sampled_from(["k", "kk", "n.k"]), val, max_size=3)) for _ in range(draw(st.integers(1, 5)))]
    qv = st.one_of(st.none(), val, st.sampled_from(["vtagmod", ["vtagmod", "z"], []]), st.sampled_from([3, ("a",)]))
    return {"fns": fns, "queries": draw(st.lists(st.dictionaries(keys, qv, max_size=3), min_size=1, max_size=6))}


def matches(tags, q):
    for k, v in q.items():
        if k not in tags:
            return False
        have = tags[k] if isinstance(tags[k], list) else [tags[k]]
        if v is not None and not any(x in have for x in (v if isinstance(v, list) else [v])):
            return False
    return True


def check_query(case, ctx):
    src = "".join(("@tag(**%r)\n" % t if t else "") + "def f%d(%s) -> int:\n    return 1\n\n" % (k, "f%d: int" % (k - 1) if k else "i: int") for k, t in enumerate(case["fns"]))
    mod = dags.make_module(src, header=HEADER, name="vtagmod")
    try:
        dr = driver.Builder().with_modules(mod).build()
        tags = {"f%d" % k: dict(t, module="vtagmod") for k, t in enumerate(case["fns"])}
        tags["i"] = {}
        hits = 0
        for q in case["queries"]:
            keep = json.dumps(q, default=repr)
            bad = any(not (v is None or isinstance(v, str) or (isinstance(v, list) and v)) for v in q.values())
            try:
                got = sorted(v.name for v in dr.list_available_variables(tag_filter=q))
            except ValueError as e:
                require(bad, "query %r refused: %s", q, e)
                continue
            require(not bad, "query %r was accepted", q)
            want = sorted(n for n in tags if matches(tags[n], q))
            require(got == want, "query %r gives %r, expected %r; tags %r", q, got, want, tags)
            require(json.dumps(q, default=repr) == keep, "the query was modified: %r", q)
            hits += 0 < len(want) < len(tags)
        if hits:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- which tags are legal
COMP = st.one_of(st.sampled_from(["a", "hamilton", "module", "dag", "gdpr", "ccpa", "data_quality", "ray_remote", "hamiltonian", "_x", "ü", "", "1a", "a b", "a-b", "class"]), st.text(max_size=4))


@st.composite
def legal_case(draw):
    key = ".".join(draw(st.lists(COMP, min_size=1, max_size=3)))
    value = draw(st.one_of(st.text(max_size=3), st.lists(st.one_of(st.text(max_size=1), st.sampled_from(["a", "b"])), max_size=3), st.sampled_from([1, None, True, ["a", 1], ("a",), {"a": 1}, b"a", ["a", "a"]])))
    return {"key": key, "value": value if not isinstance(value, bytes) else "bytes", "bypass": draw(st.integers(0, 3)) == 0}


RESERVED = {"hamilton", "data_quality", "gdpr", "ccpa", "dag", "module", "ray_remote"}


def check_legal(case, ctx):
    key, value = case["key"], case["value"]
    ok = all(c.isidentifier() for c in key.split(".")) and (case["bypass"] or key.split(".")[0] not in RESERVED)
    ok = ok and (isinstance(value, str) or (isinstance(value, list) and len(value) > 0 and all(isinstance(v, str) for v in value) and len(set(value)) == len(value)))
    if key in ("target_", "bypass_reserved_namespaces_", "self"):
        return

    def f(i: int) -> int:
        return i

    try:
        g = tag(bypass_reserved_namespaces_=case["bypass"], **{key: value})(f)
    except Exception as e:
        require(not ok, "tag %r=%r refused: %s", key, value, e)
    else:
        require(ok, "tag %r=%r accepted", key, value)
        require(g(3) == 3, "the decorated function no longer works")
    ctx.nontrivial(case)


# ---------------------------------------------------------------- documentation
@st.composite
def doc_case(draw):
    doc = draw(st.sampled_from([None, "doc", "{u} of {output_name}", "{w}", "plain {u}-{w}-{nothing}", ""]))
    return {"doc": doc, "kind": draw(st.sampled_from(["param", "values", "sources", "columns", "fields", "plain", "config", "inject", "check", "pipe_out"])), "own": draw(st.booleans()), "lit": draw(st.integers(0, 9)), "own2": draw(st.booleans())}


def check_doc(case, ctx):
    kind, doc = case["kind"], case["doc"]
    body = lambda sig, ret, b: "def f(%s) -> %s:\n%s    %s\n" % (sig, ret, "" if doc is None else "    %r\n" % doc, b)
    fmt = lambda name, **kw: None if doc is None else doc.replace("{u}", str(kw["u"])).replace("{w}", str(kw.get("w", "w"))).replace("{output_name}", name).replace("{nothing}", "nothing")
    want = {}
    if kind == "param":
        p = "({'u': source('i'), 'w': value(%d)}, 'own doc')" % case["lit"] if case["own"] else "{'u': source('i'), 'w': value(%d)}" % case["lit"]
        src = "@parameterize(p=%s, q={'u': value(7), 'w': source('j')})\n" % p + body("u: int, w: int", "int", "return 1")
        want = {"p": "own doc" if case["own"] else fmt("p", u="i", w=case["lit"]), "q": fmt("q", u=7, w="j")}
    elif kind == "values":
        src = "@parameterize_values('u', {('p', 'dp'): 1, ('q', 'dq'): 2})\n" + body("u: int, w: int", "int", "return 1")
        want = {"p": "dp", "q": "dq"}
    elif kind == "sources":
        src = "@parameterize_sources(p=dict(u='i'), q=dict(u='j'))\n" + body("u: int, w: int", "int", "return 1")
        want = {"p": fmt("p", u="i"), "q": fmt("q", u="j")}
    elif kind == "columns":
        src = "@extract_columns(%s, %s)\n" % ("('c0', 'd0')" if case["own"] else "'c0'", "('c1', 'd1')" if case["own2"] else "'c1'") + body("i: int", "pd.DataFrame", "return 1")
        want = {"f": doc, "c0": "d0" if case["own"] else doc, "c1": "d1" if case["own2"] else doc}
    elif kind == "fields":
        src = "@extract_fields({'fa': int, 'fb': int})\n" + body("i: int", "dict", "return 1")
        want = {"f": doc, "fa": doc, "fb": doc}
    elif kind == "config":
        src = "@config.when(mode='A')\n" + body("i: int", "int", "return 1").replace("def f(", "def f__x(")
        want = {"f": doc}
    elif kind == "inject":
        src = "@inject(u=source('j'))\n" + body("u: int", "int", "return 1")
        want = {"f": fmt("f", u="j")}
    elif kind == "check":
        src = "@check_output_custom(Even(importance='warn'))\n" + body("u: int", "int", "return 1")
        want = {"f": doc}
    elif kind == "pipe_out":
        src = "def _st(x: int) -> int:\n    'step doc'\n    return 1\n\n@pipe_output(step(_st))\n" + body("u: int", "int", "return 1")
        want = {"f.raw": doc}
    else:
        src = body("i: int", "int", "return 1")
        want = {"f": doc}
    mod = dags.make_module(src, header=HEADER, name="vtagmod")
    try:
        got = {v.name: v.documentation for v in driver.Builder().with_modules(mod).with_config({"mode": "A"}).build().list_available_variables()}
        for n, d in want.items():
            require(n in got and (got[n] or None) == (d or None), "%s has documentation %r, expected %r\n%s", n, got.get(n), d, src)
        if doc:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


PARTS = [
    Part("stack", stack_case, check_stack, quick=2500, thorough=60000, rule="several nodes or several metadata decorators", setup=setup),
    Part("query", query_case, check_query, quick=600, thorough=15000, rule="a query that selects some but not all nodes", setup=setup),
    Part("legal", legal_case, check_legal, quick=1500, thorough=40000, rule="every case"),
    Part("docs", doc_case, check_doc, quick=300, thorough=3000, rule="the function has a doc string", setup=setup),
]
