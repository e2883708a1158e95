"""C23: lineage queries report the true graph."""
import json, logging
from hypothesis import strategies as st
from hamilton import driver, lifecycle
from vlib.core import Part, Violation, require
from vlib import dags, decogen
from vlib.dags import REC, decode
from vlib.drv import make_driver

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows (plain, decorated, parallel); every query over all nodes and all pairs against reachability in the generating description or in observed executions"


def reach(edges, starts):
    seen, todo = set(), list(starts)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += edges.get(n, ())
    return seen


def names_of(vs, what):
    ns = [v.name for v in vs]
    require(len(ns) == len(set(ns)), "%s lists a node twice: %s", what, sorted(ns))
    return set(ns)


def check_queries(dr, deps, groups, ctx, inputs):
    """deps: name -> set of names it depends on, for every node of the graph; inputs: the external ones."""
    rev = {n: set() for n in deps}
    for n, ds in deps.items():
        for d in ds:
            rev[d].add(n)
    allv = dr.list_available_variables()
    require(names_of(allv, "list_available_variables") == set(deps), "available variables %s, the dataflow has %s", sorted(v.name for v in allv), sorted(deps))
    for v in allv:
        require(v.is_external_input == (v.name in inputs), "%s is_external_input=%s", v.name, v.is_external_input)
        require(set(v.required_dependencies) | set(v.optional_dependencies) == deps[v.name], "dependencies of %s: %s + %s, expected %s", v.name, v.required_dependencies, v.optional_dependencies, sorted(deps[v.name]))
    up, down = {}, {}
    for n in deps:
        up[n], down[n] = reach(deps, [n]), reach(rev, [n])
        g = names_of(dr.what_is_upstream_of(n), "what_is_upstream_of")
        require(g == up[n], "what_is_upstream_of(%s) = %s, expected %s", n, sorted(g), sorted(up[n]))
        g = names_of(dr.what_is_downstream_of(n), "what_is_downstream_of")
        require(g == down[n], "what_is_downstream_of(%s) = %s, expected %s", n, sorted(g), sorted(down[n]))
    none = long = 0
    for a in deps:
        for b in deps:
            exp = down[a] & up[b]
            g = names_of(dr.what_is_the_path_between(a, b), "what_is_the_path_between")
            require(g == exp, "what_is_the_path_between(%s, %s) = %s, expected %s", a, b, sorted(g), sorted(exp))
            none += not exp
            long += len(exp) > 2
    for gr in groups:
        gr = [x for x in gr if x in deps]
        if not gr:
            continue
        g = names_of(dr.what_is_upstream_of(*gr), "what_is_upstream_of")
        require(g == reach(deps, gr), "what_is_upstream_of(%s) = %s, expected %s", gr, sorted(g), sorted(reach(deps, gr)))
        g = names_of(dr.what_is_downstream_of(*gr), "what_is_downstream_of")
        require(g == reach(rev, gr), "what_is_downstream_of(%s) = %s, expected %s", gr, sorted(g), sorted(reach(rev, gr)))
        require(dr.has_cycles(list(gr)) is False, "has_cycles(%s) in an acyclic dataflow", gr)
    n0 = sorted(deps)[0]
    for call in (lambda: dr.what_is_upstream_of("no_such"), lambda: dr.what_is_downstream_of(n0, "no_such"), lambda: dr.what_is_the_path_between("no_such", n0), lambda: dr.what_is_the_path_between(n0, "no_such")):
        try:
            r = call()
        except ValueError:
            continue
        raise Violation("a query about an unknown node returned %r" % (r,))
    if none:
        ctx.note("unreachable-pairs")
    ctx.nontrivial(long > 0)


@st.composite
def plain_(draw):
    spec = draw(dags.dag(max_fns=9, min_fns=2))
    spec.pop("adhoc", None)
    fns = [f["name"] for f in spec["fns"]]
    ui = dags.used_inputs(spec)
    pool = fns + sorted(ui)
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        reqs = draw(st.lists(st.sampled_from(fns), min_size=1, max_size=3))
        ov = draw(st.lists(st.sampled_from(fns), max_size=2, unique=True))
        runs.append({"requests": reqs, "how": [draw(st.sampled_from(["str", "fn", "var"])) for _ in reqs], "overrides": ov,
                     "inputs": {n: draw(dags.value_for(spec["inputs"][n]["type"])) for n in sorted(ui) if draw(st.integers(0, 3))}})
    return {"dag": spec, "groups": draw(st.lists(st.lists(st.sampled_from(pool), min_size=1, max_size=4), min_size=1, max_size=3)), "runs": runs,
            "config": draw(st.sampled_from([{}, {}, {"unused_key": 1}])), "mode": draw(st.sampled_from(["builder", "builder", "legacy", "task"]))}


def check_plain(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    try:
        dr = make_driver(mods, case["mode"], case["config"])
        deps = {f["name"]: {p["name"] for p in f["params"]} for f in spec["fns"]}
        ins = set(dags.used_inputs(spec)) | set(case["config"])
        for i in ins:
            deps[i] = set()
        check_queries(dr, deps, case["groups"], ctx, ins)
        fm = dags.fn_map(spec)
        for v in dr.list_available_variables():
            if v.name in fm:
                opt = {p["name"] for p in fm[v.name]["params"] if "default" in p}
                require(set(v.optional_dependencies) == opt, "optional dependencies of %s: %s, expected %s", v.name, v.optional_dependencies, sorted(opt))
                require(v.documentation == "doc of %s" % v.name, "documentation of %s: %r", v.name, v.documentation)
        vs = {v.name: v for v in dr.list_available_variables()}
        fobj = {n: o for m in mods for n, o in vars(m).items() if n in fm and getattr(o, "__module__", None) == m.__name__}
        for r in case["runs"]:
            inputs = {k: decode(v) for k, v in r["inputs"].items()}
            ov = {n: 1 for n in r["overrides"]}
            need = dags.required_inputs(spec, r["requests"], ov)
            ok = need <= set(inputs)
            reqs = [n if how == "str" else fobj[n] if how == "fn" else vs[n] for n, how in zip(r["requests"], r["how"])]
            # nodes the execution visits: everything upstream, not through overrides, leaving out absent optional inputs
            plan, todo = set(), list(r["requests"])
            while todo:
                n = todo.pop()
                if n in plan:
                    continue
                plan.add(n)
                if n in fm and n not in ov:
                    todo += [p["name"] for p in fm[n]["params"] if not ("default" in p and p["name"] in spec["inputs"] and p["name"] not in inputs)]
            try:
                dr.validate_execution(reqs, inputs=dict(inputs), overrides=dict(ov))
                got = True
            except ValueError:
                got = False
            require(got == ok, "validate_execution(%s, inputs=%s, overrides=%s) %s, required inputs are %s", r["requests"], sorted(inputs), sorted(ov), "accepts" if got else "rejects", sorted(need))
            if ok:
                g = json.loads(dr.export_execution(list(r["requests"]), inputs=dict(inputs), overrides=dict(ov)))
                gn = [x["name"] for x in g["nodes"]]
                require(sorted(plan) == sorted(gn), "export_execution lists %s, the execution visits %s", sorted(gn), sorted(plan))
                for x in g["nodes"]:
                    require(set(x["required_dependencies"]) | set(x["optional_dependencies"]) == deps[x["name"]], "export_execution: dependencies of %s", x["name"])
                ctx.note("exported")
            ctx.note("valid" if ok else "invalid")
    finally:
        dags.drop_modules(mods)


class Tracer(lifecycle.NodeExecutionHook):
    def __init__(self):
        self.seen, self.results = {}, {}

    def run_before_node_execution(self, *, node_name, node_kwargs, **kw):
        self.seen[node_name] = set(node_kwargs)

    def run_after_node_execution(self, *, node_name, result, **kw):
        self.results[node_name] = result


@st.composite
def deco_(draw):
    c = draw(decogen.blocks(min_n=2, max_n=6))
    c["groups"] = draw(st.lists(st.lists(st.integers(0, 200), min_size=1, max_size=4), min_size=1, max_size=3))
    c["hit"] = draw(st.lists(st.integers(0, 200), min_size=1, max_size=4))
    c["mode"] = draw(st.sampled_from(["builder", "task"]))
    return c


def check_deco(case, ctx):
    mods = decogen.modules(case)
    try:
        tr = Tracer()
        dr = make_driver(mods, case["mode"], {"mode": case["cfg"]}, adapters=[tr])
        # a second driver only to learn the names without asking the queries under test
        names = sorted(dr.graph.nodes)
        unknown = set(names)
        fns = set()
        inputs = {n: v for n, v in decogen.inputs_for(names).items() if dr.graph.nodes[n].user_defined and n != "mode"}
        base_vals = dr.execute(names, inputs=inputs)
        deps = {n: tr.seen.get(n, set()) for n in names}
        ins = {n for n in names if n not in tr.seen}
        require(ins == set(inputs) | {"mode"}, "nodes without execution: %s, inputs: %s", sorted(ins), sorted(inputs))
        groups = [[names[i % len(names)] for i in g] for g in case["groups"]]
        check_queries(dr, deps, groups, ctx, ins)
        for hpos in case["hit"]:
            x = names[hpos % len(names)]
            if x == "mode":
                continue
            v = base_vals[x]
            new = ({k: y + 1 for k, y in v.items()} if isinstance(v, dict) else v + 1 if isinstance(v, int) else v)
            after = dr.execute(names, inputs={**inputs, **({x: new} if x in inputs else {})}, overrides={x: new} if x not in inputs else {})
            changed = {n for n in names if after[n] != base_vals[n]}
            d = {w.name for w in dr.what_is_downstream_of(x)}
            require(changed <= d, "changing %s changes %s, which what_is_downstream_of does not list (%s)", x, sorted(changed - d), sorted(d))
            ctx.note("impact-checked")
        ctx.note(*{"kind:" + b["kind"] for b in case["blocks"]})
    finally:
        dags.drop_modules(mods)


@st.composite
def par_(draw):
    spec = draw(dags.dag(max_fns=8, min_fns=3, rets=["int"], modes=("normal",), defaults=False, max_inputs=2))
    k = len(spec["fns"])
    return {"dag": spec, "expand": draw(st.lists(st.integers(0, k - 1), max_size=2)), "collect": draw(st.lists(st.integers(0, k - 1), max_size=2)),
            "groups": draw(st.lists(st.lists(st.sampled_from([f["name"] for f in spec["fns"]]), min_size=1, max_size=3), min_size=1, max_size=2))}


def check_par(case, ctx):
    spec = case["dag"]
    fns = spec["fns"]
    exp = {fns[i]["name"] for i in case["expand"]}
    col = {}
    for i in case["collect"]:
        ps = [p["name"] for p in fns[i]["params"] if p["name"] not in spec["inputs"] and p["name"] not in exp]
        if ps:
            col[fns[i]["name"]] = ps[0]
    src = "from hamilton.htypes import Parallelizable, Collect\n"
    for f in fns:
        src += "def %s(%s) -> %s:\n    return None\n\n" % (f["name"], ", ".join("%s: %s" % (p["name"], "Collect[int]" if col.get(f["name"]) == p["name"] else "int") for p in f["params"]), "Parallelizable[int]" if f["name"] in exp else "int")
    m = dags.make_module(src)
    try:
        dr = make_driver([m], "task")
        deps = {f["name"]: {p["name"] for p in f["params"]} for f in fns}
        ins = set(dags.used_inputs(spec))
        for i in ins:
            deps[i] = set()
        check_queries(dr, deps, case["groups"], ctx, ins)
        ctx.note("expand" if exp else "no-expand", "collect" if col else "no-collect")
    finally:
        dags.drop_modules([m])


PARTS = [Part("plain", plain_, check_plain, 2500, 40000, "some pair of nodes has a path of three or more nodes between them", shards=8, tshards=8),
         Part("decorated", deco_, check_deco, 1600, 24000, "some pair of nodes has a path of three or more nodes between them", shards=8, tshards=8),
         Part("parallel", par_, check_par, 1000, 10000, "some pair of nodes has a path of three or more nodes between them", shards=4, tshards=4)]
