"""C28: visualisations draw the graph that runs."""
import html, json, logging, os, re, subprocess
from hypothesis import strategies as st
import pandas as pd
from hamilton import base, driver, registry
from hamilton.io.materialization import to
from vlib.core import Part, Violation, require
from vlib import dags, decogen
from vlib.drv import configure_task

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows, requests, overrides and display options; the emitted graph (parsed by dot) against the vertices and edges computed independently from the dataflow"
STYLE = {}


def setup():
    registry.load_extension("pandas")
    mod = dags.make_module("def a() -> int:\n    return 1\n\ndef b(a: int) -> int:\n    return a\n", header="")
    try:
        p = parse(driver.Builder().with_modules(mod).build().visualize_execution(["b"], overrides={"a": 1}, bypass_validation=True))
        STYLE["output"] = p["legend"]["output"]["fillcolor"]
        STYLE["override"] = p["legend"]["override"]["style"]
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- reading a drawing
def parse(dot, raw=None):
    src = raw if raw is not None else dot.source
    r = subprocess.run(["dot", "-Tdot_json"], input=src.encode(), capture_output=True)
    if r.returncode or not r.stdout:
        raise Violation("graphviz cannot read the drawing: %s\n%s" % (r.stderr.decode()[:300], src))
    if r.stderr and b"rror" in r.stderr:
        raise Violation("graphviz complains about the drawing: %s\n%s" % (r.stderr.decode()[:300], src))
    j = json.loads(r.stdout)
    subs, verts, by_id = {}, {}, {}
    for o in j.get("objects", []):
        if o["_gvid"] < j["_subgraph_cnt"]:
            subs[o["name"]] = o
        else:
            by_id[o["_gvid"]] = o["name"]
            verts[o["name"]] = o
    edges = [(by_id[e["tail"]], by_id[e["head"]], e) for e in j.get("edges", [])]
    leg = {}
    if "cluster__legend" in subs:
        for i in subs["cluster__legend"].get("nodes", []):
            v = verts[by_id[i]]
            leg[v["name"] if v["label"] == "\\N" else v["label"]] = v
    return {"graph": j, "verts": verts, "edges": edges, "legend": leg if "cluster__legend" in subs else None, "legend_names": {v["name"] for v in leg.values()},
            "clusters": {n: [by_id[i] for i in o.get("nodes", [])] for n, o in subs.items() if n != "cluster__legend"}, "src": src}


def title(label):
    m = re.match(r"<b>(.*?)</b>", label)
    return html.unescape(m.group(1)) if m else None


def rows(label):
    return re.findall(r"<tr><td>(.*?)</td><td>(.*?)</td></tr>", label)


def verify(p, truth, shown, config, opts, outputs=(), overrides=(), path=None, extra=()):
    """truth: {name: (is_external, deps)}; shown: names that should be shown."""
    fn = {n for n in shown if not truth[n][0]}
    src = p["src"]
    V = p["verts"]
    fields = {m for ms in p["clusters"].values() for m in ms} - fn
    tables = set(V) - fn - set(config) - p["legend_names"] - fields
    for n in sorted(fn):
        require(n in V, "%s is not in the drawing\n%s", n, src)
        t = title(V[n]["label"])
        require(t is not None and re.split(r":", t)[0].strip() == n, "the vertex of %s is labelled %r\n%s", n, V[n]["label"], src)
        require(n not in p["legend_names"], "the vertex of %s is part of the legend\n%s", n, src)
    for k in config:
        require(k in V and (k in fn or title(V[k]["label"]) == k), "configuration %r is not shown\n%s", k, src)
    for t in tables:
        require(rows(V[t]["label"]), "unexpected vertex %r\n%s", t, src)
    require((p["legend"] is not None) == opts["show_legend"], "show_legend=%r, legend %r", opts["show_legend"], p["legend"])
    # edges
    want = sorted((d, n) for n in fn for d in truth[n][1] if d in fn and n not in overrides)
    loose = {(d, n) for n in overrides for d in truth[n][1]}
    have = sorted((a, b) for a, b, _ in p["edges"] if a not in tables and (a, b) not in loose)
    require(have == want, "edges %r, the dataflow's are %r\n%s", have, want, src)
    # inputs
    feeds = {}
    for a, b, _ in p["edges"]:
        if a in tables:
            feeds.setdefault(b, []).append(a)
    require(set(feeds) <= fn, "inputs feed unknown vertices %r", feeds)
    for n in fn:
        if n in overrides:
            continue
        ins = {d for d in truth[n][1] if truth[d][0] and d in shown}
        got = feeds.get(n, [])
        if opts["hide_inputs"] or not ins:
            require(not got, "%s is drawn with inputs %r, expected none (hide_inputs=%r)\n%s", n, got, opts["hide_inputs"], src)
        else:
            require(len(got) == 1 and sorted(r[0] for r in rows(V[got[0]]["label"])) == sorted(ins), "the inputs of %s are drawn as %r, they are %r\n%s", n, [rows(V[g]["label"]) for g in got], ins, src)
    used = [t for ts in feeds.values() for t in ts]
    require(set(used) == tables, "input vertices %r, connected ones %r\n%s", tables, used, src)
    if opts["deduplicate_inputs"]:
        sets = [frozenset(rows(V[t]["label"])) for t in tables]
        require(len(sets) == len(set(sets)), "deduplicate_inputs, but the same inputs are drawn twice\n%s", src)
    else:
        require(len(used) == len(set(used)), "deduplicate_inputs=False, but functions share an input vertex\n%s", src)
    # marks
    for n in fn:
        m = V[n].get("fillcolor") == STYLE["output"]
        require(m == (n in outputs), "%s is %smarked as an output, requested: %r\n%s", n, "" if m else "not ", sorted(outputs), src)
        m = V[n].get("style") == STYLE["override"]
        require(m == (n in overrides), "%s is %smarked as an override, overridden: %r\n%s", n, "" if m else "not ", sorted(overrides), src)
    if opts["show_legend"]:
        for what, names in (("output", outputs), ("override", overrides)):
            require((what in p["legend"]) == bool(set(names) & fn), "legend %r; %s: %r\n%s", sorted(p["legend"]), what, names, src)
    if path is not None:
        for n in fn:
            c = V[n].get("color")
            require((c == "red") == (n in path) or (n in path and V[n].get("peripheries")), "%s has color %r, on the path: %r\n%s", n, c, n in path, src)
        for a, b, e in p["edges"]:
            require((e.get("color") == "red") == (a in path and b in path), "edge %s -> %s has color %r, path %r", a, b, e.get("color"), sorted(path))
    require(p["graph"].get("rankdir") == opts["rankdir"], "rankdir %r, expected %r", p["graph"].get("rankdir"), opts["rankdir"])
    if opts["custom"]:
        for n in fn:
            require((V[n].get("penwidth") == "7") == styled(n), "%s has penwidth %r, the custom style says %r\n%s", n, V[n].get("penwidth"), styled(n), src)
        if opts["show_legend"]:
            require(("mine" in p["legend"]) == any(map(styled, fn)), "legend %r, custom styled %r", sorted(p["legend"]), [n for n in fn if styled(n)])
    if opts["graphviz_kwargs"]:
        require(p["graph"].get("ratio") == "1", "graphviz_kwargs not applied\n%s", src)
    return fn


def styled(n):
    return len(n) % 2 == 0


def draw_opts(draw):
    o = {"show_legend": draw(st.booleans()), "orient": draw(st.sampled_from(["LR", "TB", "BT", "RL"])), "hide_inputs": draw(st.integers(0, 3)) == 3, "deduplicate_inputs": draw(st.booleans()),
         "show_schema": draw(st.booleans()), "custom": draw(st.booleans()), "graphviz_kwargs": draw(st.booleans()), "kwrank": draw(st.booleans())}
    o["rankdir"] = "TB" if o["graphviz_kwargs"] and o["kwrank"] else o["orient"]
    return o


def kwargs_of(o, seen):
    kw = {k: o[k] for k in ("show_legend", "orient", "hide_inputs", "deduplicate_inputs", "show_schema")}
    if o["graphviz_kwargs"]:
        kw["graphviz_kwargs"] = {"graph_attr": dict({"ratio": "1"}, **({"rankdir": "TB"} if o["kwrank"] else {}))}
    if o["custom"]:
        def style(*, node, node_class):
            seen.append((node.name, node_class))
            return ({"penwidth": "7"}, node_class, "mine") if styled(node.name) else ({}, None, None)
        kw["custom_style_function"] = style
    return kw


# ---------------------------------------------------------------- drawings of decorated dataflows
@st.composite
def draw_case(draw):
    c = draw(decogen.blocks(min_n=1, max_n=6))
    c["opts"] = draw_opts(draw)
    c["api"] = draw(st.sampled_from(["all", "execution", "execution", "execution", "upstream", "downstream", "path", "path", "materialization", "export"]))
    c["picks"] = draw(st.lists(st.integers(0, 40), min_size=1, max_size=4))
    c["ov"] = draw(st.lists(st.integers(0, 40), max_size=2))
    c["skip_opt"] = draw(st.booleans())
    c["strict"] = draw(st.booleans())
    c["combine"] = draw(st.booleans())
    c["cfg_extra"] = draw(st.sampled_from([None, None, "note", "i", "a<b & \"c\""]))
    return c


def truth_of(dr):
    return {v.name: (v.is_external_input, set(v.required_dependencies) | set(v.optional_dependencies), v) for v in dr.list_available_variables()}


def closure(start, step):
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += step(n)
    return seen


def dump(v):
    return json.dumps(v, sort_keys=True)


def check_draw(case, ctx):
    mods = decogen.modules(case)
    try:
        config = {"mode": case["cfg"]}
        if case["cfg_extra"] == "i":
            config["i"] = 3
        elif case["cfg_extra"]:
            config["note"] = case["cfg_extra"]
        mk = lambda: driver.Builder().with_modules(*mods).with_config(dict(config)).build()
        dr = mk()
        truth = truth_of(dr)
        names = sorted(n for n in truth if not truth[n][0])
        ext = sorted(n for n in truth if truth[n][0])
        down = {n: {m for m in truth if n in truth[m][1]} for n in truth}
        req = list(dict.fromkeys(names[i % len(names)] for i in case["picks"]))
        api, o = case["api"], case["opts"]
        seen = []
        kw = kwargs_of(o, seen)
        gk = dump(kw.get("graphviz_kwargs"))
        vals = {n: v for n, v in decogen.inputs_for(ext).items() if n not in config}
        optional = {n for n in ext if n not in config and not any(n in truth[m][2].required_dependencies for m in truth)}
        inputs = {n: v for n, v in vals.items() if not (n in optional and case["skip_opt"])}
        before = {"inputs": dict(inputs)}
        shown, outputs, overrides, path = set(truth), (), (), None
        if api == "all":
            dot = dr.display_all_functions(**kw)
        elif api in ("execution", "export"):
            overrides = {names[i % len(names)]: 1 for i in case["ov"]}
            shown = closure(req, lambda n: [] if n in overrides else [d for d in truth[n][1] if not (d in optional and d not in inputs)])
            outputs = req
            if api == "export":
                got = json.loads(dr.export_execution(req, inputs=inputs, overrides=overrides))["nodes"]
                require(sorted(g["name"] for g in got) == sorted(shown), "exported nodes %r, expected %r", sorted(g["name"] for g in got), sorted(shown))
                for g in got:
                    v = truth[g["name"]][2]
                    require(set(g["required_dependencies"]) == set(v.required_dependencies) and set(g["optional_dependencies"]) == set(v.optional_dependencies) and g["tags"] == json.loads(json.dumps(v.tags)),
                            "exported %r, the variable is %r", g, v)
                if len(shown) > 2:
                    ctx.nontrivial(case)
                return
            dot = dr.visualize_execution(req, inputs=inputs, overrides=overrides or None, **kw)
            overrides = {n for n in overrides if n in shown}
        elif api == "upstream":
            dot = dr.display_upstream_of(*req, **kw)
            shown = closure(req, lambda n: truth[n][1])
        elif api == "downstream":
            start = [sorted(truth)[i % len(truth)] for i in case["picks"]]
            dot = dr.display_downstream_of(*start, **kw)
            core = closure(start, lambda n: down[n])
            shown = core | {d for n in core for d in truth[n][1]}
        elif api == "path":
            a, b = sorted(truth)[case["picks"][0] % len(truth)], req[-1]
            path = closure([a], lambda n: down[n]) & closure([b], lambda n: truth[n][1])
            try:
                dot = dr.visualize_path_between(a, b, strict_path_visualization=case["strict"], **kw)
            except ValueError as e:
                require(not path and "No path" in str(e), "path between %s and %s: %r, nodes between: %r", a, b, e, path)
                ctx.note("nopath")
                return
            require(path, "no path between %s and %s, but drawn", a, b)
            shown = set(path) if case["strict"] else path | {d for n in path for d in truth[n][1]}
        elif api == "materialization":
            mats = [to.memory(id="mat", dependencies=req, combine=base.DictResult())] if case["combine"] else [to.memory(id="mat_%d" % k, dependencies=[r]) for k, r in enumerate(req)]
            extra_req = names[case["picks"][0] % len(names)]
            dot = dr.visualize_materialization(*mats, additional_vars=[extra_req], inputs=inputs, **kw)
            truth = dict(truth)
            if case["combine"]:
                truth["mat_build_result"] = (False, set(req))
                truth["mat"] = (False, {"mat_build_result"})
                outputs = ["mat", extra_req]
            else:
                for k, r in enumerate(req):
                    truth["mat_%d" % k] = (False, {r})
                outputs = ["mat_%d" % k for k in range(len(req))] + [extra_req]
            shown = closure(outputs, lambda n: [d for d in truth[n][1] if not (d in optional and d not in inputs)])
        p = parse(dot)
        fn = verify(p, truth, shown, config, o, outputs, overrides, path)
        if api == "materialization":
            for n in outputs[:-1]:
                require(p["verts"][n].get("shape") == "cylinder", "materializer %s has shape %r", n, p["verts"][n].get("shape"))
        if o["custom"]:
            require(sorted(seen) == sorted((n, "function") for n in fn), "custom_style_function was called for %r, the drawn functions are %r", sorted(seen), sorted(fn))
        require(dump(kw.get("graphviz_kwargs")) == gk, "graphviz_kwargs was modified")
        require(inputs == before["inputs"], "the inputs were modified")
        # drawing has no effect on later executions and drawings
        full = {n: v for n, v in vals.items()}
        a, b = dr.execute(names, inputs=full), mk().execute(names, inputs=full)
        require(a == b, "executing after drawing gives %r, a fresh driver %r", a, b)
        again = dr.display_all_functions()
        fresh = mk().display_all_functions()
        require(sorted(again.body) == sorted(fresh.body) or canon(parse(again)) == canon(parse(fresh)), "drawing again gives another drawing\n%s\n%s", again.source, fresh.source)
        ctx.note(api)
        if len(fn) > 1:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules(mods)


def canon(p):
    def lab(v):
        r = rows(v["label"])
        return sorted(r) if r else v["label"]
    return sorted((n, repr(lab(v)), v.get("style"), v.get("fillcolor"), v.get("shape")) for n, v in p["verts"].items()), sorted((a, b) for a, b, _ in p["edges"])


# ---------------------------------------------------------------- names that mean something to the drawing, schemas, parallel blocks
ODD = ["output", "input", "function", "config", "field", "cluster", "materializer", "override", "expand", "collect", "node", "edge", "graph", "digraph", "strict", "subgraph", "mine", "label", "legend", "a", "b", "n_inputs", "x"]
COLS = [("c0", "int"), ("c1", "str"), ("long_column_name", "float"), ("n", "b")]


@st.composite
def odd_case(draw):
    names = draw(st.lists(st.sampled_from(ODD), min_size=2, max_size=6, unique=True))
    fns = []
    for i, n in enumerate(names):
        if i and draw(st.integers(0, 5)) == 0:
            continue  # stays an input
        deps = draw(st.lists(st.sampled_from(names[:i] or [names[0] + "_in"]), max_size=3, unique=True))
        fns.append({"n": n, "deps": deps, "schema": draw(st.lists(st.sampled_from(COLS), max_size=3, unique=True)) if draw(st.booleans()) else []})
    if not fns:
        fns = [{"n": names[0], "deps": [], "schema": []}]
    return {"fns": fns, "opts": draw_opts(draw), "par": draw(st.booleans()), "picks": draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)), "api": draw(st.sampled_from(["all", "execution"]))}


def check_odd(case, ctx):
    src = ["import pandas as pd", "from hamilton.function_modifiers import schema", "from hamilton.htypes import Parallelizable, Collect", ""]
    for f in case["fns"]:
        if f["schema"]:
            src.append("@schema.output(%s)" % ", ".join(map(repr, f["schema"])))
        src.append("def %s(%s) -> pd.DataFrame:\n    return pd.DataFrame()\n" % (f["n"], ", ".join("%s: pd.DataFrame" % d for d in f["deps"])))
    if case["par"]:
        src.append("def par_items() -> Parallelizable[int]:\n    yield 1\n\ndef par_work(par_items: int) -> int:\n    return 1\n\ndef par_all(par_work: Collect[int]) -> int:\n    return 1\n")
    mod = dags.make_module("\n".join(src), header="")
    try:
        b = driver.Builder().with_modules(mod)
        if case["par"]:
            b = b.enable_dynamic_execution(allow_experimental_mode=True)
        dr = b.build()
        truth = truth_of(dr)
        names = sorted(n for n in truth if not truth[n][0])
        o, seen = case["opts"], []
        kw = kwargs_of(o, seen)
        outputs, shown = [], set(truth)
        if case["api"] == "execution":
            outputs = [names[i % len(names)] for i in case["picks"]]
            shown = closure(outputs, lambda n: truth[n][1])
            dot = dr.visualize_execution(outputs, bypass_validation=True, **kw)
        else:
            dot = dr.display_all_functions(**kw)
        p = parse(dot)
        fn = verify(p, truth, shown, {}, o, outputs)
        for f in case["fns"]:
            n = f["n"]
            cl = p["clusters"].get("cluster_" + n)
            if n in fn and f["schema"] and o["show_schema"]:
                require(cl is not None, "the schema of %s is not drawn\n%s", n, p["src"])
                got = sorted(p["verts"][m]["label"].strip() for m in cl if m != n)
                require(got == sorted("%s=%s" % c for c in f["schema"]), "the schema of %s is drawn as %r, it is %r\n%s", n, got, f["schema"], p["src"])
            else:
                require(cl is None, "unexpected fields of %s (show_schema=%r, schema %r)\n%s", n, o["show_schema"], f["schema"], p["src"])
        for n in fn:
            require((p["verts"][n].get("peripheries") == "2") == (n in ("par_items", "par_all")), "%s has peripheries %r\n%s", n, p["verts"][n].get("peripheries"), p["src"])
        if o["show_legend"]:
            for what, who in (("expand", "par_items"), ("collect", "par_all")):
                require((what in p["legend"]) == (who in fn), "legend %r, parallel nodes drawn: %r", sorted(p["legend"]), fn)
        if set(ODD[:10]) & fn:
            ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- files
@st.composite
def file_case(draw):
    return {"ext": draw(st.sampled_from(["", ".png", ".svg", ".dot", ".gv", ".pdf"])), "fmt": draw(st.sampled_from([None, None, "svg", "dot"])), "keep": draw(st.booleans()), "api": draw(st.sampled_from(["all", "execution", "upstream", "downstream", "path"])),
            "dots": draw(st.booleans())}


MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml", "dot": b"digraph", "gv": b"digraph"}


def check_file(case, ctx):
    mod = dags.make_module("def a(x: int) -> int:\n    return 1\n\ndef b(a: int) -> int:\n    return a\n", header="")
    d = ctx.fresh_dir()
    try:
        dr = driver.Builder().with_modules(mod).build()
        stem = os.path.join(d, "my.graph" if case["dots"] and case["ext"] else "graph")
        kw = {"output_file_path": stem + case["ext"], "keep_dot": case["keep"]}
        if case["fmt"]:
            kw["render_kwargs"] = {"format": case["fmt"], "view": False}
        keep = json.dumps(kw)
        if case["api"] == "all":
            dot = dr.display_all_functions(**kw)
        elif case["api"] == "execution":
            dot = dr.visualize_execution(["b"], inputs={"x": 1}, **kw)
        elif case["api"] == "upstream":
            dot = dr.display_upstream_of("b", **kw)
        elif case["api"] == "downstream":
            dot = dr.display_downstream_of("a", **kw)
        else:
            dot = dr.visualize_path_between("a", "b", **kw)
        fmt = case["fmt"] or case["ext"][1:] or "png"
        want = {os.path.basename(stem) + "." + fmt} | ({os.path.basename(stem)} if case["keep"] else set())
        have = set(os.listdir(d))
        require(have == want, "files %r, expected %r (%r)", have, want, case)
        data = open(stem + "." + fmt, "rb").read()
        require(data.startswith(MAGIC[fmt]), "%s contains %r", fmt, data[:20])
        if case["keep"]:
            require(canon(parse(None, raw=open(stem).read())) == canon(parse(dot)), "the dot file differs from the returned drawing")
        require(json.dumps(kw) == keep, "the keyword arguments were modified: %r", kw)
        ctx.nontrivial(case)
    finally:
        dags.drop_modules([mod])


PARTS = [
    Part("draw", draw_case, check_draw, quick=800, thorough=20000, rule="at least two function vertices", setup=setup),
    Part("names", odd_case, check_odd, quick=500, thorough=12000, rule="a function is named like a legend entry", setup=setup),
    Part("files", file_case, check_file, quick=60, thorough=400, rule="every case", setup=setup),
]
