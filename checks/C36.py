"""C36: static validators gate the construction of a driver exactly."""
import logging, os
from collections import Counter
from hypothesis import strategies as st
from hamilton import driver, lifecycle
from hamilton.graph_types import HamiltonGraph, HamiltonNode
from hamilton.io.materialization import to
from hamilton.lifecycle import base as lbase
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from vlib.gen import plain_case

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows and sets of validators; the verdicts they give decide the outcome, compared with a driver without validators"
MODES = ["builder", "builder", "legacy", "task", "materialize", "materialize", "with_materializers"]
MSGS = ["bad thing", "nö", "a\nb", "", None, "x" * 50]


@st.composite
def validator(draw, names):
    nodes = {n: draw(st.sampled_from(MSGS)) for n in (draw(st.lists(st.sampled_from(names), max_size=3, unique=True)) if draw(st.booleans()) else [])}
    g = draw(st.sampled_from([["ok"]] * 4 + [["bad", draw(st.sampled_from(MSGS))]]))
    return {"kind": draw(st.sampled_from(["static", "static", "static-node", "static-graph", "base-node", "base-graph", "with-hook"])), "nodes": nodes, "graph": g, "truthy": draw(st.booleans()), "data": draw(st.integers(0, 2)) == 0}


@st.composite
def case_(draw):
    c = draw(plain_case(modes=MODES, dag_kw=dict(max_fns=7)))
    names = [f["name"] for f in c["dag"]["fns"]] + sorted(dags.used_inputs(c["dag"])) + ["none_such", "out_save"]
    c["validators"] = draw(st.lists(validator(names), min_size=1, max_size=3))
    if draw(st.integers(0, 5)) == 0:      # many validators, all with something to say about the same nodes
        hot = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))
        c["validators"] = [dict(draw(validator(names)), nodes={n: "m%d %s" % (i, n) for n in hot}) for i in range(draw(st.integers(3, 9)))]
    if c["mode"].endswith("materialize") and draw(st.booleans()):
        for v in c["validators"]:
            v["nodes"], v["graph"] = ({"out_save": draw(st.sampled_from(MSGS))} if draw(st.booleans()) else {}), ["ok"]
    return c


def make(v, seen):
    a = make_(v, seen)
    if v["data"]:  # the usual way to write an adapter with settings: its instances compare equal and cannot be hashed
        a.__class__.__eq__ = lambda self, other: type(other).__name__ == "V"
        a.__class__.__hash__ = None
    return a


def make_(v, seen):
    log = {"nodes": [], "graphs": [], "runs": 0}
    seen.append((v, log))
    no = (0 if v["truthy"] else False)
    yes = (1 if v["truthy"] else True)

    def node_verdict(n):
        log["nodes"].append(n)
        return (no, v["nodes"][n.name]) if n.name in v["nodes"] else (yes, None)

    def graph_verdict(g):
        log["graphs"].append(g)
        return (yes, None) if v["graph"][0] == "ok" else (no, v["graph"][1])

    class N:
        def run_to_validate_node(self, *, node, **kw):
            return node_verdict(node)

    class G:
        def run_to_validate_graph(self, graph, **kw):
            return graph_verdict(graph)

    if v["kind"] == "static":
        return type("V", (N, G, lifecycle.StaticValidator), {})()
    if v["kind"] == "static-node":
        return type("V", (N, lifecycle.StaticValidator), {})()
    if v["kind"] == "static-graph":
        return type("V", (G, lifecycle.StaticValidator), {})()
    if v["kind"] == "base-node":
        class V(lbase.BaseValidateNode):
            def validate_node(self, *, created_node):
                return node_verdict(created_node)
        return V()
    if v["kind"] == "base-graph":
        class V(lbase.BaseValidateGraph):
            def validate_graph(self, *, graph, modules, config):
                log["modules"], log["config"] = list(modules), dict(config)
                return graph_verdict(graph)
        return V()

    class V(N, G, lifecycle.StaticValidator, lifecycle.NodeExecutionHook):
        def run_before_node_execution(self, **kw):
            log["runs"] += 1

        def run_after_node_execution(self, **kw):
            pass
    return V()


def nodal(v):
    return v["kind"] not in ("static-graph", "base-graph")


def graphal(v):
    return v["kind"] not in ("static-node", "base-node")


def check(case, ctx):
    spec, mode = case["dag"], case["mode"]
    mods = dags.build_modules(spec)
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        inputs = {k: decode(v) for k, v in case["inputs"].items()}
        seen = []
        vs = [make(v, seen) for v in case["validators"]]
        d = ctx.fresh_dir()
        dep = spec["fns"][-1]["name"]

        def saver():
            return to.pickle(id="out_save", dependencies=[dep], path=os.path.join(d, "f"))
        REC.reset()
        names = {f["name"] for f in spec["fns"]} | set(dags.used_inputs(spec)) | set(config)

        def judge(outcome, names, calls_before, when):
            """outcome: None or the exception raised"""
            rej = {}
            for v, log in seen:
                if nodal(v):
                    for n, m in v["nodes"].items():
                        if n in names:
                            rej.setdefault(n, []).append(m)
            gr = [v["graph"][1] for v, log in seen if graphal(v) and v["graph"][0] == "bad"]
            bad = bool(rej or gr)
            if outcome is not None and not isinstance(outcome, lbase.ValidationException):
                raise Violation("%s ended in %r, which is not a report of the validation" % (when, outcome))
            require((outcome is not None) == bad, "%s %s although the validators reject nodes %s and graph %s", when, "succeeded" if outcome is None else "was refused (%s)" % outcome, rej, gr)
            if rej:
                for n, ms in rej.items():
                    require(n in str(outcome) and all(m in str(outcome) for m in ms if m), "%s: the report does not name %s with %s:\n%s", when, n, ms, outcome)
                for n in names - set(rej):
                    require("\n  %s: " % n not in str(outcome), "%s: the report names %s, which was accepted:\n%s", when, n, outcome)
            elif gr:
                require(all(m in str(outcome) for m in gr if m), "%s: the report lacks one of %s:\n%s", when, gr, outcome)
            for v, log in seen:
                if nodal(v):
                    got = Counter(n.name for n in log["nodes"])
                    require(got == Counter(names), "%s: a validator was asked about nodes %s, the dataflow has %s", when, dict(got), sorted(names))
                    want = HamiltonNode if v["kind"] != "base-node" else None
                    require(want is None or all(isinstance(n, want) for n in log["nodes"]), "a validator was given %r", log["nodes"][:1])
                if graphal(v) and not rej:
                    require(len(log["graphs"]) == 1, "%s: a validator was asked about the dataflow %d times", when, len(log["graphs"]))
                    g = log["graphs"][0]
                    gn = {n.name for n in g.nodes} if v["kind"] != "base-graph" else set(g.nodes)
                    require(gn == names, "%s: the validator saw a dataflow of %s instead of %s", when, sorted(gn), sorted(names))
                    if v["kind"] == "base-graph":
                        require(all(any(m is x for x in log["modules"]) for m in mods) and {k: log["config"].get(k) is val for k, val in config.items()} == {k: True for k in config}, "%s: the validator saw modules %s and configuration %s", when, log["modules"], log["config"])
            require(len(REC.events) == calls_before, "%s ran functions", when)
            return bad

        outcome, dr = None, None
        try:
            if mode == "with_materializers":
                dr = driver.Builder().with_modules(*mods).with_config(config).with_adapters(*vs).with_materializers(saver()).build()
            else:
                if mode == "legacy":
                    from hamilton import base
                    dr = driver.Driver(config, *mods, adapter=vs + [base.DictResult()])
                else:
                    dr = make_driver(mods, "builder" if mode == "materialize" else mode, config, vs)
        except Exception as e:
            outcome = e
            if mode == "with_materializers" and not isinstance(e, lbase.ValidationException) and not any(log["nodes"] or log["graphs"] for v, log in seen):
                ctx.note("no saver for the type")
                return
        if mode == "with_materializers":
            names = names | {"out_save"}
        bad = judge(outcome, names, 0, "construction")
        ctx.note(mode, "refused" if bad else "accepted")
        ctx.nontrivial(bad or len(names) > 3)
        if bad:
            return
        want = dags.ref_eval(spec, case["requests"], {**config, **inputs}, {})[0]
        if mode == "materialize":
            for v, log in seen:
                log["nodes"], log["graphs"] = [], []
            outcome, before = None, len(REC.events)
            try:
                dags.ref_eval(spec, [dep], {**config, **inputs}, {})
            except dags.Missing:
                return
            names = names | {"out_save"}
            refused = any(nodal(v) and "out_save" in v["nodes"] for v in case["validators"])
            try:
                dr.materialize(saver(), additional_vars=list(case["requests"]), inputs=inputs)
            except lbase.ValidationException as e:
                outcome = e
            except Exception as e:
                if not any(log["nodes"] or log["graphs"] for v, log in seen):
                    ctx.note("no saver for the type")
                    return
                if refused:
                    raise Violation("materialize ended in %r instead of a report of the validation" % e)
                ctx.note("value cannot be pickled")
            judge(outcome, names, before if outcome is not None else len(REC.events), "materialize")
            if outcome is not None:
                require(not os.listdir(d), "a refused materialization wrote %s", os.listdir(d))
                ctx.note("materialize refused")
            return
        REC.reset()
        got = dr.execute(list(case["requests"]), inputs=inputs)
        require(set(got) == set(want) and all(same(got[k], want[k]) for k in want), "with validators the execution gives %r, expected %r", got, want)
        for v, log in seen:
            require(len(log["graphs"]) <= 1, "validators were asked again by an execution")
    finally:
        dags.drop_modules(mods)


PARTS = [Part("gate", case_, check, 2500, 60000, "a validator rejects something, or the dataflow has four or more nodes", shards=5, tshards=6)]
