"""C06: config decorators pick the right implementation every time."""
import logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated guarded implementations and build histories against a predicate oracle"
KEYS = ["region", "k", "kk", "flag"]
VALUES = ["us", "uk", "", 0, 1, 2, None, True, False, "1"]
HEADER = dags.HEADER + "from hamilton.function_modifiers import config, hamilton_exclude, resolve, resolve_from_config, ResolveAt, parameterize, parameterize_sources, parameterize_values, source, value, extract_fields, inject, does\n"


@st.composite
def pred(draw):
    kind = draw(st.sampled_from(["when", "when", "when_not", "when_in", "when_not_in", "lambda"]))
    if kind == "lambda":
        return {"kind": kind, "key": draw(st.sampled_from(KEYS)), "v": draw(st.sampled_from(VALUES)), "op": draw(st.sampled_from(["eq", "present", "absent"]))}
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 4])), unique=True))
    if kind in ("when", "when_not"):
        return {"kind": kind, "kv": {k: draw(st.sampled_from(VALUES)) for k in keys}}
    return {"kind": kind, "kv": {k: draw(st.lists(st.sampled_from(VALUES), max_size=3)) for k in keys}, "coll": draw(st.sampled_from(["list", "tuple"]))}


def holds(p, cfg):
    if p["kind"] == "lambda":
        if p["op"] == "eq":
            return cfg.get(p["key"]) == p["v"]
        return (p["key"] in cfg) == (p["op"] == "present")
    if p["kind"] == "when":
        return all(cfg.get(k) == v for k, v in p["kv"].items())
    if p["kind"] == "when_not":
        return all(cfg.get(k) != v for k, v in p["kv"].items())
    if p["kind"] == "when_in":
        return all(cfg.get(k) in v for k, v in p["kv"].items())
    return all(cfg.get(k) not in v for k, v in p["kv"].items())


def render(p, name=None):
    if p["kind"] == "lambda":
        body = {"eq": "c.get(%r) == %r" % (p["key"], p["v"]), "present": "%r in c" % p["key"], "absent": "%r not in c" % p["key"]}[p["op"]]
        return "@config(lambda c: %s%s)" % (body, ", target_name=%r" % name if name else "")
    args = ", ".join("%s=%s" % (k, ("%s(%r)" % (p["coll"], v)) if "coll" in p else repr(v)) for k, v in p["kv"].items())
    if name and p["kind"] != "when_not_in":
        args += ", name=%r" % name
    return "@config.%s(%s)" % (p["kind"], args)


@st.composite
def case_(draw):
    names = draw(st.permutations(["a", "ab", "b", "c", "a__v", "n1"]))[:draw(st.integers(1, 4))]
    groups = []
    for n in names:
        impls = []
        for i in range(draw(st.sampled_from([1, 2, 2, 3]))):
            preds = draw(st.lists(pred(), min_size=1, max_size=draw(st.sampled_from([1, 1, 2]))))
            if draw(st.integers(0, 3)) == 0 and impls:
                # complementary predicates make a clean switch
                k = impls[0]["preds"][0]
                flip = {"when": "when_not", "when_not": "when", "when_in": "when_not_in", "when_not_in": "when_in"}.get(k["kind"])
                if flip and len(k.get("kv", {})) == 1:
                    preds = [dict(k, kind=flip)]
            style = draw(st.sampled_from(["suffix", "suffix", "target"]))
            if style == "target" and preds[-1]["kind"] == "when_not_in":
                style = "suffix"
            impls.append({"preds": preds, "style": style, "sfx": draw(st.sampled_from(["us", "v%d" % i, "1"])) + str(i),
                          "params": draw(st.lists(st.sampled_from(["x", "y"]), max_size=2, unique=True)),
                          "cfgparam": draw(st.sampled_from([None, None, "region", "k"]))})
        groups.append({"name": n, "impls": impls, "excluded": draw(st.integers(0, 9)) == 0})
    cfgs = draw(st.lists(st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALUES), max_size=4), min_size=1, max_size=4))
    return {"groups": groups, "configs": cfgs, "dup_configs": draw(st.booleans())}


def check(case, ctx):
    src = ""
    n_impl = 0
    for g in case["groups"]:
        for j, im in enumerate(g["impls"]):
            n_impl += 1
            if im["style"] == "suffix":
                fname, target = "%s__%s" % (g["name"], im["sfx"]), None
            else:
                fname, target = "zz_%s_%d" % (g["name"], j), g["name"]
            # the decorator closest to the function is applied first; put the target on the top-most one
            decs = [render(p, target) for p in im["preds"]]
            params = [{"name": x, "ann": "int"} for x in im["params"]]
            if im["cfgparam"]:
                params.append({"name": im["cfgparam"], "ann": "Any", "default": "dflt"})
            alias = "%s#%d" % (g["name"], j)
            src += dags.fn_source({"name": fname, "params": params, "ret": "int", "mode": "normal", "alias": alias}, decs) + "\n"
        src += dags.fn_source({"name": "down_" + g["name"], "params": [{"name": g["name"], "ann": "int"}], "ret": "int", "mode": "normal"}) + "\n"
        if g["excluded"]:
            src += "@hamilton_exclude\ndef helper_%s(zz: int) -> int:\n    return 1\n" % g["name"]
    mod = dags.make_module(src, header=HEADER)
    try:
        cfgs = list(case["configs"]) + (list(case["configs"]) if case["dup_configs"] else [])
        outcomes = set()
        for cfg in cfgs:
            spec_fns, clash, absent = [], [], []
            for g in case["groups"]:
                ok = [j for j, im in enumerate(g["impls"]) if all(holds(p, cfg) for p in im["preds"])]
                if len(ok) > 1:
                    clash.append(g["name"])
                elif not ok:
                    absent.append(g["name"])
                else:
                    im = g["impls"][ok[0]]
                    params = [{"name": x, "ann": "int"} for x in im["params"]]
                    if im["cfgparam"]:
                        params.append({"name": im["cfgparam"], "ann": "Any", "default": "dflt"})
                    spec_fns.append({"name": g["name"], "params": params, "ret": "int", "mode": "normal", "alias": "%s#%d" % (g["name"], ok[0])})
                spec_fns.append({"name": "down_" + g["name"], "params": [{"name": g["name"], "ann": "int"}], "ret": "int", "mode": "normal"})
            err = None
            try:
                dr = make_driver([mod], "builder", dict(cfg))
            except ValueError as e:
                err = e
            if clash:
                require(err is not None, "config %s: several implementations of %s hold, but the driver was built", cfg, clash)
                outcomes.add("clash")
                continue
            if err is not None:
                raise err
            spec = {"fns": spec_fns, "inputs": {"x": {"type": "int"}, "y": {"type": "int"}, **{a: {"type": "int"} for a in absent}}}
            have = {v.name: v.is_external_input for v in dr.list_available_variables()}
            fnn = {f["name"] for f in spec_fns}
            got_fns = {n for n, ext in have.items() if not ext}
            require(got_fns == fnn, "config %s: function nodes %s, expected %s", cfg, sorted(got_fns), sorted(fnn))
            inputs = {"x": 11, "y": 13, **{a: 17 for a in absent}}
            names = sorted(fnn)
            want, _ = dags.ref_eval(spec, names, {**inputs, **cfg})
            got = dr.execute(names, inputs=inputs)
            for n in names:
                require(same(got[n], want[n]), "config %s (after %d earlier builds): node %s is not the implementation whose predicate holds", cfg, cfgs.index(cfg), n)
            outcomes.add(tuple(sorted(f.get("alias", "") for f in spec_fns)))
            ctx.note("absent" if absent else "all-present")
        if "clash" in outcomes:
            ctx.note("clash")
        if any(len(im["preds"]) > 1 for g in case["groups"] for im in g["impls"]):
            ctx.note("stacked")
        ctx.nontrivial(len(outcomes) >= 2)
    finally:
        dags.drop_modules([mod])


# ------------------------------------------------------------------ delayed resolution
@st.composite
def delayed_case(draw):
    cfgs = []
    for _ in range(draw(st.integers(1, 3))):
        c = {"n": draw(st.integers(0, 4)), "srcs": draw(st.permutations(["x", "y", "z"]))}
        if draw(st.booleans()):
            c["bonus"] = draw(st.sampled_from([0, 1, 5]))
        cfgs.append(c)
    return {"configs": cfgs, "form": draw(st.sampled_from(["resolve", "resolve_from_config"])), "power": draw(st.sampled_from([True, True, True, False]))}


def check_delayed(case, ctx):
    from hamilton.function_modifiers import base as fmb
    head = "@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=" if case["form"] == "resolve" else "@resolve_from_config(decorate_with="
    src = head + "lambda n, srcs, bonus=100: parameterize(**{'out_%d' % i: {'p': source(srcs[i % 3]), 'q': value(i + bonus)} for i in range(n + 1)}))\n"
    src += dags.fn_source({"name": "gen", "params": [{"name": "p", "ann": "int"}, {"name": "q", "ann": "int"}], "ret": "int", "mode": "normal"})
    mod = dags.make_module(src, header=HEADER)
    try:
        inputs = {"x": 3, "y": 4, "z": 5}
        for c in case["configs"]:
            cfg = dict(c)
            cfg["hamilton.enable_power_user_mode"] = case["power"]
            err = None
            try:
                dr = make_driver([mod], "builder", cfg)
            except Exception as e:
                err = e
            if not case["power"]:
                require(err is not None, "delayed decorator resolved without power user mode")
                continue
            if err is not None:
                raise err
            names = ["out_%d" % i for i in range(c["n"] + 1)]
            have = {v.name for v in dr.list_available_variables() if not v.is_external_input}
            require(have == set(names), "config %s: nodes %s, expected %s", c, sorted(have), names)
            got = dr.execute(names, inputs=inputs)
            for i, n in enumerate(names):
                e = dags.node_value("gen", "int", "normal", {"p": inputs[c["srcs"][i % 3]], "q": i + c.get("bonus", 100)})
                require(got[n] == e, "config %s: node %s has the wrong value", c, n)
        ctx.nontrivial(case["power"] and len(case["configs"]) > 1)
    finally:
        dags.drop_modules([mod])


PARTS = [Part("when", case_, check, 5000, 80000, "the history of configurations leads to at least two different outcomes", shards=7, tshards=8),
         Part("delayed", delayed_case, check_delayed, 400, 6000, "two or more configurations resolve the same delayed decorator", shards=1, tshards=2)]
