"""C10: a subdag equals running its functions as a driver of their own."""
import asyncio, logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, same
from vlib.drv import make_driver
from hamilton import async_driver

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated nested sub-dataflows against a lexically scoped reference evaluator"
HEADER = dags.HEADER + ("from hamilton.function_modifiers import subdag, parameterized_subdag, source, value, config\n"
                        "import vlib.values as _V\nasync def _sleep(n):\n    pass\n")
POOL = ["a", "b", "c", "ab", "i", "j", "k"]
FREE = ["i", "j", "k"]
MODES = ["A", "B", None]


class Level:
    def __init__(self):
        self.items, self.defined, self.refd = [], [], set()

    def ref(self, n):
        if n not in self.defined:
            self.refd.add(n)


@st.composite
def params(draw, lv, extra=()):
    cand = list(dict.fromkeys(lv.defined + FREE + list(extra)))
    ps = draw(st.lists(st.sampled_from(cand), max_size=3, unique=True))
    for p in ps:
        lv.ref(p)
    return ps


@st.composite
def fn_item(draw, lv, name):
    it = {"t": "fn", "name": name, "async": draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        it["variants"] = [{"params": draw(params(lv))}, {"params": draw(params(lv))}]
    else:
        it["params"] = draw(params(lv))
    if draw(st.integers(0, 3)) == 0:
        it["opt"] = True
        lv.refd.add("o")
    if draw(st.integers(0, 4)) == 0:
        it["cfgk"] = True
        lv.refd.add("cfgk")
    return it


@st.composite
def instance(draw, lv, name, modules, pg=None):
    """modules: [(index, defined names, free names)]"""
    mi, mdef, mfree = modules[draw(st.integers(0, len(modules) - 1))] if pg is None else modules[pg["mod"]]
    it = {"t": "sub", "name": name, "mod": mi, "ns": draw(st.sampled_from([None, None, name + "_ns"])), "inputs": {}, "config": {},
          "how": draw(st.sampled_from(["module", "module", "fns"])), "async": draw(st.booleans())}
    for f in sorted(mfree - {"cfgk"}):
        k = draw(st.sampled_from(["unbound", "value", "source"]))
        if k == "value":
            it["inputs"][f] = ["value", draw(st.sampled_from([0, 1, 42, False, None]))]
        elif k == "source":
            s = draw(st.sampled_from(lv.defined + FREE))
            it["inputs"][f] = ["source", s]
    if draw(st.integers(0, 3)) == 0:
        it["config"]["mode"] = draw(st.sampled_from(["A", "B"]))
    if draw(st.integers(0, 3)) == 0:
        it["config"]["cfgk"] = draw(st.sampled_from([0, 9, None]))
    if pg is None:
        cand = mdef + [k for k, b in it["inputs"].items() if b[0] == "value" and k not in mdef] + [k for k in it["config"] if k == "cfgk"]
        it["outs"] = draw(st.lists(st.sampled_from(cand), min_size=1, max_size=3, unique=True))
        it["ext"] = [e for e in draw(st.lists(st.sampled_from(lv.defined + FREE), max_size=1)) if e not in it["outs"]]
    return it


def note_refs(lv, it, mfree):
    for f in mfree:
        if f in it["inputs"]:
            b = it["inputs"][f]
            if b[0] == "source":
                lv.ref(b[1])
        elif f not in it["config"]:
            lv.ref(f)
    for e in it.get("ext", []):
        lv.ref(e)


@st.composite
def level(draw, modules, n, depth):
    lv = Level()
    for idx in range(n):
        free_names = [p for p in POOL if p not in lv.defined and p not in lv.refd]
        if not free_names:
            break
        name = draw(st.sampled_from(free_names))
        if modules and (idx == n - 1 or draw(st.integers(0, 2)) != 0):
            if draw(st.integers(0, 3)) == 0:
                base = {"mod": draw(st.integers(0, len(modules) - 1))}
                mi, mdef, mfree = modules[base["mod"]]
                it = {"t": "pg", "name": "pg%d%d" % (depth, idx), "mod": mi, "inst": [], "inputs": {}, "config": {}, "async": draw(st.booleans()),
                      "outs": draw(st.lists(st.sampled_from(mdef), min_size=1, max_size=2, unique=True)), "ext": []}
                e = draw(st.sampled_from([None] + lv.defined + FREE))
                if e is not None and e not in it["outs"]:
                    it["e"], it["dext"] = e, draw(st.booleans())  # a parameter of the function, given by the decorator or by each instance
                for f in sorted(mfree - {"cfgk"}):
                    if draw(st.integers(0, 2)) == 0:
                        it["inputs"][f] = ["value", draw(st.sampled_from([5, 6, None]))]
                if draw(st.integers(0, 3)) == 0:
                    it["config"]["mode"] = draw(st.sampled_from(["A", "B"]))
                keys = [p for p in POOL if p not in lv.defined and p not in lv.refd]
                k = draw(st.integers(1, 2))
                names = draw(st.permutations(keys))[:k]
                for nm in names:
                    i2 = draw(instance(lv, nm, modules, pg=base))
                    i2["ns"] = None
                    if "e" in it:
                        # the instance's own list replaces the decorator's
                        own = [[], [it["e"]]] if it["e"] in mdef else [[it["e"]]]
                        i2["own"] = draw(st.sampled_from(([None] if it["dext"] or it["e"] in mdef else []) + own))
                    it["inst"].append(i2)
                # references are made before the names become visible; a name referenced by any of them cannot be defined by them
                probe = Level()
                probe.defined = list(lv.defined)
                for i2 in it["inst"]:
                    merged = {"inputs": {**it["inputs"], **i2["inputs"]}, "config": {**it["config"], **i2["config"]}}
                    note_refs(probe, merged, mfree)
                    if "e" in it:
                        probe.ref(it["e"])
                it["inst"] = [i2 for i2 in it["inst"] if i2["name"] not in probe.refd]
                if not it["inst"]:
                    continue
                lv.refd |= probe.refd
                lv.items.append(it)
                lv.defined += [i2["name"] for i2 in it["inst"]]
                continue
            it = draw(instance(lv, name, modules))
            mfree = next(m for m in modules if m[0] == it["mod"])[2]
            probe = Level()
            probe.defined = list(lv.defined)
            note_refs(probe, it, mfree)
            if name in probe.refd:
                continue
            lv.refd |= probe.refd
            lv.items.append(it)
            lv.defined.append(name)
        else:
            it = draw(fn_item(lv, name))
            if name in lv.refd:
                continue
            lv.items.append(it)
            lv.defined.append(name)
    return lv


@st.composite
def case_(draw):
    levels, mods = [], []
    n_leaf = draw(st.integers(1, 2))
    for i in range(n_leaf):
        lv = draw(level([], draw(st.integers(1, 4)), 0))
        if not lv.items:
            lv.items.append({"t": "fn", "name": "a", "params": [], "async": False})
            lv.defined.append("a")
        levels.append(lv)
        mods.append((i, lv.defined, lv.refd - set(lv.defined)))
    if draw(st.booleans()):
        lv = draw(level(list(mods), draw(st.integers(1, 4)), 1))
        if lv.items:
            levels.append(lv)
            mods.append((len(mods), lv.defined, lv.refd - set(lv.defined)))
    root = draw(level(mods, draw(st.integers(2, 5)), 2))
    cfg = {}
    m = draw(st.sampled_from(MODES))
    if m:
        cfg["mode"] = m
    if draw(st.booleans()):
        cfg["cfgk"] = draw(st.sampled_from([1, 2]))
    return {"levels": [l.items for l in levels], "root": root.items, "config": cfg, "async": draw(st.integers(0, 4)) == 0, "opt": draw(st.sampled_from([None, None, 8]))}


def ann(p):
    return "Any" if p in FREE or p == "cfgk" or p == "o" else "int"


def fparams(it, ps):
    out = [{"name": p, "ann": ann(p)} for p in ps]
    if it.get("opt"):
        out.append({"name": "o", "ann": "Any", "default": 7})
    if it.get("cfgk"):
        out.append({"name": "cfgk", "ann": "Any", "default": 3})
    return out


def rbind(b):
    return "%s(%r)" % (b[0], b[1])


def rdict(d):
    return "{%s}" % ", ".join("%r: %s" % (k, rbind(v)) for k, v in d.items())


def render(items, tag, is_async):
    src = ""
    for it in items:
        asy = is_async and it["async"]
        if it["t"] == "fn":
            if "variants" in it:
                for j, v in enumerate(it["variants"]):
                    dec = "@config.%s(mode='A')" % ("when" if j == 0 else "when_not")
                    src += dags.fn_source({"name": "%s__v%d" % (it["name"], j), "params": fparams(it, v["params"]), "ret": "int", "mode": "normal",
                                           "alias": "%s.%s.%d" % (tag, it["name"], j), "async": asy}, [dec]) + "\n"
            else:
                src += dags.fn_source({"name": it["name"], "params": fparams(it, it["params"]), "ret": "int", "mode": "normal", "alias": "%s.%s" % (tag, it["name"]), "async": asy}) + "\n"
        else:
            load = "*_V.T['lf%d']" % it["mod"] if it.get("how") == "fns" else "_V.T['lm%d']" % it["mod"]
            if it["t"] == "sub":
                args = [load, "inputs=%s" % rdict(it["inputs"]), "config=%r" % it["config"]]
                if it["ns"]:
                    args.append("namespace=%r" % it["ns"])
                if it["ext"]:
                    args.append("external_inputs=%r" % it["ext"])
                dec = "@subdag(%s)" % ", ".join(args)
            else:
                args = [load, "inputs=%s" % rdict(it["inputs"]), "config=%r" % it["config"]]
                if it.get("dext"):
                    args.append("external_inputs=%r" % [it["e"]])
                for i2 in it["inst"]:
                    own = i2.get("own")
                    args.append("%s={'inputs': %s, 'config': %r%s}" % (i2["name"], rdict(i2["inputs"]), i2["config"], "" if own is None else ", 'external_inputs': %r" % own))
                dec = "@parameterized_subdag(%s)" % ", ".join(args)
            src += dags.fn_source({"name": it["name"], "params": [{"name": p, "ann": ann(p)} for p in it["outs"] + it["ext"] + ([it["e"]] if "e" in it else [])], "ret": "int", "mode": "normal",
                                   "alias": "%s.%s" % (tag, it["name"]), "async": asy}, [dec]) + "\n"
    return src


MISSING = object()


class Scope:
    def __init__(self, items, tag, parent, inputs, config, allitems, merged):
        self.tag, self.parent, self.inputs, self.config, self.all, self.merged = tag, parent, inputs, config, allitems, merged
        self.defs, self.memo, self.subs = {}, {}, {}
        for it in items:
            if it["t"] == "pg":
                for i2 in it["inst"]:
                    eff = i2.get("own") if i2.get("own") is not None else [it["e"]] if it.get("dext") else []
                    self.defs[i2["name"]] = ("sub", dict(it, outs=it["outs"] + ([it["e"]] if "e" in it and it["e"] not in eff else []), ext=eff, inputs={**it["inputs"], **i2["inputs"]}, config={**it["config"], **i2["config"]}), i2["name"])
            else:
                self.defs[it["name"]] = (it["t"], it, it["name"])

    def child(self, name):
        if name not in self.subs:
            _, it, nm = self.defs[name]
            self.subs[name] = Scope(self.all[it["mod"]], "L%d" % it["mod"], self, it["inputs"], it["config"], self.all, {**self.merged, **it["config"]})
        return self.subs[name]

    def look(self, n):
        if n in self.memo:
            return self.memo[n]
        if n in self.defs:
            t, it, nm = self.defs[n]
            if t == "fn":
                alias, ps = "%s.%s" % (self.tag, it["name"]), it.get("params")
                if "variants" in it:
                    j = 0 if self.merged.get("mode") == "A" else 1
                    alias, ps = "%s.%d" % (alias, j), it["variants"][j]["params"]
                kw = {p: self.look(p) for p in ps}
                for flag, key, d in (("opt", "o", 7), ("cfgk", "cfgk", 3)):
                    if it.get(flag):
                        v = self.look(key)
                        kw[key] = d if v is MISSING else v
            else:
                c = self.child(n)
                alias = "%s.%s" % (self.tag, it["name"])
                kw = {p: c.look(p) for p in it["outs"]}
                kw.update({e: self.look(e) for e in it["ext"]})
            v = dags.node_value(alias, "int", "normal", kw)
        elif n in self.inputs:
            b = self.inputs[n]
            v = b[1] if b[0] == "value" else self.parent.look(b[1])
        elif n in self.config and self.parent is not None:
            v = self.config[n]
        elif self.parent is not None:
            v = self.parent.look(n)
        else:
            v = self.inputs.get(n, MISSING)
        self.memo[n] = v
        return v


def check(case, ctx):
    import vlib.values as V
    mods = []
    try:
        for i, items in enumerate(case["levels"]):
            m = dags.make_module(render(items, "L%d" % i, case["async"]), header=HEADER)
            mods.append(m)
            V.T["lm%d" % i] = m
            V.T["lf%d" % i] = [f for k, f in vars(m).items() if callable(f) and getattr(f, "__module__", "") == m.__name__ and not k.startswith("_")]
        root = dags.make_module(render(case["root"], "R", case["async"]), header=HEADER)
        mods.append(root)
        top = {"i": ["value", 11], "j": ["value", 22], "k": ["value", 33]}
        cfg = case["config"]
        rt = {n: ["value", v] for n, v in cfg.items()}
        if case["opt"] is not None:
            top["o"] = ["value", case["opt"]]
        sc = Scope(case["root"], "R", None, {}, {}, case["levels"], dict(cfg))
        sc.inputs = {**top, **rt}
        want = {n: sc.look(n) for n in sc.defs}
        # a few inner nodes, by their namespaced name
        for n, (t, it, nm) in sc.defs.items():
            if t == "sub":
                ns = (it.get("ns") or n)
                for d in sc.child(n).defs:
                    want["%s.%s" % (ns, d)] = sc.child(n).look(d)

        def inputs_for(dr):
            have = {v.name: v.is_external_input for v in dr.list_available_variables()}
            return {n: b[1] for n, b in top.items() if have.get(n)}
        names = sorted(want)
        if case["async"]:
            async def go():
                dr = await async_driver.Builder().with_modules(root).with_config(cfg).build()
                REC.reset()
                return await dr.execute(names, inputs=inputs_for(dr))
            got = asyncio.run(go())
        else:
            dr = make_driver([root], "builder", cfg)
            REC.reset()
            got = dr.execute(names, inputs=inputs_for(dr))
        for n in names:
            require(same(got[n], want[n]), "node %s is %r; evaluating the functions as separate dataflows gives %r", n, got[n], want[n])
        subs = [it for it in case["root"] if it["t"] != "fn"]
        ctx.note("subdags:%d" % len(subs), "async" if case["async"] else "sync")
        if any(it["t"] == "pg" for it in subs):
            ctx.note("parameterized")
        if any(it["t"] != "fn" for l in case["levels"] for it in l):
            ctx.note("nested")
        ctx.nontrivial(any(it["inputs"] or it["config"] for it in subs) or len(subs) > 1)
    finally:
        dags.drop_modules(mods)
        V.T.clear()


PARTS = [Part("subdags", case_, check, 6000, 90000, "two or more instances, or an instance with bindings or its own configuration", shards=8, tshards=8)]
