"""C09: pipes compute the composition of their active steps."""
import asyncio, logging
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, same
from vlib.drv import make_driver
from hamilton import async_driver
import vlib.values  # noqa

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated pipelines against plain Python composition"
HEADER = dags.HEADER + ("from hamilton.function_modifiers import pipe_input, pipe_output, mutate, apply_to, step, source, value, extract_fields, config, tag\n"
                        "async def _sleep(n):\n    pass\n")
# step functions: first parameter is chained
SIGS = {"_s0": [], "_s1": ["a"], "_s2": ["a", "b?"], "_s3": ["x", "y"], "s4": ["b?"], "_s5": ["a", "b", "kk?"]}
# what the step functions say they return (a pipe's node has the type of its last active step)
RET = {"_s0": "int", "_s1": "float", "_s2": "int", "_s3": "object", "s4": "str", "_s5": "int"}
PY = {"int": int, "float": float, "object": object, "str": str}
KEYS = ["mode", "k", "flag"]
VALS = ["fast", 0, None, True, 1]
UP = ["x", "y", "n0", "n1"]


@st.composite
def binding(draw):
    k = draw(st.sampled_from(["raw", "value", "source", "source"]))
    return [k, draw(st.sampled_from(UP)) if k == "source" else draw(st.sampled_from([0, 1, -4, None, False]))]


@st.composite
def cond(draw):
    if draw(st.integers(0, 2)):
        return []
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        kind = draw(st.sampled_from(["when", "when_not", "when_in", "when_not_in"]))
        key = draw(st.sampled_from(KEYS))
        v = draw(st.sampled_from(VALS)) if kind in ("when", "when_not") else draw(st.lists(st.sampled_from(VALS), max_size=3))
        out.append([kind, key, v])
    return out


def active(conds, cfg):
    for kind, key, v in conds:
        c = cfg.get(key)
        ok = {"when": lambda: c == v, "when_not": lambda: c != v, "when_in": lambda: c in v, "when_not_in": lambda: c not in v}[kind]()
        if not ok:
            return False
    return True


@st.composite
def step_(draw, i, allow_pos=True):
    fn = draw(st.sampled_from(sorted(SIGS)))
    kw = {}
    for p in SIGS[fn]:
        if not p.endswith("?") or draw(st.booleans()):
            kw[p.rstrip("?")] = draw(binding())
    npos = draw(st.integers(0, len(kw))) if allow_pos and draw(st.integers(0, 3)) == 0 else 0
    # positional arguments must be a prefix of the signature
    order = [p.rstrip("?") for p in SIGS[fn]]
    while npos and any(o not in kw for o in order[:npos]):
        npos -= 1
    return {"fn": fn, "kw": kw, "npos": npos, "cond": draw(cond()), "name": draw(st.sampled_from([None, None, None, "nm%d" % i]))}


@st.composite
def case_(draw):
    params = draw(st.permutations(["x", "y", "n0", "p", "q"]))[:draw(st.integers(1, 3))]
    c = {"params": list(params), "kind": draw(st.sampled_from(["in", "out", "both", "in2", "mutate", "fields", "fields_mutate"])),
         "async": draw(st.integers(0, 4)) == 0,
         "async_steps": draw(st.booleans()),
         "configs": draw(st.lists(st.dictionaries(st.sampled_from(KEYS), st.sampled_from(VALS), max_size=3), min_size=1, max_size=2))}
    if c["kind"] in ("in", "both", "in2"):
        c["in"] = [draw(step_(i)) for i in range(draw(st.integers(0, 4)))]
        c["in_target"] = draw(st.sampled_from([None] + list(params)))
        c["in_ns"] = draw(st.sampled_from(["...", "...", "None", "'nsp'"]))
        if c["kind"] == "in2":
            c["in2"] = [draw(step_(10 + i)) for i in range(draw(st.integers(0, 3)))]
            c["in2_target"] = draw(st.sampled_from(params))
    if c["kind"] in ("out", "both"):
        c["out"] = [draw(step_(20 + i)) for i in range(draw(st.integers(0, 4)))]
        if c["kind"] == "both":
            c["in_ns"] = "'nsp'"  # the same step in both pipes needs two namespaces
        c["out_ns"] = draw(st.sampled_from(["...", "...", "None", "'nso'"]))
    if c["kind"] == "mutate":
        c["muts"] = [draw(step_(30 + i, allow_pos=False)) for i in range(draw(st.integers(1, 4)))]
        for m in c["muts"]:
            m["bare"] = draw(st.booleans()) and not m["cond"] and not m["name"]
            m["other"] = draw(st.booleans())
    if c["kind"] in ("fields", "fields_mutate"):
        c["out"] = []
        for i in range(draw(st.integers(1, 4))):
            s = draw(step_(40 + i, allow_pos=c["kind"] == "fields"))
            s["target"] = draw(st.sampled_from([None, "f0", ["f1"], ["f0", "f00"], ["f0", "f1", "f00"]]))
            c["out"].append(s)
        c["gtarget"] = draw(st.sampled_from([None, None, "f1", ["f0", "f00"]])) if c["kind"] == "fields" else None
        if c["gtarget"] is not None:
            for s in c["out"]:
                s["target"] = None
    return c


def rb(b):
    return {"raw": "%r", "value": "value(%r)", "source": "source(%r)"}[b[0]] % (b[1],)


def mods(s):
    out = "".join(".%s(%s=%r)" % tuple(c) for c in s["cond"])
    if s.get("target") is not None:
        out += ".on_output(%r)" % (s["target"],)
    if s["name"]:
        out += ".named(%r)" % s["name"]
    return out


def rs(s):
    order = [p.rstrip("?") for p in SIGS[s["fn"]]]
    args = [s["fn"]]
    for i, p in enumerate(order):
        if p in s["kw"]:
            args.append(rb(s["kw"][p]) if i < s["npos"] else "%s=%s" % (p, rb(s["kw"][p])))
    return "step(%s)%s" % (", ".join(args), mods(s))


def step_src(name, sig, alias=None, first="v", is_async=False):
    ps = ["%s: Any" % first] + [p.rstrip("?") + (": int = 77" if p.endswith("?") else ": int") for p in sig]
    kw = ", ".join("%r: %s" % (p.rstrip("?"), p.rstrip("?")) for p in sig)
    return "%sdef %s(%s) -> %s:\n    return _REC.call(%r, 'int', 'normal', {'v': %s%s})\n\n" % ("async " if is_async else "", name, ", ".join(ps), RET[alias or name], alias or name, first, ", " + kw if kw else "")


def render(case):
    src = "def n0(x: int) -> int:\n    return x + 1000\n\ndef n1(n0: int, y: int) -> int:\n    return n0 * 7 + y\n\n"
    for n, sig in SIGS.items():
        if n != "s4":
            src += step_src(n, sig, is_async=case["async"] and case["async_steps"] and n in ("_s0", "_s2"))
    # a public step function becomes a node of its own: keep it out of the module's namespace
    src += "def _mk():\n" + "".join("    " + l + "\n" for l in step_src("s4", SIGS["s4"]).rstrip().splitlines()) + "    s4.__module__ = 'vlib.values'\n    return s4\ns4 = _mk()\n\n"
    k = case["kind"]
    decs = []
    if k in ("in", "both", "in2"):
        # the stacked order: decorators closest to the function are written last
        decs.append("@pipe_input(%s)" % ", ".join([rs(s) for s in case["in"]] + ["namespace=" + case["in_ns"]] + (["on_input=%r" % case["in_target"]] if case["in_target"] else [])))
        if k == "in2":
            decs.append("@pipe_input(%s)" % ", ".join([rs(s) for s in case["in2"]] + ["namespace='second'", "on_input=%r" % case["in2_target"]]))
    if k in ("out", "both"):
        decs.append("@pipe_output(%s)" % ", ".join([rs(s) for s in case["out"]] + ["namespace=" + case["out_ns"]]))
    if k == "fields":
        decs.append("@pipe_output(%s)" % ", ".join([rs(s) for s in case["out"]] + (["on_output=%r" % (case["gtarget"],)] if case["gtarget"] is not None else [])))
    f = {"name": "fin", "params": [{"name": p, "ann": "Any"} for p in case["params"]], "ret": "int", "mode": "normal", "async": case["async"]}
    if k in ("fields", "fields_mutate"):
        decs.append("@extract_fields({'f0': int, 'f1': int, 'f00': int})")
        src += "\n".join(decs) + "\n%sdef fin(%s) -> dict:\n    v = _REC.call('fin', 'int', 'normal', {%s})\n    return {'f0': v, 'f1': v + 1, 'f00': v + 2}\n\n" % (
            "async " if case["async"] else "", ", ".join("%s: Any" % p for p in case["params"]), ", ".join("%r: %s" % (p, p) for p in case["params"]))
    else:
        src += dags.fn_source(f, decs) + "\n"
    if k == "mutate":
        src += dags.fn_source({"name": "other", "params": [{"name": "y", "ann": "int"}], "ret": "int", "mode": "normal", "async": case["async"]}) + "\n"
    for i, s in enumerate(case.get("muts", []) if k == "mutate" else case["out"] if k == "fields_mutate" else []):
        args = []
        kw = ", ".join("%s=%s" % (p, rb(b)) for p, b in s["kw"].items())
        if s.get("bare"):
            args = ["fin"] + (["other"] if s["other"] else []) + ([kw] if kw else [])
        else:
            args = ["apply_to(fin%s)%s" % (", " + kw if kw else "", mods(s))]
            if s.get("other"):
                args.append("apply_to(other%s)%s" % (", " + kw if kw else "", mods(s)))
        src += "@mutate(%s)\n" % ", ".join(args) + step_src("_m%d" % i, SIGS[s["fn"]], alias=s["fn"])
    src += "def down(%s: Any) -> int:\n    return _REC.call('down', 'int', 'normal', {'v': %s})\n" % (("f0", "f0") if k.startswith("fields") else ("fin", "fin"))
    return src


def apply(steps, v, env, cfg, calls):
    for s in steps:
        if not active(s["cond"], cfg):
            continue
        kw = {"v": v}
        for p in SIGS[s["fn"]]:
            n = p.rstrip("?")
            if n in s["kw"]:
                b = s["kw"][n]
                kw[n] = env[b[1]] if b[0] == "source" else b[1]
            else:
                kw[n] = 77
        v = dags.node_value(s["fn"], "int", "normal", kw)
        calls.append(s["fn"])
    return v


def typ(steps, cfg):
    on = [s for s in steps if active(s["cond"], cfg)]
    return PY[RET[on[-1]["fn"]]] if on else int


def check(case, ctx):
    mod = dags.make_module(render(case), header=HEADER)
    try:
        for cfg in case["configs"]:
            check1(case, ctx, mod, cfg)
    finally:
        dags.drop_modules([mod])


def check1(case, ctx, mod, cfg):
    k = case["kind"]
    # names of steps within one namespace must be unique: 'named' steps have unique names by construction
    env = {"x": 3, "y": 5, "p": 11, "q": 13}
    env["n0"] = env["x"] + 1000
    env["n1"] = env["n0"] * 7 + env["y"]
    calls, types = [], {}
    kw = {p: env[p] for p in case["params"]}
    want = {}
    if k in ("in", "both", "in2"):
        t = case["in_target"] or case["params"][0]
        if k == "in2":
            t2 = case["in2_target"]
            if t2 == t or any(b == ["source", t] for s in case["in2"] for b in s["kw"].values()):
                return  # an outer pipe applies to the dataflow the inner one produced: not specified
            kw[t2] = apply(case["in2"], kw[t2], env, cfg, calls)
        kw[t] = apply(case["in"], kw[t], env, cfg, calls)
    calls.append("fin")
    v = dags.node_value("fin", "int", "normal", kw)
    if k in ("fields", "fields_mutate"):
        want["fin"] = {"f0": v, "f1": v + 1, "f00": v + 2}
        for f in ("f0", "f1", "f00"):
            steps = []
            for s in case["out"]:
                t = case["gtarget"] if case["gtarget"] is not None else s["target"]
                if t is None or f == t or (isinstance(t, list) and f in t):
                    steps.append(s)
            want[f] = apply(steps, want["fin"][f], env, cfg, calls)
            types[f] = typ(steps, cfg)
        last = want["f0"]
    else:
        if k in ("out", "both"):
            v = apply(case["out"], v, env, cfg, calls)
            types["fin"] = typ(case["out"], cfg)
        if k == "mutate":
            v = apply(case["muts"], v, env, cfg, calls)
            o = dags.node_value("other", "int", "normal", {"y": env["y"]})
            calls.append("other")
            types["fin"], types["other"] = typ(case["muts"], cfg), typ([m for m in case["muts"] if m["other"]], cfg)
            want["other"] = apply([m for m in case["muts"] if m["other"]], o, env, cfg, calls)
        want["fin"] = v
        last = v
    want["down"] = dags.node_value("down", "int", "normal", {"v": last})
    calls.append("down")
    seen = {}
    if case["async"]:
        async def go():
            dr = await async_driver.Builder().with_modules(mod).with_config(cfg).build()
            have = {n.name: n.type for n in dr.list_available_variables()}
            REC.reset()
            seen.update(have)
            return await dr.execute(sorted(want), inputs={a: b for a, b in env.items() if a in ("x", "y", "p", "q") and a in have})
        got = asyncio.run(go())
    else:
        dr = make_driver([mod], "builder", cfg)
        have = {n.name: n.type for n in dr.list_available_variables()}
        REC.reset()
        seen.update(have)
        got = dr.execute(sorted(want), inputs={a: b for a, b in env.items() if a in ("x", "y", "p", "q") and a in have})
    for n in want:
        require(same(got[n], want[n]), "%s pipeline: node %s is %r, plain composition gives %r (calls %s, expected %s)", k, n, got[n], want[n], REC.names(), calls)
    for n, t in types.items():
        require(seen.get(n) is t, "%s pipeline: node %s has type %s, its last active step returns %s", k, n, seen.get(n), t)
    require(sorted(REC.names()) == sorted(calls), "calls %s, expected %s", REC.names(), calls)
    ctx.note("kind:" + k, "async" if case["async"] else "sync")
    nsteps = len(calls)
    alls = case.get("in", []) + case.get("in2", []) + case.get("out", []) + case.get("muts", [])
    if any(s["cond"] for s in alls):
        ctx.note("conditional")
        if not any(active(s["cond"], cfg) for s in alls):
            ctx.note("all-inactive")
    ctx.nontrivial(len(alls) >= 2 or any(s["cond"] for s in alls))


PARTS = [Part("pipes", case_, check, 12000, 150000, "two or more steps, or a conditional step", shards=8, tshards=8)]
