"""C33: tracking records the run truthfully and never disturbs it."""
import asyncio, collections, copy, dataclasses, datetime, enum, json, logging, math, os, threading, time, warnings
from collections import Counter
from hypothesis import strategies as st
from vlib.core import Part, Violation, require
from vlib import dags
from vlib.dags import REC, decode, same
from vlib.drv import make_driver
from vlib.gen import plain_case
from vlib import track
from checks import C12
from checks.C11 import executor

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
from hamilton_sdk import adapters as sdk_adapters  # noqa: E402
from hamilton_sdk.api import clients  # noqa: E402
from hamilton_sdk.tracking import constants, runs, utils  # noqa: E402
from hamilton import async_driver, driver, node  # noqa: E402

LEVEL = "exploration"
TECH = "property-based testing: generated dataflows, values, failures, schedules and delivery faults; what a loopback backend receives against the recorded execution"


class FastClient(clients.BasicSynchronousHamiltonClient):
    """The real client with a short flush interval."""
    flush_interval = property(lambda self: 0.02, lambda self, v: None)


class LazyClient(clients.BasicSynchronousHamiltonClient):
    """The real client with an interval that does not pass during a case unless it is stopped."""
    flush_interval = property(lambda self: 0.3, lambda self, v: None)


class FastAsync(clients.BasicAsynchronousHamiltonClient):
    flush_interval = property(lambda self: 0.02, lambda self, v: None)


class Boom(Exception):
    pass


WEIRD = ["nan", "inf", "obj", "set", "bytes", "class", "dcls", "cycle", "intkeys", "tuplekeys", "badstr", "frame", "series", "nparr", "npint", "npfloat", "date", "enum", "nested_nan", "decimal", "fn", "emptyframe", "nul", "deep", "npnan", "pydate", "lam", "mod"]


class Color(enum.Enum):
    RED = (1, 2)
    OBJ = object()


@dataclasses.dataclass
class Pt:
    x: object = 1
    y: object = dataclasses.field(default_factory=lambda: [1])


class BadStr:
    def __str__(self):
        raise RuntimeError("no str")
    __repr__ = __str__


def weird(k):
    import decimal
    import numpy as np
    import pandas as pd
    if k == "cycle":
        a = [1]
        a.append(a)
        return a
    if k == "deep":
        a = []
        for _ in range(60):
            a = [a]
        return a
    return {"nan": lambda: math.nan, "inf": lambda: -math.inf, "obj": lambda: object(), "set": lambda: {1, 2}, "bytes": lambda: b"\xff\x00", "class": lambda: int, "dcls": lambda: Pt,
            "intkeys": lambda: {1: "a", None: 2}, "tuplekeys": lambda: {(1, 2): 3}, "badstr": lambda: BadStr(), "frame": lambda: pd.DataFrame({"a": [1, 2], "b": [1.5, math.nan]}),
            "series": lambda: pd.Series([1.0, math.nan], name="s"), "nparr": lambda: np.array([[1, 2], [3, 4]]), "npint": lambda: np.int64(3), "npfloat": lambda: np.float64(2.5),
            "date": lambda: datetime.datetime(2020, 1, 2), "enum": lambda: [Color.RED, Color.OBJ], "nested_nan": lambda: {"a": [1, math.nan, {"b": math.inf}]}, "decimal": lambda: decimal.Decimal("1.5"),
            "fn": lambda: len, "emptyframe": lambda: pd.DataFrame(), "nul": lambda: "a\x00b", "npnan": lambda: np.array([1.0, math.nan]), "pydate": lambda: datetime.date(2020, 1, 2),
            "lam": lambda: (lambda: 1), "mod": lambda: json}[k]()


def tracker(be, factory=FastClient, **kw):
    return sdk_adapters.HamiltonTracker(project_id=1, username="u", dag_name=kw.pop("dag_name", "d"), client_factory=factory, api_key="k", hamilton_api_url=be.url, hamilton_ui_url=be.url, **kw)


def nofile(mods):
    """generated modules have no file (like modules made in a notebook); the tracker reads module files"""
    for m in mods:
        m.__dict__.setdefault("__vfile__", m.__file__)
        m.__file__ = None
    return mods


def drop(mods):
    for m in mods:
        if "__vfile__" in m.__dict__:
            m.__file__ = m.__vfile__
    dags.drop_modules(mods)


def stamp(s):
    d = datetime.datetime.fromisoformat(s)
    return (d if d.tzinfo else d.replace(tzinfo=datetime.timezone.utc)).timestamp()


# ---------------------------------------------------------------- runs
@st.composite
def runs_(draw):
    c = draw(plain_case(allow_overrides=True, dag_kw=dict(max_fns=7, min_fns=2)))
    k = draw(st.sampled_from(["builder", "builder", "task", "task"]))
    if k == "task":
        k = "task:%s:%s:%s" % (draw(st.sampled_from(["default", "nodes", "asone", "level"])), draw(executor()), draw(executor()))
    c["mode"] = k
    fns = [f["name"] for f in c["dag"]["fns"]]
    c["weird"] = {n: draw(st.sampled_from(WEIRD)) for n in draw(st.lists(st.sampled_from(fns), max_size=2, unique=True))} if draw(st.integers(0, 2)) == 0 else {}
    c["extra"] = draw(st.lists(st.sampled_from(WEIRD), max_size=2)) if draw(st.integers(0, 2)) == 0 else []
    c["runs"] = [{"fail": draw(st.sampled_from(fns)) if draw(st.integers(0, 2)) == 0 else None, "ov": draw(st.booleans())} for _ in range(draw(st.integers(1, 3)))]
    c["tags"] = draw(st.sampled_from([None, {}, {"env": "x"}]))
    c["batch"] = draw(st.sampled_from([100, 100, 1, 3]))
    return c


def alike(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        return bool(same(a, b)) or repr(a) == repr(b)
    except Exception:  # noqa: BLE001
        return type(a).__module__ != "builtins" and repr(a) == repr(b)


def execute(dr, reqs, inputs, ov, fail, c):
    REC.reset()
    if fail is not None:
        REC.fail = {fail: Boom("planned " + fail)}
    starts = []

    def extra(name, kw):
        starts.append((name, time.time()))
    REC.extra = extra
    try:
        try:
            r = ("ok", dr.execute(list(reqs), inputs=dict(inputs), overrides=dict(ov)))
        except Exception as e:  # noqa: BLE001
            r = ("err", e)
        return r, list(REC.calls), starts
    finally:
        REC.reset()


def check_record(name, rec, params, failed, starts, run, where):
    last = rec["last"]
    require(last["node_template_name"] == name, "%s: template name %r for node %s", where, last["node_template_name"], name)
    require(last["node_name"] == name or last["node_name"].endswith("-" + name), "%s: %r reported for node %s", where, last["node_name"], name)
    require(set(last["realized_dependencies"]) == set(params), "%s: dependencies of %s are reported as %r instead of %r", where, name, last["realized_dependencies"], params)
    want = "FAILURE" if failed else "SUCCESS"
    require(last["status"] == want, "%s: %s is reported as %s, it was a %s", where, name, last["status"], want)
    require([u["status"] for u in rec["all"] if u["status"] not in ("RUNNING", want)] == [], "%s: %s passes through %r", where, name, [u["status"] for u in rec["all"]])
    require(last.get("start_time") and last.get("end_time"), "%s: %s has no start or end time: %r", where, name, last)
    a, b = stamp(last["start_time"]), stamp(last["end_time"])
    require(a <= b, "%s: %s ends before it starts", where, name)
    if starts:
        require(any(a - 2e-4 <= t <= b + 2e-4 for t in starts), "%s: %s was called at %r but is reported to run from %r to %r", where, name, starts, a, b)
    roles = Counter(x["attribute_role"] for x in rec["attrs"])
    if failed:
        require(roles["error"] == 1 and len(roles) == 1, "%s: failed node %s has attributes %r", where, name, rec["attrs"])
        tb = "".join([x for x in rec["attrs"] if x["attribute_role"] == "error"][0]["value"]["stack_trace"])
        require("planned " + failed in tb, "%s: the stack trace of %s does not contain its error: %r", where, name, tb)
    else:
        require(roles["error"] == 0, "%s: node %s succeeded but has an error: %r", where, name, rec["attrs"])
        rs = [x for x in rec["attrs"] if x["name"] == "result_summary"]
        require(len(rs) == 1, "%s: node %s has %d result summaries", where, name, len(rs))
        return rs[0]


def check_runs(c, ctx):
    spec = c["dag"]
    be = track.backend()
    mods = nofile(dags.build_modules(spec))
    tr = None
    vals = {n: weird(k) for n, k in c["weird"].items()}
    inputs0 = {k: decode(v) for k, v in c["inputs"].items()}
    ovs = {k: decode(v) for k, v in (c.get("overrides") or {}).items()}
    extra_in = {"zz%d" % i: weird(k) for i, k in enumerate(c["extra"])}
    fns = dags.fn_map(spec)
    old = dags.node_value
    try:
        dags.node_value = lambda name, ret, mode, kw: vals[name] if name in vals else old(name, ret, mode, kw)
        config = {k: decode(v) for k, v in (c.get("config") or {}).items()}
        plain = make_driver(mods, c["mode"], config=config)
        tr = tracker(be, tags=c["tags"])
        tr.client.max_batch_size = c["batch"]
        dr = make_driver(mods, c["mode"], config=config, adapters=[tr])
        expected = []
        for i, r in enumerate(c["runs"]):
            ov = ovs if r["ov"] else {}
            inputs = {**inputs0, **extra_in}
            want, wcalls, _ = execute(plain, c["requests"], inputs, ov, r["fail"], c)
            got, calls, starts = execute(dr, c["requests"], inputs, ov, r["fail"], c)
            where = "run %d" % i
            require(want[0] == got[0], "%s: without tracking %r, with tracking %r (%r)", where, want, got, getattr(got[1], "__cause__", None))
            if want[0] == "ok":
                require(list(want[1]) == list(got[1]) and all(alike(want[1][k], got[1][k]) for k in want[1]), "%s: results differ with tracking: %r, %r", where, list(want[1]), list(got[1]))
            else:
                require(type(want[1]) is type(got[1]) and str(want[1]) == str(got[1]), "%s: raised %r without tracking, %r with tracking", where, want[1], got[1])
            require("fail" in c or Counter(n for n, _ in calls) == Counter(n for n, _ in wcalls) or c["mode"].startswith("task"), "%s: calls differ with tracking", where)
            if want[0] == "err" and not isinstance(want[1], Boom):
                expected.append(None)
                continue
            expected.append((got, calls, starts, inputs, r["fail"]))
        t0 = time.time()
        tr.stop()
        require(time.time() - t0 < 20, "stopping the tracker took %.1f s", time.time() - t0)
        require(not be.problems, "the backend could not read what was sent: %s", be.problems[:2])
        started = [be.runs[i] for i in be.order]
        require(len(started) == sum(e is not None for e in expected) or None in expected, "%d executions, %d runs reported", len(expected), len(started))
        require(len(be.templates) == 1, "%d templates registered for one driver", len(be.templates))
        tpl = list(be.templates.values())[0]
        want_nodes = {v.name: v for v in dr.list_available_variables()}
        require(Counter(n["name"] for n in tpl["nodes"]) == Counter(list(want_nodes)), "template nodes %r, dataflow %r", [n["name"] for n in tpl["nodes"]], list(want_nodes))
        for n in tpl["nodes"]:
            wp = set(fns[n["name"]]["order"] if "order" in fns.get(n["name"], {}) else [p["name"] for p in fns[n["name"]]["params"]]) if n["name"] in fns else set()
            require(set(n["dependencies"]) == wp, "template: %s depends on %r instead of %r", n["name"], n["dependencies"], wp)
            require(n["classifications"] == (["transform"] if n["name"] in fns else ["input"]), "template: %s is a %r", n["name"], n["classifications"])
        if None in expected:
            ctx.note("refused")
            return
        total = 0
        for i, (r, (got, calls, starts, inputs, fail)) in enumerate(zip(started, expected)):
            where = "run %d" % i
            require(r["template"] == tpl["id"], "%s: reported under template %r", where, r["template"])
            require(set(r["start"]["inputs"]) == set(inputs), "%s: inputs %r reported, %r given", where, r["start"]["inputs"], list(inputs))
            for k, v in inputs.items():
                if type(v) in (int, str, bool) and "\x00" not in str(v) or v is None:
                    require(r["start"]["inputs"][k] == v, "%s: input %s is %r, reported %r", where, k, v, r["start"]["inputs"][k])
            require(sorted(r["start"]["outputs"]) == sorted(c["requests"]), "%s: outputs %r reported, %r requested", where, r["start"]["outputs"], c["requests"])
            require(r["start"]["tags"] == (c["tags"] or {}), "%s: tags %r", where, r["start"]["tags"])
            require([e["run_status"] for e in r["ends"]] == ["SUCCESS" if got[0] == "ok" else "FAILURE"], "%s ended %r, reported %r", where, got[0], r["ends"])
            recs = track.merged(r)
            by = collections.defaultdict(list)
            for nn, rec in recs.items():
                require(rec["all"], "%s: attributes without a task update for %s", where, nn)
                by[rec["last"]["node_template_name"]].append(rec)
            called = Counter(n for n, _ in calls)
            require(Counter({k: len(v) for k, v in by.items()}) == called, "%s: functions called %r, tasks reported %r", where, dict(called), {k: len(v) for k, v in by.items()})
            for n, rl in by.items():
                params = [p["name"] for p in fns[n]["params"]]
                rs = check_record(n, rl[0], params, n == fail and fail, [t for m, t in starts if m == n], r, where)
                v = got[1].get(n, REC) if got[0] == "ok" else REC
                if rs and type(v) in (int, bool, str) and "\x00" not in str(v):
                    require(rs["type"] == "primitive" and rs["value"]["value"] == v and type(rs["value"]["value"]) is type(v), "%s: %s is %r, reported as %r", where, n, v, rs)
                total += 1
        ctx.note("mode:" + c["mode"].split(":")[0], *["weird:" + k for k in sorted(set(c["weird"].values()) | set(c["extra"]))])
        if any(r["fail"] for r in c["runs"]):
            ctx.note("failure")
        ctx.nontrivial(total >= 3)
    finally:
        dags.node_value = old
        if tr is not None and tr.client.running:
            tr.stop()
        drop(mods)


# ---------------------------------------------------------------- parallel blocks
@st.composite
def par_(draw):
    c = draw(C12.case_())
    c["mode"] = "task:default:%s:%s" % (draw(executor()), draw(st.sampled_from(["thread1", "thread2", "thread4", "thread4", "sync"])))
    c["sleep"] = draw(st.sampled_from([0, 1, 3]))
    bodies = [it["name"] for it in c["items"] if it["t"] == "body"]
    c["failcall"] = [draw(st.sampled_from(bodies)), draw(st.integers(0, 4))] if draw(st.integers(0, 3)) == 0 else None
    c["sample"] = draw(st.sampled_from([None, None, None, 2, 3, 1.0, 0.0]))
    return c


def check_par(c, ctx):
    be = track.backend()
    mod = nofile([dags.make_module(C12.render(c), header=C12.HEADER)])[0]
    tr = None
    try:
        tr = tracker(be)
        tr.special_parallel_sample_strategy = c["sample"]
        dr = make_driver([mod], c["mode"], adapters=[tr])
        have = {v.name for v in dr.list_available_variables()}
        inputs = {k: v for k, v in c["inputs"].items() if k in have}
        if c["optval"] is not None and "o" in have:
            inputs["o"] = c["optval"]
        by = {it["name"]: it for it in c["items"]}
        REC.reset()
        seen = []
        lock = threading.Lock()
        hits = Counter()
        boom = Boom("planned boom")

        def extra(name, kw):
            with lock:
                seen.append((name, dags.node_value(name, "int", "normal", kw), time.time()))
                hits[name] += 1
                h = hits[name] - 1
            if by[name]["t"] == "body" and c["sleep"]:
                time.sleep(c["sleep"] / 1000)
            if c["failcall"] is not None and name == c["failcall"][0] and h == c["failcall"][1]:
                failed.append((name, seen[-1][1]))
                raise boom
        failed = []
        REC.extra = extra
        try:
            got = dr.execute(list(c["requests"]), inputs=dict(inputs), overrides=dict(c["overrides"]))
            err = None
        except Exception as e:  # noqa: BLE001
            got, err = None, e
        if c["failcall"] is None or not failed:
            want, _ = C12.evaluate(c)
            require(err is None, "with tracking the execution raised %r", err)
            for n in want:
                require(same(got[n], want[n]), "with tracking node %s is %r instead of %r", n, got[n], want[n])
        else:
            require(err is boom or isinstance(err, Boom), "with tracking the execution raised %r instead of the planned error", err)
        tr.stop()
        require(not be.problems, "the backend could not read what was sent: %s", be.problems[:2])
        require(len(be.order) == 1, "%d runs reported", len(be.order))
        r = be.runs[be.order[0]]
        require([e["run_status"] for e in r["ends"]] == ["SUCCESS" if err is None else "FAILURE"], "run end %r", r["ends"])
        recs = track.merged(r)
        groups = collections.defaultdict(list)
        for nn, rec in recs.items():
            require(rec["all"], "attributes without a task update for %s", nn)
            require(nn.endswith("-" + rec["last"]["node_template_name"]), "task %r of node %r", nn, rec["last"]["node_template_name"])
            groups[rec["last"]["node_template_name"]].append(rec)
        callgroups = collections.defaultdict(list)
        for n, v, t in seen:
            callgroups[n].append((v, t))
        if err is not None:
            ctx.note("failure")
            # tasks in flight when the run failed may or may not be reported; reported ones must be true
        for n in set(groups) | set(callgroups):
            it = by[n]
            sampled = c["sample"] is not None and it["t"] in ("body",)
            if err is None and not sampled:
                require(len(groups[n]) == len(callgroups[n]), "%s was called %d times, %d tasks reported", n, len(callgroups[n]), len(groups[n]))
            require(len(groups[n]) <= len(callgroups[n]), "%s was called %d times, %d tasks reported", n, len(callgroups[n]), len(groups[n]))
            if sampled and c["sample"] == 0.0:
                require(not [g for g in groups[n] if g["last"]["status"] != "FAILURE"], "%s is reported though nothing is sampled", n)
            if sampled and c["sample"] == 1.0 and err is None:
                require(len(groups[n]) == len(callgroups[n]), "%s was called %d times, %d tasks reported though everything is sampled", n, len(callgroups[n]), len(groups[n]))
            have_f = Counter()
            for g in groups[n]:
                last = g["last"]
                if last["status"] == "RUNNING" and err is not None:
                    continue
                isf = last["status"] == "FAILURE"
                require(not isf or any(f[0] == n for f in failed), "%s is reported as a failure", n)
                have_f[isf] += 1
                cands = [t for v, t in callgroups[n] if isf == ((n, v) in failed) or (n, v) in failed]
                params = list(it["params"]) + ([it["of"]] if it["t"] == "collect" else []) + (["o"] if it.get("opt") else [])
                rs = check_record(n, g, params, isf and "boom", cands if it["t"] != "expand" else [], r, "parallel")
                if rs is not None and it["t"] in ("body", "fn", "collect"):
                    v = rs["value"].get("value")
                    ts = [t for w, t in callgroups[n] if w == v]
                    require(ts, "%s returned %r, reported %r", n, [w for w, _ in callgroups[n]], v)
                    a, b = stamp(last["start_time"]), stamp(last["end_time"])
                    require(any(a - 2e-4 <= t <= b + 2e-4 for t in ts), "%s with result %r was called at %r but is reported to run from %r to %r", n, v, ts, a, b)
            if err is None and not sampled:
                vals = Counter(v for v, _ in callgroups[n])
                if it["t"] in ("body", "fn", "collect"):
                    rep = Counter([x["value"].get("value") for g in groups[n] for x in g["attrs"] if x["name"] == "result_summary"])
                    require(rep == vals, "%s returned %r, reported %r", n, vals, rep)
        ctx.note("remote:" + c["mode"].split(":")[3], "sample:%r" % c["sample"])
        ctx.nontrivial(any(len(v) > 1 for v in callgroups.values()))
    finally:
        REC.reset()
        if tr is not None and tr.client.running:
            tr.stop()
        drop([mod])


# ---------------------------------------------------------------- delivery
@st.composite
def delivery_(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.just("put"), st.integers(0, 2), st.integers(1, 3)), st.tuples(st.just("sleep"), st.sampled_from([0, 5, 40])),
                                  st.tuples(st.just("weird"), st.integers(0, 2), st.sampled_from(WEIRD))), min_size=1, max_size=14))
    return {"ops": [list(o) for o in ops], "batch": draw(st.sampled_from([1, 2, 100])), "fast": draw(st.booleans()), "fail": draw(st.lists(st.sampled_from(["", "", "500", "drop", "503"]), max_size=4)) if draw(st.integers(0, 2)) == 0 else []}


def check_delivery(c, ctx):
    be = track.backend()
    cl = (FastClient if c["fast"] else LazyClient)("k", "u", be.url)
    cl.max_batch_size = c["batch"]
    ids = [cl.create_and_start_dag_run(1, {}, {}, []) for _ in range(3)]
    be.fail = list(c["fail"])
    want = collections.defaultdict(list)
    n = 0
    try:
        for o in c["ops"]:
            if o[0] == "sleep":
                time.sleep(o[1] / 1000)
                continue
            k = o[2] if o[0] == "put" else 1
            ats, ups = [], []
            for _ in range(k):
                n += 1
                ups.append({"node_template_name": "n%d" % n, "node_name": "n%d" % n, "status": runs.Status.SUCCESS, "start_time": datetime.datetime.now(datetime.timezone.utc), "end_time": None, "realized_dependencies": []})
                ats.append({"node_name": "n%d" % n, "name": "result_summary", "type": "primitive", "schema_version": 1, "value": {"value": weird(o[2]) if o[0] == "weird" else n}, "attribute_role": "result_summary"})
                want[ids[o[1]]].append("n%d" % n)
            cl.update_tasks(ids[o[1]], attributes=ats, task_updates=ups, in_samples=[True] * k)
        th = threading.Thread(target=cl.stop, daemon=True)
        th.start()
        th.join(30)
        require(not th.is_alive(), "stop() did not return within 30 s")
    finally:
        cl.running = False
    require(not be.problems, "the backend could not read what was sent: %s", be.problems[:2])
    failures = len(c["fail"]) - len([x for x in be.fail if x])
    lost = 0
    for i in ids:
        r = be.runs[i]
        u, a = Counter(x["node_name"] for x in r["updates"]), Counter(x["node_name"] for x in r["attributes"])
        require(u == a, "updates %r and attributes %r delivered differ", u, a)
        require(not (u - Counter(want[i])), "run %d: delivered %r, recorded %r", i, u, want[i])
        lost += len(want[i]) - sum(u.values())
    used = [x for x in c["fail"][:len(c["fail"]) - len(be.fail)] if x]
    if not used:
        require(lost == 0, "%d of %d records were not delivered by the time the client was stopped (batch size %d)", lost, n, c["batch"])
    else:
        ctx.note("fault:" + used[0])
        # a request that failed may lose its own records, never those of later requests
        require(lost <= len(used) * max(c["batch"] * 3, 3), "%d of %d records lost to %d failed requests (batch size %d)", lost, n, len(used), c["batch"])
    ctx.nontrivial(n >= 3)


# ---------------------------------------------------------------- json safety
def jsonish():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=5).filter(lambda s: "\x00" not in s and s.isprintable()))
    return st.recursive(leaf, lambda ch: st.one_of(st.lists(ch, max_size=4), st.dictionaries(st.text(alphabet="abk", max_size=3), ch, max_size=4)), max_leaves=12)


@st.composite
def safe_(draw):
    base = draw(jsonish())
    return {"base": base, "weird": draw(st.one_of(st.none(), st.sampled_from(WEIRD))), "wrap": draw(st.lists(st.sampled_from(["list", "dict", "tuple", "dc", "intkey"]), max_size=3)), "name": draw(st.sampled_from(["n", "x_y"]))}


def has_bad(c):
    return c["weird"] is not None or any(w in ("tuple", "dc", "intkey") for w in c["wrap"])


def wrapit(v, ws):
    for w in ws:
        v = {"list": lambda: [0, v], "dict": lambda: {"k": v}, "tuple": lambda: (v, 1), "dc": lambda: Pt(v), "intkey": lambda: {3: v, "3a": 1}}[w]()
    return v


def check_safe(c, ctx):
    v = c["base"]
    if c["weird"] is not None:
        v = [v, weird(c["weird"])]
    v = wrapit(v, c["wrap"])
    before = None if has_bad(c) else copy.deepcopy(v)
    out = utils.make_json_safe(v)
    try:
        s = json.dumps(out, allow_nan=False)
    except Exception as e:  # noqa: BLE001
        raise Violation("make_json_safe(%s) is not JSON: %r" % (c, e))
    if not has_bad(c):
        require(strict_eq(out, v), "make_json_safe changed %r to %r", v, out)
        require(strict_eq(v, before), "make_json_safe modified its argument")
    elif c["weird"] is None:
        require(strict_eq(json.loads(s), plainof(v)), "make_json_safe(%r) is %r", v, out)
    ctx.note("weird:%s" % c["weird"])
    ctx.nontrivial(has_bad(c) or isinstance(v, (list, dict)))


def plainof(v):
    if isinstance(v, dict):
        return {str(k): plainof(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plainof(x) for x in v]
    if isinstance(v, Pt):
        return {"x": plainof(v.x), "y": plainof(v.y)}
    return v


def strict_eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------- statistics
COLS = ["int", "float", "bool", "str", "obj", "cat", "dt", "string", "Int64", "td", "mixed"]


@st.composite
def stats_(draw):
    kind = draw(st.sampled_from(["json", "json", "list", "dict", "frame", "frame", "frame", "series", "np", "pl", "pl", "weird", "pydantic"]))
    c = {"kind": kind}
    if kind == "json":
        c["v"] = draw(jsonish())
    elif kind in ("list", "dict"):
        mx = constants.MAX_LIST_LENGTH_CAPTURE if kind == "list" else constants.MAX_DICT_LENGTH_CAPTURE
        c["n"] = draw(st.sampled_from([0, 1, mx - 1, mx, mx + 1, 2 * mx]))
        c["bad"] = draw(st.booleans())
    elif kind == "weird":
        c["w"] = draw(st.sampled_from(WEIRD))
        c["wrap"] = draw(st.lists(st.sampled_from(["list", "dict", "tuple", "dc", "intkey"]), max_size=2))
    else:
        n = draw(st.integers(0, 7))
        ncol = draw(st.integers(1, 4)) if kind in ("frame", "pl") else 1
        cols = []
        for i in range(ncol):
            t = draw(st.sampled_from(COLS))
            cols.append([draw(st.sampled_from(["a", "b", "c d", "", "x.y", 0, 7])) if kind == "frame" else "c%d" % i, t, [draw(st.integers(-2, 3)) for _ in range(n)], [draw(st.integers(0, 3)) == 0 for _ in range(n)]])
        c["cols"] = cols
    return c


def make_col(t, xs, ms):
    import pandas as pd
    if t == "int":
        return pd.Series(xs, dtype="int64")
    if t == "float":
        return pd.Series([math.nan if m else x / 2 for x, m in zip(xs, ms)], dtype="float64")
    if t == "bool":
        return pd.Series([x > 0 for x in xs], dtype=bool)
    if t in ("str", "obj"):
        return pd.Series([None if m else ("" if x == 0 else "s%d" % x) for x, m in zip(xs, ms)], dtype=object)
    if t == "string":
        return pd.Series([None if m else ("" if x == 0 else "s" * abs(x)) for x, m in zip(xs, ms)], dtype="string")
    if t == "cat":
        return pd.Series([None if m else ("" if x == 0 else "s%d" % x) for x, m in zip(xs, ms)], dtype="category")
    if t == "dt":
        return pd.Series([pd.NaT if m else pd.Timestamp(2020, 1, 3 + x) for x, m in zip(xs, ms)], dtype="datetime64[ns]")
    if t == "td":
        return pd.Series([pd.NaT if m else pd.Timedelta(days=x) for x, m in zip(xs, ms)], dtype="timedelta64[ns]")
    if t == "Int64":
        return pd.Series([pd.NA if m else x for x, m in zip(xs, ms)], dtype="Int64")
    if t == "mixed":
        return pd.Series([[1] if m else x for x, m in zip(xs, ms)], dtype=object)


def stats_oracle(t, xs, ms, pl=False):
    """count, missing and, where defined, other exact statistics computed from the lists"""
    live = [x for x, m in zip(xs, ms) if not m] if t not in ("int", "bool", "mixed") else list(xs)
    o = {"count": len(xs), "missing": len(xs) - len(live)}
    if t in ("int", "float", "Int64"):
        f = (lambda x: x / 2) if t == "float" else (lambda x: x)
        o["zeros"] = sum(x == 0 for x in live)
        o["min"] = f(min(live)) if live else None
        o["max"] = f(max(live)) if live else None
        o["mean"] = f(sum(live) / len(live)) if live else None
    elif t == "bool":
        o["zeros"] = sum(not x > 0 for x in live)
    elif t == "string":
        o["empty"] = sum(x == 0 for x in live)
        o["avg_str_len"] = sum(abs(x) for x in live) / len(live) if live else None
    elif t == "cat":
        o["empty"] = sum(x == 0 for x in live)
        dom = Counter("" if x == 0 else "s%d" % x for x in live)
        o["domain"] = dom
        if dom:
            o["top_freq"] = max(dom.values())
    elif t == "dt":
        import datetime as d
        o["min"] = d.datetime(2020, 1, 3 + min(live)).isoformat() if live else None
        o["max"] = d.datetime(2020, 1, 3 + max(live)).isoformat() if live else None
    return o


def check_stats(c, ctx):
    import pandas as pd
    kind = c["kind"]
    n_ = node.Node("n", object, callabl=lambda: None, input_types={})
    want = None
    if kind == "json":
        v = copy.deepcopy(c["v"])
    elif kind == "list":
        v = [object() if (c["bad"] and i == 0) else i for i in range(c["n"])]
    elif kind == "dict":
        v = {"k%d" % i: object() if (c["bad"] and i == 0) else i for i in range(c["n"])}
    elif kind == "weird":
        v = wrapit(weird(c["w"]), c["wrap"])
    elif kind == "pydantic":
        import pydantic

        class M(pydantic.BaseModel):
            a: int = 1
            b: list = []
        v = M(b=[1, "x"])
    elif kind == "frame":
        seen = {}
        for nm, t, xs, ms in c["cols"]:
            seen[nm] = (t, xs, ms)
        v = pd.DataFrame({nm: make_col(*a) for nm, a in seen.items()})
        want = {nm: stats_oracle(*a) for nm, a in seen.items()}
    elif kind == "series":
        nm, t, xs, ms = c["cols"][0]
        v = make_col(t, xs, ms)
        v.name = "s"
        want = {"s": stats_oracle(t, xs, ms)}
    elif kind == "np":
        import numpy as np
        nm, t, xs, ms = c["cols"][0]
        v = np.array(xs, dtype="int64")
        want = {0: stats_oracle("int", xs, ms)}
    elif kind == "pl":
        import polars
        seen = {}
        d = {}
        for nm, t, xs, ms in c["cols"]:
            t = t if t in ("int", "float", "bool", "string", "cat", "dt") else "int"
            vals = [None if m and t not in ("int", "bool") else x for x, m in zip(xs, ms)]
            conv = {"int": (lambda x: x, polars.Int64), "float": (lambda x: x / 2, polars.Float64), "bool": (lambda x: x > 0, polars.Boolean), "string": (lambda x: "s" * abs(x), polars.Utf8),
                    "cat": (lambda x: "" if x == 0 else "s%d" % x, polars.Categorical), "dt": (lambda x: datetime.datetime(2020, 1, 3 + x), polars.Datetime)}[t]
            d[nm] = polars.Series(nm, [None if x is None else conv[0](x) for x in vals], dtype=conv[1])
            seen[nm] = (t, xs, ms)
        v = polars.DataFrame(d)
        want = {nm: {k: x for k, x in stats_oracle(*a).items() if (a[0], k) not in (("bool", "zeros"), ("cat", "top_freq"))} for nm, a in seen.items()}
    snap = None
    if kind in ("json", "list", "dict"):
        snap = copy.copy(v)
    elif kind in ("frame", "series"):
        snap = v.copy(deep=True)
    stats, schema, additional = runs.process_result(v, n_)
    if snap is not None:
        eq = snap.equals(v) and (kind != "frame" or list(snap.columns) == list(v.columns)) if kind in ("frame", "series") else snap == v
        require(eq, "computing statistics modified the value: %r is now %r", snap, v)
    sent = []
    for o in [stats, schema, *additional]:
        if o is None:
            continue
        for k in ("observability_type", "observability_value", "observability_schema_version"):
            require(k in o, "summary %r has no %s", o, k)
        x = utils.make_json_safe(o)
        try:
            sent.append(json.loads(json.dumps(x, allow_nan=False)))
        except Exception as e:  # noqa: BLE001
            raise Violation("the summary of %s is not JSON: %r" % (c, e))
    if stats is None and kind == "weird" and c["w"] == "badstr":
        ctx.note("a value that cannot even be turned into text")
        return
    require(stats is not None, "no statistics for %s", c)
    val = sent[0]["observability_value"]
    if kind == "json" and isinstance(v, (dict, list)):
        require(sent[0]["observability_type"] == "dict" and strict_eq(val["value"], json.loads(json.dumps(v))), "%r is reported as %r", v, sent[0])
        # later changes of the value must not change what is reported
        if v:
            (v.clear() if isinstance(v, (dict, list)) else None)
            require(utils.make_json_safe(stats)["observability_value"]["value"] == val["value"], "the reported value follows later changes of the value itself")
    elif kind == "json" and v is not None:
        require(val["value"] == v and type(val["value"]) is type(v), "%r is reported as %r", v, sent[0])
    elif kind == "list":
        mx = constants.MAX_LIST_LENGTH_CAPTURE
        got = val["value"]
        trunc = c["n"] > mx
        require(len(got) == min(c["n"], mx) + trunc, "a list of %d elements is reported with %d", c["n"], len(got))
        require(got[1:min(c["n"], mx)] == v[1:mx], "a list is reported as %r", got)
        require((bool(got) and "truncated" in str(got[-1])) == trunc, "a list of %d elements: truncation marker in %r", c["n"], got[-1:])
    elif kind == "dict":
        mx = constants.MAX_DICT_LENGTH_CAPTURE
        got = val["value"]
        trunc = c["n"] > mx
        keys = [k for k in got if k in v]
        require(keys == list(v)[:mx], "a dictionary of %d entries is reported with %d", c["n"], len(keys))
        require(all(got[k] == v[k] for k in keys[1:]), "a dictionary is reported as %r", got)
        require(("__truncated__" in got) == trunc, "a dictionary of %d entries: truncation marker %s", c["n"], "__truncated__" in got)
    elif kind == "pydantic":
        require(val["value"] == {"a": 1, "b": [1, "x"]}, "a model is reported as %r", sent[0])
    elif want is not None:
        require(sent[0]["observability_type"] == "dagworks_describe", "a %s is reported as %r", kind, sent[0])
        cols = {"" + str(k): x for k, x in val.items()}
        require(set(cols) == {str(k) for k in want}, "columns %r are reported as %r", list(want), list(cols))
        for pos, (nm, o) in enumerate(want.items()):
            g = cols[str(nm)]
            require(g.get("pos") == pos, "column %r is at position %r, reported %r", nm, pos, g.get("pos"))
            for k, w in o.items():
                if k not in g and "unknown" in str(g.get("base_data_type")):
                    require(o["count"] == o["missing"], "no statistics for column %r: %r\n%s", nm, g, c)
                    continue  # statistics are best effort where there are no values
                gv = g.get(k)
                if k == "domain":
                    gv = Counter({a: b for a, b in gv.items() if b})
                    gv.pop("null", None), gv.pop("None", None)
                ok = gv == w or (isinstance(w, float) and isinstance(gv, (int, float)) and abs(gv - w) < 1e-9)
                require(ok, "%s of column %r (%r) is %r, reported %r", k, nm, c["cols"], w, gv)
    ctx.note("kind:" + kind)
    ctx.nontrivial(kind not in ("json",) or bool(c["v"]))


# ---------------------------------------------------------------- async
@st.composite
def async_(draw):
    c = draw(plain_case(allow_overrides=False, dag_kw=dict(max_fns=6, min_fns=2)))
    fns = [f["name"] for f in c["dag"]["fns"]]
    for f in c["dag"]["fns"]:
        if draw(st.booleans()):
            f["async"] = True
            f["steps"] = draw(st.sampled_from([0, 1, 3]))
    c["fail"] = draw(st.sampled_from(fns)) if draw(st.integers(0, 2)) == 0 else None
    c["n"] = draw(st.sampled_from([1, 1, 2]))
    c["fault"] = draw(st.sampled_from(["", "", "500", "drop", "400"]))
    return c


def needed(fns, names):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in fns and n not in out:
            out.add(n)
            todo += [p["name"] for p in fns[n]["params"]]
    return out


def check_async(c, ctx):
    spec = c["dag"]
    be = track.backend()
    mods = nofile(dags.build_modules(spec))
    fns = dags.fn_map(spec)
    inputs = {k: decode(v) for k, v in c["inputs"].items()}
    config = {k: decode(v) for k, v in (c.get("config") or {}).items()}
    try:
        async def go():
            tr = await sdk_adapters.AsyncHamiltonTracker(project_id=1, username="u", dag_name="d", client_factory=FastAsync, api_key="k", hamilton_api_url=be.url, hamilton_ui_url=be.url).ainit()
            dr = await async_driver.Builder().with_modules(*mods).with_config(config).with_adapters(tr).build()
            REC.reset()
            if c["fail"]:
                REC.fail = {c["fail"]: Boom("planned " + c["fail"])}
            out = []
            skip = 0
            if c["fault"]:
                # the first delivery fails: its records may be lost, later ones may not
                skip = 1
                be.fail = [c["fault"]]
                try:
                    await dr.execute(list(c["requests"]), inputs=dict(inputs))
                except Boom:
                    pass
                if be.runs[be.order[0]]["ends"] and REC.calls:
                    for _ in range(1500):
                        if not be.fail:
                            break
                        await asyncio.sleep(0.01)
                    require(not be.fail, "nothing was delivered within 15 s")
                be.fail = []
                await asyncio.sleep(0.06)
            for _ in range(c["n"]):
                first = len(REC.calls)
                try:
                    r = ("ok", await dr.execute(list(c["requests"]), inputs=dict(inputs)))
                except Exception as e:  # noqa: BLE001
                    r = ("err", e)
                out.append((r, Counter(n for n, _ in REC.calls[first:])))
            deadline = time.time() + 15
            while time.time() < deadline:
                done = [sum(1 for x in track.merged(be.runs[i]).values() if x["all"] and x["last"]["status"] != "RUNNING") for i in be.order[skip:]]
                if len(done) == len(out) and all(d >= (sum(cl.values()) if r[0] == "ok" else 0) for d, (r, cl) in zip(done, out)) and (c["fail"] is None or all(
                        r[0] == "ok" or any(x["last"]["status"] == "FAILURE" for x in track.merged(be.runs[i]).values() if x["all"]) for i, (r, _) in zip(be.order[skip:], out))):
                    break
                if be.problems:
                    break
                await asyncio.sleep(0.01)
            del be.order[:skip]
            return out
        out = asyncio.run(go())
        require(not be.problems, "the backend could not read what was sent: %s", be.problems[:2])
        require(len(be.order) == len(out), "%d executions, %d runs reported", len(out), len(be.order))
        for i, (r, calls) in zip(be.order, out):
            if r[0] == "ok":
                want = dags.ref_eval(spec, c["requests"], {**config, **inputs})[0]
                for k in want:
                    require(same(r[1][k], want[k]), "with tracking %s is %r instead of %r", k, r[1][k], want[k])
            else:
                require(isinstance(r[1], Boom), "with tracking the execution raised %r", r[1])
            run = be.runs[i]
            require([e["run_status"] for e in run["ends"]] == ["SUCCESS" if r[0] == "ok" else "FAILURE"], "run ended %r, reported %r", r[0], run["ends"])
            recs = {x["last"]["node_template_name"]: x for x in track.merged(run).values() if x["all"]}
            if r[0] == "ok":
                require(set(recs) == set(calls), "functions called %r, tasks reported %r", set(calls), set(recs))
            else:
                # after a failure the other coroutines go on: they may be called later, or be stopped before they are
                ever = {n for n, _ in REC.calls}
                done = {n for n, x in recs.items() if x["last"]["status"] != "RUNNING"}
                require(done <= ever, "functions called %r, tasks reported %r", ever, done)
                require(set(recs) <= needed(fns, c["requests"]), "tasks reported %r, for the request %r", set(recs), c["requests"])
                require(c["fail"] in recs, "the failed function %s is not reported", c["fail"])
            for n, x in recs.items():
                if x["last"]["status"] == "RUNNING" and r[0] == "err":
                    continue
                rs = check_record(n, x, [p["name"] for p in fns[n]["params"]], n == c["fail"] and c["fail"], [], run, "async")
                v = r[1].get(n, REC) if r[0] == "ok" else REC
                if rs and type(v) in (int, bool, str):
                    require(rs["value"]["value"] == v, "%s is %r, reported as %r", n, v, rs)
        ctx.nontrivial(sum(out[0][1].values()) >= 3)
    finally:
        REC.reset()
        drop(mods)


# ---------------------------------------------------------------- one tracker, several drivers
@st.composite
def drivers_(draw):
    return {"n": draw(st.integers(2, 5)), "names": [draw(st.lists(st.sampled_from("abcde"), min_size=1, max_size=4, unique=True)) for _ in range(5)], "keep": [draw(st.booleans()) for _ in range(5)],
            "again": [draw(st.booleans()) for _ in range(5)]}


def check_drivers(c, ctx):
    import gc
    be = track.backend()
    gc.freeze()
    tr = tracker(be)
    kept, mods = [], []
    try:
        runs_seen = 0
        for i in range(c["n"]):
            names = c["names"][i]
            src = "".join("def %s(%s) -> int:\n    return %d\n" % (n, ": int, ".join(names[:j]) + (": int" if j else ""), i * 10 + j) for j, n in enumerate(names))
            mod = nofile([dags.make_module(src)])[0]
            mods.append(mod)
            dr = driver.Builder().with_modules(mod).with_adapters(tr).build()
            for _ in range(1 + c["again"][i]):
                got = dr.execute(list(names))
                require(dict(got) == {n: i * 10 + j for j, n in enumerate(names)}, "driver %d with tracking returns %r", i, got)
                r = be.runs[be.order[-1]]
                runs_seen += 1
                require(len(be.order) == runs_seen, "%d executions, %d runs", runs_seen, len(be.order))
                t = be.templates[r["template"]]
                require(sorted(n["name"] for n in t["nodes"]) == sorted(names), "a run of the dataflow %r is reported as a run of the dataflow %r", sorted(names), sorted(n["name"] for n in t["nodes"]))
            if c["keep"][i]:
                kept.append(dr)
            del dr
            gc.collect()  # what existed before is frozen: see setup
        tr.stop()
        require(not be.problems, "the backend could not read what was sent: %s", be.problems[:2])
        for i in be.order:
            r = be.runs[i]
            t = be.templates[r["template"]]
            require({x["last"]["node_template_name"] for x in track.merged(r).values()} == {n["name"] for n in t["nodes"]}, "tasks %r of a run of %r", list(track.merged(r)), [n["name"] for n in t["nodes"]])
        ctx.nontrivial(not all(c["keep"][:c["n"] - 1]))
    finally:
        if tr.client.running:
            tr.stop()
        drop(mods)


PARTS = [Part("drivers", drivers_, check_drivers, 80, 3000, "a driver is discarded before the next is built", timeout=120),
         Part("runs", runs_, check_runs, 900, 15000, "three or more tasks are reported", shards=3, tshards=3, timeout=120),
         Part("parallel", par_, check_par, 500, 8000, "a function is called for several items", shards=2, tshards=2, timeout=120),
         Part("delivery", delivery_, check_delivery, 240, 4000, "three or more records", shards=3, tshards=2, timeout=120),
         Part("safe", safe_, check_safe, 3000, 60000, "a container or a value JSON does not have"),
         Part("stats", stats_, check_stats, 900, 15000, "not an empty value", shards=4, tshards=4),
         Part("async", async_, check_async, 200, 3000, "three or more functions run", shards=2, tshards=2, timeout=120)]
