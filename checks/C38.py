"""C38: the bundled observers report the run that happened and leave it alone."""
import contextlib, io, json, logging, os, pprint, re, sys, threading, types, warnings
from collections import Counter
from hypothesis import strategies as st
from hamilton.io.materialization import to
from hamilton.lifecycle import default as ld
from vlib.core import Part, require
from vlib import dags
from vlib.dags import REC, decode, same, node_value
from vlib.drv import make_driver
from vlib.gen import plain_case
from checks.C11 import executor

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated dataflows, savers, failures and sets of bundled observers; what each observer emitted against a reference history"
KINDS = ["println", "tqdm", "otel", "lineage", "slack", "ddog", "experiment"]

IO_SRC = '''
from typing import Any, Dict, Tuple
from hamilton.function_modifiers import dataloader, tag

@dataloader()
def loaded(where_from: str) -> Tuple[dict, dict]:
    from checks.C38 import LOADS
    return LOADS.pop_next(where_from)

@tag(owner="me", parts=["b", "a"])
def used(loaded: dict) -> int:
    return len(loaded)
'''


class _Loads:
    def __init__(self):
        self.error = None
        self.calls = 0
        self.kind = "file"

    def meta(self, path):
        if self.kind == "file":
            return {"file_metadata": {"path": path}}
        if self.kind == "sql":
            return {"sql_metadata": {"table_name": "t1", "query": "select 1"}}
        if self.kind == "frame":
            return {"file_metadata": {"path": path}, "dataframe_metadata": {"column_names": ["a", "b"], "datatypes": ["int64", "object"]}}
        return {"other": 1}

    def pop_next(self, path):
        self.calls += 1
        if self.error is not None:
            raise self.error
        return {"a": 1, "b": 2}, self.meta(path)


LOADS = _Loads()


class Boom(Exception):
    pass


ERR = {"Boom": lambda n: Boom("failed in " + n), "Value": lambda n: ValueError("bad <value> in %s" % n), "Key": lambda n: KeyError(n), "Empty": lambda n: Boom(), "Type": lambda n: TypeError("x", n)}


@st.composite
def case_(draw):
    c = draw(plain_case(allow_overrides=True, dag_kw=dict(max_fns=8, min_fns=1, rets=["int", "str", "list", "dict", "tuple"], modes=("normal", "normal", "falsy"))))
    k = draw(st.sampled_from(["builder", "builder", "builder", "task", "task", "threads"]))
    if k == "task":
        k = "task:%s:sync:sync" % draw(st.sampled_from(["default", "nodes", "asone", "level"]))
    if k == "threads":
        k = "task:%s:%s:%s" % (draw(st.sampled_from(["default", "nodes", "level"])), draw(executor()), draw(executor()))
    c["mode"] = k
    pool = KINDS if "thread" not in k else KINDS[:-1]
    c["obs"] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
    c["verbosity"] = draw(st.sampled_from([1, 2]))
    fns = [f["name"] for f in c["dag"]["fns"]]
    c["filter"] = draw(st.sampled_from([None, None, "str", "list", "fn"]))
    c["filter_on"] = draw(st.lists(st.sampled_from(fns), min_size=1, max_size=3, unique=True))
    c["outer"] = draw(st.booleans())
    c["links"] = draw(st.booleans())
    c["kw_service"] = draw(st.sampled_from([None, "svc"]))
    c["width"] = draw(st.sampled_from([50, 4, 10]))
    c["loads"] = draw(st.sampled_from(["file", "file", "sql", "frame", "none"]))
    c["path"] = draw(st.sampled_from(["/data/x.csv", "/data/noext", "s3://b/y.tar.gz", "z.parquet"]))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        savers = draw(st.lists(st.sampled_from(fns), max_size=2, unique=True)) if draw(st.booleans()) else []
        runs.append({"fail": draw(st.lists(st.sampled_from(fns), max_size=1, unique=True)) if draw(st.integers(0, 2)) == 0 else [], "error": draw(st.sampled_from(sorted(ERR))),
                     "ov": draw(st.booleans()), "req": draw(st.sampled_from(["all", "all", "one", "inputs"])), "savers": savers,
                     "bad_saver": bool(savers) and draw(st.integers(0, 4)) == 0, "load": draw(st.integers(0, 2)) == 0, "load_fails": draw(st.integers(0, 4)) == 0, "none_inputs": draw(st.booleans())})
    c["runs"] = runs
    return c


class FakeCtx:
    def __init__(self, span):
        self.span = span
        self.trace_id = self.span_id = id(span)


class FakeSpan:
    def __init__(self, name, child_of, service):
        self.name, self.parent, self.service, self.tags, self.links, self.exits = name, child_of, service, {}, [], []
        self.context = FakeCtx(self)

    def set_tags(self, tags):
        self.tags.update(tags)

    def link_span(self, context, attributes=None):
        self.links.append((context.span, attributes))

    def __exit__(self, t, v, tb):
        self.exits.append((t, v))


class FakeTracer:
    def __init__(self):
        self.spans, self.current = [], None
        self.lock = threading.Lock()

    def current_trace_context(self):
        return self.current

    def start_span(self, name, child_of=None, activate=False, service=None):
        s = FakeSpan(name, child_of, service)
        with self.lock:
            self.spans.append(s)
        return s


def ddog():
    """h_ddog with a stand-in for the ddtrace package (the installed one no longer exports what the plugin imports)."""
    if "hamilton.plugins.h_ddog" not in sys.modules:
        import importlib
        had = {k: v for k, v in sys.modules.items() if k == "ddtrace" or k.startswith("ddtrace.")}
        fake = types.ModuleType("ddtrace")
        fake.Span, fake.context, fake.tracer = FakeSpan, types.SimpleNamespace(Context=FakeCtx), FakeTracer()
        for k in had:
            del sys.modules[k]
        sys.modules["ddtrace"] = fake
        try:
            importlib.import_module("hamilton.plugins.h_ddog")
        finally:
            del sys.modules["ddtrace"]
            sys.modules.update(had)
    return sys.modules["hamilton.plugins.h_ddog"]


class FakeSlack:
    def __init__(self, token=None, **kw):
        self.sent = []

    def chat_postMessage(self, channel=None, text=None, **kw):
        self.sent.append((channel, text))


class Client:
    def __init__(self):
        self.events = []

    def emit(self, e):
        self.events.append(e)


class Watch:
    """What the run really was: told by an independent hook on the same run (run id, execution path)."""


def event_names(ran, savers_ran, load_ran, use_ran):
    return list(ran) + list(savers_ran) + load_ran + use_ran


def check(case, ctx):
    spec = case["dag"]
    mods = dags.build_modules(spec)
    iom = dags.make_module(IO_SRC)
    d = ctx.fresh_dir()
    cwd = os.getcwd()
    obs, st_ = {}, {}
    try:
        config = {k: decode(v) for k, v in case["config"].items()}
        fm = dags.fn_map(spec)
        adapters = []
        for k in case["obs"]:
            a = make(k, case, st_, d)
            obs[k] = a
            adapters.append(a)
        with contextlib.redirect_stderr(io.StringIO()):
            dr = make_driver([*mods, iom], case["mode"], config, adapters=adapters)
            names = {v.name for v in dr.list_available_variables()}
            for ri, run in enumerate(case["runs"]):
                one(case, ctx, spec, fm, dr, obs, st_, config, run, ri, d, names)
        require(os.getcwd() == cwd, "the working directory changed from %s to %s", cwd, os.getcwd())
        ctx.note("mode:" + ("threads" if "thread" in case["mode"] else case["mode"].split(":")[0]), *["observer:" + k for k in case["obs"]])
    finally:
        os.chdir(cwd)
        if "undo" in st_:
            st_["undo"]()
        dags.drop_modules([*mods, iom])


def make(k, case, st_, d):
    if k == "println":
        st_["lines"] = []
        f = {None: None, "str": case["filter_on"][0], "list": list(case["filter_on"]), "fn": lambda name, tags: name in case["filter_on"]}[case["filter"]]
        return ld.PrintLn(verbosity=case["verbosity"], print_fn=st_["lines"].append, node_filter=f)
    if k == "tqdm":
        from hamilton.plugins import h_tqdm
        return h_tqdm.ProgressBar(desc="the bar", max_node_name_width=case["width"], file=io.StringIO())
    if k == "otel":
        from opentelemetry.sdk.trace import TracerProvider
        from opentelemetry.sdk.trace.export import SimpleSpanProcessor
        from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
        from hamilton.plugins import h_opentelemetry
        st_["exporter"] = InMemorySpanExporter()
        p = TracerProvider(shutdown_on_exit=False)
        p.add_span_processor(SimpleSpanProcessor(st_["exporter"]))
        st_["tracer"] = p.get_tracer("t")
        return h_opentelemetry.OpenTelemetryTracer(tracer=st_["tracer"])
    if k == "lineage":
        from hamilton.plugins import h_openlineage
        st_["client"] = Client()
        return h_openlineage.OpenLineageAdapter(st_["client"], "ns", "job")
    if k == "slack":
        from hamilton.plugins import h_slack
        old, h_slack.WebClient = h_slack.WebClient, FakeSlack
        try:
            a = h_slack.SlackNotifier(api_key="k", channel="chan")
        finally:
            h_slack.WebClient = old
        return a
    if k == "ddog":
        h_ddog = ddog()
        st_["dd"] = FakeTracer()
        old, h_ddog.tracer = h_ddog.tracer, st_["dd"]

        def undo():
            h_ddog.tracer = old
        st_["undo"] = undo
        return h_ddog.DDOGTracer("the run", include_causal_links=case["links"], service=case["kw_service"])
    if k == "experiment":
        from hamilton.plugins.h_experiments.hook import ExperimentTracker
        return ExperimentTracker("exp", os.path.join(d, "experiments"))


def one(case, ctx, spec, fm, dr, obs, st_, config, run, ri, d, names):
    mode = case["mode"]
    inputs = {k: decode(v) for k, v in case["inputs"].items()}
    ov = {k: decode(v) for k, v in case["overrides"].items()} if run["ov"] else {}
    req = {"all": list(case["requests"]), "one": case["requests"][:1], "inputs": [r for r in case["requests"] if r not in fm] or case["requests"][:1]}[run["req"]]
    savers = list(run["savers"])
    try:
        want, called = dags.ref_eval(spec, list(req) + savers, {**config, **inputs}, ov)
    except dags.Missing:
        return
    want = {n: want[n] for n in req}
    load = run["load"]
    if load:
        inputs["where_from"] = case["path"]
        req = req + ["used"]
    elif not inputs and run["none_inputs"]:
        inputs = None
    fail = [n for n in run["fail"] if n in called]
    err = {n: ERR[run["error"]](n) for n in fail}
    LOADS.kind, LOADS.calls = case["loads"], 0
    LOADS.error = Boom("cannot load") if run["load_fails"] else None
    mats, files = [], {}
    for i, n in enumerate(savers):
        f = os.path.join(d, "missing" if run["bad_saver"] and i == 0 else "", "run%d_%s.pkl" % (ri, n))
        files["save%d" % i] = (n, f)
        mats.append(to.pickle(id="save%d" % i, dependencies=[n], path=f))
    REC.reset()
    REC.fail = dict(err)
    exc = got = None
    for k in obs:
        reset(k, st_, obs[k])
    outer = None
    if "otel" in obs and case["outer"]:
        from opentelemetry import context, trace
        outer = st_["tracer"].start_span("outer")
        token = context.attach(trace.set_span_in_context(outer))
    try:
        if mats or ri % 2:
            mv, got = dr.materialize(*mats, additional_vars=list(req), inputs=dict(inputs) if inputs is not None else None, overrides=dict(ov) or None)
        else:
            got = dr.execute(list(req), inputs=dict(inputs) if inputs is not None else None, overrides=dict(ov) or None)
    except Exception as e:
        exc = e
    finally:
        REC.fail = {}
        if outer is not None:
            now = trace.get_current_span()
            context.detach(token)
            outer.end()
            require(now is outer, "the run left %r as the current span instead of the caller's", now)
    ran = REC.names()
    saved = {s for s, (n, f) in files.items() if os.path.exists(f)}
    # the outcome
    saver_fails = bool(savers) and run["bad_saver"]
    load_fails = load and run["load_fails"]
    possible = list(err.values()) + ([LOADS.error] if load_fails else [])
    if possible or saver_fails:
        require(exc is not None, "%s failed and the run returned %r", sorted(err) or "the saver", got)
        require(any(exc is p for p in possible) or (saver_fails and isinstance(exc, FileNotFoundError)), "the run failed with %r instead of one of %s%s", exc, possible, " or a FileNotFoundError" if saver_fails else "")
        ctx.note("failing")
    else:
        require(exc is None, "unexpected error %r", exc)
        for n in want:
            require(same(got[n], want[n]), "observed run: node %s is %r instead of %r", n, got[n], want[n])
        require(Counter(ran) == Counter(list(called)), "observed run: functions called %s instead of %s", ran, list(called))
        require(saved == set(files), "observed run: saved %s instead of %s", saved, set(files))
    # node events: name -> (finished?, error or None, kwargs or None, result)
    ev = {}
    for n in ran:
        ev[n] = (err.get(n), None if n in err else node_value(n, fm[n]["ret"], fm[n]["mode"], called[n]))
    for s in saved:
        ev[s] = (None, ANY)
    if saver_fails and isinstance(exc, FileNotFoundError):
        ev["save0"] = (exc, None)
    if load and LOADS.calls:
        ev["loaded.loader"] = (LOADS.error, ANY)
        if LOADS.error is None and exc is None:
            ev["loaded"], ev["used"] = (None, {"a": 1, "b": 2}), (None, 2)
    fuzzy = load and exc is not None  # whether the two follow-up nodes of the loader ran is not recorded
    maybe = {"loaded", "used"} if fuzzy and LOADS.error is None else set()
    for k in obs:
        globals()["see_" + k](dict(case=case, run=run, ev=ev, maybe=maybe, exc=exc, req=req, mats=files, inputs=inputs or {}, ov=ov, called=called, fm=fm, mode=mode, outer=outer, names=names, config=config,
                                   threads="thread" in mode, ri=ri), obs[k], st_)
    ctx.nontrivial(len(ev) >= 2)


ANY = object()


def reset(k, st_, a):
    if k == "println":
        del st_["lines"][:]
    if k == "otel":
        st_["exporter"].clear()
    if k == "lineage":
        del st_["client"].events[:]
    if k == "slack":
        del a.slack_client.sent[:]
    if k == "ddog":
        del st_["dd"].spans[:]
        st_["dd"].current = FakeCtx(None)


def events_match(c, seen, who, only=None):
    want = Counter(n for n in c["ev"] if only is None or n in only)
    got = Counter(seen)
    for n in c["maybe"]:
        if n not in want:
            got.pop(n, None)
    require(got == want, "%s reported the nodes %s; those that ran are %s", who, sorted(got.elements()), sorted(want.elements()))


def see_println(c, a, st_):
    case = c["case"]
    only = None if case["filter"] is None else set(case["filter_on"][:1] if case["filter"] == "str" else case["filter_on"])
    started, finished = {}, {}
    for line in st_["lines"]:
        m = re.match(r"Executing node: (.*?)\.(?: Inputs: \n(.*))?$", line, re.S)
        m2 = re.match(r"Finished debugging node: (.*) in ([0-9.e+-]+)(μs|ms|s)\. Status: (Success|Failure)\.(?: (Result|Error): \n(.*))?$", line, re.S)
        require(m or m2, "PrintLn printed %r", line)
        if m2:
            ident = m2.group(1)
            require(ident in started and ident not in finished, "PrintLn finished %s, which it had not started", ident)
            finished[ident] = m2
        else:
            ident = re.match(r"Executing node: (.*?)\.( Inputs: \n|$)", line, re.S).group(1)
            require(ident not in started, "PrintLn started %s twice", ident)
            started[ident] = m
    require(set(started) == set(finished), "PrintLn started %s and finished %s", sorted(started), sorted(finished))

    def node(ident):
        if c["mode"] == "builder":
            return ident
        require(":" in ident, "PrintLn names %s without its task", ident)
        return ident.rsplit(":", 1)[1]
    events_match(c, [node(i) for i in started], "PrintLn", only)
    for ident, m2 in finished.items():
        n = node(ident)
        if n not in c["ev"]:
            continue
        e, res = c["ev"][n]
        require(m2.group(4) == ("Success" if e is None else "Failure"), "PrintLn reports %s for %s", m2.group(4), n)
        if case["verbosity"] == 1:
            require(m2.group(5) is None and started[ident].group(2) is None, "PrintLn prints values at verbosity 1")
        elif e is not None:
            require(m2.group(5) == "Error" and m2.group(6) == pprint.pformat(e), "PrintLn reports %r for the error %r of %s", m2.group(6), e, n)
        elif res is not ANY:
            require(m2.group(5) == "Result" and m2.group(6) == pprint.pformat(res) + "\n", "PrintLn reports %r for the result %r of %s", m2.group(6), res, n)
            if n in c["called"]:
                text = started[ident].group(2)
                supplied = {p: v for p, v in c["called"][n].items() if p in c["fm"] or p in c["inputs"] or p in c["config"] or p in c["ov"]}
                require(text == pprint.pformat(supplied), "PrintLn reports the inputs %r of %s, they were %r", text, n, supplied)


def see_tqdm(c, a, st_):
    b = a.progress_bar
    lo = len(c["ev"])
    require(lo <= b.n <= lo + len(c["maybe"]), "the progress bar advanced %s times for the %d nodes %s", b.n, lo, sorted(c["ev"]))
    require(b.disable, "the progress bar was not closed")
    total = len(c["called"]) + len(c["mats"]) + (3 if "used" in c["req"] else 0)
    require(b.total == total, "the progress bar announced %s of %s nodes", b.total, total)
    if c["exc"] is None:
        require(b.n == b.total, "the progress bar of a completed run shows %s of %s", b.n, b.total)
    out = b.fp
    while not isinstance(out, io.StringIO):
        out = getattr(out, "_wrapped", None) or getattr(out, "wrapper_getattr")("_wrapped")
    require("the bar" in out.getvalue(), "the progress bar does not show its description")


def see_otel(c, a, st_):
    from opentelemetry.trace import StatusCode
    spans = [s for s in st_["exporter"].get_finished_spans() if s.name != "outer"]
    kinds = {"graph": [], "task": [], "node": []}
    for s in spans:
        kinds["graph" if "final_vars" in s.attributes else "task" if "nodes" in s.attributes else "node"].append(s)
    require(len(kinds["graph"]) == 1, "%d spans describe the run", len(kinds["graph"]))
    g = kinds["graph"][0]
    events_match(c, [s.name for s in kinds["node"]], "the OpenTelemetry tracer")
    require(list(g.attributes["inputs"]) == list(c["inputs"]) and list(g.attributes["overrides"]) == list(c["ov"]), "the span of the run has inputs %s and overrides %s instead of %s and %s", g.attributes["inputs"], g.attributes["overrides"], list(c["inputs"]), list(c["ov"]))
    require(set(c["req"]) <= set(g.attributes["final_vars"]) and set(g.attributes["final_vars"]) <= set(c["req"]) | set(c["mats"]), "the span of the run has final_vars %s", g.attributes["final_vars"])
    path = Counter([*c["called"], *c["mats"], *(["loaded", "loaded.loader", "used"] if "used" in c["req"] else [])])
    require(Counter(g.attributes["execution_path"]) == path, "the span of the run has execution_path %s, %s run", g.attributes["execution_path"], sorted(path))

    def status(s, e, what):
        require(s.status.status_code is (StatusCode.OK if e is None else StatusCode.ERROR), "the span of %s has status %s, its error is %r", what, s.status.status_code, e)
        require(e is None or (s.status.description or "") == str(e), "the span of %s describes the error %r as %r", what, e, s.status.description)
    status(g, c["exc"], "the run")
    require((g.parent.span_id if g.parent else None) == (c["outer"].get_span_context().span_id if c["outer"] is not None else None), "the span of the run has the wrong parent")
    ids = {s.context.span_id: s for s in spans}
    require(len({s.context.trace_id for s in spans}) == 1 or c["threads"], "the spans of one run belong to different traces")
    for s in kinds["task"]:
        if not c["threads"]:
            require(s.parent and s.parent.span_id == g.context.span_id, "the span of task %s is not inside the span of the run", s.name)
        mine = [n for n in s.attributes["nodes"] if n in c["ev"] and c["ev"][n][0] is not None]
        status(s, c["ev"][mine[0]][0] if mine else None, "task " + s.name)
        for n in s.attributes["nodes"]:
            for x in kinds["node"]:
                if x.name == n:
                    require(x.parent and x.parent.span_id == s.context.span_id, "the span of node %s is not inside the span of its task %s", n, s.name)
    for s in kinds["node"]:
        if s.name in c["ev"]:
            status(s, c["ev"][s.name][0], "node " + s.name)
        if c["mode"] == "builder":
            require(s.parent and s.parent.span_id == g.context.span_id, "the span of node %s is not inside the span of the run", s.name)
        else:
            require(s.parent is not None and s.parent.span_id in ids, "the span of node %s has no parent", s.name)
        tags = json.loads(s.attributes["tags"])
        if s.name == "used":
            require(tags.get("owner") == "me" and sorted(tags.get("parts")) == ["a", "b"], "the span of node used has tags %s", tags)


def see_lineage(c, a, st_):
    evs = st_["client"].events
    kinds = [e.eventType.value for e in evs]
    require(kinds and kinds[0] == "START" and kinds[-1] == ("COMPLETE" if c["exc"] is None else "FAIL") and set(kinds[1:-1]) <= {"RUNNING"}, "OpenLineage events: %s, the error is %r", kinds, c["exc"])
    require(len({e.run.runId for e in evs}) == 1, "the OpenLineage events of one run have different run ids")
    seen = st_.setdefault("lineage_ids", set())
    require(evs[0].run.runId not in seen, "two runs have the same OpenLineage run id")
    seen.add(evs[0].run.runId)
    f = evs[0].run.facets["hamilton"]
    require(f.hamilton_run_id == evs[0].run.runId and list(f.inputs) == list(c["inputs"]) and list(f.overrides) == list(c["ov"]), "OpenLineage run facet: inputs %s overrides %s", f.inputs, f.overrides)
    require(set(c["req"]) <= set(f.final_vars) <= set(c["req"]) | set(c["mats"]), "OpenLineage run facet: final_vars %s", f.final_vars)
    src = {n["name"] for n in json.loads(evs[0].job.facets["sourceCode"].sourceCode)}
    require(c["names"] <= src and src - c["names"] <= set(c["mats"]) | set(c["inputs"]), "OpenLineage job facet describes the nodes %s, the graph has %s", sorted(src), sorted(c["names"]))
    for e in evs:
        require((e.job.namespace, e.job.name) == ("ns", "job"), "OpenLineage job is %s.%s", e.job.namespace, e.job.name)
    if c["exc"] is not None:
        m = evs[-1].run.facets["errorMessage"]
        require(m.message == str(c["exc"]) and type(c["exc"]).__name__ in m.stackTrace, "OpenLineage reports %r for the error %r", m.message, c["exc"])
    else:
        require("errorMessage" not in (evs[-1].run.facets or {}), "OpenLineage reports an error for a run that succeeded")
    want = Counter()
    for s, (n, p) in c["mats"].items():
        if s in c["ev"] and c["ev"][s][0] is None:
            want[("out", p, s, p, "pkl", None)] += 1
    if c["ev"].get("loaded.loader", (1,))[0] is None:
        p, kind = c["case"]["path"], c["case"]["loads"]
        if kind in ("file", "frame"):
            want[("in", "loaded", "loaded", p, p.split(".")[-1] if "." in p else "unknown", None)] += 1
        elif kind == "sql":
            want[("in", "t1", None, None, None, "select 1")] += 1
        else:
            want[("in", "--UNKNOWN--", None, None, None, None)] += 1
    got = Counter()
    for e in evs[1:-1]:
        for way, sets in (("in", e.inputs or []), ("out", e.outputs or [])):
            for x in sets:
                fa = x.facets or {}
                ds, stg = fa.get("dataSource"), fa.get("storage")
                q = (e.job.facets or {}).get("sql")
                require(x.namespace == "ns", "OpenLineage dataset in namespace %s", x.namespace)
                got[(way, x.name, ds.name if ds else None, ds.uri if ds else None, stg.fileFormat if stg else None, q.query if q else None)] += 1
                sch = fa.get("schema")
                if way == "in":
                    cols = [(q.name, q.type) for q in sch.fields] if sch else None
                    require(cols == ([("a", "int64"), ("b", "object")] if c["case"]["loads"] == "frame" else None), "OpenLineage schema of the loaded data is %s", cols)
    require(got == want, "OpenLineage reports the data sets %s instead of %s", dict(got), dict(want))


def see_slack(c, a, st_):
    sent = a.slack_client.sent
    bad = [n for n, (e, r) in c["ev"].items() if e is not None]
    require(len(sent) == len(bad), "Slack was sent %d messages, the nodes that failed are %s", len(sent), bad)
    for n in bad:
        m = [t for ch, t in sent if ch == "chan" and ("`%s`" % n) in t]
        require(len(m) == 1 and str(c["ev"][n][0]) in m[0] and type(c["ev"][n][0]).__name__ in m[0], "no Slack message names %s and its error %r: %s", n, c["ev"][n][0], sent)


def see_ddog(c, a, st_):
    spans = st_["dd"].spans
    root = [s for s in spans if s.name == "the run"]
    require(len(root) == 1 and root[0].parent is st_["dd"].current, "the Datadog trace has %d root spans below the caller's context", len(root))
    root = root[0]
    nodes = [s for s in spans if "hamilton.hamilton.node_name" in s.tags]
    tasks = [s for s in spans if s is not root and s not in nodes]
    name = lambda s: s.tags["hamilton.hamilton.node_name"]
    events_match(c, [name(s) for s in nodes], "the Datadog tracer")
    require(bool(tasks) == (c["mode"] != "builder" and bool(nodes)) or not nodes, "the Datadog tracer has %d task spans", len(tasks))
    for s in spans:
        require(len(s.exits) == 1, "Datadog span %s was finished %d times", s.name, len(s.exits))
        require(s.service == c["case"]["kw_service"], "Datadog span %s has service %r", s.name, s.service)

    def status(s, e):
        t, v = s.exits[0]
        require(v is e and t is (type(e) if e is not None else None), "Datadog span %s ended with %r, the error is %r", s.name, v, e)
    status(root, c["exc"])
    tn = {s.name: s for s in tasks}
    require(len(tn) == len(tasks), "several Datadog spans for one task")
    for s in tasks:
        require(s.parent is root, "the Datadog span of task %s is not below the run", s.name)
    done = []
    for s in nodes:
        n = name(s)
        if n in c["ev"]:
            status(s, c["ev"][n][0])
        if c["mode"] == "builder":
            require(s.name == n and s.parent is root, "the Datadog span of %s is called %s, below %s", n, s.name, s.parent.name)
        else:
            t = s.name.rsplit(":", 1)[0]
            require(s.name == t + ":" + n and t in tn and s.parent is tn[t], "the Datadog span of %s is called %s, below %s", n, s.name, s.parent.name)
        if n in c["fm"] and c["mode"] == "builder":
            deps = [p for p in c["called"][n] if p in c["ev"] and p in c["fm"] and p not in c["ov"]]
            got = Counter((name(x), (at or {}).get("link.name")) for x, at in s.links)
            want = Counter((p, "%s_to_%s" % (p, n)) for p in deps) if c["case"]["links"] else Counter()
            require(got == want, "the Datadog span of %s is linked to %s instead of %s", n, dict(got), dict(want))
    for s in tasks:
        mine = [n for n in (name(x) for x in nodes if x.parent is s) if n in c["ev"] and c["ev"][n][0] is not None]
        status(s, c["ev"][mine[0]][0] if mine else None)


def see_experiment(c, a, st_):
    rec = json.loads(a.cache.read(a.run_id))
    require(rec["success"] is (c["exc"] is None), "the experiment record says success=%s, the error is %r", rec["success"], c["exc"])
    require(rec["experiment"] == "exp" and rec["run_id"] == a.run_id, "the experiment record is of %s %s", rec["experiment"], rec["run_id"])
    want = {}
    got = {}
    for i in rec["inputs"]:
        require(i["name"] not in got, "the experiment record has the input %s several times", i["name"])
        got[i["name"]] = i["value"]
    j = lambda v: json.loads(json.dumps(v, default=str))
    for k, v in c["inputs"].items():
        if k in got:
            require(got[k] == j(v) or got[k] != got[k], "the experiment record has %s=%r, it was %r", k, got[k], v)
    used = {k for k in c["inputs"] if k in dags.used_inputs(c["case"]["dag"]) and k not in c["config"]}
    require(used <= set(got), "the experiment record lacks the inputs %s", used - set(got))
    for k, v in got.items():
        if k not in c["inputs"]:
            require(v is None, "the experiment record has %s=%r, which this run was not given", k, v)
    require({o["name"]: o["value"] for o in rec["overrides"]} == j(c["ov"]) or "nan" in json.dumps(j(c["ov"])).lower(), "the experiment record has the overrides %s instead of %s", rec["overrides"], c["ov"])
    mats = Counter((tuple(m["source_nodes"]), m["path"], m["sink"]) for m in rec["materialized"])
    wantm = Counter(((n,), os.path.realpath(p), "pickle") for s, (n, p) in c["mats"].items() if s in c["ev"] and c["ev"][s][0] is None)
    before = st_.setdefault("mats", Counter())  # a tracker keeps the list of what it has materialized
    before.update(wantm)
    require(mats == before, "the experiment record lists %s as materialized instead of %s", dict(mats), dict(before))


PSRC = '''
from hamilton.htypes import Parallelizable, Collect
from typing import List
from checks.C38 import PFAIL

def items(n: int) -> Parallelizable[int]:
    for i in range(n):
        yield i

def one(items: int) -> int:
    if items in PFAIL:
        raise PFAIL[items]
    return items * 2

def two(one: int, items: int) -> int:
    return one + items

def gather(two: Collect[int]) -> List[int]:
    return list(two)

def last(gather: List[int]) -> int:
    return sum(gather)
'''
PFAIL = {}


@st.composite
def par_case(draw):
    n = draw(st.integers(0, 6))
    lo, hi = draw(st.sampled_from([("sync", "sync"), ("sync", "sync"), ("sync", "thread3"), ("thread2", "thread4")]))
    return {"n": n, "mode": "task:default:%s:%s" % (lo, hi), "obs": draw(st.lists(st.sampled_from(["println", "tqdm", "otel", "ddog", "slack"]), min_size=1, max_size=3, unique=True)),
            "fail": draw(st.integers(0, n)) if draw(st.integers(0, 2)) == 0 else None, "runs": draw(st.integers(1, 2)), "verbosity": draw(st.sampled_from([1, 2])), "filter": None, "filter_on": ["one"],
            "outer": False, "links": draw(st.booleans()), "kw_service": None, "width": 50}


def check_par(case, ctx):
    mod = dags.make_module(PSRC)
    st_, obs = {}, {}
    try:
        for k in case["obs"]:
            obs[k] = make(k, case, st_, None)
        with contextlib.redirect_stderr(io.StringIO()):
            dr = make_driver([mod], case["mode"], {}, adapters=list(obs.values()))
            for _ in range(case["runs"]):
                par_run(case, ctx, dr, st_, obs)
    finally:
        PFAIL.clear()
        if "undo" in st_:
            st_["undo"]()
        dags.drop_modules([mod])


def par_run(case, ctx, dr, st_, obs):
    PFAIL.clear()
    n = case["n"]
    if case["fail"] is not None and case["fail"] < n:
        PFAIL[case["fail"]] = Boom("item %d" % case["fail"])
    for k in obs:
        reset(k, st_, obs[k])
    exc = None
    try:
        got = dr.execute(["last"], inputs={"n": n})
    except Exception as e:
        exc = e
    if PFAIL:
        require(exc is PFAIL[case["fail"]], "the run failed with %r instead of %r", exc, PFAIL[case["fail"]])
    else:
        require(exc is None, "unexpected error %r", exc)
        require(got == {"last": 3 * sum(range(n))}, "observed run: %r", got)
    want = Counter({"items": 1, "gather": 1, "last": 1, **({"one": n, "two": n} if n else {})})

    def names(seen, who):
        seen = Counter(seen)
        if exc is None:
            require(seen == want, "%s reported the nodes %s instead of %s", who, dict(seen), dict(want))
        else:
            require(not seen - want and seen["items"] == 1 and seen["one"] >= 1 and not seen["gather"] and not seen["last"], "%s reported the nodes %s of a run that failed in item %d of %d", who, dict(seen), case["fail"], n)
    if "println" in obs:
        ids = [re.match(r"Executing node: (.*?)\.( Inputs: \n|$)", t, re.S).group(1) for t in st_["lines"] if t.startswith("Executing")]
        fin = [re.match(r"Finished debugging node: (.*) in [0-9.e+-]+(?:μs|ms|s)\. Status: (Success|Failure)\.", t).groups() for t in st_["lines"] if not t.startswith("Executing")]
        require(len(set(ids)) == len(ids) and Counter(ids) == Counter(i for i, _ in fin), "PrintLn started %s and finished %s", ids, fin)
        names([i.rsplit(":", 1)[1] for i in ids], "PrintLn")
        bad = [i for i, x in fin if x == "Failure"]
        require(len(bad) == len(PFAIL) and all(i.rsplit(":", 1)[1] == "one" for i in bad), "PrintLn reports the failures %s", bad)
    if "tqdm" in obs:
        require(obs["tqdm"].progress_bar.disable, "the progress bar was not closed")
        require(exc is not None or obs["tqdm"].progress_bar.n == sum(want.values()), "the progress bar advanced %s times for %s nodes", obs["tqdm"].progress_bar.n, sum(want.values()))
    if "slack" in obs:
        sent = obs["slack"].slack_client.sent
        require(len(sent) == len(PFAIL) and all("`one`" in t and str(exc) in t for _, t in sent), "Slack was sent %s", sent)
    if "otel" in obs:
        spans = st_["exporter"].get_finished_spans()
        tasks = {s.context.span_id: s for s in spans if "nodes" in s.attributes}
        nodes = [s for s in spans if "nodes" not in s.attributes and "final_vars" not in s.attributes]
        names([s.name for s in nodes], "the OpenTelemetry tracer")
        for s in nodes:
            require(s.parent is not None and s.parent.span_id in tasks and s.name in tasks[s.parent.span_id].attributes["nodes"], "the span of node %s is not inside the span of its task", s.name)
        bad = [s.name for s in nodes if not s.status.is_ok]
        require(bad == ["one"] * len(PFAIL), "the OpenTelemetry tracer reports the failures %s", bad)
    if "ddog" in obs:
        spans = st_["dd"].spans
        nodes = [s for s in spans if "hamilton.hamilton.node_name" in s.tags]
        names([s.tags["hamilton.hamilton.node_name"] for s in nodes], "the Datadog tracer")
        for s in spans:
            require(len(s.exits) == 1, "Datadog span %s was finished %d times", s.name, len(s.exits))
        for s in nodes:
            require(s.name == s.parent.name + ":" + s.tags["hamilton.hamilton.node_name"], "the Datadog span %s is below %s", s.name, s.parent.name)
            require(all(x.parent is s.parent for x, _ in s.links), "the Datadog span %s is linked to another task", s.name)
        bad = [s.exits[0][1] for s in nodes if s.exits[0][1] is not None]
        require(all(b is exc for b in bad) and len(bad) == len(PFAIL), "the Datadog tracer reports the errors %s", bad)
    ctx.note("n:%d" % n, "failing" if PFAIL else "ok", *["observer:" + k for k in obs])
    ctx.nontrivial(n >= 2)


PARTS = [
    Part("observers", case_, check, 5000, 60000, "at least two nodes ran under observation", shards=6, timeout=60),
    Part("parallel", par_case, check_par, 600, 8000, "a parallel block over at least two items ran under observation", shards=2, timeout=60),
]
