"""C40: the schema validator compares every table of an execution with the schema on record for that node."""
import json, logging, os
import pandas as pd
import polars as pl
import pyarrow as pa
from hypothesis import strategies as st
from hamilton import driver
from hamilton.execution import executors
from hamilton.plugins import h_schema
from vlib import dags
from vlib.core import Part, Violation, require

LEVEL = "exploration"
TECH = "property-based testing: model-based histories of executions with changing tables; independent model of the schemas on record and of the differences"

KINDS = {"int64": ("int64", "int64"), "int32": ("int32", "int32"), "float": ("double", "double"), "str": ("string", "large_string"), "bool": ("bool", "bool"), "time": ("timestamp[ns]", "timestamp[us]")}
PA = {"int64": pa.int64(), "int32": pa.int32(), "float": pa.float64(), "str": pa.string(), "bool": pa.bool_(), "time": pa.timestamp("ns"),
      "list": pa.list_(pa.int64()), "list2": pa.list_(pa.string()), "struct": pa.struct([("a", pa.int64())]), "struct2": pa.struct([("a", pa.int64()), ("b", pa.string())]), "time2": pa.timestamp("us", tz="UTC"), "dec2": pa.decimal128(6, 2), "lstr": pa.large_string(), "dec": pa.decimal128(5, 2), "dict": pa.dictionary(pa.int8(), pa.string())}
COLS = ["a", "b", "c", "cur", "ref", "name", "type", "metadata", "A", "a.b", "é", "", " ", "node", "x" * 30]
TOP = ["t1", "t2", "t3", "raw", "schemas"]
SUB = ["s1", "s2"]


def type_of(kind, backend):
    if backend == "arrow":
        return str(PA[kind])
    return KINDS[kind][0 if backend == "pandas" else 1]


@st.composite
def column(draw, backend):
    kinds = sorted(PA) if backend == "arrow" else sorted(KINDS)
    c = {"kind": draw(st.sampled_from(kinds)), "null": True, "md": {}}
    if backend == "arrow":
        c["null"] = draw(st.sampled_from([True, True, False]))
        c["md"] = draw(metadata)
    return c


metadata = st.dictionaries(st.sampled_from(["k", "cur", "ref", "metadata", "ü"]), st.sampled_from(["", "v", "w", "é"]), max_size=2)


@st.composite
def table(draw, base=None):
    """a table, or a variation of one"""
    if base is not None and draw(st.integers(0, 9)) < 4:
        return base
    if base is not None and draw(st.integers(0, 9)) < 8:
        cols = [[n, dict(c)] for n, c in base["cols"]]
        for _ in range(draw(st.integers(1, 2))):
            op = draw(st.sampled_from(["add", "drop", "change", "change"]))
            free = [n for n in COLS if n not in [m for m, _ in cols]]
            if op == "add" and free:
                cols.insert(draw(st.integers(0, len(cols))), [draw(st.sampled_from(free)), draw(column(base["backend"]))])
            elif op == "drop" and len(cols) > 1:
                cols.pop(draw(st.integers(0, len(cols) - 1)))
            else:
                i = draw(st.integers(0, len(cols) - 1))
                new = draw(column(base["backend"]))
                what = draw(st.sampled_from(["kind", "null", "md", "all"]))
                cols[i][1] = new if what == "all" else dict(cols[i][1], **{what: new[what]})
        return {"backend": base["backend"], "cols": cols, "rows": draw(st.integers(0, 2))}
    backend = draw(st.sampled_from(["pandas", "polars", "arrow", "arrow"]))
    names = draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=4, unique=True))
    return {"backend": backend, "cols": [[n, draw(column(backend))] for n in names], "rows": draw(st.integers(0, 2))}


def sample(kind, n):
    import datetime, decimal
    v = {"int64": 1, "int32": 1, "float": 1.5, "str": "s", "bool": True, "time": datetime.datetime(2020, 1, 1), "list": [1], "list2": ["x"], "struct": {"a": 1}, "struct2": {"a": 1, "b": "y"}, "time2": datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), "dec2": decimal.Decimal("1.25"), "lstr": "z", "dec": decimal.Decimal("1.25"), "dict": "q"}[kind]
    return [v] * n


def build(t):
    rows = max(1, t["rows"]) if t["backend"] == "polars" else t["rows"]
    if t["backend"] == "arrow":
        schema = pa.schema([pa.field(n, PA[c["kind"]], nullable=c["null"], metadata=c["md"] or None) for n, c in t["cols"]])
        return pa.Table.from_arrays([pa.array(sample(c["kind"], rows), type=PA[c["kind"]]) for n, c in t["cols"]], schema=schema)
    if t["backend"] == "pandas":
        dt = {"int64": "int64", "int32": "int32", "float": "float64", "str": "object", "bool": "bool", "time": "datetime64[ns]"}
        return pd.DataFrame({n: pd.Series(sample(c["kind"], max(rows, 1) if c["kind"] == "str" else rows), dtype=dt[c["kind"]]) for n, c in t["cols"]}) if not any(c["kind"] == "str" for _, c in t["cols"]) else \
            pd.DataFrame({n: pd.Series(sample(c["kind"], max(rows, 1)), dtype=dt[c["kind"]]) for n, c in t["cols"]})
    dt = {"int64": pl.Int64, "int32": pl.Int32, "float": pl.Float64, "str": pl.Utf8, "bool": pl.Boolean, "time": pl.Datetime("us")}
    return pl.DataFrame({n: pl.Series(n, sample(c["kind"], rows), dtype=dt[c["kind"]]) for n, c in t["cols"]})


def model(t):
    return {n: (type_of(c["kind"], t["backend"]), c["null"], dict(c["md"])) for n, c in t["cols"]}


def order(t):
    return [n for n, _ in t["cols"]]


def expected(cur, ref, field_md):
    """the differences between two models, as documented for the readable form"""
    out = {}
    for n in set(cur) | set(ref):
        if n not in ref:
            out[n] = "+"
        elif n not in cur:
            out[n] = "-"
        else:
            d = {}
            for i, what in enumerate(["type", "nullable"]):
                if cur[n][i] != ref[n][i]:
                    d[what] = {"cur": cur[n][i], "ref": ref[n][i]}
            if field_md and cur[n][2] != ref[n][2]:
                d["metadata"] = mapdiff(cur[n][2], ref[n][2])
            if d:
                out[n] = d
    return out


def mapdiff(c, r):
    return {k: "+" if k not in r else "-" if k not in c else {"cur": c[k], "ref": r[k]} for k in set(c) | set(r) if c.get(k) != r.get(k) or (k in c) != (k in r)}


# ---------------------------------------------------------------- part 1: histories of executions
@st.composite
def history(draw):
    top = draw(st.lists(st.sampled_from(TOP), min_size=1, max_size=3, unique=True))
    nss = draw(st.sampled_from([[], ["ns"], ["ns", "ns2"]]))
    sub = draw(st.sampled_from([["s1"], ["s1", "s2"]])) if nss else []
    names = top + ["%s.%s" % (n, s) for n in nss for s in sub]
    inp = draw(st.sampled_from([None, "inp"]))
    plain = draw(st.booleans())
    base = {n: draw(table()) for n in names + ([inp] if inp else [])}
    steps = []
    cur = dict(base)
    for i in range(draw(st.integers(2, 5))):
        if i:
            cur = {n: draw(table(t)) for n, t in cur.items()}
        over = draw(st.sampled_from([None, None, None] + names))
        steps.append({"tables": dict(cur), "ask": draw(st.lists(st.sampled_from(names + (["plain"] if plain else [])), min_size=1, unique=True)),
                      "over": over, "extra": draw(st.integers(0, 5)) == 0, "ver": draw(st.sampled_from([0, 0, 0, 1])),
                      "check": draw(st.sampled_from([True, True, True, False])), "must": draw(st.sampled_from([False, False, False, True])),
                      "imp": draw(st.sampled_from(["warn", "fail"])), "smd": draw(st.sampled_from([False, False, True])), "fmd": draw(st.sampled_from([False, False, True])),
                      "mode": draw(st.sampled_from(["plain", "plain", "task"]))})
    return {"top": top, "ns": nss, "sub": sub, "inp": inp, "plain": plain, "steps": steps}


TABLES = {}
RAN = []


def produce(name):
    RAN.append(name)
    return build(TABLES[name])


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, record):
        self.msgs.append(record.getMessage())


def modules(case, ver):
    """-> (module of the dataflow, all modules made)"""
    made = []
    lines = []
    ns = {"produce": produce}
    for i, n in enumerate(case["top"]):
        args = "inp: Any" if case["inp"] and i == 0 else ""
        lines.append("def %s(%s) -> Any:\n    'table %s'\n    ver = %d\n    return produce(%r)\n" % (n, args, n, ver if i == 0 else 0, n))
    if case["plain"]:
        lines.append("def plain(%s: Any) -> int:\n    return 7\n" % case["top"][0])
    for x in case["ns"]:
        m = dags.make_module("from typing import Any\n" + "\n".join("def %s() -> Any:\n    return produce(%r)\n" % (f, "%s.%s" % (x, f)) for f in case["sub"]), ns={"produce": produce}, header="")
        made.append(m)
        ns["mod_" + x] = m
        lines.append("@subdag(mod_%s, namespace=%r)\ndef %s_out(%s) -> int:\n    return 1\n" % (x, x, x, ", ".join(f + ": Any" for f in case["sub"])))
    mod = dags.make_module("from typing import Any\nfrom hamilton.function_modifiers import subdag\n" + "\n".join(lines), ns=ns, header="")
    return mod, made + [mod]


def readable(text):
    i, j = text.find("{"), text.rfind("}")
    require(i >= 0 and j > i, "the report %r holds no description of the difference", text)
    return json.loads(text[i:j + 1])


def check_history(case, ctx):
    d = os.path.join(ctx.fresh_dir(), "schemas")
    store = {}      # node -> (model, order, documented version)
    changed = 0
    log = logging.getLogger("hamilton.plugins.h_schema")
    for k, s in enumerate(case["steps"]):
        TABLES.clear(), TABLES.update(s["tables"]), RAN.clear()
        mod, made = modules(case, s["ver"])
        cap = Capture()
        level = log.level
        log.addHandler(cap)
        log.setLevel(logging.WARNING)
        prop, log.propagate = log.propagate, False
        try:
            sv = h_schema.SchemaValidator(d, check=s["check"], must_exist=s["must"], importance=s["imp"], check_schema_metadata=s["smd"], check_field_metadata=s["fmd"])
            b = driver.Builder().with_modules(mod).with_adapters(sv)
            if s["mode"] == "task":
                b = b.enable_dynamic_execution(allow_experimental_mode=True).with_local_executor(executors.SynchronousLocalTaskExecutor())
            dr = b.build()
            ask = list(s["ask"])
            inputs = {"inp": build(s["tables"]["inp"])} if case["inp"] else {}
            if s["extra"]:
                inputs["unused"] = build(s["tables"][case["top"][0]])
            over = {s["over"]: build(s["tables"][s["over"]])} if s["over"] else {}
            err = None
            try:
                dr.execute(ask, inputs=inputs, overrides=over)
            except Exception as e:
                err = e
        finally:
            log.removeHandler(cap)
            log.setLevel(level)
            log.propagate = prop
            dags.drop_modules(made)
        # --- the tables of the execution, in the order in which they came about
        pre = (["inp"] if case["inp"] else []) + ([s["over"]] if s["over"] else [])     # looked at before anything runs, in any order
        ran = [n for n in RAN if n not in pre]
        warned, new, fails, loose = {}, {}, {}, set()
        for n in pre + ran:
            m = model(s["tables"][n])
            o = order(s["tables"][n])
            doc = {"name": n, "version": s["ver"] if n in (case["top"][0], "inp") else 0}     # an input has the version of the function it is read by
            if not s["check"]:
                new[n] = (m, o, doc)
                continue
            if n not in store:
                if s["must"]:
                    fails[n] = ("missing", n)
                else:
                    new[n] = (m, o, doc)
                continue
            rm, ro, rdoc = store[n]
            diff = expected(m, rm, s["fmd"])
            vers = s["smd"] and doc["version"] != rdoc["version"]
            if not diff and not vers:
                if o != ro:
                    ctx.note("order only")      # a difference in the order of the columns alone: either verdict
                    loose.add(n)
                continue
            changed += 1
            if s["imp"] == "fail":
                fails[n] = ("differs", n, diff, vers)
            else:
                warned[n] = (diff, vers)
        early = [n for n in pre if n in fails] or ([n for n in pre if n in loose] if err is not None and not RAN else [])
        if early:
            require(not ran, "execution %d: %s ran although %s was to be refused", k, ran, early)
            new = {n: v for n, v in new.items() if os.path.exists(h_schema.SchemaValidator(d).get_schema_path(n))}
        for n in ran[:-1]:
            require(n not in fails, "execution %d went on to %s after %s, which was to be refused", k, ran, n)
        bad = [fails[n] for n in (early or ran[-1:]) if n in fails]
        may = s["imp"] == "fail" and s["check"] and bool(set(early or ran[-1:]) & loose)
        seen = pre + ran
        when = "execution %d (%s)" % (k, {x: s[x] for x in ("check", "must", "imp", "smd", "fmd", "mode")})

        def match(got, n, diff, vers):
            require(set(got) == {n}, "%s: the report for %s is about %s", when, n, sorted(got))
            g = dict(got[n])
            md = g.pop("__metadata", {})
            require(set(md) == ({"version"} if vers else set()), "%s: the report for %s has the differences %s in metadata, the version of the function %s", when, n, md, "changed" if vers else "did not or is not checked")
            require(g == diff, "%s: %s: reported difference %s, expected %s", when, n, g, diff)
        if may and isinstance(err, RuntimeError) and not bad:
            fail = True
        elif not bad:
            fail = False
            if err is not None:
                raise Violation("%s: failed with %r although every table is as on record" % (when, err)) from err
        else:
            fail = True
            require(err is not None, "%s: succeeded although there is %s", when, bad)
            f = next((f for f in bad if ("%r" % f[1])[1:-1] in str(err)), bad[0])
            if f[0] == "missing":
                require(isinstance(err, FileNotFoundError), "%s: no schema on record for %s: %r instead of a FileNotFoundError", when, f[1], err)
                require(f[1] in str(err), "%s: the error %s does not name %s", when, err, f[1])
            elif not may or json.loads(str(err)).keys() & {f[1]}:
                require(isinstance(err, RuntimeError), "%s: the table of %s differs (%s) from the one on record: %r instead of a RuntimeError", when, f[1], f[2], err)
                match(readable(str(err)), *f[1:])
        reports = {}
        for msg in cap.msgs:
            r = readable(msg)
            for n in r:
                require(n not in reports, "%s: two warnings about %s", when, n)
                reports[n] = {n: r[n]}
        for n in list(reports):
            if n in warned:
                match(reports.pop(n), n, *warned[n])
            elif n in loose and reports[n][n] == {}:
                reports.pop(n)
        require(not reports, "%s: warnings about %s, whose tables are as on record", when, reports)
        for n in warned if not early else ():
            require(any(n in readable(m_) for m_ in cap.msgs), "%s: no warning about %s (difference %s)", when, n, warned[n][0])
        # --- the record afterwards
        store.update(new)
        for n, (m, o, doc) in store.items():
            p = sv.get_schema_path(n)
            require(os.path.exists(p), "%s: no schema on record for %s", when, n)
            sc = h_schema.load_schema(p)
            got = {f.name: (str(f.type), f.nullable, {a.decode(): b_.decode() for a, b_ in (f.metadata or {}).items()}) for f in sc}
            require(got == m and list(sc.names) == o, "%s: the schema on record for %s is %s, expected %s", when, n, got, m)
            require((sc.metadata or {}).get(b"name") == n.encode(), "%s: the schema on record for %s names %s", when, n, sc.metadata)
        files = len([f for f in os.listdir(d) if f.endswith(".schema")])
        require(files == len(store), "%s: %d schemas on record, %d tables were seen", when, files, len(store))
        # --- the summary
        js = json.load(open(os.path.join(d, "schemas.json"))) if os.path.exists(os.path.join(d, "schemas.json")) else None
        require(js is not None or early, "%s: no summary was written", when)
        if js is not None and not early:
            require(set(js) == set(seen), "%s: the summary is about %s, the execution had tables %s", when, sorted(js), sorted(seen))
            for n in seen:
                got = {a: (v["type"], v["nullable"], v["metadata"]) for a, v in js[n].items() if a != "__metadata"}
                require(got == model(s["tables"][n]), "%s: the summary of %s is %s", when, n, got)
        ctx.note("fail" if fail else "warn" if warned else "quiet")
    if changed:
        ctx.nontrivial()


# ---------------------------------------------------------------- part 2: differences of two schemas
@st.composite
def pair(draw):
    a = draw(table().filter(lambda t: t["backend"] == "arrow"))
    b = draw(table(a).filter(lambda t: t["backend"] == "arrow"))
    return {"a": a, "b": b, "amd": draw(metadata), "bmd": draw(metadata), "smd": draw(st.booleans()), "fmd": draw(st.booleans())}


def arrow(t, md):
    return pa.schema([pa.field(n, PA[c["kind"]], nullable=c["null"], metadata=c["md"] or None) for n, c in t["cols"]], metadata=md or None)


def check_pair(case, ctx):
    cur, ref = arrow(case["a"], case["amd"]), arrow(case["b"], case["bmd"])
    d = ctx.fresh_dir()
    p = os.path.join(d, "x.schema")
    h_schema.save_schema(p, cur)
    back = h_schema.load_schema(p)
    require(back.equals(cur, check_metadata=True), "a schema saved and loaded is %s, was %s", back, cur)
    h_schema.save_schema(p, ref)
    require(h_schema.load_schema(p).equals(ref, check_metadata=True), "a schema saved over another one is not the one loaded")
    diff = h_schema.diff_schemas(cur, ref, check_schema_metadata=case["smd"], check_field_metadata=case["fmd"])
    want = expected(model(case["a"]), model(case["b"]), case["fmd"])
    if case["smd"]:
        md = mapdiff(case["amd"], case["bmd"])
        if md:
            want["__metadata"] = md
    got = h_schema.human_readable_diff(diff)
    require(got == want, "differences of %s (metadata %s) and %s (metadata %s), with metadata %s, fields' metadata %s: %s, expected %s", model(case["a"]), case["amd"], model(case["b"]), case["bmd"], case["smd"], case["fmd"], got, want)
    json.dumps(got)
    if not want and order(case["a"]) == order(case["b"]):
        require(diff == {}, "equal schemas have the difference %s", diff)
    js = h_schema.pyarrow_schema_to_json(cur)
    js2 = {n: (v["type"], v["nullable"], v["metadata"]) for n, v in json.loads(json.dumps(js)).items() if n != "__metadata"}
    require(js2 == model(case["a"]) and js.get("__metadata", {}) == case["amd"], "%s as JSON is %s", cur, js)
    if want:
        ctx.nontrivial()


PARTS = [
    Part("history", history, check_history, 2000, 20000, "at least one table differs from the one on record", shards=5, tshards=6),
    Part("diff", pair, check_pair, 2500, 40000, "the two schemas differ", shards=2),
]
