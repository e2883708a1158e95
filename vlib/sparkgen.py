"""Generated PySpark dataflows, shared by C31 (with_columns, select) and C39 (UDF adapter)."""
import atexit, itertools, linecache, logging, os, shutil, sys, tempfile, types
from hypothesis import strategies as st
from vlib.core import CLEANUP, Violation, require

S = {"spark": None, "why": "not started"}
_n = itertools.count()
BASE = ["c0", "c1", "c2", "s0", "d0", "d1"]
MOD = 997


def setup():
    d = tempfile.mkdtemp(prefix="vspark")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    os.environ.update(PYTHONPATH=os.pathsep.join([here, os.path.join(here, "vendor"), os.environ.get("VERIF_REPO", "/repo")]), SPARK_LOCAL_IP="127.0.0.1", SPARK_LOCAL_DIRS=d, PYSPARK_PYTHON=sys.executable, PYSPARK_DRIVER_PYTHON=sys.executable,
                      PYSPARK_SUBMIT_ARGS="--conf spark.ui.enabled=false --conf spark.sql.warehouse.dir=%s --driver-java-options -Djava.io.tmpdir=%s pyspark-shell" % (d, d))
    for k in ("SPARK_HOME", "SPARK_CONF_DIR"):
        os.environ.pop(k, None)

    def end():
        if S["spark"] is not None:
            try:
                S["spark"].stop()
            except Exception:  # noqa: BLE001
                pass
        shutil.rmtree(d, True)
    CLEANUP.append(end)
    try:
        from pyspark.sql import SparkSession
        null = os.open(os.devnull, os.O_WRONLY)
        old = os.dup(2)
        os.dup2(null, 2)
        try:
            s = SparkSession.builder.master("local[1]").appName("verif").config("spark.sql.shuffle.partitions", "1").config("spark.default.parallelism", "1").config("spark.driver.memory", "700m").config("spark.sql.execution.arrow.pyspark.enabled", "true").getOrCreate()
            s.sparkContext.setLogLevel("OFF")
            s.createDataFrame([(1,)], "a long").collect()
        finally:
            os.dup2(old, 2)
        S.update(spark=s)
    except Exception as e:  # noqa: BLE001  no spark can be started here: nothing is decided about it
        S.update(spark=None, why=repr(e)[:200])


def frame(rows):
    return S["spark"].createDataFrame([tuple(r) for r in rows], "c0 long, c1 long, c2 long, s0 string, d0 long, d1 long")


row_ = st.tuples(st.integers(0, 50), st.integers(0, 50), st.one_of(st.none(), st.integers(0, 9)), st.sampled_from(["", "a", "é", "zz"]), st.integers(0, 50), st.integers(0, 50)).map(list)
rows_ = st.sampled_from([2, 3, 4, 4, 1, 0]).flatmap(lambda n: st.lists(row_, min_size=n, max_size=n))


@st.composite
def functions(draw, kinds, free=tuple(BASE), exts=("e0", "e1"), shadow=None, n=5, strict=False):
    """Functions over columns `free`, each other, and scalars `exts`; c2 has nulls, so only row functions read it."""
    fns = []
    names = ["f1", "Bq", "g_x", "a", "Zz", "b2"]
    ints = [c for c in free if c in ("c0", "c1", "d0", "d1")]
    strs = [c for c in free if c == "s0"]
    for i in range(draw(st.sampled_from([n, n - 1, n - 1, 3, 2, 1]))):
        kind = draw(st.sampled_from(kinds))
        name = shadow if shadow and i == 0 and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from([x for x in names if x not in [f["name"] for f in fns]]))
        if kind == "str":
            pool = strs + [f["name"] for f in fns if f["kind"] == "str"]
            if not pool:
                kind = "row"
            else:
                fns.append({"name": name, "kind": "str", "params": draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True)), "exts": [], "m": draw(st.integers(1, 9))})
                continue
        pool = ints + 2 * [f["name"] for f in fns if f["kind"] != "str"]
        if strict:  # the graph checks the types: series and scalars are different inputs
            pool = [c for c in ints if (c[0] == "d") == (kind == "pandas")] + [f["name"] for f in fns if f["kind"] == "pandas" or f["kind"] == kind == "row"]
        if kind == "row" and "c2" in free:
            pool = pool + ["c2"]
        if not pool:
            continue
        ps = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=1 if kind == "dfcol" else 3, unique=True))
        if kind != "row" and "c2" in ps:
            ps = [p for p in ps if p != "c2"] or [ints[0]]
        ex = draw(st.lists(st.sampled_from(list(exts)), max_size=2, unique=True)) if kind != "dfcol" else []
        fns.append({"name": name, "kind": kind, "params": ps, "exts": [[e, draw(st.one_of(st.none(), st.none(), st.integers(1, 5)))] for e in ex], "m": draw(st.integers(1, 9)), "order": draw(st.booleans())})
    return fns


def expr(f, get):
    terms = []
    for i, p in enumerate(f["params"]):
        terms.append("%s * %d" % (get(p), f["m"] + i))
    for i, (e, _) in enumerate(f["exts"]):
        terms.append("%s * %d" % (e, f["m"] + 5 + i))
    return "(%s + %d) %% %d" % (" + ".join(terms), f["m"], MOD)


def render(f):
    ex = ["%s: int%s" % (e, "" if d is None else " = %d" % d) for e, d in sorted(f["exts"], key=lambda t: t[1] is not None)]
    n = f["name"]
    k = f["kind"]
    if k == "str":
        return "def %s(%s) -> str:\n    return %s + '%d'\n" % (n, ", ".join("%s: str" % p for p in f["params"]), " + ".join(f["params"]), f["m"])
    if k == "row":
        return "def %s(%s) -> int:\n    return %s\n" % (n, ", ".join(["%s: int" % p for p in f["params"]] + ex), expr(f, lambda p: "(-7 if c2 is None else c2)" if p == "c2" else p))
    if k == "pandas":
        return "def %s(%s) -> htypes.column[pd.Series, int]:\n    return %s\n" % (n, ", ".join(["%s: pd.Series" % p for p in f["params"]] + ex), expr(f, lambda p: p))
    if k == "driver":
        return "def %s(%s) -> int:\n    return %s\n" % (n, ", ".join(ex), expr(f, lambda p: p))
    if k == "dfcol":
        return "def %s(%s: DataFrame) -> Column:\n    return %s\n" % (n, f["params"][0], expr(f, lambda p: "%s[%r]" % (f["params"][0], p)))
    body = expr(f, lambda p: "frame[%r]" % p)
    dec = "@h_spark.require_columns(%s)\n" % ", ".join(repr(p) for p in f["params"])
    if k == "col":
        return dec + "def %s(%s) -> Column:\n    return %s\n" % (n, ", ".join(["frame: DataFrame"] + ex), body)
    return dec + "def %s(%s) -> DataFrame:\n    return frame.withColumn(%r, %s)\n" % (n, ", ".join(["frame: DataFrame"] + ex), n, body)


HEAD = "import pandas as pd\nfrom pyspark.sql import DataFrame, Column\nimport pyspark.sql.functions as F\nfrom hamilton import htypes\nfrom hamilton.plugins import h_spark\n\n"


def module(src, tag):
    """A module of generated code that spark ships to its workers by value."""
    import pyspark.cloudpickle as cp
    name = "vspark_%s_%d_%d" % (tag, os.getpid(), next(_n))
    m = types.ModuleType(name)
    m.__file__ = "<%s>" % name
    sys.modules[name] = m
    linecache.cache["<%s>" % name] = (len(src), None, src.splitlines(True), "<%s>" % name)
    exec(compile(src, "<%s>" % name, "exec"), m.__dict__)
    cp.register_pickle_by_value(m)
    return m


def drop(m):
    import pyspark.cloudpickle as cp
    try:
        cp.unregister_pickle_by_value(m)
    except ValueError:
        pass
    sys.modules.pop(m.__name__, None)
    linecache.cache.pop(m.__file__, None)


def value(f, row, ext):
    """What f computes on a row (a mapping that holds its columns) and the scalars supplied."""
    env = {p: row[p] for p in f["params"]}
    if f["kind"] == "str":
        return "".join(row[p] for p in f["params"]) + str(f["m"])
    for e, d in f["exts"]:
        env[e] = ext[e] if e in ext else d
    return eval(expr(f, lambda p: "(-7 if c2 is None else c2)" if p == "c2" else p), {}, env)
