"""C24: savers and loaders round-trip and leave the dataflow alone."""
import dataclasses, io, json, logging, math, os, pickle, shutil, typing, warnings
from typing import Any, Collection, Dict, List, Optional, Tuple, Type
from hypothesis import strategies as st
import numpy as np
import pandas as pd
import polars as pl
from hamilton import base, driver, registry
from hamilton.io.data_adapters import DataLoader, DataSaver
from hamilton.io.materialization import to, from_
from hamilton.function_modifiers import source, value
from vlib.core import Part, Violation, require
from vlib import dags, ioformats as F
from vlib.dags import REC, decode, same
from vlib.drv import make_driver

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
LEVEL = "exploration"
TECH = "property-based testing: generated values, options, adapters, dataflows and call sequences; round trips, differential against direct pandas/polars calls, and a reference evaluator"
HOLD = {}
VALUES = []


def setup():
    for e in ("pandas", "numpy", "yaml", "polars"):
        registry.load_extension(e)


IO_SRC = """
import pandas as pd, polars as pl, numpy as np
import checks.C24 as _C

def data() -> {T}:
    return _C.HOLD["data"]

def passed(loaded: {T}) -> {T}:
    return loaded
"""
_DR = {}


def io_driver(tname):
    if tname not in _DR:
        m = dags.make_module(IO_SRC.replace("{T}", tname))
        _DR[tname] = driver.Builder().with_modules(m).build()
    return _DR[tname]


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("err", type(e).__name__)
    except BaseException as e:  # polars panics
        if type(e).__name__ != "PanicException":
            raise
        return ("err", type(e).__name__)


def same_out(a, b):
    return a[0] == b[0] and (a[0] == "err" or F.same_frame(a[1], b[1]))


# ---------------------------------------------------------------- options reach the library
@st.composite
def opts_(draw):
    lib = draw(st.sampled_from(["pandas", "pandas", "polars"]))
    tab = F.PANDAS if lib == "pandas" else F.POLARS
    key = draw(st.sampled_from(sorted(tab)))
    sfx, w, r = tab[key]
    names = draw(st.permutations(["a", "b", "c", "index_"]))[:draw(st.integers(1, 3))]
    cols = [[n, draw(st.sampled_from(F.ROWS if key not in ("xml", "stata", "avro") else ["int", "float", "str"]))] for n in names]

    def pick(t):
        if not t:
            return {}
        ks = draw(st.lists(st.sampled_from(sorted(t)), max_size=4, unique=True))
        out = {}
        for k in ks:
            out[k] = draw(st.integers(0, len(t[k]) - 1))
        return out
    return {"lib": lib, "key": key, "frame": {"cols": cols, "rows": draw(st.lists(st.integers(0, 20), min_size=0 if draw(st.booleans()) else 1, max_size=4))}, "w": pick(w), "r": pick(r), "gz": draw(st.integers(0, 3)) == 0 and key in ("csv", "pickle", "json", "xml")}


def resolve_opts(t, picks, names):
    return {k: F.opt_value(t[k][i], names) for k, i in picks.items()}


def check_opts(case, ctx):
    lib, key = case["lib"], case["key"]
    sfx, wt, rt = (F.PANDAS if lib == "pandas" else F.POLARS)[key]
    d = ctx.fresh_dir()
    df = F.frame(case["frame"])
    if lib == "polars":
        df = pl.from_pandas(df)
    names = [c for c, _ in case["frame"]["cols"]]
    typ = "pd.DataFrame" if lib == "pandas" else "pl.DataFrame"
    tcls = pd.DataFrame if lib == "pandas" else pl.DataFrame
    dr = io_driver(typ)
    sfx += ".gz" if case["gz"] else ""
    p1, p2 = os.path.join(d, "direct" + sfx), os.path.join(d, "ham" + sfx)
    skip = F.NOT_PASSED if lib == "pandas" else (F.PL_NOT_PASSED if key == "csv" else set())
    wopts = resolve_opts(wt, case["w"], names) if wt is not None else None
    from hamilton.function_modifiers.adapters import resolve_adapter_class
    if wt is not None:
        cls = resolve_adapter_class(tcls, registry.SAVER_REGISTRY[key])
        kw = {**{k: v for k, v in F.declared_defaults(cls).items() if k not in (skip - {"include_header"})}, **wopts}
        if lib == "polars" and key == "parquet":
            kw = {k: v for k, v in kw.items() if v is not None}  # None: the option is not given
        a = attempt(lambda: F.direct_write(lib, key, df, p1, kw))
        HOLD["data"] = df
        pf = F.path_field(lib, key, "w")
        b = attempt(lambda: dr.materialize(getattr(to, key)(id="s", dependencies=["data"], **{pf: p2}, **wopts)))
        require(a[0] == b[0], "%s %s saver with %s: directly %s, through hamilton %s", lib, key, wopts, a, b)
        if a[0] == "ok":
            x, y = open(p1, "rb").read(), open(p2, "rb").read()
            if x != y:
                if key == "excel" or case["gz"] or wopts.get("compression") not in (None, "infer", "snappy", "zstd", "lz4", "uncompressed"):
                    c = wopts.get("compression", "infer")
                    if key == "excel":
                        same_ = F.same_frame(*[pd.read_excel(p, sheet_name=None, header=None)[wopts.get("sheet_name", "Sheet1")] for p in (p1, p2)])
                    elif key == "parquet":
                        same_ = F.same_frame(*[pd.read_parquet(p) for p in (p1, p2)])
                    elif key == "avro":
                        same_ = same_out(*[attempt(lambda: pl.read_avro(p)) for p in (p1, p2)])
                    else:
                        import pandas.io.common as pc
                        bb = []
                        for p in (p1, p2):
                            with pc.get_handle(p, "rb", compression=c, is_text=False) as h:
                                bb.append(h.handle.read())
                        same_ = bb[0] == bb[1] or key == "stata"
                elif key == "stata":
                    same_ = F.same_frame(pd.read_stata(p1), pd.read_stata(p2))
                elif key == "avro":
                    same_ = same_out(*[attempt(lambda: pl.read_avro(p)) for p in (p1, p2)])
                else:
                    same_ = False
                require(same_, "%s %s saver with %s writes %r, the library writes %r", lib, key, wopts, y[:200], x[:200])
            md = b[1][0]["s"]
            if lib == "pandas" and "dataframe_metadata" in md:
                require(md["dataframe_metadata"]["rows"] == len(df) and md["dataframe_metadata"]["column_names"] == list(df.columns), "%s saver metadata %s", key, md)
                require(md["file_metadata"]["size"] == os.path.getsize(p2) and md["file_metadata"]["path"] == p2, "%s saver file metadata %s", key, md)
            ctx.note("wrote:%s:%s" % (lib, key))
            ctx.nontrivial(bool(wopts))
    if rt is not None:
        if wt is None:
            df.to_csv(p1, sep="\t" if key == "table" else " ", index=False)
        elif not os.path.exists(p1) or attempt(lambda: os.path.getsize(p1))[1] == 0:
            return
        ropts = resolve_opts(rt, case["r"], names)
        if key == "table":
            ropts.setdefault("sep", "\t")  # the adapter declares sep=None (sniff), the library a tab
        cls = resolve_adapter_class(tcls, registry.LOADER_REGISTRY[key])
        kw = {**{k: v for k, v in F.declared_defaults(cls).items() if k not in skip}, **ropts}
        a = attempt(lambda: F.direct_read(lib, key, p1, kw))
        if a == ("err", "PanicException"):
            return
        if a[0] == "ok" and key == "html":
            return
        pf = F.path_field(lib, key, "r")
        b = attempt(lambda: dr.materialize(getattr(from_, key)(target="loaded", **{pf: p1}, **ropts), additional_vars=["passed"])[1]["passed"])
        if a[0] != b[0] or (a[0] == "ok" and not F.same_frame(a[1], b[1])):
            raise Violation("%s %s loader with %s: the library gives\n%s\nthrough hamilton:\n%s" % (lib, key, ropts, a[1], b[1]))
        if a[0] == "ok":
            ctx.note("read:%s:%s" % (lib, key))
            ctx.nontrivial(bool(ropts))


# ---------------------------------------------------------------- round trips with default options
TEXT = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\r"), max_size=12)
SCAL = st.one_of(st.none(), st.booleans(), st.integers(-10**20, 10**20), st.floats(allow_nan=False), TEXT, st.sampled_from(["null", "yes", "1", "1.0", "2020-01-01", "~", "=", "- a", "a: b", "#x", " x ", "0x10", "1e3", ".inf", "on", "!t", "&a", "%"]))
JVAL = st.recursive(SCAL, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(TEXT, c, max_size=3)), max_leaves=8)
COLN = ["a", "b", "c d", "é", "index", "0"]


@st.composite
def rt_(draw):
    fmt = draw(st.sampled_from(["json", "json", "pickle", "file", "file", "bytes", "bytes", "yaml", "yaml", "npy", "pdparquet", "pdfeather", "pdpickle", "pdcsv", "pdexcel", "pdjson", "pdorc", "pdsql", "plparquet", "plfeather", "plcsv", "plavro", "pljson", "lazy"]))
    via = draw(st.sampled_from(["materialize", "decorator", "static"]))
    if fmt in ("json",):
        v = draw(st.one_of(st.lists(JVAL, max_size=3), st.dictionaries(TEXT, JVAL, max_size=3)))
    elif fmt == "yaml":
        v = draw(JVAL.filter(lambda x: x is not None))
    elif fmt == "pickle":
        v = draw(JVAL)
    elif fmt == "file":
        v = draw(st.one_of(TEXT, st.lists(st.sampled_from(["", "a", " ", "\n", "\n\n", "\t", "\ufeff", "\x00", "é", "\x85", "\u2028", "b" * 5000, "\x1a", "\x0c"]), max_size=5).map("".join)))
    elif fmt == "bytes":
        v = draw(st.lists(st.integers(0, 255), max_size=10)) * draw(st.sampled_from([1, 1, 1, 2000]))
    elif fmt == "npy":
        shape = draw(st.lists(st.integers(0, 3), max_size=3))
        n = 1
        for d in shape:
            n *= d
        v = {"shape": shape, "dt": draw(st.sampled_from(["int64", "float32", "bool", "complex128", "<U3", ">i2"])), "vals": draw(st.lists(st.integers(0, 9), min_size=n, max_size=n)), "F": draw(st.booleans())}
    else:
        kinds = {"pdcsv": ["intn", "floatn"], "plcsv": ["int", "pstr"], "pdexcel": ["int", "pstr"], "pdjson": ["int", "pstr"], "plavro": ["int", "float", "str", "bool"], "pljson": ["int", "pstr", "bool"], "pdsql": ["int", "pstr"], "pdorc": ["int", "float", "str", "bool"]}.get(fmt, F.ROWS)
        names = draw(st.permutations(COLN))[:draw(st.integers(1, 3))]
        v = {"cols": [[n, draw(st.sampled_from(kinds))] for n in names], "rows": draw(st.lists(st.integers(0, 20), min_size=1 if fmt in ("pdorc", "pdcsv", "pdexcel", "pdjson", "plcsv", "plavro", "pljson", "pdsql") else 0, max_size=4)) * draw(st.sampled_from([1, 1, 1, 1, 1, 40, 300]))}
    return {"fmt": fmt, "via": via, "v": v, "pos": draw(st.sampled_from([None, None, 0, 1, -1])), "enc": draw(st.sampled_from([None, "utf-8", "utf-16"])) if fmt == "file" else None}


RT_SRC = """
import pandas as pd, polars as pl, numpy as np, io
from hamilton.function_modifiers import save_to, load_from, source, value
import checks.C24 as _C

@save_to.{key}(output_name_="s", **_C.HOLD["wkw"])
def data() -> {T}:
    _C.HOLD["calls"] += 1
    return _C.HOLD["data"]

@load_from.{rkey}(inject_="loaded", **_C.HOLD["rkw"])
def passed(loaded: {TR}) -> {TR}:
    return loaded
"""
PLAIN_SRC = """
import pandas as pd, polars as pl, numpy as np, io
import checks.C24 as _C

def data() -> {T}:
    _C.HOLD["calls"] += 1
    return _C.HOLD["data"]

def passed(loaded: {TR}) -> {TR}:
    return loaded
"""


def rt_frame(v, pol=False):
    d = {}
    for j, (n, k) in enumerate(v["cols"]):
        rows = [r + j for r in v["rows"]]
        if k == "pstr":
            d[n] = pd.Series([["a", "b c", "é", "x,y", "q'z"][r % 5] for r in rows], dtype=object)
        elif k == "intn":
            d[n] = pd.Series(rows, dtype="Int64")
        elif k == "floatn":
            d[n] = pd.Series([r + 0.5 for r in rows], dtype="Float64")
        else:
            d[n] = F.column(k, rows)
    df = pd.DataFrame(d)
    return pl.from_pandas(df) if pol else df


def deep(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(deep(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(deep, a, b))
    return a == b


def check_rt(case, ctx):
    import sqlite3
    d = ctx.fresh_dir()
    fmt, v = case["fmt"], case["v"]
    key, tr, ext, wx, rx, eq = fmt, None, ".bin", {}, {}, deep
    if fmt == "json":
        data, t = v, type(v).__name__
    elif fmt == "yaml":
        data, t = v, type(v).__name__
    elif fmt == "pickle":
        data, t, tr = v, "object", "Any"
    elif fmt == "file":
        data, t = v, "str"
        if case["enc"]:
            wx = rx = {"encoding": case["enc"]}
    elif fmt == "bytes":
        data, t, key = bytes(v), "bytes", "file"
        if case["pos"] is not None:
            data, t = io.BytesIO(data), "io.BytesIO"
            data.seek(0 if case["pos"] == 0 else len(v) if case["pos"] < 0 else min(1, len(v)))
            eq = lambda a, b: a.getvalue() == b
    elif fmt == "npy":
        data = np.array(v["vals"]).reshape(v["shape"]).astype(v["dt"])
        if v["F"]:
            data = np.asfortranarray(data)
        t, ext = "np.ndarray", ".npy"
        eq = lambda a, b: a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    else:
        pol = fmt[:2] != "pd"
        lib = "polars" if pol else "pandas"
        data = rt_frame(v, pol)
        t = "pl.DataFrame" if pol else "pd.DataFrame"
        key = "parquet" if fmt == "lazy" else fmt[2:]
        if fmt == "lazy":
            data, t, tr = data.lazy(), "pl.LazyFrame", "pl.DataFrame"
        ext = {"csv": ".csv", "excel": ".xlsx", "json": ".json", "parquet": ".parquet"}.get(key, ".bin")
        if fmt == "pdexcel":
            wx, rx = {"index": False}, {}
        if fmt == "pdjson":
            wx, rx = {"orient": "split"}, {"orient": "split", "convert_axes": False}

        def eq(a, b):
            if fmt == "lazy":
                a = a.collect()
            if fmt in ("pdexcel", "pdjson", "pdsql", "pdfeather", "pdparquet", "pdorc"):
                b = b.astype({n: a[n].dtype for n in a.columns}) if list(a.columns) == list(b.columns) else b
                b.index = a.index if len(b.index) == len(a.index) else b.index
            return F.same_frame(a, b)
    p = os.path.join(d, "f" + ext)
    pf_w = pf_r = "path"
    if fmt[:2] in ("pd", "pl") or fmt == "lazy":
        pf_w, pf_r = F.path_field(lib, key, "w"), F.path_field(lib, key, "r")
    wkw, rkw = {pf_w: p, **wx}, {pf_r: p, **rx}
    if fmt == "pdsql":
        con = sqlite3.connect(os.path.join(d, "db"))
        wkw = {"table_name": "t", "db_connection": con, "index": False}
        rkw = {"query_or_table": "SELECT * FROM t", "db_connection": con}
    HOLD.update(data=data, calls=0, wkw=wkw, rkw=rkw)
    tr = tr or t
    reads = fmt != "bytes"
    try:
        if case["via"] == "decorator":
            src = RT_SRC.replace("{rkey}", key) if reads else RT_SRC.split("@load_from")[0]
            m = dags.make_module(src.replace("{key}", key).replace("{TR}", tr).replace("{T}", t))
        else:
            m = dags.make_module(PLAIN_SRC.replace("{TR}", tr).replace("{T}", t))
        try:
            b = driver.Builder().with_modules(m)
            if case["via"] == "decorator":
                dr = b.build()
                md = dr.execute(["s"])["s"]
                back = dr.execute(["passed"])["passed"] if reads else None
            elif case["via"] == "static":
                dr = b.with_materializers(getattr(to, key)(id="s", dependencies=["data"], **wkw), *([getattr(from_, key)(target="loaded", **rkw)] if reads else [])).build()
                md = dr.execute(["s"])["s"]
                back = dr.execute(["passed"])["passed"] if reads else None
            else:
                dr = b.build()
                md = dr.materialize(getattr(to, key)(id="s", dependencies=["data"], **wkw))[0]["s"]
                back = dr.materialize(getattr(from_, key)(target="loaded", **rkw), additional_vars=["passed"])[1]["passed"] if reads else None
        finally:
            dags.drop_modules([m])
        require(HOLD["calls"] == 1, "data computed %s times", HOLD["calls"])
        if not reads:
            back = open(p, "rb").read()
        require(eq(data, back), "%s via %s: saved %r, loaded back %r", fmt, case["via"], data, back)
        if fmt not in ("pdsql",) and "file_metadata" in md:
            require(md["file_metadata"]["size"] == os.path.getsize(p), "%s: metadata %s", fmt, md)
            require(os.path.abspath(str(md["file_metadata"]["path"])) == os.path.abspath(p), "%s: metadata %s", fmt, md)
    finally:
        if fmt == "pdsql":
            con.close()
    ctx.note(fmt)
    ctx.nontrivial(bool(v))


# ---------------------------------------------------------------- parameters of savers and loaders
class TA: pass
class TB(TA): pass
class TC(TB): pass
class TD(TA): pass


def make_saver(nm, key, types, fields):
    def save_data(self, data):
        return {"cls": nm, "data": data, "kw": {f: getattr(self, f) for f, _ in fields}}
    c = dataclasses.make_dataclass(nm, [(f, Any) if dflt is None else (f, Any, dataclasses.field(default_factory=list) if dflt == [] else dflt) for f, dflt in fields], bases=(DataSaver,),
                                   namespace={"save_data": save_data, "applicable_types": classmethod(lambda cls: list(types)), "name": classmethod(lambda cls: key)})
    return c


def make_loader(nm, key, types, fields):
    def load_data(self, type_):
        return {"cls": nm, "kw": {f: getattr(self, f) for f, _ in fields}}, {"meta": nm}
    c = dataclasses.make_dataclass(nm, [(f, Any) if dflt is None else (f, Any, dataclasses.field(default_factory=list) if dflt == [] else dflt) for f, dflt in fields], bases=(DataLoader,),
                                   namespace={"load_data": load_data, "applicable_types": classmethod(lambda cls: list(types)), "name": classmethod(lambda cls: key)})
    return c


FIELDS = [("path", None), ("mode", None), ("data", "dflt_data"), ("value", "dflt_value"), ("id_", "dflt_id"), ("more", [])]
VSAVER, VLOADER = make_saver("VSaver", "vrec", [dict, Any], FIELDS), make_loader("VLoader", "vrec", [dict, Any], FIELDS)


def setup2():
    setup()
    if VSAVER not in registry.SAVER_REGISTRY["vrec"]:
        registry.register_adapter(VSAVER)
        registry.register_adapter(VLOADER)


PNODES = ["path", "mode", "data", "value", "id_", "n1", "n2"]


@st.composite
def param_(draw):
    nodes = draw(st.permutations(PNODES))[:draw(st.integers(1, 5))]
    ins = [n for n in PNODES if n not in nodes]
    kw = {}
    for f, dflt in FIELDS:
        if dflt is not None and draw(st.integers(0, 2)) == 0:
            continue
        kind = draw(st.sampled_from(["lit", "src", "src", "val"]))
        kw[f] = [kind, draw(st.sampled_from(PNODES)) if kind == "src" else draw(st.sampled_from(["x", 0, "", "path", None, "n1"]))]
    via = draw(st.sampled_from(["to", "from", "save_to", "load_from", "save_to2"]))
    return {"nodes": nodes, "given": draw(st.lists(st.sampled_from(ins), unique=True)) if ins else [], "kw": kw, "via": via, "target": draw(st.sampled_from(nodes)),
            "wrap": draw(st.booleans()) and via in ("save_to", "load_from"), "none": draw(st.lists(st.sampled_from(nodes), max_size=2, unique=True)) if draw(st.booleans()) else [],
            "fields": draw(st.booleans())}


def check_param(case, ctx):
    nodes, kw, via, tgt = case["nodes"], case["kw"], case["via"], case["target"]
    mk = lambda s: source(s[1]) if s[0] == "src" else (value(s[1]) if s[0] == "val" else s[1])
    args = {f: mk(s) for f, s in kw.items()}
    vals = {n: None if n in case["none"] else {"node": n} for n in nodes}
    given = {n: "input:" + n for n in case["given"]}
    srcs = {s[1] for s in kw.values() if s[0] == "src"}
    missing = {s[1] for f, s in kw.items() if s[0] == "src" and s[1] not in vals and s[1] not in given and dict(FIELDS)[f] is None}
    HOLD["kw"] = args
    ns = "inner." if case["wrap"] else ""
    body = ["from typing import *", "from hamilton.function_modifiers import save_to, load_from, source, value, subdag, extract_fields", "import checks.C24 as _C", ""]
    if via == "from":  # a node cannot be among its own loader's sources
        if tgt in srcs:
            return
    own = None
    for n in nodes:
        if via == "save_to" and n == tgt:
            body.append('@save_to.vrec(output_name_="zz_saved", **_C.HOLD["kw"])')
        if via == "save_to2" and n == tgt:  # two layers with target_
            body.append('@save_to.vrec(output_name_="zz_saved", target_=%r, **_C.HOLD["kw"])' % n)
            body.append('@save_to.vrec(output_name_="zz_saved2", target_=%r, path="p2", mode="m2")' % n)
            if case["fields"]:  # one of several nodes made by the function
                body.append("@extract_fields({'zz_f': dict, %r: dict, 'zz_g': dict})" % n)
                body.append("def zz_all() -> dict:\n    _C.CALLS.append(%r)\n    return {'zz_f': {'f': 1}, %r: %r, 'zz_g': {'g': 1}}\n" % (n, n, vals[n]))
                continue
        body.append("def %s() -> dict:\n    _C.CALLS.append(%r)\n    return %r\n" % (n, n, vals[n]))
    if via == "load_from":
        body.append('@load_from.vrec(inject_="injected", **_C.HOLD["kw"])')
        body.append("def zz_loaded(injected: dict) -> dict:\n    return injected\n")
    m = dags.make_module("\n".join(body))
    mods = [m]
    try:
        if case["wrap"]:
            out = "zz_saved" if via == "save_to" else "zz_loaded"
            m2 = dags.make_module("from hamilton.function_modifiers import subdag\nimport %s as _m\n@subdag(_m)\ndef inner(%s: dict) -> dict:\n    return %s\n" % (m.__name__, out, out))
            mods.append(m2)
            dr = driver.Builder().with_modules(m2).build()
        else:
            dr = driver.Builder().with_modules(m).build()
        CALLS.clear()
        exp_kw = {}
        for f, dflt in FIELDS:
            if f not in kw:
                exp_kw[f] = dflt
            elif kw[f][0] == "src":
                s_ = kw[f][1]
                exp_kw[f] = vals.get(s_, given.get(s_, dflt))
            else:
                exp_kw[f] = kw[f][1]
        used = {s for s in srcs if s in vals}
        if via in ("to", "save_to", "save_to2"):
            used |= {tgt}
            expect = {"cls": "VSaver", "data": vals[tgt], "kw": exp_kw}
        else:
            expect = {"cls": "VLoader", "kw": exp_kw}

        def go():
            if via == "to":
                return dr.materialize(to.vrec(id="zz_saved", dependencies=[tgt], **args), inputs=given)[0]["zz_saved"]
            if via == "from":
                return dr.materialize(from_.vrec(target=tgt, **args), additional_vars=[tgt], inputs=given)[1][tgt]
            name = "zz_loaded" if via == "load_from" else "zz_saved"
            return dr.execute(["inner" if case["wrap"] else name], inputs=given)["inner" if case["wrap"] else name]
        r = attempt(go)
        if missing:
            require(r[0] == "err", "sources %s are not available, but the call returned %s", missing, r)
            require(not CALLS, "functions %s ran although the inputs %s are missing", CALLS, missing)
            return
        require(r[0] == "ok", "%s with %s on nodes %s and inputs %s: %s", via, kw, nodes, given, r)
        require(r[1] == expect, "%s with %s on nodes %s and inputs %s: got %s, expected %s", via, kw, nodes, given, r[1], expect)
        require(sorted(CALLS) == sorted(used), "functions called %s, expected %s", CALLS, used)
        if via == "save_to2":
            r2 = dr.execute(["zz_saved2"])["zz_saved2"]
            require(r2["data"] == vals[tgt] and r2["kw"]["path"] == "p2", "second saver: %s", r2)
        ctx.note(via + ("+subdag" if case["wrap"] else ""))
        ctx.nontrivial(bool(srcs))
    finally:
        dags.drop_modules(mods)


CALLS = []

# ---------------------------------------------------------------- which adapter is used
RTYPES = {"TA": TA, "TB": TB, "TC": TC, "TD": TD, "dict": dict, "int": int, "bool": bool, "object": object, "Any": Any}
_N = [0]


@st.composite
def res_(draw):
    cls = draw(st.lists(st.lists(st.sampled_from(sorted(RTYPES)), min_size=1, max_size=2, unique=True), min_size=1, max_size=5))
    two = [c for c in cls if len(c) == 2 and "Any" not in c and "object" not in c and typing.get_origin(typing.Union[tuple(RTYPES[x] for x in c)]) is typing.Union]
    uni = draw(st.sampled_from(two)) if two and draw(st.booleans()) else None
    return {"classes": cls, "late": draw(st.integers(0, 2)), "type": "|".join(draw(st.permutations(uni))) if uni else draw(st.sampled_from(["TA", "TB", "TC", "TD", "dict", "int", "bool"])), "side": draw(st.sampled_from(["save", "load"])),
            "via": draw(st.sampled_from(["call", "decorator", "static"])), "params": draw(st.booleans())}


def check_res(case, ctx):
    _N[0] += 1
    key = "vres%d" % _N[0]
    t = typing.Union[tuple(RTYPES[x] for x in case["type"].split("|"))]
    uni = set(typing.get_args(t))
    save = case["side"] == "save"
    reg = registry.SAVER_REGISTRY if save else registry.LOADER_REGISTRY
    clss = []
    for i, ts in enumerate(case["classes"]):
        fields = [("tok%d" % i, "d")] if case["params"] else []
        clss.append((make_saver if save else make_loader)("V%d" % i, key, [RTYPES[x] for x in ts], fields))
    m = None
    try:
        cut = max(1, len(clss) - case["late"])
        for c in clss[:cut]:
            registry.register_adapter(c)
        f = getattr(to if save else from_, key)  # fetched before the late registrations
        for c in clss[cut:]:
            registry.register_adapter(c)

        def fits(ts):
            if "Any" in ts:
                return False  # "Any should always get last priority"
            if uni:  # a saver of exactly these types; a loader of a type that is one of them
                return {RTYPES[x] for x in ts} == uni if save else any(issubclass(RTYPES[x], y) for x in ts for y in uni)
            return any(issubclass(t, RTYPES[x]) if save else issubclass(RTYPES[x], t) for x in ts)
        exact = [i for i, ts in enumerate(case["classes"]) if fits(ts)]
        anyc = [i for i, ts in enumerate(case["classes"]) if "Any" in ts]
        pick = exact[-1] if exact else (anyc[-1] if anyc else None)
        kw = {"tok%d" % pick: "T"} if case["params"] and pick is not None else {}
        HOLD.update(kw=kw, type=t)
        deco = case["via"] == "decorator"
        src = ["import checks.C24 as _C", "from hamilton.function_modifiers import save_to, load_from"]
        if deco and save:
            src.append('@save_to.%s(output_name_="s", **_C.HOLD["kw"])' % key)
        src.append("def data() -> _C.HOLD['type']:\n    _C.CALLS.append('data')\n    return _C.HOLD['data']\n")
        if deco and not save:
            src.append('@load_from.%s(inject_="loaded", **_C.HOLD["kw"])' % key)
        src.append("def passed(loaded: _C.HOLD['type']) -> object:\n    _C.CALLS.append('passed')\n    return loaded\n")
        HOLD["data"] = object()
        CALLS.clear()

        def go():
            nonlocal m
            m = dags.make_module("\n".join(src))
            b = driver.Builder().with_modules(m)
            fac = None if deco else (getattr(to, key)(id="s", dependencies=["data"], **kw) if save else getattr(from_, key)(target="loaded", **kw))
            if case["via"] == "static":
                b = b.with_materializers(fac)
            dr = b.build()
            if case["via"] == "call":
                return dr.materialize(fac)[0]["s"] if save else dr.materialize(fac, additional_vars=["passed"])[1]["passed"]
            return dr.execute(["s"])["s"] if save else dr.execute(["passed"])["passed"]
        r = attempt(go)
        if pick is None:
            require(r[0] == "err", "no adapter in %s fits %s, got %s", case["classes"], case["type"], r)
            require(not CALLS, "functions %s ran although no adapter fits", CALLS)
            ctx.note("none fits")
        else:
            require(r[0] == "ok", "adapter for %s among %s: %s", case["type"], case["classes"], r)
            require(r[1]["cls"] == "V%d" % pick, "%s of type %s with adapters %s: used %s, expected V%d", case["side"], case["type"], case["classes"], r[1]["cls"], pick)
            require(r[1]["kw"] == ({"tok%d" % pick: "T"} if case["params"] else {}), "adapter got %s", r[1]["kw"])
            if save:
                require(r[1]["data"] is HOLD["data"], "saved %s", r[1])
            ctx.nontrivial(len(exact) + len(anyc) > 1)
    finally:
        reg.pop(key, None)
        if m is not None:
            dags.drop_modules([m])
        from hamilton.io import materialization as M
        for c in (M.Materialize, M.Extract):
            c.__dict__.get(key) is not None and delattr(c, key)
            c.__annotations__.pop(key, None)


# ---------------------------------------------------------------- histories of materialising calls
MMODES = ["builder", "builder", "legacy", "task", "task:nodes:thread3", "task:level"]
MRETS = ["int", "str", "float", "list", "dict", "Optional[int]", "Any"]


@st.composite
def mat_(draw):
    spec = draw(dags.dag(max_fns=8, min_fns=2, rets=MRETS, modes=("normal", "normal", "falsy")))
    fm = dags.fn_map(spec)
    fns = [f["name"] for f in spec["fns"]]
    ui = dags.used_inputs(spec)
    ins = sorted(ui)
    ret = {**{n: spec["inputs"][n]["type"] for n in ins}, **{n: fm[n]["ret"] for n in fns}}

    def mats(k0, n):
        out = []
        for i in range(n):
            comb = draw(st.integers(0, 2)) == 0
            deps = draw(st.lists(st.sampled_from(fns + ins), min_size=1, max_size=3 if comb else 1, unique=True))
            kinds = ["memory", "memory"]
            if not comb and ret[deps[0]] in ("dict", "list"):
                kinds += ["json", "json"]
            if not comb and ret[deps[0]] == "str":
                kinds += ["file", "file"]
            if not comb and ret[deps[0]] in ("int", "str", "float", "dict", "list"):
                kinds.append("pickle")
            if comb and all(ret[x] != "Any" for x in deps):
                kinds += ["json", "pickle"]
            out.append({"id": "mat%d" % (k0 + i), "kind": draw(st.sampled_from(kinds)), "deps": [[x, draw(st.sampled_from(["str", "str", "fn", "var"])) if x in fns else "str"] for x in deps], "combine": comb, "src": draw(st.integers(0, 3)) == 0})
        return out
    # some of the inputs come from the configuration of the driver
    cfg = {n: draw(dags.value_for(spec["inputs"][n]["type"])) for n in draw(st.lists(st.sampled_from(ins), max_size=2, unique=True))} if ins and draw(st.booleans()) else {}
    targets = [n for n in fns + ins if n not in cfg]
    static = mats(100, draw(st.integers(0, 2)) if draw(st.booleans()) else 0)
    for s_ in static:
        s_["deps"] = [[n, "str"] for n, _ in s_["deps"]]
    calls = []
    for c in range(draw(st.integers(1, 4))):
        ms = mats(c * 10, draw(st.integers(0, 3)))
        add = draw(st.lists(st.sampled_from(fns + ins), max_size=2, unique=True))
        if not ms and not add:
            add = [fns[0]]
        ext = []
        for t in draw(st.lists(st.sampled_from(targets), max_size=2, unique=True)):
            kinds = ["literal", "pickle"] + (["json"] if ret[t] in ("dict", "list") else []) + (["file"] if ret[t] == "str" else [])
            v = draw(dags.value_for(ret[t]))
            k = draw(st.sampled_from(kinds))
            if isinstance(v, dict) and "$" in v and k != "literal":
                k = "literal"
            ext.append({"target": t, "kind": k, "v": v, "src": draw(st.integers(0, 3)) == 0})
        ov = {n: draw(dags.value_for(ret[n])) for n in draw(st.lists(st.sampled_from(fns), max_size=2, unique=True))} if draw(st.booleans()) else {}
        eff = {e["target"] for e in ext} | set(ov)
        need = dags.required_inputs(spec, add + [d for m_ in ms for d, _ in m_["deps"]] + ([d for s_ in static for d, _ in s_["deps"]]), eff)
        need |= {d for m_ in ms + static for d, _ in m_["deps"] if d in ins} | {a for a in add if a in ins}
        need -= eff
        inputs = {n: draw(dags.value_for(spec["inputs"][n]["type"])) for n in ins if (n in need or draw(st.integers(0, 2)) == 0) and n not in eff and n not in cfg}
        calls.append({"m": ms, "add": add, "ext": ext, "ov": ov, "inputs": inputs, "usestatic": draw(st.booleans())})
    return {"dag": spec, "static": static, "calls": calls, "mode": draw(st.sampled_from(MMODES)), "cfg": cfg}


def expected_saved(m, ev):
    deps = [d for d, _ in m["deps"]]
    return {d: ev[d] for d in deps} if m["combine"] else ev[deps[0]]


def read_saved(kind, path):
    if kind == "json":
        return json.load(open(path))
    if kind == "file":
        return open(path, encoding="utf-8", newline="").read()
    return pickle.load(open(path, "rb"))


def check_mat(case, ctx):
    spec = case["dag"]
    d = ctx.fresh_dir()
    mods = dags.build_modules(spec)
    cnt = [0]

    def newpath():
        cnt[0] += 1
        return os.path.join(d, "f%d" % cnt[0])

    def factory(m, dr, extra):
        deps = []
        for n, form in m["deps"]:
            if form == "fn":
                f = [getattr(x, n) for x in mods if hasattr(x, n) and getattr(getattr(x, n), "__module__", None) == x.__name__]
                deps.append(f[0] if f and dr is not None else n)
            elif form == "var" and dr is not None:
                deps.append([v for v in dr.list_available_variables() if v.name == n][0])
            else:
                deps.append(n)
        kw = {}
        if m["combine"]:
            kw["combine"] = base.DictResult()
        p = None
        if m["kind"] != "memory":
            p = newpath()
            if m["src"]:
                extra["path_" + m["id"]] = p
                kw["path"] = source("path_" + m["id"])
            else:
                kw["path"] = p
        return getattr(to, m["kind"])(id=m["id"], dependencies=deps, **kw), p

    def verify(m, p, got, ev):
        want = expected_saved(m, ev)
        if m["kind"] == "memory":
            require(same(got, want), "materializer %s (memory) returned %s, expected %s", m, got, want)
        else:
            v = read_saved(m["kind"], p)
            require(same(v, want), "materializer %s wrote %r, expected %r", m, v, want)
            require(got["file_metadata"]["path"] == p and got["file_metadata"]["size"] == os.path.getsize(p), "metadata %s", got)

    try:
        sx = {}
        cfg = {k: decode(v) for k, v in case["cfg"].items()}
        stat = [factory(m, None, sx) for m in case["static"]]
        if stat:
            b = driver.Builder().with_modules(*mods).with_config(cfg).with_materializers(*[f for f, _ in stat])
            if case["mode"].startswith("task"):
                from vlib.drv import configure_task
                b = configure_task(b.enable_dynamic_execution(allow_experimental_mode=True), case["mode"])
            dr = b.build()
        else:
            dr = make_driver(mods, case["mode"], cfg)
        before = sorted((v.name, str(v.type), v.is_external_input) for v in dr.list_available_variables())
        for c in case["calls"]:
            inputs = {k: decode(v) for k, v in c["inputs"].items()}
            extra = dict(sx) if c["usestatic"] or not stat else {}
            facs = [(m, *factory(m, dr, extra)) for m in c["m"]]
            ov = {k: decode(v) for k, v in c["ov"].items()}
            eff = {}
            exts = []
            reqs = [x for m in c["m"] for x, _ in m["deps"]] + list(c["add"])
            if c["usestatic"]:
                reqs += [x for m in case["static"] for x, _ in m["deps"]]
            needed = dags.upstream(spec, reqs, stop=set(ov) | {e["target"] for e in c["ext"]})
            for e in c["ext"]:
                v = decode(e["v"])
                eff[e["target"]] = v
                if e["kind"] == "literal":
                    kw = {"value": v}
                else:
                    p = newpath()
                    if e["target"] in needed and e["target"] not in ov:  # otherwise the loader must not run: leave the file out
                        if e["kind"] == "json":
                            json.dump(v, open(p, "w"))
                        elif e["kind"] == "pickle":
                            pickle.dump(v, open(p, "wb"))
                        else:
                            open(p, "w", encoding="utf-8").write(v)
                    kw = {"path": p}
                    if e["src"]:
                        extra["path_" + e["target"]] = p
                        kw = {"path": source("path_" + e["target"])}
                exts.append(getattr(from_, e["kind"])(target=e["target"], **kw))
            ev, called = dags.ref_eval(spec, reqs, {**cfg, **inputs}, {**eff, **ov})
            REC.reset()
            args = [f for _, f, _ in facs] + exts
            add = list(c["add"]) + ([m["id"] for m in case["static"]] if c["usestatic"] else [])
            ctx.add_args = None
            mo, ao = dr.materialize(*args, additional_vars=add, inputs={**inputs, **extra}, overrides=ov)
            require(sorted(REC.names()) == sorted(called), "functions called %s, expected %s", REC.names(), sorted(called))
            require(list(mo) == [m["id"] for m in c["m"]], "materializer outputs %s", list(mo))
            for m, _, p in facs:
                verify(m, p, mo[m["id"]], ev)
            require(set(ao) == set(add), "additional variables %s, expected %s", list(ao), add)
            for n in c["add"]:
                require(same(ao[n], ev[n]), "additional variable %s = %s, expected %s", n, ao[n], ev[n])
            if c["usestatic"]:
                for m, (_, p) in zip(case["static"], stat):
                    verify(m, p, ao[m["id"]], ev)
                    if p:
                        os.unlink(p)
            files = {os.path.join(d, x) for x in os.listdir(d)}
            after = sorted((v.name, str(v.type), v.is_external_input) for v in dr.list_available_variables())
            require(after == before, "the driver's variables changed from %s to %s", before, after)
            # a plain execution afterwards is not affected by the loaders and savers
            fn = spec["fns"][0]["name"]
            if not (dags.required_inputs(spec, [fn]) - set(inputs) - set(cfg)):
                REC.reset()
                ev2, called2 = dags.ref_eval(spec, [fn], {**cfg, **inputs})
                out = dr.execute([fn], inputs=inputs)
                require(same(out[fn], ev2[fn]), "after materialising, execute gives %s, expected %s", out[fn], ev2[fn])
                require(sorted(REC.names()) == sorted(called2), "after materialising, functions called %s, expected %s", REC.names(), sorted(called2))
                require({os.path.join(d, x) for x in os.listdir(d)} == files, "a plain execution wrote files")
            ctx.nontrivial(bool(facs) or bool(exts))
            ctx.note("mat:%d ext:%d" % (len(facs), len(exts)))
    finally:
        dags.drop_modules(mods)


# ---------------------------------------------------------------- requests that must be refused before anything runs
@st.composite
def bad_(draw):
    spec = draw(dags.dag(max_fns=6, min_fns=2, rets=["int", "str", "dict"], modes=("normal",), max_inputs=2))
    fns = [f["name"] for f in spec["fns"]]
    return {"dag": spec, "what": draw(st.sampled_from(["dup_id", "id_is_node", "no_such_dep", "no_such_target", "many_no_combine", "nothing", "missing_param", "extra_param", "wrong_type"])), "a": draw(st.sampled_from(fns)), "b": draw(st.sampled_from(fns)), "good": draw(st.booleans())}


def check_bad(case, ctx):
    spec, a, b, w = case["dag"], case["a"], case["b"], case["what"]
    d = ctx.fresh_dir()
    mods = dags.build_modules(spec)
    fm = dags.fn_map(spec)
    P = lambda x: os.path.join(d, x)
    try:
        dr = make_driver(mods, "builder")
        inputs = {n: {"int": 1, "str": "s", "dict": {}}[v["type"]] for n, v in spec["inputs"].items() if n in dags.used_inputs(spec)}
        mats = [to.pickle(id="good", dependencies=[b], path=P("good"))] if case["good"] else []
        if w == "dup_id":
            mats += [to.memory(id="m", dependencies=[a]), to.pickle(id="m", dependencies=[b], path=P("m"))]
        elif w == "id_is_node":
            mats.append(to.memory(id=b, dependencies=[a]))
        elif w == "no_such_dep":
            mats.append(to.memory(id="m", dependencies=["nope"]))
        elif w == "no_such_target":
            mats.append(from_.literal(target="nope", value=1))
            mats.append(to.memory(id="m", dependencies=[a]))
        elif w == "many_no_combine":
            if a == b:
                return
            mats.append(to.memory(id="m", dependencies=[a, b]))
        elif w == "nothing":
            mats = [from_.literal(target=a, value=1)]
        elif w == "missing_param":
            mats.append(to.pickle(id="m", dependencies=[a]))
        elif w == "extra_param":
            mats.append((to.vrec if case["good"] else to.pickle)(id="m", dependencies=[a], path=P("x"), mode="m", nonsense=1))
        elif w == "wrong_type":
            mats.append(to.json(id="m", dependencies=[a], path=P("x")) if fm[a]["ret"] != "dict" else to.npy(id="m", dependencies=[a], path=P("x")))
        REC.reset()
        r = attempt(lambda: dr.materialize(*mats, inputs=inputs))
        require(r[0] == "err", "%s: materialize should refuse, returned %s", w, r)
        require(not REC.calls, "%s: functions %s ran before the error %s", w, REC.names(), r)
        require(not os.listdir(d), "%s: files %s were written", w, os.listdir(d))
        REC.reset()
        ev, called = dags.ref_eval(spec, [a], inputs)
        out = dr.execute([a], inputs=inputs)
        require(same(out[a], ev[a]) and sorted(REC.names()) == sorted(called), "after the refusal, execute gives %s", out)
        ctx.note(w)
        ctx.nontrivial(True)
    finally:
        dags.drop_modules(mods)


def known_newlines():
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        from hamilton.io.default_data_loaders import RawFileDataLoader, RawFileDataSaver
        p = os.path.join(d, "f")
        RawFileDataSaver(path=p).save_data("a\r\nb")
        return RawFileDataLoader(path=p).load_data(str)[0] != "a\r\nb"


KNOWN = {"file-newlines": known_newlines}

PARTS = [Part("options", opts_, check_opts, 1600, 30000, "a saver or loader succeeded with at least one non-default option", shards=8, tshards=8, setup=setup, timeout=60),
         Part("roundtrip", rt_, check_rt, 1200, 20000, "a non-empty value was saved and loaded back", shards=6, tshards=8, setup=setup, timeout=60),
         Part("params", param_, check_param, 1200, 16000, "at least one parameter comes from another node or input", shards=6, tshards=8, setup=setup2, timeout=60),
         Part("resolution", res_, check_res, 700, 10000, "more than one registered adapter fits the type", shards=4, tshards=8, setup=setup2, timeout=60),
         Part("materialize", mat_, check_mat, 1000, 12000, "a call with at least one saver or loader completed", shards=8, tshards=8, setup=setup2, timeout=60),
         Part("refused", bad_, check_bad, 300, 3000, "every case", shards=4, tshards=8, setup=setup2, timeout=60)]
