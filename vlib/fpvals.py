"""Values for fingerprint checks: specs (JSON) -> Python values, free of the recorded collisions (known findings of C19)."""
import copy, datetime, math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.cachegen import Pt

try:
    import polars as pl
except Exception:  # pragma: no cover
    pl = None

CELLS = {
    "int64": st.integers(-3, 3), "float64": st.sampled_from([0.0, 1.0, 1.5, -2.0, 0.1, 1e300, "nan", "inf"]), "str": st.sampled_from(["", "a", "b", "ab", "ba", "1", "é", "a b"]),
    "bool": st.booleans(), "dt": st.integers(0, 3), "int8": st.integers(0, 3), "td": st.integers(0, 3),
}
leaf = st.one_of(
    st.integers(-300, 300).map(lambda v: {"t": "int", "v": v}), st.sampled_from([2 ** 31, 2 ** 63, 10 ** 30, -1, 0, 1]).map(lambda v: {"t": "int", "v": v}),
    st.sampled_from([0.5, 1.0, -1.0, 0.1, 1e-300, 1e22, 0.30000000000000004, "inf", "-inf"]).map(lambda v: {"t": "float", "v": v}),
    st.text(alphabet="ab é\n,:0", max_size=5).map(lambda v: {"t": "str", "v": "s" + v}), st.text(alphabet="ab01", max_size=3).map(lambda v: {"t": "bytes", "v": "b_" + v}),
    st.booleans().map(lambda v: {"t": "bool", "v": v}), st.just({"t": "none"}), st.integers(0, 40).map(lambda v: {"t": "date", "v": v}), st.integers(0, 40).map(lambda v: {"t": "datetime", "v": v}), st.integers(0, 9).map(lambda v: {"t": "timedelta", "v": v}))


@st.composite
def frame(draw, lib="pd"):
    n = draw(st.integers(0 if lib == "pd" else 1, 4))
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "ab", "x y"]), min_size=1, max_size=3, unique=True))
    kinds = sorted(CELLS)
    cols = []
    for c in names:
        k = draw(st.sampled_from(kinds))
        cols.append([c, k, draw(st.lists(CELLS[k], min_size=n, max_size=n))])
    idx = draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 2, 3]), min_size=n, max_size=n), st.lists(st.sampled_from(["r", "s", "t"]), min_size=n, max_size=n))) if lib == "pd" else None
    return {"t": lib + "df", "cols": cols, "index": idx, "iname": draw(st.sampled_from([None, None, "i"])) if lib == "pd" else None,
            "level": draw(st.sampled_from([None, None, None, "j", "k"])) if lib == "pd" and n else None}


@st.composite
def series(draw, lib="pd"):
    n = draw(st.integers(0 if lib == "pd" else 1, 4))
    k = draw(st.sampled_from(sorted(CELLS)))
    return {"t": lib + "ser", "cols": [[draw(st.sampled_from(["a", "b"] + ([None] if lib == "pd" else []))), k, draw(st.lists(CELLS[k], min_size=n, max_size=n))]],
            "index": draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 2]), min_size=n, max_size=n))) if lib == "pd" else None, "iname": None}


@st.composite
def array(draw):
    dt = draw(st.sampled_from(["int64", "float64", "bool", "U3", "object", "int8", "M8[D]"]))
    shape = draw(st.sampled_from([[0], [1], [3], [2, 2], [4], [2, 3]]))
    n = int(np.prod(shape))
    el = {"int64": st.integers(-3, 3), "float64": st.sampled_from([0.0, 1.5, "nan", -2.0]), "bool": st.booleans(), "U3": st.sampled_from(["", "a", "ab", "abc"]), "object": st.sampled_from(["sa", "sb", None, 1, 2.5]), "int8": st.integers(0, 3), "M8[D]": st.integers(0, 3)}[dt]
    return {"t": "nd", "dt": dt, "shape": shape, "v": draw(st.lists(el, min_size=n, max_size=n)), "order": draw(st.sampled_from("CF"))}


tables = st.one_of(frame(), frame(), series(), array(), frame("pl"), series("pl")) if pl is not None else st.one_of(frame(), frame(), series(), array())


def tree(max_leaves=12, with_tables=True):
    base = st.one_of(leaf, leaf, leaf, leaf, tables) if with_tables else leaf
    return st.recursive(base, lambda ch: st.one_of(
        st.lists(ch, max_size=4).map(lambda l: {"t": "list", "v": l}),
        st.lists(ch, max_size=3).map(lambda l: {"t": "tuple", "v": l}),
        st.dictionaries(st.one_of(st.sampled_from(["a", "b", "ab", "", "0"]), st.integers(0, 2).map(str)), ch, max_size=4).map(lambda d: {"t": "dict", "v": sorted(d.items())}),
        st.lists(st.one_of(st.integers(0, 9), st.sampled_from(["a", "b", "c"])), max_size=5, unique_by=str).map(lambda l: {"t": "set", "v": l}),
        st.lists(st.sampled_from(["a", "b", "c", "d"]), max_size=3, unique=True).map(lambda l: {"t": "fset", "v": l}),
        ch.map(lambda c: {"t": "obj", "v": c})), max_leaves=max_leaves).map(clean)


def fl(v):
    return float(v) if isinstance(v, str) else v


def cell(k, v):
    if k == "float64":
        return fl(v)
    if k == "dt":
        return pd.Timestamp("2024-01-01") + pd.Timedelta(days=v)
    if k == "td":
        return pd.Timedelta(hours=v)
    return v


PDT = {"int64": "int64", "float64": "float64", "str": "object", "bool": "bool", "dt": "datetime64[ns]", "int8": "int8", "td": "timedelta64[ns]"}


def mk(s, rev=False):
    """A fresh value; `rev` builds mappings and sets in the opposite insertion order."""
    t = s["t"]
    if t in ("int", "bool"):
        return s["v"]
    if t == "float":
        return fl(s["v"])
    if t == "str":
        return "".join(list(s["v"]))
    if t == "bytes":
        return s["v"].encode()
    if t == "none":
        return None
    if t == "date":
        return datetime.date(2024, 1, 1) + datetime.timedelta(days=s["v"])
    if t == "datetime":
        return datetime.datetime(2024, 1, 1) + datetime.timedelta(minutes=s["v"])
    if t == "timedelta":
        return datetime.timedelta(seconds=s["v"])
    if t == "list":
        return ["lst"] + [mk(x, rev) for x in s["v"]]
    if t == "tuple":
        return ("tup",) + tuple(mk(x, rev) for x in s["v"])
    if t == "dict":
        items = [["k_", 0]] + [["k" + a, mk(b, rev)] for a, b in s["v"]]
        return dict((a, b) for a, b in (items[::-1] if rev else items))
    if t in ("set", "fset"):
        r = set()
        els = ["set"] + list(s["v"])
        if rev:  # a different table history gives another iteration order
            for i in range(50):
                r.add(i * 64)
            for i in range(50):
                r.discard(i * 64)
        for e in els[::-1] if rev else els:
            r.add(e)
        return frozenset(r) if t == "fset" else r
    if t == "obj":
        return Pt(mk(s["v"], rev))
    if t == "nd":
        a = np.empty(len(s["v"]), dtype=s["dt"])
        for i, v in enumerate(s["v"]):
            a[i] = np.datetime64("2024-01-01") + v if s["dt"] == "M8[D]" else (fl(v) if s["dt"] == "float64" else v)
        return np.array(a.reshape(s["shape"]), order="F" if rev else s["order"])
    if t in ("pddf", "pdser"):
        idx = s["index"]
        if idx is not None:
            idx = pd.Index(idx, dtype="int64" if not idx or isinstance(idx[0], int) else object)
        cols = {c: pd.Series([cell(k, v) for v in vals], dtype=PDT[k], name=c) for c, k, vals in s["cols"]}
        if t == "pdser":
            r = list(cols.values())[0]
        else:
            r = pd.DataFrame({c: v.values for c, v in cols.items()}) if cols else pd.DataFrame()
            for c, v in cols.items():
                r[c] = r[c].astype(v.dtype)
        if idx is not None:
            r.index = idx
        if s.get("iname"):
            r.index.name = s["iname"]
        if s.get("level"):  # a second level of the index
            r.index = pd.MultiIndex.from_arrays([r.index, [i // 2 for i in range(len(r))]], names=[s["iname"], s["level"]])
        return r
    if t in ("pldf", "plser"):
        P = {"int64": pl.Int64, "float64": pl.Float64, "str": pl.Utf8, "bool": pl.Boolean, "dt": pl.Datetime("ns"), "int8": pl.Int8, "td": pl.Duration("ns")}
        sers = [pl.Series(c, [cell(k, v).to_pydatetime() if k == "dt" else cell(k, v).to_pytimedelta() if k == "td" else cell(k, v) for v in vals], dtype=P[k]) for c, k, vals in s["cols"]]
        return sers[0] if t == "plser" else pl.DataFrame(sers)
    raise ValueError(t)


def canon(v):
    """Structure, type and content as text (independent of insertion order)."""
    if isinstance(v, pd.DataFrame):
        return "DF(%s|%s|%r|%s|%s)" % ([(repr(c), str(t)) for c, t in v.dtypes.items()], v.index.dtype, list(v.index.names), [repr(x) for x in v.index], [[repr(x) for x in v[c].tolist()] for c in v.columns])
    if isinstance(v, pd.Series):
        return "SER(%r|%s|%s|%s|%s)" % (v.name, v.dtype, v.index.dtype, [repr(x) for x in v.index], [repr(x) for x in v.tolist()])
    if isinstance(v, np.ndarray):
        return "ND(%s|%s|%s)" % (v.dtype, v.shape, [repr(x) for x in v.ravel().tolist()])
    if pl is not None and isinstance(v, pl.DataFrame):
        return "PL(%s|%s)" % ([(c, str(t)) for c, t in v.schema.items()], [repr(r) for r in v.rows()])
    if pl is not None and isinstance(v, pl.Series):
        return "PLS(%s|%s|%s)" % (v.name, v.dtype, [repr(x) for x in v.to_list()])
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "(" + ",".join(canon(x) for x in v) + ")"
    if isinstance(v, dict):
        return "dict(" + ",".join(sorted(canon(a) + ":" + canon(b) for a, b in v.items())) + ")"
    if isinstance(v, (set, frozenset)):
        return "set(" + ",".join(sorted(canon(x) for x in v)) + ")"
    if isinstance(v, Pt):
        return "Pt(" + canon(v.x) + ")"
    return type(v).__name__ + ":" + repr(v)


def clean(s, inside=False):
    """Attributes without a fingerprint of their own (here: dates and objects nested beyond the depth limit) are left out of an object's fingerprint
    (known finding), so objects hold plain values only."""
    t = s["t"]
    if inside and t in ("date", "datetime", "timedelta"):
        return {"t": "int", "v": s["v"]}
    if t in ("list", "tuple"):
        return {"t": t, "v": [clean(x, inside) for x in s["v"]]}
    if t == "dict":
        return {"t": t, "v": [[k, clean(x, inside)] for k, x in s["v"]]}
    if t == "obj":
        return {"t": "list" if inside else "obj", "v": [clean(s["v"], True)] if inside else clean(s["v"], True)}
    return s


def subs(s, path=()):
    yield path, s
    if s["t"] in ("list", "tuple"):
        for i, x in enumerate(s["v"]):
            yield from subs(x, path + (i,))
    elif s["t"] == "dict":
        for i, (k, x) in enumerate(s["v"]):
            yield from subs(x, path + (i,))
    elif s["t"] == "obj":
        yield from subs(s["v"], path + (0,))


def replace(s, path, new):
    if not path:
        return new
    s = dict(s)
    i = path[0]
    if s["t"] in ("list", "tuple"):
        s["v"] = [replace(x, path[1:], new) if j == i else x for j, x in enumerate(s["v"])]
    elif s["t"] == "dict":
        s["v"] = [[k, replace(x, path[1:], new)] if j == i else [k, x] for j, (k, x) in enumerate(s["v"])]
    else:
        s["v"] = replace(s["v"], path[1:], new)
    return s


@st.composite
def mutation(draw, s):
    """A spec that differs from s in one place."""
    path, sub = draw(st.sampled_from(list(subs(s))))
    t = sub["t"]
    new = copy.deepcopy(sub)
    what = "leaf"
    if t in ("list", "tuple") and draw(st.booleans()):
        v = new["v"]
        what = draw(st.sampled_from(["append", "drop", "swap", "nest", "dup"]))
        if what == "append":
            v.insert(draw(st.integers(0, len(v))), draw(leaf))
        elif what == "drop" and v:
            v.pop(draw(st.integers(0, len(v) - 1)))
        elif what == "swap" and len(v) > 1:
            i = draw(st.integers(0, len(v) - 2))
            v[i], v[i + 1] = v[i + 1], v[i]
        elif what == "nest" and v:
            i = draw(st.integers(0, len(v) - 1))
            v[i:] = [{"t": t, "v": v[i:]}]
        elif what == "dup" and v:
            v.append(v[-1])
        else:
            v.append({"t": "none"})
    elif t == "dict" and draw(st.booleans()):
        v = [list(x) for x in new["v"]]
        what = draw(st.sampled_from(["rename", "dropkey", "addkey", "swapvals"]))
        if what == "rename" and v:
            v[draw(st.integers(0, len(v) - 1))][0] = "zz"
        elif what == "dropkey" and v:
            v.pop(draw(st.integers(0, len(v) - 1)))
        elif what == "swapvals" and len(v) > 1:
            v[0][1], v[1][1] = v[1][1], v[0][1]
        else:
            v.append(["new", draw(leaf)])
        new["v"] = v
    elif t in ("set", "fset"):
        what = "set element"
        if new["v"] and draw(st.booleans()):
            new["v"].pop()
        else:
            new["v"] = new["v"] + ["zz"]
    elif t in ("pddf", "pdser", "pldf", "plser"):
        cols, n = new["cols"], len(new["cols"][0][2])
        what = draw(st.sampled_from(["cell", "cell", "colname", "colswap", "rowswap", "index", "dtype", "droprow", "dropcol", "iname", "duprow"]))
        ci = draw(st.integers(0, len(cols) - 1))
        if what == "cell" and n:
            r = draw(st.integers(0, n - 1))
            cols[ci][2][r] = draw(CELLS[cols[ci][1]])
        elif what == "colname":
            cols[ci][0] = "renamed"
        elif what == "colswap" and len(cols) > 1:
            cols[0], cols[1] = cols[1], cols[0]
        elif what == "rowswap" and n > 1:
            for c in cols:
                c[2][0], c[2][1] = c[2][1], c[2][0]
            if new["index"] and draw(st.booleans()):
                new["index"][0], new["index"][1] = new["index"][1], new["index"][0]
        elif what == "index" and t.startswith("pd") and n:
            new["index"] = list(new["index"] or range(n))
            new["index"][draw(st.integers(0, n - 1))] = 9 if isinstance(new["index"][0], int) else "zz"
        elif what == "dtype" and cols[ci][1] == "int64":
            cols[ci][1] = "float64"
        elif what == "dropcol" and len(cols) > 1:
            cols.pop(ci)
        elif what == "iname" and t == "pddf":
            new["level" if new.get("level") and draw(st.booleans()) else "iname"] = "other"
        elif what == "duprow" and n:
            for c in cols:
                c[2].append(c[2][-1])
            if new["index"] is not None:
                new["index"].append(new["index"][-1])
        elif n > 1:
            what = "droprow"
            for c in cols:
                c[2].pop()
            if new["index"] is not None:
                new["index"].pop()
        else:
            cols[ci][0] = "renamed"
        what = t + " " + what
    elif t == "nd":
        what = "nd element"
        if new["v"]:
            i = draw(st.integers(0, len(new["v"]) - 1))
            new["v"][i] = {"int64": 7, "float64": 7.5, "bool": not new["v"][i], "U3": "zz", "object": "szz", "int8": 7, "M8[D]": 9}[new["dt"]]
            if len(new["v"]) > 1 and draw(st.booleans()):
                new["v"] = sub["v"][::-1]
        else:
            new["v"], new["shape"] = [{"U3": "a", "object": "sz"}.get(new["dt"], 1)], [1]
    elif draw(st.integers(0, 5)) == 0:
        what = "wrap"
        new = {"t": draw(st.sampled_from(["list", "tuple"])), "v": [sub]}
    else:
        new = draw(leaf)
    return {"spec": clean(replace(s, path, new)), "what": what}
