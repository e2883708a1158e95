"""C20: cache stores behave like the mappings they represent; cache keys are injective and decodable."""
import json, logging, os, pickle, threading
from collections import Counter
from hypothesis import strategies as st
from hamilton import driver, registry
from hamilton.caching.cache_key import create_cache_key, decode_key
from hamilton.caching.stores.base import search_data_adapter_registry
from hamilton.caching.stores.file import FileResultStore
from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
from vlib.core import Part, Violation, require
from vlib import fpvals as V, cachegen as G, dags

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: stateful operation sequences on every store against a dictionary model (with reopening, persisting and loading); generated cache keys"


def setup():
    registry.load_extension("pandas")


NAMES = ["a", "b", "a.b", "ns.load_data.x", "x_1"]
VERS = ["v0", "v1", "q-_=", "<unhashable>_1", ""]


@st.composite
def meta_case(draw):
    keys = [[draw(st.sampled_from(NAMES)), draw(st.sampled_from(["c0", "c1"])), {k: draw(st.sampled_from(VERS[:4])) for k in draw(st.lists(st.sampled_from(["p", "q", "p,q"]), max_size=2, unique=True))}] for _ in range(draw(st.integers(2, 5)))]
    n = len(keys)
    op = st.one_of(
        st.fixed_dictionaries({"o": st.just("init")}), st.fixed_dictionaries({"o": st.just("set"), "k": st.integers(0, n - 1), "v": st.integers(0, 3), "full": st.booleans(), "run": st.integers(0, 3)}),
        st.fixed_dictionaries({"o": st.just("set"), "k": st.integers(0, n - 1), "v": st.integers(0, 3), "full": st.booleans(), "run": st.integers(0, 3)}),
        st.fixed_dictionaries({"o": st.just("delete"), "k": st.integers(0, n - 1)}), st.fixed_dictionaries({"o": st.sampled_from(["reopen", "reload", "persist", "pickle", "thread"])}),
        st.fixed_dictionaries({"o": st.sampled_from(["delete_all", "reopen"])}))
    return {"keys": keys, "ops": [{"o": "init"}] + draw(st.lists(op, min_size=3, max_size=25))}


def check_meta(case, ctx):
    keys = [create_cache_key(*k) for k in case["keys"]]
    d = ctx.fresh_dir()
    sql, mem = SQLiteMetadataStore(path=d), InMemoryMetadataStore()
    model, runs, hist = {}, [], {}  # key -> version; run ids; run -> keys set
    sets = deletes = 0
    maybe = set()
    for oi, op in enumerate(case["ops"]):
        o = op["o"]
        if o == "init":
            r = "run%d" % (oi % 7 + 10 * len(runs))
            runs.append(r)
            hist[r] = []
            sql.initialize(r)
            mem.initialize(r)
        elif o == "set" and runs:
            k, v, r = keys[op["k"]], VERS[op["v"]], runs[-1 - op["run"] % len(runs)]
            kw = dict(node_name=case["keys"][op["k"]][0], code_version=case["keys"][op["k"]][1]) if op["full"] else {}
            sql.set(cache_key=k, data_version=v, run_id=r, **kw)
            mem.set(cache_key=k, data_version=v, run_id=r, **kw)
            model[k] = v
            hist[r].append(k)
            sets += 1
        elif o == "delete":
            k = keys[op["k"]]
            sql.delete(k)
            mem.delete(k)
            model.pop(k, None)
            maybe.update((r, k) for r in hist if k in hist[r])  # listed again by its earlier runs once set anew, or not: unspecified
            hist = {r: [x for x in hist[r] if x != k] for r in hist}
            deletes += 1
        elif o == "delete_all":
            sql.delete_all()
            mem.delete_all()
            model, runs, hist = {}, [], {}
        elif o == "reopen":
            sql = SQLiteMetadataStore(path=d)
        elif o == "pickle":
            sql = type(sql)(**sql.__getstate__())
        elif o == "reload":
            mem = InMemoryMetadataStore.load_from(sql)
            # only what some run wrote is found again
            require(set(mem._data_versions) <= set(model), "load_from invented keys")
        elif o == "persist":
            d = ctx.fresh_dir()
            sql = SQLiteMetadataStore(path=d)
            mem.persist_to(sql)
        elif o == "thread":  # writes by another thread are visible here
            if runs:
                err = []

                def work():
                    try:
                        sql.set(cache_key=keys[0], data_version="vt", run_id=runs[-1])
                        mem.set(cache_key=keys[0], data_version="vt", run_id=runs[-1])
                    except Exception as e:
                        err.append(e)
                t = threading.Thread(target=work)
                t.start()
                t.join()
                require(not err, "a write from another thread failed: %s", err)
                model[keys[0]] = "vt"
                hist[runs[-1]].append(keys[0])
        for name, s in (("SQLite", sql), ("in-memory", mem)):
            for k in set(keys):
                require(s.get(k) == model.get(k), "%s.get after %s: %r, expected %r (op %d)", name, o, s.get(k), model.get(k), oi)
                require(s.exists(k) == (k in model), "%s.exists after %s: %r (op %d)", name, o, s.exists(k), oi)
            require(len(s) == s.size == len(model), "%s: size %d expected %d after %s", name, len(s), len(model), o)
            require(list(s.get_run_ids()) == runs, "%s: runs %s expected %s after %s", name, list(s.get_run_ids()), runs, o)
            if runs:
                require(s.last_run_id == runs[-1], "%s: last run", name)
            for r in runs:
                got = Counter((m["cache_key"], m["data_version"], m["node_name"], m["code_version"]) for m in s.get_run(r))
                want = Counter((k, model[k], decode_key(k)["node_name"], decode_key(k)["code_version"]) for k in hist[r] if k in model)
                got = {g for g in got if g in want or (r, g[0]) not in maybe}
                require(set(got) == set(want), "%s.get_run(%s) after %s: %s expected %s", name, r, o, got, want)
            for r in ("nope",):
                try:
                    s.get_run(r)
                except IndexError:
                    pass
                else:
                    raise Violation("%s.get_run of an unknown run does not raise" % name)
    ctx.nontrivial(sets > 1 and deletes > 0)


@st.composite
def res_case(draw):
    # two specs per version never happen in a cache, but a store must still answer with the last one
    n = draw(st.integers(2, 4))
    vals = draw(st.lists(st.one_of(V.tree(max_leaves=5), st.sampled_from([{"t": "none"}, {"t": "int", "v": 0}, {"t": "bool", "v": False}])), min_size=2, max_size=5))
    op = st.one_of(
        st.fixed_dictionaries({"o": st.just("set"), "k": st.integers(0, n - 1), "v": st.integers(0, len(vals) - 1), "fmt": st.sampled_from([None, None, "pickle", "json"])}),
        st.fixed_dictionaries({"o": st.just("set"), "k": st.integers(0, n - 1), "v": st.integers(0, len(vals) - 1), "fmt": st.just(None)}),
        st.fixed_dictionaries({"o": st.just("delete"), "k": st.integers(0, n - 1)}),
        st.fixed_dictionaries({"o": st.sampled_from(["reopen", "delete_all", "persist", "reload", "getstate"])}))
    return {"vals": vals, "keys": draw(st.permutations(["QmFz_-ZTY0==", "<unhashable>_1-2", "<unhashable>_1-27", "saved__metadata_abc=", "x", "v1", "v12"] + [c + "c0Yt_3A8w-e5GZk1mPqR4==" for c in draw(st.permutations("mABzs_-09q"))[:3]]))[:n], "ops": draw(st.lists(op, min_size=3, max_size=20))}


def check_res(case, ctx):
    d = ctx.fresh_dir()
    fs, mem, model = FileResultStore(path=d), InMemoryResultStore(), {}

    def beside():
        # by default the metadata store lies in the directory of the results: what is done to the results leaves it alone
        ms = SQLiteMetadataStore(path=d)
        ms.initialize("r0")
        ms.set(cache_key="k0", data_version="v0", run_id="r0", node_name="n", code_version="c")
    meta = any(op["o"] == "delete_all" for op in case["ops"])
    if meta:
        beside()
    keys, c = case["keys"], Counter()
    for oi, op in enumerate(case["ops"]):
        o = op["o"]
        c[o] += 1
        if o == "set":
            k, v = keys[op["k"]], V.mk(case["vals"][op["v"]])
            kw = {}
            if op["fmt"] == "json":
                v = {"k": ["lst", op["v"]], "n": None}
            if op["fmt"]:
                try:
                    sc, lc = search_data_adapter_registry(name=op["fmt"], type_=type(v))
                    kw = dict(saver_cls=sc, loader_cls=lc)
                except KeyError:
                    kw = {}
            if kw and "." in k:
                kw = {}  # data versions have no dots
            fs.set(k, v, **kw)
            mem.set(k, v)
            model[k] = V.canon(v)
        elif o == "delete":
            fs.delete(keys[op["k"]])
            mem.delete(keys[op["k"]])
            model.pop(keys[op["k"]], None)
        elif o == "delete_all":
            fs.delete_all()
            mem.delete_all()
            model = {}
            require(SQLiteMetadataStore(path=d).get("k0") == "v0", "deleting all results lost the metadata store beside them")
        elif o == "reopen":
            fs = FileResultStore(path=d)
        elif o == "getstate":
            fs = FileResultStore(**fs.__getstate__())
        elif o == "persist":
            d = ctx.fresh_dir()
            if meta:
                beside()
            fs = FileResultStore(path=d)
            mem.persist_to(fs)
        elif o == "reload":
            mem = InMemoryResultStore.load_from(fs, data_versions=list(keys))
        for name, s in (("file", fs), ("in-memory", mem)):
            for k in keys:
                require(s.exists(k) == (k in model), "%s store after %s: exists(%r) is %r", name, o, k, s.exists(k))
                if k in model:
                    require(V.canon(s.get(k)) == model[k], "%s store after %s: get(%r) gives %s, stored %s", name, o, k, V.canon(s.get(k)), model[k])
                else:
                    require(s.get(k) is None, "%s store: get of a missing result gives %r", name, s.get(k))
    ctx.nontrivial(c["set"] > 1 and c["delete"] + c["delete_all"] + c["reopen"] + c["persist"] + c["reload"] > 0)


# ---------------------------------------------------------------- stores filled by executions
@st.composite
def exec_case(draw):
    return {"proj": draw(G.project(kinds=["mix", "small", "lst", "maybe", "dct"], behaviors=True)), "runs": draw(st.lists(st.lists(st.integers(0, 2), min_size=2, max_size=2), min_size=1, max_size=3)), "drop": draw(st.booleans())}


def check_exec(case, ctx):
    """What executions write into in-memory stores survives persisting and loading, and equals what they write into on-disk stores."""
    d1, d2 = ctx.fresh_dir(), ctx.fresh_dir()
    mod = G.module(case["proj"])
    try:
        outs = G.all_outputs(case["proj"])
        disk = driver.Builder().with_modules(mod).with_cache(path=d1).build()
        mm, mr = InMemoryMetadataStore(), InMemoryResultStore()
        memd = driver.Builder().with_modules(mod).with_cache(path=d2, metadata_store=mm, result_store=mr).build()
        for i0, i1 in case["runs"]:
            a = disk.execute(outs, inputs={"i0": i0, "i1": i1})
            b = memd.execute(outs, inputs={"i0": i0, "i1": i1})
            require(G.canon(a) == G.canon(b), "the stores lead to different results")

        def dump(ms, rs):
            r = []
            for run in ms.get_run_ids():
                # keys of nodes downstream of disabled ones are random by design
                r.append(sorted((m["node_name"], m["code_version"], m["data_version"], G.canon(rs.get(m["data_version"])) if rs.exists(m["data_version"]) else None) for m in ms.get_run(run)))
            return r
        x, y = dump(disk.cache.metadata_store, disk.cache.result_store), dump(mm, mr)
        require(x == y, "on-disk stores hold %s, in-memory stores %s", x, y)
        p, q = SQLiteMetadataStore(path=d2), FileResultStore(path=d2)
        mm.persist_to(p)
        mr.persist_to(q)
        require(dump(p, q) == y, "persisted stores hold %s, expected %s", dump(p, q), y)
        lm = InMemoryMetadataStore.load_from(p)
        lr = InMemoryResultStore.load_from(q, metadata_store=p)
        require(dump(lm, lr) == y, "loaded stores hold %s, expected %s", dump(lm, lr), y)
        ctx.nontrivial(len(y) > 1 and any(len(r) > 1 for r in y))
    finally:
        dags.drop_modules([mod])


# ---------------------------------------------------------------- cache keys
nm = st.text(alphabet=st.sampled_from(list("ab.-_,%/<>é0 ")), min_size=1, max_size=6)
ver = st.one_of(st.sampled_from(["<none>", "<ignore>", "<disable>_1", "MQ==", "a-b_c="]), nm)
code = st.text(alphabet="0123456789abcdef", min_size=1, max_size=5)
keyspec = st.tuples(nm, code, st.dictionaries(nm, ver, max_size=4).map(lambda d: sorted(d.items()))).map(list)


@st.composite
def key_case(draw):
    ks = draw(st.lists(keyspec, min_size=1, max_size=4))
    for _ in range(draw(st.integers(1, 4))):
        a = draw(st.sampled_from(ks))
        b = [a[0], a[1], [list(x) for x in a[2]]]
        w = draw(st.sampled_from(["name", "code", "dep", "depname", "drop", "move", "shift"]))
        if w == "name":
            b[0] = draw(nm)
        elif w == "code":
            b[1] = draw(code)
        elif b[2]:
            i = draw(st.integers(0, len(b[2]) - 1))
            if w == "dep":
                b[2][i][1] = draw(ver)
            elif w == "depname":
                b[2][i][0] = draw(nm)
            elif w == "drop":
                b[2].pop(i)
            elif w == "move" and len(b[2]) > 1:
                b[2][0][1], b[2][1][1] = b[2][1][1], b[2][0][1]
            elif w == "shift":
                b[2][i] = [b[2][i][0] + "," + b[2][i][1], draw(ver)]
        ks.append(b)
    return {"keys": ks}


def check_key(case, ctx):
    seen = {}
    for n, c, deps in case["keys"]:
        d = {a: b for a, b in deps}
        k = create_cache_key(n, c, d)
        require(create_cache_key(n, c, dict(reversed(list(d.items())))) == k, "the key depends on the order of dependencies")
        ident = json.dumps([n, c, sorted(d.items())])
        require(seen.setdefault(k, ident) == ident, "one cache key for %s and %s", seen[k], ident)
        g = decode_key(k)
        require((g["node_name"], g["code_version"], dict(g["dependencies_data_versions"])) == (n, c, d), "decoded to %s, encoded %s", g, [n, c, d])
    ctx.nontrivial(len(seen) > 1)


PARTS = [
    Part("metadata", meta_case, check_meta, 400, 8000, "two or more writes and a deletion", shards=3, tshards=4, setup=setup),
    Part("results", res_case, check_res, 500, 9000, "two or more writes and a deletion, reopening or transfer", shards=2, tshards=4, setup=setup),
    Part("executions", exec_case, check_exec, 120, 2500, "two or more runs of two or more nodes", shards=2, tshards=3, setup=setup),
    Part("keys", key_case, check_key, 2500, 60000, "two or more different keys", shards=1, tshards=2),
]
