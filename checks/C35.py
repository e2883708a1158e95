"""C35: the hub of off-the-shelf dataflows: histories of pulls, imports, inspections, searches and copies against a model of the local store, over a scripted network."""
import io, itertools, json, logging, os, shutil, sys, tempfile, types, urllib.error, urllib.request
from hypothesis import strategies as st
from vlib.core import Part, Violation, require

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing: generated histories of hub operations with injected network faults, compared step by step with a model of the local store"
FILES = ["__init__.py", "requirements.txt", "README.md", "valid_configs.jsonl", "tags.json"]
SHAS = ["c0ffee1", "deadbee", "0123abc", "main"]
USERS = [None, "zoe", "al-bo", "zo"]
NAMES = ["hubflow_a", "hubflow_b", "hubflow"]
WORDS = ["alpha", "beta", "gamma", "été"]
REQS = [("pandas", True), ("pandas==1.0", True), ("numpy>=1.2,<9", True), ("pandas <3", True), ("numpy~=1.0", True), ("pandas!=0.1", True), ("sf-nope-xyz", False), ("sf-nope-xyz>=1", False), ("sf_nope[extra]==2", False), ("numpy ; python_version > '3'", True),
        ("pandas[all]", True), ("# sf-nope-xyz", True), ("", True), ("typing_extensions > 4.0.0 # comment", True), ("NumPy", True), ("numpy (>=1.0)", True), ("pandas(>=1.0)", True), ("sf-nope-xyz(>=1)", False), ("--no-deps", True), ("pandas @ https://example.org/x.whl", True)]
_count = itertools.count()
S = {}


def setup():
    """The hub keeps its files below the home directory: give this process one of its own."""
    S["home"] = tempfile.mkdtemp(prefix="c35home")
    os.environ["HOME"] = S["home"]
    import importlib
    from hamilton import dataflows, telemetry
    telemetry.disable_telemetry()
    importlib.reload(dataflows)
    require(os.path.abspath(dataflows.DATAFLOW_FOLDER).startswith(S["home"]), "the store %s is not below the home directory", dataflows.DATAFLOW_FOLDER)
    S["df"] = dataflows
    import atexit
    atexit.register(lambda: REAL_RMTREE(S["home"], True))


REAL_RMTREE = shutil.rmtree
REAL_URLOPEN = urllib.request.urlopen


@st.composite
def flow(draw):
    return {"k": draw(st.integers(0, 99)), "n": draw(st.integers(1, 3)), "doc": draw(st.sampled_from(WORDS + ["α"])), "readme": draw(st.lists(st.sampled_from(WORDS), max_size=2)), "reqs": draw(st.lists(st.integers(0, len(REQS) - 1), max_size=3)),
            "cfgs": draw(st.lists(st.sampled_from([{}, {"mode": "x"}, {"mode": "y"}]), min_size=1, max_size=2)), "tagged": draw(st.sampled_from([None, "True", "False", "true"])), "eol": draw(st.booleans())}


key = st.tuples(st.sampled_from(SHAS), st.sampled_from(USERS), st.sampled_from(NAMES)).map(list)
ver = st.sampled_from(SHAS + ["latest", "latest"])


@st.composite
def case_(draw):
    remote = [[draw(key), draw(flow())] for _ in range(draw(st.integers(1, 6)))]
    keys = [r[0] for r in remote]
    k = st.one_of(st.sampled_from(keys), st.sampled_from(keys), key)
    fault = st.one_of(st.none(), st.none(), st.none(), st.fixed_dictionaries({"at": st.integers(0, 6), "what": st.sampled_from([404, 500, 403, "down"])}))
    op = st.one_of(
        st.fixed_dictionaries({"op": st.sampled_from(["pull", "pull", "import", "import", "import"]), "key": k, "latest": st.integers(0, 2).map(lambda x: x == 0), "overwrite": st.booleans(), "fault": fault}),
        st.fixed_dictionaries({"op": st.sampled_from(["inspect", "deps", "deps", "install", "latest", "module", "module"]), "key": k, "latest": st.integers(0, 2).map(lambda x: x == 0), "fault": st.none()}),
        st.fixed_dictionaries({"op": st.sampled_from(["list", "find"]), "version": st.sampled_from([None, None] + SHAS), "user": st.sampled_from([None] + USERS), "q": st.sampled_from(WORDS + ["def ", "zzz", "pandas", "mode", "ALPHA", "Beta", "flow\n", "# flow", ""])}),
        st.fixed_dictionaries({"op": st.just("copy"), "i": st.integers(0, 9), "overwrite": st.booleans(), "rename": st.sampled_from([None, None, "other", "hubflow_a"]), "sub": st.sampled_from(["", "x/y"])}),
        st.fixed_dictionaries({"op": st.just("publish"), "key": key, "flow": flow()}),
        st.fixed_dictionaries({"op": st.just("branch"), "b": st.integers(0, 1), "sha": st.sampled_from(["s1", "s2", "s3"])}),
        st.fixed_dictionaries({"op": st.sampled_from(["clear", "foreign", "foreign", "stray", "stray"]), "key": k}))
    ops = draw(st.lists(op, min_size=2, max_size=10))
    if draw(st.booleans()):
        ops = [{"op": "pull", "key": x, "latest": False, "overwrite": False, "fault": None} for x in keys] + ops
    return {"remote": remote, "ops": ops}


def files_of(f):
    code = '"""%s."""\nfrom hamilton.function_modifiers import tag, config\n\n' % f["doc"]
    for i in range(f["n"]):
        code += "%sdef node_%d(%s: int) -> int:\n    return %s + %d  #%s\n\n" % ("@tag(designated_output='%s')\n" % f["tagged"] if f["tagged"] and i == 0 else "", i, "inp" if i == 0 else "node_%d" % (i - 1), "inp" if i == 0 else "node_%d" % (i - 1), f["k"] + i, "-" * f["k"])
    code += "@config.when(mode='x')\ndef extra__x(inp: int) -> str:\n    return 'x'\n"
    eol = "\n" if f["eol"] else ""
    return {"__init__.py": code, "requirements.txt": "\n".join(REQS[i][0] for i in f["reqs"]) + eol, "README.md": "# flow\n" + " ".join(f["readme"]) + "\n", "valid_configs.jsonl": "\n".join(json.dumps(c) for c in f["cfgs"]) + eol,
            "tags.json": json.dumps({"tags": f["readme"]})}


class Net:
    """urlopen of a world holding `flows`; one request can be made to fail."""

    def __init__(self):
        self.flows, self.order, self.branches, self.fault, self.n, self.urls = {}, [], {}, None, 0, []

    def publish(self, key, flow):
        self.flows[tuple(key)] = flow
        k = tuple(key)
        if k in self.order:
            self.order.remove(k)
        self.order.insert(0, k)

    def latest(self, user, name):
        for v, u, n in self.order:
            if u == user and n == name:
                return v

    def answer(self, url):
        raw = "https://raw.githubusercontent.com/dagworks-inc/hamilton/"
        if url.startswith(raw):
            parts = url[len(raw):].split("/")
            v, rest = parts[0], parts[1:]
            if rest[:3] == ["contrib", "hamilton", "contrib"]:
                rest = rest[3:]
                k = (v, rest[1], rest[2]) if rest[0] == "user" and len(rest) == 4 else (v, None, rest[1]) if rest[0] == "dagworks" and len(rest) == 3 else None
                if k in self.flows:
                    return files_of(self.flows[k]).get(rest[-1])
        hub = "https://hub.dagworks.io/commits/"
        if url.startswith(hub):
            parts = url[len(hub):].split("/")
            u, n = (parts[1], parts[2]) if parts[0] == "Users" and len(parts) == 4 else (None, parts[1]) if parts[0] == "DAGWorks" and len(parts) == 3 else (0, 0)
            vs = [v for v, a, b in self.order if (a, b) == (u, n)]
            if vs and parts[-1] == "commit.txt":
                return "".join("[commit::%s][ts::1]\n" % v for v in vs)
        api = "https://api.github.com/repos/DAGWorks-Inc/hamilton/git/refs/heads/"
        if url.startswith(api) and url[len(api):] in self.branches:
            return json.dumps({"ref": url, "object": {"sha": self.branches[url[len(api):]]}})
        return None

    def __call__(self, url, *a, **kw):
        url = getattr(url, "full_url", url)
        self.urls.append(url)
        i, self.n = self.n, self.n + 1
        if self.fault and self.fault["at"] == i:
            self.fault = dict(self.fault, hit=True)
            if self.fault["what"] == "down":
                raise urllib.error.URLError("no route")
            raise urllib.error.HTTPError(url, self.fault["what"], "injected", {}, None)
        text = self.answer(url)
        if text is None:
            raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
        r = io.BytesIO(text.encode("utf-8"))
        r.status = 200
        r.getcode = lambda: 200
        return r


def tree(root):
    out = {}
    for b, ds, fs in os.walk(root):
        ds[:] = [d for d in ds if d != "__pycache__"]
        for f in fs:
            out[os.path.relpath(os.path.join(b, f), root)] = open(os.path.join(b, f), encoding="utf-8").read()
    return out


def place(k):
    v, u, n = k
    return "%s/contrib/hamilton/contrib/%s" % (v, "user/%s/%s" % (u, n) if u else "dagworks/%s" % n)


def check(case, ctx):
    df = S["df"]
    store = df.DATAFLOW_FOLDER
    REAL_RMTREE(store, True)
    out = ctx.fresh_dir()
    net, local, extra, copies, mods, branch_seen = Net(), {}, {}, {}, [], {}
    uid = next(_count)
    removed = []

    def guarded(path, *a, **kw):
        removed.append(path)
        if not os.path.abspath(str(path)).startswith(S["home"] + os.sep):
            raise Violation("something outside of the store is removed: %s" % path)
        return REAL_RMTREE(path, *a, **kw)
    urllib.request.urlopen, shutil.rmtree = net, guarded
    try:
        for k, f in case["remote"]:
            net.publish(k, f)

        def resolve(o):
            """version meant by the operation, or None if the network knows none"""
            return net.latest(o["key"][1], o["key"][2]) if o["latest"] else o["key"][0]

        def attempt(fn, *a, **kw):
            net.n, net.urls = 0, []
            try:
                return "ok", fn(*a, **kw)
            except (ValueError, urllib.error.URLError) as e:
                return "err", e
        for i, o in enumerate(case["ops"]):
            what = o["op"]
            if what == "publish":
                old = net.flows.get(tuple(o["key"]))
                if old is None or o["key"][0] == "main" and len(files_of(old)["__init__.py"]) != len(files_of(o["flow"])["__init__.py"]):
                    net.publish(o["key"], o["flow"])
            elif what in ("pull", "import"):
                v, (_, u, n) = resolve(o), o["key"]
                net.fault = o["fault"]
                args = (n, u, "latest" if o["latest"] else v)
                pos = [a for a in args] if u else None
                before = {k: dict(f) for k, f in local.items()}
                fn = df.pull_module if what == "pull" else df.import_module
                st_, r = attempt(fn, n, u, version=args[2], overwrite=o["overwrite"]) if u or i % 2 else attempt(fn, n, version=args[2], overwrite=o["overwrite"])
                failed_net = bool(net.fault and net.fault.get("hit"))
                net.fault = None
                k = (v, u, n)
                have, there = k in local, k in net.flows
                if failed_net or v is None:
                    ok = False
                elif what == "pull":
                    ok = there and (o["overwrite"] or not have)
                else:
                    ok = there if o["overwrite"] or not have else True
                require((st_ == "ok") == ok, "step %d: %s of %s (locally: %s, published: %s, overwrite %s, network fault %s) %s", i, what, k, have, there, o["overwrite"], o["fault"] if failed_net else None, "succeeded" if st_ == "ok" else "failed: %r" % (r,))
                if ok and (what == "pull" or o["overwrite"] or not have):
                    local[k] = files_of(net.flows[k])
                    ctx.note("downloaded over an earlier download" if have else "downloaded")
                    want = {"https://raw.githubusercontent.com/dagworks-inc/hamilton/%s/%s" % (place(k), f) for f in FILES}
                    require(want <= set(net.urls), "step %d: %s did not ask for %s", i, what, sorted(want - set(net.urls)))
                elif ok:
                    require(not [x for x in net.urls if "raw.github" in x], "step %d: import of the local %s downloads %s", i, k, net.urls)
                    ctx.note("imported without download")
                if failed_net:
                    ctx.note("download cut short by the network", *(["cut short while overwriting"] if have else []))
                if ok and what == "import":
                    m = r
                    require(isinstance(m, types.ModuleType) and m.__version__ == v and sys.modules.get(n) is m, "step %d: import of %s gives %r of version %r", i, k, m, getattr(m, "__version__", None))
                    src = local[k]["__init__.py"]
                    ns = {"__name__": "hubref"}
                    exec(compile(src, "ref", "exec"), ns)
                    require(m.node_0(5) == ns["node_0"](5) and m.__doc__ == ns["__doc__"] and sorted(x for x in dir(m) if x.startswith("node_")) == sorted(x for x in ns if x.startswith("node_")), "step %d: the module imported for %s is not the code of that version", i, k)
                    mods.append((m, k))
            elif what in ("inspect", "deps", "install", "latest"):
                v, (_, u, n) = resolve(o), o["key"]
                a = "latest" if o["latest"] else v
                k = (v, u, n)
                if what == "latest":
                    st_, r = attempt(df.latest_commit, n, u)
                    lv = net.latest(u, n)
                    require((st_ == "ok") == (lv is not None) and (lv is None or r == lv), "step %d: the latest commit of %s/%s is %r, expected %r", i, u, n, r, lv)
                elif v is None:
                    st_, r = attempt({"inspect": df.inspect, "deps": df.are_py_dependencies_satisfied, "install": df.install_dependencies_string}[what], n, u, a)
                    require(st_ == "err", "step %d: %s of an unpublished dataflow gives %r", i, what, r)
                elif what == "inspect":
                    st_, r = attempt(df.inspect, n, u, version=a)
                    require((st_ == "ok") == (k in local), "step %d: inspect of %s (locally: %s) gives %r", i, k, k in local, r)
                    if k in local:
                        lines = lambda s: [x.strip() for x in s.splitlines() if x.strip()]
                        require(r.version == v and lines("\n".join(r.python_dependencies)) == lines(local[k]["requirements.txt"]) and [json.loads(c) for c in r.configurations] == [json.loads(c) for c in local[k]["valid_configs.jsonl"].splitlines()],
                                "step %d: inspect of %s gives %r", i, k, r)
                        require(isinstance(r.dataflow, str) and v in r.dataflow and n in r.dataflow and (r.user is None if not u else r.user == "https://github.com/" + u), "step %d: inspect of %s gives URLs %r %r", i, k, r.dataflow, r.user)
                        ctx.note("inspected")
                elif what == "deps":
                    st_, r = attempt(df.are_py_dependencies_satisfied, n, u, a)
                    want = True
                    if k in local:
                        byl = {x.strip(): ok for x, ok in REQS}
                        want = all(byl[x.strip()] for x in local[k]["requirements.txt"].splitlines())
                        ctx.note("dependencies " + ("satisfied" if want else "missing"))
                    require(st_ == "ok" and r is want, "step %d: are the dependencies %r of %s satisfied? %r, expected %r", i, local.get(k, {}).get("requirements.txt"), k, r, want)
                else:
                    st_, r = attempt(df.install_dependencies_string, n, u, a)
                    want = "pip install -r %s" % os.path.join(store, place(k), "requirements.txt") if k in local else ""
                    require(st_ == "ok" and r == want, "step %d: how to install the dependencies of %s: %r, expected %r", i, k, r, want)
            elif what == "module":
                if mods:
                    m, k = mods[-1]
                    r = df.inspect_module(m) if k in local else None
                    if r is not None:
                        from hamilton import driver
                        if m.__doc__ == local[k]["__init__.py"].split('"""')[1]:
                            cfg = [json.loads(c) for c in local[k]["valid_configs.jsonl"].splitlines()]
                            nn = len([x for x in dir(m) if x.startswith("node_")])
                            wn = {"node_%d" % j for j in range(nn)} | ({"extra"} if cfg[0].get("mode") == "x" else set())
                            require(r.version == k[0] and list(r.configurations) == cfg and {a for a, _ in r.nodes} == wn and "inp" in {a for a, _ in r.possible_inputs} and r.user == ("https://github.com/" + k[1] if k[1] else None) and k[2] in r.dataflow,
                                    "step %d: inspection of the module of %s: %r", i, k, r)
                            require({a for a, _ in r.designated_outputs} == ({"node_0"} if "@tag(designated_output='True')" in local[k]["__init__.py"] else set()), "step %d: designated outputs of %s: %r", i, k, r.designated_outputs)
                            ctx.note("module inspected")
            elif what == "list":
                st_, r = attempt(df.list, version=o["version"], user=o["user"])
                want = sorted([v, u, n] for v, u, n in local if u and (not o["version"] or v == o["version"]) and (not o["user"] or u == o["user"]))
                require(st_ == "ok" and sorted([list(x) for x in r if x[1]]) == want, "step %d: list(%r, %r) gives %r, expected %r", i, o["version"], o["user"], r, want)
                ctx.note("listed") if want else None
            elif what == "find":
                st_, r = attempt(df.find, o["q"], version=o["version"], user=o["user"])
                want = sorted([v, u, n] for (v, u, n), fs in local.items() if u and (not o["version"] or v == o["version"]) and (not o["user"] or u == o["user"]) and any(o["q"] in fs[f] for f in ("__init__.py", "README.md")))
                require(st_ == "ok" and sorted([list(x) for x in r if x[1]]) == want, "step %d: find(%r, %r, %r) gives %r, expected %r", i, o["q"], o["version"], o["user"], r, want)
                ctx.note("found") if want else None
            elif what == "copy":
                if mods:
                    m, k = mods[o["i"] % len(mods)]
                    dest = os.path.join(out, o["sub"])
                    name = o["rename"] or k[2]
                    p = os.path.join(o["sub"], name, "__init__.py")
                    kw = {} if o["rename"] is None else {"renamed_module": o["rename"]}
                    st_, r = attempt(df.copy, m, dest, overwrite=o["overwrite"], **kw)
                    ok = k in local and (o["overwrite"] or p not in copies)
                    require((st_ == "ok") == ok, "step %d: copy to %s (exists: %s, overwrite %s) %s", i, p, p in copies, o["overwrite"], st_)
                    if ok:
                        copies[p] = local[k]["__init__.py"]
                        ctx.note("copied")
            elif what == "branch":
                b = "branch%d_%d" % (uid, o["b"])
                net.branches[b] = o["sha"]
                branch_seen.setdefault(b, set()).add(o["sha"])
                st_, r = attempt(df.resolve_latest_branch_commit, b)
                require(st_ == "ok" and r in branch_seen[b], "step %d: the commit of branch %s is %r, it only ever was %s", i, b, r, sorted(branch_seen[b]))
            elif what == "clear":
                st_, r = attempt(df.clear_storage)
                require(st_ == "ok", "step %d: clearing the store fails: %r", i, r)
                local, extra = {}, {}
                require(not os.path.exists(store) or not tree(store), "step %d: the cleared store holds %s", i, tree(store) if os.path.exists(store) else None)
                ctx.note("cleared")
            elif what == "foreign":  # a module of the user's own with the name of a dataflow
                sys.modules[o["key"][2]] = types.ModuleType(o["key"][2])
            elif what == "stray":  # files that are no dataflow
                for p in (".hidden", "note.txt"):
                    if os.path.isdir(store):
                        with open(os.path.join(store, p), "w") as fh:
                            fh.write("alpha")
                        extra[p] = "alpha"
            have = tree(store) if os.path.exists(store) else {}
            want = {os.path.join(place(k), f): t for k, fs in local.items() for f, t in fs.items()}
            want.update(extra)
            require(have == want, "step %d (%s %s): the local store has unexpected/changed %s, lacks %s", i, what, o.get("key"), sorted(f for f in have if have[f] != want.get(f)), sorted(set(want) - set(have)))
            require(tree(out) == copies, "step %d (%s): the copies made are %s, expected %s", i, what, sorted(tree(out)), sorted(copies))
        ctx.nontrivial(len(case["ops"]) >= 3 and bool(local or copies))
    finally:
        urllib.request.urlopen, shutil.rmtree = REAL_URLOPEN, REAL_RMTREE
        for n in NAMES:
            sys.modules.pop(n, None)
        REAL_RMTREE(store, True)


PARTS = [Part("histories", case_, check, 5000, 60000, "three or more operations end with something downloaded or copied", shards=6, tshards=7, setup=setup)]
