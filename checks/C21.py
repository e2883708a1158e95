"""C21: a crash or failed write while caching never corrupts later results."""
import glob, json, logging, os, pickle, resource, signal, sys
from hypothesis import strategies as st
from hamilton import driver, registry
from vlib.core import Part, Violation, require
from vlib import cachegen as G, dags
from vlib.drv import configure_task

logging.disable(logging.CRITICAL)
LEVEL = "exploration"
TECH = "property-based testing with fault injection: generated dataflows; the caching process is killed at a generated point, writes fail or are cut short, stored files are torn; the next execution is compared with an uncached one"
KINDS = ["mix", "small", "lst", "dct", "maybe", "df", "nd", "pt", "big", "cplx"]


def setup():
    registry.load_extension("pandas")


@st.composite
def case_(draw):
    proj = draw(G.project(decos=("plain",), kinds=[k for k in KINDS if k != "big"], fmts=True, max_fns=4))
    faults = []
    for _ in range(draw(st.integers(1, 3))):
        f = {"f": draw(st.sampled_from(["kill", "kill", "kill", "limit", "limit_kill", "tear", "tear", "junk", "empty"])), "at": draw(st.integers(0, 1000)), "x": draw(st.integers(0, 50)), "i0": draw(st.integers(0, 1)), "k": draw(st.integers(0, 1)),
             "check": draw(st.booleans())}
        faults.append(f)
    return {"proj": proj, "faults": faults, "warm": draw(st.booleans()), "task": draw(st.integers(0, 3)) == 0, "i0": draw(st.integers(0, 1)), "pad": draw(st.sampled_from([0, 0, 3000, 20000])), "mem": None,
            "split": draw(st.booleans())}


def mk(mod, case, d=None):
    b = driver.Builder().with_modules(mod)
    if case["task"]:
        b = configure_task(b.enable_dynamic_execution(allow_experimental_mode=True), "task:default:sync:sync")
    if d:
        b = b.with_cache(path=d)
    return b.build()


def tracer(stop, counter):
    """Counts the lines executed in hamilton/caching; ends the process at line number `stop`."""
    def local(frame, event, arg):
        if event == "line" or event == "call":
            counter[0] += 1
            if counter[0] == stop:
                os._exit(77)
        return local

    def glob_(frame, event, arg):
        fn = frame.f_code.co_filename
        if "hamilton/caching" in fn or fn.endswith("pathlib.py") and counter[0]:
            return local(frame, event, arg)
        return None
    return glob_


def child(fn):
    """Runs fn in a forked process: -> (exit status, what fn returned or None)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("raised", repr(e))
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return status, pickle.loads(buf) if buf else None


def check(case, ctx):
    d = ctx.fresh_dir()
    outs = G.all_outputs(case["proj"])
    state = {"i0": case["i0"], "k": 0}
    mods = {}

    def module():
        p = json.loads(json.dumps(case["proj"]))
        p["fns"][0]["k"] += 3 * state["k"]
        src = G.proj_src(p)
        if src not in mods:
            mods[src] = dags.make_module(src, header=G.HEADER)
        return mods[src]

    def inputs():
        return {"i0": ["lst", state["i0"], "x" * case["pad"]], "i1": 1}

    def run(where):
        r = mk(module(), case, where).execute(outs, inputs=inputs())
        return {k: G.canon(v) for k, v in r.items()}

    def counted():
        G.CALLS.names = []
        return run(d), list(G.CALLS.names)

    hit = False
    try:
        if case["warm"]:
            child(lambda: run(d))
        for fi, f in enumerate(case["faults"]):
            state = {"i0": f["i0"], "k": f["k"]}
            module()
            want = run(None)
            kind = f["f"]
            if kind == "kill":
                c = ctx.fresh_dir()
                os.system("cp -r %s/. %s/" % (d, c))

                def count():
                    n = [0]
                    sys.settrace(tracer(-1, n))
                    run(c)
                    sys.settrace(None)
                    return n[0]
                st_, r = child(count)
                require(r and r[0] == "ok", "execution over the cache left by earlier faults failed: %s", r)
                total = r[1]
                stop = 1 + f["at"] * total // 1001

                def dying():
                    sys.settrace(tracer(stop, [0]))
                    return run(d)
                st_, r = child(dying)
                if r is None:
                    hit = True
                    ctx.note("killed while caching")
            elif kind in ("limit", "limit_kill"):
                lim = 1 + f["at"] * (case["pad"] + 300) // 500 if f["x"] % 3 else f["at"]

                def limited():
                    if kind == "limit_kill":
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    dr = mk(module(), case, d)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
                    return {k: G.canon(v) for k, v in dr.execute(outs, inputs=inputs()).items()}
                st_, r = child(limited)
                if r is not None and r[0] == "ok":
                    require(r[1] == want, "with writes limited to %d bytes the execution returned %s, expected %s", lim, r[1], want)
                else:
                    hit = True
                    ctx.note("write cut short" if kind == "limit_kill" else "write failed")
            else:
                child(lambda: run(d))
                fs = sorted(p for p in glob.glob(os.path.join(d, "*")) if os.path.isfile(p) and "metadata_store" not in p)
                if fs:
                    p = fs[f["x"] % len(fs)]
                    data = open(p, "rb").read()
                    with open(p, "wb") as fh:
                        fh.write(b"" if kind == "empty" else data[:f["at"] * len(data) // 1001] if kind == "tear" else b"\x00junk" + data)
                    hit = True
                    ctx.note("stored file " + {"tear": "torn", "empty": "emptied", "junk": "garbled"}[kind])
            for again in range(3):
                if again == 2 and not r[1][1]:
                    break
                st_, r = child(counted)
                require(r is not None and os.WIFEXITED(st_), "the execution after the fault (%s) died: status %s", f, st_)
                require(r[0] == "ok", "the execution after the fault (%s) fails: %s", f, r[1])
                require(r[1][0] == want, "the execution after the fault (%s) returns %s, without cache %s", f, r[1][0], want)
                # (the second execution finds what the first relied on without loading it: a value stored earlier and damaged since)
                if again == 2 and not any(fn["kind"] == "cplx" for fn in case["proj"]["fns"]):  # values without a fingerprint are never reused
                    require(not r[1][1], "the third execution after the fault (%s) calls %s again: what was lost is never stored again", f, r[1][1])
                    ctx.note("served from the cache after recovery")
        ctx.nontrivial(hit)
    finally:
        dags.drop_modules(mods.values())


PARTS = [Part("faults", lambda: case_(), check, 900, 9000, "a process was killed while caching, a write failed or was cut short, or a stored file was damaged", shards=7, tshards=8, setup=setup)]
