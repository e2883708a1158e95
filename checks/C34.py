"""C34: usage telemetry honours the opt-out, carries no user data, and never disturbs."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile
from hypothesis import strategies as st
from vlib.core import Part, require, HarnessError

LEVEL = "exploration"
TECH = "property-based testing: generated telemetry settings, user file locations and operation sequences, each run in a process of its own with the network replaced by a recorder; oracle = the documented switches, and markers that must never be sent"
NOTE = "The network is replaced by a recorder at urllib / http.client / socket level; the configuration file and the user's files lie in a scratch directory. Events of the public dataflow hub name the public dataflow by design and are only checked for the opt-out."
SRV, DIR = [], []


def setup():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = tempfile.mkdtemp(prefix="c34", dir=os.environ.get("VERIF_SCRATCH") or None)
    atexit.register(shutil.rmtree, d, True)
    env = dict(os.environ, HAMILTON_CONFIG_URI=os.path.join(d, "none.conf"))
    p = subprocess.Popen([sys.executable, os.path.join(root, "vlib", "teleserver.py"), json.dumps([x for x in sys.path if x])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=d)
    if p.stdout.readline().strip() != "ready":
        raise RuntimeError("telemetry server did not start")
    SRV.append(p)
    DIR.append(d)


def run(q):
    p = SRV[0]
    p.stdin.write(json.dumps(q) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError("telemetry server died")
    ans = json.loads(line)
    require("crash" not in ans, "importing or using the library failed under these telemetry settings: %s", ans.get("crash"))
    return ans


OPS = ["exec", "exec_over", "fail", "faildeep", "missing", "unknown", "construct", "legacy", "list", "query", "draw", "materialize", "async", "asyncfail", "cli", "hublist", "hubfind", "hubclear", "hubcopy", "contrib", "hook", "cause", "context", "odd", "syntax", "recursion", "base", "dynamic", "dynamicfail", "validate", "raw", "export", "path"]
FALSY = ["false", "False", "FALSE", "0", "no", "off", "No"]
TRUTHY = ["true", "True", "1", "yes", "on"]
JUNK = ["", "nope", "disabled?", "2"]


@st.composite
def case_(draw, favour_on=False):
    flag = st.sampled_from([None] * 3 + (TRUTHY if favour_on else FALSY + TRUTHY) + JUNK)
    conf = draw(st.sampled_from(["absent", "plain", "plain", "id", "extra", "empty"]))
    return {"env": draw(flag), "conf": conf, "cval": draw(flag) if conf in ("plain", "id", "extra") else None, "call": draw(st.sampled_from(["never"] * 4 + ["before", "mid"])) if not favour_on else "never", "net": draw(st.sampled_from(["up", "up", "down", "boom"])), "status": draw(st.sampled_from([200, 200, 500])), "adapters": draw(st.booleans()), "amod": draw(st.sampled_from(["zqvpkg.zqv", "hamilton_zqv", "hamiltonzqv.sub", "zqvpkg.hamilton.x", "__main__", "hamilton_zqv.plugins.h_tqdm"])), "dirs": draw(st.lists(st.sampled_from(["hamilton", "zqvdir", "site-packages", "plugins", "execution"]), max_size=4)), "ops": draw(st.lists(st.sampled_from(OPS + (["disable"] if not favour_on else [])), min_size=1, max_size=6))}


def as_bool(v):
    return True if v is not None and v.lower() in ("1", "yes", "true", "on") else False if v is not None and v.lower() in ("0", "no", "false", "off") else None


def expected_on(case):
    if case["call"] != "never":
        return False
    for v in (case["env"], case["cval"]):
        b = as_bool(v)
        if b is not None:
            return b
    return True


def conf_text(case):
    if case["conf"] == "absent":
        return None
    if case["conf"] == "empty":
        return ""
    lines = ["[DEFAULT]"]
    if case["conf"] == "id":
        lines.append("anonymous_id = 11111111-2222-3333-4444-555555555555")
    if case["cval"] is not None:
        lines.append("telemetry_enabled = " + case["cval"])
    if case["conf"] == "extra":
        lines += ["other = 1", "", "[more]", "key = value"]
    return "\n".join(lines) + "\n"


def request(case, tag):
    base = os.path.join(DIR[0], tag)
    shutil.rmtree(base, True)
    os.makedirs(base)
    text = conf_text(case)
    cp = os.path.join(base, "hamilton.conf")
    if text is not None:
        with open(cp, "w") as f:
            f.write(text)
    return {"env": {} if case["env"] is None else {"HAMILTON_TELEMETRY_ENABLED": case["env"]}, "config_path": cp, "call": case["call"], "net": case["net"], "status": case["status"], "adapters": case["adapters"], "adapter_module": case["amod"], "user_dir": os.path.join(base, *case["dirs"]), "ops": case["ops"]}


def clean(o, q):
    return [o[0], o[1], re.sub("0x[0-9a-f]+", "<address>", o[2].replace(q["user_dir"], "<dir>"))]


PACKAGE = os.path.join(os.environ.get("VERIF_REPO") or "/repo", "hamilton") + os.sep
HUB = ("os_hamilton_dataflow_function_call", "os_hamilton_dataflow_download_call", "os_hamilton_dataflow_import_call")


def check(case, ctx):
    q = request(case, "case")
    got = run(q)
    on = expected_on(case)
    if not on:
        require(not got["sent"], "telemetry is switched off (environment %r, configuration %r, disable_telemetry() %s), but this was sent: %s", case["env"], conf_text(case), case["call"], got["sent"][:1])
    else:
        off_at = None
        for name, _, _, count in got["outcomes"]:
            if off_at is not None:
                require(count == off_at, "disable_telemetry() was called, but %r sent %s", name, got["sent"][off_at:off_at + 1])
            if name == "disable":
                off_at = count
    for s in got["sent"]:
        event = ""
        try:
            event = json.loads(s["data"]).get("event", "")
        except ValueError:
            require(False, "what was sent is not JSON: %r", s["data"][:200])
        if event in HUB:
            continue
        low = (s["data"] + s["headers"] + s["url"]).lower()
        require("zqv" not in low, "telemetry carries the user's own names, values, paths or messages: %s", s["data"])
        require(PACKAGE.lower() not in low, "telemetry carries the place where the library is installed: %s", s["data"])
        require(DIR[0].lower() not in low, "telemetry carries a path of the user: %s", s["data"])
    require(not got["lost"], "an error of telemetry comes up in a thread of the user's process (network: %s): %s", case["net"], got["lost"])
    ref_case = dict(case, env="false", conf="absent", cval=None, call="before", net="down")
    rq = request(ref_case, "ref")
    ref = run(rq)
    a, b = [clean(o, q) for o in got["outcomes"]], [clean(o, rq) for o in ref["outcomes"]]
    for x, y in zip(a, b):
        require(x == y, "operation %r ends with %r under these settings, with %r when telemetry is off and the network down", x[0], x[1:], y[1:])
    for x in b:
        want_err = {"fail": "ZqvError", "faildeep": "JSONDecodeError", "missing": "ValueError", "unknown": "ValueError", "construct": "ValueError", "asyncfail": "ZqvError", "cause": "ZqvError", "context": "ZqvError", "odd": "ZqvOdd", "syntax": "SyntaxError", "recursion": "RecursionError", "base": "ZqvBase", "dynamicfail": "ZeroDivisionError"}
        if "hook" in case["ops"]:
            if x[0] in ("exec", "exec_over", "faildeep", "materialize", "hook", "raw") and case["adapters"]:
                continue
        exp = want_err.get(x[0], "ok")
        require(x[1] == exp, "with telemetry off, operation %r ends with %r (%r), it should end with %r", x[0], x[1], x[2], exp)
    if on and got["sent"]:
        ctx.nontrivial(); ctx.note("sent")
    elif not on:
        ctx.nontrivial(); ctx.note("off")
    ctx.note(*["op:" + x for x in set(case["ops"])])


PARTS = [
    Part("switches", lambda: case_(), check, quick=120, thorough=1500, shards=4, rule="telemetry switched off, or switched on and something was sent", setup=setup),
    Part("content", lambda: case_(favour_on=True), check, quick=120, thorough=1500, shards=4, rule="telemetry switched off, or switched on and something was sent", setup=setup),
]
KNOWN = {}
