"""Runs one program per line of stdin in a forked process in which hamilton is imported anew under
the given telemetry settings; reports what was sent to the telemetry address and how each operation ended."""
import json, os, sys, traceback
sys.path[:0] = json.loads(sys.argv[1])
import asyncio, configparser, logging, threading, urllib.request, uuid, importlib.util  # noqa
import networkx, numpy, pandas, typer, graphviz  # noqa: preloaded for speed; none of them imports hamilton
from urllib.error import URLError

logging.disable(logging.CRITICAL)

MODULE = '''
import typing
from hamilton.function_modifiers import tag, parameterize, value
from hamilton.htypes import Parallelizable, Collect

class ZqvError(Exception):
    pass

def zqv_a(zqv_in: int) -> int:
    """zqv doc"""
    return zqv_in + 1

@tag(zqvtag="zqvvalue")
def zqv_b(zqv_a: int, zqv_opt: str = "zqvdefault") -> str:
    return zqv_opt + str(zqv_a)

@parameterize(zqv_p=dict(x=value("zqvlit")))
def zqv_gen(x: str) -> str:
    return x

def zqv_bad(zqv_a: int) -> int:
    raise ZqvError("zqv secret %s" % zqv_a)

def zqv_cause(zqv_a: int) -> int:
    try:
        raise ValueError("zqv first secret %s" % zqv_a)
    except ValueError as e:
        raise ZqvError("zqv secret") from e

def zqv_context(zqv_a: int) -> int:
    try:
        raise KeyError("zqv first secret %s" % zqv_a)
    except KeyError:
        raise ZqvError("zqv secret", zqv_a)

class ZqvOdd(Exception):
    def __str__(self):
        raise RuntimeError("zqv in str")

def zqv_odd(zqv_a: int) -> int:
    raise ZqvOdd("zqv")

def zqv_syntax(zqv_a: int) -> int:
    exec(compile("zqv = = 1", "zqvfile.py", "exec"))

def zqv_recursion(zqv_a: int) -> int:
    return zqv_recursion(zqv_a) + 1

class ZqvBase(BaseException):
    pass

def zqv_base(zqv_a: int) -> int:
    raise ZqvBase("zqv secret %s" % zqv_a)

def zqv_each(zqv_in: int) -> Parallelizable[int]:
    yield from range(zqv_in)

def zqv_one(zqv_each: int) -> int:
    return 10 // (3 - zqv_each)

def zqv_all(zqv_one: Collect[int]) -> int:
    return sum(zqv_one)

def zqv_deep(zqv_b: str) -> str:
    return __import__("json").loads("{zqv" + zqv_b)
'''
ASYNC = '''
class ZqvError(Exception):
    pass

async def zqv_a(zqv_in: int) -> int:
    return zqv_in + 1

def zqv_b(zqv_a: int) -> str:
    return "zqvdefault" + str(zqv_a)

async def zqv_bad(zqv_a: int) -> int:
    raise ZqvError("zqv secret %s" % zqv_a)
'''


def program(q):
    env = os.environ
    env.pop("HAMILTON_TELEMETRY_ENABLED", None)
    for k, v in q["env"].items():
        env[k] = v
    env["HAMILTON_CONFIG_URI"] = q["config_path"]
    sent = []

    class Resp:
        code = q["status"]
        status = q["status"]

        def read(self):
            return b"{}"

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def urlopen(req, *a, **k):
        url = req if isinstance(req, str) else req.full_url
        data = None if isinstance(req, str) else req.data
        sent.append({"url": url, "data": data.decode("utf-8", "replace") if data else "", "headers": "" if isinstance(req, str) else json.dumps(req.headers)})
        if q["net"] == "down":
            raise URLError("no network")
        if q["net"] == "boom":
            raise RuntimeError("boom")
        return Resp()

    urllib.request.urlopen = urlopen
    import http.client
    import socket

    def connect(*a, **k):
        sent.append({"url": "socket", "data": repr(a), "headers": ""})
        raise OSError("no network")

    socket.create_connection = connect
    http.client.HTTPConnection.connect = connect
    import hamilton.telemetry as tel
    if q["call"] == "before":
        tel.disable_telemetry()
    from hamilton import driver, async_driver, base, lifecycle
    if q["call"] == "mid":
        tel.disable_telemetry()

    def load(name, src):
        p = os.path.join(q["user_dir"], name + ".py")
        os.makedirs(q["user_dir"], exist_ok=True)
        with open(p, "w") as f:
            f.write(src)
        spec = importlib.util.spec_from_file_location(name, p)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        return m

    lost = []
    threading.excepthook = lambda a: lost.append("%s: %s" % (a.exc_type.__name__, a.exc_value))
    mod = load("zqvmod", MODULE)
    amod = load("zqvamod", ASYNC)

    class ZqvAdapter(lifecycle.NodeExecutionHook):
        def run_before_node_execution(self, **kw):
            if "hook" in q["ops"] and kw["node_name"] == "zqv_b":
                raise mod.ZqvError("zqvhook")

        def run_after_node_execution(self, **kw):
            pass

    class ZqvBuilder(base.ResultMixin):
        @staticmethod
        def build_result(**outputs):
            return sorted(outputs.items())

    for c in (ZqvAdapter, ZqvBuilder):
        c.__module__ = q["adapter_module"]

    cfg = {"zqvcfg": "zqvcfgvalue"}
    first = len(sent)

    def build(**kw):
        b = driver.Builder().with_modules(mod).with_config(cfg)
        if q["adapters"]:
            b = b.with_adapters(ZqvAdapter(), ZqvBuilder())
        return b.build()

    def op(name):
        if name == "exec":
            return repr(build().execute(["zqv_b", "zqv_p"], inputs={"zqv_in": 4}))
        if name == "exec_over":
            return repr(build().execute(["zqv_b"], inputs={"zqv_opt": "zqvinput"}, overrides={"zqv_a": 9}))
        if name == "fail":
            return repr(build().execute(["zqv_bad"], inputs={"zqv_in": 4}))
        if name == "faildeep":
            return repr(build().execute(["zqv_deep"], inputs={"zqv_in": 4}))
        if name in ("cause", "context", "odd", "syntax", "recursion", "base"):
            return repr(build().execute(["zqv_" + name], inputs={"zqv_in": 4}))
        if name in ("dynamic", "dynamicfail"):
            b = driver.Builder().with_modules(mod).with_config(cfg).enable_dynamic_execution(allow_experimental_mode=True)
            return repr(b.build().execute(["zqv_all"], inputs={"zqv_in": 3 if name == "dynamic" else 4}))
        if name == "validate":
            return repr(build().validate_execution(["zqv_b"], inputs={"zqv_in": 4}))
        if name == "raw":
            return repr(build().raw_execute(["zqv_b"], inputs={"zqv_in": 4}))
        if name == "export":
            return repr(len(build().export_execution(["zqv_b"], inputs={"zqv_in": 4})) > 0)
        if name == "path":
            d = build()
            return repr(([v.name for v in d.what_is_the_path_between("zqv_a", "zqv_b")], d.has_cycles(["zqv_b"]), sorted(v.name for v in d.what_is_downstream_of("zqv_a"))))
        if name == "missing":
            return repr(build().execute(["zqv_b"], inputs={}))
        if name == "unknown":
            return repr(build().execute(["zqv_nothing"], inputs={}))
        if name == "construct":
            return repr(driver.Driver({"zqvcfg": 1}, mod, mod))
        if name == "legacy":
            return repr(driver.Driver({}, mod, adapter=base.SimplePythonGraphAdapter(base.DictResult())).execute(["zqv_a"], inputs={"zqv_in": 4}))
        if name == "list":
            return repr(sorted(v.name for v in build().list_available_variables()))
        if name == "query":
            return repr(sorted(v.name for v in build().what_is_upstream_of("zqv_b")))
        if name == "draw":
            return build().display_all_functions().source[:0]
        if name == "materialize":
            from hamilton.io.materialization import to
            d = build()
            m, r = d.materialize(to.pickle(id="zqv_save", dependencies=["zqv_a"], path=os.path.join(q["user_dir"], "zqv.pkl")), additional_vars=["zqv_b"], inputs={"zqv_in": 4})
            return repr((sorted(m), r))
        if name in ("async", "asyncfail"):
            async def go():
                d = async_driver.AsyncDriver(cfg, amod, result_builder=base.DictResult())
                out = await d.execute(["zqv_b" if name == "async" else "zqv_bad"], inputs={"zqv_in": 4})
                for _ in range(3):
                    await asyncio.sleep(0)
                return repr(out)
            return asyncio.run(go())
        if name == "cli":
            from typer.testing import CliRunner
            from hamilton.cli.__main__ import cli
            r = CliRunner().invoke(cli, ["--json-out", "version", os.path.join(q["user_dir"], "zqvmod.py")])
            if r.exception and not isinstance(r.exception, SystemExit):
                raise r.exception
            return repr((r.exit_code, "zqv" in r.output))
        if name in ("hublist", "hubfind", "hubclear", "hubcopy"):
            from hamilton import dataflows
            dataflows.DATAFLOW_FOLDER = os.path.join(q["user_dir"], "flows")
            if name == "hublist":
                return repr(dataflows.list(version=None))
            if name == "hubfind":
                return repr(dataflows.find("zqv"))
            if name == "hubclear":
                return repr(dataflows.clear_storage())
            return repr(dataflows.copy(mod, os.path.join(q["user_dir"], "copied"), overwrite=True))
        if name == "contrib":
            import hamilton.contrib as hc
            with hc.catch_import_errors("hamilton.contrib.user.zqvuser.zqvflow", "/x/contrib/hamilton/contrib/user/zqvuser/zqvflow/__init__.py", logging.getLogger("x")):
                pass
            return "imported"
        if name == "disable":
            tel.disable_telemetry()
            for t in threading.enumerate():
                if t is not threading.current_thread() and not t.daemon:
                    t.join(5)
            return "disabled"
        if name == "hook":
            return repr(build().execute(["zqv_b"], inputs={"zqv_in": 4}))
        raise SystemExit("unknown op " + name)

    out = []
    for name in q["ops"]:
        try:
            out.append([name, "ok", op(name), None])
        except BaseException as e:
            try:
                text = str(e)[:300]
            except RuntimeError:
                text = "no text"
            out.append([name, type(e).__name__, text, None])
        for t in threading.enumerate():
            if t is not threading.current_thread() and not t.daemon:
                t.join(5)
        out[-1][3] = len(sent)
    return {"outcomes": out, "sent": sent, "import_sent": first, "enabled": tel.g_telemetry_enabled, "lost": lost}


if __name__ == "__main__":
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    for line in sys.stdin:
        q = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            real = os.fdopen(w, "w")
            sys.stdout = open(os.devnull, "w")
            sys.stderr = open(os.devnull, "w")
            try:
                ans = program(q)
            except BaseException:
                ans = {"crash": traceback.format_exc()[-1500:]}
            real.write(json.dumps(ans))
            real.flush()
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        sys.stdout.write((data or json.dumps({"crash": "no answer"})) + "\n")
        sys.stdout.flush()
