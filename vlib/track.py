"""A loopback stand-in for the Hamilton tracking backend: records every request, answers ids, can be told to fail."""
import json, os, sys, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlparse, parse_qs
import hamilton

SDK = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(hamilton.__file__))), "ui", "sdk", "src")
if SDK not in sys.path:
    sys.path.insert(1, SDK)


class NotJson(ValueError):
    pass


def _bad(c):
    raise NotJson("constant %s is not JSON" % c)


def strict(b):
    return json.loads(b, parse_constant=_bad)


class Backend:
    def __init__(self):
        self.lock = threading.Lock()
        self.reset()
        outer = self

        class H(BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def reply(self, code, obj):
                b = json.dumps(obj).encode()
                self.wfile.write(b"HTTP/1.0 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % (code, len(b)) + b)

            def handle_any(self):
                n = int(self.headers.get("Content-Length") or 0)
                body = self.rfile.read(n) if n else b""
                code, obj = outer.handle(self.command, self.path, body)
                if code is None:
                    self.connection.close()
                    return
                self.reply(code, obj)
            do_GET = do_POST = do_PUT = handle_any

        class S(ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, *a):
                pass
        self.srv = S(("127.0.0.1", 0), H)
        threading.Thread(target=self.srv.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
        self.url = "http://127.0.0.1:%d" % self.srv.server_address[1]

    def reset(self):
        with self.lock:
            self.templates, self.runs, self.order, self.problems, self.next, self.fail = {}, {}, [], [], 1, []

    def handle(self, method, path, body):
        u = urlparse(path)
        q = {k: v[0] for k, v in parse_qs(u.query).items()}
        p = u.path.replace("/api/v1", "", 1)
        with self.lock:
            try:
                data = strict(body) if body else None
            except ValueError as e:
                self.problems.append("%s %s: body is not JSON: %s %r" % (method, path, e, body[:300]))
                return 422, {}
            if p == "/phone_home" or p.startswith("/projects/"):
                return 200, True
            if p.startswith("/dag_templates/exists"):
                for t in self.templates.values():
                    if (t["dag_hash"], t["code_hash"], t["name"]) == (q["dag_hash"], q["code_hash"], q.get("dag_name")):
                        return 200, {"id": t["id"]}
                return 200, None
            if p == "/dag_templates":
                data["id"] = self.next
                self.next += 1
                self.templates[data["id"]] = data
                return 200, {"id": data["id"]}
            if p == "/dag_runs" and method == "POST":
                i = self.next
                self.next += 1
                self.runs[i] = {"id": i, "template": int(q["dag_template_id"]), "start": data, "ends": [], "updates": [], "attributes": [], "batches": 0}
                self.order.append(i)
                return 200, {"id": i}
            if p == "/dag_runs_bulk":
                if self.fail:
                    f = self.fail.pop(0)
                    if f:
                        return (None, None) if f == "drop" else (int(f), {})
                r = self.runs[int(q["dag_run_id"])]
                r["updates"] += data["task_updates"]
                r["attributes"] += data["attributes"]
                r["batches"] += 1
                return 200, {}
            if p.startswith("/dag_runs/"):
                self.runs[int(p.split("/")[2])]["ends"].append(data)
                return 200, {}
            self.problems.append("unknown request %s %s" % (method, path))
            return 404, {}


_B = None


def backend():
    global _B
    if _B is None or _B.pid != os.getpid():
        _B = Backend()
        _B.pid = os.getpid()
    _B.reset()
    return _B


def merged(run):
    """node_name -> last known update (fields merged in arrival order) and its attributes"""
    out = {}
    for u in run["updates"]:
        out.setdefault(u["node_name"], {"all": [], "attrs": []})["all"].append(u)
    for a in run["attributes"]:
        out.setdefault(a["node_name"], {"all": [], "attrs": []})["attrs"].append(a)
    for v in out.values():
        v["last"] = {}
        for u in v["all"]:
            v["last"].update(u)
    return out
