"""Code versions of module sources read from stdin: real files, imported in another process."""
import importlib.util, json, os, sys, tempfile
sys.path[:0] = json.loads(sys.argv[1])
from hamilton import driver, graph_types
d = sys.argv[2]
sys.stdout.write("ready\n")
sys.stdout.flush()
n = 0
for line in sys.stdin:
    q = json.loads(line)
    n += 1
    name = "vsrv_%d_%d" % (os.getpid(), n)
    p = os.path.join(d, name + ".py")
    with open(p, "w") as f:
        f.write(q["src"])
    try:
        spec = importlib.util.spec_from_file_location(name, p)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        dr = driver.Builder().with_modules(m).with_config(q["config"]).build()
        g = graph_types.HamiltonGraph.from_graph(dr.graph)
        out = {"nodes": {x.name: x.version for x in dr.list_available_variables()}, "graph": g.version}
    except Exception as e:
        out = {"error": repr(e)}
    os.unlink(p)
    sys.modules.pop(name, None)
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
