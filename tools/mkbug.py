"""mkbug.py: turn a bug description (python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) into /verif/seeded/<ID>/."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(ROOT, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkbug.")
    subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
    for path, old, new in ns["EDITS"]:
        p = tmp + "/r/" + path
        s = open(p).read()
        assert s.count(old) == 1, (ns["ID"], path, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
    shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds, 1 when it does not\nexport HAMILTON_TELEMETRY_ENABLED=false HAMILTON_AUTOLOAD_EXTENSIONS=0\n'
        'here="$(cd "$(dirname "$0")" && pwd)"\nw="$(mktemp -d)"\ntrap \'rm -rf "$w"\' EXIT\nexport DEMO_TMP="$w"\nPYTHONPATH="$PWD:$PYTHONPATH" /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", ns["ID"])
