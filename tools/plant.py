#!/usr/bin/env python3
"""plant.py <id> : (re)validate /verif/seeded/<id> in a scratch copy: patch applies, demo passes before / fails after, stable tests pass.
plant.py <id> --fast : without the test suite."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    bid = sys.argv[1]
    fast = "--fast" in sys.argv
    d = os.path.join(ROOT, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = os.path.join(tmp, "repo")
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        sh(["cp", "-a", "/repo", repo], "/")
        env = {**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1"}

        def rundemo():
            return sh(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        r = rundemo()
        if r.returncode != 0:
            print(bid, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-2000:]); return 1
        r = sh(["git", "apply", "--whitespace=nowarn", os.path.join(d, "patch.diff")], repo)
        if r.returncode != 0:
            print(bid, "PATCH DOES NOT APPLY", r.stdout); return 1
        r = rundemo()
        if r.returncode == 0:
            print(bid, "DEMO PASSES WITH THE BUG\n", r.stdout[-2000:]); return 1
        print(bid, "demo ok:", r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else "")
        if fast:
            return 0
        src = open("/opt/vp/test.sh").read().replace("/repo", repo)
        ts = os.path.join(tmp, "test.sh")
        open(ts, "w").write(src)
        out = os.path.join(tmp, "out.json")
        r = sh(["bash", ts, out], repo, env)
        r2 = sh([sys.executable, os.path.join(ROOT, "tools", "cmp_tests.py"), out], ROOT)
        print(bid, "TESTS:", r2.stdout.strip()[-1500:])
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
