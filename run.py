#!/usr/bin/env python3
"""run.py <ID> [quick|thorough]   run a check      run.py --replay FILE   re-run a saved failing case"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import boot, core


def main():
    a = sys.argv[1:]
    if a[0] == "--worker":
        boot.setup_path()
        core.worker_main(a[1], a[2], int(a[3]), int(a[4]), a[5], int(a[6]), a[7], a[8])
    elif a[0] == "--meta":
        boot.setup_path()
        core.meta_main(a[1], a[2])
    elif a[0] == "--replay":
        if os.environ.get("VERIF_IN_REPLAY") != "1":
            import tempfile
            home = tempfile.mkdtemp(prefix="verif-home-")
            env = boot.child_env(home)
            env["VERIF_IN_REPLAY"] = "1"
            os.execve(boot.PY, [boot.PY, os.path.abspath(__file__), "--replay", os.path.abspath(a[1])], env)
        boot.setup_path()
        core.replay_main(a[1])
    else:
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        sys.exit(core.parent_main(a[0], tier, seed))


main()
