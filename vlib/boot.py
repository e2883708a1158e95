"""Environment set-up shared by the parent runner and its workers."""
import os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def child_env(home):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONNOUSERSITE": "1",
        "HAMILTON_TELEMETRY_ENABLED": "false", "HAMILTON_AUTOLOAD_EXTENSIONS": "0",
        "HOME": home, "TMPDIR": home, "VERIF_REPO": REPO,
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "POLARS_MAX_THREADS": "1", "RAYON_NUM_THREADS": "1", "ARROW_NUM_THREADS": "1",
        "PYTHONWARNINGS": "ignore",
    }
    for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_SCALE"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def setup_path():
    for p in (VERIF, os.path.join(VERIF, "vendor"), REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [REPO, VERIF, os.path.join(VERIF, "vendor")]
