#!/usr/bin/env python3
"""Entry point: run.py <property> [--replay FILE]   (VERIF_TIER, VERIF_SEED from the environment)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
FIXED = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
         "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
         "VERIF_CHILD": "1"}

# checks that need the real (or their own) thread pool
REAL_THREADS = {"C01", "C07", "C08"}

if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(FIXED)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
import warnings

warnings.simplefilter("ignore")
import importlib

from lib import target, engine


def main():
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop == "setup":
        print("built", target.build())
        return 0
    try:
        if prop == "C08":
            from lib import sched
            sched.install(os.path.join(os.path.abspath(target.REPO), "tt_sketch") + os.sep)
        if prop not in REAL_THREADS:
            from lib import syncpool
            syncpool.install()
        target.load()
        import numpy as np
        np.seterr(all="ignore")
        mod = importlib.import_module(f"checks.{prop}")
        return engine.main(mod, tier, seed, replay)
    except target.BuildError as e:
        print("building /repo's extension failed:\n" + str(e))
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
