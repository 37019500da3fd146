#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def reexec():
    mpl = tempfile.mkdtemp(prefix="vf_mpl_")
    env = dict(os.environ, VF_CHILD=mpl, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               MPLCONFIGDIR=mpl, PYTHONPATH=HERE + os.pathsep + REPO, PYTHONWARNINGS="ignore", HOME=mpl,
               PYTHONPYCACHEPREFIX=os.path.join(mpl, "pyc"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    import subprocess
    import shutil
    py = PY if os.path.exists(PY) else sys.executable
    rc = subprocess.call([py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=env)
    shutil.rmtree(mpl, ignore_errors=True)
    sys.exit(rc if 0 <= rc < 128 else 3)


def main():
    prop = sys.argv[1]
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, REPO)
    import fibertree
    if not os.path.abspath(fibertree.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("INCONCLUSIVE: fibertree imported from", fibertree.__file__)
        return 3
    if prop == "--smoke":
        import lib.gen, lib.mon, lib.harness, lib.xform          # noqa
        print("ok", fibertree.__file__)
        return 0
    import importlib
    from lib import harness
    mod = importlib.import_module("checks." + prop.lower())
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    return harness.run(mod, prop, tier, int(os.environ.get("VERIF_SEED", "1")), replay)


if __name__ == "__main__":
    if "VF_CHILD" not in os.environ:
        reexec()
    sys.exit(main())
