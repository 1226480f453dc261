#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough] [--seed N] [--only SUBSTR] [-v]
   run.py --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FINAT_REPO", "/repo")
PY = "/opt/venv/bin/python"

if os.environ.get("VERIF_INNER") != "1":
    env = dict(os.environ)
    env.update(VERIF_INNER="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONPATH=os.pathsep.join([REPO, HERE, os.path.join(HERE, "vendor")]))
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[:0] = [p for p in (REPO, HERE, os.path.join(HERE, "vendor")) if p not in sys.path]
sys.setrecursionlimit(100000)
import warnings  # noqa: E402
warnings.simplefilter("ignore")


def _main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--seed")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        import finat
        got = os.path.realpath(os.path.dirname(finat.__file__))
        if got != os.path.realpath(os.path.join(REPO, "finat")):
            print("HARNESS-ERROR: finat imported from %s" % got, file=sys.stderr)
            return 2
        from vlib import core
        if a.selftest:
            import hypothesis
            from vlib import selftest
            print("hypothesis", hypothesis.__version__, "finat", got)
            return selftest.main()
        if a.replay:
            return core.replay(a.replay)
        return core.main(a.property, a.tier, a.seed, a.jobs, a.only, a.v)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = _main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
