#!/opt/venv/bin/python
"""check.py P01 [--tier quick|thorough] [--seed N] | check.py --replay FILE"""
import argparse
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
       "PYTHONWARNINGS": "ignore", "RUST_BACKTRACE": "0"}
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ, VERIF_CHILD="1", **ENV)
        env.pop("PYTHONPATH", None)
        env.setdefault("MPLCONFIGDIR", "/tmp/verif-mpl")
        os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)
    sys.path.insert(0, here)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        from mon import selftest
        return selftest.main()
    from mon import core
    if a.replay:
        return core.replay(a.replay)
    return core.run_check(a.prop, a.tier, a.seed, a.jobs or None)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
