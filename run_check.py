#!/usr/bin/env python3
"""Entry point of every check:  run_check.py CXX   |   run_check.py --replay FILE

Re-executes itself with the interpreter dorado is installed for, in a clean environment.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def main():
    if os.environ.get("PBT_CHILD") != "1":
        env = dict(os.environ)
        env.update(PBT_CHILD="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   TQDM_DISABLE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONOPTIMIZE"):
            env.pop(k, None)
        os.execve(PY, [PY, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from pbt import runner
    sys.exit(runner.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
