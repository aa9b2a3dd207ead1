#!/usr/bin/env python3
"""Entry point of every check: run.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONPATH"] = REPO + os.pathsep + HERE
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
import warnings

warnings.filterwarnings("ignore")
import importlib
from vlib import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
    mod = importlib.import_module("checks." + prop)
    sys.exit(core.main(mod, tier, replay))


if __name__ == "__main__":
    main()
