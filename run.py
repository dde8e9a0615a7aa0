#!/opt/veriftools/pyvenv/bin/python3
"""run.py Cxx [quick|thorough] | run.py replay FILE"""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

from vlib import build, runner

if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(runner.replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(runner.main(sys.argv[1], tier))
    except build.BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
