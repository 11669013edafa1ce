#!/usr/bin/env python3
"""run.py C01 [--replay FILE] [--prop NAME] [--scale X]: run one check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ["PYTHONHASHSEED"] = "0"
from vf.core import Inconclusive


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module("checks." + pid.lower())
        from vf.pbt import run_check
        return run_check(mod.make(), sys.argv[2:])
    except Inconclusive as e:
        print(f"[{pid}] inconclusive: {e}", file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc) if False else sys.exit(rc)
