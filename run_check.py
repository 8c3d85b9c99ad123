#!/opt/venv/bin/python
"""run_check.py ID [--tier quick|thorough] [--seed N] [--only SUB ...] [--scale X] | run_check.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

from lib import harness  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    harness.bootstrap()
    if a.selftest:  # everything is imported from source: nothing to build, only make sure that it can be imported
        for f in sorted(os.listdir(os.path.join(harness.VERIF, "checks"))):
            if f.startswith("C") and f.endswith(".py"):
                importlib.import_module("checks." + f[:-3])
        print("ok")
        return 0
    if a.replay:
        with open(a.replay) as f:
            a.id = json.load(f)["property"]
    mod = importlib.import_module(f"checks.{a.id}")
    if a.replay:
        return harness.replay(mod, a.replay)
    return harness.main(mod, a.tier, a.seed, a.only, a.scale)


if __name__ == "__main__":
    sys.exit(main())
