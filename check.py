#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough] [--replay FILE]: runs one monitor."""
import argparse
import os
import sys

PYTHON = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the framework runs")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--seconds", type=float)
    args = ap.parse_args()
    want = os.environ.get("VMON_HASHSEED", "0")
    if args.replay:
        import json

        with open(args.replay, encoding="utf8") as f:
            want = json.load(f).get("hashseed") or want
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    if os.environ.get("PYTHONHASHSEED") != want or os.environ.get("VMON_CHILD") != "1":
        env = dict(os.environ, PYTHONHASHSEED=want, VMON_CHILD="1",
                   PYTHONDONTWRITEBYTECODE="1")
        os.execve(python, [python, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from vmon import runner

    if args.setup:
        print("library:", runner.base.css_module.__file__)
        sys.exit(0)
    sys.exit(runner.main(args.property, args.tier, args.seed, args.replay, args.jobs,
                         args.cases, args.seconds))


if __name__ == "__main__":
    main()
