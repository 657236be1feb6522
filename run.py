#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py Cxx [--tier quick|thorough]

Exit 0: held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Anything else: error of the check.
"""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver  # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if args and args[0] == "replay":
        sys.exit(driver.replay(args[1]))
    check = driver.Check(args[0], tier, seed)
    sys.exit(check.main())


main()
