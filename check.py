#!/usr/bin/env python3
"""Checks one property:  check.py ID [--tier quick|thorough] [--replay FILE]

The stages of each property are in lib/plan.py.  Exit 0: held on everything explored; 1: a line
"VIOLATION property=ID replay=FILE" says how to see it; 2: the machinery failed.
"""
import argparse
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver  # noqa: E402
from verif import ToolError  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--replay")
    a = a.parse_args()
    try:
        if a.replay:
            return driver.replay(a.property, a.replay)
        return driver.check(a.property, a.tier, a.seed, time.time())
    except ToolError as e:
        print("TOOL-ERROR property=%s: %s" % (a.property, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
