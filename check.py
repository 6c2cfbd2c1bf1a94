#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] | --setup | --list"""

import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from npv import core  # noqa: E402


def registry():
    from npv import checks

    return checks.REGISTRY


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    reg = registry()
    if args.list or args.setup:
        if args.setup:
            core.load()
            from npv import lexicon

            lexicon.selftest()
        print(" ".join(sorted(reg)))
        return 0
    prop = reg[args.property]()
    try:
        if args.replay:
            return core.replay(prop, args.replay)
        return core.run(prop, args.tier, args.seed, args.shards)
    except core.Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        return core.EXIT_INCONCLUSIVE


if __name__ == "__main__":
    sys.exit(main())
