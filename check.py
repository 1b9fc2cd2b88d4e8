"""check.py CNN [--tier quick|thorough] [--seed N] [--scale X] | check.py --replay FILE"""

import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import core  # noqa: E402


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--jobs", type=int, default=8)
    parser.add_argument("--replay")
    args = parser.parse_args()
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.stderr.reconfigure(errors="backslashreplace")
    if args.replay:
        return core.replay(args.replay)
    return core.run_check(args.property.upper(), args.tier, args.seed, args.jobs, args.scale)


if __name__ == "__main__":
    sys.exit(main())
