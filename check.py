#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for /repo's working tree.

Exit 0: held on everything explored.  Exit 1, after a line
"VIOLATION property=<id> replay=<path>": it does not.  Exit 2: no answer."""
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return runner.check(prop, tier, seed)
    except Exception:
        traceback.print_exc()
        print("NO ANSWER: property=%s: the machinery failed" % prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
