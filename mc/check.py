#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property against /repo."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("props." + prop.lower())
    t0 = time.time()
    try:
        return mod.check(tier, t0)
    except core.Infra as e:
        print("ERROR property=%s: the check could not decide: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
