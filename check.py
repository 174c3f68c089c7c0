#!/usr/bin/env python3-vt
"""Decide one property of /repo's current source: check.py <property> [quick|thorough]."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.checks import registry  # noqa: E402
from sa.interp import AnalysisBroken  # noqa: E402
from sa.report import Report, finish  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("PYSATL_SRC", "/repo/src")
    t0 = time.time()
    spec = registry.CHECKS[prop]
    rep = Report(prop)
    try:
        spec.run(rep, root, tier)
    except AnalysisBroken as e:
        print(f"{prop}: the analysis lost its footing: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"{prop}: the analysis failed")
        return 2
    return finish(rep, tier, spec.level, t0, spec.explanation)


if __name__ == "__main__":
    sys.exit(main())
