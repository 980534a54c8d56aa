#!/usr/bin/env python3
"""check.py <property id> [--thorough] : decide one property on the tree at $VERIF_REPO (default /repo)"""
import importlib
import sys
import time
import traceback
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.program import AnalysisBroken  # noqa: E402
from sa.report import Report, finish  # noqa: E402
from sa.session import Session  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    os.environ.setdefault("VERIF_SEED", "1")
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    rep = Report(prop)
    try:
        mod.run(Session(tier), rep)
    except AnalysisBroken as exc:
        print(f"{prop}: analysis broken: {exc}", file=sys.stderr)
        return 3
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"{prop}: analysis failed", file=sys.stderr)
        return 3
    return finish(rep, tier, t0)


if __name__ == "__main__":
    sys.exit(main())
