#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.engine import AnalysisBroken  # noqa: E402
from sa.report import Ctx  # noqa: E402
from sa import registry  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn = registry.CHECKS[prop]
    ctx = Ctx(prop)
    try:
        f = getattr(importlib.import_module("sa.rules." + mod), fn)
        expl = f(ctx, tier)
    except AnalysisBroken as e:
        if ctx.viol:
            return ctx.finish(tier, seed, "incomplete: %s" % e)
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    return ctx.finish(tier, seed, expl)


if __name__ == "__main__":
    sys.exit(main())
