#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION; 2: the check could not do its work"""
import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))

import common  # noqa: E402

MODULES = {}
for m in ("live",):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    import registry
    mod, fn = registry.CHECKS[a.property]
    m = importlib.import_module("checks." + mod)
    ctx = common.Ctx(a.property, tier, seed)
    try:
        if a.replay:
            rec = json.load(open(a.replay))
            return m.replay(ctx, rec)
        getattr(m, fn)(ctx)
        return ctx.finish()
    except Exception:
        if ctx.violations:      # what was found stays found
            traceback.print_exc()
            return ctx.finish()
        traceback.print_exc()
        print("check %s could not be completed" % a.property)
        return 2


if __name__ == "__main__":
    sys.exit(main())
