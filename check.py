#!/usr/bin/env python3
"""check.py <property>            decides one property on /repo's working tree
   check.py <property> --replay DIR   runs a reported case again
   VERIF_TIER=thorough explores more, VERIF_SEED chooses the random programs."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import engine
import known
import plans
import plans2  # noqa: F401


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return engine.replay(sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = engine.Check(prop, tier, seed)
    plan = plans.PLANS[prop]
    try:
        for line in known.report(c):
            print(line)
        plan(c)
    except engine.Violation as v:
        c.evidence(plans.level(prop), 1)
        print("VIOLATION property=%s replay=%s" % (prop, v.path))
        print("\n".join(x if len(x) < 400 else x[:300] + " ..." for x in str(v.what).split("\n")))
        return 1
    c.evidence(plans.level(prop), 0)
    print("%s: held on everything explored (%d states, %d programs compared, %.0f s)" % (
        prop, c.states, c.validated, c.elapsed()))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
