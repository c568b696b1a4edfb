#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import plans


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    x = Ctx(prop, tier, seed)
    rc = 2
    try:
        plans.PLANS[prop](x)
        if x.doubts:
            raise CheckError("\n".join(x.doubts))
        x.evidence(0)
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                print(line.strip())
        print("OK property=%s wall=%.1fs" % (prop, time.time() - x.t0))
        rc = 0
    except Violation as v:
        x.evidence(1)
        print("violated:", v.why)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        rc = 1
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            x.cleanup()
    sys.exit(rc)


main()
