#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: violated; exit 2: the check itself failed."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import Check, Violation, CheckError

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(prop, tier, seed)
    try:
        importlib.import_module("props." + prop.lower()).run(ck)
    except Violation as v:
        ck.evidence(1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ck.evidence(0)
    print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (prop, tier, ck.states, ck.traces, ck.events, __import__("time").time() - ck.t0))
    return 0

sys.exit(main())
