#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Dumps the typed MIR of /repo's library as it is now, decides one property from
it, and writes evidence/<property>.json.  Exit 0: held, 1: violated (with a
VIOLATION line), 2: no answer."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)

import common
import registry


def alarm(*a):
    raise common.Late()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    info = registry.CHECKS[pid]
    ctx = common.Ctx(pid, tier)
    rep = common.Report(pid)
    signal.signal(signal.SIGALRM, alarm)
    try:
        ctx.load()
        mod = importlib.import_module(info["module"])
        signal.alarm(500 if tier == "quick" else 780)
        try:
            getattr(mod, info["fn"])(ctx, rep)
        except (common.NoAnchor, common.Late):
            raise
        except (Exception, RecursionError) as x:
            # the analysis is at its limits: what it has decided so far stands
            traceback.print_exc()
            rep.undecided.append("analysis stopped: %s: %s" % (type(x).__name__, x))
        finally:
            signal.alarm(0)
    except common.Late:
        rep.undecided.append("analysis stopped: out of time")
    except common.NoAnchor as x:
        rep.undecided.append("anchor: %s" % x)
        rep.lost = str(x)
    finally:
        ctx.close()
    return common.finish(ctx, rep, info, time.time() - t0)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("NO-ANSWER property=%s" % (sys.argv[1] if len(sys.argv) > 1 else "?"))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
