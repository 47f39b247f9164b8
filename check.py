#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--root /repo]

Decides one property from the source of the tree under --root (default /repo), without
importing or running it."""

import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class OutOfTime(BaseException):
    """the time of a quick check is used up"""


def give_up(rep, prop, ex):
    msg = "%s: %s" % (type(ex).__name__, str(ex)[:300])
    rep.oblige(None, "analysis", prop, msg)
    print("UNDECIDED property=%s %s" % (prop, msg))


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("VERIF_ROOT", "/repo")
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--root":
            root = argv[i + 1]
        i += 2
    from sa import props, report
    from sa.interp import AnalysisError
    t0 = time.time()
    rep = report.Report(prop, tier, root)

    def out_of_time(*a):
        raise OutOfTime("stopped after %d s" % (time.time() - t0))
    if tier == "quick":
        signal.signal(signal.SIGALRM, out_of_time)
        signal.alarm(780)
    try:
        spec = props.load(prop)
        try:
            spec.run(rep)
        except (AnalysisError, OutOfTime) as ex:
            give_up(rep, prop, ex)
        except Exception as ex:
            # the engine meets something it has no account of: what was decided so far stands, the rest is undecided
            traceback.print_exc(limit=-8, file=sys.stderr)
            give_up(rep, prop, ex)
        signal.alarm(0)
        return report.finish(rep, t0, spec.level, spec.explanation)
    except Exception as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, ex))
        traceback.print_exc(limit=-8)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
