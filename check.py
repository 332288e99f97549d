#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import interp  # noqa
import build
import props
import runner


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER") or "quick"
    rep = runner.Report(prop, tier)
    runner.watchdog()
    try:
        return props.CHECKS[prop](rep, runner.Ctx(), tier)
    except build.BuildError as e:
        print("the current tree cannot be analysed: %s" % e.args[0])
        return 2
    except runner.TimeUp:
        print("undecided: not finished in time")
        return 0


if __name__ == "__main__":
    sys.exit(main())
