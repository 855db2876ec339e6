#!/usr/bin/env python3
"""Entry point of every check: check.py <property id>.

Exit 0: the property's obligations hold on /repo's current source.
Exit 1: a line "VIOLATION property=<id> replay=<path>" names the construct.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import common  # noqa: E402

MODULES = {
    **{"C%02d" % k: "rustchecks" for k in (1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 18, 25)},
    **{"C%02d" % k: "tables" for k in (9, 10, 11, 12)},
    "C17": "rustchecks", "C19": "webchecks", "C20": "apichecks",
    "C21": "gochecks", "C22": "gochecks", "C23": "gochecks", "C24": "gochecks",
}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    r = common.Result(prop)
    try:
        mod = importlib.import_module(MODULES[prop])
        mod.run(r)
    except common.Broken as e:
        # the tree cannot be analysed (does not build, anchor missing)
        r.violation("analysis:" + e.key, "-", str(e))
    except common.Undecided as e:
        r.undecided.append(str(e))
    r.finish(time.time() - t0)


if __name__ == "__main__":
    main()
