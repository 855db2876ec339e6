#!/usr/bin/env python3
"""setup_cmd: builds the analysers offline into .work/."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common  # noqa: E402

common.build_gocheck()
if hasattr(common, "build_analyzer"):
    common.build_analyzer()
print("setup done")
