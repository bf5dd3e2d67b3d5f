#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough], or check.py --setup"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, runner

try:
    sys.stdout.reconfigure(line_buffering=True)
    if sys.argv[1] == "--setup":
        runner.setup()
        sys.exit(0)
    sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
except (runner.Err, build.BuildError) as e:
    print("ERROR: %s" % e)
    sys.exit(3)
