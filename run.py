#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   |   run.py --replay <file>"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        sys.exit(core.main(r["check"], r["tier"], replay=r))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(sys.argv[1], tier))
