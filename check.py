#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] | check.py <property> replay <file>"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simlib import harness  # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(harness.run_check(mod, sys.argv[2:]))
