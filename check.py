#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's working tree. VERIF_TIER=quick|thorough, VERIF_SEED=n"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.core import run_check  # noqa: E402

if __name__ == "__main__":
    sys.exit(run_check(sys.argv[1]))
