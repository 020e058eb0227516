#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded simulation. VERIF_SEED, VERIF_TIER as in MANIFEST.schema."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib.driver import run_check
if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(run_check(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1)))
