#!/usr/bin/env python3
"""check.py <property id> [-v] : static analysis of /repo's working tree for one property."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.ctx import run_check

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.exit(run_check(pid, tier, seed, '-v' in sys.argv[2:]))
