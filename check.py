#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from the source in /repo."""
import importlib
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)

from sa.report import run_check  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('sa.rules.' + prop.lower())
    return run_check(prop, mod.check, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
