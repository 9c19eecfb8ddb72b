"""run.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symex import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('pid', nargs='?')
ap.add_argument('--selftest', action='store_true')
ap.add_argument('--tier', default='quick')
ap.add_argument('--only')
ap.add_argument('--budget', type=float)
ap.add_argument('--jobs', type=int)
ap.add_argument('--replay')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
if a.selftest:
    sys.exit(runner.selftest())
if a.replay:
    sys.exit(runner.replay(a.pid, a.replay))
sys.exit(runner.run_property(a.pid, a.tier, a.only, a.jobs, a.budget, a.v))
