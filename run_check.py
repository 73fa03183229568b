#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough] : decide one property against /repo's current tree."""
import sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, 'lib'), os.path.join(H, 'checks')]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import check, importlib, glob
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
m = [f for f in glob.glob(os.path.join(H, 'checks', pid.lower() + '_*.py'))]
if len(m) != 1:
    print('no check for ' + pid)
    sys.exit(2)
mod = importlib.import_module(os.path.basename(m[0])[:-3])
sys.exit(check.main(pid, mod.run, tier))
