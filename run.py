#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] | run.py --replay FILE"""
import sys, os, json, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
from mc import engine
a = argparse.ArgumentParser()
a.add_argument('prop', nargs='?')
a.add_argument('--tier', default=None)
a.add_argument('--replay', default=None)
a.add_argument('--jobs', type=int, default=None)
o = a.parse_args()
if o.replay:
    o.replay = os.path.abspath(o.replay)
    rc = engine.main(json.load(open(o.replay))['property'], replay=o.replay)
else:
    rc = engine.main(o.prop.upper(), tier=o.tier, jobs=o.jobs)
sys.stdout.flush()
os._exit(rc)
