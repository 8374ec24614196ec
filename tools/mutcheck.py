"""development: runs every n-th history of checks on MC_REPO, stops at the first violation
usage: mutcheck.py N OFFSET PROP..."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine
n, off, props = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
budget = float(os.environ.get('MUT_BUDGET', '1200'))
t0 = time.time()
engine.setup_env()
res = 'SURVIVED'
try:
    try:
        with engine.quiet():
            import pyRFtk
    except Exception as e:
        res = f'KILLED import {e!r}'
        props = []
    import numpy as np
    np.seterr(all='ignore')
    engine.CASE_TIMEOUT = 30
    for p in props:
        if res != 'SURVIVED':
            break
        mod = engine.load(p)
        for fi, fam in enumerate(mod.families('quick')):
            if res != 'SURVIVED':
                break
            for i, case in enumerate(fam.cases()):
                if (i + fi) % n != off % n and i > 2:
                    continue
                with engine.quiet():
                    r = engine.run_case(fam, case, engine.Stats())
                if r is not None:
                    res = f'KILLED {p} {fam.name}[{i}] {r[0][:150]!r}'
                    break
                if time.time() - t0 > budget:
                    res = f'SURVIVED (budget at {p} {fam.name}[{i}])'
                    break
finally:
    engine.leave_scratch()
print(res)
