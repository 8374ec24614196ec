"""Small explicit-state / stateless model checking engine.

A check module (c01.py ...) defines

    PROP      the property id
    ASSUME    list of assumptions (text)
    families(tier)  -> list of Family

A Family is a finite, deterministic enumeration of *histories* (JSON-able
programs over the real code) plus a function `check(case)` that runs the real
code on one history, compares every observed state with the reference model and
returns a Result (or raises Violation).  ALL histories of every family are run
(there is no sampling); the work is divided over forked workers by the index of
the history.
"""
import os, sys, json, time, hashlib, signal, traceback, tempfile, shutil
import itertools, multiprocessing, warnings, io, contextlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')      # (development only)
CASE_TIMEOUT = 60                              # s, for one history


class Violation(Exception):
    """the property does not hold: msg (text), key (identifies the finding)"""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Timeout(Exception):
    pass


class Stats:
    """what one history covered"""
    __slots__ = ('states', 'transitions', 'checks', 'outcomes', 'skipped')

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.checks = 0
        self.outcomes = set()
        self.skipped = 0

    def state(self, *key):
        self.states.add(digest(key))

    def outcome(self, *key):
        self.outcomes.add(digest(key))


def digest(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


class Family:
    def __init__(self, name, cases, check, bound='', exhaustive=True):
        self.name, self.cases, self.check = name, cases, check
        self.bound, self.exhaustive = bound, exhaustive


# ----------------------------------------------------------------- environment
_scratch = None


def scratch():
    return _scratch


def enter_scratch():
    """a private working directory (the package writes a log file in the cwd)"""
    global _scratch
    _scratch = tempfile.mkdtemp(prefix='mcrf_')
    os.chdir(_scratch)
    return _scratch


def leave_scratch():
    if _scratch and os.path.isdir(_scratch):
        os.chdir('/')
        shutil.rmtree(_scratch, ignore_errors=True)


def setup_env():
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True
    d = enter_scratch()
    os.environ['MPLCONFIGDIR'] = d
    sys.path.insert(0, os.path.join(REPO, 'src'))
    warnings.simplefilter('ignore')


@contextlib.contextmanager
def quiet():
    """the package prints a lot: send fd 1 to /dev/null"""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)


# ---------------------------------------------------------------------- workers
def _alarm(sig, frm):
    raise Timeout(f'no result within {CASE_TIMEOUT} s')


def run_case(fam, case, st):
    """runs one history; returns None or (msg, key)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fam.check(case, st)
        return None
    except Violation as e:
        return (str(e), e.key)
    except Timeout as e:
        return (str(e), 'TIMEOUT')
    except Exception as e:                     # the code (or harness) failed
        tb = traceback.extract_tb(e.__traceback__)
        at = '; '.join(f'{os.path.basename(t.filename)}:{t.name}' for t in tb[-4:])
        return (f'unexpected {type(e).__name__}: {e} [{at}]', None)
    finally:
        signal.alarm(0)


MAXVIOL = 4


def _worker(args):
    prop, tier, k, n, stopat = args
    import numpy as np
    np.seterr(all='ignore')
    d = tempfile.mkdtemp(prefix=f'w{k}_', dir=_scratch)
    os.chdir(d)
    mod = load(prop)
    out = []
    viol = []
    stop = False
    with quiet():
        for fi, fam in enumerate(mod.families(tier)):
            if stop:
                break
            samples = []
            st = Stats()
            t0 = time.time()
            nh = 0
            for i, case in enumerate(fam.cases()):
                if i % n != k:
                    continue
                nh += 1
                if k == 0 and (nh & (nh - 1)) == 0:      # 1st, 2nd, 4th, 8th ...
                    samples = samples[:1] + samples[-1:] * (len(samples) > 1) + [case]
                r = run_case(fam, case, st)
                if r is not None:
                    viol.append((fam.name, i, case, r[0], r[1]))
                    if r[1] == 'TIMEOUT':
                        stop = True                      # the check must give an answer
                        break
                    if len([v for v in viol if v[0] == fam.name]) >= MAXVIOL:
                        break
            out.append((fam.name, nh, st.states, st.transitions, st.checks,
                        st.outcomes, st.skipped, time.time() - t0, samples[-3:]))
    os.chdir('/')
    return out, viol


def load(prop):
    import importlib
    return importlib.import_module(f'mc.{prop.lower()}')


# ----------------------------------------------------------------- known findings
def known_findings(prop):
    """lines: 'finding: property=C01 key=<regex> :: <text>'"""
    res = []
    fn = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'finding:\s*property=(\S+)\s+key=(\S+)\s*::\s*(.*)', line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


# ------------------------------------------------------------------------- main
def main(prop, tier=None, replay=None, jobs=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup_env()
    try:
        with quiet():
            import pyRFtk                                # noqa: F401
        assert os.path.realpath(pyRFtk.__file__).startswith(
            os.path.realpath(os.path.join(REPO, 'src'))), pyRFtk.__file__
        import numpy as np
        np.seterr(all='ignore')
        if replay:
            return do_replay(prop, replay)
        return explore(prop, tier, seed, t0, jobs)
    finally:
        leave_scratch()


def explore(prop, tier, seed, t0, jobs):
    mod = load(prop)
    n = jobs or int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as pool:
        res = pool.map(_worker, [(prop, tier, k, n, MAXVIOL) for k in range(n)], 1)
    fams = {}
    viol = []
    for out, v in res:
        viol += v
        for name, nh, states, tr, ch, oc, sk, w, sam in out:
            f = fams.setdefault(name, [0, set(), 0, 0, set(), 0, 0., []])
            f[7] += sam
            f[0] += nh; f[1] |= states; f[2] += tr; f[3] += ch
            f[4] |= oc; f[5] += sk; f[6] += w
    viol.sort(key=lambda v: (v[0], v[1]))

    # replay each violation once more (determinism)
    reported, known = [], []
    kf = known_findings(prop)
    famobj = {f.name: f for f in mod.families(tier)}
    for name, i, case, msg, key in viol[:40]:
        hit = [t for k, t in kf if key is not None and re.fullmatch(k, key)]
        if hit:
            if hit[0] not in known:
                known.append(hit[0])
            continue
        if key != 'TIMEOUT' and len(reported) < 8:
            with quiet():
                again = run_case(famobj[name], case, Stats())
            if again is None:
                msg = '[only after other histories in the same process] ' + msg
        reported.append((name, i, case, msg, key))
    for t in known:
        print(f'KNOWN-FINDING: property={prop} {t}')

    bounds = {f.name: f.bound for f in mod.families(tier)}
    cov = dict(
        states=sum(len(f[1]) for f in fams.values()),
        transitions=sum(f[2] for f in fams.values()),
        comparisons=sum(f[3] for f in fams.values()),
        traces_validated_against_impl=sum(f[0] for f in fams.values()),
        distinct_outcomes=sum(len(f[4]) for f in fams.values()),
        skipped_ill_posed=sum(f[5] for f in fams.values()),
        exhaustive=not viol,
        samples=[dict(family=nm, history=json.loads(json.dumps(c, default=str)))
                 for nm, f in fams.items() for c in f[7]][:60],
        families={nm: dict(histories=f[0], states=len(f[1]), transitions=f[2],
                           comparisons=f[3], distinct_outcomes=len(f[4]),
                           skipped_ill_posed=f[5], cpu_s=round(f[6], 2),
                           bound=bounds.get(nm, '')) for nm, f in fams.items()})
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=cov, wall_s=round(wall, 2),
              assumptions=list(getattr(mod, 'ASSUME', [])) + [
                  'every history is executed on the real code of the working tree; '
                  'the reference model is independent code in /verif/mc',
                  'values outside the stated finite alphabets are not covered'],
              violations=[dict(family=nm, index=i, message=m) for nm, i, c, m, k in reported])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for nm, f in fams.items():
        print(f'{prop} {nm:28s} histories={f[0]} states={len(f[1])} transitions={f[2]} '
              f'comparisons={f[3]} outcomes={len(f[4])} skipped={f[5]} cpu={f[6]:.1f}s')
    print(f'{prop} {tier}: histories={cov["traces_validated_against_impl"]} states={cov["states"]} '
          f'transitions={cov["transitions"]} wall={wall:.1f}s violations={len(reported)}')

    # a family that explored nothing (or saw a single outcome) is a harness error
    if not reported:
        for nm, f in fams.items():
            if f[0] == 0 or f[3] == 0:
                print(f'ERROR: family {nm} is vacuous')
                return 2
        return 0
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    done = set()
    for name, i, case, msg, key in reported:
        if name in done:
            continue
        done.add(name)
        path = os.path.join(rdir, f'{prop}_{name}_{i}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, family=name, index=i, tier=tier,
                           case=case, message=msg), f, indent=1, default=str)
        print(f'   {name}[{i}]: {msg[:1500]}')
        print(f'   history: {json.dumps(case, default=str)[:1500]}')
        print(f'   replay with: python run.py --replay {path}')
        print(f'VIOLATION property={prop} replay={path}')
    return 1


def do_replay(prop, path):
    d = json.load(open(path))
    mod = load(d['property'])
    fam = [f for f in mod.families(d.get('tier', 'quick')) if f.name == d['family']][0]
    r = [None, None]
    case = None
    for i, c in enumerate(fam.cases()):
        if i == d['index']:
            case = c
            break
    for k in range(2):          # the same history must behave the same way twice
        with quiet():
            r[k] = run_case(fam, case, Stats())
    print(f'history: {json.dumps(case, default=str)}')
    print(f'first run : {r[0]}\nsecond run: {r[1]}')
    if r[0]:
        print(f'VIOLATION property={d["property"]} replay={path}')
        return 1
    return 0
