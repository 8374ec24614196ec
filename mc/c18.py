"""C18: logging, printing and introspection never change results.

Histories of calls (alphabets of c16 and the networks of the catalogue) are run
plainly and with the log level raised and/or with printing and queries inserted
at every point; every result and the final picture of the object must be the
same, the reference model decides for the networks, and no query may fail.
"""
import itertools, logging, os, sys, io
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import c15, c16, nets
from .c15 import same, file, TS
from .c16 import T, twin, call_, frozen, pic, text, unid, other

PROP = 'C18'
ASSUME = ['standard log levels', 'the text that is logged or printed is not judged']
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET']


class Level:
    """the log level during a part of a history; the messages are formatted and thrown away"""
    def __init__(self, level):
        self.level = level

    def __enter__(self):
        import pyRFtk.config as cf
        quiet_handlers()
        cf.setLogLevel(self.level)

    def __exit__(self, *a):
        import pyRFtk.config as cf
        cf.setLogLevel('CRITICAL')


_null = None


class Errors(io.StringIO):
    """errors inside of the logging handlers are written to stderr by the logging package"""


def quiet_handlers():
    global _null
    if _null is None:
        _null = open(os.devnull, 'w')
        for h in logging.getLogger().handlers:
            if hasattr(h, 'setStream'):
                h.setStream(_null)


# --------------------------------------------------------------- introspection
def queries(o):
    """name -> query of the object; every one must work"""
    q = {'str': lambda: str(o), 'str1': lambda: o.__str__(1), 'repr': lambda: repr(o), 'len': lambda: len(o),
         'format': lambda: f'{o}'}
    if hasattr(o, 'asstr'):
        q['asstr'] = lambda: [o.asstr(), o.asstr(1)]
        q['asstr3'] = lambda: o.asstr(3)
    q['str2'] = lambda: o.__str__(2)
    q['str9'] = lambda: o.__str__(9)
    if hasattr(o, 'listBlocks'):
        q['blocks'] = lambda: [o.listBlocks(), [o.findObj(b) for b in o.listBlocks()],
                               [str(o.object(b)) for b in o.listBlocks()]]
        q['find'] = lambda: [o.findObj('nothing'), o.findObj('')]
        q['state'] = lambda: [o.ports, o.xpos, list(o.blocks), o.waves, o.eqns]
        q['pos'] = lambda: [o.getpos(p) for p in o.ports]
    elif not hasattr(o, 'solveVI') and hasattr(o, 'Ss'):
        q['state'] = lambda: [list(getattr(o, a)) for a in ('ports', 'fs', 'Ss', 'xpos') if hasattr(o, a)]
    else:
        q['state'] = lambda: [getattr(o, a, None) for a in ('ports', 'xpos', 'Zbase', 'Id', 'f', 'S')]
    if type(o).__name__ == 'rfObject':
        q['eq'] = lambda: [o == o, o == 3, o != o]
    return q


def ask(o, names=None, st=None, what=''):
    for n, fn in queries(o).items():
        if names is None or n in names:
            try:
                r = fn()
            except Exception as e:
                raise Violation(f'{what}: {n} fails with {type(e).__name__}: {e}') from None
            if n[:3] in ('str', 'rep') and not isinstance(r, str):
                raise Violation(f'{what}: {n} is {type(r)}')
            if n == 'len' and r != len(o.ports):
                raise Violation(f'{what}: len is {r} of ports {o.ports}')
            if st is not None:
                st.checks += 1
                st.transitions += 1


def twice(o, what):
    """asking again gives the same text"""
    a, b = [[text(fn()) for fn in queries(o).values()] for _ in range(2)]
    if a != b:
        k = [n for n, x, y in zip(queries(o), a, b) if x != y]
        raise Violation(f'{what}: {k} not the same when asked again')


def compare(got, ref, what):
    d = same(got, ref)
    if d is not None:
        raise Violation(f'{what}: {str(d)[:600]}')


# -------------------------------------------------------------------- families
def singles(tier):
    for kind, (mk, tab) in c16.ops().items():
        for n in tab:
            for lev in LEVELS:
                yield (kind, n, lev)


def run_single(case, st):
    """construction, call and evaluations at a log level"""
    kind, n, lev = case
    mk, tab = T('ops')[kind]
    res, ref = twin(kind, (n, '*'))
    data, fn = tab[n]
    with Level(lev):
        o, a = mk(), data()
        r = frozen(call_(lambda: fn(o, a)))
        p = pic(o) if lev != 'DEBUG' else None
    what = f'{kind}: {n} at {lev}'
    compare(r, res, what)
    if p is not None:
        compare(p, ref, what + ' the object')
    else:
        compare(pic(o), ref, what + ', then the object')
    st.checks += 2
    st.transitions += 2
    st.state(kind, n, lev)
    st.outcome(kind, str(res)[:300])
    c15.files()


def asked(tier):
    for kind, (mk, tab) in c16.ops().items():
        for n in tab:
            yield (kind, n, None)
            for q in (['str', 'str1', 'asstr', 'blocks', 'state', 'eq', 'repr', 'str9', 'find']):
                yield (kind, n, q)


def run_asked(case, st):
    kind, n, q = case
    mk, tab = T('ops')[kind]
    res, res2, ref = twin(kind, (n, n, '*'))
    data, fn = tab[n]
    o = mk()
    w = f'{kind} with {q or "all queries"} around {n}'
    names = None if q is None else (q,)
    ask(o, names, st, w)
    a = data()
    compare(frozen(call_(lambda: fn(o, a))), res, w)
    ask(o, names, st, w)
    a = data()
    compare(frozen(call_(lambda: fn(o, a))), res2, w + ' repeated')
    ask(o, names, st, w)
    compare(pic(o), ref, w + ', then the object')
    twice(o, w)
    st.checks += 4
    st.transitions += 2
    st.state(kind, n, q)
    st.outcome(kind, str(ref)[:300])
    c15.files()


def pairs(tier):
    for kind, (mk, tab) in c16.ops().items():
        if tier == 'quick' and kind.startswith('ct-'):
            continue
        for n1, n2 in itertools.product(tab, repeat=2):
            yield (kind, n1, n2)


def run_pair(case, st):
    """queries at every point of a history of two calls"""
    kind, n1, n2 = case
    mk, tab = T('ops')[kind]
    *res, ref = twin(kind, (n1, n2, '*'))
    o = mk()
    w = f'{kind} with queries around {n1}, {n2}'
    for i, n in enumerate((n1, n2)):
        ask(o, ('str', 'str1', 'str9', 'blocks', 'eq', 'state', 'find'), st, w)
        a = tab[n][0]()
        compare(frozen(call_(lambda: tab[n][1](o, a))), res[i], f'{w}: result of {n}')
    ask(o, None, st, w)
    compare(pic(o), ref, w + ', then the object')
    st.checks += 3
    st.transitions += 2
    st.state(kind, n1, n2)
    st.outcome(kind, str(ref)[:300])
    c15.files()


SW = [('DEBUG', 'CRITICAL'), ('CRITICAL', 'DEBUG'), ('DEBUG', 'DEBUG'), ('DEBUG', 'INFO')]


def switches(tier):
    for kind, (mk, tab) in c16.ops().items():
        names = list(tab)
        for i, n1 in enumerate(names):
            for j, n2 in enumerate(names):
                if tier == 'quick' and (i + 2 * j) % 5 and len(names) > 8:
                    continue
                yield (kind, n1, n2, (i + j) % 4)


def run_switch(case, st):
    """the level changes between two calls"""
    kind, n1, n2, k = case
    mk, tab = T('ops')[kind]
    *res, ref = twin(kind, (n1, n2, '*'))
    o = mk()
    w = f'{kind}: {n1}, {n2} at levels {SW[k]}'
    for i, n in enumerate((n1, n2)):
        a = tab[n][0]()
        with Level(SW[k][i]):
            r = frozen(call_(lambda: tab[n][1](o, a)))
        compare(r, res[i], f'{w}: result of {n}')
    compare(pic(o), ref, w + ', then the object')
    st.checks += 3
    st.transitions += 2
    st.state(kind, n1, n2)
    st.outcome(kind, str(ref)[:300])
    c15.files()


def ctor_cases(tier):
    for n in c16.ctors():
        for lev in LEVELS:
            yield (n, lev)


def run_ctor(case, st):
    n, lev = case
    data, fn = T('ctor')[n]
    ref = pic(fn(data()))
    c15.files()
    with Level(lev):
        o = fn(data())
        ask(o, None, st, f'constructor {n} at {lev}')
    compare(pic(o), ref, f'constructor {n} at {lev}')
    st.checks += 1
    st.transitions += 1
    st.state(n, lev)
    st.outcome(n, str(ref)[:300])
    c15.files()


def func_cases(tier):
    for n in c16.functions():
        for lev in LEVELS:
            yield (n, lev)


def run_func(case, st):
    n, lev = case
    data, fn = c16.functions()[n]
    ref = frozen(call_(lambda: fn(data())))
    c15.files()
    with Level(lev):
        r = frozen(call_(lambda: fn(data())))
    compare(r, ref, f'{n} at {lev}')
    st.checks += 1
    st.transitions += 1
    st.state(n, lev)
    st.outcome(n, str(ref)[:200])
    c15.files()


# --- networks: queries between the steps of construction and evaluation
def net_cases(tier):
    for k in nets.catalog():
        for mode in ('print', 'print1', 'DEBUG', 'DEBUG+print', 'INFO'):
            yield (k, mode)


def run_net(case, st):
    k, mode = case
    specs = nets.catalog()[k]
    m = model_pool(specs)[-1]
    lev = mode.split('+')[0] if mode[0] in 'DI' else 'CRITICAL'
    names = None if mode == 'print' else ('str', 'str9') if 'print' in mode else ()
    w = f'{k} with {mode}: '
    with Level(lev):
        pool = []
        for s in specs[:-1]:
            pool.append(real_obj(s, pool))
            if hasattr(pool[-1], 'ports'):
                ask(pool[-1], names, st, w)
        top = specs[-1]
        c = real_obj(dict(top, ops=[]), pool)
        ask(c, names, st, w + 'empty circuit')
        for op in top['ops']:
            real_op(c, op, pool)
            ask(c, names, st, f'{w}after {op}')
        E = excite(m.free)
        try:
            for f in (FS[0], FS[2]):
                obs_S(c, m, f, None, st, what=w)
                ask(c, names, st, w)
                obs_S(c, m, f, 20., st, what=w)
                obs_sol(c, m, f, E, 75., None, st, what=w)
                ask(c, names, st, w)
                obs_maxV(c, m, f, E, None, st, what=w)
                ask(c, names, st, w)
            obs_pos(c, m, st, what=w)
        except Ill:
            st.skipped += 1
    st.transitions += len(top['ops']) + 8


# --- refused calls are refused in the same way
def refusals():
    import pyRFtk as rf
    d = {}

    def ct(o):
        return rf.rfCircuit, o
    base = lambda: c16.small()
    for name, fn in {
        'add twice': lambda c: c.addblock('Q', smat(1, 2, 0.), ['a', 'a']),
        'add wrong n': lambda c: c.addblock('Q', smat(1, 2, 0.), ['a', 'b', 'c']),
        'add unknown port': lambda c: c.addblock('Q', rf.rfRLC(), {'zz': 'x'}),
        'connect unknown': lambda c: c.connect('x', 'y'), 'connect used': lambda c: c.connect('N.T.2', 'A.2'),
        'connect twice': lambda c: c.connect('A.2', 'A.2'), 'connect none': lambda c: c.connect(),
        'terminate unknown': lambda c: c.terminate('zz', Z=1), 'terminate kw': lambda c: c.terminate('A.2', U=1),
        'set unknown': lambda c: c.set('A.U', 1.), 'set block': lambda c: c.set('Q.L', 1.),
        'set kw': lambda c: c.set(A={'U': 1.}), 'par': lambda c: c.getS(F1, params={'A': {'U': 2.}}),
        'getpos': lambda c: c.getpos('zz'), 'object': lambda c: c.object('Q'), 'find': lambda c: c.findObj('A.B'),
        'maxV': lambda c: c.maxV(F1, {}), 'Solution': lambda c: c.Solution(F1, {'A.2': 1.}),
        'deembed': lambda c: c.deembed({'zz': 'd'}), 'deembed2': lambda c: c.deembed({}, {'A.2': 'zz'}),
        'ctor': lambda c: rf.rfCircuit(zz=1), 'ctor trl': lambda c: rf.rfTRL(zz=1), 'ctor obj': lambda c: rf.rfObject(zz=1),
        'trl': lambda c: rf.rfTRL(L=1., Z0TL=30., vr=.5, LTL=2e-7, CTL=4e-9), 'rlc': lambda c: rf.rfRLC(zz=1),
        'arc': lambda c: c16.ops()['arc'][0]().set(zz=3), 'base': lambda c: c16.ops()['base'][0]().getS(3.33e6),
        'tab': lambda c: c16.ops()['obj'][0]().setS(1e6, smat(1, 2, 0.)),
        'tab sort': lambda c: c16.ops()['obj'][0]().sortports(['a', 'b', 'z']),
        'tab names': lambda c: c16.ops()['obj'][0]().setS(1e6, smat(1, 3, 0.), Portnames=['u']),
    }.items():
        d[name] = (base, fn)
    return d


F1 = FS[0]


def ref_cases(tier):
    for n in refusals():
        for lev in LEVELS:
            yield (n, lev)


def run_ref(case, st):
    n, lev = case
    mk, fn = refusals()[n]

    def go(level):
        with Level(level):
            o = mk()
            r = call_(lambda: fn(o))
        return [text(frozen(r)), pic(o)]
    ref = go('CRITICAL')
    compare(go(lev), ref, f'{n} at {lev}')
    st.checks += 1
    st.transitions += 2
    st.state(n, lev)
    st.outcome(n, ref[0])
    c15.files()


# --- the indentation and the level functions
def lev_cases(tier):
    for s in itertools.product(range(len(LEVELS)), repeat=3):
        for form in (0, 1):
            yield (list(s), form)


def run_lev(case, st):
    import pyRFtk.config as cf
    seq, form = case
    quiet_handlers()
    try:
        for i in seq:
            lv = LEVELS[i]
            cf.setLogLevel(lv if form == 0 else getattr(logging, lv))
            eff = cf.tLogger.getEffectiveLevel()
            for nm in LEVELS[:-1]:
                if bool(cf.logit[nm]) != (getattr(logging, nm) >= eff):
                    raise Violation(f'at {lv} messages of {nm} are {"" if cf.logit[nm] else "not "}produced')
            st.checks += 1
            st.transitions += 1
            st.outcome(lv)
    finally:
        cf.setLogLevel('CRITICAL')
    st.state(seq[-1])


def families(tier):
    return [
        Family('calls', lambda: singles(tier), run_single, 'every call of every object at 6 log levels'),
        Family('queries', lambda: asked(tier), run_asked,
               'every call of every object with each query (and all) before, between and after'),
        Family('pairs', lambda: pairs(tier), run_pair, 'every pair of calls with the queries at every point'),
        Family('switches', lambda: switches(tier), run_switch,
               'pairs of calls with the level switched in between' + (' (one in five of the pairs of big menus)' if
                                                                      tier == 'quick' else ' (all pairs)')),
        Family('constructors', lambda: ctor_cases(tier), run_ctor, 'every constructor x 6 levels, all queries'),
        Family('functions', lambda: func_cases(tier), run_func, 'every function x 6 levels'),
        Family('networks', lambda: net_cases(tier), run_net,
               'catalogue: queries after every step of construction and evaluation, log levels; reference model'),
        Family('refusals', lambda: ref_cases(tier), run_ref, f'{len(refusals())} invalid calls x 6 levels'),
        Family('levels', lambda: lev_cases(tier), run_lev, 'all sequences of three levels'),
    ]
