"""C14: coupler, arc and fixed S-matrix elements match their definitions.

All parameters x ways of giving them x frequencies x reference impedances, and
all short histories of calls on each kind of element, against even/odd mode
analysis (coupler), V = jwL I (arc) and the given matrices (fixed).
"""
import itertools, math
import numpy as np
from .engine import Family, Violation
from .ref import coupler, smat, rnd
from .tsf import renorm

PROP = 'C14'
ASSUME = ['a coupler of a given length is asked for f > 0 (or f = 0 with a length)', 'Zbase is real and positive']
C0 = 299792458.0
INF = float('inf')


def cmp(G, R, what, tol=1e-9):
    G = np.asarray(G)
    R = np.asarray(R)
    if G.shape != R.shape or not np.all(np.isfinite(G)) or np.max(np.abs(G - R)) > tol:
        raise Violation(f'{what} is\n{G}\nexpected\n{R}')


def refuse(fn, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation(f'{what} is accepted and gives {r}')


# ------------------------------------------------------------- coupler
KC = [0.05, 0.3, 1 / math.sqrt(2), 0.95]
SIZES = [None, ('Lc', 1.3), ('f0Hz', 47e6), ('Lc', 6.1)]
FC = [10e6, 35e6, 47e6, 57.65e6, 94e6, 188e6]


def cpl_cases(tier):
    for k in KC + [None, 0., 1.]:
        for how in ([''] if k is None else ['kc'] if k == 0 else ['kc', 'kcdB', '-kcdB']):
            for size in SIZES:
                for Zb in (None, 50., 30., 112.):
                    for ports in (None, ['a', 'b', 'c', 'd'], ['B1', 'A1', 'B2', 'A2']):
                        yield [k, how, size, Zb, ports]


def cpl(case, st):
    import pyRFtk as rf
    k, how, size, Zb, ports = case
    kw = {}
    if k is not None:
        kw[how.strip('-')] = k if how == 'kc' else (-1 if how[0] == '-' else 1) * -20 * math.log10(k)
    if size:
        kw[size[0]] = size[1]
    if Zb:
        kw['Zbase'] = Zb
    if ports:
        kw['ports'] = list(ports)
    o = rf.rfCoupler(**kw)
    k = math.sqrt(.5) if k is None else k
    Zb = Zb or 50.
    if list(o.ports) != (ports or ['A1', 'A2', 'B1', 'B2']) or len(o) != 4:
        raise Violation(f'ports {o.ports}')
    Lc = None if not size else size[1] if size[0] == 'Lc' else C0 / 4 / size[1]
    fs = FC + ([0., size[1]] if size and size[0] == 'f0Hz' else [C0 / 4 / Lc] if Lc else [])
    if k == 1:
        fs = [f for f in fs if f]                  # an ideal coupling at f = 0 is undetermined
    for f in fs:
        R = coupler(k, Lc, f)
        S = o.getS(f)
        cmp(S, R, f'getS({f}) of {kw}')
        for Z in (Zb, 75., Zb * 1.003):
            cmp(o.getS(f, Zbase=Z), renorm(R, Zb, Z), f'getS({f}, Zbase={Z}) of {kw}')
        cmp(S @ S.conj().T, np.eye(4), 'S S^H of a coupler')
        cmp(S, S.T, 'S of a coupler')
        if Lc is None or abs(f - C0 / 4 / Lc) < 1e-6:
            if abs(abs(S[0, 2]) - k) > 1e-9 or abs(abs(S[0, 1]) - math.sqrt(1 - k * k)) > 1e-9 or \
               0 < k < 1 and abs(np.angle(S[0, 1] / S[0, 2]) + math.pi / 2) > 1e-9:
                raise Violation(f'coupling at the centre frequency of {kw}: {S[0]}')
        st.state(k, Lc, f, Zb)
        st.outcome(rnd(R, 4))
        st.checks += 5
        st.transitions += 3
    R = np.array([renorm(coupler(k, Lc, f), Zb, 20.) for f in fs[::-1] + fs[:1]])
    cmp(o.getS(fs[::-1] + fs[:1], Zbase=20.), R, f'getS(list) of {kw}')
    cmp(o.getS(np.array(fs[::-1] + fs[:1]), Zbase=20.), R, f'getS(array) of {kw}')
    if size:
        refuse(lambda: rf.rfCoupler(Lc=1., f0Hz=30e6), 'a length and a centre frequency')
        for a, b in ((.3, 9.), (0., 3.), (1., 0.), (.5, 0.), (0., 0.)):
            refuse(lambda: rf.rfCoupler(kc=a, kcdB=b), f'two coupling constants {a}, {b} dB')
        refuse(lambda: rf.rfCoupler(ports=['1', '2', '3']), 'a coupler with 3 ports')


# ------------------------------------------------------------- arc
def arc_cases(tier):
    for La in (None, INF, 0., 1e-9, 70e-9, 3e-6, -55e-9):
        for how in ('arg', 'kw', 'set', 'params') if La is not None else ('no',):
            for Zb in (None, 50., 8., 400.):
                for port in (None, 'arc'):
                    yield [La, how, Zb, port]


def arc(case, st):
    import pyRFtk as rf
    La, how, Zb, port = case
    kw = {}
    if Zb:
        kw['Zbase'] = Zb
    if port:
        kw['ports'] = [port]
    par = {}
    if how == 'arg':
        o = rf.rfArcObj(La, **kw)
    elif how == 'kw':
        o = rf.rfArcObj(Larc=La, **kw)
    else:
        o = rf.rfArcObj(**kw)
        if how == 'set':
            o.set(Larc=La)
        elif how == 'params':
            par = dict(params={'Larc': La})
    La = INF if La is None else La
    Zb = Zb or 50.
    if list(o.ports) != [port or '1'] or len(o) != 1:
        raise Violation(f'ports {o.ports}')

    def R(f, Z):
        if La == INF:
            return np.array([[1.]])
        z = 2j * math.pi * f * La
        return np.array([[(z - Z) / (z + Z)]])
    for f in (0., 1e6, 35e6, 48e6, 1e9):
        cmp(o.getS(f, **par), R(f, Zb), f'getS({f}) of an arc with {La}')
        for Z in (Zb, 20., Zb * .997):
            cmp(o.getS(f, Zbase=Z, **par), R(f, Z), f'getS({f}, Zbase={Z}) of an arc with {La}')
        vm = o.maxV(f, {o.ports[0]: .4j}, 30.)[0]
        if abs(vm - abs(.4j * (1 + R(f, 30.)[0, 0]))) > 1e-9:
            raise Violation(f'maxV of an arc with {La} is {vm}')
        st.state(La, f, Zb)
        st.outcome(rnd(R(f, Zb)))
        st.checks += 4
        st.transitions += 3
    fs = [48e6, 0., 35e6, 48e6]
    cmp(o.getS(fs, Zbase=20., **par), np.array([R(f, 20.) for f in fs]), f'getS(list) of an arc with {La}')
    refuse(lambda: o.set(Lark=1.), 'an unknown attribute')
    c = rf.rfCircuit(Zbase=33.)
    c.addblock('A', o, **par)
    c.connect('A.' + o.ports[0], 'x')
    cmp(c.getS(35e6), R(35e6, 33.), 'an arc in a circuit')


# ------------------------------------------------------------- fixed matrices
NEAR = [30e6, 30e6 + 1e-3, 30e6 * (1 + 1e-6), 30e6 * (1 - 1e-7)]


def fix_cases(tier):
    F = [30e6, 41e6, 55e6, 70e6]
    for n in (1, 2, 3):
        for fs in [F[:1], F[:2], F[:3], F[2::-1], [F[1], F[3], F[0], F[2]], NEAR[:3], NEAR[::-1]]:
            for Zb in (None, 12.):
                for ports in (None, ['c', 'a', '10'][:n]):
                    yield [n, fs, Zb, ports]


def fix(case, st):
    import pyRFtk as rf
    n, fs, Zb, ports = case
    Ss = [smat(3 * n + k, n, f) for k, f in enumerate(fs)]
    kw = {}
    if Zb:
        kw['Zbase'] = Zb
    if ports:
        kw['ports'] = list(ports)
    o = rf.rfBase(Ss=Ss if n % 2 else np.array(Ss), fs=fs if n % 2 else np.array(fs), **kw)
    Zb = Zb or 50.
    if list(o.ports) != (ports or [str(k + 1) for k in range(n)]) or len(o) != n:
        raise Violation(f'ports {o.ports}')
    D = dict(zip(fs, Ss))
    cmp(o.getS(), Ss, 'getS() of all')
    for k in range(1, len(fs) + 1):
        for sel in itertools.permutations(fs, k):
            for Z in (None, Zb, 70., Zb * 1.003):
                zk = {} if Z is None else {'Zbase': Z}
                R = np.array([renorm(D[f], Zb, Z or Zb) for f in sel])
                for form in (list, np.array, tuple):
                    G = o.getS(form(sel), **zk)
                    cmp(G, R, f'getS({sel}, {zk})')
                    for g in G:
                        g *= 0                            # what is returned belongs to the caller
                st.transitions += 3
                st.checks += 3
            st.state(n, sel)
        cmp(o.getS([sel[0]] * 3), [D[sel[0]]] * 3, 'a frequency three times')
    for f in fs:
        cmp(o.getS(f, Zbase=20.), renorm(D[f], Zb, 20.), f'getS({f}, Zbase=20)')
        cmp(o.getS(f), D[f], f'getS({f})')
        st.outcome(rnd(D[f]))
    for bad in (33e6, 0., 1e9, fs[0] * 1.0001, fs[0] + 1e-2, fs[-1] * (1 - 1e-6) + .3, fs[0] - .5):
        for f in (bad, [bad], [fs[0], bad], [bad, fs[-1]]):
            refuse(lambda: o.getS(f), f'frequency {f}, with data at {fs}')
            st.checks += 1
    cmp(o.getS(fs[0]), D[fs[0]], 'getS after refused frequencies')
    refuse(lambda: rf.rfBase(Ss=Ss, fs=fs[1:]), 'less frequencies than matrices')
    refuse(lambda: rf.rfBase(Ss=Ss, fs=fs, ports=['p'] * (n + 1)), 'more port names than ports')
    if len(fs) == 1:
        o = rf.rfBase(Ss=Ss[0], fs=fs)
        cmp(o.getS(fs[0]), Ss[0], 'a single matrix')


# ------------------------------------------------------------- histories
def elements():
    import pyRFtk as rf
    A, B = smat(5, 2, 35e6), smat(5, 2, 48e6)
    return {
        'cpl': (lambda: rf.rfCoupler(kc=.6, Lc=1.3, Zbase=40.), lambda f, L: coupler(.6, 1.3, f), 40.),
        'arc': (lambda: rf.rfArcObj(Larc=50e-9, Zbase=40.),
                lambda f, L: np.array([[1. if L == INF else (2j * math.pi * f * L - 40) / (2j * math.pi * f * L + 40)]]),
                40.),
        'fix': (lambda: rf.rfBase(Ss=[A, B], fs=[35e6, 48e6], Zbase=40.), lambda f, L: {35e6: A, 48e6: B}[f], 40.),
    }


OPS = [('S', 35e6, None), ('S', 48e6, 20.), ('Sl', [48e6, 35e6], None), ('Sl', [35e6], 20.), ('set', 20e-9), ('set', INF),
       ('par', 80e-9), ('bad', 0), ('badf', 0), ('copy', 0), ('str', 0), ('max', 0), ('tsf', 0)]


def hist_cases(tier):
    for el in ('cpl', 'arc', 'fix'):
        for k in range((4 if tier == 'quick' else 5) + 1):
            ops = [i for i, o in enumerate(OPS) if el == 'arc' or o[0] not in ('set', 'par')]
            for h in itertools.product(ops, repeat=k):
                yield [el, list(h)]


def hist(case, st):
    el, h = case
    mk, ref, Zb = elements()[el]
    o = mk()
    L = 50e-9
    for i in h:
        k, *a = OPS[i]
        st.transitions += 1
        if k in ('S', 'Sl'):
            G = o.getS(a[0], **({} if a[1] is None else {'Zbase': a[1]}))
            R = [renorm(ref(f, L), Zb, a[1] or Zb) for f in (a[0] if k == 'Sl' else [a[0]])]
            cmp(G, R if k == 'Sl' else R[0], f'{OPS[i]} after {[OPS[j] for j in h]}')
            for g in (G if k == 'Sl' else [G]):
                g *= 0
        elif k == 'set':
            o.set(Larc=a[0])
            L = a[0]
        elif k == 'par':
            o.getS(35e6, params={'Larc': a[0]})
            L = a[0]
        elif k == 'bad':
            refuse(lambda: o.set(Larx=3.), 'an unknown attribute')
        elif k == 'badf':
            if el == 'fix':
                refuse(lambda: o.getS([35e6, 36e6]), 'a frequency without data')
        elif k == 'copy':
            o = o.copy()
        elif k == 'str':
            str(o), o.asstr(1), len(o)
        elif k == 'max':
            o.maxV(48e6, {o.ports[-1]: 1j}, 25.)
        else:
            o.tsf2str(fs=[35e6, 48e6])
    for f in (48e6, 35e6):
        cmp(o.getS(f), ref(f, L), f'getS({f}) after {[OPS[j] for j in h]}')
        cmp(o.getS([f], Zbase=33.), [renorm(ref(f, L), Zb, 33.)], f'getS([{f}], 33) after {[OPS[j] for j in h]}')
        st.checks += 2
    st.state(el, L, h[-1:])
    st.outcome(el, L)


def families(tier):
    return [
        Family('coupler', lambda: cpl_cases(tier), cpl,
               'couplings (kc, +-dB, default) x sizes (none, Lc, f0Hz) x impedances x port names x 8 frequencies'),
        Family('arc', lambda: arc_cases(tier), arc, 'inductances 0..inf x 4 ways x impedances x frequencies'),
        Family('fixed', lambda: fix_cases(tier), fix,
               '1-3 ports x up to 4 frequencies in several orders; all ordered selections; refused frequencies'),
        Family('histories', lambda: hist_cases(tier), hist,
               'all sequences of at most 4 (5) of 13 calls on each kind of element'),
    ]
