"""C13: lumped RLC sections match their circuit at every frequency.

All combinations of the six elements (absent, ordinary, extreme values), all
forms of asking, and all short histories of constructions, settings, block
parameters and copies, against Kirchhoff's laws for the section.
"""
import itertools, math
import numpy as np
from .engine import Family, Violation
from .ref import El, rnd, close, real_obj
from .nets import RLC, INF

PROP = 'C13'
ASSUME = ['element values are non-negative; Zbase is real and positive']
VAL = {'Rs': (None, 5., 0.), 'Ls': (None, 40e-9), 'Cs': (None, 90e-12, 0.), 'Rp': (None, 900., 0.),
       'Lp': (None, 120e-9, 0.), 'Cp': (None, 30e-12)}
FR = [0., 1e3, 35e6, 48e6, 1 / (2 * math.pi * math.sqrt(40e-9 * 90e-12)),
      1 / (2 * math.pi * math.sqrt(120e-9 * 30e-12)), 3e9]


def refS(p, f, Zb):
    """S by Kirchhoff: P V + Q I = 0, V = a + b, I = (a - b)/Z"""
    P, Q = El(RLC(p=None, **p) if False else dict(t='RLC', p=p, Zb=Zb)).PQ(f)
    return -np.linalg.solve(P - Q / Zb, P + Q / Zb)


def cmp(G, R, what):
    G = np.asarray(G)
    if G.shape != R.shape or not np.all(np.isfinite(G)) or np.max(np.abs(G - R)) > 1e-9:
        raise Violation(f'{what} is\n{G}\nexpected\n{R}')


def combo_cases(tier):
    for vs in itertools.product(*VAL.values()):
        p = {k: v for k, v in zip(VAL, vs) if v is not None}
        for Zb in (50., 7.) if tier == 'quick' else (50., 7., 300.):
            yield [p, Zb]


def combo(case, st):
    import pyRFtk as rf
    p, Zb = case
    for how in ('kw', 'set', 'set1', 'params', 'explicit'):
        d = dict(Rs=0., Ls=0., Cs=INF, Rp=INF, Lp=INF, Cp=0.)
        o = rf.rfRLC(Zbase=Zb, **(p if how == 'kw' else dict(d, **p) if how == 'explicit' else
                                  dict(Rs=1., Cp=1e-9, Lp=1e-9) if how == 'set' else {}))
        if how == 'set':
            o.set(**dict(d, **p))
        elif how == 'set1':
            for k, v in p.items():
                if o.set(**{k: v}) is not (v != d[k]):
                    raise Violation(f'set({k}={v}) does not tell if there is a change')
        for i, f in enumerate(FR):
            kw = dict(params=dict(p)) if how == 'params' else {}
            R = refS(p, f, Zb)
            cmp(o.getS(f, **kw), R, f'getS({f}) of {p} ({how})')
            if how in ('kw', 'params'):
                for Z in (20., Zb * 1.003):
                    cmp(o.getS(f, Zbase=Z, **kw), refS(p, f, Z), f'getS({f}, Zbase={Z}) of {p} ({how})')
            st.transitions += 2
            st.checks += 2
            st.state(p, Zb, f, how)
            st.outcome(rnd(R, 4))
        if how == 'kw':
            many = [FR[k] for k in (2, 0, 3, 2, 1, 6)]
            R = np.array([refS(p, f, 33.) for f in many])
            for form in (list, tuple, np.array):
                cmp(o.getS(form(many), Zbase=33.), R, f'getS({form.__name__} of {many}) of {p}')
                cmp(o.getS(form(many[:1]), Zbase=33.), R[:1], f'getS({form.__name__} of one) of {p}')
                st.checks += 2
            vm, where, _ = o.maxV(48e6, {'s': .3, 'p': -.5j}, 20.)
            a = np.array([.3, -.5j])
            v = np.abs(a + refS(p, 48e6, 20.) @ a)
            if abs(vm - max(v)) > 1e-9:
                raise Violation(f'maxV of {p} is {vm}, expected {max(v)}')


# ------------------------------------------------------------- histories
OPS = [('set', {'Rs': 3.}), ('set', {'Ls': 70e-9, 'Cs': 50e-12}), ('set', {'Cs': INF}), ('set', {'Rp': 0.}),
       ('set', {'Rp': INF, 'Lp': 90e-9}), ('set', {'Lp': INF, 'Cp': 40e-12}), ('par', {'Rp': 200., 'Cp': 0.}),
       ('par', {'Rs': 0.}), ('S', 0.), ('S', 35e6), ('Sl', 0), ('copy', 0), ('bad', {'Rs': 9., 'xx': 1.}),
       ('badpar', {'Rs': 9., 'Ids': 1.}), ('max', 0), ('str', 0)]


def hist_cases(tier):
    for k in range((4 if tier == 'quick' else 5) + 1):
        for h in itertools.product(range(len(OPS)), repeat=k):
            yield list(h)


def hist(case, st):
    import pyRFtk as rf
    p = dict(Rs=2., Ls=20e-9, Rp=500.)
    o = rf.rfRLC(Zbase=30., xpos=[.1, .2], Id='R', **p)
    for i in case:
        k, v = OPS[i]
        st.transitions += 1
        if k == 'set':
            o.set(**v)
            p.update(v)
        elif k == 'par':
            G = o.getS(35e6, params=v)
            p.update(v)
            G += 1
        elif k == 'S':
            G = o.getS(v, Zbase=11.)
            G *= 0
        elif k == 'Sl':
            for G in o.getS([0., 35e6]):
                G *= 0
        elif k == 'copy':
            o.copy().set(Rs=77., Cs=1e-12)
            o = o.copy()
        elif k in ('bad', 'badpar'):
            try:
                o.set(**v) if k == 'bad' else o.getS(35e6, params=v)
            except Exception:
                pass
            else:
                raise Violation(f'{OPS[i]} with an unknown parameter is accepted')
        elif k == 'max':
            o.maxV(35e6, {'s': 1., 'p': .3})
        else:
            str(o), o.asstr(1), len(o)
    for f in (0., 35e6, 61e6):
        cmp(o.getS(f), refS(p, f, 30.), f'getS({f}) after {[OPS[i] for i in case]}')
        st.checks += 1
    cmp(o.getS([35e6, 0.], Zbase=77.), np.array([refS(p, 35e6, 77.), refS(p, 0., 77.)]), 'getS(list)')
    if o.ports != ['s', 'p'] or list(o.xpos) != [.1, .2] or len(o) != 2 or o.Zbase != 30.:
        raise Violation(f'ports {o.ports} positions {o.xpos} after {[OPS[i] for i in case]}')
    st.state(sorted(p.items()))
    st.outcome(rnd(refS(p, 35e6, 30.)))


# ------------------------------------------------------------- in a circuit
def circ_cases(tier):
    vals = [dict(), dict(Rs=5., Ls=40e-9), dict(Cs=90e-12, Rp=900.), dict(Lp=120e-9, Cp=30e-12),
            dict(Rs=1., Ls=40e-9, Cs=90e-12, Rp=300., Lp=120e-9, Cp=30e-12), dict(Cp=30e-12), dict(Ls=9e-9)]
    for a, b in itertools.product(vals, repeat=2):
        for way in ('kw', 'params', 'set', 'getS', 'shared'):
            for f in (0., 35e6, 48e6):
                yield [a, b, way, f]


def circ(case, st):
    import pyRFtk as rf
    a, b, way, f = case
    def abcd(p):
        P, Q = El(dict(t='RLC', p=p)).PQ(f)
        # unknown (V1, I1) for given (V2, I2)
        if np.linalg.matrix_rank(np.c_[P[:, 0], Q[:, 0]] * [1, 50]) < 2:
            return None
        return np.linalg.solve(np.c_[P[:, 0], Q[:, 0]], -np.c_[P[:, 1], -Q[:, 1]])
    A, B = abcd(a), abcd(b)
    if A is None or B is None:
        st.skipped += 1
        return
    c = rf.rfCircuit(Zbase=25.)
    o = rf.rfRLC(Zbase=60.)
    full = dict(Rs=0., Ls=0., Cs=INF, Rp=INF, Lp=INF, Cp=0.)
    if way == 'shared':                      # one object in both places
        c.addblock('A', o, params=dict(full, **a))
        c.addblock('B', o, params=dict(full, **b))
    else:
        c.addblock('A', rf.rfRLC(Zbase=60., **(a if way == 'kw' else {})), params=a if way == 'params' else {})
        c.addblock('B', rf.rfRLC(Zbase=15., **(b if way == 'kw' else {})), params=b if way == 'params' else {})
    c.connect('A.p', 'B.s')
    par = {}
    if way == 'set':
        c.getS(f)
        for n, p in (('A', a), ('B', b)):
            if p:
                c.set(n, p)
    if way == 'getS':
        par = dict(params={'A': a, 'B': b})
    G = c.getS(f, **par)

    T = A @ B
    P = np.array([[1, -T[0, 0]], [0, -T[1, 0]]])
    Q = np.array([[0, T[0, 1]], [1, T[1, 1]]])
    R = -np.linalg.solve(P - Q / 25., P + Q / 25.)
    k = [c.ports.index('A.s'), c.ports.index('B.p')]
    cmp(G[np.ix_(k, k)], R, f'two sections in a circuit at {f} ({way})')
    st.checks += 1
    st.transitions += 1
    st.state(*map(str, case))
    st.outcome(rnd(R, 4))


def families(tier):
    return [
        Family('elements', lambda: combo_cases(tier), combo,
               'all 324 combinations of absent/ordinary/extreme elements x 2 (3) impedances x 7 frequencies (0, resonances) '
               'x 5 ways of giving them; lists, tuples, arrays; maxV'),
        Family('histories', lambda: hist_cases(tier), hist,
               'all sequences of at most 4 (5) of 16 operations (settings, block parameters, refused ones, copies)'),
        Family('cascade', lambda: circ_cases(tier), circ,
               'all pairs of 7 sections in a circuit, values given in 5 ways, 3 frequencies'),
    ]
