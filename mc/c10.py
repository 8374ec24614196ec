"""C10: tabulated S-matrices behave as a table over frequency.

Explicit enumeration of all operation histories on the real rfObject, against a
dictionary frequency -> matrix.
"""
import itertools, copy
import numpy as np
from .engine import Family, Violation
from .ref import smat, close, rnd
from .tsf import renorm, pair
from . import tsf
from .c09 import p2v

PROP = 'C10'
ASSUME = ['an item is assigned a frequency that no other item has',
          'interpolation: splines of order min(n-1, kind) through all stored data, of magnitude and unwrapped '
          'phase (MA), log magnitude and unwrapped phase (dB) or real and imaginary part (RI)']
F = [30., 41., 55., 62., 75., 90.]               # MHz
U = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}


def mat(k, n, i=0):
    return smat(k, n, 1e6 * (20 + 9 * i)) + (0.02 + 0.03j) * np.eye(n)[::-1]


class Tab:
    """the reference: a dictionary"""
    def __init__(self, n, ports, Zb, xpos, interp, kind):
        self.n, self.ports, self.Zb, self.xpos = n, ports, Zb, xpos
        self.d, self.interp, self.kind = {}, interp, kind
        self.zc, self.gm = None, None                  # port impedances, gammas of the frequencies

    def at(self, f):
        """network at f (MHz)"""
        if f in self.d:
            return self.d[f]
        fs = sorted(self.d)
        S = np.array([self.d[x] for x in fs])
        if len(fs) == 1:
            return S[0]
        if self.interp == 'RI':
            return self.spl(fs, S.real, f) + 1j * self.spl(fs, S.imag, f)
        A = np.angle(S)
        for k in range(1, len(fs)):
            A[k] -= 2 * np.pi * np.round((A[k] - A[k - 1]) / (2 * np.pi))
        M = np.abs(S)
        if self.interp == 'dB':
            return np.exp(self.spl(fs, np.log(M), f) + 1j * self.spl(fs, A, f))
        return self.spl(fs, M, f) * np.exp(1j * self.spl(fs, A, f))

    def spl(self, fs, Y, f):
        n = len(fs)
        k = min(n - 1, self.kind)
        if k == n - 1:                                 # one polynomial
            r = 0.
            for i in range(n):
                w = 1.
                for j in range(n):
                    if j != i:
                        w *= (f - fs[j]) / (fs[i] - fs[j])
                r = r + w * Y[i]
            return r
        if k == 1:
            i = min(max(np.searchsorted(fs, f) - 1, 0), n - 2)
            t = (f - fs[i]) / (fs[i + 1] - fs[i])
            return (1 - t) * Y[i] + t * Y[i + 1]
        if k == 3:
            from scipy.interpolate import CubicSpline
            return CubicSpline(fs, Y, axis=0, bc_type='not-a-knot')(f)
        from scipy.interpolate import make_interp_spline
        return make_interp_spline(fs, Y, k=k)(f)

    def conv(self, Z):
        self.d = {f: renorm(S, self.Zb, Z) for f, S in self.d.items()}
        self.Zb = Z

    def sort(self, order):
        if order is None:
            ix = sorted(range(self.n), key=lambda k: self.ports[k])
        else:
            ix = [self.ports.index(p) for p in order]
            ix += [k for k in range(self.n) if k not in ix]
        self.ports = [self.ports[k] for k in ix]
        self.xpos = [self.xpos[k] for k in ix]
        self.d = {f: S[np.ix_(ix, ix)] for f, S in self.d.items()}
        if self.zc is not None:
            self.zc = {f: r[ix] for f, r in self.zc.items()}
            self.gm = {f: r[ix] for f, r in self.gm.items()}


MENU = [
    ('set', 1, 1), ('set', 0, 2), ('set', 2, 3), ('set', 1, 4),
    ('sets', (2, 0), (5, 6)), ('sets', (3, 1, 2), (7, 8, 9)), ('sets', (1, 1), (10, 11)), ('sets', (0, 4), (1, 2)),
    ('item', 0, None, 12), ('item', -1, 5, 13), ('item', 1, 4, 14),
    ('sort', None), ('sort', 1), ('zb', 20.), ('zb', 75.), ('read', (0, 2, 3), 15),
    ('readz', (3, 1), 16), ('ev', 1.), ('ev', 47.), ('evl',), ('evz',), ('max',),
]
NEVAL = 5


def real_apply(o, op, t, unit, n):
    s = 1e6 / U[unit]
    k = op[0]
    if k == 'set':
        o.setS(F[op[1]] * s, mat(op[2], n))
    elif k == 'sets':
        o.setS([F[i] * s for i in op[1]], [mat(m, n) for m in op[2]])
    elif k == 'item':
        f = F[op[2]] * s if op[2] is not None else o[op[1]][0]
        o[op[1]] = (f, mat(op[3], n))
    elif k == 'sort':
        o.sortports() if op[1] is None else o.sortports(order(t, op[1]))
    elif k == 'zb':
        o.convert2newZbase(op[1])
    elif k == 'read':
        o.read_tsf(text(op, n))
    elif k == 'readz':
        o.read_tsf(textz(op, n))
    elif k == 'ev':
        o.getS(F[1] * op[1] * s if op[1] == 1. else op[1] * s)
    elif k == 'evl':
        o.getS([F[2] * s, 33. * s, F[0] * s])
    elif k == 'evz':
        o.getS(44. * s, Zbase=33.)
    elif k == 'max':
        o.maxV(44. * s, {p: 1. for p in o.ports})


def text(op, n):
    out = ['# MHz S RI R 50']
    for i, f in enumerate(op[1]):
        M = mat(op[2], n, i)
        M = M.T if n == 2 else M
        rows = [' '.join(pair(z, 'RI') for z in r) for r in M]
        out.append(f'{F[f]} ' + (' '.join(rows) if n == 2 else rows[0]))
        if n > 2:
            out += rows[1:]
    return '\n'.join(out) + '\n'


def zport(f, n):
    return np.array([20. + 3 * f + 11 * k for k in range(n)]), np.array([.01 * f + (1 + k) * 1j for k in range(n)])


def textz(op, n):
    """with the impedances and propagation constants of the ports"""
    out, i = [], 0
    for ln in text(op, n).split('\n')[:-1]:
        if i and (n <= 2 or (i - 1) % n == 0) and i > 1:
            out += extra
        out.append(ln)
        if i and (n <= 2 or (i - 1) % n == 0):
            z, g = zport(op[1][(i - 1) // (n if n > 2 else 1)], n)
            extra = ['! Gamma ' + ' '.join(f'{x.real:.12g} {x.imag:.12g}' for x in g),
                     '! Port Impedance ' + ' '.join(f'{x:.12g} 0' for x in z)]
        i += 1
    return '\n'.join(out + extra) + '\n'


def order(t, k):
    return [t.ports[-1]] if k == 1 else t.ports[::-1]


def model_apply(t, op, o, unit):
    s = 1e6 / U[unit]
    n = t.n
    k = op[0]
    if k == 'set':
        t.d[F[op[1]]] = mat(op[2], n)
    elif k == 'sets':
        for i, m in zip(op[1], op[2]):
            t.d[F[i]] = mat(m, n)
    elif k == 'item':
        # (called before the real operation: which frequency is the item)
        f = [x for x in t.d if abs(x * s / o.fs[op[1]] - 1) < 1e-9]
        del t.d[f[0]]
        if t.zc is not None:
            for q in (t.zc, t.gm):
                q.pop(f[0], None)
        t.d[F[op[2]] if op[2] is not None else f[0]] = mat(op[3], n)
    elif k == 'sort':
        t.sort(order(t, op[1]) if op[1] is not None else None)
    elif k == 'zb':
        t.conv(op[1])
    elif k == 'read':
        t.d = {F[f]: renorm(mat(op[2], n, i), 50., t.Zb) for i, f in enumerate(op[1])}
        t.zc = t.gm = None
    elif k == 'readz':
        t.d = {F[f]: p2v(mat(op[2], n, i), zport(f, n)[0], np.full(n, t.Zb)) for i, f in enumerate(op[1])}
        t.zc = {F[f]: zport(f, n)[0] for f in op[1]}
        t.gm = {F[f]: zport(f, n)[1] for f in op[1]}
    if t.zc is not None and k in ('set', 'sets'):
        for i in [op[1]] if k == 'set' else op[1]:
            t.zc.pop(F[i], None)                       # (nothing is said about these)
            t.gm.pop(F[i], None)


def possible(t, op):
    if op[0] in ('item',):
        if len(t.d) < 2:
            return False
        return op[2] is None or F[op[2]] not in t.d
    if op[0] in ('ev', 'evl', 'evz', 'max', 'zb'):
        return bool(t.d)
    return True


def observe(o, t, unit, st, w):
    s = 1e6 / U[unit]
    if list(o.ports) != t.ports or len(o) != t.n:
        raise Violation(f'{w}: ports {o.ports}, expected {t.ports}')
    if not np.allclose(o.xpos, t.xpos):
        raise Violation(f'{w}: positions {o.xpos}, expected {t.xpos}')
    if abs(o.Zbase - t.Zb) > 1e-12:
        raise Violation(f'{w}: Zbase {o.Zbase}, expected {t.Zb}')
    # interpolation in between, before and after looking at the stored ones
    fs = sorted(t.d)
    probe = []
    for a, b in zip(fs, fs[1:]):
        probe.append(a + 0.37 * (b - a))
    probe += [fs[0] - 1.5, fs[-1] + 2.]
    ask = probe + fs[::-1]
    got = {}
    for f in ask:
        got[f] = np.array(o.getS(f * s))
    lst = np.array(o.getS([f * s for f in ask]))
    lz = np.array(o.getS(np.array([f * 1e-3 for f in ask]), funit='GHz', Zbase=33.))
    Zn = t.Zb * 1.002
    ln = np.array(o.getS([f * s for f in ask], Zbase=Zn))
    for k, f in enumerate(ask):
        R = t.at(f)
        tol = 1e-12 if f in t.d else 1e-7
        if not close(got[f], R, max(tol, 1e-9)):
            raise Violation(f'{w}: getS({f} MHz) is\n{np.round(got[f], 6)}\nexpected\n{np.round(R, 6)}')
        if not close(lst[k], R, 1e-9):
            raise Violation(f'{w}: getS of a list at {f} MHz is\n{np.round(lst[k], 6)}\nexpected\n{np.round(R, 6)}')
        if not close(lz[k], renorm(R, t.Zb, 33.), 1e-6):
            raise Violation(f'{w}: getS on 33 Ohm at {f} MHz is\n{np.round(lz[k], 6)}')
        if not close(ln[k], renorm(R, t.Zb, Zn), 1e-6):
            raise Violation(f'{w}: getS on {Zn} Ohm at {f} MHz is\n{np.round(ln[k], 6)}')
    if sorted(np.round(np.array(o.fs) / s, 6).tolist()) != [round(f, 6) for f in fs]:
        raise Violation(f'{w}: frequencies {o.fs}, expected {fs} MHz')
    seen = 0
    for i, (f, S) in enumerate(o):
        fr = min(t.d, key=lambda x: abs(x * s - f))
        if not close(S, t.d[fr], 1e-9) or not close(o[i][1], t.d[fr], 1e-9) or o[i][0] != f:
            raise Violation(f'{w}: item {i} ({f}) is not the stored matrix')
        seen += 1
    if seen != len(fs):
        raise Violation(f'{w}: iterates over {seen} items, expected {len(fs)}')
    if t.zc is None:
        if len(o.Zcs) or len(o.Gms):
            raise Violation(f'{w}: port impedances {o.Zcs}, {o.Gms}, none are known')
    else:
        for q, a in ((t.zc, o.Zcs), (t.gm, o.Gms)):
            if np.shape(a) != (len(fs), t.n):
                raise Violation(f'{w}: port impedances or gammas {a} for {len(fs)} frequencies')
            for f, r in q.items():
                i = int(np.argmin(np.abs(np.array(o.fs) - f * s)))
                if not close(a[i], r, 1e-9):
                    raise Violation(f'{w}: port impedances or gammas at {f} MHz {a[i]}, expected {r}')
    E = {p: [1., .5j, -.3][i] for i, p in enumerate(sorted(t.ports))}
    a = np.array([E[p] for p in t.ports])
    f = probe[0]
    v = o.maxV(f * s, E)[0]
    vr = np.max(np.abs(a + t.at(f) @ a))
    if abs(v - vr) > 1e-7 * max(1, vr):
        raise Violation(f'{w}: maxV {v}, expected {vr}')
    st.checks += 1
    st.state(rnd([t.d[f] for f in fs]), tuple(fs), tuple(t.ports), t.Zb)
    st.outcome(rnd([t.d[f] for f in fs], 3))


STARTS = {
    # n, ports, unit, interp, kind, initial operations
    'empty2': (2, ['b', 'a'], 'Hz', 'MA', 3, []),
    'unsorted3': (3, ['c', 'a', 'b'], 'MHz', 'MA', 3, [('set', 2, 3), ('set', 0, 4), ('set', 1, 5)]),
    'full2': (2, ['q', 'p'], 'kHz', 'RI', 3, [('sets', (0, 1, 2, 3), (1, 2, 3, 4))]),
    'linear1': (1, ['x'], 'GHz', 'dB', 1, [('sets', (3, 0), (1, 2)), ('set', 2, 6)]),
    'noports': (2, None, 'Hz', 'MA', 3, [('set', 0, 3)]),
    'six2': (2, ['z', 'y'], 'MHz', 'MA', 3, [('sets', (5, 3, 1), (1, 2, 3)), ('sets', (4, 2, 0), (6, 7, 8))]),
    'hfss2': (2, ['z', 'y'], 'MHz', 'MA', 3, [('readz', (2, 0, 4), 5)]),
    'hfss3': (3, ['z', 'x', 'y'], 'Hz', 'RI', 3, [('readz', (2, 0, 4), 5), ('set', 3, 4)]),
    'quad2': (2, ['z', 'y'], 'MHz', 'RI', 2, [('sets', (5, 3, 1), (1, 2, 3)), ('sets', (4, 2, 0), (6, 7, 8))]),
}


def histories(name, tier):
    full = ('empty2', 'unsorted3')
    d = (3 if name in full else 2) if tier == 'quick' else (4 if name in full else 3)
    ne = len(MENU) - NEVAL
    for n in range(0, d + 1):
        for seq in itertools.product(range(len(MENU)), repeat=n):
            if n > 2 and (seq[-1] >= ne or any(a >= ne and b >= ne for a, b in zip(seq, seq[1:]))):
                continue               # the observation follows; two evaluations in a row: length 2
            yield seq


def start(name):
    import pyRFtk as rf
    n, ports, unit, interp, kind, init = STARTS[name]
    kw = {}
    xpos = [.3 * i + .1 for i in range(n)]
    if ports:
        kw.update(ports=list(ports), xpos=list(xpos))
    else:
        xpos = [0.] * n
    if kind != 3:
        kw['interpkws'] = {'kind': kind, 'fill_value': 'extrapolate'}
    if interp != 'MA':
        kw['interp'] = interp
    if unit != 'Hz':
        kw['funit'] = unit
    o = rf.rfObject(Zbase=50., **kw)
    t = Tab(n, list(ports or [f'{k:02d}' for k in range(n)]), 50., xpos, interp, kind)
    for op in init:
        model_apply(t, op, o, unit)
        real_apply(o, op, t, unit, n)
    return o, t, unit


def chk(name):
    def check(seq, st):
        o, t, unit = start(name)
        done = []
        for i in seq:
            op = MENU[i]
            if not possible(t, op):
                continue
            if op[0] == 'item' and len(o.fs) <= max(op[1], 0):
                continue
            tt = copy.deepcopy(t)
            model_apply(t, op, o, unit)
            real_apply(o, op, tt, unit, t.n)
            done.append(op)
            st.transitions += 1
            if len(o.fs) != len(t.d):
                raise Violation(f'{name} after {done}: {len(o.fs)} frequencies, expected {len(t.d)}')
        if t.d:
            observe(o, t, unit, st, f'{name} after {done}')
        else:
            if len(o.fs) or list(o.ports) != t.ports:
                raise Violation(f'{name} after {done}: not empty')
            st.checks += 1
    return check


# --- all orders in which the data can come, in one or several calls
def arrivals(tier):
    n = 4 if tier == 'quick' else 5
    for perm in itertools.permutations(range(n)):
        for cuts in itertools.product((0, 1), repeat=n - 1):
            for interp, kind in (('MA', 3), ('RI', 1), ('dB', 2)):
                for ev in (0, 1):
                    yield (perm, cuts, interp, kind, ev)


def chk_arr(case, st):
    import pyRFtk as rf
    perm, cuts, interp, kind, ev = case
    o = rf.rfObject(ports=['b', 'a'], Zbase=50., interp=interp, interpkws={'kind': kind, 'fill_value': 'extrapolate'})
    t = Tab(2, ['b', 'a'], 50., [0., 0.], interp, kind)
    groups = [[perm[0]]]
    for p, c in zip(perm[1:], cuts):
        groups.append([p]) if c else groups[-1].append(p)
    for g in groups:
        if len(g) == 1:
            o.setS(F[g[0]] * 1e6, mat(g[0] + 1, 2))
        else:
            o.setS([F[i] * 1e6 for i in g], np.array([mat(i + 1, 2) for i in g]))
        for i in g:
            t.d[F[i]] = mat(i + 1, 2)
        st.transitions += 1
        if ev:
            o.getS(44e6)
    observe(o, t, 'Hz', st, f'{case}')


# --- equality and comparison of two histories that end in the same table
# --- a line that is given by a table
def lines(tier):
    for fmt in ('MA', 'DB', 'RI'):
        for m in range(1, 6 if tier == 'quick' else 7):
            for sel in itertools.combinations(range(6), m):
                for par in ('S', 'Z') if tier == 'quick' else ('S', 'Z', 'Y'):
                    for z in (None, 20.):
                        for src in ('text', 'file', 'copy', 'ct'):
                            yield fmt, sel, par, z, src


def chk_line(case, st):
    import pyRFtk as rf
    import os
    fmt, sel, par, z, src = case
    Zb = 35.
    # phases that wander over more than a turn and differ a lot between the elements
    fs = [F[i] for i in sel]
    tab = []
    for f in fs:
        th = 2 * np.pi * f / 40.
        S = np.array([[.5 * np.exp(2.9j - .6j * th), .7 * np.exp(-1j * th)],
                      [.6 * np.exp(2.1j - 1j * th), .4 * np.exp(-3j + .3j * th)]])
        tab.append(S)
    rows = []
    for f, S in zip(fs, tab):
        if par != 'S':
            S = tsf.s2z(S, Zb)
            S = np.linalg.inv(S) if par == 'Y' else S
        rows.append(f'{f} ' + ' '.join(pair(x, fmt) for x in S.T.flat))
    txt = f'# MHz {par} {fmt} R {Zb}\n' + '\n'.join(rows) + '\n'
    if src == 'file':
        with open('line.s2p', 'w') as fh:
            fh.write(txt)
    kw = dict(Zbase=Zb, L=1.2, ports=['a', 'b'])
    o = rf.rfTRL(sNp='line.s2p' if src == 'file' else txt, **kw)
    if src == 'file':
        os.remove('line.s2p')
    if src == 'ct':
        c = rf.rfCircuit(Zbase=Zb, Portnames=['l.b', 'l.a'])
        c.addblock('l', o)
        o = c
    elif src == 'copy':
        o = o.copy()
    t = Tab(2, ['a', 'b'], Zb, [0, 0], {'DB': 'dB'}.get(fmt, fmt), 3)
    t.d = dict(zip(fs, tab))
    ask = list(fs)
    if len(fs) > 1:
        ask += [fs[0] + (fs[1] - fs[0]) / 3, (fs[-1] + 2 * fs[-2]) / 3]
    R_ = []
    for f in ask:
        R_.append(t.at(f))
        if z:
            R_[-1] = renorm(R_[-1], Zb, z)
        if src == 'ct':
            R_[-1] = R_[-1][::-1, ::-1]
    kw = {'Zbase': z} if z else {}
    G = [o.getS(f * 1e6, **kw) for f in ask]
    for f, g, r in zip(ask, G, R_):
        if not close(g, r, 1e-7):
            raise Violation(f'line with a table ({case}) at {f} MHz: {g} expected {r}')
        st.checks += 1
        st.transitions += 1
        st.state(rnd(r))
        st.outcome(rnd(r, 3))
    G = o.getS([f * 1e6 for f in ask[::-1]], **kw)
    if not close(G, np.array(R_[::-1]), 1e-7):
        raise Violation(f'line with a table ({case}) at {ask[::-1]} MHz: {G} expected {R_[::-1]}')


# --- frequencies that are nearly the same
NEAR = [40e6, float(np.nextafter(40e6, 1e9)), 40e6 + 1e-3, 40e6 * (1 + 1e-7), 40e6 * (1 + 3e-6), 40e6 + 1e3, 40e6 * (1 - 2e-6)]


def near_cases(tier):
    m = 3 if tier == 'quick' else 4
    for n in range(1, m + 1):
        for seq in itertools.permutations(range(len(NEAR)), n):
            for how in ('set', 'sets', 'item', 'read', 'over'):
                for unit in ('Hz', 'MHz') if n < 3 or tier != 'quick' else ('Hz',):
                    if how == 'over' and n < 2:
                        continue
                    yield [list(seq), how, unit]


def chk_near(case, st):
    import pyRFtk as rf
    seq, how, unit = case
    fs = [NEAR[i] / U[unit] for i in seq]
    D = {f: mat(i + 1, 2) for i, f in zip(seq, fs)}
    if len(D) < len(fs):
        st.skipped += 1                                    # the same number in this unit
        return
    o = rf.rfObject(ports=['b', 'a'], Zbase=50., funit=unit, interpkws={'kind': 1, 'fill_value': 'extrapolate'})
    if how in ('set', 'over'):
        for f in fs:
            o.setS(f, D[f])
        if how == 'over':                                  # the data of the first once more
            D[fs[0]] = mat(20, 2)
            o.setS(fs[0], D[fs[0]])
    elif how == 'sets':
        o.setS(fs, np.array([D[f] for f in fs]))
    elif how == 'item':
        o.setS([(1 + k) * 1e6 / U[unit] for k in range(len(fs))], [mat(30 + k, 2) for k in range(len(fs))])
        for k, f in enumerate(fs):
            o[k] = f, D[f]
    else:
        o.read_tsf(f'# {unit} S RI R 50\n' + ''.join(
            f'{f!r} ' + ' '.join(pair(z, 'RI') for z in D[f].T.flat) + '\n' for f in fs))
    w = f'frequencies {fs} {unit} ({how})'
    if len(o.fs) != len(fs) or sorted(o.fs) != sorted(fs):
        raise Violation(f'{w}: {list(o.fs)} are stored')
    st.transitions += len(fs)
    for ask in (fs, fs[::-1], sorted(fs)):
        for f in ask:
            if not close(o.getS(f), D[f], 1e-9):
                raise Violation(f'{w}: getS({f!r}) is {o.getS(f)} expected {D[f]}')
        if not close(o.getS(ask), [D[f] for f in ask], 1e-9):
            raise Violation(f'{w}: getS({ask!r}) is {o.getS(ask)}')
        st.checks += 2
    for k, (f, S) in enumerate(o):
        if not close(S, D[float(f)], 1e-9):
            raise Violation(f'{w}: item {k} is {S}')
    f = sorted(fs)
    for a, b in zip(f, f[1:]):
        x = a + (b - a) / 2
        if a < x < b:
            r = (x - a) / (b - a)
            A = [np.angle(D[q]) for q in f]
            for i in range(1, len(A)):
                A[i] = A[i] - 2 * np.pi * np.round((A[i] - A[i - 1]) / (2 * np.pi))
            i = f.index(a)
            R = ((1 - r) * np.abs(D[a]) + r * np.abs(D[b])) * np.exp(1j * ((1 - r) * A[i] + r * A[i + 1]))
            if not close(o.getS(x), R, 1e-6):
                raise Violation(f'{w}: between {a!r} and {b!r} getS is {o.getS(x)} expected {R}')
            st.checks += 1
    st.state(tuple(seq), how)
    st.outcome(rnd([D[q] for q in f], 3))


# --- defaults of the library that are changed
def defaults(tier):
    for Zb in (50, 75.):
        for unit in ('Hz', 'MHz'):
            for interp in ('MA', 'RI', 'dB'):
                for kind in (3, 1):
                    for n in range(3):
                        for given in itertools.combinations(('Zbase', 'funit', 'interp', 'interpkws'), n):
                            for when in ('before', 'after'):
                                yield [Zb, unit, interp, kind, list(given), when]


def chk_defaults(case, st):
    import pyRFtk as rf
    from pyRFtk.config import rcparams
    Zb, unit, interp, kind, given, when = case
    new = dict(Zbase=Zb, funit=unit, interp=interp, interpkws={'kind': kind, 'fill_value': 'extrapolate'})
    kw = {k: {'Zbase': 33., 'funit': 'kHz', 'interp': 'RI', 'interpkws': {'kind': 2, 'fill_value': 'extrapolate'}}[k]
          for k in given}
    old = copy.deepcopy(dict(rcparams))
    try:
        if when == 'before':
            rcparams.update(copy.deepcopy(new))
        o = rf.rfObject(ports=['b', 'a'], xpos=[0., 1.], **kw)
        if when == 'after':                            # (is made with the old ones)
            rcparams.update(copy.deepcopy(new))
            new = old
        u = dict(new, **kw)
        t = Tab(2, ['b', 'a'], float(u['Zbase']), [0., 1.], u['interp'], u['interpkws']['kind'])
        for op in (('sets', (3, 1, 4), (1, 2, 3)), ('set', 0, 4), ('set', 2, 6)):
            model_apply(t, op, o, u['funit'])
            real_apply(o, op, t, u['funit'], 2)
            st.transitions += 1
        observe(o, t, u['funit'], st, f'{case}')
        if rcparams != (dict(old, **new) if when == 'before' else dict(old, Zbase=Zb, funit=unit, interp=interp,
                        interpkws={'kind': kind, 'fill_value': 'extrapolate'})):
            raise Violation(f'{case}: the defaults became {rcparams}')
    finally:
        rcparams.clear()
        rcparams.update(old)


def families(tier):
    return [Family(f'histories-{k}', (lambda k=k: histories(k, tier)), chk(k),
                   f'all operation sequences of a menu of {len(MENU)} operations (length 2; 3 for the first two '
                   'starts; one more in the thorough tier)') for k in STARTS] + [
        Family('arrivals', lambda: arrivals(tier), chk_arr,
               'all orders and groupings of 4 (thorough 5) frequencies x 3 interpolations'),
        Family('lines', lambda: lines(tier), chk_line,
               'rfTRL given by a table: 3 formats x all choices of at most 5 of 6 frequencies x S/Z x impedances x '
               'text, file, copy or block of a circuit; at the frequencies of the table and in between'),
        Family('defaults', lambda: defaults(tier), chk_defaults,
               '24 sets of defaults x <= 2 explicit settings, changed before or after the object is made'),
        Family('near', lambda: near_cases(tier), chk_near,
               'all ordered choices of at most 3 (4) of 7 frequencies between 1 ulp and 1 kHz apart x 5 ways of storing x units')]
