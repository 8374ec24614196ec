"""C11: lines obey the telegraphist equations.

Exhaustive enumeration of lines x forms of the parameters x frequencies x step
settings x reference impedances, and of all short histories of calls on one line.
Reference: product of matrix exponentials of fine sections (Magnus, with the
breakpoints of the parameters as section boundaries).
"""
import itertools, math
import numpy as np
from .engine import Family, Violation
from .ref import rnd, close
from .tsf import renorm

PROP = 'C11'
ASSUME = ['the attenuation of a line with varying parameters is at most 30 Np, and it has at most 40 wavelengths',
          'position dependent parameters are continuous and piecewise smooth',
          'dx is a positive int or a non-zero float']
INF = float('inf')
FR = [0., 1e3, 35e6, 47.3e6, 220e6]

# uniform lines: L, C, R, G per m
UNI = {
    'vac50': (50 / 299792458., 1 / (50 * 299792458.), 0., 0.),
    'z30': (1.3e-7, 1.45e-10, 0., 0.),
    'r': (2.5e-7, 1.0e-10, 3.0, 0.),
    'g': (2.5e-7, 1.0e-10, 0., 4e-4),
    'rg': (3.1e-7, 0.8e-10, 1.5, 2e-3),
    'heavy': (3.1e-7, 0.8e-10, 60., 8e-3),
    'lowr': (2.5e-7, 1.0e-10, 3e-3, 0.),
    'lowg': (2.5e-7, 1.0e-10, 0., 4e-8),
    'lowrg': (1.3e-7, 1.45e-10, 2e-4, 3e-6),
    'mixed': (1.3e-7, 1.45e-10, 2e-6, 3e-2),
}


def real(L, par, Zb=50., dx=None, **kw):
    import pyRFtk as rf
    if dx is not None:
        kw['dx'] = np.int64(dx[2:]) if isinstance(dx, str) else dx
    return rf.rfTRL(L=L, Zbase=Zb, **par, **kw)


def mexp(A):
    """exp of a 2x2 matrix without trace"""
    s = np.sqrt(A[0, 0] ** 2 + A[0, 1] * A[1, 0] + 0j)
    c, sh = np.cosh(s), (np.sinh(s) / s if abs(s) > 1e-8 else 1 + s * s / 6)
    return c * np.eye(2) + sh * A


def tmat(zy, L, brk=(), n=240, pts=None):
    """(V, I)(x) = M(x) (V, I)(0) for dV/dx = z I, dI/dx = y V; M at the points pts"""
    xs = sorted({0., float(L), *[b for b in brk if 0 < b < L], *([] if pts is None else map(float, pts))})
    M = {0.: np.eye(2, dtype=complex)}
    cur = np.eye(2, dtype=complex)
    sq = math.sqrt(3) / 6
    for a, b in zip(xs[:-1], xs[1:]):
        m = max(1, int(math.ceil(n * (b - a) / L)))
        h = (b - a) / m
        for k in range(m):                    # 4th order Magnus, Gauss points
            A = []
            for g in (.5 - sq, .5 + sq):
                z, y = zy(a + (k + g) * h)
                A.append(np.array([[0, z], [y, 0]], dtype=complex))
            O = h / 2 * (A[0] + A[1]) + math.sqrt(3) / 12 * h * h * (A[1] @ A[0] - A[0] @ A[1])
            cur = mexp(O) @ cur
        M[b] = cur
    return M


def smatrix(M, Z):
    P = np.array([[M[0, 0], -1], [M[1, 0], 0]])
    Q = np.array([[-M[0, 1], 0], [-M[1, 1], -1]])
    return -np.linalg.solve(P - Q / Z, P + Q / Z)


def uni(par, f):
    l, c, r, g = par
    w = 2 * math.pi * f
    return r + 1j * w * l, g + 1j * w * c


def prof(M, V0, I0):
    return M @ np.array([V0, I0])


def cmpS(G, R, what, tol=1e-7):
    if not close(G, R, tol):
        raise Violation(f'{what} is\n{np.round(G, 7)}\nexpected\n{np.round(R, 7)}')


# ----------------------------------------------------------- 1. uniform lines
DXS = [72, 5, 0.1, -0.3, 50., 1000, 'np72']
LS = [0., 1e-4, 0.35, 1.7, 9.3]


def uniform_cases(tier):
    Ls = LS + ([2.9, 25.] if tier == 'thorough' else [])
    fr = FR + ([1., 88e6] if tier == 'thorough' else [])
    for nm, L, Zb, dx in itertools.product(UNI, Ls, (50., 17., 120.), DXS):
        for f in fr:
            yield [nm, L, Zb, dx, f]


def uniform(case, st):
    nm, L, Zb, dx, f = case
    par = UNI[nm]
    z, y = uni(par, f)
    g = np.sqrt(z * y)
    if (g * L).real > 30 or (g * L).imag > 250:
        st.skipped += 1
        return
    o = real(L, dict(LTL=par[0], CTL=par[1], rTL=par[2], gTL=par[3]), Zb, dx)

    def T(x):
        return mexp(np.array([[0, z], [y, 0]], dtype=complex) * x)
    M = T(L)
    S = smatrix(M, Zb)
    cmpS(o.getS(f), S, f'getS({f})')
    for Z in (Zb, 33., Zb * .998):
        cmpS(o.getS(f, Zbase=Z), smatrix(M, Z), f'getS({f}, Zbase={Z})')
    if par[2] == par[3] == 0:
        cmpS(o.getS(f).conj().T @ o.getS(f), np.eye(2), 'S^H S of a lossless line')
    st.transitions += 4
    line_profiles(o, f, L, T, Zb, dx, 2 * math.pi / g.imag if g.imag > 0 else INF, st)
    st.state(nm, L, Zb, f, dx)
    st.outcome(rnd(S, 4))


def line_profiles(o, f, L, T, Zb, dx, lam, st, tol=1e-7):
    xs = None
    dx = int(dx[2:]) if isinstance(dx, str) else dx
    for V0, I0 in ((1., 0.), (0., 1.), (0.3 - 0.4j, 0.02 + 0.01j), (None, 0.03j), (2j, None)):
        xs, V, I = o.solveVI(f, V0, I0)
        xs = np.asarray(xs, dtype=float)
        if len(xs) < 2 or abs(xs[0]) > 1e-12 or abs(xs[-1] - L) > 1e-9 or np.any(np.diff(xs) < 0):
            raise Violation(f'solveVI at {f}: positions {xs} do not run from 0 to {L}')
        R = np.array([prof(T(x), V0 or 0., I0 or 0.) for x in (xs if len(xs) < 12 else xs[::len(xs) // 9])])
        G = np.array([V, I]).T[::1 if len(xs) < 12 else len(xs) // 9]
        sc = np.max(np.abs(R * [1, 50]))
        if not np.all(np.isfinite(G)) or np.max(np.abs((G - R) * [1, 50])) > tol * 100 * sc:
            raise Violation(f'solveVI({f}, {V0}, {I0}) is {G[-1]} at the end, expected {R[-1]}\n{G}\n{R}')
        st.checks += 1
    step = lam / dx if isinstance(dx, int) else abs(dx)
    if L and np.max(np.diff(xs)) > 2.01 * min(step, L):
        raise Violation(f'step of {np.max(np.diff(xs))} for dx={dx}, wavelength {lam}')
    # waves -> profiles
    for Z in (None, 28.):
        E = {o.ports[0]: 0.7 - 0.2j, o.ports[1]: -0.4j}
        x2, (V, I, _) = o.VISWs(f, dict(E), Z)
        Zr = Z or Zb
        S = smatrix(T(L), Zr)
        a = np.array([E[p] for p in o.ports])
        b = S @ a
        v, i = a + b, (a - b) / Zr
        for k, j in ((0, 0), (-1, 1)):
            if abs(V[k] - v[j]) > tol * 1e2 or abs(I[k] - (-i[0], i[1])[j]) * 50 > tol * 1e2:
                raise Violation(f'VISWs({f}, {E}, {Z}): V, I at end {j} {V[k]} {I[k]}, expected {v[j]} {i[j]}')
        vm, where, (x3, U) = o.maxV(f, dict(E), Z)
        if np.max(np.abs(U - np.abs(V))) > 1e-12 or vm < np.max(U) * (1 - 1e-9):
            raise Violation(f'maxV({f}, {E}, {Z}) does not match the standing wave')
        st.checks += 1
        st.transitions += 2


# ----------------------------------------------------------- 1b. how much is left at the other end
HEAVY = {'r': (2.5e-7, 1.0e-10, 40., 0.), 'g': (2.5e-7, 1.0e-10, 0., .1), 'rg': (3.1e-7, 0.8e-10, 25., 2e-2),
         'rc': (0., 1.0e-10, 70., 0.), 'dc': (2.5e-7, 1.0e-10, 9., 8e-3), 'over': (1e-9, 1e-13, 50., 9e-2),
         'lossless': (2.5e-7, 1.0e-10, 0., 0.)}
NP = [1e-8, 1e-3, 1., 12., 19., 26., 40., 80., 340., 800., 5e3]


def atten_cases(tier):
    nps = NP if tier == 'quick' else NP + [1e-5, .1, 5., 16., 22., 30., 36., 55., 150., 360., 700., 720., 1.5e3, 1e5]
    for nm, a, f, Zb, dx in itertools.product(HEAVY, nps, (0., 1e3, 35e6, 220e6) if tier == 'quick' else
                                              (0., 10., 1e3, 1e5, 12e6, 35e6, 220e6), (50., 13.), (0., 'third', 'L')):
        yield [nm, a, f, Zb, dx]


def atten(case, st):
    import pyRFtk as rf
    nm, a, f, Zb, dx = case
    par = HEAVY[nm]
    z, y = uni(par, f)
    g = np.sqrt(z * y + 0j)
    if abs(g) == 0:
        st.skipped += 1
        return
    L = a / max(g.real, 1e-2 * g.imag)
    if g.imag * L > 2e5 or L > 1e7:
        st.skipped += 1
        return
    kw = dict(LTL=par[0], CTL=par[1], rTL=par[2], gTL=par[3])
    o = real(L, kw, Zb, {0.: L / 40, 'third': L / 3, 'L': L}[dx])
    zc = z / g

    def ref(Z):
        rho, T = (zc - Z) / (zc + Z), np.exp(-g * L)
        d = 1 - (rho * T) ** 2
        return np.array([[-rho * np.expm1(-2 * g * L), T * (1 - rho ** 2)], [T * (1 - rho ** 2), -rho * np.expm1(-2 * g * L)]]) / d
    # (the electrical length itself is rounded)
    tol = 1e-9 + 1e-14 * abs(g) * L
    with np.errstate(all='ignore'):
        for Z in (Zb, 33., Zb):
            G, R = o.getS(f, Zbase=Z), ref(Z)
            if not np.all(np.isfinite(G)) or np.max(np.abs(G - R)) > tol:
                raise Violation(f'line of {a} Np (or % rad) at {f}: getS(Zbase={Z}) is\n{G}\nexpected\n{R}')
        for E in ({'1': 1., '2': 0.}, {'1': 0., '2': 1j}, {'1': .4 - .3j, '2': 1.}):
            for Z in (None, 28.):
                xs, (V, I, _) = o.VISWs(f, dict(E), Z)
                A = np.array([E['1'], E['2']])
                B = ref(Z or Zb) @ A
                v, i = A + B, (A - B) / (Z or Zb)
                # the waves that leave both ends, dV/dx = -z I with I in the direction of x, given here against it
                p, q = (v[0] + zc * i[0]) / 2 * np.exp(-g * xs), (v[1] + zc * i[1]) / 2 * np.exp(-g * (L - xs))
                sc = max(1., abs(zc) / 50, 50 / abs(zc))
                if not (np.all(np.isfinite(V)) and np.all(np.isfinite(I))) or np.max(np.abs(V - p - q)) > 1e2 * tol * sc \
                        or 50 * np.max(np.abs(I - (q - p) / zc)) > 1e2 * tol * sc:
                    raise Violation(f'line of {a} Np (or % rad) at {f}: standing wave for {E} on {Z} is {V}, {I}, '
                                    f'expected {p + q}, {(q - p) / zc}')
                vm, _, _ = o.maxV(f, dict(E), Z)
                if not max(abs(p + q)) * (1 - 1e-6) - 1e2 * tol * sc <= vm:
                    raise Violation(f'line of {a} Np (or % rad) at {f}: maxV {vm} < {max(abs(p + q))}')
                st.transitions += 2
        C = rf.rfCircuit(Zbase=Zb)
        C.addblock('t', o, ['a', 'b'])
        C.terminate('t.b', RC=.5j)
        G, R = C.getS(f, Zbase=Zb), ref(Zb)
        w = R[0, 0] + R[0, 1] * R[1, 0] * .5j / (1 - .5j * R[1, 1])
        if not abs(G[0, 0] - w) <= 1e2 * tol:
            raise Violation(f'line of {a} Np (or % rad) at {f}, terminated: {G}, expected {w}')
    st.checks += 8
    st.transitions += 4
    st.state(*case)
    st.outcome(rnd(ref(Zb), 4))


# ----------------------------------------------------------- 2. forms of constant parameters
def forms(v, L):
    return {
        'num': v,
        'npnum': np.float64(v),
        'list1': [v],
        'list2': [v, v],
        'arr3': np.array([v, v, v]),
        '2d': [[0., L or 1.], [v, v]],
        '2dout': [[-1., 0.2 * L, L + 3.], [v, v, v]],
        'fwx': lambda w, x: v,
        'fxw': lambda x, w: v,
        'fw': lambda w: v,
        'fx': lambda x: v,
        'f': lambda: v,
    }


FORMS = list(forms(1., 1.))
QUANT = ['LTL', 'CTL', 'rTL', 'gTL', 'Z0TL', 'vr', 'A', 'AdB']


def form_cases(tier):
    base = {'lcrg': dict(LTL=2.5e-7, CTL=1e-10, rTL=1.2, gTL=3e-4),
            'z': dict(Z0TL=35., vr=0.8),
            'za': dict(Z0TL=35., A=0.02),
            'zd': dict(Z0TL=35., vr=0.7, AdB=0.1)}
    for L in (0., 1.3):
        for f in (0., 35e6) if tier == 'quick' else (0., 35e6, 60e6):
            for nm, b in base.items():
                if f == 0 and nm[0] == 'z' and len(nm) > 1:
                    continue                    # an attenuation has no meaning at f = 0
                for q in b:
                    for fm in FORMS:
                        yield [b, {q: fm}, L, f, 72]
                for q1, q2 in itertools.combinations(b, 2):
                    for f1, f2 in itertools.product(('list2', '2d', 'fxw', 'fw', 'f', 'list1'), repeat=2):
                        yield [b, {q1: f1, q2: f2}, L, f, 0.2]
                for fm in FORMS:
                    for dx in DXS:
                        yield [b, {q: fm for q in b}, L, f, dx]


def form(case, st):
    b, fm, L, f, dx = case
    p = {q: (forms(v, L)[fm[q]] if q in fm else v) for q, v in b.items()}
    o = real(L, p, 40., dx)
    w = 2 * math.pi * f
    if 'LTL' in b:
        z, y = uni((b['LTL'], b['CTL'], b['rTL'], b['gTL']), f)
    else:
        z0, vr = b['Z0TL'], b.get('vr', 1.)
        l, c = z0 / (299792458. * vr), 1 / (z0 * 299792458. * vr)
        a = b.get('A', b.get('AdB', 0.) * math.log(10) / 20)
        # (r + jwl)(jwc) = (a + jb)^2
        r = 2 * a * math.sqrt(a * a + w * w * l * c) / (w * c) if a else 0.
        z, y = r + 1j * w * l, 1j * w * c
    g = np.sqrt(z * y)

    def T(x):
        return mexp(np.array([[0, z], [y, 0]], dtype=complex) * x)
    S = smatrix(T(L), 40.)
    cmpS(o.getS(f), S, f'getS({f})', 1e-6)
    cmpS(o.getS([f, f], Zbase=70.), [smatrix(T(L), 70.)] * 2, f'getS([{f}], 70)', 1e-6)
    st.transitions += 2
    line_profiles(o, f, L, T, 40., dx, 2 * math.pi / g.imag if g.imag > 0 else INF, st, 1e-6)
    st.state(str(b), str(fm), L, f, dx)
    st.outcome(rnd(S, 4), str(fm))


# ----------------------------------------------------------- 3. varying parameters
def lin(x, y):
    return lambda p: float(np.interp(p, x, y))


def variants(L):
    """name -> (parameters, function of (f, x) giving z, y; breakpoints)"""
    u = 1 / 299792458.
    v = {}

    def zc(Z, vr, r=lambda f, x: 0., g=lambda f, x: 0.):
        return lambda f, x: (r(f, x) + 2j * math.pi * f * Z(f, x) / vr(f, x) * u,
                             g(f, x) + 2j * math.pi * f / (Z(f, x) * vr(f, x)) * u)
    one = lambda f, x: 1.
    t = lin([0, L], [30, 80])
    v['taper'] = dict(Z0TL=[30., 80.]), zc(lambda f, x: t(x), one), ()
    t3 = lin([0, L / 2, L], [30, 90, 45])
    v['taper3'] = dict(Z0TL=(30., 90., 45.)), zc(lambda f, x: t3(x), one), (L / 2,)
    n = [0.1 * L, 0.4 * L, 0.9 * L]
    tn = lin(n, [25., 60., 40.])
    v['nodes-in'] = dict(Z0TL=[n, [25., 60., 40.]]), zc(lambda f, x: tn(x), one), n
    no = [-0.5 * L, 0.3 * L, 2 * L]
    to = lin(no, [25., 60., 40.])
    v['nodes-out'] = dict(Z0TL=np.array([no, [25., 60., 40.]])), zc(lambda f, x: to(x), one), no
    v['two'] = (dict(Z0TL=[30., 80.], vr=[n, [1., .6, .8]]),
                zc(lambda f, x: t(x), lambda f, x: float(np.interp(x, n, [1., .6, .8]))), n)
    v['fx'] = (dict(Z0TL=lambda x: 40 + 20 * np.sin(2 * x), vr=0.9),
               zc(lambda f, x: 40 + 20 * math.sin(2 * x), lambda f, x: .9), ())
    v['fxw'] = (dict(Z0TL=lambda x, w: 40 + 9 * x + w / 2 / np.pi / 1e7, rTL=2.),
                zc(lambda f, x: 40 + 9 * x + f / 1e7, one, lambda f, x: 2.), ())
    v['fwx'] = (dict(LTL=lambda w, x: 2e-7 * (1 + .1 * x), CTL=1e-10, rTL=lambda w: 1e-4 * np.sqrt(w),
                     gTL=[0., 2e-3]),
                lambda f, x: (1e-4 * math.sqrt(2 * math.pi * f) + 2j * math.pi * f * 2e-7 * (1 + .1 * x),
                              2e-3 * x / L + 2j * math.pi * f * 1e-10), ())
    v['fw'] = (dict(Z0TL=lambda w: 50 + w / 2 / np.pi / 1e7, rTL=lambda w: 1e-4 * np.sqrt(w)),
               zc(lambda f, x: 50 + f / 1e7, one, lambda f, x: 1e-4 * math.sqrt(2 * math.pi * f)), ())
    v['r-taper'] = (dict(LTL=2.5e-7, CTL=1e-10, rTL=[0., 30.], gTL=[1e-3, 0.]),
                    lambda f, x: (30. * x / L + 2j * math.pi * f * 2.5e-7,
                                  1e-3 * (1 - x / L) + 2j * math.pi * f * 1e-10), ())
    v['coax'] = (dict(OD=[0.1, 0.2], ID=[0.05, 0.06]),
                 zc(lambda f, x: 59.95849160 * math.log(np.interp(x, [0, L], [.1, .2]) /
                                                       np.interp(x, [0, L], [.05, .06])), one), ())
    return v


def vary_cases(tier):
    Ls = (0.4, 1.9) if tier == 'quick' else (0.05, 0.4, 1.9, 7.)
    for L in Ls:
        for nm in variants(L):
            for f in (0., 35e6, 61e6) if tier == 'quick' else FR[:4]:
                for dx in (72, 0.1, -0.3, 5):
                    for Zb in (50., 23.):
                        yield [nm, L, f, dx, Zb]


def vary(case, st):
    nm, L, f, dx, Zb = case
    par, zyf, brk = variants(L)[nm]
    o = real(L, par, Zb, dx)
    if f == 0 and nm == 'zz':
        return
    cache = {}

    def T(x):
        x = float(x)
        if x not in cache:
            cache[x] = tmat(lambda p: zyf(f, p), x, brk)[x] if x else np.eye(2, dtype=complex)
        return cache[x]
    S = smatrix(T(L), Zb)
    cmpS(o.getS(f), S, f'getS({f})', 2e-6)
    cmpS(o.getS(f, Zbase=70.), smatrix(T(L), 70.), f'getS({f}, Zbase=70)', 2e-6)
    st.transitions += 2
    st.state(*map(str, case))
    st.outcome(rnd(S, 4))
    V0, I0 = 0.3 - 0.4j, 0.02 + 0.01j
    xs, V, I = o.solveVI(f, V0, I0)
    if abs(xs[0]) > 1e-12 or abs(xs[-1] - L) > 1e-9 or np.any(np.diff(xs) <= 0):
        raise Violation(f'solveVI at {f}: positions {xs} do not run from 0 to {L}')
    for k in {0, len(xs) // 3, len(xs) // 2, len(xs) - 1}:
        r = prof(T(xs[k]), V0, I0)
        if abs(V[k] - r[0]) + 50 * abs(I[k] - r[1]) > 1e-5 * (abs(r[0]) + 50 * abs(r[1])):
            raise Violation(f'solveVI({f}) at x={xs[k]}: {V[k]}, {I[k]} expected {r}')
        st.checks += 1
    # power is lost along the line only in resistance and conductance
    if nm in ('taper', 'taper3', 'nodes-in', 'nodes-out', 'two', 'fx', 'coax'):
        G = o.getS(f)
        cmpS(G.conj().T @ G, np.eye(2), 'S^H S of a lossless line', 1e-6)
    G = o.getS(f)
    if abs(G[0, 1] - G[1, 0]) > 2e-6:
        raise Violation(f'a line is reciprocal, S = {G}')


# ----------------------------------------------------------- 3b. varying lines with losses
def steep_cases(tier):
    for nm in ('taper', 'other', 'fx'):
        for a in (1., 8., 16., 20., 23., 26., 28.) + ((4., 18., 22., 25., 30.) if tier == 'thorough' else ()):
            for f in (0., 35e6):
                for Zb in (50., 12.):
                    yield [nm, a, f, Zb]


def steep(case, st):
    nm, a, f, Zb = case
    L = 2.
    r = {'taper': lambda x: a * 25 * x, 'other': lambda x: a * 25 * (2. - x), 'fx': lambda x: a * 25 * (1 + math.sin(2 * x)) / 2}[nm]
    g = a * .01
    o = real(L, dict(LTL=2.5e-7, CTL=1e-10, gTL=g, rTL={'taper': [0., a * 50], 'other': [a * 50, 0.], 'fx': r}[nm]), Zb, .1)
    w = 2 * math.pi * f
    N = 1200
    S = None
    for k in range(N):         # the waves of the sections combined: nothing grows
        x = (k + .5) * L / N
        s = smatrix(mexp(np.array([[0, r(x) + 1j * w * 2.5e-7], [g + 1j * w * 1e-10, 0]]) * L / N), Zb)
        if S is not None:
            d = 1 - S[1, 1] * s[0, 0]
            s = np.array([[S[0, 0] + S[0, 1] * s[0, 0] * S[1, 0] / d, S[0, 1] * s[0, 1] / d],
                          [s[1, 0] * S[1, 0] / d, s[1, 1] + s[1, 0] * S[1, 1] * s[0, 1] / d]])
        S = s
    G = o.getS(f)
    if not np.all(np.isfinite(G)) or np.max(np.abs(G - S)) > 2e-5:
        raise Violation(f'line with losses that vary along it, {a}: S is\n{G}\nexpected\n{S}')
    st.checks += 1
    st.transitions += 1
    st.state(*case)
    st.outcome(rnd(S, 4), '%.3g' % abs(S[0, 1]))


# ----------------------------------------------------------- 4. sections
def cut_cases(tier):
    grid = [1, 2, 3, 4]                      # fifths of the line
    for nm in list(UNI) + ['taper', 'taper3', 'two', 'fwx', 'r-taper', 'coax']:
        for r in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for cuts in itertools.combinations(grid, r):
                for f in (0., 35e6):
                    for same in (False, True):
                        if same and nm not in UNI:
                            continue
                        yield [nm, list(cuts), f, same]


def cuts(case, st):
    import pyRFtk as rf
    nm, ck, f, same = case
    L = 2.3
    ends = [0.] + [L * k / 5 for k in ck] + [L]
    c = rf.rfCircuit(Zbase=31.)
    if nm in UNI:
        par = UNI[nm]
        z, y = uni(par, f)
        M = mexp(np.array([[0, z], [y, 0]], dtype=complex) * L)
        kw = dict(LTL=par[0], CTL=par[1], rTL=par[2], gTL=par[3])
        one = real(0.77, kw)
    else:
        _, zyf, brk = variants(L)[nm]
        M = tmat(lambda x: zyf(f, x), L, brk)[L]

    def shift(v, a, b):
        if callable(v):
            import inspect
            p = list(inspect.signature(v).parameters)
            if p == ['x']:
                return lambda x: v(x + a)
            if p == ['w', 'x']:
                return lambda w, x: v(w, x + a)
            if p == ['x', 'w']:
                return lambda x, w: v(x + a, w)
            return v
        v = np.array(v)
        if v.ndim == 0:
            return v
        if v.ndim == 1:
            v = np.array([np.linspace(0, L, len(v)), v])
        return [list(v[0] - a), list(v[1])]
    for k, (a, b) in enumerate(zip(ends[:-1], ends[1:])):
        if nm in UNI:
            # one object for all the sections, the lengths are given with the block
            if same:
                c.addblock(f'T{k}', one, relpos=a, params={'L': b - a})
            else:
                c.addblock(f'T{k}', real(b - a, kw, 50 - 9 * k), relpos=a)
        else:
            c.addblock(f'T{k}', real(b - a, {q: shift(v, a, b) for q, v in variants(L)[nm][0].items()},
                                     50 - 9 * k), relpos=a)
        if k:
            c.connect(f'T{k - 1}.2', f'T{k}.1')
        st.transitions += 1
    cmpS(c.getS(f), smatrix(M, 31.), f'cascade of {len(ends) - 1} sections', 5e-6)
    st.checks += 1
    st.state(*map(str, case))
    st.outcome(rnd(c.getS(f), 4), nm)


# ----------------------------------------------------------- 5. histories of one line
OPS = [('S', 35e6), ('S', 0.), ('Sl', 0), ('SZ', 35e6, 20.), ('vi', 35e6), ('sw', 35e6, None), ('sw', 35e6, 20.),
       ('sw', 48e6, None), ('max', 35e6, 20.), ('L', 0.6), ('L', 0.), ('pL', 1.7), ('copy',), ('str',),
       ('Zb', 80.)]
QOPS = [('S', 35e6), ('SZ', 48e6, 77.), ('vi', 35e6), ('sw', 35e6, None), ('sw', 35e6, 77.), ('max', 48e6, None)]


def hist_cases(tier):
    d = 3 if tier == 'quick' else 4
    for nm in ('rg', 'z30'):
        for k in range(d + 1):
            if k > 2 and nm == 'z30' and tier == 'quick':
                continue
            for h in itertools.product(range(len(OPS)), repeat=k):
                yield [nm, list(h)]


def apply(o, op, st, par=None, L=None, Zb=None):
    """runs an operation; with par the result is compared with the reference"""
    k = op[0]
    st.transitions += 1

    def T(f, x):
        z, y = uni(par, f)
        return mexp(np.array([[0, z], [y, 0]], dtype=complex) * x)
    if k == 'S':
        G = o.getS(op[1])
        if par:
            cmpS(G, smatrix(T(op[1], L), Zb), f'getS({op[1]})')
        G *= 0.                                # what is returned belongs to the caller
    elif k == 'Sl':
        o.getS([48e6, 35e6, 48e6])
    elif k == 'SZ':
        G = o.getS(op[1], Zbase=op[2])
        if par:
            cmpS(G, smatrix(T(op[1], L), op[2]), f'getS({op[1]}, Zbase={op[2]})')
    elif k == 'vi':
        xs, V, I = o.solveVI(op[1], 0.5j, 0.01)
        if par:
            r = prof(T(op[1], L), 0.5j, 0.01)
            if abs(xs[-1] - L) > 1e-9 or abs(V[-1] - r[0]) > 1e-7 or abs(I[-1] - r[1]) > 1e-8:
                raise Violation(f'solveVI({op[1]}) ends with {xs[-1]} {V[-1]} {I[-1]}, expected {L} {r}')
        V *= 0
        I *= 0
        xs *= 0
    elif k in ('sw', 'max'):
        E = {'1': 0.7 - 0.2j, '2': -0.4j}
        if k == 'sw':
            xs, (V, I, _) = o.VISWs(op[1], E, op[2])
        else:
            _, _, (xs, V) = o.maxV(op[1], E, op[2])
        if par:
            Z = op[2] or Zb
            S = smatrix(T(op[1], L), Z)
            a = np.array([.7 - .2j, -.4j])
            v = a + S @ a
            if k == 'max':
                v = np.abs(v)
            if abs(V[0] - v[0]) + abs(V[-1] - v[1]) > 1e-7 or abs(xs[-1] - L) > 1e-9:
                raise Violation(f'{op}: end voltages {V[0]}, {V[-1]}, expected {v}')
        V *= 0
        xs *= 0
        E['1'] = 0.
    elif k == 'L':
        o.set(L=op[1])
    elif k == 'pL':
        o.getS(35e6, params={'L': op[1]})
    elif k == 'copy':
        o = o.copy()
    elif k == 'str':
        str(o)
        o.asstr(True)
        len(o)
    elif k == 'Zb':
        o.set(Zbase=op[1])
    return o


def hist(case, st):
    nm, h = case
    par = UNI[nm]
    o = real(1.1, dict(LTL=par[0], CTL=par[1], rTL=par[2], gTL=par[3]), 60., xpos=0.4)
    L, Zb = 1.1, 60.
    for i in h:
        o = apply(o, OPS[i], st)
        if OPS[i][0] in ('L', 'pL'):
            L = OPS[i][1]
        if OPS[i][0] == 'Zb':
            Zb = OPS[i][1]
    st.state(nm, *[OPS[i] for i in h][-2:])
    if abs(o.L - L) > 1e-12 or abs(o.xpos[1] - o.xpos[0] - L) > 1e-12:
        raise Violation(f'length {o.L}, positions {o.xpos}, expected {L}')
    for op in QOPS:
        apply(o, op, st, par, L, Zb)
        st.checks += 1
    st.outcome(L, Zb)


def families(tier):
    return [
        Family('uniform', lambda: uniform_cases(tier), uniform,
               '10 lines (losses of 1e-7 to 1 of the phase) x lengths 0..9.3 m x 3 reference impedances x 7 step settings x frequencies 0..220 MHz; '
               'S, S on another impedance, profiles for 5 end conditions, standing waves'),
        Family('attenuation', lambda: atten_cases(tier), atten,
               '7 uniform lines with 11 attenuations from 1e-8 to 5000 Np (the lossless one: phases from 1e-6 rad) x 4 frequencies x 2 reference impedances x '
               '3 step settings; S on 2 impedances, standing waves for 3 excitations, the terminated line in a circuit'),
        Family('forms', lambda: form_cases(tier), form,
               'each quantity, each pair of quantities, all quantities in 12 forms of the same constant, L=0 and 1.3 m'),
        Family('varying', lambda: vary_cases(tier), vary,
               '11 lines with lists, nodes and functions of x, w x lengths x frequencies x steps x impedances'),
        Family('steep', lambda: steep_cases(tier), steep,
               '3 ways to vary the losses along a line x 7 (thorough: 12) losses up to about 30 Np x f=0 and 35 MHz x 2 impedances, reference: waves of 1200 sections'),
        Family('sections', lambda: cut_cases(tier), cuts,
               'all cuts of 12 lines at up to 3 of 4 places, joined in a circuit (own objects or one shared object)'),
        Family('histories', lambda: hist_cases(tier), hist,
               'all sequences of at most 3 (thorough: 4) of 15 calls on one line, then 6 observations'),
    ]
