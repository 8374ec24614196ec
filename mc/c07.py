"""C07: conversions between S, Z, Y, V/I and reference impedances are physical."""
import itertools
import numpy as np
from .engine import Family, Violation
from .ref import smat, close, rnd

PROP = 'C07'
ASSUME = ['the reference impedances of the S_from_*/*_from_S functions are scalars; those of "P" waves are '
          'real; Z and Y exist (no open/short singular matrices)']

IDS = [3, 'p2', 'r1', 'zero']
ZS = [50., 30 - 12j, 75., 20 + 5j, 110., 8., 41., 66., 12.]      # complex ones for V and G only


def zform(form, off, nF, N, cplx, integer=False):
    """-> (argument, table (nF,N))"""
    v = [z if cplx else abs(z.real) if isinstance(z, complex) else z for z in ZS]
    if integer:
        v = [int(round(abs(z))) for z in v]
    pick = lambda i: v[(i + off) % len(v)]
    if form == 'scalar':
        return pick(0), np.array([[pick(0)] * N] * nF).reshape(nF, N)
    if form == 'npscalar':
        return np.array(pick(0)), np.array([[pick(0)] * N] * nF).reshape(nF, N)
    if form in ('1D', '1Da'):
        a = [pick(i) for i in range(N)]
        return (a if form == '1D' else np.array(a)), np.array([a] * nF).reshape(nF, N)
    a = [[pick(i + 2 * k) for i in range(N)] for k in range(nF)]
    return (a if form == '2D' else np.array(a)), np.array(a).reshape(nF, N)


def matrices(shape, N, nF, mid, cont):
    """-> (argument, stack)"""
    st = np.array([smat(mid, N, 30e6 + 7e6 * k) for k in range(nF)]).reshape(nF, N, N)
    if shape == '0D':
        a = complex(st[0, 0, 0])
        return (a if cont == 'list' else np.array(a)), st
    if shape == '1D':
        a = st[:, 0, 0]
    elif shape == '2D':
        a = st[0]
    else:
        a = st
    if cont == 'list':
        return a.tolist(), st
    if cont == 'mixed':
        return [x for x in a], st
    return a, st


def shapes(tier):
    yield '0D', 1, 1
    for nF in (1, 2, 3):
        yield '1D', 1, nF
    for N in (1, 2, 3):
        yield '2D', N, 1
    for N in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for nF in (1, 2, 3):
            yield '3D', N, nF


def outform(shape, st):
    return {'0D': lambda: st[0, 0, 0], '1D': lambda: st[:, 0, 0], '2D': lambda: st[0],
            '3D': lambda: st}[shape]()


def waves(typ, z):
    """V, I = coefficients * (a, b)"""
    if typ == 'V':
        return np.array([[1, 1], [1 / z, -1 / z]])
    r = np.sqrt(np.real(z))
    if typ == 'P':
        return np.array([[r, r], [1 / r, -1 / r]])
    return np.array([[np.conj(z) / r, z / r], [1 / r, -1 / r]])


def ref_conv(st, z1, t1, z2, t2):
    """port by port from the definition of the waves; one excitation at a time"""
    out = np.empty_like(st, dtype=complex)
    for k in range(st.shape[0]):
        N = st.shape[1]
        A = np.zeros((N, N), dtype=complex)
        B = np.zeros((N, N), dtype=complex)
        for e in range(N):
            a = np.zeros(N, dtype=complex)
            a[e] = 1
            b = st[k] @ a
            for p in range(N):
                VI = waves(t1, complex(z1[k, p])) @ [a[p], b[p]]
                A[p, e], B[p, e] = np.linalg.solve(waves(t2, complex(z2[k, p])), VI)
        out[k] = np.linalg.solve(A.T, B.T).T
    return out


def general(tier):
    for sh, N, nF in shapes(tier):
        for cont in ('list', 'array', 'mixed'):
            if cont == 'mixed' and sh in ('0D',):
                continue
            for f1, f2 in itertools.product(('scalar', '1D', '2D'), repeat=2):
                for t1, t2 in itertools.product('VPG', repeat=2):
                    for mid in IDS[:2] if tier == 'quick' else IDS:
                        yield (sh, N, nF, cont, f1, f2, t1, t2, mid, False)
    for sh, N, nF in shapes(tier):
        for f1, f2 in itertools.product(('scalar', 'npscalar', '1Da', '2Da'), repeat=2):
            yield (sh, N, nF, 'array', f1, f2, 'V', 'V', 'thru' if N > 1 else 'zero', True)
            yield (sh, N, nF, 'list', f1, f2, 'V', 'P', 3, True)


def same_arr(case, G, R, tol=1e-9):
    R = np.asarray(R)
    if np.shape(G) != R.shape:
        raise Violation(f'{case}: shape {np.shape(G)} expected {R.shape}')
    if not close(G, R, tol):
        raise Violation(f'{case}:\n{np.round(G, 6)}\nexpected\n{np.round(R, 6)}')


def chk_general(case, st):
    from pyRFtk import ConvertGeneral
    sh, N, nF, cont, f1, f2, t1, t2, mid, integer = case
    arg, stack = matrices(sh, N, nF, mid, cont)
    a1, z1 = zform(f1, 0, nF, N, t1 != 'P' and not integer, integer)
    a2, z2 = zform(f2, 4, nF, N, t2 != 'P' and not integer, integer)
    kw = {} if (t1, t2) == ('V', 'V') and mid == 3 else dict(type1=t1, type2=t2)
    G = ConvertGeneral(a2, arg, a1, **kw)
    R = ref_conv(stack, z1, t1, z2, t2)
    same_arr(case, G, outform(sh, R))
    # and back
    H = ConvertGeneral(a1, G, a2, t2, t1)
    same_arr(case + ('back',), H, outform(sh, stack))
    st.checks += 2
    st.transitions += 2
    st.state(rnd(R), sh)
    st.outcome(rnd(R, 3))


# --- impedances (of all or of one of the ports, of all or of one of the frequencies) that are nearly the same
def close_by(tier):
    for N, nF in ((1, 1), (2, 1), (3, 2)):
        for d in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10):
            for sg in (1, -1, 1j):
                for t1, t2 in (('V', 'V'), ('P', 'P'), ('G', 'G'), ('V', 'P'), ('G', 'V')):
                    if sg == 1j and 'P' in (t1, t2):
                        continue
                    for form in ('scalar', '1D', '2D'):
                        for at in [None] + ([(k, p) for k in range(nF if form == '2D' else 1) for p in range(N)]
                                            if form != 'scalar' else []):
                            for z0 in (50., 30.):
                                yield (N, nF, d, '1j' if sg == 1j else sg, t1, t2, form, at, z0)


def chk_close_by(case, st):
    from pyRFtk import ConvertGeneral
    N, nF, d, sg, t1, t2, form, at, z0 = case
    stack = np.array([smat(3, N, 30e6 + 7e6 * k) for k in range(nF)])
    sg = 1j if sg == '1j' else sg
    z1 = np.full((nF, N), z0 + 0j if sg == 1j else z0)
    z2 = z1.copy()
    if at is None:
        z2 *= 1 + d * sg
    elif form == '1D':
        z2[:, at[1]] *= 1 + d * sg
    else:
        z2[at] *= 1 + d * sg
    arg = lambda z: z[0, 0] if form == 'scalar' else z[0].tolist() if form == '1D' else z.tolist()
    for a, b in ((z1, z2), (z2, z1)):
        G = ConvertGeneral(arg(b), stack, arg(a), t1, t2)
        R = ref_conv(stack, a, t1, b, t2)
        if G.shape != R.shape or not np.max(np.abs(G - R)) <= min(1e-12, 1e-2 * d):
            raise Violation(f'{case}: differs from the definition by {np.max(np.abs(G - R))}')
    st.checks += 2
    st.transitions += 2
    st.state(rnd(R, 12))
    st.outcome(rnd(R, 12))


# ------------------------------------------------- representation graph S/Z/Y
REPS = ['S50', 'S20', 'Sc', 'Z', 'Y']
BASE = {'S50': 50., 'S20': 20., 'Sc': 33 + 8j}


def rep_of(name, Zm):
    """physical impedance matrices -> representation"""
    out = []
    for Z in Zm:
        I = np.eye(len(Z))
        if name == 'Z':
            out.append(Z)
        elif name == 'Y':
            out.append(np.linalg.inv(Z))
        else:
            z0 = BASE[name]
            # currents as excitations
            out.append(np.linalg.solve((Z + z0 * I).T, (Z - z0 * I).T).T)
    return np.array(out)


def convert(a, b, M):
    import pyRFtk as rf
    from pyRFtk.S_from_Y import S_from_Y
    kw = lambda n: {} if n == 'S50' else {'Zbase': BASE[n]}
    if a[0] == 'S' and b[0] == 'S':
        return rf.ConvertGeneral(BASE[b], M, BASE[a])
    if a[0] == 'S':
        return (rf.Z_from_S if b == 'Z' else rf.Y_from_S)(M, **kw(a))
    if b[0] == 'S':
        return (rf.S_from_Z if a == 'Z' else S_from_Y)(M, **kw(b))
    return None


def paths(depth):
    def go(p):
        yield p
        if len(p) <= depth:
            for b in REPS:
                if {p[-1], b} <= {'Z', 'Y'}:
                    continue
                yield from go(p + [b])
    for a in REPS:
        yield from go([a])


def graph(tier):
    ps = [p for p in paths(3 if tier == 'quick' else 4) if len(p) > 1]
    for p in ps:
        for sh, N, nF in shapes('quick'):
            if nF == 1 and sh == '3D' and N > 1:
                continue
            for cont in ('list', 'array'):
                if len(p) > 3 and tier == 'quick' and (cont == 'list' or (sh, N, nF) not in
                                                       [('1D', 1, 3), ('2D', 2, 1), ('3D', 3, 2)]):
                    continue
                yield (tuple(p), sh, N, nF, cont)


def phys(N, nF):
    out = []
    for k in range(nF):
        S = 0.8 * smat(6, N, 31e6 + 5e6 * k) + 0.1j * np.eye(N)
        out.append(50. * np.linalg.solve(np.eye(N) - S, np.eye(N) + S))
    return out


def chk_graph(case, st):
    p, sh, N, nF, cont = case
    Zm = phys(N, nF)
    M = outform(sh, rep_of(p[0], Zm))
    if cont == 'list':
        M = M.tolist()
    for a, b in zip(p, p[1:]):
        M = convert(a, b, M)
        R = rep_of(b, Zm)
        same_arr((case, a, b), M, outform(sh, R), 1e-8)
        st.checks += 1
        st.transitions += 1
        st.state(b, rnd(R), sh)
        st.outcome(b, rnd(R, 3))
        if cont == 'list':
            M = np.asarray(M).tolist()


# ------------------------------------------------------------------- VI, shapes
VI = [np.eye(2), [[1, 20j], [0, 1]], [[1, 0], [.01 + .002j, 1]], [[.3, 40j], [.01j, .7]],
      [[2, 0], [0, .5]], [[.5 + .2j, 33.], [.004, 1.1 - .3j]], [[-1, 0], [0, -1]]]


def vi(tier):
    for i in range(len(VI)):
        for z in (None, 50., 7., 30 + 9j, 20):
            for cont in ('list', 'array'):
                yield ('vi', i, z, cont)
    for fn in ('ConvertGeneral', 'Z_from_S', 'S_from_Z', 'Y_from_S', 'S_from_Y'):
        for bad in ([[1, 2]], [[1], [2]], [[[1, 2]]], [[[[1.]]]], [[1, 2, 3], [4, 5, 6]]):
            yield ('bad', fn, bad)
    for bad in ([1.], [[1., 2.], [3., 4.]], [[1., 2., 3.]] * 2, [1., 2., 3.]):
        yield ('badZ', bad)
    for shape in ((0,), (0, 1, 1), (0, 2, 2)):
        yield ('empty', shape)


def chk_vi(case, st):
    import pyRFtk as rf
    from pyRFtk.S_from_VI import S_from_VI
    from pyRFtk.S_from_Y import S_from_Y
    st.checks += 1
    st.transitions += 1
    st.state(repr(case))
    st.outcome(repr(case))
    if case[0] == 'vi':
        _, i, z, cont = case
        M = np.array(VI[i], dtype=complex)
        G = S_from_VI(M if cont == 'array' else M.tolist()) if z is None else \
            S_from_VI(M if cont == 'array' else M.tolist(), z)
        z = 30. if z is None else z
        A, B = np.zeros((2, 2), dtype=complex), np.zeros((2, 2), dtype=complex)
        for e, (V1, J1) in enumerate(((1., 0.), (0., .02))):      # J1: out of port 1
            V2, I2 = M @ [V1, J1]
            for p, (V, I) in enumerate(((V1, -J1), (V2, I2))):
                A[p, e], B[p, e] = V + z * I, V - z * I
        same_arr(case, G, B @ np.linalg.inv(A))
    elif case[0] == 'empty':
        E = np.zeros(case[1], dtype=complex)
        for nm, G in (('CG', rf.ConvertGeneral(20., E, 50.)),):
            if np.shape(G) != case[1]:
                raise Violation(f'{case} {nm}: shape {np.shape(G)}')
    else:
        if case[0] == 'bad':
            f = dict(ConvertGeneral=lambda m: rf.ConvertGeneral(50., m, 20.), Z_from_S=rf.Z_from_S,
                     S_from_Z=rf.S_from_Z, Y_from_S=rf.Y_from_S, S_from_Y=S_from_Y)[case[1]]
            arg = case[2]
        else:
            f = lambda z: rf.ConvertGeneral(z, np.zeros((3, 2, 2)), 50.)
            arg = case[1]
            if np.shape(arg) == (2,):
                return
        try:
            r = f(arg)
        except Exception:                      # (the kind of error is not specified)
            return
        raise Violation(f'{case}: returned {r}')


def families(tier):
    return [
        Family('waves', lambda: general(tier), chk_general,
               'all shapes x containers x impedance forms x wave types, there and back'),
        Family('close', lambda: close_by(tier), chk_close_by,
               'impedances that differ by 1e-2..1e-10 (real or imaginary), everywhere or at one port and frequency'),
        Family('representations', lambda: graph(tier), chk_graph,
               'all paths in the graph of the representations S(50), S(20), S(33+8j), Z, Y'),
        Family('VI-shapes', lambda: vi(tier), chk_vi, 'transfer matrices; refused shapes'),
    ]
