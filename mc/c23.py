"""C23: networks of reciprocal, lossless, passive parts are reciprocal, lossless, passive; powers balance.

Nothing is compared with a reference solution (the reference model only tells
which networks are too badly conditioned to be judged): the invariants are
evaluated on what the real code returns.
"""
import copy, itertools, math
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import excite
from . import nets

PROP = 'C23'
ASSUME = ['networks whose tableau (or a nested one) is singular or ill conditioned are skipped and counted',
          'reference impedances are real and positive']
ZS = (None, 20., 75.)
TOL = 1e-6


# ------------------------------------------------------------------ what a part is
def kind_of(s, pool, over=None):
    """-> set of 'r' (reciprocal), 'l' (lossless), 'p' (passive)"""
    t = s['t']
    if t == 'S':
        i = s['id']
        if isinstance(i, str):
            return {'r': set('rp'), 'l': set('rlp'), 'p': set('p'), 'z': set('rp'), 't': set('rlp')}[i[0]]
        return set()
    if t == 'TRL':
        return set('rp') if 'LCRG' in s and s['LCRG'][2:] != (0., 0.) else set('rlp')
    if t == 'RLC':
        p = dict(s.get('p', {}), **(over or {}))
        k = set('rp')
        if not p.get('Rs') and p.get('Rp', INF) in (0, INF):
            k.add('l')
        return k
    if t in ('CPL', 'ARC'):
        return set('rlp')
    k = set('rlp')
    for op in s['ops']:
        if op[0] == 'add':
            r = list(op[3:]) + [None] * 3
            k &= kind_of(pool[op[2]], pool, r[2])
        elif op[0] == 'term':
            k &= term_kind(*(list(op[2:]) + [None] * 2)[:2])
    if any(op[0] == 'deem' for op in s['ops']) and 'l' not in k:
        k.discard('p')                             # what is removed may be lossy
    return k


def term_kind(kind, v):
    if kind is None:
        return set('rp')
    v = complex(v)
    if kind == 'RC':
        a = abs(v)
        return set('rlp') if abs(a - 1) < 1e-12 else set('rp') if a < 1 else set('r')
    if np.isinf(v) or v.real == 0:
        return set('rlp')
    return set('rp') if v.real > 0 else set('r')


def judge(S, k, what, tol=TOL):
    S = np.array(S)
    n = S.shape[0]
    if S.shape != (n, n) or not np.all(np.isfinite(S)):
        raise Violation(f'{what}: S = {S}')
    if 'r' in k and np.max(np.abs(S - S.T), initial=0) > tol:
        raise Violation(f'{what}: the parts are reciprocal, the network is not: S =\n{np.round(S, 5)}')
    H = np.conj(S.T) @ S
    if 'l' in k and np.max(np.abs(H - np.eye(n)), initial=0) > tol:
        raise Violation(f'{what}: the parts are lossless, the network is not: S =\n{np.round(S, 5)}\n'
                        f'singular values {np.round(np.linalg.svd(S)[1], 6)}')
    if 'p' in k and n and np.linalg.svd(S)[1][0] > 1 + tol:
        raise Violation(f'{what}: the parts are passive, the network is not: S =\n{np.round(S, 5)}\n'
                        f'singular values {np.round(np.linalg.svd(S)[1], 6)}')


# ------------------------------------------------------------------ powers
def power(v):
    return 0.5 * (v[0] * np.conj(v[1])).real


def absorbed(el, f, ov, Zb, V, I):
    """power dissipated in an element of which the voltages and the currents are given"""
    P, Q = el.PQ(f, ov, Zb)
    Z = 50.
    a = (V + Z * I) / 2
    A = P - Q / Z
    if abs(np.linalg.det(A)) < 1e-9:
        return None
    b = np.linalg.solve(A, -(P + Q / Z) @ a)
    return float(np.sum(np.abs(a) ** 2 - np.abs(b) ** 2) / (2 * Z))


def balance(c, m, specs, f, E, Z, k, what):
    sol = m.solve(f, Z)
    G = c.Solution(f, dict(E), **({} if Z is None else {'Zbase': Z}))
    Zr = c.Zbase if Z is None else Z
    S = np.array(c.getS(f, Zbase=Zr))
    e = np.array([E[q] for q in c.ports])
    b = S @ e
    pin = float(np.sum(np.abs(e) ** 2 - np.abs(b) ** 2) / (2 * Zr))
    scale = max([abs(v[0] * v[1]) for v in G.values()] + [float(np.sum(np.abs(e) ** 2)) / Zr])
    tol = TOL * scale
    pn = sum(power(G[q]) for q in c.ports if q in G)
    if all(q in G for q in c.ports) and abs(pn - pin) > tol:
        raise Violation(f'{what}: the power entering the ports is {pin} (waves) or {pn} (V and I of the nodes)')
    tot = 0.
    for path, o, vs, ov, x, d in sol.sy.els:
        names = [f'{path}.{q}' for q in d['ports']]
        if any(q not in G for q in names):
            raise Violation(f'{what}: the solution lacks {[q for q in names if q not in G]}')
        V = np.array([G[q][0] for q in names])
        I = np.array([G[q][1] for q in names])
        p = 0.5 * float(np.sum(V * np.conj(I)).real)
        kk = kind_of(o.s, None, dict(ov, **{a: v for a, v in o.p.items() if a not in ov}))
        if 'l' in kk and abs(p) > tol:
            raise Violation(f'{what}: the lossless {path} takes {p} W')
        if 'p' in kk and p < -tol:
            raise Violation(f'{what}: the passive {path} delivers {-p} W')
        r = absorbed(o, f, ov, net_Zb(m, path), V, I)
        if r is not None and abs(p - r) > 10 * tol:
            raise Violation(f'{what}: {path} takes {p} W at its ports, {r} W are dissipated in it')
        tot += p
    for q in sol.sy.loads:
        kind, v = term_at(m, q)
        if q not in G:
            raise Violation(f'{what}: the solution lacks {q}')
        V, I = G[q][0], -G[q][1]                   # into the load
        p = 0.5 * (V * np.conj(I)).real
        if kind == 'Z':
            r = 0. if np.isinf(v) else 0.5 * abs(I) ** 2 * complex(v).real
        elif kind == 'Y':
            r = 0. if np.isinf(v) else 0.5 * abs(V) ** 2 * complex(v).real
        else:
            zb = net_Zb(m, q)
            a = (V + zb * I) / 2
            r = abs(a) ** 2 * (1 - abs(0 if v is None else v) ** 2) / 2 / zb
        if abs(p - r) > tol:
            raise Violation(f'{what}: the termination {kind}={v} at {q} takes {p} W, expected {r} W')
        tot += r
    if abs(tot - pin) > 10 * tol and (not m.deems or 'l' in k):
        raise Violation(f'{what}: {pin} W enter the network, {tot} W are dissipated in it')
    return len(sol.sy.els) + len(sol.sy.loads) + 2


def net_Zb(m, path):
    """reference impedance of the circuit a block or a node belongs to"""
    while '.' in path:
        b, r = path.split('.', 1)
        o = m.blocks[b]['obj'] if b in m.blocks else None
        if not hasattr(o, 'blocks') or path in m.terms:
            break
        m, path = o, r
    return m.Zb


def term_at(m, q):
    while q not in m.terms:
        b, q = q.split('.', 1)
        m = m.blocks[b]['obj']
    return m.terms[q]


def check(specs, st, fs=(FS[0], FS[1]), Zs=ZS, what=''):
    k = kind_of(specs[-1], specs)
    rp, mp = real_pool(specs), model_pool(specs)
    c, m = rp[-1], mp[-1]
    st.transitions += len(specs[-1]['ops'])
    for f in fs:
        for Z in Zs:
            try:
                m.solve(f, Z)
            except Ill:
                st.skipped += 1
                continue
            w = f'{what} f={f} Zbase={Z}'
            S = c.getS(f) if Z is None else c.getS(f, Zbase=Z)
            judge(S, k, w)
            st.checks += 3
            st.state(rnd(S), Z, f)
            st.outcome(rnd(S, 3))
            for E in [excite(c.ports, i) for i in range(min(3, 1 + len(c.ports)))]:
                st.checks += balance(c, m, specs, f, E, Z, k, f'{w} E={E}')
            st.transitions += 2


# ------------------------------------------------------------------ 1. elements
def el_specs():
    for Zb in (50., 12.):
        for L in (0., .3, 1.3, 7.7):
            for Z0 in (50., 12., 140.):
                yield TRL(L, Z0, Zb)
                yield TRL(L, Z0, Zb, vr=.66)
            for lcrg in ((2.5e-7, 1e-10, 3., 4e-4), (2.5e-7, 1e-10, 0., 4e-3), (2.5e-7, 1e-10, 30., 0.),
                         (2.5e-7, 1e-10, 0., 0.)):
                yield dict(t='TRL', L=L, LCRG=lcrg, Zb=Zb)
        for kc in (0., .1, .6, math.sqrt(.5), .95, 1.):
            for Lc in (None, .4, 1.2):
                yield CPL(Zb, kc=kc, **({'Lc': Lc} if Lc else {}))
        for Larc in (None, 0., 7e-8, 1e-6):
            yield ARC(Larc, Zb)
        for Rs, Ls, Cs, Rp, Lp, Cp in itertools.product((0., 4.), (0., 4e-8), (INF, 9e-11), (INF, 700.),
                                                        (INF, 1e-7), (0., 3e-11)):
            yield RLC(Zb, Rs=Rs, Ls=Ls, Cs=Cs, Rp=Rp, Lp=Lp, Cp=Cp)
        for i in ('l1', 'l2', 'r1', 'p1', 'p3', 'zero', 'thru'):
            for n in (1, 2, 3, 4):
                for cls in ('obj', 'base'):
                    yield S(n, i, Zb, cls=cls)


def els(tier):
    for s in el_specs():
        yield s


def run_el(s, st):
    o = real_obj(s, [])
    k = kind_of(s, [])
    fs = FS if s['t'] == 'S' else FS + [1e3, 5e6, 2.2e8]
    for f in fs:
        for Z in ZS + (300.,):
            M = o.getS(f) if Z is None else o.getS(f, Zbase=Z)
            judge(M, k, f'{s} f={f} Zbase={Z}')
            st.checks += 3
            st.transitions += 1
            st.state(rnd(M))
            st.outcome(rnd(M, 2))


# lines with parameters that vary along the line
VARY = {
    'step': (dict(Z0TL='lambda x: 30. + 20. * x'), 'rlp'),
    'exp': (dict(Z0TL='lambda x: 40. * np.exp(.4 * x)'), 'rlp'),
    'lc': (dict(LTL='lambda x: 2e-7 * (1 + x)', CTL='lambda x: 1e-10'), 'rlp'),
    'lossy': (dict(LTL='lambda x: 2e-7 * (1 + x)', CTL='lambda x: 1e-10', rTL='lambda x: 3. * x', gTL=2e-4), 'rp'),
    'g': (dict(LTL=3e-7, CTL=9e-11, gTL='lambda x: 1e-3 * x'), 'rp'),
    'r': (dict(LTL=3e-7, CTL='lambda x: 9e-11', rTL=5.), 'rp'),
    'lin': (dict(Z0TL=[30., 80.]), 'rlp'),
}


def vary_cases(tier):
    for n in VARY:
        for L in (.5, 1.3, 2.9):
            for dx in (72, 20, .02):
                yield n, L, dx


def run_vary(case, st):
    import pyRFtk as rf
    n, L, dx = case
    kw, k = VARY[n]
    kw = {a: eval(v, {'np': np}) if isinstance(v, str) else v for a, v in kw.items()}
    o = rf.rfTRL(L=L, dx=dx, Zbase=35., **kw)
    c = rf.rfCircuit(Zbase=33.)
    c.addblock('T', o)
    for f in FS:
        for Z in ZS:
            for x in (o, c):
                M = x.getS(f) if Z is None else x.getS(f, Zbase=Z)
                judge(M, set(k), f'{case} f={f} Zbase={Z}', 2e-5)
                st.checks += 3
                st.transitions += 1
                st.state(rnd(M))
                st.outcome(rnd(M, 2))


# ------------------------------------------------------------------ 2. topologies
TERM = {'l': [('Z', 25j), ('Y', 0.), ('RC', -1.)], 'p': [('Z', 20 + 10j), ('Y', .02 - .01j), ('RC', .4 - .3j)]}
POOLS = {
    # name: (pool, kind of the terminations)
    'l-SLS': ([S(2, 'l1', 30.), TRL(1.3, 35., 60.), S(3, 'l2', 75.)], 'l'),
    'l-CRL': ([CPL(45., kc=.6, Lc=1.2), RLC(25., Ls=4e-8, Cp=3e-11)], 'l'),
    'r-SLR': ([S(2, 'r1', 30.), LOSSY(1.1, 60.), RLC(25., Rs=3., Ls=4e-8, Cp=3e-11, Rp=900.)], 'p'),
    'r-CSA': ([CPL(45.), S(2, 'r3', 70.), ARC(6e-8, 25.)], 'p'),
    'p-SLS': ([S(3, 'p1', 30.), LOSSY(1.1, 60.), S(2, 'p2', 20., cls='base')], 'p'),
    'p-AS': ([S(3, 'p1', cls='arr'), S(2, 'l2', cls='arr')], 'p'),
}


def topo(tier):
    d = 2 if tier == 'quick' else 3
    for k, (pool, t) in POOLS.items():
        ops = [['add', 'B%d' % i, i] for i in range(len(pool))]
        free = list(model_pool(pool + [CT(ops)])[-1].free)
        for seq in grow(None, free, d, terms=tuple(TERM[t]), maxar=4 if tier != 'quick' or len(free) < 6 else 2):
            yield (k, seq)


def run_topo(case, st):
    k, seq = case
    pool, t = POOLS[k]
    ops = [['add', 'B%d' % i, i] for i in range(len(pool))]
    check(pool + [CT(ops + seq, Zb=33.)], st, fs=(FS[0],), Zs=(None, 20.), what=f'{k} {seq}')


# ------------------------------------------------------------------ 2b. weakly coupled resonators
# couplings, from strong to weak
WEAK = {
    'C': [RLC(Cs=c) for c in (3e-12, 3e-13, 1e-13)],
    'L': [RLC(Lp=x) for x in (3e-9, 6e-10, 2e-10)],
    'Z': [TRL(1.9, z) for z in (5., 1.5, 2000.)],
}
RESO = {
    'line': (TRL(3., 50.), '1', '2'),
    'lossy': (dict(t='TRL', L=3., LCRG=(2.5e-7, 1e-10, .03, 1e-6), Zb=50.), '1', '2'),
    'tank': (RLC(Lp=40e-9, Cp=400e-12), 's', 'p'),
    'series': (RLC(Ls=4e-6, Cs=4e-12), 's', 'p'),
}


def weak_specs(cp, i, re, how, Zb):
    W, (R, a, b) = WEAK[cp][i], RESO[re]
    x, y = ('1', '2') if W['t'] == 'TRL' else ('s', 'p')
    ops = [['add', 'A', 0], ['add', 'R', 1]]
    if how == 'through':
        ops += [['add', 'B', 0], ['con', ['A.' + y, 'R.' + a]], ['con', ['R.' + b, 'B.' + (x if cp == 'Z' else y)]]]
    elif how == 'end':                                  # a stub
        ops += [['con', ['A.' + y, 'R.' + a]], ['term', 'R.' + b, 'Y', 0.]]
    elif how == 'load':
        ops += [['con', ['A.' + y, 'R.' + a]], ['term', 'R.' + b, 'Z', 20e3]]
    else:                                               # across a junction, and nested
        ops += [['con', ['A.' + y, 'R.' + a, 'j']], ['term', 'R.' + b, 'RC', -1.]]
    if how == 'nested':
        return [W, R, CT(ops, Zb=30.), CT([['add', 'N', 2], ['add', 'T', 0], ['con', ['N.j', 'T.' + x, 'k']]], Zb=Zb)]
    return [W, R, CT(ops, Zb=Zb)]


def weak_cases(tier):
    for cp in WEAK:
        for i in range(3):
            for re in RESO:
                for how in ('through', 'end', 'load', 'cross', 'nested'):
                    for Zb in (50., 7.) if tier == 'quick' else (50., 7., 400.):
                        yield cp, i, re, how, Zb


def peaks(m, lo=20e6, hi=80e6, n=240):
    """the frequencies of the highest stored energy"""
    def u(f):
        try:
            return float(np.max(np.abs(m._solve(f, m.Zb, 1e9).X)))
        except Ill:
            return 0.
    fs = list(np.linspace(lo, hi, n))
    us = [u(f) for f in fs]
    out = []
    for k in range(1, n - 1):
        if us[k] >= us[k - 1] and us[k] > us[k + 1]:
            a, b = fs[k - 1], fs[k + 1]
            g = (math.sqrt(5) - 1) / 2
            c, d = b - g * (b - a), a + g * (b - a)
            uc, ud = u(c), u(d)
            for _ in range(45):
                if uc > ud:
                    b, d, ud = d, c, uc
                    c = b - g * (b - a)
                    uc = u(c)
                else:
                    a, c, uc = c, d, ud
                    d = a + g * (b - a)
                    ud = u(d)
            out.append((u((a + b) / 2), (a + b) / 2))
    return [f for _, f in sorted(out)[::-1]]


def run_weak(case, st):
    specs = weak_specs(*case)
    m = model_pool(specs)[-1]
    fs = peaks(m)[:2]
    fs = [f * (1 + d) for f in fs for d in (0., 1e-7, -1e-5, 1e-3)]
    k = kind_of(specs[-1], specs)
    c = real_pool(specs)[-1]
    for f in fs:
        for Z in (None, 20.):
            try:
                s = m._solve(f, m.Zb if Z is None else Z, 1e7)
                m.wellposed(f)
            except Ill:
                st.skipped += 1
                continue
            S = np.array(c.getS(f) if Z is None else c.getS(f, Zbase=Z))
            w = f'{case} f={f} Zbase={Z}'
            judge(S, k, w, 1e-5)
            if not np.max(np.abs(S - s.perm(c.ports)), initial=0) < 1e-5:
                raise Violation(f'{w}: S =\n{S}\nexpected\n{s.perm(c.ports)}')
            st.checks += 4
            st.state(rnd(S), f, Z)
            st.outcome(rnd(S, 3))
            st.transitions += 1


# ------------------------------------------------------------------ 3. the catalogue with other parts
def recast(specs, to, terms):
    """the tables become of kind `to`, terminations passive or reactive"""
    out = copy.deepcopy(specs)
    for s in out:
        if s['t'] == 'S':
            s['id'] = to + str(s['id'])
        elif s['t'] == 'TRL' and to == 'l' and 'LCRG' in s:
            s['LCRG'] = s['LCRG'][:2] + (0., 0.)
        elif s['t'] == 'RLC' and to == 'l':
            s['p'] = {a: v for a, v in s['p'].items() if a not in ('Rs', 'Rp')}
        elif s['t'] == 'CT':
            n = 0
            for op in s['ops']:
                if op[0] == 'term':
                    op[2:] = terms[n % len(terms)]
                    n += 1
    return out


TSET = {
    'l': [[('Z', 30j), ('Y', -.02j), ('RC', 1j)], [('RC', -1.), ('Z', 0.), ('Y', 0.)], [('Z', INF), ('Y', INF), ('RC', 1.)]],
    'p': [[('Z', 20 + 10j), ('Y', .02 - .01j), ('RC', .4 - .3j)], [('Z', 75.), ('RC', 0.), (None, None)]],
}


def cat(tier):
    for n in catalog():
        for to in 'lrp':
            for i in range(len(TSET['l' if to == 'l' else 'p'])):
                for Zt in (33., 110.) if tier != 'quick' else (33.,):
                    yield n, to, i, Zt
    # lossless parts, dissipation only in the terminations
    for n in catalog():
        for i in range(len(TSET['p'])):
            yield n, 'L', i, 33.


def cat_specs(case):
    n, to, i, Zt = case
    specs = recast(catalog()[n], to.lower(), TSET['l' if to == 'l' else 'p'][i])
    specs[-1]['Zb'] = Zt
    return specs


def run_cat(case, st):
    check(cat_specs(case), st, Zs=ZS + (7.,), what=str(case))


# ------------------------------------------------------------------ 4. histories of one network
def hist(tier):
    for n in catalog():
        specs = catalog()[n]
        lv = list(leaf_sets(specs))
        for to in 'lr':
            for k in range(1, 3 if tier == 'quick' else 4):
                for seq in itertools.product(range(len(lv)), repeat=k):
                    yield n, to, list(seq)


def leaf_sets(specs):
    from .c15 import leaves
    for p, a, v in leaves(specs, len(specs) - 1):
        yield p, a, v
        yield p, a, v * .4


def run_hist(case, st):
    """evaluations after parameters were changed"""
    n, to, seq = case
    specs = cat_specs((n, to, 0, 33.))
    lv = list(leaf_sets(catalog()[n]))
    rp, mp = real_pool(specs), model_pool(specs)
    c, m = rp[-1], mp[-1]
    k = kind_of(specs[-1], specs)
    for i in seq:
        p, a, v = lv[i]
        c.set(f'{p}.{a}', v)
        m.set(f'{p}.{a}', v)
        st.transitions += 2
        for f, Z in ((FS[1], 20.), (FS[0], None)):
            try:
                m.solve(f, Z)
            except Ill:
                st.skipped += 1
                continue
            S = c.getS(f) if Z is None else c.getS(f, Zbase=Z)
            w = f'{case} f={f} Zbase={Z}'
            judge(S, k, w)
            st.checks += 3 + balance(c, m, specs, f, excite(c.ports), Z, k, w)
            st.state(rnd(S))
            st.outcome(rnd(S, 3))


# ------------------------------------------------------------------ 5. tables
def table_ops(n):
    q = ['u', 'v', 'w'][:n]
    d = {
        'deem': lambda o: o.deembed({'u': (.7, 30.)}), 'deem2': lambda o: o.deembed({x: .4 for x in q}),
        'deemneg': lambda o: o.deembed({q[-1]: (-.9, 80.)}),
        'sort': lambda o: o.sortports(list(reversed(o.ports))),
        'sort2': lambda o: o.sortports([o.ports[-1]] + list(o.ports[:-1])),
        'set': lambda o: o.setS(FS[1], smat('l9', n, 1e6)), 'add': lambda o: o.setS(5e7, smat('l8', n, 1e6)),
        'item': lambda o: o.__setitem__(0, (20e6, smat('l7', n, 1e6))),
        'Z': lambda o: o.setS(4e7, o.S_from_Z(1j * sym(n, 30.))), 'Y': lambda o: o.setS(41e6, o.S_from_Y(1j * sym(n, .02))),
        'copy': lambda o: None, 'file': lambda o: None,
    }
    return d


def sym(n, a):
    return a * np.array([[math.sin(1 + i + j + 2 * i * j) for j in range(n)] for i in range(n)])


def tables(tier):
    for n in (1, 2, 3):
        for to in 'lrp':
            names = [x for x in table_ops(n) if to == 'l' or x not in ()]
            for k in range(0, 3 if tier == 'quick' else 4):
                for seq in itertools.product(names, repeat=k):
                    yield n, to, list(seq)


def run_table(case, st):
    import pyRFtk as rf
    n, to, seq = case
    o = real_obj(S(n, to + '1', 35., ['u', 'v', 'w'][:n]), [])
    k = kind_of(S(n, to + '1'), [])
    for i, x in enumerate(seq):
        table_ops(n)[x](o)
        if x == 'copy':
            o = o.copy()
        if x == 'file':
            rf.WriteTSF(o, f't{i}.s{n}p', tsf_format='HZ S RI R 35')
            o = rf.rfObject(touchstone=f't{i}.s{n}p', ports=['u', 'v', 'w'][:n])
        st.transitions += 1
    for f in list(o.fs):
        for Z in ZS:
            M = o.getS(f * o.fscale if hasattr(o, 'fscale') else f, **({} if Z is None else {'Zbase': Z}))
            judge(M, k, f'{case} f={f} Zbase={Z}')
            st.checks += 3
            st.state(rnd(M), tuple(seq))
            st.outcome(rnd(M, 3))


# ------------------------------------------------------------------ 6. conversions
def convs(tier):
    for n in (1, 2, 3):
        for to in ('l1', 'l4', 'r1', 'p1', 'p5', 'zero', 'thru'):
            for a, b in itertools.product(range(4), repeat=2):
                for fn in ('Zbase', 'list', 'Z', 'Y'):
                    for typ in itertools.product('VPGg', repeat=2) if fn in ('Zbase', 'list') else ('',):
                        yield n, to, a, b, fn, ''.join(typ)


def run_conv(case, st):
    import pyRFtk as rf
    n, to, a, b, fn, typ = case
    base = [50., 12., 75., 210.]
    M = smat(to, n, 4e7)
    k = kind_of(S(n, to), [])
    if fn in ('Zbase', 'list'):
        cplx = [50 + 20j, 12 - 5j, 75 + 1j, 210 - 90j]
        z1, z2 = [cplx if t == 'g' else base for t in typ]
        Z1 = z1[a] if fn == 'Zbase' else [z1[(a + i) % 4] for i in range(n)]
        Z2 = z2[b] if fn == 'Zbase' else [z2[(b + 2 * i) % 4] for i in range(n)]
        # the given matrix is the one for waves normalised to the powers
        d1, d2 = (np.diag(np.sqrt(np.ones(n) * z)) if t == 'V' else np.eye(n) for z, t in ((Z1, typ[0]), (Z2, typ[1])))
        R = rf.ConvertGeneral(Z2, d1 @ M @ np.linalg.inv(d1), Z1, typ[0].upper(), typ[1].upper())
        judge(np.linalg.inv(d2) @ R @ d2, k, f'{case}: power waves of the result', 1e-8)
    elif fn == 'Z':
        if abs(np.linalg.det(np.eye(n) - M)) < 1e-3:
            st.skipped += 1
            return
        Z = rf.Z_from_S(M, base[a])
        judge_imm(Z, k, f'{case}: Z')
        judge(rf.S_from_Z(Z, base[b]), k, f'{case}: S at {base[b]}')
    else:
        if abs(np.linalg.det(np.eye(n) + M)) < 1e-3:
            st.skipped += 1
            return
        Y = rf.Y_from_S(M, base[a])
        judge_imm(Y, k, f'{case}: Y')
        judge(rf.S_from_Y(Y, base[b]), k, f'{case}: S at {base[b]}')
    st.checks += 3
    st.transitions += 1
    st.state(*case)
    st.outcome(n, to, fn, typ)


def judge_imm(Z, k, what):
    Z = np.array(Z).reshape(int(np.sqrt(np.size(Z))), -1)
    sc = 1e-8 * max(1e-3, np.max(np.abs(Z)))
    if 'r' in k and np.max(np.abs(Z - Z.T)) > sc:
        raise Violation(f'{what} is not symmetric: {Z}')
    R = (Z + np.conj(Z.T)) / 2
    if 'l' in k and np.max(np.abs(R)) > sc:
        raise Violation(f'{what} is not reactive: {Z}')
    if 'p' in k and np.min(np.linalg.eigvalsh(R)) < -sc:
        raise Violation(f'{what} is active: {Z}')


# ------------------------------------------------------------------ 7. networks from model files
PARTS = {
    'l': dict(T1=dict(L='len', Z0TL=35.), T2=dict(L=.7, Z0TL=80.), C=dict(Ls=40., Cs=90.), P=dict(Cp=30., Ls=9.),
              A=dict(Larc=60.)),
    'r': dict(T1=dict(L='len', LTL=250., CTL=100., rTL=3.), T2=dict(L=.7, LTL=250., CTL=100., gTL=4e-4),
              C=dict(Rs=3., Ls=40.), P=dict(Rp=700., Cp=30.), A=dict(Larc=60.)),
}
ENDS = {'l': ["[sc]", "[oc]", {'Z': 25j}, {'RC': -1j}], 'r': ["[sc]", "[oc]", {'Z': 25. + 5j}, {'RC': .4 - .3j}, {'Y': .02}]}


def gtl_cases(tier):
    nodes = ['a', 'j', 'k', 'b']
    for to in 'lr':
        for e in range(len(ENDS[to])):
            for t1 in (('a', 'j'), ('j', 'a')):
                for t2 in (('j', 'b'), ('b', 'j'), ('j', 'k')):
                    for third in 'CP':
                        for tp in (('j', '*'), ('*', 'j'), ('j', 'k'), ('k', 'j')):
                            for arc in (None, 'j', 'k'):
                                for Zb in (50., 13.):
                                    yield to, e, list(t1), list(t2), third, list(tp), arc, Zb


def run_gtl(case, st):
    from pyRFtk.rfGTL import rfGTL
    to, e, t1, t2, third, tp, arc, Zb = case
    g = {'T1': dict(PARTS[to]['T1'], ports=t1), 'T2': dict(PARTS[to]['T2'], ports=t2)}
    end = ENDS[to][e]
    g['X'] = dict(PARTS[to][third], ports=[end if q == '*' else q for q in tp])
    if arc:
        g['A'] = dict(PARTS[to]['A'], ports=[arc])
    use = {}
    for d in g.values():
        for q in d['ports']:
            if isinstance(q, str) and q[0] != '[':
                use[q] = use.get(q, 0) + 1
    free = [q for q in use if use[q] == 1]
    if not free:
        st.skipped += 1
        return
    k = set('rlp') if to == 'l' else set('rp')
    with open('c23.mod', 'w') as fh:
        fh.write(repr({'variables': {'len': 1.2}, 'OBJ': {'Portnames': free, 'GTL': g}}))
    c = rfGTL('c23.mod', objkey='OBJ', Zbase=Zb)
    for f in FS:
        for Z in (None, 20.):
            M = c.getS(f) if Z is None else c.getS(f, Zbase=Z)
            judge(M, k, f'{case} f={f} Zbase={Z}')
            st.checks += 3
            st.transitions += 1
            st.state(rnd(M))
            st.outcome(rnd(M, 3))


def families(tier):
    return [
        Family('elements', lambda: els(tier), run_el, 'elements with all combinations of their parameters, 3-6 frequencies, '
               '4 reference impedances'),
        Family('varying', lambda: vary_cases(tier), run_vary, 'lines with varying parameters'),
        Family('topologies', lambda: topo(tier), run_topo, 'all sequences of <= 2 (3) connections and terminations of 6 sets of '
               'parts, S-matrix and powers'),
        Family('resonances', lambda: weak_cases(tier), run_weak,
               'resonators behind couplings of 3 kinds and strengths, in 5 arrangements, at, next to and off their resonances'),
        Family('catalogue', lambda: cat(tier), run_cat, 'networks of the catalogue with lossless, reciprocal and passive '
               'parts and terminations, 2 frequencies, 4 reference impedances, 3 excitations'),
        Family('histories', lambda: hist(tier), run_hist, 'the same after every sequence of <= 2 (3) parameter changes'),
        Family('tables', lambda: tables(tier), run_table, 'tables after <= 2 (3) operations'),
        Family('conversions', lambda: convs(tier), run_conv, 'conversions between real reference impedances'),
        Family('gtl', lambda: gtl_cases(tier), run_gtl, 'networks of model descriptions'),
    ]
