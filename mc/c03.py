"""C03: node voltages, currents and waves obey the circuit laws."""
import itertools
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import nets, c01, c02

PROP = 'C03'
ASSUME = c01.ASSUME


def both(specs):
    return real_pool(specs)[-1], model_pool(specs)[-1]


def allnodes(m):
    return list(m.solve(FS[0]).sy.nodes)


# --- all nodes, all excitations of the catalogue
def cat(tier):
    for k, specs in nets.allnets().items():
        m = model_pool(specs)[-1]
        for e in range(len(m.free) + 1):
            for Z in (None, 20., 75., specs[-1]['Zb'] * 1.004):
                yield (k, e, Z)


def obs_waves(c, m, f, E, Z, st, what=''):
    """the low level solution: all the waves, on the impedance of the circuit"""
    ref, _ = m.solve(f, Z).at(E)
    if Z is None:
        c.solve(f, dict(E))
    else:
        c.solve(f, dict(E), Zbase=Z)
    if len(c.waves) != len(c.sol):
        raise Violation(f'{what}{len(c.waves)} waves, {len(c.sol)} values')
    for wv, val in zip(c.waves, c.sol):
        V, I = ref[wv[2:]][:2]
        w = (V + c.Zbase * I) / 2 if wv[:2] == '->' else (V - c.Zbase * I) / 2
        if not abs(w - val) < 1e-6 * max(amp(E), abs(w)):
            raise Violation(f'{what}solve(f={f}, E={E}, Zbase={Z}): wave {wv} is {val}, expected {w}')
    st.checks += 1


def chk_cat(case, st):
    k, e, Z = case
    c, m = both(nets.allnets()[k])
    st.transitions += len(nets.allnets()[k][-1]['ops'])
    for f in FS[:2]:
        E = excite(m.free, e)
        c.getS(f)                              # (the names of the ports need a solved circuit?)
        obs_sol(c, m, f, E, Z, None, st)
        st.transitions += 2
        obs_waves(c, m, f, E, Z, st)
    # first thing asked of a circuit
    c, m = both(nets.allnets()[k])
    obs_waves(c, m, FS[1], E, Z, st, 'first: ')
    c, m = both(nets.allnets()[k])
    obs_sol(c, m, FS[0], E, Z, None, st)
    st.transitions += 1


# --- node selections
def selections(tier):
    for k, specs in nets.allnets().items():
        m = model_pool(specs)[-1]
        try:
            nodes = allnodes(m)
        except Ill:
            continue
        yield (k, [])
        for q in nodes:
            yield (k, [q])
        deep = [q for q in nodes if q.count('.') > 1]
        r = 2 if tier == 'quick' else 3
        for t in itertools.islice(itertools.combinations(deep, r), None):
            yield (k, list(t))
        for a in nodes[:4]:
            for b in deep[-4:]:
                yield (k, [b, a])


def chk_sel(case, st):
    k, nodes = case
    c, m = both(nets.allnets()[k])
    for Z in (None, 75.):
        obs_sol(c, m, FS[1], excite(m.free), Z, nodes, st)
        st.transitions += 1


# --- internal S-matrices
def internal(tier):
    for k, specs in nets.allnets().items():
        m = model_pool(specs)[-1]
        try:
            nodes = allnodes(m)
        except Ill:
            continue
        N = len(m.free)
        for q in nodes:
            yield (k, [q])
            yield (k, ['<' + q])
        lim = 2 if tier == 'quick' else 3
        if N <= 4 and len(nodes) <= 16:
            for r in range(2, min(N, lim) + 1):
                for t in itertools.combinations(nodes, r):
                    for s in itertools.product(('', '<'), repeat=r):
                        yield (k, [a + b for a, b in zip(s, t)])
        if 2 < N <= 5:
            yield (k, list(m.free))
            yield (k, list(m.free)[::-1])
            yield (k, ['<' + q for q in m.free])


def chk_int(case, st):
    k, nodes = case
    c, m = both(nets.allnets()[k])
    n = 0
    for Z in (None, 20.):
        n += obs_int(c, m, FS[0], nodes, Z, st)
        st.transitions += 1
    if not n:
        st.skipped += 1


# --- all small topologies
def topo(tier):
    d = 1 if tier == 'quick' else 2
    for k, (pool, ops) in c01.TOPO.items():
        for seq in grow(None, c01.free_of(pool, ops), d):
            yield (k, seq)


def chk_topo(case, st):
    k, seq = case
    pool, ops = c01.TOPO[k]
    c, m = both(pool + [CT(ops + seq, Zb=33.)])
    st.transitions += len(seq)
    try:
        obs_sol(c, m, FS[0], excite(m.free), 20., None, st)
        obs_sol(c, m, FS[0], excite(m.free, 1), None, None, st)
    except Ill:
        st.skipped += 1


# --- nested circuits of C01
def chk_nest(case, st):
    specs = c01.nest_specs(case)
    c, m = both(specs)
    try:
        obs_sol(c, m, FS[0], excite(m.free), None, None, st)
        obs_sol(c, m, FS[1], excite(m.free), 20., None, st)
    except Ill:
        st.skipped += 1
    st.transitions += 2


# --- objects that several blocks share, with parameters of the blocks
SHARED = {k: (lambda b=b: b()) for k, b in (('A', c02.sysA), ('B', c02.sysB), ('C', c02.sysC))}


def sysP():
    """one circuit object in four blocks on two levels, parameters of each block"""
    u = CT([['add', 'A', 0], ['add', 'L', 1], ['con', ['A.p', 'L.1', 'k']]], Zb=20.)
    w = CT([['add', 'X', 2, None, 0, {'A': {'Rs': 2., 'Ls': 9e-9}, 'L': {'L': 1.3}}],
            ['add', 'Y', 2, None, 0, {'A': {'Rs': 31., 'Ls': 80e-9}, 'L': {'L': 2.2}}],
            ['add', 'Z', 3, None, 0], ['con', ['X.k', 'Y.A.s', 'Z.p']]], Zb=40.)
    return [c02.R, c02.LN, u, c02.R2, w], CT(
        [['add', 'M', 4, None, 0, {'Z': {'Rs': 2.}}], ['add', 'N', 4, None, 2., {'Z': {'Rs': 25.}}],
         ['add', 'P', 2, None, 5., {'A': {'Rs': 7., 'Ls': 15e-9}, 'L': {'L': 1.1}}],
         ['con', ['M.Y.k', 'N.X.A.s', 'P.k', 'j']],
         ['term', 'N.Y.k', 'RC', .3]], Zb=33.)


def shared_specs(k):
    pool, top = (sysP if k == 'P' else SHARED[k])()
    return pool + [top]


def shared(tier):
    for k in 'ABCP':
        m = model_pool(shared_specs(k))[-1]
        nodes = allnodes(m)
        yield (k, None, 'S')
        yield (k, [], 'S')
        for q in nodes:
            yield (k, [q], 'S')
            yield (k, [q], 'I')
        for a, b in itertools.combinations(nodes, 2):
            yield (k, [a, b], 'S')
            if tier != 'quick':
                yield (k, [b, '<' + a], 'I')


def chk_shared(case, st):
    k, nodes, how = case
    c, m = both(shared_specs(k))
    st.transitions += 3
    if how == 'I':
        st.skipped += not obs_int(c, m, FS[0], nodes, None, st)
    else:
        obs_sol(c, m, FS[0], excite(m.free), None, nodes, st)
        obs_sol(c, m, FS[1], excite(m.free, 1), 75., nodes, st)
        if nodes is None:
            obs_waves(c, m, FS[0], excite(m.free), None, st)


# --- the solution is linear in the excitation, whatever its size
AMP = [1e-10, 2e-10, 1e-13, 1., 1e7]


def sizes(tier):
    for k in nets.allnets():
        for p in itertools.permutations(AMP, 2):
            yield (k, list(p))


def chk_sizes(case, st):
    k, amps = case
    c, m = both(nets.allnets()[k])
    for a in amps:
        for e in (0, 1):
            E = {q: a * v for q, v in excite(m.free, e).items()}
            obs_sol(c, m, FS[0], E, None, None, st)
            st.transitions += 1


def families(tier):
    return [
        Family('catalogue', lambda: cat(tier), chk_cat,
               'catalogue x every unit excitation and a complex one x 3 impedances, all nodes'),
        Family('selections', lambda: selections(tier), chk_sel, 'node selections of the catalogue'),
        Family('internal-S', lambda: internal(tier), chk_int, 'node tuples with directions'),
        Family('topology', lambda: topo(tier), chk_topo, 'connect/terminate sequences'),
        Family('shared', lambda: shared(tier), chk_shared,
               'objects shared by blocks with parameters: every node, every pair of nodes'),
        Family('sizes', lambda: sizes(tier), chk_sizes, 'ordered pairs of 5 sizes of the excitation, same circuit'),
        Family('nesting', lambda: c01.nesting(tier), chk_nest, 'nested circuits of C01'),
    ]
