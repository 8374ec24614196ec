"""C01: the S-matrix of a circuit is the one of the physical network."""
import itertools
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from . import nets

PROP = 'C01'
ASSUME = ['networks whose tableau (or a nested one) is singular or ill conditioned '
          '(norm of the inverse > 1e6) are skipped and counted',
          'reference impedances of circuits are real and positive']

F = [FS[0], FS[1]]


def check_net(specs, st, fs=(FS[0],), Zs=(None, 20.), lists=False, tol=1e-7):
    rp = real_pool(specs)
    mp = model_pool(specs)
    c, m = rp[-1], mp[-1]
    if sorted(c.ports) != sorted(m.free):
        raise Violation(f'external ports {c.ports}, expected {m.free}')
    st.transitions += len(specs[-1]['ops'])
    for f in fs:
        for Z in Zs:
            try:
                sol = m.solve(f, Z)
            except Ill:
                st.skipped += 1
                continue
            G = c.getS(f) if Z is None else c.getS(f, Zbase=Z)
            st.transitions += 1
            if m.Portnames and list(c.ports) != m.ports:
                raise Violation(f'port order {c.ports}, announced {m.ports}')
            if sorted(c.ports) != sorted(m.free) or len(c) != len(m.free):
                raise Violation(f'external ports {c.ports}, expected {m.free}')
            R = sol.perm(c.ports)
            if not close(G, R, tol):
                raise Violation(f'f={f} Z={Z}: getS is\n{np.round(G, 5)}\nexpected\n{np.round(R, 5)}\n'
                                f'for ports {c.ports}')
            st.checks += 1
            st.state(rnd(R), tuple(c.ports))
            st.outcome(rnd(R, 3))
    if lists:
        try:
            R = [m.solve(f, 20.).perm(c.ports) for f in FS]
        except Ill:
            return
        for fs in (list(FS), np.array(FS)):
            G = c.getS(fs, Zbase=20.)
            if not close(np.array(G), np.array(R), tol):
                raise Violation(f'list of frequencies: {G} instead of {R}')
            st.checks += 1


# --- 1. all sequences of connections and terminations
TOPO = {
    'S2S3': ([S(2, 1, 30., ['1', '2']), S(3, 2, 75., ['1', '11', '2'])],
             [['add', 'T', 0], ['add', 'T1', 1]]),
    'L2S2A1': ([LOSSY(1.1, 40.), S(2, 4, cls='arr'), ARC(60e-9)],
               [['add', 'A', 0], ['add', 'A1', 1], ['add', 'A11', 2]]),
}


def free_of(specs, ops):
    m = model_pool(specs + [CT(ops)])[-1]
    return m.free


def topo(tier):
    d = 2 if tier == 'quick' else 3
    for k, (pool, ops) in TOPO.items():
        for seq in grow(None, free_of(pool, ops), d):
            yield (k, seq)


def chk_topo(case, st):
    k, seq = case
    pool, ops = TOPO[k]
    check_net(pool + [CT(ops + seq, Zb=33.)], st)


# --- 2. port mappings and announced orders
def maps(names):
    n = len(names)
    yield None
    yield {}
    yield {names[0]: 'x'}
    yield {names[-1]: names[0] + 'q', names[0]: names[-1]} if n > 1 else {names[0]: 'y'}
    if n > 1:
        yield {names[0]: names[1], names[1]: names[0]}
    yield {names[i]: names[(i + 1) % n] for i in range(n)}
    yield [f'z{i}' for i in range(n)]
    yield list(reversed(names))
    yield 'p%d'


def portmaps(tier):
    for k, s in PRIMS.items():
        arr = s['t'] == 'S' and s.get('cls') == 'arr'
        for im, mp in enumerate(maps(oports(s))):
            if arr and isinstance(mp, dict):
                continue
            names = block_names(s, mp)
            orders = [None] + list(itertools.permutations(names))
            if len(names) > 3 and tier == 'quick':
                orders = orders[::4]
            for o in orders:
                for joined in (False, True):
                    yield (k, mp, o, joined)


def block_names(s, mp):
    m = model_pool([s, CT([['add', 'B', 0, mp]])])[-1]
    return m.blocks['B']['ports']


def chk_portmaps(case, st):
    k, mp, o, joined = case
    ops = [['add', 'B', 0, mp], ['add', 'B1', 1]]
    names = block_names(PRIMS[k], mp)
    rest = [f'B.{q}' for q in names] + ['B1.1', 'B1.2']
    if joined:
        ops += [['con', [f'B.{names[0]}', 'B1.2', 'j']]]
        rest = [q for q in rest if q not in (f'B.{names[0]}', 'B1.2')] + ['j']
    pn = []
    if o is not None:
        pn = [f'B.{q}' for q in o if f'B.{q}' in rest] + [q for q in rest if q[:2] != 'B.'][::-1]
    check_net([PRIMS[k], S(2, 9, 90., ['1', '2']), CT(ops, Zb=33., Portnames=pn)], st, Zs=(None, 70.))


# --- 3. reference impedances x terminations x elements
def zbases(tier):
    els = ['obj2', 'base2', 'arr2', 'lossy', 'rlc', 'rlc2', 'trl', 'cpl', 'obj3']
    for k in els:
        for zb in (50., 20.):
            for zo in (50., 90.):
                for ti in range(len(TERMS)):
                    yield (k, zb, zo, ti)


def chk_zbases(case, st):
    k, zb, zo, ti = case
    s = dict(PRIMS[k])
    if 'Zb' in s:
        s['Zb'] = zo
    names = oports(s)
    kind, val = TERMS[ti]
    ops = [['add', 'X', 0], ['add', 'Y', 1], ['con', [f'X.{names[0]}', 'Y.1']],
           ['term', 'Y.2', kind, val]]
    check_net([s, S(3, 6, 65., ['1', '2', '3']), CT(ops, Zb=zb)], st, fs=FS[:2],
              Zs=(None, 50., 20., 130., zb * 1.002), lists=True)


# --- 4. nesting
INNER = {
    'plain': lambda: [['add', 'T', 0], ['add', 'T1', 1], ['con', ['T.2', 'T1.1']]],
    'named': lambda: [['add', 'T', 0], ['add', 'T1', 1], ['con', ['j', 'T.2', 'T1.1']]],
    'self': lambda: [['add', 'T', 0], ['add', 'T1', 1], ['con', ['T1.2', 'T1.11', 'k']]],
    'three': lambda: [['add', 'T', 0], ['add', 'T1', 1], ['con', ['T.2', 'T1.1', 'T1.2', 'k']]],
    'term': lambda: [['add', 'T', 0], ['add', 'T1', 1], ['con', ['T.1', 'T1.11']],
                     ['term', 'T1.2', 'Y', .01 - .02j]],
    'chain': lambda: [['add', 'T', 0], ['add', 'T1', 1], ['con', ['T.1', 'a']], ['con', ['a', 'T1.11', 'b']],
                      ['con', ['b', 'c', 'T1.2']]],
}


def nesting(tier):
    for k in INNER:
        base = [S(2, 1, 30., ['1', '2']), S(3, 2, 75., ['1', '11', '2'])]
        free = free_of(base, INNER[k]())
        perms = [None] + list(itertools.permutations(free))
        for ip, pn in enumerate(perms):
            if tier == 'quick' and len(perms) > 7 and ip % 4 > 1:
                continue
            for mode in ('same', 'twice', 'deep', 'copy'):
                for ren in (0, 1, 2):
                    yield (k, pn, mode, ren)


def chk_nesting(case, st):
    check_net(nest_specs(case), st, fs=FS[:2], Zs=(None, 20.))


def nest_specs(case):
    k, pn, mode, ren = case
    base = [S(2, 1, 30., ['1', '2']), S(3, 2, 75., ['1', '11', '2']), LOSSY(1.7, 110.)]
    free = free_of(base, INNER[k]())
    inner = CT(INNER[k](), Zb=70., **({'Portnames': list(pn)} if pn else {}))
    n = len(free)
    srt = sorted(free)
    mp = [None, {srt[i]: srt[(i + 1) % n] for i in range(n)}, {srt[0]: 'q', srt[-1]: 'T'}][ren]
    nm = [(mp or {}).get(q, q) for q in srt]
    if mode == 'same':
        ops = [['add', 'N', 3, mp], ['add', 'N1', 2], ['con', [f'N.{nm[0]}', 'N1.2']]]
        pool = base + [inner, CT(ops, Zb=40.)]
    elif mode == 'copy':      # two equal circuits, different objects
        ops = [['add', 'N', 3, mp], ['add', 'N1', 4], ['con', [f'N.{nm[0]}', f'N1.{srt[-1]}', 'h']]]
        pool = base + [inner, inner, CT(ops, Zb=40.)]
    elif mode == 'twice':     # one object, two blocks
        ops = [['add', 'N', 3, mp], ['add', 'N1', 3], ['con', [f'N1.{srt[0]}', f'N.{nm[-1]}', 'h']]]
        pool = base + [inner, CT(ops, Zb=40.)]
    else:
        mid = CT([['add', 'N', 3, mp], ['add', 'T', 0], ['con', [f'N.{nm[-1]}', 'T.2', 'x']]], Zb=25.)
        ops = [['add', 'M', 4], ['add', 'N', 3], ['con', ['M.x', f'N.{srt[0]}']]]
        pool = base + [inner, mid, CT(ops, Zb=40.)]
    return pool


# --- 5. order of construction
def orders(tier):
    pool, adds, joins = ORDER
    n = len(adds) + len(joins)
    for perm in itertools.permutations(range(n)):
        # an operation needs its blocks (and named ports) to exist
        ok = set()
        good = True
        for i in perm:
            if i < len(adds):
                ok.add(adds[i][1])
            else:
                op = joins[i - len(adds)]
                q = op[1] if op[0] == 'con' else [op[1]]
                for r in q:
                    if '.' in r and r.split('.')[0] not in ok:
                        good = False
                    if r == 'j' and op[0] == 'term' and 'j' not in ok:
                        good = False
                if op[0] == 'con' and 'j' in q:
                    ok.add('j')
            if not good:
                break
        if good:
            yield list(perm)


ORDER = ([S(2, 1, 30., ['1', '2']), S(3, 2, 75., ['1', '11', '2']), LOSSY(1.7, 110.)],
         [['add', 'T', 0], ['add', 'T1', 1], ['add', 'T11', 2]],
         [['con', ['T.2', 'T1.1']], ['con', ['T1.11', 'T11.1', 'j']], ['term', 'T1.2', 'Z', 20 + 10j]])


def chk_orders(perm, st):
    pool, adds, joins = ORDER
    ops = [(adds + joins)[i] for i in perm]
    check_net(pool + [CT(ops, Zb=33.)], st, fs=FS[:2])


# --- 6. arity, many blocks
def arity(tier):
    for n in range(1, 8):
        for new in (None, 'first', 'mid', 'last'):
            if n == 1 and new is None:
                continue
            for big in (False, True):
                for then in (None, 'term', 'con'):
                    if then and not new:
                        continue
                    yield (n, new, big, then)


def chk_arity(case, st):
    n, new, big, then = case
    pool = [S(13, 5, 60.), S(2, 1, 30., ['1', '2']), S(2, 3, 20., ['1', '2'], 'base'), LOSSY(.9, 80.)]
    ops = []
    if big:
        ops.append(['add', 'B', 0])
        olds = [f'B.{q}' for q in (1, 11, 2, 12, 3, 13, 10)[:n]]
    else:
        for i in range(1, n + 1):
            ops.append(['add', f'B{i if i < 3 else i + 8}', 1 + i % 3])
        olds = [f'B{i if i < 3 else i + 8}.{1 + i % 2}' for i in range(1, n + 1)]
    ops.append(['add', 'Z', 1])
    p = list(olds)
    if new:
        p.insert({'first': 0, 'mid': n // 2, 'last': n}[new], 'w')
    ops.append(['con', p])
    if then == 'term':
        ops.append(['term', 'w', 'Y', .03j])
    elif then == 'con':
        ops.append(['con', ['Z.2', 'w', 'w2']])
    check_net(pool + [CT(ops, Zb=45.)], st, fs=FS[:2])


# --- 7. the catalogue
def cat(tier):
    return list(nets.allnets())


def chk_cat(name, st):
    check_net(nets.allnets()[name], st, fs=FS, Zs=(None, 20., 75.), lists=True)


def families(tier):
    d = 2 if tier == 'quick' else 3
    return [
        Family('catalogue', lambda: cat(tier), chk_cat, 'catalogue of circuits with nesting up to 3'),
        Family('topology', lambda: topo(tier), chk_topo,
               f'all connect/terminate sequences of depth <= {d} on 2 block sets with 5 ports'),
        Family('portmaps', lambda: portmaps(tier), chk_portmaps,
               'every object class x port mapping form x announced order'),
        Family('impedances', lambda: zbases(tier), chk_zbases,
               'elements x circuit Zbase x element Zbase x 12 terminations x 5 request Zbase, one of which is close to that of the circuit'),
        Family('nesting', lambda: nesting(tier), chk_nesting,
               'inner wiring x announced order x reuse mode x renaming'),
        Family('construction-order', lambda: orders(tier), chk_orders, 'all orders of 6 operations'),
        Family('arity', lambda: arity(tier), chk_arity, 'junctions of 1..7 ports'),
    ]
