"""Finite alphabets of networks (specs of ref.py) shared by the checks."""
import functools, itertools, math
import numpy as np

INF = float('inf')


def S(n, id, Zb=50., ports=None, cls='obj', xpos=None):
    d = dict(t='S', n=n, id=id, cls=cls)
    if cls != 'arr':
        d['Zb'] = Zb
        if ports:
            d['ports'] = ports
        if xpos:
            d['xpos'] = xpos
    return d


def TRL(L, Z0=50., Zb=50., **kw):
    return dict(t='TRL', L=L, Z0=Z0, Zb=Zb, **kw)


def LOSSY(L, Zb=50., **kw):
    return dict(t='TRL', L=L, LCRG=(2.5e-7, 1.0e-10, 3.0, 4e-4), Zb=Zb, **kw)


def RLC(Zb=50., ports=None, xpos=None, **p):
    d = dict(t='RLC', Zb=Zb, p=p)
    if ports:
        d['ports'] = ports
    if xpos:
        d['xpos'] = xpos
    return d


def CPL(Zb=50., **kw):
    return dict(t='CPL', Zb=Zb, **kw)


def ARC(Larc=None, Zb=50., **kw):
    d = dict(t='ARC', Zb=Zb, **kw)
    if Larc is not None:
        d['Larc'] = Larc
    return d


def CT(ops, Zb=50., **kw):
    return dict(t='CT', Zb=Zb, ops=ops, **kw)


TERMS = [('Z', 20 + 10j), ('Z', 0.), ('Z', INF), ('Y', 0.), ('Y', 0.02 - 0.01j), ('Y', INF),
         ('RC', 0.4 - 0.3j), ('RC', -1.), ('RC', 1.), (None, None), ('Z', 75.), ('Z', 50.)]

# one specimen of every primitive: (spec, port names)
PRIMS = {
    'obj2': S(2, 1, 30., ['1', '2'], xpos=[0.5, 1.75]),
    'obj3': S(3, 2, 75., ['a', 'b', '11'], xpos=[0.1, 0.3, 0.7]),
    'base2': S(2, 3, 20., ['1', '11'], 'base', xpos=[0.25, -1.]),
    'arr2': S(2, 4, cls='arr'),
    'arr3': S(3, 5, cls='arr'),
    'trl': TRL(1.3, 35., 60., xpos=[0.2, 1.5]),
    'lossy': LOSSY(2.1, 40., ports=['in', 'out']),
    'rlc': RLC(25., Rs=3., Ls=40e-9, Cp=30e-12, Rp=900., xpos=[0.3, 0.4]),
    'rlc2': RLC(80., Cs=90e-12, Rs=2., Lp=120e-9),
    'cpl': CPL(45., kc=0.6, Lc=1.2, xpos=[0., 1.2, 0.1, 1.3]),
    'arc': ARC(70e-9, 65.),
    # (port names that are not in alphabetical order)
    'base3': S(3, 6, 35., ['c', '11', 'a'], 'base', xpos=[.5, .1, .9]),
    'obj3u': S(3, 8, 55., ['q', 'B', 'b'], xpos=[.4, .2, .6]),
    'lossyu': LOSSY(1.7, 30., ports=['z', 'b']),
    'rlcu': RLC(65., ['z', 'b'], [.8, .2], Rs=7., Ls=20e-9, Cp=50e-12),
}


def nports(s):
    return {'S': lambda: s['n'], 'TRL': lambda: 2, 'RLC': lambda: 2, 'CPL': lambda: 4,
            'ARC': lambda: 1}[s['t']]()


def oports(s):
    """names the ports have in a block without renaming"""
    if s['t'] == 'S' and s.get('cls') == 'arr':
        return [str(k + 1) for k in range(s['n'])]
    d = {'TRL': ['1', '2'], 'RLC': ['s', 'p'], 'CPL': ['A1', 'A2', 'B1', 'B2'], 'ARC': ['1']}
    return list(s.get('ports') or d.get(s['t']) or [str(k + 1) for k in range(s['n'])])


def single(pool, ops, **kw):
    """a top circuit"""
    return pool + [CT(ops, **kw)]


# ---- step-by-step enumeration of the connect / terminate sequences
def grow(known, free, depth, new_names=('n', 'T'), terms=(('Z', 20 + 10j), ('Y', 0.), ('RC', .4 - .3j)),
         maxar=4, minar=1, conn_new=True, orders=False):
    """all sequences of at most `depth` operations on the free ports"""
    yield []
    if depth == 0:
        return
    for ar in range(minar, maxar + 1):
        for olds in (itertools.permutations(free, ar) if orders else itertools.combinations(free, ar)):
            for new in (None,) + ((new_names[0],) if conn_new and new_names else ()):
                if new is None and ar == len(free):
                    continue                      # nothing left
                where = (0,) if not orders else (0, ar)
                for w in where if new else (0,):
                    ports = list(olds)
                    if new:
                        ports.insert(w if orders else (ar // 2), new)
                    rest = [q for q in free if q not in olds] + ([new] if new else [])
                    for tail in grow(known, rest, depth - 1, new_names[1:] if new else new_names,
                                     terms, maxar, minar, conn_new, orders):
                        yield [['con', ports]] + tail
    if len(free) > 1:
        for q in free:
            for kind, val in terms:
                rest = [r for r in free if r != q]
                for tail in grow(known, rest, depth - 1, new_names, terms, maxar, minar, conn_new,
                                 orders):
                    yield [['term', q, kind, val]] + tail


# ---- a catalogue of complete circuits
def catalog(small=False):
    """name -> pool; the last object of the pool is the circuit"""
    c = {}
    P = PRIMS

    def put(name, pool, ops, **kw):
        c[name] = single(pool, ops, **dict(dict(Zb=33.), **kw))

    # 1. single blocks
    for k, s in P.items():
        put(f'one-{k}', [s], [['add', 'T', 0]])
    # 2. cascade of different impedances with a tee and termination
    put('tee', [P['trl'], P['obj3'], P['rlc']],
        [['add', 'T', 0, None, 0.4], ['add', 'T1', 1, None, -0.3], ['add', 'T12', 2, None, 2.],
         ['con', ['T.2', 'T1.a', 'T12.s']], ['term', 'T12.p', 'Z', 20 + 10j]])
    # 3. named junction used further on
    put('reuse', [P['lossy'], P['base2'], P['obj3']],
        [['add', 'T', 0, None, 1.], ['add', 'T1', 1, {'1': 'x'}, 0.2], ['add', 'Q', 2, {'a': 'b', 'b': 'a'}],
         ['con', ['j', 'T.out', 'T1.x']], ['con', ['Q.b', 'j']], ['con', ['T1.11', 'Q.11', 'k']],
         ['term', 'k', 'Y', 0.02 - 0.01j]])
    # 4. open junction, all kinds of termination
    put('terms', [P['cpl'], P['obj3'], P['trl']],
        [['add', 'C', 0], ['add', 'C1', 1], ['add', 'C11', 2],
         ['term', 'C.A2', 'RC', .4 - .3j], ['con', ['C.B1', 'C1.b']], ['term', 'C1.a', 'Z', 0.],
         ['con', ['C.B2', 'C11.1', 'm']], ['term', 'C11.2', 'Y', 0.]])
    # 5. loop: two parallel lines
    put('loop', [P['trl'], LOSSY(0.7), P['arr2']],
        [['add', 'A', 0], ['add', 'B', 1], ['add', 'D', 2, ['u', 'v'], 0.9],
         ['con', ['A.1', 'B.1', 'in']], ['con', ['A.2', 'B.2', 'D.u']]])
    # 6. the same object twice
    put('shared', [P['lossy'], P['obj3']],
        [['add', 'L1', 0, None, 0.], ['add', 'L2', 0, None, 3.], ['add', 'S', 1],
         ['con', ['L1.out', 'S.a']], ['con', ['S.b', 'L2.in']], ['term', 'L2.out', 'Z', 75.]])
    # 7. shared object with block parameters
    put('params', [P['rlc'], P['obj3'], P['trl']],
        [['add', 'R1', 0, None, 0., {'Ls': 10e-9}], ['add', 'R2', 0, None, 1., {'Ls': 90e-9}],
         ['add', 'S', 1], ['add', 'K', 2],
         ['con', ['R1.p', 'S.a']], ['con', ['R2.p', 'S.b']], ['con', ['K.1', 'S.11']],
         ['term', 'R2.s', 'Z', 20 + 10j]])
    # 8. nested circuit with announced order and renamed ports
    inner = CT([['add', 'T', 0, None, 0.4], ['add', 'T1', 1, None, 0.1],
                ['con', ['T.2', 'T1.a']], ['con', ['T1.b', 'o']]], Zb=70.,
               Portnames=['o', 'T1.11', 'T.1'], Id='inner')
    put('nested', [P['trl'], P['obj3'], inner, P['base2']],
        [['add', 'N', 2, {'T.1': 'p', 'T1.11': 'o', 'o': 'q'}, 5.], ['add', 'N1', 3, None, 0.2],
         ['con', ['N.q', 'N1.1']], ['term', 'N.o', 'RC', .4 - .3j]])
    # 9. nested twice (shared) and three levels
    lev1 = CT([['add', 'T', 0, None, .2], ['add', 'T1', 1, {'s': 'x'}, .1], ['con', ['T.out', 'T1.x', 'y']]],
              Zb=20.)
    lev2 = CT([['add', 'U', 2, {'T.in': 'i'}, .3], ['add', 'U1', 3, None, -.5],
               ['con', ['U.y', 'U1.a']], ['term', 'U.T1.p', 'Z', 20 + 10j]], Zb=110.,
              Portnames=['U1.11', 'U.i', 'U1.b'])
    put('deep', [P['lossy'], P['rlc2'], lev1, P['obj3'], lev2],
        [['add', 'V', 4, None, 7.], ['add', 'W', 4, {'U.i': 'z'}, -2.], ['con', ['V.U1.11', 'W.z', 'g']],
         ['con', ['W.U1.b', 'V.U1.b']]])
    # 10. many ports: names with prefix relations
    put('many', [S(12, 7, 40.), P['obj2']],
        [['add', 'B', 0, '%d'] if False else ['add', 'B', 0], ['add', 'B1', 1], ['add', 'B11', 1],
         ['con', ['B.1', 'B1.1']], ['con', ['B.11', 'B11.1']], ['con', ['B.2', 'B.10', 'j']],
         ['con', ['B.12', 'B1.2']], ['term', 'B.3', 'Z', 75.], ['con', ['B.4', 'B.5']]])
    # 11. array at the impedance of the circuit, nested
    arrn = CT([['add', 'M', 0, ['u', 'v', 'w'], 0.6], ['con', ['M.u', 'e']]], Zb=25.)
    put('arrays', [P['arr3'], P['arr2'], arrn],
        [['add', 'X', 2, None, 1.], ['add', 'Y', 1, 'y%d', .4], ['con', ['X.e', 'Y.y1', 'X.M.w', 'h']]])
    # 12. arc + coupler
    put('arc', [P['arc'], P['cpl'], P['obj2']],
        [['add', 'A', 0, None, .3], ['add', 'C', 1, {'A1': 'in'}], ['add', 'B', 2],
         ['con', ['A.1', 'C.B2']], ['con', ['C.A2', 'B.2']]])
    put('arcpar', [ARC(70e-9, 65.), P['obj3'], P['lossy'], ARC(44e-9, 15.)],
        [['add', 'A', 0, None, .3, {'Larc': 20e-9}], ['add', 'A2', 0, None, .5, {'Larc': INF}], ['add', 'B', 1],
         ['add', 'A3', 3, None, .7], ['add', 'K', 2], ['con', ['A.1', 'B.a']], ['con', ['A2.1', 'B.b', 't']],
         ['con', ['B.11', 'K.in', 'A3.1']]])
    # 13. deembedding inside
    put('deem', [S(3, 11, 45.), S(2, 12, 70.)],
        [['add', 'M', 0], ['add', 'F', 1], ['deem', [('F.1', 'd')], [('M.2', 'F.2')]]])
    # 14. order announced for a flat circuit
    put('order', [P['obj3'], P['lossy']],
        [['add', 'T', 0, None, .1], ['add', 'T1', 1, None, .7], ['con', ['T.b', 'z', 'T1.in']]],
        Portnames=['T1.out', 'z', 'T.11', 'T.a'])
    # 15. junction of one port, and rename chains
    put('chain', [P['obj2'], P['lossy']],
        [['add', 'T', 0, None, 1.5], ['add', 'T2', 1, None, 2.5], ['con', ['T.1', 'a']], ['con', ['b', 'a']],
         ['con', ['T.2', 'T2.out']], ['con', ['T2.in', 'c']], ['con', ['b', 'd']]])
    # 16. nested one whose junction joins inside, lines in both
    inn = CT([['add', 'L', 0, None, 0.], ['add', 'M', 0, None, 1.], ['con', ['L.out', 'M.in', 't']]], Zb=55.)
    put('nestline', [P['lossy'], inn, P['trl'], P['obj3']],
        [['add', 'N', 1, {'L.in': 'in', 'M.out': 'out'}, 2.], ['add', 'T', 2, None, 4.5],
         ['add', 'N2', 1, None, -6.], ['con', ['N.out', 'T.1', 'N2.L.in']], ['term', 'N.t', 'Y', 0.],
         ['term', 'N2.t', 'Z', 0.]])
    # 17. port names in another order than the alphabetical one
    inu = CT([['add', 'M', 0, None, .3], ['add', 'L', 1, None, .1], ['con', ['M.11', 'L.b', 'y']]], Zb=25.,
             Portnames=['y', 'M.c', 'L.z', 'M.a'])
    put('unsorted', [P['base3'], P['lossyu'], inu, P['rlcu'], P['obj3u']],
        [['add', 'Z', 2, {'y': 'B', 'M.a': 'c'}, 1.], ['add', 'K', 0, {'c': 'a', 'a': 'c'}, .2], ['add', 'A', 3, None, -1.],
         ['add', 'H', 4], ['con', ['Z.B', 'K.a', 'A.z']], ['con', ['H.q', 'A.b', 'w']], ['term', 'K.c', 'Z', 20 + 10j]],
        Portnames=['w', 'Z.c', 'H.b', 'Z.M.c', 'K.11', 'Z.L.z', 'H.B'])
    if small:
        keep = ['one-obj3', 'one-trl', 'tee', 'reuse', 'terms', 'shared', 'params', 'nested', 'deep',
                'arrays', 'order', 'nestline']
        c = {k: c[k] for k in keep}
    return c


# ---- the same circuits with names that are easily confused
NAMES = {'prefix': lambda i: 'ABCDEFGH'[:i + 1], 'suffix': lambda i: 'HGFEDCBA'[7 - i:], 'digits': lambda i: str(i + 1) * (1 + i % 2),
         'reverse': lambda i: 'ABCDEFGH'[:5 - i]}


def renamed(pool, scheme):
    """the circuit with its blocks renamed; all levels use the same names (junctions are kept, or get such names also)"""
    out, pmap = [], []
    for s in pool:
        if s['t'] != 'CT':
            out.append(s)
            pmap.append({q: q for q in oports(s)})
            continue
        blk, loc, jn, ops = {}, {}, {}, []
        free = []

        def node(q):
            if '.' not in q:
                return jn.get(q, q)
            b, r = q.split('.', 1)
            return f'{blk[b]}.{loc[b][r]}'

        for op in s['ops']:
            if op[0] == 'add':
                _, name, i, *r = op
                r = list(r) + [None] * (3 - len(r))
                blk[name] = NAMES[scheme](len(blk))
                pm = pmap[i]
                if r[0] is None:
                    loc[name] = dict(pm)
                elif isinstance(r[0], dict):
                    loc[name] = {r[0].get(q, q): r[0].get(q, n) for q, n in pm.items()}
                    r[0] = {pm[q]: n for q, n in r[0].items()}
                elif isinstance(r[0], str):
                    loc[name] = {r[0] % (k + 1): r[0] % (k + 1) for k in range(len(pm))}
                else:
                    loc[name] = {q: q for q in r[0]}
                ops.append(['add', blk[name], i] + r)
                free += [f'{name}.{q}' for q in loc[name]]
            elif op[0] == 'con':
                for q in op[1]:
                    if '.' not in q and q not in jn:       # a new junction
                        t = NAMES[scheme](len(jn))
                        jn[q] = q if scheme == 'digits' else t if scheme == 'reverse' else t.lower()
                ops.append(['con', [node(q) for q in op[1]]])
                new = [q for q in op[1] if q not in free]
                free = [q for q in free if q not in op[1]] + new
            elif op[0] == 'term':
                ops.append(['term', node(op[1])] + list(op[2:]))
                free.remove(op[1])
            else:
                return None
        d = dict(s, ops=ops)
        if s.get('Portnames'):
            d['Portnames'] = [node(q) for q in s['Portnames']]
            free = list(s['Portnames'])
        out.append(d)
        pmap.append({q: node(q) for q in free})
    return out


def late(pool):
    """the circuit with its blocks added only when they are needed (nothing if that is how it is built anyway)"""
    s = pool[-1]
    if any(op[0] not in ('add', 'con', 'term') for op in s['ops']):
        return None
    wait, ops = [op for op in s['ops'] if op[0] == 'add'], []
    for op in s['ops']:
        if op[0] == 'add':
            continue
        need = {q.split('.')[0] for q in (op[1] if op[0] == 'con' else [op[1]]) if '.' in q}
        for a in [a for a in wait if a[1] in need]:
            wait.remove(a)
            ops.append(a)
        ops.append(op)
    ops += wait
    return pool[:-1] + [dict(s, ops=ops)] if ops != s['ops'] else None


@functools.lru_cache(None)
def confusing():
    """name -> pool"""
    q = {f'{k}/late': r for k, s in catalog().items() for r in [late(s)] if r is not None}
    return {**q, **_confusing()}


def _confusing():
    return {f'{k}/{n}': r for k, s in catalog().items() if not k.startswith('one-') for n in NAMES
            for r in [renamed(s, n)] if r is not None}


def allnets(trees=False):
    """trees: without junctions that are called like a block (these have no entry of their own in a voltage tree)"""
    return {**catalog(), **{k: s for k, s in confusing().items() if not (trees and k.endswith('/reverse'))}}
