"""C17: circuits from model files are the circuits their declarations describe.

Every model of a finite alphabet is written to a file and read with rfGTL; an
independent interpreter of the declarations (variables by dependency, units,
aliases, junctions by shared names, positions by propagation) builds the same
network for the reference model, or by hand with the classes of the package.
"""
import itertools, pprint
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import c01

PROP = 'C17'
ASSUME = c01.ASSUME + ['a name that is both a local and a global variable is not used, nor contradicting positions',
                       'blocks without any positional information are at -10 (convention of the code)']
UNIT = {'ID': 1e-3, 'OD': 1e-3, 'CTL': 1e-12, 'LTL': 1e-9, 'rho': 1e-6, 'Cs': 1e-12, 'Cp': 1e-12, 'Ls': 1e-9,
        'Lp': 1e-9, 'Larc': 1e-9}
ALIAS = {'length': 'L', 'Z': 'Z0TL', 'relpos': 'xpos', 'Portnames': 'ports'}


class Refuse(Exception):
    pass


# --- the independent interpreter
class Vars(dict):
    def __init__(self, defs):
        self.defs, self.busy = defs, []

    def __missing__(self, k):
        if k in ('np', 'abs'):
            return {'np': np, 'abs': abs}[k]
        if k not in self.defs or k in self.busy:
            raise Refuse(f'variable {k}')
        self.busy.append(k)
        self[k] = self.val(self.defs[k])
        self.busy.pop()
        return self[k]

    def val(self, v):
        return eval(v, {'__builtins__': {}}, self) if isinstance(v, str) else v


def interpret(model, key, override, Zb):
    """-> list of (block, kind, ports, kw in SI units, relpos), junctions, terminations, Portnames"""
    d = model[key]
    defs = dict(d.get('variables', {}))
    defs.update(model.get('variables', {}))
    defs.update(override)
    vs = Vars(defs)
    known = {p: vs.val(x) for p, x in d.get('relpos', {}).items()}
    blocks, use = [], {}
    for b, kw in d['GTL'].items():
        k = {}
        for a, v in kw.items():
            a = ALIAS.get(a, a)
            if a in k:
                raise Refuse(f'{a} twice')
            if a != 'ports':
                v = vs.val(v)
                if a in UNIT:
                    v = [x * UNIT[a] for x in v] if isinstance(v, (list, tuple)) else v * UNIT[a]
            k[a] = v
        if 'ports' not in k:
            raise Refuse('no ports')
        ps = k.pop('ports')
        rel = k.pop('xpos', None)
        kind = 'RLC' if set(k) & {'Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'} else 'ARC' if 'Larc' in k else 'TRL'
        names, terms = [], []
        for q in ps:
            if isinstance(q, dict):
                names.append('[**2]' if '[**]' in names else '[**]')
                terms.append((names[-1], q))
            elif q in ('[oc]', '[sc]'):
                names.append(q)
                terms.append((q, {'Y': 0} if q == '[oc]' else {'Z': 0}))
            else:
                names.append(q)
                use.setdefault(q, []).append(b)
        blocks.append([b, kind, names, k, rel, terms])
    free = [q for q, u in use.items() if len(u) == 1]
    ann = list(d.get('Portnames', []))
    if sorted(free) != sorted(ann):
        raise Refuse('declared ports')
    if set(known) - set(ann):
        raise Refuse('position of a port that is not declared')
    # positions
    xs = {b[0]: [0., b[3]['L']] if b[1] == 'TRL' else [0.] * len(b[2]) for b in blocks}
    at = {}
    for b in blocks:
        if b[4] is not None:
            at[b[0]] = b[4]
    more = True
    while more:
        more = False
        for b in blocks:
            for q, x in zip(b[2], xs[b[0]]):
                if q[0] == '[':
                    continue
                if b[0] in at and q not in known:
                    known[q] = at[b[0]] + x
                    more = True
                elif b[0] not in at and q in known:
                    at[b[0]] = known[q] - x
                    more = True
    for b in blocks:
        b[4] = at.get(b[0], -10.)
    clash = any(abs(known[q] - b[4] - x) > 1e-6 for b in blocks if b[0] in at
                for q, x in zip(b[2], xs[b[0]]) if q in known)
    joins = [[f'{b}.{q}' for b in u] for q, u in use.items() if len(u) > 1]
    ends = [(f'{use[q][0]}.{q}', q) for q in ann]
    terms = [(f'{b[0]}.{q}', t) for b in blocks for q, t in b[5]]
    return blocks, joins, terms, ends, ann, clash


def specs_of(blocks, joins, terms, ends, ann, clash, Zb):
    pool, ops = [], []
    for i, (b, kind, names, k, rel, _) in enumerate(blocks):
        if kind == 'TRL':
            if set(k) <= {'L', 'Z0TL'}:
                s = TRL(k['L'], k['Z0TL'], Zb, ports=names)
            else:
                s = dict(t='TRL', L=k['L'], LCRG=(k['LTL'], k['CTL'], k.get('rTL', 0.), k.get('gTL', 0.)), Zb=Zb,
                         ports=names)
        elif kind == 'RLC':
            s = RLC(Zb, ports=names, **k)
        else:
            s = ARC(k['Larc'], Zb, ports=names)
        pool.append(s)
        ops.append(['add', b, i, None, rel])
    for j in joins:
        ops.append(['con', j])
    for q, t in terms:
        (kind, v), = t.items()
        ops.append(['term', q, kind, v])
    for q, p in ends:
        ops.append(['con', [q, p]])
    return pool + [CT(ops, Zb=Zb, Portnames=ann)]


def by_hand(blocks, joins, terms, ends, ann, clash, Zb):
    """the same circuit with the classes of the package"""
    import pyRFtk as rf
    from pyRFtk.rfArcObj import rfArcObj
    c = rf.rfCircuit(Zbase=Zb, Portnames=ann)
    for b, kind, names, k, rel, _ in blocks:
        cls = {'TRL': rf.rfTRL, 'RLC': rf.rfRLC, 'ARC': rfArcObj}[kind]
        c.addblock(b, cls(Zbase=Zb, ports=names, **k), relpos=rel)
    for j in joins:
        c.connect(*j)
    for q, t in terms:
        c.terminate(q, **t)
    for q, p in ends:
        c.connect(q, p)
    return c


def read(model, key, override=None, Zb=50., **kw):
    import pyRFtk as rf
    with open('m.mod', 'w') as fh:
        fh.write(pprint.pformat(model, sort_dicts=False))
    args = dict(objkey=key, Zbase=Zb, **kw)
    if override is not None:
        args['variables'] = override
    return rf.rfGTL('m.mod', **args)


def compare(model, key, override, Zb, st, fs=(FS[0], FS[2]), full=True):
    """interpretation by the code and by the reference"""
    try:
        parts = interpret(model, key, override or {}, Zb)
        m = model_pool(specs_of(*parts, Zb))[-1]
        refused = False
    except Refuse as e:
        refused = str(e)
    if not refused:
        try:
            m.solve(45e6)                      # the file is evaluated once while it is read
        except Ill:
            st.skipped += 1
            return None
    try:
        c = read(model, key, override, Zb)
    except Exception as e:
        st.checks += 1
        st.transitions += 1
        st.outcome('refused', type(e).__name__)
        if not refused:
            raise Violation(f'refused with {type(e).__name__}: {e}')
        return None
    if refused:
        raise Violation(f'accepted although {refused}')
    st.transitions += 1
    w = 'model file: '
    if list(c.ports) != parts[4] or list(c.Portnames) != parts[4]:
        raise Violation(f'ports are {c.ports}, declared {parts[4]}')
    if c.Zbase != Zb:
        raise Violation(f'Zbase {c.Zbase}, asked {Zb}')
    obs_all(c, m, st, fs, 20., w, not parts[5], only=('S', 'V', 'M', 'P') if full else ('S', 'P'))
    st.transitions += 4 * len(fs)
    return c, m


# --- topologies
def growth(n, nterm, top):
    """assignments of names p0.. (in the order of first use) or terminations to n ports"""
    def rec(i, k):
        if i == n:
            yield []
            return
        for s in list(range(min(k + 1, top))) + [-t - 1 for t in range(nterm)]:
            for tail in rec(i + 1, max(k, s + 1)):
                yield [s] + tail
    return rec(0, 0)


TRMS = ['[sc]', '[oc]', {'Z': (20 + 10j)}, {'RC': -.4}, {'Y': .02j}]
KINDS = {'K': dict(length=1.2, Z=35.), 'Y': dict(L=.7, LTL=250., CTL=100., rTL=3., gTL=4e-4),
         'R': dict(Rs=3., Ls=40., Cp=30., Rp=900.), 'A': dict(Larc=70.)}


def make(kinds, syms, order, rel):
    g, i = {}, 0
    names = {}
    for k, kd in enumerate(kinds):
        n = 1 if kd == 'A' else 2
        ps = []
        for s in syms[i:i + n]:
            ps.append(f'p{s}' if s >= 0 else TRMS[-s - 1])
            if s >= 0:
                names[s] = names.get(s, 0) + 1
        i += n
        b = f'B{k}' if k != 1 else 'B'
        g[b] = dict({'Portnames' if k % 2 else 'ports': ps}, **KINDS[kd])
        if rel and k == (len(kinds) - 1 if rel < 0 else 0):
            g[b]['relpos' if k % 2 else 'xpos'] = rel
    free = [f'p{s}' for s, v in names.items() if v == 1]
    return {'M': {'Portnames': list(order(free)), 'GTL': g}}


ORD = [sorted, lambda q: sorted(q)[::-1], lambda q: sorted(q)[1:] + sorted(q)[:1]]


def topo(tier):
    for n, nt, top in ((1, 5, 2), (2, 4, 4), (3, 2 if tier == 'quick' else 3, 6)):
        for kinds in itertools.product('KYRA', repeat=n):
            if n == 3 and (kinds[0] == 'A' or len(set(kinds)) < (3 if tier == 'quick' else 2)):
                continue
            slots = [1 if k == 'A' else 2 for k in kinds]
            for s in growth(sum(slots), nt, top):
                i, ok = 0, True
                for k in slots:
                    ok = ok and len(set(s[i:i + k])) == k          # a name once per block
                    i += k
                fr = sum(1 for x in set(s) if x >= 0 and s.count(x) == 1)
                if not ok or not fr:
                    continue
                if n == 3 and (fr > 3 or sum(x < 0 for x in s) > 2):
                    continue
                for o in range(min(fr, 3) if n < 3 else 1):
                    yield (n, ''.join(kinds), s, o if n < 3 else hash_(s) % min(fr, 3), (0, 3., -2.)[hash_(s) % 3])


def hash_(s):
    return sum((i + 3) * (v + 7) for i, v in enumerate(s))


def chk_topo(case, st):
    n, kinds, s, o, rel = case
    compare(make(kinds, s, ORD[o], rel), 'M', None, 25. if n == 1 else 40., st, (FS[1],) if n > 1 else FS)


# --- variables
def defs(me, others):
    u, v = others
    return [2, '3', '0.5', u, v, f'2*{u}', f'{v}+{v}', f'{u}*{v}', f'{u}+{v}', f'np.sqrt({u})+1']


def varcases(tier):
    V = 'abc'
    for i in itertools.product(range(10), repeat=3):
        for order in (range(6) if tier != 'quick' else (0, 3, 5)):
            for place in ((0, 7, 2, 5) if tier != 'quick' else (hash_(i) % 8,)):
                yield ('v', list(i), order, place, None)
    for i in itertools.product((0, 1, 5, 7), repeat=3):
        for place in range(8):
            for who in range(3):
                for val in (1.5, '4', '2*' + V[(who + 1) % 3]):
                    yield ('o', list(i), 2, place, [V[who], val])


def chk_vars(case, st):
    kind, i, order, place, ov = case
    V = 'abc'
    d = {v: defs(v, [w for w in V if w != v])[k] for v, k in zip(V, i)}
    p = list(itertools.permutations(V))[order]
    loc = {v: d[v] for j, v in enumerate(p) if not place >> j & 1}
    glo = {v: d[v] for j, v in enumerate(p) if place >> j & 1}
    model = {'variables': glo, 'other': {'GTL': {'X': {'length': 'nowhere'}}, 'variables': {'a': 99, 'q': 'zz'}},
             'M': {'variables': loc, 'Portnames': ['y', 'x'], 'relpos': {'y': 'a+b'}, 'GTL': {
                 'L': {'length': 'a/4', 'Z': '30+c', 'Portnames': ['x', 'k']},
                 'R': {'Ls': 'b*20', 'Rs': '1', 'Portnames': ['k', 'y']},
                 'K': {'L': 0.3, 'Z': 'max(b,4)' if False else '4+b', 'ports': ['k', '[sc]']}}}}
    if not glo and order % 2:
        del model['variables']
    compare(model, 'M', dict([ov]) if ov else None, 50., st, (FS[0],), full=False)


# --- units and aliases
LINES = [
    (dict(L=1.3, Z0TL=35.), 'L Z0TL'), (dict(L=1.3, OD=100., ID=40.), 'OD ID L'),
    (dict(L=1.3, OD=100., ID=40., rho=.022), 'OD ID rho'), (dict(L=1.3, OD=100., Z0TL=30.), 'OD'),
    (dict(L=1.3, LTL=200., CTL=80.), 'LTL CTL'), (dict(L=1.3, Z0TL=25., CTL=130.), 'CTL'),
    (dict(L=1.3, Z0TL=25., LTL=130.), 'LTL'), (dict(L=1.3, LTL=200., CTL=80., rTL=2., gTL=1e-4), 'LTL rTL'),
    (dict(L=1.3, Z0TL=25., vr=.8), 'vr'), (dict(L=1.3, Z0TL=25., A=.02), 'A'),
    (dict(L=1.3, OD=[100., 150.], ID=[50., 60.]), 'OD ID'), (dict(L=1.3, OD=[100., 150.], ID=50., rho=.03), 'OD'),
    (dict(L=1.3, LTL=[200., 100., 220.], CTL=80.), 'LTL'),
    (dict(L=1.3, Z0TL=[25., 60.]), 'Z0TL'),
    (dict(Rs=3.), 'Rs'), (dict(Ls=30.), 'Ls'), (dict(Cs=60.), 'Cs'), (dict(Rp=300.), 'Rp'), (dict(Lp=70.), 'Lp'),
    (dict(Cp=20.), 'Cp'), (dict(Rs=1., Ls=20., Cs=90., Rp=400., Lp=60., Cp=10.), 'Rs Ls Cs Rp Lp Cp'),
    (dict(Larc=20.), 'Larc'),
]


def units(tier):
    for k in range(len(LINES)):
        for form in ('num', 'str', 'var', 'expr', 'tuple'):
            for alias in (0, 1):
                for Zb in (50., 20.):
                    yield (k, form, alias, Zb)


def chk_units(case, st):
    k, form, alias, Zb = case
    kw, _ = LINES[k]
    kw = {a: (list(v) if isinstance(v, list) else v) for a, v in kw.items()}
    var = {}
    for n, (a, v) in enumerate(list(kw.items())):
        if form == 'tuple':
            kw[a] = tuple(v) if isinstance(v, list) else v
        elif form == 'str':
            kw[a] = repr(v)
        elif form == 'var':
            var[f'v{n}'] = v
            kw[a] = f'v{n}'
        elif form == 'expr' and not isinstance(v, list):
            var[f'v{n}'] = v / 2
            kw[a] = f'v{n}+{v / 2!r}'
        elif form == 'expr':
            var[f'v{n}'] = v
            kw[a] = f'[x for x in v{n}]' if False else f'v{n}+[]'
    if alias:
        back = {'L': 'length', 'Z0TL': 'Z'}
        kw = {back.get(a, a): v for a, v in kw.items()}
    one = k == len(LINES) - 1
    model = {'M': {'variables': var, 'Portnames': ['x', 'a'], 'relpos': {'x': .5}, 'GTL': {
        'T': dict({'Portnames' if alias else 'ports': ['k'] if one else ['k', '[oc]']}, **kw),
        'L': {'ports': ['k', 'x'], 'length': .4, 'Z': 30.},
        'N': {'ports': ['a', 'k'], 'length': .9, 'Z': 70.}}}}
    parts = interpret(model, 'M', {}, Zb)
    c, h = read(model, 'M', None, Zb), by_hand(*parts, Zb)
    both(c, h, st, f'{LINES[k][0]} as {form}: ')


def shares(tier):
    for k in range(len(LINES)):
        for form in ('var', 'array', 'over', 'overarray', 'mixed'):
            for n in (1, 2, 3):
                for Zb in ((50.,) if tier == 'quick' else (50., 20.)):
                    yield (k, form, n, Zb)


def chk_shares(case, st):
    """several blocks described by the same variables, of the file or given by the caller, as numbers, lists and arrays"""
    k, form, n, Zb = case
    kw, var, ov = {}, {}, {}
    for i, (a, v) in enumerate(LINES[k][0].items()):
        kw[a] = f'v{i}'
        isl = isinstance(v, list)
        if form == 'array' or form == 'mixed' and i % 2:
            var[f'v{i}'] = f'np.array({v!r})' if isl else f'np.float64({v!r})'
        elif form == 'var':
            var[f'v{i}'] = list(v) if isl else v
        else:
            if i % 2:
                var[f'v{i}'] = 1.
            ov[f'v{i}'] = np.array(v) if form == 'overarray' and isl else list(v) if isl else v
    one = k == len(LINES) - 1
    ends = [['a'], ['k'], ['x']] if one else [['a', '[oc]'], ['k', '[sc]'], ['x', {'Z': 25.}]]
    M = {'variables': var, 'Portnames': ['end0', 'end1'], 'relpos': {'end0': .5}, 'GTL': dict(
        [(f'T{j}', dict({'ports': ends[j]}, **kw)) for j in range(n)] +
        [('L', {'ports': ['k', 'x'], 'length': .4, 'Z': 30.}), ('N', {'ports': ['a', 'k'], 'length': .9, 'Z': 70.}),
         ('E', {'ports': ['x', 'end0'], 'Rs': 1.}), ('F', {'ports': ['a', 'end1'], 'Rs': 1.})])}
    model = {'M': M}
    keep = {q: (v.copy() if hasattr(v, 'copy') else v) for q, v in ov.items()}
    h = None
    for again in range(2):                              # (reading again gives the same)
        c = read(model, 'M', ov, Zb)
        if repr(ov) != repr(keep):
            raise Violation(f'{LINES[k][0]} as {form}: the variables {keep} of the caller are {ov} afterwards')
        if h is None:
            mod = {'M': dict(M, variables={q: LINES[k][0][a] for q, a in zip([f'v{i}' for i in range(9)], LINES[k][0])})}
            h = by_hand(*interpret(mod, 'M', {}, Zb), Zb)
        both(c, h, st, f'{n} blocks with {LINES[k][0]} as {form}: ', FS[:2])


def both(c, h, st, w='', fs=FS):
    """the two circuits have the same answers"""
    if list(c.ports) != list(h.Portnames):
        raise Violation(f'{w}ports {c.ports} for {h.Portnames}')
    for f in fs:
        for Z in (None, 20.):
            a, b = c.getS(f, Zbase=Z), h.getS(f, Zbase=Z)
            if not close(a, b, 1e-9):
                raise Violation(f'{w}getS({f}, {Z}) is {np.round(a, 6)}, by hand {np.round(b, 6)}')
            E = excite(h.ports)
            t1, t2 = c.Solution(f, dict(E), Z), h.Solution(f, dict(E), Z)
            if set(t1) != set(t2) or any(not close(t1[q], t2[q], 1e-9) for q in t2):
                raise Violation(f'{w}Solution differs')
            m1, m2 = c.maxV(f, dict(E), Zbase=Z), h.maxV(f, dict(E), Zbase=Z)
            if not close(m1[0], m2[0], 1e-9):
                raise Violation(f'{w}maxV {m1[0]}, by hand {m2[0]}')
            p1, p2 = list(leaves(m1[2][c.Id])), list(leaves(m2[2][h.Id]))
            if [q[0] for q in p1] != [q[0] for q in p2] or \
                    any(not close(u, v, 1e-9) for q, r in zip(p1, p2) for u, v in zip(q[1:], r[1:])):
                raise Violation(f'{w}voltage profiles differ')
            st.checks += 3
            st.transitions += 3
            st.state(rnd(b))
            st.outcome(rnd(b, 3))
    if not close(c.xpos, h.xpos, 1e-9):
        raise Violation(f'{w}positions {c.xpos}, by hand {h.xpos}')


def leaves(t, path=''):
    for k in sorted(t):
        if isinstance(t[k], dict):
            yield from leaves(t[k], f'{path}.{k}')
        else:
            yield (f'{path}.{k}', np.array(t[k][0], dtype=float), np.array(t[k][1], dtype=float))


# --- positions
NETS = {
    'chain': [('A', 'a', 'b', 1.), ('B', 'b', 'c', .5), ('C', 'c', 'd', 2.)],
    'back': [('A', 'b', 'a', 1.), ('B', 'b', 'c', .5), ('C', 'd', 'c', 2.)],
    'tee': [('A', 'a', 'j', 1.), ('B', 'j', 'b', .5), ('C', 'c', 'j', 2.)],
    'stubs': [('A', 'a', 'j', 1.), ('B', '[sc]', 'j', .5), ('C', 'j', 'd', 2.)],
    'stub2': [('A', '[oc]', 'j', 1.), ('B', '[sc]', 'j', .5), ('C', 'd', 'j', 2.)],
    'stub3': [('A', {'Z': 12.}, 'j', 1.), ('B', 'j', 'd', .5)],
    'apart': [('A', 'a', 'b', 1.), ('B', 'c', 'd', .5), ('C', 'd', 'e', 2.)],
    'elem': [('A', 'a', 'j', 1.), ('E', 'j', 'k', None), ('C', 'd', 'k', 2.)],
    'elem2': [('E', 'a', 'k', None), ('C', 'k', 'd', 2.)],
    'elem3': [('A', 'a', 'j', .7), ('E', '[sc]', 'j', None), ('C', 'j', 'd', 2.)],
    'loop': [('A', 'a', 'b', 1.), ('B', 'a', 'b', 1.), ('C', 'b', 'c', .5), ('D', 'd', 'a', .3)],
    'ends': [('A', 'a', 'j', 1.), ('B', 'j', '[sc]', .5), ('C', 'j', '[oc]', 2.)],
    'both': [('A', 'a', 'b', 1.), ('B', '[sc]', '[oc]', .5)],
}


def places(tier):
    for name, bl in NETS.items():
        true = truth(bl)
        free = frees(bl)
        for r in range(len(free) + 1):
            for at in itertools.combinations(free, r):
                for s in range(len(bl) + 1):
                    for own in itertools.combinations([b[0] for b in bl], s):
                        for order in ((0, 1, 2) if tier != 'quick' else (hash_([r, s]) % 3,)):
                            for strs in (0, 1):
                                yield (name, list(at), list(own), order, strs)


def frees(bl):
    n = [q for b in bl for q in b[1:3] if isinstance(q, str) and q[0] != '[']
    return [q for q in dict.fromkeys(n) if n.count(q) == 1]


def truth(bl):
    """a consistent assignment of positions: (port -> x, block -> x)"""
    px, bx = {}, {}
    base = 3.
    while len(bx) < len(bl):
        go = True
        while go:
            go = False
            for b, p, q, L in bl:
                if b in bx:
                    continue
                for s, x in ((p, 0.), (q, L or 0.)):
                    if isinstance(s, str) and s in px:
                        bx[b] = px[s] - x
                        go = True
                        break
                if b in bx:
                    for s, x in ((p, 0.), (q, L or 0.)):
                        if isinstance(s, str) and s[0] != '[':
                            px.setdefault(s, bx[b] + x)
        for b, p, q, L in bl:
            if b not in bx:
                bx[b] = base
                base += 20.
                for s, x in ((p, 0.), (q, L or 0.)):
                    if isinstance(s, str) and s[0] != '[':
                        px.setdefault(s, bx[b] + x)
                break
    return px, bx


def chk_places(case, st):
    name, at, own, order, strs = case
    bl = NETS[name]
    px, bx = truth(bl)
    g = {}
    seq = bl if order == 0 else bl[::-1] if order == 1 else bl[1:] + bl[:1]
    for b, p, q, L in seq:
        g[b] = {'Portnames': [p, q]}
        g[b].update({'length': L, 'Z': 40.} if L is not None else {'Rs': 3., 'Lp': 70.})
        if b in own:
            g[b]['relpos'] = f'{bx[b] - 1!r}+one' if strs else bx[b]
    d = {'Portnames': frees(bl)[::-1] if order else frees(bl), 'GTL': g, 'variables': {'one': 1}}
    if at:
        d['relpos'] = {q: f'{px[q] - 1!r}+one' if strs else px[q] for q in at}
    compare({'M': d}, 'M', None, 50., st, (FS[0],))


# --- declarations that cannot be right
def bad():
    ok = {'M': {'Portnames': ['a', 'b'], 'relpos': {'a': 1.}, 'variables': {'x': 1, 'y': 'x+1'}, 'GTL': {
        'T': {'ports': ['a', 'k'], 'L': 'x', 'Z': 30.}, 'U': {'ports': ['k', 'b'], 'Ls': 'y'}}}}
    out = {}

    def put(name, fun):
        m = eval(repr(ok))
        fun(m['M'])
        out[name] = m
    put('ok', lambda m: None)
    put('too many ports', lambda m: m.update(Portnames=['a', 'b', 'c']))
    put('too few ports', lambda m: m.update(Portnames=['a']))
    put('other port', lambda m: m.update(Portnames=['a', 'c']))
    put('junction as port', lambda m: m.update(Portnames=['a', 'k']))
    put('port twice', lambda m: m.update(Portnames=['a', 'a']))
    put('no Portnames', lambda m: m.pop('Portnames'))
    put('position of a junction', lambda m: m['relpos'].update(k=2.))
    put('position of nothing', lambda m: m['relpos'].update(zz=2.))
    put('no ports', lambda m: m['GTL']['T'].pop('ports'))
    put('ports twice', lambda m: m['GTL']['T'].update(Portnames=['a', 'k']))
    put('L and length', lambda m: m['GTL']['T'].update(length=1.))
    put('Z and Z0TL', lambda m: m['GTL']['T'].update(Z0TL=1.))
    put('xpos and relpos', lambda m: m['GTL']['T'].update(xpos=1., relpos=1.))
    put('unknown variable', lambda m: m['GTL']['T'].update(L='z'))
    put('unknown variable in a variable', lambda m: m['variables'].update(x='z'))
    put('cycle', lambda m: m['variables'].update(x='y'))
    put('cycle of one', lambda m: m['variables'].update(x='x'))
    put('cycle of one 2', lambda m: m['variables'].update(x='x+x'))
    put('unknown variable of a position', lambda m: m['relpos'].update(a='z'))
    put('unused unknown variable', lambda m: m['variables'].update(u='z'))
    put('unused cycle', lambda m: m['variables'].update(u='v', v='u'))
    put('no GTL', lambda m: m.pop('GTL'))
    put('dangling block', lambda m: m['GTL'].update(W={'ports': ['k', 'n'], 'L': 1., 'Z': 20.}))
    put('one block less', lambda m: m['GTL'].pop('U'))
    return out


def bads(tier):
    for k in bad():
        for Zb in (50., 20.):
            yield (k, Zb)
    yield ('no such key', 50.)


def chk_bad(case, st):
    k, Zb = case
    if k == 'no such key':
        try:
            read(bad()['ok'], 'N')
        except Exception:
            st.checks += 1
            st.transitions += 1
            return
        raise Violation('unknown object key accepted')
    m = bad()[k]
    if k == 'no GTL':
        try:
            read(m, 'M')
        except Exception:
            st.checks += 1
            st.transitions += 1
            return
        raise Violation('model without blocks accepted')
    compare(m, 'M', None, Zb, st)


# --- the life of the circuit afterwards, with and without a touchstone
HM = {'variables': {'len': 1.1}, 'M': {'Portnames': ['b', 'a', 'c'], 'relpos': {'a': .5}, 'GTL': {
    'T': {'ports': ['a', 'k'], 'L': 'len', 'LTL': 250., 'CTL': 100., 'rTL': 3., 'gTL': 4e-4},
    'U': {'ports': ['k', 'b'], 'Ls': 40., 'Rp': 300., 'Cp': 20.}, 'V': {'ports': ['k', 'c'], 'L': '2*len', 'Z': 35.},
    'W': {'ports': ['k', '[sc]'], 'L': .6, 'Z': 60.}}}}
HOPS = ['S0', 'S1', 'g0', 'g1', 'V0', 'V1', 'M0', 'M1', 'set', 'setd', 'term']


def hist(tier):
    for snp in (0, 1):
        for n in range(0, 4 if tier == 'quick' else 5):
            for s in itertools.product(range(len(HOPS)), repeat=n):
                if n > 2 and (s[-1] < 8 or (n > 3 and s[0] > 7)):
                    continue
                yield (snp, list(s))


def chk_hist(case, st):
    from .c02 import table
    snp, seq = case
    model = eval(repr(HM))
    parts = interpret(model, 'M', {}, 30.)
    sp = specs_of(*parts, 30.)
    m, mt = model_pool(sp)[-1], model_pool(sp)[-1]
    if snp:
        model['M']['sNp'] = table([mt.solve(f).perm(parts[4]) for f in FS], FS, 30., 'tab')
    c = read(model, 'M', None, 30.)
    E = excite(m.free)
    changed = False
    for i in seq + [8.] + [0, 4, 6, 2, 7, 1, 5, 3]:
        if i == 8.:
            continue
        op = HOPS[i]
        w = f'after {[HOPS[j] for j in seq]}: {op} '
        st.transitions += 1
        if op == 'set':
            c.set('T.L', 2.2)
            m.set('T.L', 2.2)
            changed = True
            continue
        if op == 'setd':
            c.set('U', {'Ls': 10e-9, 'Rs': 4.})
            m.set('U', {'Ls': 10e-9, 'Rs': 4.})
            changed = True
            continue
        if op == 'term':
            c.terminate('W.[sc]', Z=70.)
            m.term('W.[sc]', 'Z', 70.)
            changed = True
            continue
        f = FS[int(op[1])]
        Z = 20. if op in ('S1', 'g1', 'V1') else None
        mm = mt if snp and op[0] in 'SV' else m
        try:
            if op[0] in 'Sg':
                G = (c.getS if op[0] == 'S' else c.getSgtl)(f, Zbase=Z)
                R = mm.solve(f, Z).perm(parts[4])
                if not close(G, R, 1e-6):
                    raise Violation(f'{w}{np.round(G, 5)}, expected {np.round(R, 5)}')
                if list(c.ports) != parts[4]:
                    raise Violation(f'{w}ports {c.ports}')
            elif op[0] == 'V':
                ref, _ = mm.solve(f, Z).at(E)
                G = c.Solution(f, dict(E), Z)
                for q, v in G.items():
                    if not close(v, ref[q], 1e-6):
                        raise Violation(f'{w}{q}: {v}, expected {ref[q]}')
                if not set(parts[4]) <= set(G) or not snp and set(G) != set(ref):
                    raise Violation(f'{w}nodes {sorted(G)}')
            elif not (snp and changed):
                obs_maxV(c, m, f, E, Z, st, what=w, pos=not changed)
            st.checks += 1
            st.state(snp, op, rnd(mm.solve(f, Z).S))
            st.outcome(rnd(mm.solve(f, Z).S, 3))
        except Ill:
            st.skipped += 1


def families(tier):
    return [
        Family('topology', lambda: topo(tier), chk_topo,
               'all models of 1-3 blocks (lines, R/L/C, arcs), all ways of sharing port names and terminating ports, '
               'orders of the declared ports, position of the first or last block'),
        Family('variables', lambda: varcases(tier), chk_vars,
               'three variables, each with 10 definitions (numbers, text, expressions of the others), all combinations '
               'including cycles, orders of definition, local/global, overridden'),
        Family('units', lambda: units(tier), chk_units,
               f'{len(LINES)} sets of parameters x 5 ways to write the values x names x impedances'),
        Family('shared', lambda: shares(tier), chk_shares,
               f'{len(LINES)} sets of parameters as variables (numbers, lists, arrays; of the file or given) of 1-3 blocks'),
        Family('positions', lambda: places(tier), chk_places,
               f'{len(NETS)} networks x all subsets of ports and blocks whose position is declared'),
        Family('refused', lambda: bads(tier), chk_bad, f'{len(bad())} declarations'),
        Family('histories', lambda: hist(tier), chk_hist,
               f'sequences of <= {3 if tier == "quick" else 4} of {len(HOPS)} evaluations and changes, with and without a '
               'touchstone in the model, then all evaluations'),
    ]
