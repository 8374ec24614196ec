"""C05: positions of ports and nodes are consistent."""
import itertools
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import nets, c01

PROP = 'C05'
ASSUME = ['the positions are those at the time the circuit is assembled '
          '(resolve_xpos is called after a length is changed)']


def observe(specs, st, solved=(False, True), what=''):
    for sv in solved:
        rp, mp = real_pool(specs), model_pool(specs)
        c, m = rp[-1], mp[-1]
        st.transitions += len(specs[-1]['ops'])
        if sv:
            c.getS(FS[0])
            if m.Portnames and list(c.ports) != m.ports:
                raise Violation(f'port order {c.ports}, announced {m.ports}')
            st.transitions += 1
        if sorted(c.ports) != sorted(m.free):
            raise Violation(f'external ports {c.ports}, expected {m.free}')
        obs_pos(c, m, st, what)
        c.resolve_xpos()
        obs_pos(c, m, None, what + 'after resolve_xpos: ')
        if sv:
            try:
                obs_maxV(c, m, FS[0], excite(m.free), None, st, what=what)
            except Ill:
                st.skipped += 1
            obs_pos(c, m, None, what)
            st.transitions += 2


# --- the catalogue
def chk_cat(name, st):
    observe(nets.allnets(True)[name], st)


# --- construction histories: the positions after each operation
POOL = [S(2, 1, 30., ['1', '2'], xpos=[0.5, 1.75]), S(3, 2, 75., ['1', '11', '2'], xpos=[.1, .3, .7]),
        TRL(1.3, 35., 60., xpos=[0.2, 1.5])]


def growth(tier):
    d = 2 if tier == 'quick' else 3
    adds = [['add', 'T', 0, None, 1.5], ['add', 'T1', 1, None, -4.25]]
    for seq in grow(None, c01.free_of(POOL, adds), d, terms=(('Z', 20.),), orders=(d == 2)):
        yield adds + seq + [['add', 'Q', 2, None, 11.]]


def chk_growth(ops, st):
    """positions are observed after every step"""
    rp, mp = real_pool(POOL + [CT([])]), model_pool(POOL + [CT([])])
    c, m = rp[-1], mp[-1]
    for k, op in enumerate(ops):
        real_op(c, op, rp)
        model_op(m, op, mp)
        st.transitions += 1
        obs_pos(c, m, st, f'after {ops[:k + 1]}: ')
    c.getS(FS[0])
    obs_pos(c, m, st, 'after getS: ')


def evaluated(tier):
    d = 2 if tier == 'quick' else 3
    adds = [['add', 'T', 0, None, 1.5], ['add', 'T1', 1, None, -4.25]]
    for seq in grow(None, c01.free_of(POOL, adds), d, terms=(('Z', 20.),), maxar=3):
        for at in range(2, 2 + len(seq)):
            for how in ('S', 'M', 'V', 'all'):
                if how == 'all' and at != 2:
                    continue
                yield (adds + seq, at, how)


def chk_evaluated(case, st):
    """as growth, with evaluations at a step (or at each step) of the construction"""
    ops, at, how = case
    rp, mp = real_pool(POOL + [CT([])]), model_pool(POOL + [CT([])])
    c, m = rp[-1], mp[-1]
    for k, op in enumerate(ops):
        if k == at or how == 'all' and k > 2:
            E = {q: 1. for q in c.ports}
            {'M': lambda: c.maxV(FS[0], E), 'V': lambda: c.Solution(FS[0], E)}.get(how, lambda: c.getS(FS[0]))()
            st.transitions += 1
        real_op(c, op, rp)
        model_op(m, op, mp)
        st.transitions += 1
        obs_pos(c, m, st, f'evaluated ({how}) before {ops[at]}, after {ops[:k + 1]}: ')
    obs_S(c, m, FS[0], what=f'evaluated ({how}) before {ops[at]}, after {ops}: ')
    obs_pos(c, m, st, f'evaluated ({how}) before {ops[at]}, after {ops} and getS: ')


# --- renaming, announced orders and nesting
def nested(tier):
    for case in c01.nesting(tier):
        yield case


def chk_nested(case, st):
    specs = [dict(s) for s in c01.nest_specs(case)]
    specs[0] = dict(specs[0], xpos=[0.5, 1.75])
    specs[1] = dict(specs[1], xpos=[.1, .3, .7])
    x = 0.125
    for s in specs:
        if s['t'] == 'CT':
            ops = []
            for op in s['ops']:
                if op[0] == 'add':
                    x = -1.75 * x + .5
                    op = list(op) + [None] * (4 - len(op)) + [round(x, 4)]
                ops.append(op)
            s['ops'] = ops
    observe(specs, st)


def portmaps(tier):
    return c01.portmaps(tier)


def chk_portmaps(case, st):
    k, mp, o, joined = case
    ops = [['add', 'B', 0, mp, 2.5], ['add', 'B1', 1, None, -1.]]
    names = c01.block_names(PRIMS[k], mp)
    rest = [f'B.{q}' for q in names] + ['B1.1', 'B1.2']
    if joined:
        ops += [['con', [f'B.{names[0]}', 'B1.2', 'j']]]
        rest = [q for q in rest if q not in (f'B.{names[0]}', 'B1.2')] + ['j']
    pn = []
    if o is not None:
        pn = [f'B.{q}' for q in o if f'B.{q}' in rest] + [q for q in rest if q[:2] != 'B.'][::-1]
    observe([PRIMS[k], S(2, 9, 90., ['1', '2'], xpos=[.25, .5]), CT(ops, Zb=33., Portnames=pn)], st,
            solved=(False, True) if joined else (True,))


# --- objects on their own
def objects(tier):
    for k, s in PRIMS.items():
        if s.get('cls') != 'arr':
            for rel in (0., 1.25, -3.):
                yield (k, rel)


def chk_objects(case, st):
    k, rel = case
    s = PRIMS[k]
    c, m = real_obj(s, []), model_obj(s, [])
    if list(c.ports) != m.ports or len(c) != len(m.ports):
        raise Violation(f'{k}: ports {c.ports}, expected {m.ports}')
    if not np.allclose([float(v) for v in c.xpos], m.xpos) or len(c.xpos) != len(m.ports):
        raise Violation(f'{k}: positions {c.xpos}, expected {m.xpos}')
    st.checks += 1
    st.state(k, str(m.xpos))
    st.outcome(k)
    observe([s, CT([['add', 'B', 0, None, rel]])], st)
    if s['t'] == 'TRL':           # the position of the far end follows the length
        specs = [s, CT([['add', 'B', 0, None, rel]])]
        rp, mp = real_pool(specs), model_pool(specs)
        rp[-1].set('B.L', 2.75)
        mp[-1].set('B.L', 2.75)
        rp[-1].resolve_xpos()
        obs_pos(rp[-1], mp[-1], st, 'after set L: ')
        try:
            obs_maxV(rp[-1], mp[-1], FS[0], excite(mp[-1].free), None, st)
        except Ill:
            pass
        st.transitions += 2


# --- the ways in which a position can be written
NUM = {'int': int, 'float': float, 'int64': np.int64, 'int32': np.int32, 'float64': np.float64, 'float32': np.float32}
SEQ = {'list': list, 'tuple': tuple, 'array': np.array}


def forms(tier):
    for k in ('TRL', 'RLC', 'ARC', 'OBJ', 'CPL', 'BASE'):
        for a in [None] + [f'{n} {s}' for n in NUM for s in SEQ] + (list(NUM) if k == 'TRL' else []):
            for b in [None] + list(NUM):
                yield (k, a, b)


def chk_forms(case, st):
    """positions given as numbers of any kind, lists, tuples, arrays; positions of blocks as well"""
    import pyRFtk as rf
    from pyRFtk.rfArcObj import rfArcObj
    k, a, b = case
    mk, n = {'TRL': (lambda **w: rf.rfTRL(L=2., Z0TL=30., **w), 2), 'RLC': (lambda **w: rf.rfRLC(Ls=3e-8, **w), 2),
             'ARC': (lambda **w: rfArcObj(Larc=1e-8, **w), 1), 'CPL': (lambda **w: rf.rfCoupler(f0Hz=4e7, **w), 4),
             'OBJ': (lambda **w: rf.rfObject(ports=['x', 'y', 'z'], **w), 3),
             'BASE': (lambda **w: rf.rfBase(ports=['x', 'y'], Ss=[[.1, .2], [.3, .4]], **w), 2)}[k]
    want = [3, 5, -4, 7][:n]
    if a is None:
        o, want = mk(), [0, 2 if k == 'TRL' else 0, 0, 0][:n]
    elif ' ' in a:
        t, q = a.split()
        o = mk(xpos=SEQ[q]([NUM[t](x) for x in want]))
    else:
        o, want = mk(xpos=NUM[a](3)), [3, 5]
    w = f'{k} with positions as {a}, placed at {b}: '
    if len(o.xpos) != n or not np.allclose(np.array(o.xpos, dtype=float), want):
        raise Violation(f'{w}{o.xpos}, expected {want}')
    c = rf.rfCircuit()
    c.addblock('B', o, **({} if b is None else {'relpos': NUM[b](6)}))
    want = [x + (0 if b is None else 6) for x in want]
    got = [float(x) for x in c.xpos], [float(c.getpos(q)) for q in c.ports]
    if any(not np.allclose(g, want) for g in got):
        raise Violation(f'{w}{got}, expected {want}')
    st.checks += 3
    st.transitions += 2
    st.state(*case)
    st.outcome(str(want))


def families(tier):
    return [
        Family('forms', lambda: forms(tier), chk_forms, 'kinds of elements x ways to write positions, of ports and blocks'),
        Family('catalogue', lambda: list(nets.allnets(True)), chk_cat, 'catalogue of circuits'),
        Family('growth', lambda: growth(tier), chk_growth,
               'connect/terminate sequences, observed after every step'),
        Family('evaluated', lambda: evaluated(tier), chk_evaluated,
               'connect/terminate sequences with evaluations (S, maxV, Solution) between, observed after every step'),
        Family('nesting', lambda: nested(tier), chk_nested, 'nested circuits of C01'),
        Family('portmaps', lambda: portmaps(tier), chk_portmaps, 'mappings x announced orders'),
        Family('objects', lambda: objects(tier), chk_objects, 'objects of every kind'),
    ]
