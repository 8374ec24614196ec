"""C15: copies are equivalent and independent.

History: operations before the copy, the copy (by any means), operations on the
original and on the copy interleaved.  At the end every observation of both is
compared with that of a fresh object on which only the operations of that object
were executed (replay oracle; the fresh objects themselves are covered by the
other properties).
"""
import itertools, copy, math, os, pickle, re
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import excite

PROP = 'C15'
ASSUME = ['the outcome of operations on an object that was never copied is the reference',
          'the text of an object and random identifiers are not compared']
F1, F2, FI = FS[0], FS[1], 41e6


# ----------------------------------------------------------------- snapshots
def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def same(a, b, tol=1e-9):
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return (sorted(a) if isinstance(a, dict) else a, sorted(b) if isinstance(b, dict) else b)
        for k in a:
            d = same(a[k], b[k], tol)
            if d is not None:
                return (k,) + d
        return None
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return None if type(a) == type(b) and a == b else (a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return (a, b)
        try:
            x, y = np.array(a, dtype=complex), np.array(b, dtype=complex)
        except (TypeError, ValueError):
            for i, (p, q) in enumerate(zip(a, b)):
                d = same(p, q, tol)
                if d is not None:
                    return (i,) + d
            return None
        a, b = x, y
    try:
        x, y = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    except (TypeError, ValueError):
        try:
            return None if a == b else (a, b)
        except ValueError:
            return (a, b)
    if x.shape != y.shape:
        return (x, y)
    if x.size == 0:
        return None
    fx, fy = np.isfinite(x), np.isfinite(y)
    if np.any(fx != fy):
        return (x, y)
    if np.any(fx) and np.max(np.abs(x[fx] - y[fy])) > tol * max(1., np.max(np.abs(y[fy]))):
        return (x, y)
    return None


def call(fn):
    """result or the kind of refusal"""
    try:
        return plain(fn())
    except Exception as e:
        return {'refused': type(e).__name__}


def strip(tree):
    """voltage tree without the name at the top"""
    while isinstance(tree, dict) and len(tree) == 1 and isinstance(list(tree.values())[0], dict):
        tree = list(tree.values())[0]
    return tree


def mv(o, f, **kw):
    r = o.maxV(f, excite(o.ports), **kw)
    return [r[0], strip(r[2]) if isinstance(r[2], dict) else [list(r[2][0]), list(r[2][1])]]


ATTR = ['Zbase', 'L', 'Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp', 'Larc', 'kc', 'kcdB', 'f0Hz', 'Lc', 'N', 'funit',
        'fscale', 'interp', 'interpkws', 'variables', 'vars', 'dx']


def snap(o):
    d = {'ports': list(o.ports), 'len': len(o), 'xpos': list(o.xpos)}
    for a in ATTR:
        if hasattr(o, a) and not callable(getattr(o, a)):
            d[a] = plain(getattr(o, a))
    if hasattr(o, 'blocks'):
        d['blocks'] = o.listBlocks()
        d['waves'] = list(o.waves)
        d['params'] = [plain(b['params']) for b in o.blocks.values()]
        d['relpos'] = [b['xpos'] for b in o.blocks.values()]
        d['pos'] = [call(lambda n=w[2:]: o.getpos(n)) for w in o.waves if w[:2] == '->']
        d['leaves'] = {}
        for b in o.listBlocks():
            e = o.object(b)
            d['leaves'][b] = {a: plain(getattr(e, a)) for a in ATTR if hasattr(e, a)}
            d['leaves'][b]['ports'] = list(e.ports) if hasattr(e, 'ports') else None
            d['leaves'][b]['xpos'] = list(e.xpos) if hasattr(e, 'xpos') else None
    d['S'] = [call(lambda f=f, Z=Z: o.getS(f) if Z is None else o.getS(f, Zbase=Z))
              for f in (F1, F2) for Z in (None, 20.)]
    if hasattr(o, 'Solution'):
        d['V'] = call(lambda: o.Solution(F2, excite(o.ports), Zbase=30.))
    if hasattr(o, 'VISWs'):
        d['VI'] = call(lambda: [o.VISWs(F2, excite(o.ports))[0], o.VISWs(F2, excite(o.ports))[1][:2]])
    d['M'] = call(lambda: mv(o, F1))
    d['ports2'] = list(o.ports)
    d['xpos2'] = list(o.xpos)
    if hasattr(o, '_interp_'):
        d['SI'] = call(lambda: o.getS(FI))
        d['tab'] = call(lambda: sorted([[f, np.array(S).tolist()] for f, S in o], key=lambda t: t[0]))
    if hasattr(o, 'fs'):
        d['fs'] = list(o.fs)
    return d


# --------------------------------------------------------------------- kinds
TS = """! x
# MHz S RI R 40
35 0.1 0.2 0.3 0.1 0.4 -0.2 0.05 0.15
48 0.2 0.2 0.1 0.1 0.3 -0.2 0.15 0.15
61 0.3 0.2 0.2 0.1 0.2 -0.2 0.25 0.15
"""
MODEL = """{'variables': {'len': 1.2, 'w': '2*len'},
 'OBJ': {'Portnames': ['a', 'b'], 'relpos': {'a': 0.5},
  'GTL': {
   'L1': {'ports': ['a', 'j'], 'L': 'len', 'Z0TL': 35.},
   'L2': {'ports': ['j', 'b'], 'L': 'w/3', 'Z0TL': 60.},
   'C1': {'ports': ['j', '[sc]'], 'Ls': 40., 'Rs': 2.},
   'A1': {'ports': ['j'], 'Larc': 90.}}}}
"""


def file(name, text):
    with open(name, 'w') as f:
        f.write(text)
    return name


def opened(fn):
    with open(file('t.s2p', TS)) as f:
        return fn(f)


def obj(n, ports, id=1, **kw):
    import pyRFtk as rf
    o = rf.rfObject(ports=list(ports), funit='Hz', **kw)
    for f in FS:
        o.setS(f, smat(id, n, f))
    return o


def ev_ops():
    return {
        'S': lambda o: o.getS(F1),
        'SZ': lambda o: o.getS([F2, F1], Zbase=20.),
        'M': lambda o: mv(o, F2),
    }


def setter(**kw):
    return lambda o: o.set(**kw)


def obj_ops(n):
    sm = lambda k: smat(k, n, 0.)
    d = ev_ops()
    d.update({
        'setS': lambda o: o.setS(F1, sm(21)),
        'setSn': lambda o: o.setS([55e6, 12e6], [sm(22), sm(23)]),
        'item': lambda o: o.__setitem__(1, (F2, sm(24))),
        'itemf': lambda o: o.__setitem__(0, (70e6, sm(25))),
        'sort': lambda o: o.sortports(list(o.ports)[::-1]),
        'conv': lambda o: o.convert2newZbase(17.),
        'deem': lambda o: o.deembed({o.ports[0]: (0.3, 40.)}),
        'interp': lambda o: o.getS([FI, 59e6]),
        'xpos': lambda o: o.xpos.__setitem__(0, 9.),
        'bad': lambda o: o.setS(F1, sm(3)[:1, :1]),
        'read': lambda o: o.read_tsf(file('t.s2p', TS)),
    })
    return d


def leaf_ops(**chg):
    d = ev_ops()
    for a, v in chg.items():
        d[f'set{a}'] = setter(**{a: v})
        d[f'par{a}'] = lambda o, a=a, v=v: o.getS(F1, params={a: 1.1 * v})
    d['xpos'] = lambda o: o.xpos.__setitem__(0, 9.)
    d['bad'] = setter(nonsense=3)
    return d


SET = {'TRL': ('L', 2.3), 'RLC': ('Ls', 77e-9), 'ARC': ('Larc', 33e-9)}


def leaves(specs, i, prefix=''):
    """(path, attribute, value, is top level block) of the settable leaves"""
    for op in specs[i]['ops']:
        if op[0] == 'add':
            s = specs[op[2]]
            if s['t'] == 'CT':
                yield from leaves(specs, op[2], prefix + op[1] + '.')
            elif s['t'] in SET:
                yield (prefix + op[1],) + SET[s['t']]


def ct_ops(specs):
    import pyRFtk as rf
    d = ev_ops()
    top = specs[-1]
    lv = list(leaves(specs, len(specs) - 1))
    pick = lv[:1] + [x for x in lv[1:] if '.' in x[0]][:1]
    pick += [x for x in lv[1:] if x not in pick][:1]
    for p, a, v in pick:
        d[f'set {p}.{a}'] = lambda o, p=p, a=a, v=v: o.set(f'{p}.{a}', v)
        d[f'direct {p}.{a}'] = lambda o, p=p, a=a, v=v: o.object(p).set(**{a: 1.3 * v})
    tops = [x for x in lv if '.' not in x[0]]
    if tops:
        p, a, v = tops[-1]
        d[f'par {p}.{a}'] = lambda o, p=p, a=a, v=v: o.getS(F1, params={p: {a: .7 * v}})
    m = model_pool(specs)[-1]
    free = list(m.free)
    d['term'] = lambda o: o.terminate(free[-1], Z=20 + 10j)
    if len(free) > 1:
        d['con'] = lambda o: o.connect(free[0], free[1])
        d['conn'] = lambda o: o.connect(free[0], 'NEW')
    rt = [op[1] for op in top['ops'] if op[0] == 'term']
    if rt:
        d['reterm'] = lambda o: o.terminate(rt[0], Y=0.013 - 0.02j)
    d['add'] = lambda o: o.addblock('XX', obj(2, ['u', 'v'], 14, xpos=[.1, .2]), relpos=3.)
    adds = [op for op in top['ops'] if op[0] == 'add']
    ns = lambda i: m.blocks[adds[i][1]]['obj']
    k = len(adds) - 1
    n = len(m.blocks[adds[k][1]]['ports'])
    d['repl'] = lambda o: o.addblock(adds[k][1], smat(31, n, 0.))
    for p, a, v in lv:
        if '.' in p:
            d['nrepl'] = lambda o, p=p: o.addblock(p, smat(32, len(o.object(p)), 0.))
            break
    d['sol'] = lambda o: o.Solution(F1, excite(o.ports))
    d['sort'] = lambda o: (o.ports.reverse(), o.xpos.reverse()) if False else o.resolve_xpos()
    d['list'] = lambda o: (o.xpos.__setitem__(0, 7.5))
    d['bad'] = lambda o: o.connect('nope1', 'nope2')
    return d


def kinds():
    import pyRFtk as rf
    k = {}
    k['obj2'] = (lambda: obj(2, ['a', 'b'], xpos=[.5, 1.]), obj_ops(2))
    k['obj3'] = (lambda: obj(3, ['a', 'b', 'c'], 2, Zbase=30., interp='RI', interpkws={'kind': 2}), obj_ops(3))
    k['objT'] = (lambda: rf.rfObject(touchstone=file('t.s2p', TS), Zbase=33.), obj_ops(2))
    k['objF'] = (lambda: opened(lambda f: rf.rfObject(touchstone=f, Zbase=33.)), obj_ops(2))
    k['objA'] = (lambda: rf.rfObject(smat(5, 2, 0.)), obj_ops(2))
    k['empty'] = (lambda: rf.rfObject(Zbase=12.), obj_ops(2))
    k['base'] = (lambda: rf.rfBase(Ss=[smat(3, 2, f) for f in FS], fs=FS, ports=['p', 'q'], Zbase=20.,
                                   xpos=[1., 2.]), {
        **ev_ops(), 'xpos': lambda o: o.xpos.__setitem__(0, 9.), 'bad': setter(L=3),
        'inplace': lambda o: o.Ss.__setitem__((0, 0, 0), .5), 'ports': lambda o: o.ports.__setitem__(0, 'z')})
    k['trl'] = (lambda: rf.rfTRL(L=1.3, Z0TL=35., Zbase=60., xpos=.4), leaf_ops(L=2.1))
    k['lossy'] = (lambda: rf.rfTRL(L=1.3, LTL=2.5e-7, CTL=1e-10, rTL=3., gTL=4e-4, ports=['i', 'o'], dx=30),
                  leaf_ops(L=.1))
    k['vary'] = (lambda: rf.rfTRL(L=1.3, Z0TL=[30., 60.], Zbase=60.), leaf_ops(L=2.1))
    k['trlT'] = (lambda: rf.rfTRL(L=1.3, Z0TL=35., Zbase=60., sNp=file('t.s2p', TS)),
                 {**leaf_ops(L=2.1), 'rm': lambda o: os.path.exists('t.s2p') and os.remove('t.s2p')})
    k['rlc'] = (lambda: rf.rfRLC(Rs=3., Ls=40e-9, Cp=30e-12, Zbase=25., xpos=[.1, .2]),
                leaf_ops(Ls=9e-8, Rp=200.))
    k['arc'] = (lambda: rf.rfArcObj(Larc=40e-9, Zbase=25.), leaf_ops(Larc=9e-8))
    k['cpl'] = (lambda: rf.rfCoupler(kc=.6, Lc=1.2, Zbase=25.),
                {**ev_ops(), 'xpos': lambda o: o.xpos.__setitem__(0, 9.), 'bad': setter(kc=.3)})
    for name, specs in catalog().items():
        k['ct-' + name] = (lambda s=specs: real_pool(s)[-1], ct_ops(specs))

    def gtl():
        from pyRFtk.rfGTL import rfGTL
        return rfGTL(file('m.mod', MODEL), objkey='OBJ', variables={'len': 1.4}, Zbase=30.)
    k['gtl'] = (gtl, {
        **ev_ops(), 'setL': lambda o: o.set('L1.L', .3), 'par': lambda o: o.getSgtl(F1, params={'C1': {'Ls': 9e-9}}),
        'term': lambda o: o.terminate('b', Z=30.), 'reterm': lambda o: o.terminate('C1.[sc]', Z=3.),
        'repl': lambda o: o.addblock('L1', smat(8, 2, 0.)),
        'vars': lambda o: o.vars.__setitem__('len', 99.), 'sol': lambda o: o.Solution(F1, excite(o.ports)),
        'rm': lambda o: os.path.exists('m.mod') and os.remove('m.mod')})

    def snp():
        c = rf.rfCircuit(Zbase=20., sNp=file('t.s2p', TS), Portnames=['A.1', 'A.2'])
        c.addblock('A', rf.rfTRL(L=.3, Z0TL=60.), relpos=.4)
        return c
    k['sNp'] = (snp, {
        'S': lambda o: o.getS(F1), 'Sg': lambda o: o.getS(F1, flags={'sNp': False}),
        'set': lambda o: o.set('A.L', .9), 'term': lambda o: o.terminate('A.2', Z=3.),
        'tab': lambda o: o.sNp.setS(F1, smat(9, 2, 0.)), 'max': lambda o: o.maxV(F2, excite(['A.1', 'A.2'])),
        'rm': lambda o: os.path.exists('t.s2p') and os.remove('t.s2p')})
    return k


_kinds = None


def K(name):
    global _kinds
    if _kinds is None:
        _kinds = kinds()
    return _kinds[name]


HOW = {
    'copy()': lambda o: o.copy(),
    'copy.copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'copy of copy': lambda o: o.copy().copy(),
    'in a list': lambda o: copy.deepcopy({'x': [1, o]})['x'][1],
    'pickle': lambda o: pickle.loads(pickle.dumps(o)),
}
PICKLED = ('obj', 'empty', 'base')              # (lines contain functions: no pickles)


def hows(name):
    return [h for h in HOW if h != 'pickle' or name.startswith(PICKLED)]


def cases(tier):
    for name in kinds():
        ops = list(K(name)[1])
        for h in hows(name):
            for pre in [()] + [(a,) for a in ops]:
                if tier == 'quick' and h != 'copy()' and pre not in ((), ('M',)):
                    continue
                yield (name, pre, h, ())
                for a in ops:
                    for w in (0, 1):
                        yield (name, pre, h, ((w, a),))


def cases2(tier):
    evs = ['S', 'M']
    for name in kinds():
        ops = list(K(name)[1])
        chg = [a for a in ops if a not in ('SZ',)]
        hs = ['copy()'] if tier == 'quick' else ['copy()', 'deepcopy']
        pres = [(), ('S',)] if tier == 'quick' else [()] + [(a,) for a in ops]
        for h in hs:
            for pre in pres:
                for a, b in itertools.product(chg, repeat=2):
                    # the copy is always treated; the original before or after
                    for w in ((0, 1), (1, 0)) if tier == 'quick' else ((0, 1), (1, 0), (1, 1), (0, 0)):
                        yield (name, pre, h, ((w[0], a), (w[1], b)))


def recopies(tier):
    """a copy, a change of one, a copy of either"""
    for name in kinds():
        ops = [a for a in K(name)[1] if a not in ('S', 'SZ', 'M')]
        for a in ops:
            for src in (0, 1):
                for w in (0, 1, 2):
                    yield (name, a, src, w)


_ref = {}


def apply(name, o, ops):
    tab = K(name)[1]
    res = []
    for a in ops:
        r = call(lambda: tab[a](o))
        res.append(r if isinstance(r, dict) and 'refused' in r else
                   r if a in ('S', 'SZ', 'M', 'Sg', 'sol', 'interp') else 'done')
    return res


def reference(name, ops):
    if (name, ops) not in _ref:
        if len(_ref) > 6000:
            _ref.clear()
        o = K(name)[0]()
        r = apply(name, o, ops)
        _ref[name, ops] = (r, snap(o))
        files()
    return _ref[name, ops]


def files():
    for f in ('t.s2p', 'm.mod'):
        if os.path.exists(f):
            os.remove(f)


def finish(name, who, o, ops, got, what, st):
    r, s = reference(name, ops)
    d = same(got, r)
    if d is not None:
        raise Violation(f'{name}: {what}: the operations {ops} on the {who} give {str(d)[:600]}')
    d = same(snap(o), s)
    if d is not None:
        raise Violation(f'{name}: {what}: the {who} after {ops} differs from an object that was never copied: '
                        f'{str(d)[:700]}')
    st.checks += 1
    st.state(name, ops)
    st.outcome(str(s['S'])[:400])


def run(case, st):
    name, pre, h, suf = case
    o = K(name)[0]()
    mk = name in ('gtl', 'sNp', 'objT', 'trlT')
    apply(name, o, pre)
    try:
        c = HOW[h](o)
    except Exception as e:
        raise Violation(f'{name}: after {pre} {h} fails: {type(e).__name__} {e}')
    objs, seq, got = [o, c], [list(pre), list(pre)], [[], []]
    for w, a in suf:
        got[w] += apply(name, objs[w], (a,))
        seq[w].append(a)
        st.transitions += 1
    if mk:
        files()
    for w, who in ((0, 'original'), (1, 'copy')):
        r, s = reference(name, tuple(seq[w]))
        finish(name, who, objs[w], tuple(seq[w]), r[:len(pre)] + got[w], f'{h} after {pre}, then {suf}', st)
    files()


def rerun(case, st):
    name, a, src, w = case
    o = K(name)[0]()
    objs = [o, o.copy()]
    seq = [[], []]
    apply(name, objs[src], (a,))
    seq[src].append(a)
    objs.append(copy.deepcopy(objs[src]))
    seq.append(list(seq[src]))
    got = [[], [], []]
    b = list(K(name)[1])[4 % len(K(name)[1])]
    got[w] = apply(name, objs[w], (b,))
    seq[w].append(b)
    st.transitions += 3
    files()
    for i in range(3):
        r, s = reference(name, tuple(seq[i]))
        finish(name, ('original', 'copy', 'second copy')[i], objs[i], tuple(seq[i]),
               r[:len(r) - len(got[i])] + got[i], f'{case}', st)
    files()


def families(tier):
    return [
        Family('means', lambda: cases(tier), run,
               'all kinds of objects x <=1 operation before x all means of copying x <=1 operation after'),
        Family('pairs', lambda: cases2(tier), run,
               'all kinds x operations before x all pairs of operations on original and copy'),
        Family('recopies', lambda: recopies(tier), rerun, 'copy, change, copy again, change'),
    ]
