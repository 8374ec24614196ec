"""C16: data of the caller is neither modified nor shared.

Histories: an object is built, a call is made with data of the caller (or returns
data to the caller), possibly another call follows, and then one piece of the
data is changed.  Every mutable part of the data is found by walking it; every
kind of change is made.  Twin: the same history without the change.
"""
import copy, itertools, os, re
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import excite
from . import c15
from .c15 import same, call, TS, MODEL, file, obj

PROP = 'C16'
ASSUME = ['attributes (obj.ports, obj.xpos, ...) and objects given as blocks are live by design; '
          'only data given to or returned by calls is covered']
F1, F2, FI = FS[0], FS[1], 41e6


# --------------------------------------------------------- walking the data
def nodes(v, path=()):
    """paths of the mutable parts"""
    if isinstance(v, dict):
        yield path
        for k in v:
            yield from nodes(v[k], path + (('k', k),))
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            yield path
        for i, x in enumerate(v):
            yield from nodes(x, path + (('i', i),))
    elif isinstance(v, np.ndarray) and v.ndim and v.size:
        yield path


def at(v, path):
    for _, k in path:
        v = v[k]
    return v


def other(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, (int, float, complex, np.number)):
        return x * 0.5 + 0.37
    if isinstance(x, str):
        return 'other'
    if isinstance(x, np.ndarray):
        return x * 0.5 + 0.37
    if isinstance(x, tuple):
        return tuple(other(y) for y in x)
    if isinstance(x, list):
        return [other(y) for y in x]
    if isinstance(x, dict):
        return {k: other(y) for k, y in x.items()}
    return None


MUT = ['value', 'grow', 'clear']


def change(v, kind):
    if isinstance(v, dict):
        if kind == 'value':
            for k in list(v):
                v[k] = other(v[k])
        elif kind == 'grow':
            v['other'] = 1.5
        else:
            v.clear()
    elif isinstance(v, list):
        if kind == 'value':
            for i in range(len(v)):
                v[i] = other(v[i])
        elif kind == 'grow':
            v.insert(0, other(v[0]) if v else 'other')
        else:
            v.clear()
    elif v.flags.writeable:
        if kind == 'value':
            v *= 0.5
            v += 1
        elif kind == 'grow':
            v[..., 0] = 7
        else:
            v[...] = 0


def frozen(v):
    """comparable picture of the data"""
    if isinstance(v, dict):
        return {'dict': [[str(k), frozen(x)] for k, x in v.items()]}
    if isinstance(v, list):
        return ['list'] + [frozen(x) for x in v]
    if isinstance(v, tuple):
        return ['tuple'] + [frozen(x) for x in v]
    if isinstance(v, np.ndarray):
        return ['array', str(v.dtype), list(v.shape), v.tolist()]
    if isinstance(v, (int, float, complex, str, bool, type(None), np.number)):
        return v
    return type(v).__name__


def text(s):
    s = re.sub(r'0x[0-9a-f]+|at \d{9,}', '0x', str(s))
    return re.sub(r'rf[A-Za-z]+_\d+', 'rfX', s)


def unid(v):
    """without the automatic identifiers"""
    if isinstance(v, dict):
        return {text(k): unid(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [unid(x) for x in v]
    if isinstance(v, str):
        return text(v)
    return v


def pic(o):
    """full observation"""
    return unid([call(lambda: text(o)), call(lambda: text(o.__str__(1))), c15.snap(o),
                 call(lambda: text(repr(o))) if 'object at' not in repr(o) else ''])


# ------------------------------------------------------------------- the calls
def mats(n, k=1):
    return [smat(k + i, n, 0.) for i in range(2)]


def ctors():
    """name -> (data, constructor)"""
    import pyRFtk as rf
    from pyRFtk.rfGTL import rfGTL
    d = {}

    def put(name, data, fn):
        d[name] = (data, fn)

    put('obj', lambda: dict(ports=['a', 'b', 'c'], xpos=[.1, .2, .3], interpkws={'kind': 2}, flim=[.1, 10.]),
        lambda a: fill(rf.rfObject(Id='X', funit='Hz', **a)))
    put('objt', lambda: dict(ports=['a', 'b'], xpos=[.1, .2], interpkws={'kind': 2}),
        lambda a: rf.rfObject(Id='X', touchstone=file('t.s2p', TS), **a))
    put('obja', lambda: dict(S=smat(4, 2, 0.), ports=['a', 'b'], xpos=[.1, .2]),
        lambda a: rf.rfObject(a['S'], Id='X', ports=a['ports'], xpos=a['xpos']))
    put('objl', lambda: dict(S=smat(4, 2, 0.).tolist()), lambda a: rf.rfObject(a['S'], Id='X'))
    put('base', lambda: dict(Ss=np.array([smat(3, 2, f) for f in FS]), fs=np.array(FS), ports=['p', 'q'],
                             xpos=[1., 2.]), lambda a: rf.rfBase(Id='X', **a))
    put('basel', lambda: dict(Ss=[smat(3, 2, f) for f in FS], fs=list(FS), ports=['p', 'q'], xpos=[1., 2.]),
        lambda a: rf.rfBase(Id='X', **a))
    put('basec', lambda: dict(Ss=np.array([smat(3, 2, f) for f in FS], dtype=complex), fs=np.array(FS, dtype=float),
                              xpos=np.array([1., 2.])), lambda a: rf.rfBase(Id='X', **a))
    put('trl', lambda: dict(ports=['i', 'o'], xpos=[.1, .7], odeparams={'rtol': 1e-9, 'atol': 1e-9}),
        lambda a: rf.rfTRL(L=.6, Z0TL=30., Id='X', **a))
    put('vary', lambda: dict(LTL=[2e-7, 3e-7], CTL=[1e-10, 1.1e-10], rTL=[1., 2.], gTL=1e-4, xpos=[.1, .7],
                             odeparams={'rtol': 1e-9, 'atol': 1e-9}),
        lambda a: rf.rfTRL(L=.6, Id='X', **a))
    put('varya', lambda: dict(Z0TL=np.array([30., 40.]), xpos=np.array([.1, .7])),
        lambda a: rf.rfTRL(L=.6, Id='X', **a))
    put('table', lambda: dict(Z0TL=([0., .2, .6], [30., 40., 35.])), lambda a: rf.rfTRL(L=.6, Id='X', **a))
    put('trlp', lambda: dict(ports=['a', 'b']), lambda a: rf.rfTRL(L=.6, Z0TL=20., Id='X', sNp=file('t.s2p', TS), **a))
    put('rlc', lambda: dict(ports=['a', 'b'], xpos=[.1, .2]), lambda a: rf.rfRLC(Ls=3e-8, Cp=2e-11, Id='X', **a))
    put('arc', lambda: dict(ports=['a'], xpos=[.1]), lambda a: rf.rfArcObj(Larc=3e-8, Id='X', **a))
    put('cpl', lambda: dict(ports=['a', 'b', 'c', 'd'], xpos=[.1, .2, .3, .4]),
        lambda a: rf.rfCoupler(kc=.4, f0=40e6, Id='X', **a))
    put('ct', lambda: dict(Portnames=['B.q', 'A.1']), lambda a: pair(rf.rfCircuit(Id='X', Zbase=20., **a)))
    put('ctp', lambda: dict(ports=[], xpos=[]), lambda a: pair(rf.rfCircuit(Id='X', **a)))
    put('sNp', lambda: dict(Portnames=['A.1', 'A.2']), lambda a: sNp(a['Portnames']))

    def gtl(a):
        return rfGTL(file('m.mod', MODEL), objkey='OBJ', Zbase=30., Id='X', **a)
    put('gtl', lambda: dict(variables={'len': 1.4}), gtl)
    put('gtlx', lambda: dict(variables={'aux': {'len': 1.4}, 'lst': [1, 2]}), gtl)
    put('gtlp', lambda: dict(variables={'w': 1.4}, Portnames=['b', 'a']), gtl)
    return d


def fill(o):
    for f in FS:
        o.setS(f, smat(2, len(o) or 3, f))
    return o


def pair(c):
    import pyRFtk as rf
    c.addblock('A', rf.rfTRL(L=.5, Z0TL=30., Id='a'), relpos=.1)
    c.addblock('B', rf.rfBase(Ss=[smat(3, 2, f) for f in FS], fs=FS, ports=['p', 'q'], Id='b'), relpos=.6)
    c.connect('A.2', 'B.p')
    return c


def sNp(ports=('A.1', 'A.2')):
    import pyRFtk as rf
    c = rf.rfCircuit(Zbase=20., sNp=file('t.s2p', TS), Portnames=ports, Id='X')
    c.addblock('A', rf.rfTRL(L=.3, Z0TL=60., Id='a'), relpos=.4)
    return c


def small():
    """an unfinished circuit with a nested one and lumped elements"""
    import pyRFtk as rf
    n = rf.rfCircuit(Zbase=40., Id='N')
    n.addblock('T', rf.rfTRL(L=.7, Z0TL=25., Id='t'), relpos=.2)
    n.addblock('R', rf.rfRLC(Ls=30e-9, Cp=20e-12, Id='r'), ports={'s': 'x'})
    n.connect('T.2', 'R.x', 'u')
    c = rf.rfCircuit(Zbase=20., Id='X')
    c.addblock('N', n, relpos=1.)
    c.addblock('A', rf.rfTRL(L=.5, LTL=2.5e-7, CTL=1e-10, rTL=3., Id='a'), relpos=.1)
    c.connect('N.u', 'A.1')
    return c


def ops():
    """kind -> (builder, {name: (data or None, call(o, data))})"""
    import pyRFtk as rf
    from pyRFtk.rfGTL import rfGTL
    E = lambda o: None
    k = {}

    def evals(ports, fs=(F1, F2)):
        d = {
            'getS': (lambda: dict(fs=list(fs)), lambda o, a: o.getS(a['fs'], Zbase=20.)),
            'getSa': (lambda: dict(fs=np.array(fs)), lambda o, a: o.getS(a['fs'])),
            'getS1': (lambda: {}, lambda o, a: o.getS(F1)),
            'getS1Z': (lambda: {}, lambda o, a: o.getS(F2, Zbase=17.)),
            'maxV': (lambda: dict(E=excite(ports)), lambda o, a: list(unid(o.maxV(F1, a['E'])))),
        }
        return d

    def tsf():
        return {
            'tsf2str': (lambda: dict(fs=[F2, F1], Zbase=20.),
                        lambda o, a: re.sub('!.*', '', o.tsf2str(**a))),
            'tsf2stra': (lambda: dict(fs=np.array([F2, F1])), lambda o, a: re.sub('!.*', '', o.tsf2str(**a))),
        }

    # ---- tables
    o3 = evals(['a', 'b', 'c'])
    o3.update({
        'setS': (lambda: dict(f=[F1, 55e6], S=np.array(mats(3, 8))), lambda o, a: o.setS(a['f'], a['S'])),
        'setSl': (lambda: dict(f=np.array([12e6, 55e6]), S=mats(3, 8)), lambda o, a: o.setS(a['f'], a['S'])),
        'setS1': (lambda: dict(S=smat(6, 3, 0.)), lambda o, a: o.setS(F2, a['S'])),
        'setSq': (lambda: dict(S=smat(6, 3, 0.).tolist()), lambda o, a: o.setS(F2, a['S'])),
        'item=': (lambda: dict(v=[F2, smat(6, 3, 0.)]), lambda o, a: o.__setitem__(1, a['v'])),
        'item=t': (lambda: dict(v=(61e6, smat(6, 3, 0.))), lambda o, a: o.__setitem__(0, a['v'])),
        'item': (lambda: {}, lambda o, a: o[1]),
        'iter': (lambda: {}, lambda o, a: list(o)),
        'sort': (lambda: dict(order=['c', 'a', 'b']), lambda o, a: o.sortports(a['order'])),
        'deembed': (lambda: dict(p={'b': (.2, 40.), 'a': {'L': .3, 'Z0TL': [30., 40.]}, 'c': .1}),
                    lambda o, a: o.deembed(a['p'])),
        'interp': (lambda: dict(fs=[41e6, 59e6]), lambda o, a: o.getS(a['fs'])),
        'interpa': (lambda: dict(fs=np.array([41e6, 59e6])), lambda o, a: o.getS(a['fs'])),
        'conv': (lambda: {}, lambda o, a: o.convert2newZbase(17.)),
        '_interp_': (lambda: dict(fs=[41e6, 59e6]), lambda o, a: o._interp_(a['fs'])),
        'S_from_Z': (lambda: dict(Z=smat(1, 3, 0.) * 30), lambda o, a: o.S_from_Z(a['Z'])),
        'S_from_Y': (lambda: dict(Z=smat(1, 3, 0.) / 30), lambda o, a: o.S_from_Y(a['Z'])),
    })
    k['obj'] = (lambda: obj(3, ['a', 'b', 'c'], 2, xpos=[.1, .2, .3], Id='X'), o3)
    e = {
        'setSP': (lambda: dict(f=[F1, F2], S=np.array(mats(2, 8)), P=['u', 'v']),
                  lambda o, a: o.setS(a['f'], a['S'], Portnames=a['P'])),
        'setS': (lambda: dict(f=[F1, F2], S=np.array(mats(2, 8))), lambda o, a: o.setS(a['f'], a['S'])),
        'read': (lambda: dict(ports=['u', 'v'], comments=['x']), lambda o, a: o.read_tsf(file('t.s2p', TS), **a)),
        'getS1': (lambda: {}, lambda o, a: o.getS(F1)),
    }
    k['empty'] = (lambda: rf.rfObject(Id='X', funit='Hz'), e)
    k['obja'] = (lambda: rf.rfObject(smat(4, 2, 0.), Id='X'), {
        **evals(['m001', 'm002']), 'item': (lambda: {}, lambda o, a: o[1]), 'iter': o3['iter']})
    b = {**evals(['p', 'q']), **tsf()}
    b['maxVx'] = (lambda: dict(E=excite(['p', 'q']), xpos=[3., 4.]),
                  lambda o, a: list(unid(o.maxV(F1, a['E'], xpos=a['xpos']))))
    b['getSn'] = (lambda: {}, lambda o, a: o.getS())
    b['get1S'] = (lambda: {}, lambda o, a: o.get1S(F1))
    b['maxVp'] = (lambda: dict(E={'q': 1.}), lambda o, a: list(unid(o.maxV(F1, a['E']))))
    k['base'] = (lambda: rf.rfBase(Ss=[smat(3, 2, f) for f in FS], fs=FS, ports=['p', 'q'], Zbase=20.,
                                   xpos=[1., 2.], Id='X'), b)

    # ---- elements
    def par(**p):
        return {'par': (lambda: dict(fs=[F1], params=dict(p)), lambda o, a: o.getS(a['fs'], params=a['params'])),
                'par1': (lambda: dict(params=dict(p)), lambda o, a: o.getS(F2, params=a['params'])),
                'set': (lambda: dict(params=dict(p)), lambda o, a: o.set(**a['params']))}
    vi = {'VISWs': (lambda: dict(E=excite(['1', '2'])), lambda o, a: list(o.VISWs(F1, a['E'], 30.))),
          'VISWs2': (lambda: dict(E=excite(['1', '2'])), lambda o, a: list(o.VISWs(F2, a['E']))),
          'solveVI': (lambda: {}, lambda o, a: o.solveVI(F1)),
          'solveVI1': (lambda: {}, lambda o, a: list(o.solveVI(F1, 1., .02j)))}
    k['trl'] = (lambda: rf.rfTRL(L=1.3, Z0TL=35., Zbase=60., xpos=.4, Id='X'),
                {**evals(['1', '2']), **par(L=.8), **vi})
    k['vary'] = (lambda: rf.rfTRL(L=1.3, Z0TL=[30., 60.], rTL=2., Id='X'), {**evals(['1', '2']), **vi})
    k['trlT'] = (lambda: rf.rfTRL(L=1.3, Z0TL=35., Id='X', sNp=file('t.s2p', TS)), evals(['1', '2']))
    k['rlc'] = (lambda: rf.rfRLC(Rs=3., Ls=40e-9, Cp=30e-12, Id='X'), {**evals(['s', 'p']), **par(Ls=7e-8)})
    k['arc'] = (lambda: rf.rfArcObj(Larc=40e-9, Id='X'), {**evals(['1']), **par(Larc=9e-8)})
    k['cpl'] = (lambda: rf.rfCoupler(kc=.6, Lc=1.2, Id='X'), evals(['A1', 'A2', 'B1', 'B2']))

    # ---- circuits
    free = ['N.T.1', 'N.R.p', 'A.2']

    def sol(ports):
        return {
            'Sol': (lambda: dict(E=excite(ports)), lambda o, a: o.Solution(F1, a['E'])),
            'Soln': (lambda: dict(E=excite(ports), nodes=[], flags={}),
                     lambda o, a: o.Solution(F1, a['E'], nodes=a['nodes'], flags=a['flags'])),
            'solve': (lambda: dict(E=excite(ports), flags={}), lambda o, a: o.solve(F1, a['E'], flags=a['flags'])),
            'flags': (lambda: dict(fs=[F1, F2], flags={'sNp': False}),
                      lambda o, a: o.getS(a['fs'], flags=a['flags'])),
            'maxVf': (lambda: dict(E=excite(ports), flags={'sNp': False}),
                      lambda o, a: list(unid(o.maxV(F2, a['E'], flags=a['flags'])))),
            'blocks': (lambda: {}, lambda o, a: o.listBlocks()),
        }
    c = {**evals(free), **sol(free), **tsf()}
    c.update({
        'Sol1': (lambda: dict(E=excite(free), nodes=['N.T.2', 'A.1']),
                 lambda o, a: o.Solution(F1, a['E'], nodes=a['nodes'])),
        'int': (lambda: dict(nodes=['N.T.1', '<A.1']), lambda o, a: o.Get_internalSmatrix(F1, a['nodes'], 30.)),
        'par': (lambda: dict(params={'A': {'L': .9}, 'N': {'T': {'L': .3}}}),
                lambda o, a: o.getS(F1, params=a['params'])),
        'par0': (lambda: dict(params={'A': {'L': .9}}), lambda o, a: o.getS([F1, F2], params=a['params'])),
        'setk': (lambda: dict(params={'A': {'L': .9}, 'N': {'T': {'L': .3}}}), lambda o, a: o.set(**a['params'])),
        'sett': (lambda: dict(v=('N', {'T': {'L': .3}}), w=('N.R', {'Ls': 5e-8})), lambda o, a: o.set(a['v'], a['w'])),
        'sets': (lambda: dict(v={'L': .3}), lambda o, a: o.set('N.T', a['v'])),
        'addd': (lambda: dict(ports={'s': 'u', 'p': 'v'}, params={'Ls': 5e-8}),
                 lambda o, a: o.addblock('Z', rf.rfRLC(Rs=1., Id='z'), ports=a['ports'], params=a['params'])),
        'addl': (lambda: dict(S=smat(3, 2, 0.), ports=['u', 'v']), lambda o, a: o.addblock('Z', a['S'], a['ports'])),
        'addq': (lambda: dict(S=smat(3, 2, 0.).tolist()), lambda o, a: o.addblock('Z', a['S'])),
        'addr': (lambda: dict(S=np.real(smat(3, 2, 0.))), lambda o, a: o.addblock('Z', a['S'])),
        'repl': (lambda: dict(S=smat(3, 2, 0.), params={}), lambda o, a: o.addblock('A', a['S'], params=a['params'])),
        'nrepl': (lambda: dict(S=smat(3, 2, 0.), ports=['1', '2']),
                  lambda o, a: o.addblock('N.T', a['S'], ports=a['ports'])),
        'nreplp': (lambda: dict(params={'Ls': 4e-8}),
                   lambda o, a: o.addblock('N.R', rf.rfRLC(Rs=1., Id='z'), params=a['params'])),
        'deemb': (lambda: dict(Int=[('N.T.1', 'd')], Ext=[('N.R.p', 'A.2')]),
                  lambda o, a: (o.addblock('F', smat(3, 2, 0.)), o.deembed([('F.1', 'd')], a['Ext']), None)[2]),
        'deemd': (lambda: dict(Int={'N.T.1': 'd'}, Ext={}),
                  lambda o, a: (o.deembed(a['Int'], a['Ext']), None)[1]),
        'con': (lambda: dict(p=['N.T.1', 'A.2', 'jj']), lambda o, a: o.connect(*a['p'])),
        'term': (lambda: dict(kw={'Z': 10 + 5j}), lambda o, a: o.terminate('A.2', **a['kw'])),
        'pos': (lambda: {}, lambda o, a: o.getpos('N.T.2')),
        'find': (lambda: {}, lambda o, a: [text(x) for x in (o.findObj('N.T'),)]),
    })
    k['circuit'] = (small, c)
    for name in ('shared', 'params', 'deep', 'order', 'arrays'):
        specs = catalog()[name]
        fr = list(model_pool(specs)[-1].free)
        k['ct-' + name] = (lambda s=specs: real_pool(s)[-1], {**evals(fr), **sol(fr)})
    k['sNp'] = (sNp, {**evals(['A.1', 'A.2']), **sol(['A.1', 'A.2'])})
    g = {**evals(['a', 'b']), **sol(['a', 'b'])}
    g['gtl'] = (lambda: dict(fs=[F1, F2], flags={}, params={'L1': {'L': .4}}),
                lambda o, a: o.getSgtl(a['fs'], params=a['params'], flags=a['flags']))
    g['par'] = (lambda: dict(params={'L1': {'L': .4}, 'C1': {'Ls': 5e-8}}), lambda o, a: o.getS(F1, params=a['params']))
    k['gtl'] = (lambda: rfGTL(file('m.mod', MODEL), objkey='OBJ', variables={'len': 1.4}, Zbase=30., Id='X'), g)
    return k


_tab = {}


def T(what):
    if what not in _tab:
        _tab[what] = {'ctor': ctors, 'ops': ops}[what]()
    return _tab[what]


_twin = {}


def twin(kind, seq):
    """results of the calls (and pictures '*') on an object whose data nobody touched"""
    if (kind, seq) not in _twin:
        if len(_twin) > 3000:
            _twin.clear()
        mk, tab = T('ops')[kind]
        o = mk()
        res = []
        for n in seq:
            if n == '*':
                res.append(pic(o))
            else:
                data, fn = tab[n]
                a = data()
                res.append(frozen(call_(lambda: fn(o, a))))
        _twin[kind, seq] = res
        c15.files()
    return _twin[kind, seq]


def call_(fn):
    try:
        return fn()
    except Exception as e:
        return {'refused': type(e).__name__}


def compare(got, ref, what):
    d = same(got, ref)
    if d is not None:
        raise Violation(f'{what}: {str(d)[:700]}')


def unchanged(a, data, what):
    if frozen(a) != frozen(data()) and same(frozen(a), frozen(data()), 0) is not None:
        raise Violation(f'{what}: the data given became {str(a)[:300]}, it was {str(data())[:300]}')


# ------------------------------------------------------------------- families
def ctor_cases(tier):
    for n, (data, fn) in ctors().items():
        for p in nodes(data()):
            for m in MUT:
                for when in ('before', 'after'):
                    yield (n, p, m, when)


_ct = {}


def ctor_run(case, st):
    n, path, m, when = case
    data, fn = T('ctor')[n]
    if n not in _ct:
        o = fn(data())
        _ct[n] = pic(o), pic(o)
        c15.files()
    a = data()
    o = fn(a)
    unchanged(a, data, f'constructor {n}')
    if when == 'after':
        compare(pic(o), _ct[n][0], f'constructor {n}: twice the same')
        unchanged(a, data, f'constructor {n} and evaluations')
    change(at(a, path), m)
    compare(pic(o), _ct[n][when == 'after'], f'constructor {n}: after changing {path} of the data given ({m}, {when} the evaluation)')
    st.transitions += 2
    st.checks += 2
    st.state(n, when, str(path))
    st.outcome(n, str(_ct[n])[:300])
    c15.files()


def arg_cases(tier):
    for kind, (mk, tab) in ops().items():
        for n, (data, fn) in tab.items():
            for p in nodes(data()):
                for m in MUT:
                    for when in ('before', 'after'):
                        yield (kind, n, p, m, when)


def arg_run(case, st):
    kind, n, path, m, when = case
    mk, tab = T('ops')[kind]
    data, fn = tab[n]
    res = twin(kind, (n, '*', '*'))
    ref = res[2 if when == 'after' else 1]
    o, a = mk(), data()
    r = call_(lambda: fn(o, a))
    what = f'{kind}: {n}'
    unchanged(a, data, what)
    compare(frozen(r), res[0], f'{what} twice the same')
    if when == 'after':
        pic(o)
        unchanged(a, data, f'{what}, then evaluations')
    change(at(a, path), m)
    compare(pic(o), ref, f'{what}: after changing {path} of the data given ({m}, {when} an evaluation)')
    compare(frozen(r), res[0], f'{what}: the result given earlier after changing {path} of the data given')
    st.transitions += 2
    st.checks += 3
    st.state(kind, n, str(path), when)
    st.outcome(kind, str(ref)[:300])
    c15.files()


def ret_cases(tier):
    for kind, (mk, tab) in ops().items():
        for n, (data, fn) in tab.items():
            for m in MUT:
                for when in ('before', 'after'):
                    yield (kind, n, m, when)


def ret_run(case, st):
    """change everything a call returned"""
    kind, n, m, when = case
    mk, tab = T('ops')[kind]
    data, fn = tab[n]
    seq = (n, '*', n, '*') if when == 'after' else (n, n, '*')
    *_, res2, ref2 = twin(kind, seq)
    base = mk()
    r0 = call_(lambda: fn(base, data()))
    paths = list(nodes(r0))
    for path in [None] + (paths if len(paths) <= 8 else paths[:4] + paths[-4:]):
        o, a = mk(), data()
        r = call_(lambda: fn(o, a))
        what = f'{kind}: {n}: after changing {path or "all"} of the result ({m}, {when} an evaluation)'
        if when == 'after':
            pic(o)
        for p in ([path] if path is not None else paths[::-1]):
            change(at(r, p), m)
        unchanged(a, data, what)
        r2 = call_(lambda: fn(o, data()))
        compare(frozen(r2), res2, what + ' the same call')
        compare(pic(o), ref2, what + ' the object')
        st.transitions += 3
        st.checks += 3
    st.state(kind, n, m, when)
    st.outcome(kind, n, str(res2)[:300])
    c15.files()


def pair_cases(tier):
    for kind, (mk, tab) in ops().items():
        for n1, n2 in itertools.product(tab, repeat=2):
            if tier == 'quick' and kind.startswith('ct-'):
                continue
            yield (kind, n1, n2)


def pair_run(case, st):
    """two calls; the data and results of the first changed completely between or after"""
    kind, n1, n2 = case
    mk, tab = T('ops')[kind]
    *res, ref = twin(kind, (n1, n2, '*'))
    for when in ('between', 'after'):
        for m in MUT[:2]:
            o = mk()
            a1, a2 = tab[n1][0](), tab[n2][0]()
            r1 = call_(lambda: tab[n1][1](o, a1))
            what = f'{kind}: {n1}, {n2}'

            def spoil():
                for v in (a1, r1):
                    for p in list(nodes(v))[::-1]:
                        change(at(v, p), m)
            if when == 'between':
                spoil()
            r2 = call_(lambda: tab[n2][1](o, a2))
            unchanged(a2, tab[n2][0], what)
            if when == 'after':
                unchanged(a1, tab[n1][0], what)
                compare(frozen(r1), res[0], f'{what}: the first result after the second call')
                spoil()
            compare(frozen(r2), res[1], f'{what}: {m} {when}: the second result')
            compare(pic(o), ref, f'{what}: data and result of the first call changed ({m}) {when} the second')
            st.transitions += 3
            st.checks += 4
    st.state(kind, n1, n2)
    st.outcome(kind, str(ref)[:300])
    c15.files()


# ------------------------------------------------------------------ functions
def functions():
    import pyRFtk as rf
    from pyRFtk import ReadTSF, WriteTSF, ConvertGeneral
    from pyRFtk.Z_from_S import Z_from_S
    from pyRFtk.Y_from_S import Y_from_S
    from pyRFtk.S_from_Z import S_from_Z
    from pyRFtk.S_from_Y import S_from_Y
    from pyRFtk.S_from_VI import S_from_VI
    from pyRFtk.maxfun import maxfun
    from pyRFtk.str_dict import str_dict
    from pyRFtk.plotVSWs import strVSW, scaleVSW, plotVSWs
    from pyRFtk.printMatrices import strM
    from pyRFtk.resolveTLparams import TLresolver
    from pyRFtk._check_3D_shape_ import _check_3D_shape_
    from pyRFtk.findpath import findpath
    from pyRFtk.ReadDictData import ReadDictData, ReadDictString
    from pyRFtk.getlines import getlines
    import matplotlib
    matplotlib.use('Agg')
    m1 = lambda: smat(3, 2, 0.)
    m3 = lambda: np.array(mats(2, 3))
    ml = lambda: mats(2, 3)
    mq = lambda: smat(3, 2, 0.).tolist()
    d = {}
    for nm, arg in (('1', m1), ('3', m3), ('l', ml), ('q', mq)):
        for z2, z1 in ((50., 50.), (20., 50.)):
            d[f'CG{nm}{z2}'] = (lambda arg=arg: dict(S=arg()), lambda a, z1=z1, z2=z2: ConvertGeneral(z2, a['S'], z1))
        d[f'CGz{nm}'] = (lambda arg=arg: dict(S=arg(), z1=np.array([20., 30.]), z2=[40. + 1j, 30.]),
                         lambda a: ConvertGeneral(a['z2'], a['S'], a['z1'], 'P', 'G'))
        d[f'CGs{nm}'] = (lambda arg=arg: dict(S=arg(), z=np.array([20., 30.])),
                         lambda a: ConvertGeneral(a['z'], a['S'], a['z']))
        d[f'SZ{nm}'] = (lambda arg=arg: dict(S=arg()), lambda a: S_from_Z(a['S'], 20.))
        d[f'SY{nm}'] = (lambda arg=arg: dict(S=arg()), lambda a: S_from_Y(a['S'], 20.))
        d[f'ZS{nm}'] = (lambda arg=arg: dict(S=arg()), lambda a: Z_from_S(a['S'], 20.))
        d[f'YS{nm}'] = (lambda arg=arg: dict(S=arg()), lambda a: Y_from_S(a['S'], 20.))
        if nm in '1q':
            d[f'strM{nm}'] = (lambda arg=arg: dict(S=arg()), lambda a: strM(a['S']))
    d['VI'] = (lambda: dict(M=smat(3, 2, 0.)), lambda a: S_from_VI(a['M'], 20.))
    d['read'] = (lambda: dict(ports=['u', 'v'], comments=['c']), lambda a: ReadTSF(TS, **a))
    d['readZ'] = (lambda: dict(ports=['u', 'v'], Zbase=33.), lambda a: ReadTSF(TS, **a))

    def table(a):
        o = rf.rfObject(ports=['a', 'b'], funit='Hz')
        for f in FS:
            o.setS(f, smat(2, 2, f))
        return re.sub('!.*', '', WriteTSF(o, **a) or '')
    d['write'] = (lambda: dict(fs=[F1, F2]), table)
    d['writea'] = (lambda: dict(fs=np.array([F1, F2]), tsf_format='MHZ Z RI R 20'), table)
    xs, ys = [0., 1., 2., 3., 4.], [1., 2.5, 3., 2.8, .3]
    d['maxfun'] = (lambda: dict(x=list(xs), y=list(ys)), lambda a: list(maxfun(a['x'], a['y'])))
    d['maxfuna'] = (lambda: dict(x=np.array(xs), y=np.array(ys)), lambda a: list(maxfun(a['x'], a['y'])))
    d['maxfun1'] = (lambda: dict(x=np.array(xs), y=np.array(ys)[::-1].copy()), lambda a: list(maxfun(a['x'], a['y'])))
    d['str_dict'] = (lambda: {'d': {'a': 1, 'b': {'c': [1, 2], 'e': np.array([1., 2.])}, 'f': {}}},
                     lambda a: str_dict(a['d']))
    tree = lambda: {'t': {'top': {'A.1': ([.1], [.3]), 'B': (np.array([0., .5, 1.]), np.array([1., 2., 1.5])),
                                  'C': {'x': ([1.], [2.]), 'y': {'z': ([0., 1.], [3., 4.])}}}}}
    d['strVSW'] = (tree, lambda a: strVSW(a['t']))
    d['scaleVSW'] = (tree, lambda a: scaleVSW(a['t'], .5))

    def plot(a):
        import matplotlib.pyplot as plt
        try:
            r = plotVSWs(a['t'], **a.get('kw', {}))
            return None
        finally:
            plt.close('all')
    d['plotVSWs'] = (tree, plot)
    d['plotVSWs2'] = (lambda: {**tree(), 'kw': {'figkwargs': {}, 'plotnodes': True}}, plot)
    for nm, kw in {'cv': dict(Z0TL=[30., 40.], vr=.8), 'ltl': dict(LTL=[2e-7, 3e-7], CTL=1e-10, rTL=[1., 2.], gTL=1e-4),
                   'tab': dict(Z0TL=([0., .5, 1.], [30., 40., 35.])), 'arr': dict(Z0TL=np.array([30., 40.]))}.items():
        def tl(a):
            t = TLresolver(L=1., **a)
            return [[t.rjwL(F1, x), t.gjwC(F1, x)] for x in (0., .3, 1.)]
        d['TL' + nm] = (lambda kw=kw: copy.deepcopy(kw), tl)
    d['check3'] = (lambda: dict(S=smat(3, 2, 0.)), lambda a: list(_check_3D_shape_(a['S'])))
    d['check3l'] = (lambda: dict(S=mats(2, 3)), lambda a: list(_check_3D_shape_(a['S'])))

    def fnd(a):
        os.makedirs('u1/v', exist_ok=True)
        os.makedirs('u2', exist_ok=True)
        file('u1/v/x.txt', '1')
        file('u2/d.txt', "{'a': [1, 2], 'b': {'c': 3}}")
        return [os.path.relpath(findpath('x.txt', **a)), ReadDictData('d.txt', **a)]
    d['find'] = (lambda: dict(userdirs=['u1', 'u2'], appdirs=['nope']), fnd)
    d['dict'] = (lambda: dict(s="{'a': [1, 2]}"), lambda a: ReadDictString(a['s']))
    return d


def fun_cases(tier):
    for n in functions():
        yield (n,)


def fun_run(case, st):
    n, = case
    if 'fun' not in _tab:
        _tab['fun'] = functions()
    data, fn = _tab['fun'][n]
    a = data()
    r = call_(lambda: fn(a))
    if isinstance(r, dict) and 'refused' in r:
        raise Violation(f'{n}: fails: {r}')
    if n != 'scaleVSW':
        unchanged(a, data, n)
    ref = frozen(r)
    for p in nodes(a):
        for m in MUT:
            b = data()
            r = call_(lambda: fn(b))
            compare(frozen(r), ref, f'{n}: called again')
            change(at(b, p), m)
            compare(frozen(r), ref, f'{n}: the result after changing {p} of the data given')
            compare(frozen(call_(lambda: fn(data()))), ref, f'{n}: called after changing {p} of the data given')
            st.checks += 3
            st.transitions += 2
    for p in nodes(r):
        for m in MUT:
            b = data()
            r = call_(lambda: fn(b))
            change(at(r, p), m)
            unchanged(b, data, f'{n}: after changing {p} of the result')
            compare(frozen(call_(lambda: fn(data()))), ref, f'{n}: called again after changing {p} of the result')
            st.checks += 2
            st.transitions += 2
    st.state(n)
    st.outcome(n, str(ref)[:300])


def families(tier):
    return [
        Family('functions', lambda: fun_cases(tier), fun_run,
               'all functions x all parts of the data given and returned x 3 kinds of change'),
        Family('constructors', lambda: ctor_cases(tier), ctor_run,
               'all constructors x all parts of the data x 3 kinds of change x before/after an evaluation'),
        Family('arguments', lambda: arg_cases(tier), arg_run,
               'all kinds of objects x all calls x all parts of the data x 3 kinds of change x before/after evaluation'),
        Family('results', lambda: ret_cases(tier), ret_run,
               'all kinds x all calls x parts of what is returned x 3 kinds of change x before/after evaluation'),
        Family('pairs', lambda: pair_cases(tier), pair_run,
               'all pairs of calls; all data and results of the first changed between or after'),
    ]
