"""C22: rejected operations leave the object as it was.

For every kind of object and network, in every state reached by <= 1 (2)
operations, every operation of a menu that cannot be carried out is tried (for
connect, terminate and deembed: all combinations of the names around); it must
raise, the picture of the object and of its parts must be that of a twin that
never saw the operation, and the same after every further operation.
"""
import copy
import itertools
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import excite
from . import c15, c16, nets
from .c15 import file, TS, same, snap, MODEL
from .c16 import pic, text, unid, frozen

PROP = 'C22'
ASSUME = ['an operation is rejected by any exception', 'values of the right type']
F1, F2 = FS[0], FS[1]


def picture(o):
    """ports, positions, settings, results (not what str tells of the last evaluation)"""
    d = unid(c15.snap(o))
    d.pop('waves', None)
    # an evaluation that fails may have put the ports in the announced order and passed the parameters of the blocks
    order = sorted(range(len(d['ports'])), key=lambda i: d['ports'][i])
    d['xpos'] = [d['xpos'][i] for i in order] if len(d['xpos']) == len(order) else d['xpos']
    d['ports'] = sorted(d['ports'])
    if hasattr(o, 'blocks'):
        for b in d['leaves']:
            e = o.object(b)
            d['leaves'][b] = {a: c15.plain(getattr(e, a)) for a in c15.ATTR if hasattr(e, a)}
            d['leaves'][b]['ports'] = list(e.ports) if hasattr(e, 'ports') else None
            d['leaves'][b]['xpos'] = list(e.xpos) if hasattr(e, 'xpos') else None
    return d


def refused(fn, o, what):
    try:
        r = fn(o)
    except Exception as e:
        return type(e).__name__
    raise Violation(f'{what} is accepted (returns {str(r)[:80]!r})')


def compare(got, ref, what):
    d = same(got, ref)
    if d is not None:
        raise Violation(f'{what}: {str(d)[:500]}')


def tryit(fn, o):
    try:
        return frozen(unid(fn(o)))
    except Exception as e:
        return {'refused': type(e).__name__}


# ------------------------------------------------------------------- menus
def S_(n, k=9):
    return smat(k, n, 0.)


def tab_bad(n, ports):
    p = list(ports)
    q = p[0]
    big = np.array([S_(n + 1)] * 2)
    d = {
        'setS size': lambda o: o.setS(F1, S_(n + 1)), 'setS size2': lambda o: o.setS([F1, 1e6], big),
        'setS count': lambda o: o.setS([F1, 1e6], S_(n)), 'setS count2': lambda o: o.setS(1e6, np.array([S_(n)] * 2)),
        'setS flat': lambda o: o.setS(1e6, S_(n)[:, :1]), 'setS new size': lambda o: o.setS(1e6, S_(n + 1)),
        'setS names': lambda o: o.setS(1e6, S_(n), Portnames=['u%d' % i for i in range(n)]),
        'setS list': lambda o: o.setS([1e6, 2e6], [S_(n), S_(n + 1)]),
        'item size': lambda o: o.__setitem__(0, (1e6, S_(n + 1))),
        'item out': lambda o: o.__setitem__(99, (1e6, S_(n))), 'item value': lambda o: o.__setitem__(0, 3),
        'item text': lambda o: o.__setitem__(0, (1e6, 'x')), 'item none': lambda o: o.__setitem__('x', (1e6, S_(n))),
        'get item': lambda o: o[99],
        'sort unknown': lambda o: o.sortports(p[:-1] + ['zz']),
        'sort unknown first': lambda o: o.sortports(['zz'] + p[1:]),
        'sort twice': lambda o: o.sortports([q] * n if n > 1 else [q, q]), 'sort long': lambda o: o.sortports(p + ['zz']),
        'deembed unknown': lambda o: o.deembed({'zz': .1}),
        'deembed mixed': lambda o: o.deembed({q: (.1, 30.), 'zz': .1}),
        'deembed mixed2': lambda o: o.deembed({q: .1, p[-1]: 'text'} if n > 1 else {q: 'text'}),
        'deembed type': lambda o: o.deembed({q: [1, 2, 3, 4]}), 'deembed none': lambda o: o.deembed({q: None}),
        'read missing': lambda o: o.read_tsf('nofile.s2p'),
        'read bad': lambda o: o.read_tsf(file('bad.s2p', TS[:-20] + ' 1 2 x\n')),
        'read empty': lambda o: o.read_tsf(file('empty.s2p', '')),
        'maxV missing': lambda o: o.maxV(F1, {q: 1.} if n > 1 else {}), 'maxV none': lambda o: o.maxV(F1, {}),
        'getS text': lambda o: o.getS('abc'), 'getS funit': lambda o: o.getS(F1, funit='furlong'),
        'S_from_Z size': lambda o: o.S_from_Z(np.ones((2, 3))),
        'tsf': lambda o: o.tsf2str(fs=[F1], fmt='% MHz S ZZ R 50') if hasattr(o, 'tsf2str') else 1 / 0,
    }
    return d


def leaf_bad(ports, attr, val, obj=None):
    q = ports[0]
    d = {
        'set unknown': lambda o: o.set(zzz=1.), 'set mixed': lambda o: o.set(**{attr: val, 'zzz': 1.}),
        'set mixed2': lambda o: o.set(**{'zzz': 1., attr: val}),
        'par unknown': lambda o: o.getS(F1, params={'zzz': 1.}),
        'par mixed': lambda o: o.getS(F1, params={attr: val, 'zzz': 1.}),
        'par mixed list': lambda o: o.getS([F1, F2], params={'zzz': 1., attr: val}),
        'getS text': lambda o: o.getS('abc'), 'getS list': lambda o: o.getS([F2, 'abc']), 'getS none': lambda o: o.getS([F2, None]),
        'Zbase': lambda o: o.getS(F2, Zbase='x'),
        'tsf': lambda o: o.tsf2str(fs=[F1], fmt='% MHz S ZZ R 50'), 'tsf2': lambda o: o.tsf2str(fs=['x']),
    }
    return d


def ct_bad(names):
    """things that cannot be carried out with a circuit; names: what is in it"""
    import pyRFtk as rf
    b0, bn = names['blocks'][0], names['blocks'][-1]
    free, used = names['free'], names['used']
    p, q = free[0], free[-1]
    n0 = names['n'][0]
    d = {
        'add twice': lambda c: c.addblock('QQ', S_(2), ['a', 'a']),
        'add count': lambda c: c.addblock('QQ', S_(2), ['a', 'b', 'c']),
        'add few': lambda c: c.addblock('QQ', S_(3), ['a', 'b']),
        'add dict': lambda c: c.addblock('QQ', S_(2), {'1': 'a'}),
        'add unknown': lambda c: c.addblock('QQ', rf.rfRLC(Rs=1.), {'zz': 'x'}),
        'add mixed': lambda c: c.addblock('QQ', rf.rfRLC(Rs=1.), {'s': 'y', 'zz': 'x'}),
        'add same': lambda c: c.addblock('QQ', rf.rfRLC(Rs=1.), {'s': 'p'}),
        'add same2': lambda c: c.addblock('QQ', rf.rfRLC(Rs=1.), {'s': 'x', 'p': 'x'}),
        'add objlist': lambda c: c.addblock('QQ', rf.rfRLC(Rs=1.), ['x', 'x']),
        'add tuple': lambda c: c.addblock('QQ', rf.rfRLC(Rs=1.), 3),
        'add text%': lambda c: c.addblock('QQ', S_(2), 'same'),
        'add none': lambda c: c.addblock('QQ', None), 'add number': lambda c: c.addblock('QQ', 3.),
        'add flat': lambda c: c.addblock('QQ', np.ones((2, 3))),
        'add 3D': lambda c: c.addblock('QQ', np.ones((2, 2, 2))),
        'add deep': lambda c: c.addblock('QQ.R', S_(2)),
        'repl size': lambda c: c.addblock(b0, S_(n0 + 1)),
        'repl size last': lambda c: c.addblock(bn, S_(names['n'][-1] + 1)),
        'repl none': lambda c: c.addblock(b0, None),
        'set unknown block': lambda c: c.set('QQ.L', 1.), 'set unknown kw': lambda c: c.set(QQ={'L': 1.}),
        'set no value': lambda c: c.set(f'{b0}.L'), 'set no attr': lambda c: c.set(b0, 3.),
        'set unknown attr': lambda c: c.set(f'{b0}.zzz', 3.), 'set odd': lambda c: c.set(3),
        'set tuple3': lambda c: c.set(('a', 'b', 'c')),
        'getpos': lambda c: c.getpos('zz'), 'getpos deep': lambda c: c.getpos(f'{b0}.zz'),
        'object': lambda c: c.object('QQ'), 'object deep': lambda c: c.object(f'{b0}.QQ'),
        'maxV none': lambda c: c.maxV(F1, {}), 'Solution none': lambda c: c.Solution(F1, {}),
        'int unknown': lambda c: c.Get_internalSmatrix(F1, ['zz']),
        'int mixed': lambda c: c.Get_internalSmatrix(F2, [p, 'zz']),
        'solve none': lambda c: c.solve(F2, {}),
        'tsf': lambda c: c.tsf2str(fs=[F1], fmt='% MHz S ZZ R 50'),
    }
    if len(free) > 1:
        d['maxV one'] = lambda c: c.maxV(F2, {p: 1.})
        d['Solution one'] = lambda c: c.Solution(F2, {q: 1.})
    if names['table']:
        d['getS missing'] = lambda c: c.getS(77.7e6)
        d['getS missing last'] = lambda c: c.getS([F1, F2, 77.7e6])
        d['Solution missing'] = lambda c: c.Solution(77.7e6, excite(c.ports))
        d['maxV missing'] = lambda c: c.maxV(77.7e6, excite(c.ports))
    for i, (path, a, v) in enumerate(names['leaves']):
        top = path.split('.')[0]

        def nest(path, val):
            for k in reversed(path.split('.')):
                val = {k: val}
            return val
        d[f'set {path}.{a} mixed'] = lambda c, path=path, a=a, v=v: c.set((f'{path}', {a: v, 'zzz': 1.}))
        d[f'set {path}.{a} then block'] = lambda c, path=path, a=a, v=v: c.set((f'{path}.{a}', v), ('QQ.L', 1.))
        d[f'set {path}.{a} then attr'] = lambda c, path=path, a=a, v=v: c.set(f'{path}.{a}', v, f'{b0}.zzz', 1.)
        d[f'set {path}.{a} first attr'] = lambda c, path=path, a=a, v=v: c.set(f'{b0}.zzz', 1., f'{path}.{a}', v)
        d[f'set {path}.{a} deeper'] = lambda c, path=path, a=a, v=v: c.set(f'{path}.{a}.{a}', v)
        d[f'set {path}.{a} nested'] = lambda c, path=path, a=a, v=v: c.set(
            **{**nest(path, {a: v}), 'QQ': {'L': 1.}} if path.count('.') < 9 else {})
        d[f'par {path}.{a} mixed'] = lambda c, path=path, a=a, v=v: c.getS(F2, params=nest(path, {a: v, 'zzz': 2.}))
        d[f'repl {path}'] = lambda c, path=path: c.addblock(path, S_(5))
        if '.' in path:
            d[f'add deep {path}'] = lambda c, path=path: c.addblock(path.rsplit('.', 1)[0] + '.QQ', S_(2))
            d[f'add deeper {path}'] = lambda c, path=path: c.addblock(path + '.QQ', S_(2))
    return d


def combos(names, tier):
    """connections that are not possible"""
    free, used = names['free'], names['used']
    al = free[:2] + used[:2] + ['new1', 'new2', 'B.new', names['blocks'][0]]
    nodes = set(free) | set(used)
    for k in range(0, 4):
        for t in itertools.product(al, repeat=k):
            new = [x for x in t if x not in nodes]
            ok = len(new) <= 1 and not any('.' in x for x in new) and len(new) < len(t) and len(set(t)) == len(t) \
                and all(x in free for x in t if x in nodes)
            if not ok:
                yield t


TK = [dict(Z=3.), dict(Y=.1), dict(RC=.2), {}, dict(U=3.), dict(Z=3., Y=.1), dict(Z=3., U=1.), dict(Y=.1, RC=.2)]


def terms(names):
    free, used, term = names['free'], names['used'], names['term']
    for q in free[:2] + used[:3] + term[:2] + ['zz', 'B.zz', names['blocks'][0], '']:
        for i, kw in enumerate(TK):
            ok = (q in free or q in term) and len(kw) <= 1 and 'U' not in kw
            if not ok and not (q in used and q not in term and i < 4 and q in names['maybe']):
                yield q, i


def deems(names):
    free, used = names['free'], names['used']
    al = free[:2] + used[:1] + ['new1', 'zz', 'B.new']
    nodes = set(free) | set(used)
    sides = [list(t) for k in range(3) for t in itertools.product(itertools.product(al, repeat=2), repeat=k)]
    for a in sides:
        for b in [[]] + [[t] for t in itertools.product(al, repeat=2)]:
            if len(a) + len(b) > 2:
                continue
            fr, ok, new = set(free), True, set()
            for dp, ip in a:
                if dp not in fr or ip in nodes or ip in new or '.' in ip:
                    ok = False
                    break
                fr.remove(dp)
                fr.add(ip)
                new.add(ip)
            avail = set(fr)
            for t in b:
                for x in t:
                    if x not in avail:
                        ok = False
                    avail.discard(x)
            if not ok:
                yield a, b


# ------------------------------------------------------------------- the kinds
def leafops(k):
    return {n: fn for n, fn in c15.K(k)[1].items() if n not in ('bad', 'rm', 'xpos', 'ports', 'inplace', 'list', 'vars')
            and not n.startswith('direct')}


SKIP = {
    # what one kind of object accepts or does not have
}


def menu(k):
    if k in ('obj2', 'obj3', 'objT', 'objF', 'objA'):
        o = c15.K(k)[0]()
        return tab_bad(len(o), o.ports)
    if k == 'empty':
        d = tab_bad(2, ['a', 'b'])
        keep = ('setS flat', 'setS list', 'setS count', 'setS count2', 'item out', 'get item',
                'deembed unknown', 'read missing', 'read bad', 'read empty', 'getS text', 'maxV missing', 'sort long')
        d = {n: d[n] for n in keep}
        d['names'] = lambda o: o.setS(1e6, S_(2), Portnames=['a'])
        return d
    ch = {'trl': ('L', 2.), 'lossy': ('L', 2.), 'vary': ('L', 2.), 'trlT': ('L', 2.), 'rlc': ('Ls', 9e-8),
          'arc': ('Larc', 9e-8), 'base': ('Zbase', 3.), 'cpl': ('kc', .2)}
    if k in ch:
        o = c15.K(k)[0]()
        d = leaf_bad(o.ports, *ch[k])
        if k == 'base':
            d['missing'] = lambda o: o.getS(77e6)
            d['missing last'] = lambda o: o.getS([F1, 77e6])
        if hasattr(o, 'VISWs'):
            d['VISWs'] = lambda o: o.VISWs(F1, {})
        return d
    return ct_bad(names_of(k))


def names_of(k):
    """what is in the circuit (from the description, not from the circuit)"""
    if k.startswith('ct-'):
        specs = catalog()[k[3:]]
        m = model_pool(specs)[-1]
        top = specs[-1]
        free = list(m.free)
        term = [op[1] for op in top['ops'] if op[0] == 'term']
        nodes = [f'{b}.{p}' for b, d in m.blocks.items() for p in d['ports']]
        nodes += [op[1][j] for op in top['ops'] if op[0] == 'con' for j in range(len(op[1])) if op[1][j] not in nodes]
        nodes += [t[1] for op in top['ops'] if op[0] == 'deem' for t in op[1]]
        nodes = list(dict.fromkeys(nodes))
        n = [len(d['ports']) for d in m.blocks.values()]
        lv = list(c15.leaves(specs, len(specs) - 1))

        def has(i):
            s = specs[i]
            return s.get('cls') == 'base' or s['t'] == 'CT' and any(has(o[2]) for o in s['ops'] if o[0] == 'add')
        tab = has(len(specs) - 1)
    elif k == 'gtl':
        free, term, nodes = ['a', 'b'], [], ['a', 'b']
        m = None
        n, lv, tab = [2], [('L1', 'L', .3)], False
        return dict(free=free, term=[], used=['L1.j'], blocks=['L1'], n=n, leaves=lv, table=tab, maybe=[])
    elif k == 'sNp':
        return dict(free=['A.1', 'A.2'], term=[], used=[], blocks=['A'], n=[2], leaves=[('A', 'L', .9)], table=False,
                    maybe=[])
    else:
        raise KeyError(k)
    pick = lv[:1] + [x for x in lv[1:] if '.' in x[0]][:1] + lv[-1:]
    pick = [x for i, x in enumerate(pick) if x not in pick[:i]]
    return dict(free=free, term=term, used=[x for x in nodes if x not in free and x not in term],
                blocks=list(m.blocks), n=n, leaves=pick, table=tab, maybe=[])


def after(k, names, ops):
    """the names when the operations were done"""
    d = copy.deepcopy(names)
    for op in ops:
        if op == 'term':
            x = d['free'].pop(-1)
            d['term'].append(x)
        elif op == 'con':
            a, b = d['free'][:2]
            d['free'] = d['free'][2:]
            d['used'] += [a, b]
        elif op == 'conn':
            a = d['free'].pop(0)
            d['used'].append(a)
            d['free'].append('NEW')
        elif op == 'add':
            d['blocks'].append('XX')
            d['n'].append(2)
            d['free'] += ['XX.u', 'XX.v']
    return d


KINDS = ['obj2', 'obj3', 'objT', 'objF', 'objA', 'empty', 'base', 'trl', 'lossy', 'vary', 'trlT', 'rlc', 'arc', 'cpl']
_menu = {}


def M(k):
    if k not in _menu:
        c15.files()
        _menu[k] = menu(k)
    return _menu[k]


def cts():
    return ['ct-' + n for n in catalog()] + ['sNp', 'gtl']


_twin = {}


def twin(k, ops):
    """picture of the object that was never asked for something impossible"""
    if (k, ops) not in _twin:
        if len(_twin) > 2000:
            _twin.clear()
        c15.files()
        o = c15.K(k)[0]()
        r = [tryit(leafops(k)[n], o) for n in ops]
        p = picture(o)
        _twin[k, ops] = r, p
    return _twin[k, ops]


def singles(tier):
    for k in KINDS + cts():
        for b in M(k):
            for n in [None] + list(leafops(k)):
                pre = [] if n is None else [n]
                if not possible(k, pre, b):
                    yield (k, pre, b, None)


ORDERED = ('ct-order', 'ct-unsorted')          # the order of the ports was announced
EVAL = ('Solution', 'maxV', 'int', 'solve')


def follows(tier):
    for k in KINDS + cts():
        for b in M(k):
            for n in leafops(k):
                if possible(k, [], b) or k in ORDERED and n in ('con', 'term', 'conn', 'add') and (b.split()[0] in EVAL or b == 'getS missing last'):
                    continue                        # which ports these use depends on the evaluation
                yield (k, [], b, n)
                if tier != 'quick' or k in KINDS:
                    for m in leafops(k):
                        if not possible(k, [m], b):
                            yield (k, [m], b, n)


def run(case, st):
    k, pre, b, post = case
    ops = leafops(k)
    ref = twin(k, tuple(pre) + ((post,) if post else ()))
    c15.files()
    o = c15.K(k)[0]()
    got = [tryit(ops[n], o) for n in pre]
    w = f'{k} after {pre}: {b}'
    e = refused(M(k)[b], o, w)
    c15.files()
    if post:
        got.append(tryit(ops[post], o))
        w += f', then {post}'
        # (Get_internalSmatrix evaluates before it refuses: it puts the parameters of the blocks on an object they
        # share, whether a set that follows has to modify the object may depend on that)
        if not (b[:4] == 'int ' and post[:4] == 'set ' and isinstance(got[-1], bool)):
            compare(got[-1], ref[0][-1], w + ' gives another result')
    compare(picture(o), ref[1], w)
    st.checks += 2
    st.transitions += len(pre) + 1 + bool(post)
    st.state(*case)
    st.outcome(k, b, e)



def possible(k, pre, b):
    """the operation has become possible"""
    if 'missing' in b or b[:4] == 'par ':
        return 'repl' in pre or k == 'sNp'
    if b in ('maxV one', 'Solution one') and k not in KINDS:
        return len(after(k, names_of(k), pre)['free']) < 2
    return False


# --- all impossible combinations of names
def names_cases(tier):
    for k in cts():
        ops = [x for x in leafops(k) if x in ('S', 'M', 'term', 'con', 'conn', 'add', 'reterm', 'sol')]
        pres = [[]] + [[n] for n in ops]
        if tier != 'quick' and k not in ORDERED:
            pres += [[n, m] for n in ops for m in ops if m not in ('con', 'term', 'conn') or n in ('S', 'M', 'sol')]
        for pre in pres:
            for what in ('connect', 'terminate', 'deembed'):
                for post in (None, 'M' if 'M' in leafops(k) else 'max'):
                    yield (k, pre, what, post)


def attempts(k, pre, what):
    nm = after(k, names_of(k), pre)
    if what == 'connect':
        return [(t, lambda o, t=t: o.connect(*t)) for t in combos(nm, '')]
    if what == 'terminate':
        return [((q, TK[i]), lambda o, q=q, i=i: o.terminate(q, **TK[i])) for q, i in terms(nm)]
    return [((a, b), lambda o, a=a, b=b: o.deembed(copy.deepcopy(a), copy.deepcopy(b))) for a, b in deems(nm)]


def run_names(case, st):
    k, pre, what, post = case
    ops = leafops(k)
    ref = twin(k, tuple(pre) + ((post,) if post else ()))

    def go(at):
        c15.files()
        o = c15.K(k)[0]()
        for n in pre:
            tryit(ops[n], o)
        for args, fn in at:
            refused(fn, o, f'{k} after {pre}: {what}{args}')
        if post:
            tryit(ops[post], o)
        return same(picture(o), ref[1])
    at = attempts(k, pre, what)
    if go(at) is not None:
        for x in at:                                # which one?
            d = go([x])
            if d is not None:
                raise Violation(f'{k} after {pre}: {what}{x[0]} then {post}: {str(d)[:500]}')
        raise Violation(f'{k} after {pre}: {what} with all of {[x[0] for x in at][:5]}..., then {post}: {go(at)}')
    st.checks += len(at) + 1
    st.transitions += len(at) + len(pre)
    for x in at:
        st.state(k, pre, what, x[0], post)
    st.outcome(k, pre, what)


# --- objects that cannot be made
def ctors():
    import pyRFtk as rf
    from pyRFtk.rfGTL import rfGTL
    S2, S3 = S_(2), S_(3)
    return {
        'obj ports': lambda: rf.rfObject(S2, ports=['a']), 
        'obj ports3': lambda: rf.rfObject(S3, ports=['a', 'b']), 'obj file': lambda: rf.rfObject(touchstone='no.s2p'),
        'obj shape': lambda: rf.rfObject(np.ones((2, 3))), 'obj text': lambda: rf.rfObject('abc'),
        'base sizes': lambda: rf.rfBase(Ss=[S2], fs=[1e6, 2e6]), 'base ports': lambda: rf.rfBase(Ss=[S2], fs=[1e6], ports=['a']),
        'base shape': lambda: rf.rfBase(Ss=np.ones((1, 2, 3)), fs=[1e6]),
        'base ports3': lambda: rf.rfBase(Ss=[S2], fs=[1e6], ports=['a', 'b', 'c']),
        'trl kw': lambda: rf.rfTRL(L=1., Z0TL=30., zz=3),
        'trl ports': lambda: rf.rfTRL(L=1., ports=['a']), 'trl ports3': lambda: rf.rfTRL(L=1., ports=['a', 'b', 'c']),
        'rlc ports': lambda: rf.rfRLC(ports=['a']), 
        'arc ports': lambda: rf.rfArcObj(Larc=1e-8, ports=['a', 'b']), 
        'cpl both': lambda: rf.rfCoupler(kc=.2, kcdB=3.), 'cpl ports': lambda: rf.rfCoupler(kc=.2, ports=['a', 'b']),
        'gtl file': lambda: rfGTL('nofile.mod'),
        'gtl key': lambda: rfGTL(file('m.mod', MODEL), objkey='NONE'),
        'gtl text': lambda: rfGTL(file('m2.mod', MODEL[:-20]), objkey='OBJ'),
    }


def ctor_cases(tier):
    for n in ctors():
        yield n


def run_ctor(n, st):
    c15.files()
    a = c15.K('ct-tee')[0]()
    ref = picture(c15.K('ct-tee')[0]())
    refused(lambda o: ctors()[n](), None, f'constructor: {n}')
    compare(picture(a), ref, f'another object after {n}')
    compare(picture(c15.K('ct-tee')[0]()), ref, f'new object after {n}')
    st.checks += 2
    st.transitions += 3
    st.state(n)
    st.outcome(n)


def families(tier):
    return [
        Family('refused', lambda: singles(tier), run,
               f'{len(KINDS) + len(cts())} kinds of objects and networks, every operation of the menu that cannot be carried '
               'out, in the initial state and after every single operation'),
        Family('followed', lambda: follows(tier), run, 'the same followed by every operation'),
        Family('names', lambda: names_cases(tier), run_names,
               'all impossible connections of <= 3 of 8 names, all impossible terminations of 10 names with 8 arguments, '
               'all impossible deembeddings of <= 2 pairs of 6 names, one after the other'),
        Family('constructors', lambda: ctor_cases(tier), run_ctor, f'{len(ctors())} refused constructions'),
    ]
