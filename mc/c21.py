"""C21: all objects answer frequency requests uniformly.

All sequences of requested frequencies up to a length, in every form and on
every reference impedance, after every short history of earlier requests, for
every kind of object and every network of the catalogue; the reference is the
answer of a fresh object to a single frequency, converted by the harness.
"""
import itertools
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import excite
from . import c15, nets
from .c15 import file, TS, obj

PROP = 'C21'
ASSUME = ['frequencies as int, float or numpy scalar; lists, tuples and one-dimensional arrays of them',
          'real positive scalar reference impedances']
F = list(FS)


def conv(S, Z1, Z2):
    """from reference Z1 to Z2"""
    if Z1 == Z2:
        return S
    r = (Z2 - Z1) / (Z2 + Z1)
    n = len(S)
    return (S - r * np.eye(n)) @ np.linalg.inv(np.eye(n) - r * S)


def builders():
    import pyRFtk as rf
    from pyRFtk.rfGTL import rfGTL
    d = {}
    for k, (mk, _) in c15.kinds().items():
        if k != 'empty':
            d[k] = mk
    d['interp'] = lambda: mhz('MHz', interp='RI')
    d['interpMA'] = lambda: mhz('kHz', interp='MA')
    d['one'] = lambda: rf.rfObject(smat(5, 3, 0.), ports=['a', 'b', 'c'], Zbase=30.)
    d['unsorted'] = unsorted
    d['base1'] = lambda: rf.rfBase(Ss=[smat(6, 2, f) for f in F], fs=F, Zbase=20.)
    d['base1p'] = lambda: rf.rfBase(Ss=[smat(6, 1, f) for f in F[::-1]], fs=F[::-1])
    d['trl0'] = lambda: rf.rfTRL(L=0., Z0TL=30.)
    d['skin'] = lambda: rf.rfTRL(L=.8, OD=.23, ID=.1, rho=2e-6, Zbase=30.)
    d['profile'] = lambda: rf.rfTRL(L=.8, Z0TL=lambda x: 30. + 20 * x, rTL=2.)
    d['freqdep'] = lambda: rf.rfTRL(L=.8, Z0TL=30., AdB=lambda w: .1 * np.sqrt(w / 2.5e8))
    d['rlc0'] = lambda: rf.rfRLC()
    d['rlcs'] = lambda: rf.rfRLC(Cs=20e-12, Zbase=10.)
    d['rlcp'] = lambda: rf.rfRLC(Lp=20e-9, Cp=600e-12, Zbase=70.)
    d['arcopen'] = lambda: rf.rfArcObj(Larc=np.inf)
    d['cplf'] = lambda: rf.rfCoupler(kcdB=6., f0=40e6)
    d['gtlx'] = lambda: rfGTL(file('m.mod', c15.MODEL), objkey='OBJ', Zbase=75.)
    d['ctsolved'] = solved
    d['ctclosed'] = lambda: real_pool(nets.catalog()['deep'])[-2]
    return d


def mhz(funit, **kw):
    import pyRFtk as rf
    o = rf.rfObject(ports=['a', 'b'], funit='Hz', Zbase=40., **kw)
    for f in F[::-1]:
        o.setS(f, smat(3, 2, f))
    return o


def unsorted():
    import pyRFtk as rf
    o = rf.rfObject(ports=['a', 'b'], funit='Hz')
    o.setS([F[2], F[0], F[1], F[0]], [smat(3, 2, f) for f in (F[2], F[1], F[1], F[0])])
    return o


def solved():
    c = real_pool(nets.catalog()['params'])[-1]
    c.getS(F[2], Zbase=11.)
    c.terminate(c.ports[0], Z=22.)
    return c


_b = None


def B(k):
    global _b
    if _b is None:
        _b = builders()
    return _b[k]


NAMES = None


def names():
    return list(builders())


def tables(k):
    """does the object only know its own frequencies?"""
    return k in ('base', 'base1', 'base1p') or k.startswith('ct-') or k == 'ctsolved' or k == 'ctclosed'


_ref = {}


def single_ref(k, f):
    """the answer of a fresh object to a single request"""
    if (k, f) not in _ref:
        c15.files()
        o = B(k)()
        _ref[k, f] = np.array(o.getS(f)), o.Zbase
    return _ref[k, f]


FORMS = {
    'list': list, 'array': np.array, 'tuple': tuple, 'ints': lambda w: [int(f) for f in w],
    'intarray': lambda w: np.array([int(f) for f in w]), 'np': lambda w: [np.float64(f) for f in w],
    'slice': lambda w: np.array([x for f in w for x in (f, -1.)])[::2],
}
ONE = {'float': float, 'int': int, 'np': np.float64, 'npint': np.int64, 'item': lambda f: np.array([f])[0]}


def words(alpha, n):
    for k in range(n + 1):
        yield from itertools.product(range(len(alpha)), repeat=k)


def freqs(k, tier):
    """the frequencies of the requests"""
    if tables(k) or k in ('obj2', 'obj3', 'objT', 'objF', 'interp', 'interpMA', 'unsorted', 'sNp'):
        fs = list(F)
        if k in ('interp', 'obj2', 'objT', 'interpMA'):
            fs[1] = 41.5e6
        return fs
    return [F[0], 52e6, 1e3]


def requests(tier):
    n = 3 if tier == 'quick' else 5
    for k in names():
        for w in words(range(3), n):
            yield (k, list(w))


ZS = [None, 20., 50, 'own', 'near']
NEAR = 1.003                                   # (nearly the impedance of the object)


def ask(o, fs, Z):
    return o.getS(fs) if Z is None else o.getS(fs, Zbase=o.Zbase if Z == 'own' else o.Zbase * NEAR if Z == 'near' else Z)


def expected(k, f, Z):
    S, Z0 = single_ref(k, f)
    return conv(S, Z0, Z0 if Z in (None, 'own') else Z0 * NEAR if Z == 'near' else Z)


def chk_req(case, st):
    k, w = case
    fs = [freqs(k, '')[i] for i in w]
    c15.files()
    for form, fn in FORMS.items():
        o = B(k)()
        for Z in ZS:
            a = fn(fs)
            keep = repr(a)
            got = ask(o, a, Z)
            what = f'{k}: getS({a!r}, Zbase={Z}) after the same request on {ZS[:ZS.index(Z)]}'
            n = len(o.ports) if hasattr(o, 'ports') else len(o)
            if np.shape(got)[:1] != (len(fs),) or (fs and np.shape(got) != (len(fs), n, n)):
                raise Violation(f'{what} has shape {np.shape(got)}, expected {(len(fs), n, n)}')
            for i, f in enumerate(fs):
                r = expected(k, f, Z)
                if not close(got[i], r, 1e-8):
                    raise Violation(f'{what}: matrix {i} ({f} Hz) is\n{np.round(got[i], 6)}\nexpected\n{np.round(r, 6)}')
            if repr(a) != keep:
                raise Violation(f'{what}: the frequencies were changed to {a!r}')
            st.checks += 1
            st.transitions += 1
    st.state(k, w)
    st.outcome(k, w)


# --- what was asked before
def before(tier):
    h = [[0], [1], [2], [0, 1], [1, 0], [2, 2, 0]]
    for k in names():
        for a in range(len(h)):
            for z in range(len(ZS)):
                if tier == 'quick':
                    yield (k, [(a, z)])
                    yield (k, [(a, z), ((a + 1) % len(h), (z + 1) % len(ZS))])
                else:
                    for b in range(len(h)):
                        for y in range(len(ZS)):
                            yield (k, [(a, z), (b, y)])


HIST = [[0], [1], [2], [0, 1], [1, 0], [2, 2, 0]]


def chk_before(case, st):
    k, hist = case
    fs = freqs(k, '')
    c15.files()
    for single in (True, False):
        o = B(k)()
        E = excite(o.ports)
        for a, z in hist:
            if single and len(HIST[a]) == 1:
                ask(o, fs[HIST[a][0]], ZS[z])
            else:
                ask(o, [fs[i] for i in HIST[a]], ZS[z])
            if hasattr(o, 'maxV') and not single:
                o.maxV(fs[a % 3], E)
        for form, fn in ONE.items():
            for i in (0, 1, 2, 0):
                for Z in (None, 20.):
                    f = fs[i]
                    got = ask(o, fn(f), Z)
                    what = f'{k}: getS({fn(f)!r}, Zbase={Z}) after {[([fs[j] for j in HIST[a]], ZS[z]) for a, z in hist]}'
                    r = expected(k, f, Z)
                    if np.shape(got) != np.shape(r) or not close(got, r, 1e-8):
                        raise Violation(f'{what} is\n{np.round(got, 6)}\nexpected\n{np.round(r, 6)}')
                    if np.shape(got) != (len(o.ports), len(o.ports)) or len(o) != len(o.ports):
                        raise Violation(f'{what} has shape {np.shape(got)} for ports {o.ports}, len {len(o)}')
                    st.checks += 1
                    st.transitions += 1
    st.state(k, hist)
    st.outcome(k, hist)


# --- as a block of a circuit
WRAP = ['plain', 'renamed', 'nested', 'twice', 'reversed']


def blocks(tier):
    for k in names():
        for w in WRAP:
            for Z in (20., 50., 'own'):
                yield (k, w, Z)


def chk_block(case, st):
    import pyRFtk as rf
    k, wrap, Zc = case
    c15.files()
    o, p = B(k)(), B(k)()
    p.getS(F[0])
    op = list(p.ports)                             # (in the announced order)
    Z0 = o.Zbase
    Zc = Z0 if Zc == 'own' else Zc
    n = len(op)
    idx = list(range(n))
    c = rf.rfCircuit(Zbase=Zc)
    if wrap == 'plain':
        c.addblock('X', o, relpos=.5)
        ports = [f'X.{p}' for p in op]
    elif wrap == 'renamed':
        c.addblock('X', o, ports={p: f'q{i}' for i, p in enumerate(op)})
        ports = [f'X.q{i}' for i in range(n)]
    elif wrap == 'nested':
        d = rf.rfCircuit(Zbase=33.)
        d.addblock('Y', o)
        c.addblock('X', d)
        ports = [f'X.Y.{p}' for p in op]
    elif wrap == 'twice':
        c.addblock('X', o)
        c.addblock('Z', o)
        ports = [f'X.{p}' for p in op] + [f'Z.{p}' for p in op]
    else:
        idx = idx[::-1]
        c = rf.rfCircuit(Zbase=Zc, Portnames=[f'X.{op[i]}' for i in idx])
        c.addblock('X', o)
        ports = [f'X.{op[i]}' for i in idx]
    fs = freqs(k, '')
    for word in ([0, 1], [1], [2, 0, 2]):
        for Z in (None, 75., Zc * NEAR):
            w = [fs[i] for i in word]
            got = ask(c, w, Z)
            if list(c.ports) != ports:
                raise Violation(f'{k} as block ({wrap}): ports {c.ports}, expected {ports}')
            for i, f in enumerate(w):
                R = conv(single_ref(k, f)[0], Z0, Zc if Z is None else Z)[np.ix_(idx, idx)]
                if wrap == 'twice':
                    R = np.block([[R, np.zeros((n, n))], [np.zeros((n, n)), R]])
                if not close(got[i], R, 1e-7):
                    raise Violation(f'{k} as block ({wrap}) of a circuit at {Zc} Ohm: getS({w}, Zbase={Z})[{i}] is\n'
                                    f'{np.round(got[i], 6)}\nexpected\n{np.round(R, 6)}')
            # the object by itself still gives the same
            x = o.getS(w[0])
            if not close(x, single_ref(k, w[0])[0], 1e-8):
                raise Violation(f'{k} as block ({wrap}) changed by the circuit: {x}')
            st.checks += 2
            st.transitions += 2
    st.state(k, wrap, Zc)
    st.outcome(k, wrap)


# --- one frequency of a list that cannot be answered
def odd(tier):
    for k in names():
        if tables(k) and k != 'base':
            continue
        for w in words(range(3), 3):
            if 2 in w and (k == 'base' or tier != 'quick'):
                yield (k, list(w))


def chk_odd(case, st):
    k, w = case
    c15.files()
    o = B(k)()
    fs = [F[0], F[1], 77.7e6]
    bad = False
    try:
        single_ref(k, fs[2])
    except Exception:
        bad = True
    for form, fn in FORMS.items():
        try:
            got = o.getS(fn([fs[i] for i in w]))
        except Exception as e:
            if not bad:
                raise
            got = None
        if bad and got is not None:
            raise Violation(f'{k}: getS({[fs[i] for i in w]}) is answered, but {fs[2]} alone is refused')
        if got is not None:
            for i, S in zip(w, got):
                if not close(S, single_ref(k, fs[i])[0], 1e-8):
                    raise Violation(f'{k}: getS({[fs[i] for i in w]}): {S}')
        if not close(o.getS(fs[0]), single_ref(k, fs[0])[0], 1e-8):
            raise Violation(f'{k}: other answer after a refused request')
        st.checks += 1
        st.transitions += 2
    st.state(k, w)
    st.outcome(k, bad)


def families(tier):
    n = 3 if tier == 'quick' else 5
    return [
        Family('requests', lambda: requests(tier), chk_req,
               f'{len(names())} objects, all sequences of <= {n} of 3 frequencies, {len(FORMS)} forms, {len(ZS)} impedances'),
        Family('before', lambda: before(tier), chk_before,
               'single requests after histories of one or two requests (single, lists, impedances, maxV)'),
        Family('blocks', lambda: blocks(tier), chk_block, f'each object as a block: {len(WRAP)} ways, 3 impedances'),
        Family('refused', lambda: odd(tier), chk_odd, 'lists with a frequency that is not in the table'),
    ]
