"""C08: written touchstone data read back as the same network."""
import itertools, os
import numpy as np
from .engine import Family, Violation
from .ref import *
from .tsf import *

PROP = 'C08'
ASSUME = ['Z and Y data are not normalised to the reference impedance (the convention of the package)',
          'matrix elements written in dB are not zero, and the impedance/admittance matrices exist',
          'at most 17 ports; frequencies are multiples of 1 Hz (1e-9 of the unit with WriteTSF)']

UN = [None, 'Hz', 'KHZ', 'MHz', 'ghz']
MT = [None, 's', 'Z', 'Y']
FM = [None, 'RI', 'ma', 'DB']
RR = [None, 'R 50', 'r 30.', 'R 12.5']
FSETS = [[35e6, 48e6, 61e6], [33333333., 1.0e9 + 1], [1., 7.], [0., 5e6], [35123457., 36123457., 37123457.],
         [1.5e6, 2.5e6, 2500001., 4e6], [35123457.], [1.0e9 + 1, 1.2e9]]


def mats(n, fs):
    out = []
    for f in fs:
        S = 0.7 * smat(7, n, f + 3e6) + 0.05 * np.exp(1j * np.arange(n * n).reshape(n, n))
        out.append(S)
    return np.array(out)


def tolerance(opt, Ms, S, Z):
    """the error in S that the written digits allow"""
    # RI: 7..8 digits after the point; MA/DB: 1e-4 degree
    d = 1e-7 if opt['fmt'] == 'RI' else 2e-6 * max(1e-9, np.max(np.abs(Ms)))
    if opt['par'] == 'S':
        return 40 * d + 1e-8
    n = S.shape[-1]
    worst = 0.
    for M in Ms:
        Zm = M if opt['par'] == 'Z' else np.linalg.inv(M)
        J = np.linalg.inv(Zm + Z * np.eye(n))
        g = np.max(np.abs(J)) * n * 2 * Z
        if opt['par'] == 'Z':
            e = g * np.max(np.abs(J)) * n * d
        else:
            e = g * np.max(np.abs(J)) * n * n * np.max(np.abs(Zm)) ** 2 * n * d
        worst = max(worst, e)
    return 20 * worst + 1e-8


def orders(k, parts):
    parts = [p for p in parts if p]
    ps = list(itertools.permutations(range(len(parts))))
    return ' '.join(parts[i] for i in ps[k % len(ps)])


def b2s(tier):
    k = 0
    for n in (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        for u, m, f, r in itertools.product(UN, MT, FM, RR):
            for zb in (None, 20.):
                for how in ('own', 'fs'):
                    k += 1
                    if n > 2 and tier == 'quick' and (r in ('R 50',) or u == 'KHZ'):
                        continue
                    yield ('tsf2str', n, u, m, f, r, zb, how, k % 24, k % 35)


def wtsf(tier):
    k = 0
    for n in (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        for u, m, f, r in itertools.product(UN, MT, FM, RR):
            for how in ('base', 'obj', 'objMHz', 'fs', 'objMHzfs'):
                k += 1
                if n > 2 and tier == 'quick' and (r == 'R 50' or u == 'KHZ' or how in ('fs', 'obj')):
                    continue
                yield ('WriteTSF', n, u, m, f, r, 50., how, k % 24, k % 35)


def large(tier):
    k = 0
    for n in (4, 6, 7, 8, 9, 12, 13, 16, 17) + (() if tier == 'quick' else (10, 11, 14, 15, 20, 21)):
        for u, m, f, r in [('MHz', 's', 'RI', 'R 50'), (None, None, None, None), ('Hz', 'Z', 'DB', 'r 30.'),
                           ('ghz', 'Y', 'ma', 'R 12.5'), ('KHZ', None, 'RI', None)]:
            for kind, hows in (('tsf2str', ('own', 'fs')), ('WriteTSF', ('base', 'obj', 'objMHz', 'fs'))):
                for how in hows:
                    k += 1
                    yield (kind, n, u, m, f, r, (20. if k % 3 == 0 else None) if kind == 'tsf2str' else 50., how,
                           k % 24, k % 35)


RTXT = ['R 2e1', 'r 2.5E+1', 'R 300e-1', 'R +30', 'R 07.5', 'R .5e2', 'R 100', 'R .9e1', 'R   75', 'R 1e2', 'R 33.333333']


def rtexts(tier):
    k = 0
    for r in RTXT:
        for n in (1, 2, 3):
            for m, f in itertools.product((None, 'Z', 'y'), ('RI', None)):
                for kind, how in (('tsf2str', 'own'), ('tsf2str', 'fs'), ('WriteTSF', 'base'), ('WriteTSF', 'objMHz')):
                    for order in range(6):
                        k += 1
                        yield (kind, n, 'MHz', m, f, r, (20. if k % 2 else None) if kind == 'tsf2str' else 50., how, order,
                               k % 35)


def make(case):
    import pyRFtk as rf
    kind, n, u, m, f, r, zb, how, order, misc = case
    fs = FSETS[misc % len(FSETS)] if how not in ('objMHz', 'objMHzfs') else FSETS[misc % 2 if misc < 10 else 4 + misc % 3]
    Ss = mats(n, fs)
    names = (['a', 'B2', 'port 3', '04', 'x.y', '-z'] + [f'q{i}' for i in range(n)])[:n]
    if how.startswith('obj'):
        unit = 'MHz' if 'MHz' in how else 'Hz'
        o = rf.rfObject(ports=list(names), Zbase=35., funit=unit)
        sc = 1e6 if unit == 'MHz' else 1.
        o.setS([x / sc for x in fs], Ss)
    else:
        o = rf.rfBase(Ss=Ss, fs=fs, ports=list(names), Zbase=35.)
    return o, fs, Ss, names


def chk_write(case, st):
    import pyRFtk as rf
    from pyRFtk.WriteTSF import WriteTSF
    kind, n, u, m, f, r, zb, how, order, misc = case
    o, fs, Ss, names = make(case)
    fmt = orders(order, [u, m, f, r])
    sel = list(range(len(fs)))
    misc %= 5
    if kind == 'tsf2str':
        kw = {}
        if misc % 2:
            fmt = '# ' + fmt
        kw['tfmt'] = fmt
        if zb:
            kw['Zbase'] = zb
        if how == 'fs':
            sel = sel[-1:] if misc % 2 else sel
            kw['fs'] = [fs[i] for i in sel]
        if misc == 3:
            kw['comments'] = 'line one\nline two # MHZ ! x'
        elif misc == 4:
            kw['comments'] = ['first', 'second']
        R = float(r.split()[1]) if r else (zb or 35.)
        text = o.tsf2str(**kw)
    else:
        kw = dict(tsf_format=fmt)
        if how.endswith('fs'):
            sel = sel[:1] if misc % 2 else sel
            sc = 1e6 if 'MHz' in how else 1.
            kw['fs'] = [fs[i] / sc for i in sel] if misc % 3 else np.array([fs[i] / sc for i in sel])
        if misc == 3:
            kw['comments'] = 'line one\nline two # MHZ ! x'
        R = float(r.split()[1]) if r else 50.
        text = WriteTSF(o, **kw)
    st.transitions += 1
    verify(case, text, n, u, m, f, R, [fs[i] for i in sel], Ss[sel], names, st)


def verify(case, text, n, u, m, f, R, fs, Ss, names, st, Z0=35., fclose=1e-12):
    import pyRFtk as rf
    try:
        gf, gS, opt, Ms = parse(text, n, 20.)
    except Bad as e:
        raise Violation(f'{case}: not a touchstone text: {e}\n{text[:900]}')
    want = dict(unit=(u or 'GHZ').upper(), par=(m or 'S').upper(), fmt=(f or 'MA').upper(), R=R)
    if opt != want:
        raise Violation(f'{case}: options {opt} expected {want}')
    ref = np.array([renorm(S, Z0, 20.) for S in Ss])
    tol = tolerance(opt, Ms, ref, 20.)
    same(case, 'conforming reader', gf, gS, fs, ref, tol, fclose)
    r = rf.ReadTSF(text, Zbase=20., funit='Hz')
    same(case, 'ReadTSF', r['fs'], r['Ss'], fs, ref, tol, fclose)
    if names and list(r['ports']) != names:
        raise Violation(f'{case}: ports read are {r["ports"]}')
    fn = os.path.join(os.getcwd(), f'x.s{n}p')
    with open(fn, 'w') as h:
        h.write(text)
    o = rf.rfObject(touchstone=fn, Zbase=20., funit='MHz')
    os.remove(fn)
    same(case, 'rfObject', np.array(o.fs) * 1e6, o.Ss, fs, ref, tol, fclose)
    if names and list(o.ports) != names or o.Zbase != 20. or len(o) != n:
        raise Violation(f'{case}: the object read has ports {o.ports} and Zbase {o.Zbase}')
    st.checks += 3
    st.transitions += 3
    st.state(rnd(Ms), opt['unit'], opt['par'], opt['fmt'], R)
    st.outcome(rnd(Ms, 3), opt['unit'])


def same(case, who, gf, gS, fs, ref, tol, fclose=1e-12):
    if len(gf) != len(fs) or not np.allclose(gf, fs, rtol=fclose, atol=1e-6):
        raise Violation(f'{case}: {who} finds the frequencies {gf}, expected {fs}')
    if np.shape(gS) != ref.shape or not np.max(np.abs(gS - ref)) <= tol:
        raise Violation(f'{case}: {who} finds\n{np.round(gS, 6)}\nexpected\n{np.round(ref, 6)} (tol {tol:.1e})')


# -------- files, every kind of object, default formats
def kinds(tier):
    for k in ('rfBase', 'rfTRL', 'rfRLC', 'rfCircuit', 'rfCircuitsolved', 'rfObject', 'rfCoupler', 'copy'):
        for w in ('write_tsf', 'tsf2str', 'WriteTSF', 'WriteTSFpath'):
            if k in ('rfObject', 'rfTRL', 'rfRLC') and w in ('write_tsf', 'tsf2str'):    # have none
                continue
            for tf in (None, 'MHZ S RI R 50', 'HZ Z DB R 30', 'GHz Y MA'):
                for nf in ((None,) if w in ('write_tsf', 'tsf2str') else
                           (None, ('12.6f', '18.14f', '18.14f'), ('+20.13e', '+22.15e', '+22.15e'))):
                    yield (k, w, tf, nf)


def chk_kinds(case, st):
    import pyRFtk as rf
    from pyRFtk.WriteTSF import WriteTSF
    kind, w, tf, nf = case
    fs = [35e6, 48e6, 61e6]
    P = {'rfBase': S_(2, 3, 20.), 'copy': S_(3, 3, 20.), 'rfObject': S_(3, 2, 75.),
         'rfTRL': dict(t='TRL', L=1.3, LCRG=(2.5e-7, 1e-10, 3., 4e-4), Zb=60.),
         'rfRLC': dict(t='RLC', Zb=25., p=dict(Rs=3., Ls=40e-9, Cp=30e-12, Rp=900.)),
         'rfCoupler': dict(t='CPL', kc=.6, Lc=1.2, Zb=45.)}
    if kind.startswith('rfCircuit'):
        specs = [S_(3, 2, 75.), P['rfTRL'], dict(t='CT', Zb=33., Portnames=['q', 'A.3', 'A.1'], ops=[
            ['add', 'A', 0], ['add', 'B', 1], ['con', ['A.2', 'B.1']], ['con', ['B.2', 'q']]])]
    else:
        specs = [P[kind]]
    o = real_pool(specs)[-1]
    m = model_pool(specs)[-1]
    if kind == 'copy':
        o = o.copy()
    if kind == 'rfCircuitsolved':
        o.getS(fs[1])
    if isinstance(m, Net):
        net, names = m, m.ports
    else:
        net = Net(m.Zb)
        net.add('E', m)
        names = m.ports
    Z0 = o.Zbase
    n = len(names)
    Ss = np.array([net.S(f) for f in fs])
    opt = options('# ' + (tf or ''))
    own = kind in ('rfBase', 'copy', 'rfObject')
    R = opt['R'] if tf and 'R' in tf.split() else Z0
    u, m_, f_ = opt['unit'], opt['par'], opt['fmt']
    if w in ('tsf2str', 'write_tsf'):
        kw = {} if own else {'fs': fs}
        if tf:
            kw['tfmt'] = tf
        else:
            u, m_, f_, R = 'MHZ', 'S', 'MA', Z0
        if w == 'tsf2str':
            text = o.tsf2str(**kw)
        else:
            o.write_tsf('out', **kw)
            text = open(f'out.s{n}p').read()
            os.remove(f'out.s{n}p')
    else:
        kw = {} if own else {'fs': fs}
        if tf:
            kw['tsf_format'] = tf
            R = opt['R']
        else:
            u, m_, f_, R = 'MHZ', 'S', 'DB', 50.
        if nf:
            kw['num_format'] = nf
        if w == 'WriteTSF':
            text = WriteTSF(o, **kw)
        else:
            WriteTSF(o, 'out.ts', **kw)
            text = open('out.ts').read()
            os.remove('out.ts')
    st.transitions += 1
    verify(case, text, n, u, m_, f_, R, fs, Ss, names, st, Z0, 1e-6 if nf and nf[0][0] == '1' else 1e-9)


def S_(n, id, Zb):
    return dict(t='S', n=n, id=id, Zb=Zb, cls='base' if Zb == 20. else 'obj')


def families(tier):
    return [
        Family('tsf2str', lambda: b2s(tier), chk_write,
               'all units x types x formats x R (each also absent), field orders, ports, Zbase, fs'),
        Family('WriteTSF', lambda: wtsf(tier), chk_write, 'as tsf2str, rfBase/rfObject in Hz/MHz'),
        Family('large', lambda: large(tier), chk_write, 'networks of 4 to 17 (21) ports, 5 formats, both writers'),
        Family('impedance', lambda: rtexts(tier), chk_write, f'{len(RTXT)} ways to write the reference impedance'),
        Family('kinds', lambda: kinds(tier), chk_kinds, 'every kind of object and writer'),
    ]
