"""C12: line parameters are resolved consistently from any sufficient set.

All subsets of the line quantities (9 of the medium and geometry, with the
conductor, medium loss and attenuation alternatives) are given to the real
rfTRL, as numbers and as functions; the S-matrix is compared with the one of
the r, l, g, c that follow from the given quantities (log-linear algebra on
mu_r, eps_r and the geometry factor, defaults taken where these leave freedom).
"""
import itertools, math
import numpy as np
from .engine import Family, Violation
from .ref import rnd
from .c11 import mexp, smatrix, tmat

PROP = 'C12'
ASSUME = ['redundant quantities that contradict each other (because a default was needed) are not judged',
          'an attenuation that the losses given exceed is not judged; an attenuation is given for f > 0',
          'defaults, taken in this order when needed: mu_r = 1, eps_r = 1, Z0 = Zbase; mu of the conductors 1, '
          'no losses of a kind of which nothing is given']
C0 = 299792458.0
MU0 = 1.25663706212e-06
E0 = 1 / (MU0 * C0 ** 2)
ETA0 = MU0 * C0

LC = ['Z0TL', 'LTL', 'CTL', 'vr', 'etar', 'mur', 'epsr', 'OD', 'ID']
ROWS = {'mur': (1, 0, 0), 'epsr': (0, 1, 0), 'etar': (.5, -.5, 0), 'vr': (-.5, -.5, 0), 'Z0TL': (.5, -.5, 1),
        'LTL': (1, 0, 1), 'CTL': (0, 1, -1)}
UNIT = {'mur': 1., 'epsr': 1., 'etar': 1., 'vr': 1., 'Z0TL': ETA0, 'LTL': MU0, 'CTL': E0}

COND = ['', 'rTL', 'rTLI rTLO', 'rTL rTLI', 'rTL rTLO', 'RsI RsO', 'rhoI rhoO', 'rho', 'rhoI rhoO murI murO',
        'RsI rTLO', 'rTLI RsO', 'RsI RsO qTLI qTLO', 'rho qTLI qTLO', 'rho murI', 'rhoI RsO qTLO', 'rTLI rhoO',
        'rho murO qTLI', 'rhoI', 'rTLI', 'RsO', 'rho rTL']
MED = ['', 'gTL', 'sigma', 'tand', 'sigma tand', 'gTL tand', 'gTL sigma']
ATT = ['', 'A', 'AdB']


def truth(w, x=0.):
    """one consistent line at the angular frequency w and the place x"""
    t = dict(mur=1.4 + .1 * x, epsr=2.3 - .2 * x, OD=0.23 + .02 * x, ID=0.11, rho=4e-4, rhoI=3e-4, rhoO=9e-4,
             murI=3., murO=1.7, tand=.03)
    return complete(t, w)


def complete(t, w):
    G = math.log(t['OD'] / t['ID']) / 2 / math.pi
    t['etar'] = math.sqrt(t['mur'] / t['epsr'])
    t['vr'] = 1 / math.sqrt(t['mur'] * t['epsr'])
    t['Z0TL'] = t['etar'] * ETA0 * G
    t['LTL'] = t['mur'] * MU0 * G
    t['CTL'] = t['epsr'] * E0 / G
    for s, D in (('I', 'ID'), ('O', 'OD')):
        t['Rs' + s] = math.sqrt(w * MU0 * t['mur' + s] * t['rho' + s] / 2)
        t['qTL' + s] = 1 / (math.pi * t[D])
        t['rTL' + s] = t['Rs' + s] * t['qTL' + s]
    t['rTL'] = t['rTLI'] + t['rTLO']
    t['sigma'] = w * t['epsr'] * E0 * t['tand']
    t['gTL'] = t['sigma'] / G
    g = np.sqrt((t['rTL'] + 1j * w * t['LTL']) * (t['gTL'] + 1j * w * t['CTL']))
    t['A'] = g.real
    t['AdB'] = g.real * 20 / math.log(10)
    return t


class Skip(Exception):
    pass


def resolve(v, w, Zbase):
    """given values -> (r, l, g, c), None when they do not suffice"""
    rows = [np.array(ROWS[q]) for q in ROWS if q in v]
    vals = [math.log(v[q] / UNIT[q]) for q in ROWS if q in v]
    if 'OD' in v and 'ID' in v:
        rows.append(np.array([0, 0, 1]))
        vals.append(math.log(math.log(v['OD'] / v['ID']) / 2 / math.pi))

    def det(q):
        r = (0, 0, 1) if q == 'G' else ROWS[q]
        if not rows:
            return False
        return np.linalg.matrix_rank(np.array(rows + [np.array(r)]), 1e-9) == \
            np.linalg.matrix_rank(np.array(rows), 1e-9)

    def val(q):
        r = (0, 0, 1) if q == 'G' else ROWS[q]
        x = np.linalg.lstsq(np.array(rows), np.array(vals), rcond=None)[0]
        return math.exp(np.dot(r, x)) * UNIT.get(q, 1.)
    need = ['LTL', 'CTL']
    cond = [q for q in v if q[:2] in ('rT', 'Rs', 'rh')]
    dims = []
    if cond and 'rTL' not in v:
        for s, D in (('I', 'ID'), ('O', 'OD')):
            if 'rTL' + s not in v:
                if not ('Rs' + s in v or 'rho' + s in v or ('rho' in v and 'rhoI' not in v and 'rhoO' not in v)):
                    if 'A' in v or 'AdB' in v:
                        raise Skip()          # (the rest may be found from the attenuation)
                    return None
                if 'qTL' + s not in v and D not in v:
                    dims.append(D)
                    need.append('G')
        if dims and 'OD' not in v and 'ID' not in v:
            if 'A' in v or 'AdB' in v:
                raise Skip()
            return None
    if 'gTL' not in v and 'sigma' in v:
        need.append('G')
    if 'gTL' not in v and 'sigma' not in v and 'tand' in v:
        need.append('CTL')
    for q, d in ((None, 0), ('mur', 1.), ('epsr', 1.), ('Z0TL', Zbase)):
        if all(det(n) for n in need):
            break
        if q and not det(q):
            rows.append(np.array(ROWS[q]))
            vals.append(math.log(d / UNIT[q]))
    if not all(det(n) for n in need):
        return None
    l, c = val('LTL'), val('CTL')
    # conductors
    r = g = None
    if 'rTL' in v:
        r = v['rTL']
    elif cond:
        r = 0.
        for s, D, o, sg in (('I', 'ID', 'OD', -1), ('O', 'OD', 'ID', 1)):
            if 'rTL' + s in v:
                r += v['rTL' + s]
                continue
            Rs = v.get('Rs' + s)
            if Rs is None:
                rho = v['rho' + s] if 'rho' + s in v else v['rho']
                Rs = math.sqrt(w * MU0 * v.get('mur' + s, 1.) * rho / 2)
            if 'qTL' + s in v:
                r += Rs * v['qTL' + s]
            else:
                d = v[D] if D in v else v[o] * math.exp(sg * 2 * math.pi * val('G'))
                r += Rs / (math.pi * d)
    if 'gTL' in v:
        g = v['gTL']
    elif 'sigma' in v:
        g = v['sigma'] / val('G')
    elif 'tand' in v:
        g = v['tand'] * w * c
    # contradictions
    if 'gTL' in v and 'sigma' in v and det('G') and abs(v['sigma'] / val('G') - g) > 1e-9 * g:
        raise Skip()
    if 'tand' in v and abs(v['tand'] * w * c - g) > 1e-9 * g:
        raise Skip()
    A = v.get('A', v.get('AdB', 0.) * math.log(10) / 20)
    if A:
        if r is not None and g is not None:
            if abs(np.sqrt((r + 1j * w * l) * (g + 1j * w * c)).real - A) > 1e-9 * A:
                raise Skip()
        else:
            if r is None and g is None:
                g = 0.
            a, b = (w * l, w * c) if r is None else (w * c, w * l)
            q = (g / (w * c)) if r is None else (r / (w * l))
            # solve Re sqrt((p + j)(q + j)) = u for p >= 0 (bisection: the real part grows with p)
            u = A / (w * math.sqrt(l * c))
            at = lambda p: np.sqrt((p + 1j) * (q + 1j)).real
            if at(0.) > u * (1 + 1e-12):
                raise Skip()
            lo, hi = 0., 1.
            while at(hi) < u:
                hi *= 2
            for _ in range(200):
                m = (lo + hi) / 2
                lo, hi = (m, hi) if at(m) < u else (lo, m)
            if r is None:
                r = hi * a
            else:
                g = hi * a
    return r or 0., l, g or 0., c


W0 = 2 * math.pi * 41e6


def subsets(names, maxn=99):
    for k in range(len(names) + 1):
        if k <= maxn:
            yield from itertools.combinations(names, k)


def set_cases(tier):
    for lc in subsets(LC):
        for c in COND:
            for m in MED:
                for a in ATT:
                    if len(lc) > 5 and (len(c.split()) > 2 or m in ('gTL tand', 'gTL sigma')):
                        continue
                    if tier == 'quick':
                        # the loss quantities are all combined with the small sets, and each
                        # kind of loss by itself with all sets
                        if len(lc) > 3 and sum(map(bool, (c, m, a))) > 1:
                            continue
                        if len(lc) > 4 and len(c.split()) > 2:
                            continue
                    elif len(lc) > 6 and sum(map(bool, (c, m, a))) > 1:
                        continue
                    yield [list(lc) + c.split() + m.split() + a.split(), 'num', [41e6]]


def fun_cases(tier):
    """functions of w, several frequencies of one object, both orders of the keywords"""
    for lc in subsets(LC, 4 if tier == 'quick' else 6):
        for c, m, a in [('', '', ''), ('rhoI rhoO', '', ''), ('', 'tand', ''), ('', 'sigma', 'A'), ('rTL', 'gTL', ''),
                        ('rho', 'tand', ''), ('', '', 'AdB'), ('RsI rTLO', '', 'A')]:
            for fm in ('fw', 'fxw', 'fwx-rev', 'num-rev', 'num-f0', 'num-l1'):
                fs = [41e6, 17e6] + ([0.] if not a else [])
                yield [list(lc) + c.split() + m.split() + a.split(), fm, fs if fm[:3] != 'num' else fs[:1]]


def build(given, form, L, Zb, x=0.):
    import pyRFtk as rf
    kw = {}
    for q in (given if not form.endswith('rev') else given[::-1]):
        if form == 'num-f0':                            # a function without parameters
            kw[q] = _0(q)
        elif form == 'num-l1':                          # a list of one value
            kw[q] = [truth(W0)[q]]
        elif form.startswith('num'):
            kw[q] = truth(W0)[q]
        elif form == 'fw':
            kw[q] = lambda w, q=q: truth(w)[q]
        elif form == 'fxw':
            kw[q] = _xw(q)
        else:
            kw[q] = _wx(q)
    for q, v in kw.items():
        if callable(v) and form == 'fw':
            kw[q] = _w(q)
    return rf.rfTRL(L=L, Zbase=Zb, **kw)


def _0(q):
    def f():
        return truth(W0)[q]
    return f


def _w(q):
    def f(w):
        return truth(w)[q]
    return f


def _xw(q):
    if q in ('tand', 'A', 'AdB', 'sigma', 'gTL'):      # some only depend on w
        return _w(q)

    def f(x, w):
        return truth(w)[q]
    return f


def _wx(q):
    def f(w, x):
        return truth(w)[q]
    return f


def judge(case, st):
    given, form, fs = case
    L, Zb = 0.9, 40.
    if form in ('fxw', 'fwx-rev'):
        L = 0.25
    want = []
    try:
        for f in fs:
            w = 2 * math.pi * f
            want.append(resolve({q: truth(w)[q] for q in given}, w, Zb))
    except Skip:
        st.skipped += 1
        return
    st.transitions += 1
    if None in want:
        try:
            o = build(given, form, L, Zb)
            S = o.getS(fs[0])
        except Exception:
            st.checks += 1
            st.outcome('refused')
            return
        raise Violation(f'{given} do not determine the line but rfTRL gives S = {S}')
    o = build(given, form, L, Zb)
    for f, (r, l, g, c) in zip(fs, want):
        w = 2 * math.pi * f
        R = smatrix(mexp(np.array([[0, r + 1j * w * l], [g + 1j * w * c, 0]]) * L), Zb)
        G = o.getS(f)
        if not np.all(np.isfinite(G)) or np.max(np.abs(G - R)) > (1e-8 if form[0] == 'n' or form == 'fw' else 1e-6):
            from .ref import Ill
            z = zy(G, Zb, L, w)
            raise Violation(f'line given by {given} ({form}) at {f} Hz, Zbase {Zb}: r, l, g, c are about {z}, '
                            f'expected {(r, l, g, c)}')
        resolved(o, given, w, r, l, g, c, f'{given} ({form}) at {f} Hz')
        st.checks += 1
        st.state(given, form, f)
        st.outcome(rnd(R, 5))


def resolved(o, given, w, r, l, g, c, what):
    """the quantities that the line reports"""
    tlp = getattr(o, 'TLP', None)
    t = truth(w)
    zy = (r + 1j * w * l) * (g + 1j * w * c)
    want = dict(rTL=r, LTL=l, gTL=g, CTL=c, Z0TL=math.sqrt(l / c), vr=1 / math.sqrt(l * c) / C0,
                A=np.sqrt(zy).real, AdB=np.sqrt(zy).real * 20 / math.log(10), rjwL=r + 1j * w * l, gjwC=g + 1j * w * c)
    if w and 'sigma' not in given:
        want.update(tand=g / (w * c))
    want.update({q: t[q] for q in given})
    for q, v in want.items():
        fn = getattr(tlp, q, None)
        if not callable(fn) or (w == 0 and q in ('A', 'AdB')):
            continue
        G = np.asarray(fn(w, 0.))
        if G.size != 1 or not abs(G.flat[0] - v) <= 1e-7 * abs(v) + 1e-12:
            raise Violation(f'line given by {what}: {q} is resolved as {G}, expected {v}')


def zy(S, Zb, L, w):
    """line constants of a short uniform line (for messages)"""
    try:
        Z = Zb * np.linalg.solve(np.eye(2) - S, np.eye(2) + S)
        A = Z[0, 0] / Z[1, 0]
        g = np.arccosh(A) / L
        zc = np.sqrt(Z[0, 0] ** 2 - Z[1, 0] ** 2)
        z, y = g * zc, g / zc
        return z.real, z.imag / (w or 1), y.real, y.imag / (w or 1)
    except Exception:
        return S


# ----------------------------------------------------------- how large the losses are
RATIO = [0., 1e-6, 1e-3, .2, .97, 1., 1.05, 4., 50.]


def loss_cases(tier):
    for r in RATIO if tier == 'quick' else RATIO + [1e-9, 1e-4, .5, .9999, 1.0001, 2., 1e3]:
        for g in RATIO if tier == 'quick' else RATIO + [1e-9, 1e-4, .5, .9999, 1.0001, 2., 1e3]:
            for given in (['rTL', 'gTL'], ['rTL', 'A'], ['gTL', 'AdB'], ['rTLI', 'rTLO', 'tand']):
                for lc in (['LTL', 'CTL'], ['Z0TL', 'vr'], ['Z0TL', 'CTL']):
                    for f in (0., 17e6, 41e6):
                        if f or 'tand' not in given:
                            yield [r, g, given, lc, f]


def judge_loss(case, st):
    import pyRFtk as rf
    r, g, given, lc, f = case
    w = 2 * math.pi * (f or 1e6)
    l, c = 2.2e-7, 1.1e-10
    r, g = r * w * l, g * w * c
    w = 2 * math.pi * f
    A = np.sqrt((r + 1j * w * l) * (g + 1j * w * c)).real
    q = dict(LTL=l, CTL=c, Z0TL=math.sqrt(l / c), vr=1 / math.sqrt(l * c) / C0, rTL=r, gTL=g, rTLI=.3 * r, rTLO=.7 * r,
             tand=g / (w * c) if w else 0., A=A, AdB=A * 20 / math.log(10))
    if (f == 0 or not A) and given[1][0] == 'A':
        return
    kw = {k: q[k] for k in lc + given}
    o = rf.rfTRL(L=.4, Zbase=40., **kw)
    w_ = f'line given by {kw} at {f} Hz'
    # (what is found from an attenuation is as good as the attenuation determines it)
    tol = 1e-9 if given[1][0] != 'A' else 1e-7
    for k, v in dict(rTL=r, gTL=g, LTL=l, CTL=c, A=A, rjwL=r + 1j * w * l, gjwC=g + 1j * w * c).items():
        fn = getattr(o.TLP, k, None)
        if not callable(fn):
            continue
        G = complex(fn(w, 0.))
        sc = abs(v) if k not in ('rTL', 'gTL') or given[1][0] != 'A' else max(r, w * l) if k[0] == 'r' else max(g, w * c)
        if k in ('rTL', 'gTL') and given[1][0] == 'A':
            sc *= max(1., r / (w * l), g / (w * c))
        if not abs(G - v) <= tol * sc + 1e-18:
            raise Violation(f'{w_}: {k} is resolved as {G}, expected {v}')
    G = o.getS(f)
    # multiple reflections of a wave (the transfer matrix has no digits left for large attenuations)
    z, y = r + 1j * w * l, g + 1j * w * c
    if z == 0 or y == 0:
        R = smatrix(np.array([[1, z * .4], [y * .4, 1]]), 40.)
    else:
        gm = np.sqrt(z * y)
        rho, T = (z - 40. * gm) / (z + 40. * gm), np.exp(-gm * .4)
        D = 1 - (rho * T) ** 2
        R = np.array([[rho * (1 - T * T), T * (1 - rho ** 2)], [T * (1 - rho ** 2), rho * (1 - T * T)]]) / D
    if not np.all(np.isfinite(G)) or np.max(np.abs(G - R)) > 1e-7:
        raise Violation(f'{w_}: S = {G}, expected {R}')
    st.checks += 2
    st.transitions += 1
    st.state(*case)
    st.outcome(rnd(R, 5))


# ----------------------------------------------------------- along the line
def x_cases(tier):
    loss = ['', 'rTL', 'rho', 'tand', 'rho tand', 'sigma', 'gTL', 'A', 'rTLI rTLO tand', 'AdB sigma']
    for lc in [('OD', 'ID'), ('OD', 'ID', 'epsr'), ('Z0TL',), ('LTL', 'CTL'), ('Z0TL', 'vr'), ('OD', 'Z0TL'), ('LTL',),
               ('CTL', 'vr', 'OD'), ('mur', 'epsr', 'OD', 'ID'), ('ID', 'Z0TL', 'mur'), ('CTL', 'OD', 'ID')]:
        for ls in loss:
            for f in (41e6,) if tier == 'quick' else (0., 10e6, 41e6):
                for form in ('fx', 'list') if tier == 'quick' else ('fx', 'list', '2d', 'fxw'):
                    if f == 0 and 'A' in ls:
                        continue
                    yield [list(lc) + ls.split(), f, form]


def along(case, st):
    import pyRFtk as rf
    given, f, form = case
    w = 2 * math.pi * f
    L, Zb = 0.8, 40.
    kw = {}
    n = np.linspace(0, L, 7)
    vals = {}
    for q in given:
        t = [truth(w, x)[q] for x in n]
        const = max(t) - min(t) < 1e-12 * abs(t[0]) or q in ('A', 'AdB', 'sigma', 'gTL', 'rTLI')
        if const:
            kw[q], vals[q] = t[0], (lambda x, v=t[0]: v)
        else:
            vals[q] = lambda x, t=t: float(np.interp(x, n, t))
            kw[q] = {'list': lambda: t, '2d': lambda: [list(n), t], 'fx': lambda: _px(t, n),
                     'fxw': lambda: _pxw(t, n)}[form]()
    try:
        def zyf(x):
            r = resolve({q: vals[q](x) for q in given}, w, Zb)
            if r is None:
                raise Skip()
            return r[0] + 1j * w * r[1], r[2] + 1j * w * r[3]
        M = tmat(zyf, L, n, 30)[L]
    except Skip:
        st.skipped += 1
        return
    R = smatrix(M, Zb)
    G = rf.rfTRL(L=L, Zbase=Zb, **kw).getS(f)
    st.transitions += 1
    st.checks += 1
    if not np.all(np.isfinite(G)) or np.max(np.abs(G - R)) > 3e-6:
        raise Violation(f'line given by {given} ({form}, varying along the line) at {f} Hz:\n{G}\nexpected\n{R}')
    st.state(*map(str, case))
    st.outcome(rnd(R, 4))


def _px(t, n):
    def f(x):
        return np.interp(x, n, t)
    return f


def _pxw(t, n):
    def f(x, w):
        return np.interp(x, n, t)
    return f


# ----------------------------------------------------------- equivalent sets
def families(tier):
    return [
        Family('sets', lambda: set_cases(tier), judge,
               'all 512 subsets of 9 medium/geometry quantities x 21 conductor x 7 medium x 3 attenuation alternatives '
               '(quick: large subsets with one kind of loss), at 41 MHz'),
        Family('functions', lambda: fun_cases(tier), judge,
               'subsets of up to 4 (6) quantities x 8 loss alternatives, as functions of w, of x and w, in reverse order; '
               'frequencies 41 MHz, 17 MHz, 0'),
        Family('losses', lambda: loss_cases(tier), judge_loss,
               '9 x 9 (thorough 16 x 16) ratios r/wl and g/wc of 0..50 (1000) x 4 ways to give them x 3 sets x 3 frequencies'),
        Family('along', lambda: x_cases(tier), along,
               '11 sets x 10 loss alternatives varying along the line, as lists, nodes and functions'),
    ]
