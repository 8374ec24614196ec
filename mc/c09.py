"""C09: touchstone text is read for what it says."""
import itertools, os, io
import numpy as np
from .engine import Family, Violation
from .ref import smat, close, rnd
from .tsf import *

PROP = 'C09'
ASSUME = ['touchstone version 1 texts without 2-port noise data', 'at most 7 ports',
          'Z and Y data are not normalised (convention of the package)']
FR = [30e6, 41.5e6, 66e6]
OPT = {'unit': ['MHz', 'GHZ', 'hz', 'kHz'], 'par': ['S', 'z', 'Y'], 'fmt': ['RI', 'ma', 'DB'],
       'R': ['R 50', 'r 30', 'R 12.5']}


def mats(n, k=0):
    return np.array([0.7 * smat(9 + k, n, f) + 0.05 * np.exp(1j * np.arange(n * n).reshape(n, n)) for f in FR])


# layouts: how many pairs on a line, does a row start a line, white space, comments
LAYOUTS = ['std', 'wrap1', 'wrap2', 'wrap3', 'wrap5', 'oneline', 'tabs', 'comments', 'crlf', 'blank', 'inline',
           'notail', 'glued']


def write(n, S50, unit, par, fmt, R, layout, style, head='', fields=None, pre='', freqs=None):
    """S50: matrices on 50 Ohm -> text"""
    fs = freqs or FR
    sep = '\t' if layout == 'tabs' else ' '
    opt = fields if fields is not None else f'{unit} {par} {fmt} R {R}'
    out = [pre] if pre else []
    if layout == 'comments':
        out += ['! a comment', '!', '! # MHZ S MA R 1', '']
    out += ['# ' + opt] if layout != 'tabs' else ['#\t' + opt.replace(' ', '\t')]
    if head:
        out.append(head)
    for k, f in enumerate(fs):
        S = renorm(S50[k], 50., R)
        M = S if par.upper() == 'S' else s2z(S, R)
        if par.upper() == 'Y':
            M = np.linalg.inv(M)
        if n == 2:
            M = M.T
        fr = num(f / UNITS[unit.upper()], (style + k) % 3)
        prs = [[pair(z, fmt.upper(), style + i) for i, z in enumerate(row)] for row in M]
        lines = []
        if layout == 'oneline' or (n <= 2 and layout not in ('wrap1', 'wrap2', 'wrap3', 'wrap5')):
            lines.append(sep.join(p.replace(' ', sep) for row in prs for p in row))
        else:
            w = int(layout[4]) if layout.startswith('wrap') else 4
            if layout in ('wrap5',):          # rows do not start a line
                flat = [p for row in prs for p in row]
                rows = [flat]
            else:
                rows = prs
            for row in rows:
                for i in range(0, n * n if layout == 'wrap5' else n, w):
                    t = sep.join(p.replace(' ', sep) for p in row[i:i + w])
                    if t:
                        lines.append(t)
        lines[0] = fr + sep + lines[0]
        for i, l in enumerate(lines):
            if layout == 'inline':
                l += f'  ! row {i} 1 2 3'
            if layout == 'glued':
                l += '!1 2'
            if layout == 'tabs':
                l = '\t ' * (i % 3) + l + '\t'
            if layout == 'comments' and i:
                out.append('! 1 2 3 between')
            if layout == 'blank' and (i + k) % 2:
                out.append('   ')
            out.append(l)
    text = ('\r\n' if layout == 'crlf' else '\n').join(out)
    return text if layout == 'notail' else text + ('\r\n' if layout == 'crlf' else '\n')


def check_read(case, text, n, S50, st, tol=1e-9, fs=None, **exp):
    import pyRFtk as rf
    fs = fs or FR
    for Z in (None, 20.):
        for fu in (None, 'MHz'):
            kw = {}
            if Z:
                kw['Zbase'] = Z
            if fu:
                kw['funit'] = fu
            if Z is None and exp.get('par', 'S').upper() != 'S':
                continue
            src = text if fu else io.StringIO(text)
            r = rf.ReadTSF(src, **kw)
            ref = np.array([renorm(S, 50., Z or 50.) for S in S50])
            gf = np.array(r['fs']) * UNITS[(fu or 'GHz').upper()]
            if len(gf) != len(fs) or not np.allclose(gf, fs, rtol=1e-12):
                raise Violation(f'{case}: frequencies {gf} expected {fs}')
            if not close(r['Ss'], ref, tol):
                raise Violation(f'{case} Zbase={Z}:\n{np.round(r["Ss"], 6)}\nexpected\n{np.round(ref, 6)}\n{text[:600]}')
            st.checks += 1
            st.transitions += 1
            st.state(rnd(ref), fu)
            st.outcome(rnd(ref, 3))
    return r


def fieldsets(tier):
    """presence and order of the fields of the option line"""
    for n in (1, 2, 3):
        for unit, par, fmt, R in itertools.product([None] + OPT['unit'], [None] + OPT['par'],
                                                   [None] + OPT['fmt'], [None] + OPT['R']):
            pres = [x for x in (unit, par, fmt, R) if x]
            perms = list(itertools.permutations(pres))
            if n != 2 and tier == 'quick':
                perms = perms[:: max(1, len(perms) // 2)]
            for p in perms:
                yield (n, unit, par, fmt, R, ' '.join(p))


def chk_fields(case, st):
    n, unit, par, fmt, R, line = case
    S50 = mats(n)
    text = write(n, S50, unit or 'GHZ', par or 'S', fmt or 'MA', float(R.split()[1]) if R else 50., 'std', 1,
                 fields=line)
    check_read(case, text, n, S50, st, par=par or 'S')


def layouts(tier):
    for n in range(1, 8):
        for lay in LAYOUTS:
            for par, fmt in itertools.product('SZY', ('RI', 'MA', 'DB')):
                for style in range(4):
                    if tier == 'quick' and n > 4 and style > 1:
                        continue
                    yield (n, lay, par, fmt, style)


def chk_layout(case, st):
    n, lay, par, fmt, style = case
    S50 = mats(n, 1)
    text = write(n, S50, 'MHz', par, fmt, 30., lay, style)
    check_read(case, text, n, S50, st, tol=1e-8, par=par)


# --- names of ports and the other declarations, all the sources
DECL = [None, '!PORTS a, b 2,x.y, p4', '!PORTS a,b', '!PORTS   one , two , three ']
REQ = [None, 'p%d', 'list', 'port-%03d']
SRC = ['text', 'path', 'open', 'stringio', 'rfObject-path', 'rfObject-text', 'read_tsf', 'reread']


def decl(tier):
    for n in (1, 2, 3, 4):
        for d, r, s in itertools.product(range(len(DECL)), range(len(REQ)), SRC):
            for where in ('before', 'after'):
                for fu in (None, 'Hz', 'MHz', 'ghz'):
                    yield (n, d, r, s, where, fu)


def chk_decl(case, st):
    import pyRFtk as rf
    n, d, r, s, where, fu = case
    S50 = mats(n, 2)
    text = write(n, S50, 'kHz', 'S', 'RI', 35., 'std', 0, head=DECL[d] or '' if where == 'after' else '',
                 pre=(DECL[d] or '') if where == 'before' else '')
    declared = [x.strip() for x in DECL[d].split(' ', 1)[1].split(',')] if d else None
    names = [['q', 'w', 'e', 'r'][i] for i in range(n)]
    kw = {}
    if fu:
        kw['funit'] = fu
    want = declared if declared and len(declared) == n else [f'port-{k:03d}' for k in range(1, n + 1)]
    if REQ[r] == 'list':
        kw['ports'] = list(names)
        want = names
    elif REQ[r] and not s.startswith('rfO') and not s.startswith('r'):
        kw['ports'] = REQ[r]
        want = [REQ[r] % k for k in range(1, n + 1)]
    kw['Zbase'] = 20.
    ref = np.array([renorm(S, 50., 20.) for S in S50])
    fn = f'f.s{n}p'
    with open(fn, 'w') as h:
        h.write(text)
    try:
        if s in ('text', 'path', 'open', 'stringio'):
            src = {'text': text, 'path': fn, 'stringio': io.StringIO(text), 'open': None}[s]
            if s == 'open':
                with open(fn) as h:
                    res = rf.ReadTSF(h, **kw)
            else:
                res = rf.ReadTSF(src, **kw)
            gf, gS, gp = np.array(res['fs']), res['Ss'], res['ports']
            gf = gf * UNITS[(fu or 'GHz').upper()]
        else:
            if s in ('rfObject-path', 'rfObject-text'):
                o = rf.rfObject(touchstone=fn if s.endswith('path') else text, **kw)
            else:
                kw2 = dict(kw)
                o = rf.rfObject(**{k: v for k, v in kw2.items()})
                if s == 'reread':
                    other = write(n, mats(n, 5), 'GHz', 'S', 'MA', 50., 'std', 0, freqs=FR[:2])
                    o.read_tsf(other)
                    o.getS(o.fs[0])
                    st.transitions += 1
                    if r != 2:
                        want = [f'port-{k:03d}' for k in range(1, n + 1)]     # kept
                o.read_tsf(text)
            gf, gS, gp = np.array(o.fs) * UNITS[(fu or 'Hz').upper()], o.Ss, o.ports
            if o.Zbase != 20. or len(o) != n or len(o.xpos) != n:
                raise Violation(f'{case}: object has Zbase {o.Zbase}, {len(o)} ports, positions {o.xpos}')
            for k, f in enumerate(FR):
                if not close(o.getS(f, funit='Hz'), ref[k], 1e-8):
                    raise Violation(f'{case}: getS at {f} is not the data read')
            mid = o.getS((FR[0] + FR[1]) / 2, funit='Hz')
            t = rf.rfObject(ports=list(want), Zbase=20.)
            t.setS(FR, ref)
            if not close(mid, t.getS((FR[0] + FR[1]) / 2), 1e-7):
                raise Violation(f'{case}: does not interpolate the data read')
    finally:
        os.remove(fn)
    if list(gp) != list(want):
        raise Violation(f'{case}: ports {gp}, expected {want}')
    if not np.allclose(gf, FR, rtol=1e-12) or not close(gS, ref, 1e-8):
        raise Violation(f'{case}: frequencies {gf} / data\n{np.round(gS, 5)}\nexpected\n{np.round(ref, 5)}')
    st.checks += 1
    st.transitions += 1
    st.state(case[:4], rnd(gf))
    st.outcome(tuple(gp), rnd(gf, 3))


# --- impedances per port: option line and comments (power waves)
def zport(tier):
    for n in (1, 2, 3):
        for kind in ('R-list', 'HFSS', 'HFSS-wrapped', 'HFSS-square', 'HFSS-var', 'HFSS-noR'):
            for fmt in ('RI', 'MA', 'DB'):
                for Z in (None, 20., 'ports'):
                    yield (n, kind, fmt, Z)


def p2v(S, zc, z):
    """power waves on zc[] -> voltage waves on z[]"""
    n = len(S)
    r = np.sqrt(zc)
    I = np.eye(n)
    V = np.diag(r) @ (I + S)
    J = np.diag(1 / r) @ (I - S)
    A, B = V + np.diag(z) @ J, V - np.diag(z) @ J
    return np.linalg.solve(A.T, B.T).T


def chk_zport(case, st):
    import pyRFtk as rf
    n, kind, fmt, Z = case
    S = mats(n, 3)
    out = []
    zc = np.array([[40. + 7 * i + (3 * k if kind == 'HFSS-var' else 0) for i in range(n)] for k in range(3)])
    if kind == 'R-list':
        out.append(f'# MHz S {fmt} R ' + ' '.join(str(float(z)) for z in zc[0]))
    else:
        out += ['! Touchstone file exported from HFSS 2020.1.0', '! Variables:', '! len = 3mm', '! $w = 7',
                '!', '']
        out.append(f'# MHz S {fmt}' + ('' if kind == 'HFSS-noR' else ' R 50'))
    for k, f in enumerate(FR):
        M = S[k].T if n == 2 else S[k]
        prs = [[pair(z, fmt) for z in row] for row in M]
        if n == 2:
            lines = [' '.join(p for row in prs for p in row)]
        else:
            lines = [' '.join(row) for row in prs]
        out.append(f'{f / 1e6!r} ' + lines[0])
        out += lines[1:]
        if kind != 'R-list':
            g = ['0.01 2.5'] * n
            z = [f'{float(v)!r} 0' for v in zc[k]]
            if kind == 'HFSS-square':
                g2 = [['0 0'] * n for _ in range(n)]
                z2 = [['0 0'] * n for _ in range(n)]
                for i in range(n):
                    g2[i][i], z2[i][i] = g[i], z[i]
                g = [x for row in g2 for x in row]
                z = [x for row in z2 for x in row]
            if kind == 'HFSS-wrapped' and n > 1:
                out += ['! Gamma ' + g[0], '!  ' + ' '.join(g[1:]),
                        '! Port Impedance ' + z[0], '!  ' + ' '.join(z[1:])]
            else:
                out += ['! Gamma ! ' + ' '.join(g) if k % 2 else '! Gamma ' + ' '.join(g),
                        '! Port Impedance ' + ' '.join(z)]
    text = '\n'.join(out) + '\n'
    kw = {'funit': 'Hz'}
    zt = [50.] * n
    if Z == 'ports':
        zt = [20. + 5 * i for i in range(n)]
        kw['Zbase'] = zt
    elif Z:
        zt = [Z] * n
        kw['Zbase'] = Z
    r = rf.ReadTSF(text, **kw)
    ref = np.array([p2v(S[k], zc[k], np.array(zt)) for k in range(3)])
    if not np.allclose(r['fs'], FR) or not close(r['Ss'], ref, 1e-8):
        raise Violation(f'{case}:\n{np.round(r["Ss"], 5)}\nexpected\n{np.round(ref, 5)}\n{text}')
    if kind != 'R-list':
        if not close(np.array(r['Zc']), zc) or not close(np.array(r['Gm']), np.full((3, n), .01 + 2.5j)):
            raise Violation(f'{case}: port impedances {r["Zc"]} and gammas {r["Gm"]}')
        if r['variables'] != {'len': '3mm', '$w': '7'}:
            raise Violation(f'{case}: variables {r["variables"]}')
    st.checks += 1
    st.transitions += 1
    st.state(rnd(ref))
    st.outcome(rnd(ref, 3))


# --- special comments and refused texts
SPECIAL = {'!MARKERS 30. 41.5e6': ('markers', [30., 41.5e6]), '!SHAPE 2 3': ('shape', (2, 3)),
           '!SHAPE 5': ('shape', (5, 0)), '!PART TOP LEFT': ('part', ('top', 'left')), '!PART TOP': ('part', 'top'),
           '!NUMBERING UP DOWN': ('numbering', ('up', 'down')), '!NUMBERING UP': ('numbering', 'up')}
BADT = {'two option lines': '# MHz S RI R 50\n# MHz S RI R 50\n30 .1 .2\n',
        'word in the data': '# MHz S RI R 50\n30 .1 abc\n',
        'unknown option': '# MHz Q RI R 50\n30 .1 .2\n',
        'not square': '# MHz S RI R 50\n30 .1 .2 .3 .4\n',
        'ragged': '# MHz S RI R 50\n30 .1 .2\n31 .1 .2 .3 .4 .5 .6 .7 .8\n',
        'no option line': '30 .1 .2\n31 .2 .3\n', 'no data': '# MHz S RI R 50\n\n'}


def special(tier):
    ks = list(SPECIAL)
    for r in (0, 1, 2, 3):
        for sub in itertools.combinations(ks, r):
            for n in (1, 2):
                yield ('ok', sub, n)
    for b in BADT:
        yield ('bad', b)


def chk_special(case, st):
    import pyRFtk as rf
    st.checks += 1
    st.transitions += 1
    st.state(repr(case))
    st.outcome(repr(case))
    if case[0] == 'bad':
        try:
            r = rf.ReadTSF(BADT[case[1]])
        except Exception:
            return
        if case[1] in ('no option line', 'no data') and len(r['fs']) == 0:
            return
        raise Violation(f'{case}: accepted and read as {r["fs"]} {r["Ss"]}')
    _, sub, n = case
    S50 = mats(n, 4)
    text = write(n, S50, 'MHz', 'S', 'RI', 50., 'std', 0, head='\n'.join(sub), pre='!REM first')
    r = rf.ReadTSF(text)
    want = {}
    for l in sub:
        k, v = SPECIAL[l]
        want[k] = v
    for k in ('markers', 'shape', 'part', 'numbering'):
        g = r[k]
        w = want.get(k)
        if (w is None) != (g is None) or (w is not None and not (
                np.allclose(g, w) if k == 'markers' else g == w)):
            raise Violation(f'{case}: {k} is {g}, expected {w}')
    if not close(r['Ss'], S50, 1e-9):
        raise Violation(f'{case}: data')


def families(tier):
    return [
        Family('options', lambda: fieldsets(tier), chk_fields,
               'all subsets, values and orders of the fields of the option line'),
        Family('layouts', lambda: layouts(tier), chk_layout,
               '13 layouts x types x formats x number styles x 1..7 ports'),
        Family('names-sources', lambda: decl(tier), chk_decl, 'declared/requested names x sources x units'),
        Family('port-impedances', lambda: zport(tier), chk_zport, 'impedances per port in R or comments'),
        Family('special', lambda: special(tier), chk_special, 'special comments; refused texts'),
    ]
