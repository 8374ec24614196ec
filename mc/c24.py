"""C24: matrices are printed and compared element by element.

All matrices over a small alphabet of elements are printed in every form and the
text is read back; all small collections of data sets are compared and the curves
of the figure are read back.
"""
import contextlib, io, itertools
import numpy as np
from .engine import Family, Violation
from .ref import smat, rnd

PROP = 'C24'
ASSUME = ['an element below 1e-7 in magnitude is a zero', 'at least one port and one data set are compared']
ALPH = [0., 1., -.5 + .25j, 9e-8j, 2e-7, -3e2 - 4e-3j, 1e-9 - 1e-8j, -1j]
DEG = '\N{DEGREE SIGN}'


def db(z):
    with np.errstate(divide='ignore'):
        return 20 * np.log10(abs(z)), np.angle(z) * 180 / np.pi


FORMS = {
    # name: format of an element, values
    'M': ('%7.3f%+7.3fj, ', lambda z: (z.real, z.imag)),
    'RI': ('%7.3f%+7.3fj, ', lambda z: (z.real, z.imag)),
    'MA': ('%8.5f %+7.2f' + DEG + ', ', lambda z: (abs(z), np.angle(z) * 180 / np.pi)),
    'DB': ('%7.3f%+7.1f' + DEG + ', ', db),
    'R': ('%7.3f, ', lambda z: z.real),
}
OWN = {'e': ('<%+.4e|%+.4e>', lambda z: (z.imag, z.real)), 's': ('%12s;', lambda z: (f'{z:.2f}',))}


def expected(M, fmt, fun, zeros):
    M = np.array(M)
    out = f'[{M.shape[0]},{M.shape[1]}]\n\n'
    for r in M:
        for z in r:
            t = fmt % fun(complex(z))
            out += zeros.center(len(t)) if zeros and abs(z) < 1e-7 else t
        out += '\n'
    return out + '\n'


def texts(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2)]
    for sh in shapes:
        n = sh[0] * sh[1]
        al = range(len(ALPH)) if n < 4 or tier != 'quick' else (0, 2, 3, 4, 5)
        for el in itertools.product(al, repeat=n):
            yield (sh, list(el))
    for sh in ((3, 3), (1, 6), (4, 2)):
        for k in range(len(ALPH)):
            yield (sh, [(k + i) % len(ALPH) for i in range(sh[0] * sh[1])])


def chk_text(case, st):
    from pyRFtk import printMatrices as pm
    sh, el = case
    A = np.array([ALPH[i] for i in el], dtype=complex).reshape(sh)
    keep = A.copy()
    forms = [('list', A.tolist()), ('array', A)]
    if np.all(A.imag == 0):
        forms.append(('real', A.real.copy()))
    for what, arg in forms:
        for zeros in ('0', '-', ''):
            for nm, (fmt, fun) in FORMS.items():
                if nm == 'R' and what == 'list':
                    pass
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf), np.errstate(divide='ignore'):
                    f = getattr(pm, 'print' + nm)
                    f(arg) if zeros == '0' else f(arg, printzeros=zeros)
                got = buf.getvalue()
                ref = expected(A, fmt, fun, zeros) + '\n'
                if got.replace('-0.', '+0.').replace('+0.', ' 0.') != ref.replace('-0.', '+0.').replace('+0.', ' 0.'):
                    raise Violation(f'print{nm} of {what} {A.tolist()} (zeros {zeros!r}):\n{got}expected\n{ref}')
                st.checks += 1
            for nm, (fmt, fun) in OWN.items():
                got = pm.strM(arg, pfmt=fmt, pfun=lambda z: fun(complex(z)), printzeros=zeros)
                if got != expected(A, fmt, fun, zeros):
                    raise Violation(f'strM of {what} {A.tolist()} with {fmt!r} (zeros {zeros!r}):\n{got}expected\n'
                                    f'{expected(A, fmt, fun, zeros)}')
                st.checks += 1
            if pm.strM(arg, printzeros=zeros) != expected(A, *FORMS['M'], zeros):
                raise Violation(f'strM of {what} {A.tolist()}:\n{pm.strM(arg, printzeros=zeros)}')
            st.transitions += 8
    if not np.array_equal(A, keep):
        raise Violation(f'the matrix {keep.tolist()} became {A.tolist()}')
    st.state(sh, *el)
    st.outcome(expected(A, *FORMS['RI'], '0'))


# --- comparison of data sets
def sets(tier):
    for n in (1, 2, 3):
        for m in (1, 2, 3, 6, 7, 9) if n < 3 else (1, 2, 7):
            for own in (False, True):                     # every data set has frequencies of its own
                for cs in (0, 1, 2):                      # styles: none given, one, as many as there are sets
                    for lb in (False, True):
                        for nf in (1, 3) if n < 3 or tier != 'quick' else (3,):
                            if m == 1:
                                for bare in (False, True):
                                    yield (n, m, own, cs, lb, nf, bare)
                            else:
                                yield (n, m, own, cs, lb, nf, False)


def chk_sets(case, st):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pyRFtk as rf
    n, m, own, cs, lb, nf, bare = case
    if cs == 1 and m > 1:
        cs = 2
    fs = [np.array([30. + 7 * k + (j if own else 0) for k in range(nf + (j % 2 if own else 0))]) for j in range(m)]
    Ss = [np.array([smat(3 * j + 1, n, 1e6 * f) for f in fs[j]]) for j in range(m)]
    kw = {}
    styles = [c + l for l in ('-', ':', '-.') for c in 'rgbk'][:m]
    labels = [f'set {j}' for j in range(m)]
    if cs:
        kw['cs'] = list(styles)
    if lb:
        kw['lbls'] = list(labels)
    plt.close('all')
    keep = [S.copy() for S in Ss]
    args = (fs if own else fs[0], Ss[0] if bare else Ss)
    rf.compareSs(*args, **kw)
    if len(plt.get_fignums()) != 1:
        raise Violation(f'{case}: {len(plt.get_fignums())} figures')
    axs = [a for a in plt.gcf().get_axes() if a.get_title()]
    titles = {a.get_title().replace(' ', ''): a for a in axs}
    if len(titles) != len(axs) or len(axs) != n * (n + 1):
        raise Violation(f'{case}: graphs {[a.get_title() for a in axs]}')
    for r in range(n):
        for c in range(r + 1):
            el = f'S$_{{{r + 1}{c + 1}}}$'
            for title, fun in ((f'|{el}|', np.abs), (f'phase({el})[rad]', np.angle)):
                if title not in titles:
                    raise Violation(f'{case}: no graph {title} in {sorted(titles)}')
                ax = titles[title]
                lines = ax.get_lines()
                if len(lines) != m:
                    raise Violation(f'{case}: {len(lines)} curves in {title}, expected {m}')
                seen = [t.get_text() for t in ax.get_legend().get_texts()]
                want = labels if lb else [str(j + 1) for j in range(m)]
                if seen != want:
                    raise Violation(f'{case}: legend {seen} of {title}, expected {want}')
                for j, ln in enumerate(lines):
                    y = fun(Ss[j][:, r, c])
                    if not np.array_equal(ln.get_xdata(), fs[j]) or not np.allclose(ln.get_ydata(), y, rtol=0, atol=1e-12):
                        raise Violation(f'{case}: curve {j} of {title} is {ln.get_ydata()} at {ln.get_xdata()}, '
                                        f'expected {y} at {fs[j]}')
                    if ln.get_label() != want[j]:
                        raise Violation(f'{case}: curve {j} of {title} is called {ln.get_label()}, expected {want[j]}')
                lo, hi = ax.get_ylim()
                if fun is np.abs and not (lo <= 0 and hi >= 1) or fun is np.angle and not (lo <= -3.14159 and hi >= 3.14159):
                    raise Violation(f'{case}: {title} shows {lo} to {hi}')
                st.checks += 1
    plt.close('all')
    if any(not np.array_equal(a, b) for a, b in zip(keep, Ss)):
        raise Violation(f'{case}: the data was changed')
    st.transitions += 1
    st.state(*case)
    st.outcome(n, m)


# --- data that cannot be compared
BAD = {
    'ports differ': lambda: ([30., 40.], [np.zeros((2, 2, 2)), np.zeros((2, 3, 3))]),
    'not square': lambda: (np.array([30., 40.]), [np.zeros((2, 2, 3)), np.zeros((2, 2, 3))]),
    'two dimensions': lambda: (np.array([30., 40.]), [np.zeros((2, 2)), np.zeros((2, 2))]),
    'frequencies': lambda: (np.array([30., 40., 50.]), [np.zeros((2, 2, 2)), np.zeros((2, 2, 2))]),
    'second frequencies': lambda: ([np.array([30., 40.]), np.array([30.])], [np.zeros((2, 2, 2)), np.zeros((2, 2, 2))]),
    'lists': lambda: ([np.array([30., 40.])], [np.zeros((2, 2, 2)), np.zeros((2, 2, 2))]),
}


def chk_bad(case, st):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pyRFtk as rf
    plt.close('all')
    try:
        rf.compareSs(*BAD[case[0]]())
    except ValueError:
        st.checks += 1
        st.transitions += 1
        st.state(*case)
        st.outcome(*case)
        if plt.get_fignums():
            raise Violation(f'{case}: a figure is left')
        return
    finally:
        plt.close('all')
    raise Violation(f'{case}: compared')


def families(tier):
    return [
        Family('texts', lambda: texts(tier), chk_text,
               f'all matrices of shapes 1x1..2x2 over {len(ALPH)} elements, larger ones; 5 print functions, own formats, '
               'lists and arrays, 3 texts for zeros'),
        Family('comparisons', lambda: sets(tier), chk_sets,
               '1..9 data sets of 1..3 ports with common or own frequencies, styles, labels'),
        Family('refused', lambda: ((k,) for k in BAD), chk_bad, 'data sets that do not fit'),
    ]
