"""C20: voltage-profile utilities preserve and report what they are given.

maxfun on every small sampled function against exact rational arithmetic;
scaleVSW, strVSW, str_dict and plotVSWs on the trees of every object and network
of the catalogue and on every small synthetic tree.
"""
import copy, itertools, math, re
from fractions import Fraction as Q
import numpy as np
from .engine import Family, Violation
from .ref import *
from .obs import excite
from . import c15, nets

PROP = 'C20'
ASSUME = ['scaleVSW works in place by design; each list of voltages occurs once in a tree',
          'appearance of the plot (colours, legend, ticks) is not judged',
          'trees as returned by maxV: names, tuples of two equally long sequences']


# ------------------------------------------------------------------------ maxfun
GRIDS = {'unit': [0, 1, 2, 3, 4, 5, 6], 'fine': [i / 64 for i in range(7)], 'uneven': [0, 1, 1.5, 3.5, 3.75, 6, 8],
         'shift': [1000 + i / 16 for i in range(7)], 'neg': [-5 + i / 4 for i in range(7)],
         'tail': [0, .25, .5, .75, 1, 1.25, 1.25 + 2 ** -30], 'desc': [3 - i / 4 for i in range(7)],
         'mm': [i / 4096 for i in range(7)], 'far': [-300 + i / 256 for i in range(7)]}
TAILN = {'tail'}


def grid(name, n):
    g = GRIDS[name]
    return g[-n:] if name in TAILN else g[:n]


def exact_max(xs, ys):
    """largest of the end points and of the parabolas through the local maxima (exact)"""
    xs, ys = [Q(x) for x in xs], [Q(y) for y in ys]
    cand = [(ys[0], xs[0]), (ys[-1], xs[-1])]
    for i in range(1, len(xs) - 1):
        a, b, c = ys[i - 1:i + 2]
        if (b > a and b >= c) or (b >= a and b > c):
            x0, x1, x2 = xs[i - 1:i + 2]
            d1, d2 = (b - a) / (x1 - x0), (c - b) / (x2 - x1)
            k = (d2 - d1) / (x2 - x0)
            if k < 0:
                xm = (x0 + x1) / 2 - d1 / (2 * k)
                if min(x0, x2) <= xm <= max(x0, x2):
                    cand.append((a + d1 * (xm - x0) + k * (xm - x0) * (xm - x1), xm))
                    continue
            cand.append((b, x1))
    return max(c[0] for c in cand), cand


FORMS = {'array': lambda v: np.array(v, dtype=float), 'list': list, 'tuple': tuple}


def maxcases(tier):
    n = 6 if tier == 'quick' else 7
    for g in GRIDS:
        for k in range(1, n + 1):
            if k < n:
                for ys in itertools.product(range(4), repeat=k):
                    yield (g, list(ys))
            else:
                for ys in itertools.product(range(3), repeat=k):
                    yield (g, list(ys))


def run_max(case, st):
    from pyRFtk import maxfun
    g, ys = case
    xs = grid(g, len(ys))
    top, cand = exact_max(xs, ys)
    span = max(abs(xs[-1] - xs[0]), 1e-9)
    for sc, off in ((1, 0), (1e-3, 0), (1, 40)):
        v = [y * sc + off for y in ys]
        for form, fn in FORMS.items():
            X, Y = fn(xs), fn(v)
            keep = repr(X), repr(Y)
            x, y = maxfun(X, Y)
            w = f'maxfun({xs}, {v}) ({form}) is {(x, y)}'
            want = float(top) * sc + off
            if y < max(v) - 1e-9 * (abs(want) + sc):
                raise Violation(f'{w}: below the largest sample')
            if not abs(y - want) <= 1e-6 * sc * max(1, float(top)) + 1e-9 * off:
                raise Violation(f'{w}, expected {want}')
            near = [c for c in cand if abs(float(c[0] - top)) < 1e-6]
            if not any(abs(x - float(c[1])) <= 1e-3 * span + 1e-12 for c in near):
                raise Violation(f'{w}, expected at {[float(c[1]) for c in near]}')
            if (repr(X), repr(Y)) != keep:
                raise Violation(f'{w}: the data were changed')
            if tuple(maxfun(X, Y)) != (x, y):
                raise Violation(f'{w}: not the same when asked again')
            st.checks += 1
            st.transitions += 2
    st.state(g, ys)
    st.outcome(round(float(top), 6))


def paracases(tier):
    vs = [i / 8 for i in range(-4, 61, 1 if tier != 'quick' else 2)]
    for g in GRIDS:
        for n in range(3, 8):
            for v in vs:
                for k in (.25, 2., 40.):
                    yield (g, n, v, k)


def run_para(case, st):
    """concave parabola with its top at any place"""
    from pyRFtk import maxfun
    g, n, v, k = case
    xs = np.array(grid(g, n), dtype=float)
    step = np.median(np.abs(np.diff(xs)))
    xm = xs[0] + v * step * np.sign(xs[-1] - xs[0])
    k = k / step ** 2
    ys = 7. - k * (xs - xm) ** 2
    lo, hi = min(xs[0], xs[-1]), max(xs[0], xs[-1])
    want = min(max(xm, lo), hi)
    top = 7. - k * (want - xm) ** 2
    if g == 'tail' and want in xs[-2:]:
        return                                     # (rounding of the data decides)
    x, y = maxfun(xs, ys)
    sc = 70. * k * step ** 2 if g == 'tail' else np.ptp(ys)  # (rounding of the data)
    # a top between an end and the next sample is not inside three samples with a maximum: the end or the top
    first = sorted(xs)
    edge = xm < first[1] or xm > first[-2]
    if abs(y - top) > 1e-7 * sc + 1e-12 and not (edge and y >= np.max(ys) - 1e-9 * sc and y <= top + 1e-7 * sc):
        raise Violation(f'maxfun of the parabola with top {top} at {xm} sampled at {xs} is {(x, y)}')
    if not edge and abs(x - want) > 1e-3 * step:
        raise Violation(f'maxfun of the parabola with top {top} at {xm} sampled at {xs} is {(x, y)}')
    st.checks += 1
    st.transitions += 1
    st.state(*case)
    st.outcome(v, edge)


# ------------------------------------------------------------------------- trees
LEAF = {
    'node': lambda: ([1.5], [2.25]), 'nodeA': lambda: (np.array([1.5]), np.array([2.25])),
    'none': lambda: ([None], [2.25]), 'line': lambda: ([0., .5, 1.], [1., 3., 2.]),
    'lineA': lambda: (np.array([-1., .5, 1.]), np.array([1., 3.5, 2.])), 'cplx': lambda: ([.25], [3 - 4j]),
    'port': lambda: (np.array([.5, .5]), np.array([4., 6.])), 'zero': lambda: ([0.], [0.]),
    'int': lambda: ([1, 2], [3, 5]), 'np32': lambda: ([np.float32(.75)], [np.float64(2.)]),
}


SCAL = {'scal': lambda: (1.25, 2.5), 'scalc': lambda: (.5, .3 - .4j)}


def syn(tier):
    """all small trees: a tree is a list of leaves / subtrees"""
    L = list(LEAF)
    for a in L:
        yield [a]
        yield [[a]]
        for b in L:
            yield [a, b]
            yield [a, [b]]
            yield [[a], b]
            yield [[a, b]]
            yield [[[a]], [b]]
            yield [[[a], b]]
            if tier != 'quick':
                for c in L:
                    yield [a, b, c]
                    yield [[a, b], c]
                    yield [[[a], b], c]
                    yield [[a], [b], [c]]
    yield []
    yield [[]]
    yield [[], 'node']


NAMES = ['A', 'B.1', '_c', 'x']


def make(t, k=0):
    return {NAMES[(i + k) % len(NAMES)]: ({**LEAF, **SCAL}[x]() if isinstance(x, str) else make(x, k + 1)) for i, x in enumerate(t)}


def real_names(tier):
    for k in c15.kinds():
        if not k.startswith('ct-') and k != 'empty':
            yield ('kind', k)
    for k in nets.catalog():
        yield ('net', k)


def real_tree(case):
    how, k = case
    if how == 'kind':
        o = c15.K(k)[0]()
    else:
        o = real_pool(nets.catalog()[k])[-1]
    f = FS[1]
    r = o.maxV(f, excite(o.ports))
    return r[2] if isinstance(r[2], dict) else {'<top>': r[2]}


def tree_cases(tier):
    for t in syn(tier):
        yield ('syn', t)
    yield from real_names(tier)


def get(case):
    return make(case[1]) if case[0] == 'syn' else real_tree(case)


def leaves(t, path=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:                                      # (a node may be given by two numbers)
            yield path + (k,), v if hasattr(v[1], '__iter__') else ([v[0]], [v[1]])


def raw(t):
    for v in t.values():
        yield from raw(v) if isinstance(v, dict) else [v]


def keys(t):
    return [[k, keys(v)] if isinstance(v, dict) else k for k, v in t.items()]


def picture(t):
    return keys(t), [(p, [None if x is None else float(x) for x in v[0]], [complex(y) for y in v[1]])
                     for p, v in leaves(t)]


FACTORS = [2., .5, 0., 1., -1.5, 1000, 3, .6 - .8j, np.float64(.1)]


def scal_trees():
    for a in SCAL:
        yield [a]
        for b in list(LEAF) + list(SCAL):
            yield from ([a, b], [b, [a]], [[a], b], [[a, b]])


def scale_cases(tier):
    for c in itertools.chain(tree_cases(tier), (('syn', t) for t in scal_trees())):
        for i in range(len(FACTORS)):
            for j in ((None, 0) if tier == 'quick' else [None] + list(range(len(FACTORS)))):
                yield (*c, i, j)


def run_scale(case, st):
    from pyRFtk import scaleVSW
    *c, i, j = case
    t = get(c)
    if isinstance(FACTORS[i], complex) and any(isinstance(v[1], np.ndarray) and v[1].dtype.kind != 'c'
                                               for _, v in leaves(t)):
        return                                     # (arrays of real values cannot take them)
    K, P = picture(t)
    fac = 1
    for n in (i, j):
        if n is None:
            continue
        scaleVSW(t, FACTORS[n])
        fac = fac * FACTORS[n]
        K2, P2 = picture(t)
        w = f'tree of {c} scaled by {fac}'
        if K2 != K:
            raise Violation(f'{w}: entries {K2}, expected {K}')
        for (p, x, v), (_, x2, v2) in zip(P, P2):
            if x != x2:
                raise Violation(f'{w}: positions of {p} are {x2}, were {x}')
            if len(v) != len(v2) or any(abs(a * fac - b) > 1e-12 * abs(a * fac) for a, b in zip(v, v2)):
                raise Violation(f'{w}: voltages of {p} are {v2}, were {v}')
        st.checks += 1
        st.transitions += 1
    st.state(*case)
    st.outcome(str(P2)[:200])


# -------------------------------------------------------------------------- text
def parse_VSW(text):
    """the tree shown by strVSW: nested [name, entries or list of (x, v)]"""
    root = []
    stack = [(-1, root)]
    for line in text.splitlines():
        m = re.fullmatch(r'( *)(\d+|node)\s*:\s*(.*),\s*([-0-9.einf]+)', line)
        if m and stack[-1][0] >= 0 and len(m.group(1)) >= stack[-1][0] + 2:
            stack[-1][1].append((m.group(2) if m.group(2) == 'node' else int(m.group(2)), m.group(3).strip(), float(m.group(4))))
            continue
        ind = len(line) - len(line.lstrip(' '))
        while stack[-1][0] >= ind:
            stack.pop()
        new = []
        stack[-1][1].append([line.strip(), new])
        stack.append((ind, new))
    return root


def want_VSW(t):
    out = []
    for k, v in t.items():
        if isinstance(v, dict):
            out.append([k, want_VSW(v)])
        else:
            out.append([k, [(i, x, abs(y)) for i, (x, y) in enumerate(zip(*v), 1)] if hasattr(v[1], '__iter__') else
                        [('node', v[0], abs(v[1]))]])
    return out


def cmp_VSW(got, want, w, path=''):
    if [g[0] for g in got if isinstance(g, list)] != [r[0] for r in want] or len(got) != len(want):
        raise Violation(f'{w}: {path or "top"} shows {[g[0] for g in got]}, expected {[r[0] for r in want]}')
    for (k, g), (_, r) in zip(got, want):
        if r and isinstance(r[0], tuple):
            if len(g) != len(r):
                raise Violation(f'{w}: {path}{k} shows {len(g)} points, expected {len(r)}')
            for a, b in zip(g, r):
                okx = ('None' in a[1]) if b[1] is None else \
                    ('None' not in a[1] and abs(float(a[1]) - float(b[1])) <= .5001e-3)
                if not isinstance(a, tuple) or a[0] != b[0] or not okx or abs(a[2] - b[2]) > .5001e-3:
                    raise Violation(f'{w}: {path}{k} shows {a}, expected {b}')
        else:
            cmp_VSW(g, r, w, f'{path}{k}/')


def parse_dict(text):
    """the tree shown by str_dict"""
    root = cur = []
    stack = []
    for line in text.splitlines():
        s = line.strip()
        if s.endswith('{'):
            new = []
            if s[:-1].strip():
                cur.append([s[:-1].strip().rstrip(':'), new])
            else:
                cur.append(['', new])
            stack.append(cur)
            cur = new
        elif s.startswith('}'):
            cur = stack.pop()
        elif s:
            k, v = s.split(': ', 1)
            cur.append([k, v])
    if stack:
        raise Violation(f'str_dict: unfinished text {text!r}')
    if len(root) != 1:
        raise Violation(f'str_dict shows {len(root)} trees: {text!r}')
    return root[0][1]


def cmp_dict(got, t, w, path=''):
    if [g[0] for g in got] != list(t):
        raise Violation(f'{w}: {path or "top"} shows {[g[0] for g in got]}, expected {list(t)}')
    for (k, g), v in zip(got, t.values()):
        if isinstance(v, dict):
            if not isinstance(g, list):
                raise Violation(f'{w}: {path}{k} shows {g!r}')
            cmp_dict(g, v, w, f'{path}{k}/')
            continue
        n = re.findall(r'-?\d+\.\d+|N/A', str(g))
        xs = [v[0][0]] if len(v[0]) == 1 else [v[0][0], v[0][-1]]
        ok = ('node' in g) == (len(v[0]) == 1) and len(n) == len(xs) and all(
            (a == 'N/A') if b is None else (a != 'N/A' and abs(float(a) - float(b)) <= .5001e-4) for a, b in zip(n, xs))
        if ok and len(v[0]) > 1:
            ok = f'{len(v[0])} pts' in g
        if not ok:
            raise Violation(f'{w}: {path}{k} shows {g!r}, expected positions {list(v[0])}')


BADS = [{'A': ([1.], [1.]), 'B': (1, 2)}, {'A': {'B': ([], [])}}, {1: ([1.], [2.])}, ([1.], [2.]), {'A': 'text'}, 3]


def text_cases(tier):
    for t in scal_trees():
        yield ('syn', t, None)
    for c in tree_cases(tier):
        for b in [None] + list(range(len(BADS))):
            yield (*c, b)


def tries(fn):
    try:
        return fn()
    except Exception:
        pass


def run_text(case, st):
    """text of a tree, also after a call with something that is no tree"""
    from pyRFtk import strVSW, str_dict
    *c, b = case
    t = get(c)
    K = picture(t)
    for n in range(2):
        if b is not None:
            for fn in (strVSW, str_dict):
                tries(lambda: fn(BADS[b]))
        w = f'strVSW of the tree of {c}, call {n}, after {BADS[b] if b is not None else None}'
        cmp_VSW(parse_VSW(strVSW(t)), want_VSW(t), w)
        if any(isinstance(v[0], (int, float)) for v in raw(t)):
            continue                               # (str_dict shows tuples of lists)
        w = f'str_dict of the tree of {c}, call {n}, after {BADS[b] if b is not None else None}'
        cmp_dict(parse_dict(str_dict(t)), t, w)
        st.checks += 2
        st.transitions += 2
    if picture(t) != K:
        raise Violation(f'the text of {c} changes the tree')
    st.state(*case)
    st.outcome(strVSW(t))


# -------------------------------------------------------------------------- plot
PL = [dict(), dict(plotnodes=True), dict(plotnodes=True, plotpoints=True), dict(plotnodes=True, Id='my\\_x$'),
      dict(plotnodes=True, num='n'), dict(maxlev=1, plotnodes=True)]


def plot_cases(tier):
    for c in tree_cases(tier):
        for i in range(len(PL)):
            yield (*c, i)


def drawn(ax):
    return [(ln.get_label(), [float(x) for x in ln.get_xdata()], [float(y) for y in ln.get_ydata()])
            for ln in ax.get_lines()]


def run_plot(case, st):
    import matplotlib.pyplot as plt
    from pyRFtk import plotVSWs
    *c, i = case
    t = get(c)
    kw = PL[i]
    K = picture(t)
    exp = []
    for p, v in leaves(t):
        xs, vs = v[0], [abs(y) for y in v[1]]
        flat = all(x == xs[0] for x in xs) and all(y == vs[0] for y in vs)
        if xs[0] is None or (flat and not kw.get('plotnodes')):
            continue
        exp.append((p[-1], [float(x) for x in xs], [float(y) for y in vs], len(p) < kw.get('maxlev', 4)))
    shown = []
    for n in range(2):
        plt.close('all')
        w = f'plotVSWs of the tree of {c} with {kw}, call {n}'
        plotVSWs(t, **kw)
        if len(plt.get_fignums()) != 1:
            raise Violation(f'{w}: {len(plt.get_fignums())} figures')
        fig = plt.gcf()
        ax = fig.get_axes()[0]
        got = drawn(ax)
        if len(got) != len(exp):
            raise Violation(f'{w}: shows {[g[0] for g in got]}, expected {[e[0] for e in exp]}')
        for g, e in zip(got, exp):
            if g[1] != e[1] or g[2] != e[2]:
                raise Violation(f'{w}: {e[0]} shows {g[1:]}, expected {e[1:3]}')
            if e[3] and g[0].strip() != e[0]:
                raise Violation(f'{w}: label {g[0]!r}, expected {e[0]!r}')
            if not e[3] and not g[0].startswith('_'):
                raise Violation(f'{w}: label {g[0]!r} of level > {kw.get("maxlev", 4)} is shown')
        shown.append(got)
        st.checks += 1
        st.transitions += 1
    if shown[0] != shown[1]:
        raise Violation(f'plotVSWs of {c} with {kw}: not the same when called again')
    # pointing at a point of the figure shows the values there
    if exp and kw.get('plotnodes') and len(kw) == 1:
        hover(fig, ax, t, c, st)
    if picture(t) != K:
        raise Violation(f'plotVSWs of {c} with {kw} changes the tree')
    plt.close('all')
    st.state(*case)
    st.outcome(str(shown[0])[:300])


def nearest(t, xp, yp, ks):
    """all leaves with the point of each that is closest to (xp, yp): [(distance, name, x, |V|)]"""
    out = []
    for p, v in leaves(t):
        if v[0][0] is None:
            continue
        q = [(float(x), float(abs(y))) for x, y in zip(*v)]
        best = None
        for (x1, y1), (x2, y2) in zip(q, q[1:] or q):
            dx, dy = x2 - x1, ks * (y2 - y1)
            d2 = dx * dx + dy * dy
            u = min(max((dx * (xp - x1) + dy * ks * (yp - y1)) / d2, 0), 1) if d2 > 0 else 0
            x, y = x1 + u * (x2 - x1), y1 + u * (y2 - y1)
            d = math.hypot(x - xp, ks * (y - yp))
            if best is None or d < best[0]:
                best = (d, '.'.join(p), x, y)
        out.append(best)
    return out


def hover(fig, ax, t, c, st):
    """pointing anywhere shows the closest line or node, its voltage there, at that place"""
    from matplotlib.backend_bases import MouseEvent
    pts = [(p, float(x), float(abs(y))) for p, v in leaves(t) for x, y in zip(*v) if x is not None]
    if not pts:
        return
    (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()  # (evaluated when asked for)
    ks = (xb - xa) / (yb - ya)
    at = [q[1:] for q in pts[:3] + pts[-2:]]                     # at the samples
    for p, v in leaves(t):                             # on the lines, between the samples
        if v[0][0] is not None and len(v[0]) > 1:
            k = (len(v[0]) - 1) // 2
            for f in (.25, .5):
                at.append((v[0][k] + f * (v[0][k + 1] - v[0][k]),
                           abs(v[1][k]) + f * (abs(v[1][k + 1]) - abs(v[1][k]))))
    at = at[:11] + [(xa + i / 6 * (xb - xa), ya + j / 6 * (yb - ya)) for i in (1, 4) for j in (1, 3, 5)]
    for x, y in at:
        px, py = ax.transData.transform((x, y))
        ev = MouseEvent('motion_notify_event', fig.canvas, px, py)
        fig.canvas.callbacks.process('motion_notify_event', ev)
        vis = [a for a in ax.texts if a.get_visible()]
        if len(vis) != 1:
            raise Violation(f'pointing at ({x}, {y}) of the plot of {c}: shows {[a.get_text() for a in vis]}')
        txt = vis[0].get_text()
        name, val = txt.split('\n')
        m = re.fullmatch(r'([-0-9.]+)kV', val)
        N = nearest(t, float(x), float(y), ks)
        dmin = min(n[0] for n in N)
        tol = 1e-6 * (xb - xa) + 1e-9
        ok = [n for n in N if n[0] <= dmin + tol]
        scale = 1e-6 * (yb - ya) + .51e-3
        if not m or not any(n[1] == name and abs(float(m.group(1)) - n[3]) <= scale for n in ok):
            # (several points of one line may be as close)
            if not m or name not in [n[1] for n in ok] or not any(
                    abs(math.hypot(vis[0].xy[0] - x, ks * (float(m.group(1)) - y)) - dmin) <= 2 * tol + ks * .6e-3
                    for _ in (0,)):
                raise Violation(f'pointing at ({x}, {y}) of the plot of {c}: shows {txt!r}, expected one of '
                                f'{[(n[1], n[3]) for n in ok]}')
        if abs(vis[0].xy[1] - float(m.group(1))) > .51e-3 + 1e-9 * abs(vis[0].xy[1]) or \
                abs(math.hypot(vis[0].xy[0] - x, ks * (vis[0].xy[1] - y)) - dmin) > tol:
            raise Violation(f'pointing at ({x}, {y}) of the plot of {c}: {txt!r} is placed at {vis[0].xy}')
        st.checks += 1
        st.transitions += 1


def families(tier):
    n = 6 if tier == 'quick' else 7
    return [
        Family('samples', lambda: maxcases(tier), run_max,
               f'all sequences of < {n} samples of 4 values and of {n} of 3 values on {len(GRIDS)} grids, 3 scalings, '
               '3 types'),
        Family('parabolas', lambda: paracases(tier), run_para, 'tops at all eighths (quarters) of a step before, inside and after'),
        Family('scaling', lambda: scale_cases(tier), run_scale,
               f'all synthetic trees of <= {2 if tier == "quick" else 3} leaves of {len(LEAF)} and the trees of every kind '
               f'of object and network, {len(FACTORS)} factors, applied once or twice'),
        Family('text', lambda: text_cases(tier), run_text, f'same trees, after {len(BADS)} refused or odd calls'),
        Family('plot', lambda: plot_cases(tier), run_plot, f'same trees, {len(PL)} options, twice; pointing at the points'),
    ]
