"""C04: maximum voltages and voltage profiles are the true ones."""
import itertools
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import nets, c01

PROP = 'C04'
ASSUME = ['the maximum is accepted within 0.5 % (sampling of the standing wave)'] + c01.ASSUME


# --- circuits
def cat(tier):
    for k, specs in nets.allnets(True).items():
        m = model_pool(specs)[-1]
        for e in range(len(m.free) + 1):
            for Z in (None, 20., 75.):
                yield (k, e, Z)


def chk_cat(case, st):
    k, e, Z = case
    specs = nets.allnets(True)[k]
    for f in FS[:2]:
        c, m = real_pool(specs)[-1], model_pool(specs)[-1]
        E = excite(m.free, e)
        try:
            obs_maxV(c, m, f, E, Z, st)                       # first thing asked
            c.getS(FS[2])
            obs_maxV(c, m, f, E, Z, st, what='again: ')
        except Ill:
            st.skipped += 1
        st.transitions += 3


# --- excitation patterns over {0, 1, complex}
def patterns(tier):
    for k in (['tee', 'nested', 'nestline', 'reuse', 'shared'] if tier == 'quick' else nets.catalog()):
        m = model_pool(nets.catalog()[k])[-1]
        n = len(m.free)
        if n > 5:
            continue
        for p in itertools.product((0., 1., 0.4 - 0.9j), repeat=n):
            if any(p):
                yield (k, list(p))


def chk_pat(case, st):
    k, p = case
    specs = nets.catalog()[k]
    c, m = real_pool(specs)[-1], model_pool(specs)[-1]
    try:
        obs_maxV(c, m, FS[1], dict(zip(sorted(m.free), p)), 20., st)
    except Ill:
        st.skipped += 1
    st.transitions += 1


# --- excitations one after the other (of the same magnitudes, sums, positions)
SEQ = [(1., 1.), (1., -1.), (1j, 1.), (1., 1j), (0., 1.), (1., 0.), (-1., -1.), (2., 1.), (1., 2.),
       (1e-10, 2e-10), (2e-10, -3e-10j), (4e7, 1e7)]


def sequences(tier):
    for k in ('line', 'tee', 'nested', 'nestline', 'shared') if tier == 'quick' else ['line'] + list(nets.catalog()):
        for n in (2,) if tier == 'quick' and k != 'line' else (2, 3):
            for seq in itertools.product(range(len(SEQ)), repeat=n):
                if len(set(seq)) < n:
                    continue
                for Z in (None, 20., 'alternate'):
                    yield (k, list(seq), Z)


def chk_seq(case, st):
    k, seq, Z0 = case
    specs = nets.catalog()[k] if k != 'line' else [LOSSY(1.7, 30.), CT([['add', 'L', 0, None, 1.5]], Zb=50.)]
    c, m = real_pool(specs)[-1], model_pool(specs)[-1]
    o = None
    if k == 'line':
        o, el = real_obj(specs[0], []), El(specs[0])
        on = Net(el.Zb)
        on.add('T', el)
    for j, i in enumerate(seq):
        Z = Z0 if Z0 != 'alternate' else (20., None)[j % 2]
        E = {q: SEQ[i][n % 2] * (1 + n // 2) for n, q in enumerate(sorted(m.free))}
        try:
            obs_maxV(c, m, FS[1], E, Z, st, what=f'after {[SEQ[q] for q in seq[:j]]}: ')
            if o is not None:
                sol = on.solve(FS[1], Z)
                ref, x = sol.at(dict(zip(['T.1', 'T.2'], SEQ[i])))
                vm, _, (xs, us) = o.maxV(FS[1], dict(zip('12', SEQ[i])), **({} if Z is None else {'Zbase': Z}))
                V = np.abs(line_V(el, FS[1], *ref['T.1'][:2], np.asarray(xs)))
                sz = max(map(abs, SEQ[i]))
                if not close(us / sz, V / sz, 1e-6) or abs(vm - true_max(sol, x)) > 5e-3 * vm:
                    raise Violation(f'line, after {[SEQ[q] for q in seq[:j]]}: maxV for {SEQ[i]} is {vm}, profile {us[:5]}'
                                    f' expected {true_max(sol, x)}, {V[:5]}')
        except Ill:
            st.skipped += 1
        st.transitions += 1


# --- lines of all lengths and terminations, elements alone
LENS = [0.0, 0.004, 0.06, 0.3, 0.77, 1.6, 2.9, 4.7, 6.3, 9.1, 14.2]


def lines(tier):
    for L in LENS:
        for z0 in (20., 50., 120.):
            for ti in range(len(TERMS)):
                for lossy in (False, True):
                    for xp in (None, 0.7):
                        if xp and (ti % 3 or z0 != 20.) and tier == 'quick':
                            continue
                        yield (L, z0, ti, lossy, xp)


def chk_lines(case, st):
    L, z0, ti, lossy, xp = case
    s = LOSSY(L, z0) if lossy else TRL(L, z0, 40.)
    if xp:
        s['xpos'] = [xp, xp + L]
    kind, val = TERMS[ti]
    specs = [s, CT([['add', 'L', 0, None, 1.5], ['term', 'L.2', kind, val]], Zb=50.)]
    for f in FS[:2]:
        c, m = real_pool(specs)[-1], model_pool(specs)[-1]
        try:
            obs_maxV(c, m, f, {'L.1': 1. - .5j}, None, st)
            obs_maxV(c, m, f, {'L.1': 1.}, 20., st)
        except Ill:
            st.skipped += 1
        st.transitions += 2


# --- step settings of a line
def steps(tier):
    for dx in (12, 36, 72, 200, 0.01, 0.05, -0.05, -0.3):
        for L in LENS[1:8]:
            for two in (0., 1., -.5j):
                yield (dx, L, two)


def chk_steps(case, st):
    import pyRFtk as rf
    dx, L, two = case
    T = rf.rfTRL(L=L, Z0TL=35., Zbase=50., dx=dx)
    el = El(TRL(L, 35., 50.))
    for f in FS[:1]:
        for Z in (None, 20.):
            E = {'1': 1., '2': two}
            net = Net(50.)
            net.add('T', el)
            sol = net.solve(f, Z)
            ref, x = sol.at({'T.1': 1., 'T.2': two})
            V1, I1 = ref['T.1'][:2]
            vm, where, (xs, us) = T.maxV(f, E) if Z is None else T.maxV(f, E, Zbase=Z)
            V = np.abs(line_V(el, f, V1, I1, np.asarray(xs)))
            if abs(xs[0]) > 1e-12 or abs(xs[-1] - L) > 1e-12 or not close(us, V, 1e-6):
                raise Violation(f'profile of dx={dx} L={L} Zbase={Z}: {us[:4]}.. expected {V[:4]}..')
            vt = true_max(sol, x)
            # resolution: a parabola through samples that are h apart
            h = 2 * math.pi * f / C0 * np.max(np.diff(xs))
            tol = 1e-3 + h ** 2 / 2
            if not (vt * (1 - tol) <= vm <= vt * (1 + tol)) or vm < np.max(us) * (1 - 1e-9):
                raise Violation(f'maxV of dx={dx} L={L} Zbase={Z} is {vm}, expected {vt}')
            if isinstance(dx, float) and dx > 0 and np.max(np.diff(xs)) > 2 * dx:
                raise Violation(f'step {np.max(np.diff(xs))} where dx={dx}')
            st.checks += 1
            st.state(rnd(V, 4))
            st.outcome(round(float(vt), 3))
            st.transitions += 1


# --- elements alone
def elements(tier):
    for k, s in PRIMS.items():
        if s.get('cls') == 'arr':
            continue
        n = nports(s)
        for p in itertools.product((0., 1., 0.4 - 0.9j), repeat=n):
            if any(p):
                for Z in (None, 20., 75.):
                    yield (k, list(p), Z)


def chk_elements(case, st):
    k, p, Z = case
    s = PRIMS[k]
    o, el = real_obj(s, []), model_obj(s, [])
    net = Net(el.Zb)
    net.add('T', el)
    for f in FS[:2]:
        try:
            sol = net.solve(f, Z)
        except Ill:
            st.skipped += 1
            continue
        names = oports(s)
        ref, x = sol.at({f'T.{q}': v for q, v in zip(names, p)})
        E = dict(zip(el.ports, p))
        vm, where, v = o.maxV(f, dict(E)) if Z is None else o.maxV(f, dict(E), Zbase=Z)
        vt = true_max(sol, x)
        if not abs(vm - vt) <= 5e-3 * vt:
            raise Violation(f'maxV of {k} for {E} at Zbase={Z} is {vm}, expected {vt}')
        pv = np.abs([ref[f'T.{q}'][0] for q in names])
        if s['t'] == 'TRL':
            got = [v[1][0], v[1][-1]]
        elif isinstance(v, tuple):
            got = v[1]
        else:
            (v,) = v.values()
            got = [v[q][1][0] for q in el.ports]
        if not close(got, pv, 1e-6):
            raise Violation(f'maxV of {k} for {E} at Zbase={Z} lists {got}, expected {pv}')
        if s['t'] not in ('TRL',) and not abs(vm - np.max(got)) <= 1e-9 * vm:
            raise Violation(f'maxV of {k} is {vm}, its list {got}')
        st.checks += 1
        st.state(k, rnd(pv, 4))
        st.outcome(k, rnd(pv, 3))
        st.transitions += 1


# --- many lines in one circuit: placements
def placements(tier):
    for r1, r2, r3 in itertools.product((0., 2.5, -7.), repeat=3):
        for top in ('flat', 'nest', 'twice'):
            yield (r1, r2, r3, top)


def chk_place(case, st):
    r1, r2, r3, top = case
    A, B = LOSSY(2.2, 50., ports=['in', 'out']), TRL(1.1, 70., 50., xpos=[.25, 1.35])
    ops = [['add', 'A', 0, None, r1], ['add', 'B', 1, None, r2], ['con', ['A.out', 'B.1', 'k']]]
    if top == 'flat':
        specs = [A, B, CT(ops + [['term', 'k', 'Z', 30.]])]
    else:
        inner = CT(ops, Zb=80.)
        o2 = [['add', 'N', 2, None, r3]]
        if top == 'twice':
            o2 += [['add', 'N1', 2, {'A.in': 'x'}, r1], ['con', ['N1.x', 'N.B.2']]]
        o2 += [['term', 'N.k', 'Y', .004j]]
        specs = [A, B, inner, CT(o2)]
    c, m = real_pool(specs)[-1], model_pool(specs)[-1]
    obs_maxV(c, m, FS[1], excite(m.free), None, st)
    st.transitions += 1


def families(tier):
    return [
        Family('catalogue', lambda: cat(tier), chk_cat, 'catalogue x excitations x 3 impedances'),
        Family('patterns', lambda: patterns(tier), chk_pat, 'excitations over {0,1,complex}'),
        Family('sequences', lambda: sequences(tier), chk_seq,
               'all ordered pairs (a line: and triples) of 9 excitations x impedances (kept, alternating)'),
        Family('lines', lambda: lines(tier), chk_lines,
               '11 lengths x 3 impedances x 12 terminations x lossy x position'),
        Family('steps', lambda: steps(tier), chk_steps, '8 step settings x 7 lengths x 3 excitations'),
        Family('elements', lambda: elements(tier), chk_elements, 'every element x excitation patterns'),
        Family('placements', lambda: placements(tier), chk_place, 'relative positions and nesting'),
    ]
