"""C02: results always reflect the current state of the circuit.

Explicit enumeration of all operation sequences; after the last operation all
the observations are compared with the reference model in the state reached.
"""
import itertools, copy
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import c01

PROP = 'C02'
ASSUME = c01.ASSUME + ['an object that is shared and used with block parameters has these '
                       'parameters in all the blocks that use it',
                       'a circuit of which the port order was announced is evaluated when it has these ports']
f1, f2 = FS[0], FS[1]
R = RLC(25., Rs=3., Ls=40e-9, Cp=30e-12, Rp=900.)
R2 = RLC(60., Rs=11., Ls=15e-9, Cp=80e-12)
LN = LOSSY(1.4, 40.)
T3 = S(3, 2, 75., ['a', 'b', '11'])
T3b = S(3, 8, 30., ['a', 'b', '11'], 'base')


def sysA():
    return [R, LN, T3, R2, T3b, S(3, 9, cls='arr'), TRL(.8, 60., 45.)], CT(
        [['add', 'R', 0], ['add', 'R1', 0, {'s': 'x'}], ['add', 'L', 1], ['add', 'S', 2],
         ['con', ['R.p', 'S.a', 'L.1']], ['con', ['R1.p', 'S.b', 'j']], ['term', 'R1.x', 'Z', 20 + 10j]], Zb=33.)


def sysB():
    u = CT([['add', 'R', 0], ['add', 'L', 1], ['con', ['R.p', 'L.1', 'k']]], Zb=20.)
    v = CT([['add', 'U', 3, {'R.s': 'i'}], ['add', 'R', 0], ['add', 'S', 2],
            ['con', ['U.k', 'S.a']], ['con', ['R.s', 'S.b']], ['term', 'R.p', 'Y', .01]], Zb=110.,
           Portnames=['S.11', 'U.i', 'U.L.2'])
    return [R, LN, T3, u, v, R2, T3b], CT(
        [['add', 'V', 4], ['add', 'W', 4, {'U.i': 'z'}], ['add', 'R', 0],
         ['con', ['V.S.11', 'W.z', 'R.s']], ['term', 'W.U.L.2', 'RC', .4 - .3j]], Zb=33.)


def sysC():
    u = CT([['add', 'A', 0, None, 0, {'Ls': 5e-9}], ['add', 'L', 1], ['con', ['A.p', 'L.1', 'k']]], Zb=20.)
    w = CT([['add', 'B', 4, None, 0], ['add', 'L', 1], ['con', ['B.p', 'L.2', 'k']]], Zb=40.)
    return [R, LN, T3, u, R2, w], CT(
        [['add', 'A', 0, None, 0, {'Ls': 80e-9}], ['add', 'A1', 0, None, 0, {'Ls': 30e-9}],
         ['add', 'N', 5, None, 0, {'B': {'Rs': 2.}}], ['add', 'N1', 5, None, 0, {'B': {'Rs': 31.}}],
         ['add', 'U', 3], ['add', 'S', 2],
         ['con', ['A.p', 'S.a', 'N.k']], ['con', ['A1.p', 'S.b', 'U.k']], ['con', ['N1.k', 'U.L.2']],
         ['term', 'N1.B.s', 'Z', 75.]], Zb=33.)


EVALS = [('S', f1, None), ('S', f2, 20.), ('SL',), ('V', f1), ('M', f2), ('I', f1)]
MENU = {
    'A': (sysA, EVALS + [('V0', f2)], [
        ('set', 0, 'R.Ls', 90e-9), ('set', 2, 'R1', {'Rs': 17., 'Cp': 5e-12}), ('set', 1, 'L.L', 2.2),
        ('set', 3, 'L', {'L': 0.6}), ('term', 'R1.x', 'Z', 75.), ('term', 'R1.x', 'Y', 0.),
        ('term', 'j', 'RC', .2j), ('repl', 'R', 3), ('repl', 'S', 4), ('repl', 'S', 5), ('repl', 'L', 6),
        ('SP', f1, {'R': {'Ls': 60e-9}}), ('SP', f2, {'L': {'L': 1.9}, 'R1': {'Rs': 0.5}})]),
    'B': (sysB, EVALS + [('child', 'V', f2), ('child', 'V.U', f1)], [
        ('set', 0, 'V.U.R.Ls', 90e-9), ('set', 2, 'W.U', {'L': {'L': 2.3}}), ('set', 3, 'V', {'R': {'Rs': 17.}}),
        ('set', 1, 'R.Cp', 5e-12), ('repl', 'V.U.R', 5), ('repl', 'W.S', 6), ('repl', 'W', 4),
        ('term', 'W.U.L.2', 'Z', 75.), ('term', 'R.p', 'Y', .02),
        ('SP', f1, {'V': {'U': {'R': {'Ls': 66e-9}}}}), ('SP', f2, {'R': {'Rs': 29.}})]),
    'C': (sysC, EVALS + [('child', 'N', f1), ('child', 'U', f2)], [
        ('set', 0, 'A.Rs', 19.), ('set', 2, 'U.A', {'Cp': 4e-12}), ('set', 3, 'N', {'L': {'L': .6}}),
        ('set', 0, 'N1.B.Ls', 33e-9), ('term', 'N1.B.s', 'Y', .05),
        ('SP', f1, {'A1': {'Cp': 55e-12}}), ('SP', f2, {'N': {'B': {'Cp': 2e-12}}})]),
}


def nested_kw(path, val):
    return path.split('.')[0], val


def apply_real(c, op, pool):
    k = op[0]
    E = excite(c.ports)
    if k == 'S':
        c.getS(op[1]) if op[2] is None else c.getS(op[1], Zbase=op[2])
    elif k == 'SL':
        c.getS([f2, f1])
    elif k == 'V':
        c.Solution(op[1], E)
    elif k == 'V0':
        c.Solution(op[1], E, 75., [])
    elif k == 'M':
        c.maxV(op[1], E)
    elif k == 'I':
        c.Get_internalSmatrix(op[1], [c.ports[-1]])
    elif k == 'SP':
        c.getS(op[1], params=copy.deepcopy(op[2]))
    elif k == 'child':
        c.object(op[1]).getS(op[2])
    elif k == 'set':
        _, form, path, val = op
        val = copy.deepcopy(val)
        if form in (0, 2):
            c.set(path, val)
        elif form == 1:
            c.set((path, val))
        else:
            c.set(**{path: val})
    elif k == 'term':
        c.terminate(op[1], **{op[2]: op[3]})
    elif k == 'repl':
        c.addblock(op[1], pool[op[2]])


def apply_model(m, op, pool):
    k = op[0]
    if k == 'SP':
        m.setd(op[2])
    elif k == 'set':
        m.set(op[2], op[3])
    elif k == 'term':
        m.term(*op[1:])
    elif k == 'repl':
        m.add(op[1], pool[op[2]])


def observe(c, m, st, order=0, what=''):
    try:
        seq = [('S', f1), ('V', f1), ('S', f2), ('M', f2)]
        if order:
            seq = [('M', f1), ('S', f2), ('V', f2), ('S', f1)]
        for k, f in seq:
            if k == 'S':
                obs_S(c, m, f, None if f == f1 else 20., st, what=what)
            elif k == 'V':
                obs_sol(c, m, f, excite(m.free), 75., None, st, what=what)
            else:
                obs_maxV(c, m, f, excite(m.free), None, st, pos=False, what=what)
        st.transitions += len(seq)
    except Ill:
        st.skipped += 1


def build(k):
    pool, top = MENU[k][0]()
    specs = pool + [top]
    return real_pool(specs), model_pool(specs)


def histories(k, tier, depth):
    _, ev, mu = MENU[k]
    menu = ev + mu
    for n in range(0, depth + 1):
        for seq in itertools.product(range(len(menu)), repeat=n):
            if n >= 3:
                # bound: a longer history ends with a change (the observations follow anyway)
                if seq[-1] < len(ev):
                    continue
                # two evaluations in a row only as the first two
                if any(seq[i] < len(ev) and seq[i + 1] < len(ev) for i in range(1, n - 1)):
                    continue
            yield seq


def chk(k):
    def check(seq, st):
        _, ev, mu = MENU[k]
        menu = ev + mu
        rp, mp = build(k)
        c, m = rp[-1], mp[-1]
        done = []
        for i in seq:
            op = menu[i]
            if op[0] == 'term' and op[1] not in m.terms and op[1] not in m.free:
                continue
            apply_real(c, op, rp)
            apply_model(m, op, mp)
            done.append(op)
            st.transitions += 1
        observe(c, m, st, len(seq) % 2, f'after {done}: ')
    return check


# --- circuits of circuits, one object everywhere: which of the caches are stale
def frequencies(tier):
    """every order of evaluation at 3 frequencies and 3 impedances of every circuit"""
    from . import nets
    for name in nets.catalog():
        for fs in itertools.product(range(3), repeat=3):
            for z in range(3):
                yield (name, fs, z)


def chk_freq(case, st):
    from . import nets
    name, fs, z = case
    specs = nets.catalog()[name]
    c, m = real_pool(specs)[-1], model_pool(specs)[-1]
    Zs = [None, 20., 75.]
    ask = ['S', 'V', 'M']
    for i, f in enumerate(fs):
        Z = Zs[(z + i) % 3]
        a = ask[(z + i) % 3] if i < 2 else 'S'
        try:
            if a == 'S':
                obs_S(c, m, FS[f], Z, st)
            elif a == 'V':
                obs_sol(c, m, FS[f], excite(m.free), Z, None, st)
            else:
                obs_maxV(c, m, FS[f], excite(m.free), Z, st, pos=False)
        except Ill:
            st.skipped += 1
        st.transitions += 1


# --- narrow: tiny steps of the frequency or of a parameter between evaluations
NARROW = {
    'trl': ([TRL(900., 30., 60.)], 'L'),
    'lossy': ([LOSSY(300., 60.)], 'L'),
    'rlc': ([RLC(50., Rs=1e-3, Ls=2e-5, Cs=1 / ((2 * math.pi * FS[0]) ** 2 * 2e-5))], 'Ls'),
    'arc': ([ARC(40e-9)], 'Larc'),
    'cpl': ([CPL(45., kc=0.6, Lc=700.)], None),
    'ct': ([TRL(900., 30., 60.), CT([['add', 'A', 0]])], 'A.L'),
    'ct2': ([TRL(900., 30., 60.), CT([['add', 'A', 0]]), S(3, 1),
             CT([['add', 'N', 1], ['add', 'B', 2], ['con', ['N.A.1', 'B.1', 'n']], ['term', 'N.A.2', 'Z', 0.]])],
            'N.A.L'),
}
STEPS = [1e-2, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9]


def narrow(tier):
    for k in NARROW:
        for d in STEPS:
            for sg in (1, -1):
                for what in ('f', 'p', 'z'):
                    for ask in ('S', 'V', 'M', 'list'):
                        if what == 'p' and not NARROW[k][1] or what == 'z' and ask == 'M':
                            continue
                        yield (k, d * sg, what, ask)


def chk_narrow(case, st):
    k, d, what, ask = case
    specs, par = NARROW[k]
    c = real_pool(specs)[-1]
    ports = list(c.ports)
    E = excite(ports)
    fa = FS[0]
    v0 = None
    if par:
        o = specs[0]
        v0 = o['L'] if 'L' in o else o['Larc'] if 'Larc' in o else o['p'][par]

    def new(v):
        sp = copy.deepcopy(specs)
        if v is not None:
            if 'L' in sp[0]:
                sp[0]['L'] = v
            elif 'Larc' in sp[0]:
                sp[0]['Larc'] = v
            else:
                sp[0]['p'][par] = v
        return real_pool(sp)[-1]

    def q(o, f):
        if ask == 'V' and hasattr(o, 'Solution'):
            s = o.Solution(f, dict(E))
            return np.array([s[n] for n in sorted(s)])
        if ask == 'M':
            r = o.maxV(f, dict(E))
            t = r[2]
            while isinstance(t, dict):
                t = t[sorted(t)[0]]
            return np.concatenate([[r[0]], np.array(t[1], dtype=float)])
        return np.array(o.getS(f))

    fb, vb = (fa, v0 * (1 + d)) if what == 'p' else (fa * (1 + d), v0)
    if what == 'z':
        # (the reference impedance is that of the object, or one that is nearly the same)
        Z0 = c.Zbase
        for Za, Zc in ((Z0, Z0 * (1 + d)), (Z0 * (1 + d), Z0), (20. * (1 + d), 20.)):
            if ask == 'V' and hasattr(c, 'Solution'):
                get = lambda o, Z: np.array([x for n, x in sorted(o.Solution(fa, dict(E), Z).items())])
            elif ask == 'list':
                get = lambda o, Z: np.array(o.getS([fa, fa * 1.1], Zbase=Z))
            else:
                get = lambda o, Z: np.array(o.getS(fa, Zbase=Z))
            A, B = get(c, Za), get(c, Zc)
            if ask == 'V' and hasattr(c, 'Solution'):
                # waves of the same voltages and currents
                for Q, Z in ((A, Za), (B, Zc)):
                    if not (close(Q[:, 2], (Q[:, 0] + Z * Q[:, 1]) / 2, 1e-11)
                            and close(Q[:, 3], (Q[:, 0] - Z * Q[:, 1]) / 2, 1e-11)):
                        raise Violation(f'{k}: waves for Zbase={Z} are not those of V and I: {Q}')
            else:
                I_ = np.eye(len(c))
                to = lambda M, Zx, Zy: ((Zx * (I_ + M) - Zy * (I_ - M))
                                        @ np.linalg.inv(Zx * (I_ + M) + Zy * (I_ - M)))
                ref = np.array([to(M, Za, Zc) for M in A]) if A.ndim == 3 else to(A, Za, Zc)
                if not np.max(np.abs(B - ref)) <= 1e-11:
                    raise Violation(f'{k}: getS for Zbase={Zc} after Zbase={Za} is {B.ravel()[:4]}, '
                                    f'expected {ref.ravel()[:4]}')
            st.checks += 1
        st.transitions += 6
        st.state(k, d, what, ask)
        return
    if ask == 'list':
        if what == 'f':
            G = np.array(c.getS([fa, fb, fa]))[1]
        else:
            c.getS([fa, fb])
            c.set(**{par: vb}) if '.' not in par else c.set(par, vb)
            G = np.array(c.getS([fb, fa]))[1]
        R1 = np.array(new(vb).getS(fb))
    else:
        q(c, fa)
        if what == 'p':
            c.set(**{par: vb}) if '.' not in par else c.set(par, vb)
        G, R1 = q(c, fb), q(new(vb), fb)
    if G.shape != R1.shape or not np.max(np.abs(G - R1)) <= 1e-11 * max(1, np.max(np.abs(R1))):
        raise Violation(f'{k}: {ask} after a relative step of {d} of {what} is {G.ravel()[:4]}, '
                        f'of a new object {R1.ravel()[:4]}')
    st.transitions += 2
    st.checks += 1
    st.state(k, d, what, ask)
    st.outcome(rnd(R1, 9))


# --- elements: parameter changes of the objects themselves
ELS = {
    'rlc': (R, [('Ls', 9e-8), ('Rs', 0.), ('Cp', 0.), ('Cs', 5e-11), ('Lp', 1e-7), ('Rp', 33.)]),
    'trl': (TRL(1.3, 35., 60.), [('L', .4), ('L', 2.7), ('L', 0.)]),
    'lossy': (LOSSY(1.3, 60.), [('L', .4), ('L', 2.7)]),
    'arc': (ARC(40e-9), [('Larc', 1e-7), ('Larc', 5e-9)]),
}


def els(tier):
    n = 2 if tier == 'quick' else 3
    for k, (s, ch) in ELS.items():
        for seq in itertools.product(range(len(ch)), repeat=n):
            for ev in itertools.product((0, 1), repeat=n):
                for how in ('set', 'params', 'both'):
                    yield (k, seq, ev, how)


def chk_els(case, st):
    k, seq, ev, how = case
    s, ch = ELS[k]
    o, el = real_obj(s, []), model_obj(s, [])
    net = Net(el.Zb)
    net.add('T', el)

    def ask(Z=None):
        for f in (f1, f2):
            try:
                R_ = net.S(f, Z)
            except Ill:
                st.skipped += 1
                continue
            G = np.array(o.getS(f) if Z is None else o.getS(f, Zbase=Z))
            if not close(G, R_):
                raise Violation(f'{k} after {case}: getS({f}, Zbase={Z}) {G} expected {R_}')
            st.checks += 1
            st.state(rnd(R_))
            st.outcome(rnd(R_, 3))
    for i, e in zip(seq, ev):
        a, v = ch[i]
        if e:
            ask()
            o.maxV(f1, {q: 1. for q in o.ports})
        if how == 'set' or (how == 'both' and e):
            o.set(**{a: v})
        else:
            o.getS(f2, params={a: v})
        el.set(**{a: v})
        st.transitions += 1 + e
    ask()
    ask(20.)
    vm = o.maxV(f1, dict(zip(o.ports, (1., .5j))))[0]
    sol = net.solve(f1)
    _, x = sol.at(dict(zip(net.free, (1., .5j))))
    if not abs(vm - true_max(sol, x)) <= 5e-3 * true_max(sol, x) + 1e-9:
        raise Violation(f'{k} after {case}: maxV {vm}, expected {true_max(sol, x)}')


# --- several attributes at once, some of which keep their value
SEV0 = dict(Rs=3., Ls=40e-9, Cp=30e-12)
SEV1 = dict(Rs=8., Ls=15e-9, Cp=70e-12)
SEVR = ['params', 'block', 'pair', 'items', 'tuples', 'kw']


def several(tier):
    for n in range(4):
        for at in itertools.permutations(SEV0, n):
            for new in itertools.product((0, 1), repeat=n):
                for t in (None, (0, 0), (0, 1), (1, 0), (1, 1)):        # the line: (first or last, new value)
                    if not at and t is None:
                        continue
                    for how in SEVR + (['params2'] if tier != 'quick' else []):
                        for deep in (0, 1):
                            for ev in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                                yield (at, new, t, how, deep, ev)
                if n > 1 and tier == 'quick':
                    continue
                # a third level; the step of the line with its length
                for t in (None, *((*t, x) for t in ((0, 0), (0, 1), (1, 1)) for x in (0, 1, 2, 3, 4))):
                    for how in SEVR + ['params2']:
                        for deep in (0, 1, 2):
                            for ev in (0, 1, 2):
                                if (at or t) and (deep == 2 or t and t[2]):
                                    yield (at, new, t, how, deep, ev)


SEVREF = {}


def sev_specs(p, L, deep):
    A, T, X = dict(RLC(25., **p)), LOSSY(L, 40.), S(2, 4, 75.)
    inn = [['add', 'A', 0], ['add', 'T', 1], ['con', ['A.p', 'T.1']]]
    if deep == 2:
        return [A, T, X, CT(inn, Zb=20.), CT([['add', 'M', 3]], Zb=35.),
                CT([['add', 'N', 4], ['add', 'X', 2], ['con', ['N.M.T.2', 'X.1']]], Zb=45.)]
    if deep:
        return [A, T, X, CT(inn, Zb=20.), CT([['add', 'N', 3], ['add', 'X', 2], ['con', ['N.T.2', 'X.1']]], Zb=45.)]
    return [A, T, X, CT(inn + [['add', 'X', 2], ['con', ['T.2', 'X.1']]], Zb=45.)]


def chk_several(case, st):
    at, new, t, how, deep, ev = case
    c = real_pool(sev_specs(SEV0, 1.4, deep))[-1]
    p = dict(SEV0, **{a: SEV1[a] for a, n in zip(at, new) if n})
    L = .6 if t and t[1] else 1.4
    key = (tuple(sorted(p.items())), L, deep)
    if key not in SEVREF:
        m = model_pool(sev_specs(p, L, deep))[-1]
        SEVREF[key] = m.free, [m.solve(f) for f in (f1, f2)]
    free, ref = SEVREF[key]
    if ev == 1 or ev == 3:
        c.getS(f1)
    if ev == 2:
        c.getS([f2, f1])
    if ev == 3:
        c.Solution(f1, excite(free))
    d = [('A', {a: (SEV1 if n else SEV0)[a] for a, n in zip(at, new)})] if at else []
    if t:
        line = {'L': L}
        if len(t) > 2 and t[2]:
            dx = 72 if t[2] % 2 else 15
            line = {'L': L, 'dx': dx} if t[2] > 2 else {'dx': dx, 'L': L}
        d = [('T', line)] + d if t[0] == 0 else d + [('T', line)]
    pre = ('', 'N.', 'N.M.')[deep]
    G = None
    if how[:6] == 'params':
        q = dict(d)
        if deep:                                     # (a circuit takes the attributes as dicts or dotted)
            if how == 'params2':
                q = {f'{"M." if deep == 2 else ""}{b}.{a}': v for b, x in d for a, v in x.items()}
            elif deep == 2:
                q = {'M': q}
            q = {'N': q}
        G = np.array(c.getS(f1, params=q))
    elif how == 'block':
        c.set(**{pre + b: x for b, x in d})
    elif how == 'pair':
        c.set(*[y for b, x in d for y in (pre + b, x)])
    elif how == 'items':
        c.set(*[y for b, x in d for a, v in x.items() for y in (f'{pre}{b}.{a}', v)])
    elif how == 'tuples':
        c.set(*[(f'{pre}{b}.{a}', v) for b, x in d for a, v in x.items()])
    else:
        c.set(**{f'{pre}{b}.{a}': v for b, x in d for a, v in x.items()})
    if G is None:
        G = np.array(c.getS(f1))
    for f, M, r in ((f1, G, ref[0]), (f2, c.getS(f2), ref[1])):
        if not close(M, r.perm(c.ports)):
            raise Violation(f'{case}: getS({f}) is {np.round(M, 5)}, expected {np.round(r.perm(c.ports), 5)}')
        st.checks += 1
        st.state(rnd(M))
        st.outcome(rnd(M, 3))
    st.transitions += 3 + ev


# --- circuits with a touchstone of their own S-matrix
def table(S, fs, Z, name):
    """a touchstone of the circuit (in Hz, real/imaginary)"""
    n = len(S[0])
    with open(f'{name}.s{n}p', 'w') as fh:
        fh.write(f'# Hz S RI R {Z}\n')
        for f, s in zip(fs, S):
            s = np.array(s).T if n == 2 else np.array(s)
            v = [f'{z.real:.15e} {z.imag:.15e}' for z in s.flat]
            rows = [v] if n < 3 else [v[i * n:(i + 1) * n] for i in range(n)]
            for i, r in enumerate(rows):
                fh.write((f'{f!r} ' if i == 0 else '') + ' '.join(r) + '\n')
    return f'{name}.s{n}p'


def snp_specs(k, wrong=0.):
    """pools in which one circuit has a table; wrong: the table is another one"""
    A, B, T = LOSSY(1.4, 40.), RLC(25., Rs=3., Ls=40e-9, Cp=30e-12, Rp=900.), S(3, 2, 75., ['a', 'b', '11'])
    flat = CT([['add', 'A', 0, None, .3], ['add', 'B', 1], ['add', 'T', 2],
               ['con', ['A.2', 'B.s', 'T.a', 'j']], ['term', 'j', 'Y', .01j]], Zb=33.,
              Portnames=['T.b', 'A.1', 'T.11', 'B.p'])
    inn = CT([['add', 'A', 0, None, .3], ['add', 'B', 1], ['con', ['A.2', 'B.s', 'j']]], Zb=20.,
             Portnames=['B.p', 'j', 'A.1'])
    out = CT([['add', 'N', 3, {'B.p': 'x'}, 1.], ['add', 'T', 2], ['con', ['N.x', 'T.b', 'k']],
              ['term', 'N.A.1', 'RC', .4]], Zb=70., Portnames=['T.a', 'k', 'T.11', 'N.j'])
    specs = [A, B, T] + ([flat] if k == 'flat' else [inn, out])
    w = 4 if k == 'over' else 3                          # the circuit that has the table
    m = model_pool(specs)[w]
    tab = []
    for f in FS:
        s = m.solve(f).perm(specs[w]['Portnames'])
        tab.append(s * (1 - wrong))
    specs[w] = dict(specs[w], sNp=table(tab, FS, specs[w]['Zb'], k))
    return specs


SNP = {'flat': 'A.L', 'over': 'N.A.L', 'inner': None}
SNPO = ['S', 'Sg', 'V', 'Vg', 'M', 'Mg', 'X', 'Xg']


def touch(tier):
    for k, par in SNP.items():
        ops = [(o, f) for o in SNPO for f in (0, 1)] + ([('set', 0)] if par else [])
        for n in (1, 2) + ((3,) if tier != 'quick' else ()):
            for seq in itertools.product(range(len(ops)), repeat=n):
                seq = [ops[i] for i in seq]
                if seq[-1][0] == 'set' or sum(o[0] == 'set' for o in seq) > 1:
                    continue
                for z in (0, 1, 2):                        # 2: one dict of flags, that the caller modifies
                    if z and any(o[0] == 'set' for o in seq) or z == 2 and n == 1:
                        continue
                    yield (k, seq, z)


def chk_touch(case, st):
    k, seq, z = case
    specs = snp_specs(k)
    c = real_pool(specs)[-1]
    m, mt = model_pool(specs)[-1], model_pool(specs)[-1]          # of the blocks, of the table
    Z = 20. if z == 1 else None
    E = excite(m.free)
    done = []
    fl = {}
    for op, i in seq:
        done.append((op, i))
        w = f'{k} after {done[:-1]}: {op} '
        if op == 'set':
            m.set(SNP[k], 2.2)
            c.set(SNP[k], 2.2)
            continue
        f = FS[i]
        g = op[-1] == 'g'
        kw = {'flags': {'sNp': False}} if g else {}
        if z == 2:
            fl['sNp'] = not g
            kw = {'flags': fl}
        if Z:
            kw['Zbase'] = Z
        mm = m if g else mt
        sol = mm.solve(f, Z)
        if op[0] == 'S':
            G = c.getS(f, **kw)
            if not close(G, sol.perm(c.ports), 1e-7):
                raise Violation(f'{w}getS is {np.round(G, 5)}, expected {np.round(sol.perm(c.ports), 5)}')
        elif op[0] == 'V':
            ref, _ = sol.at(E)
            G = c.Solution(f, dict(E), **kw)
            need = [q for q in ref if g or k == 'inner' or q in m.free]
            if k == 'inner' and not g:
                need = [q for q in ref if not q.startswith('N.') or q[2:] in ('A.1', 'j', 'B.p', 'x')]
            for q in need:
                if q not in G and q[:2] != 'N.':
                    raise Violation(f'{w}Solution has no node {q}')
            for q, v in G.items():
                if q not in ref:
                    raise Violation(f'{w}Solution has a node {q}')
                r = ref[q]
                if not close([v[0], 50 * v[1], v[2], v[3]], [r[0], 50 * r[1], r[2], r[3]], 1e-6):
                    raise Violation(f'{w}Solution at {q}: {v}, expected {r}')
        elif op[0] == 'X':
            c.solve(f, dict(E), **kw)
            # the waves of the circuit are those of the network of its blocks
            ref, _ = m.solve(f).at(E) if Z is None else m.solve(f, Z).at(E)
            for n, v in zip(c.waves, c.sol):
                q = n[2:]
                V, I = ref[q][:2]
                r = (V + c.Zbase * I) / 2 if n[:2] == '->' else (V - c.Zbase * I) / 2
                if not close(v, r, 1e-6):
                    raise Violation(f'{w}wave {n} is {v}, expected {r}')
        else:
            sol = m.solve(f, Z)
            ref, x = sol.at(E)
            vm, where, tree = c.maxV(f, dict(E), **kw)
            vt = true_max(sol, x)
            if not abs(vm - vt) <= 5e-3 * vt:
                raise Violation(f'{w}maxV is {vm}, expected {vt}')
            walk(tree[c.Id], m, '', 0., ref, sol, x, 1e-6, False, w, {})
        st.checks += 1
        st.transitions += 1
        st.state(k, op, i, z, rnd(sol.S))
        st.outcome(op, rnd(sol.S, 3))


# --- the table and the blocks disagree: each answer is of the one that was asked for
def table_spec(k, specs, w):
    m = model_pool(specs)[w]
    s = specs[w]
    tab = {f: .8 * m.solve(f).perm(s['Portnames']) for f in FS}
    o = S(len(s['Portnames']), tab, s['Zb'], list(s['Portnames']))
    if w == len(specs) - 1:
        return specs + [o, CT([['add', 'K', len(specs)]], Zb=s['Zb'], Portnames=['K.' + q for q in s['Portnames']])]
    return specs[:w] + [o] + specs[w + 1:]


def flagged(tier):
    """dicts of flags: none, a new one, one that the caller modifies, one that is modified after the last call"""
    for k in SNP:
        ops = [(o, f, z) for o in ('0', 's', 'g') for f in (0, 1) for z in (0, 1)]
        for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
            for seq in itertools.product(ops, repeat=n):
                if n > 2 and tier == 'quick' and len({o[1] for o in seq}) > 1 and len({o[2] for o in seq}) > 1:
                    continue
                if n > 3 and len({o[1:] for o in seq}) > 2:
                    continue
                for how in (0, 1):
                    if how and sum(o[0] != '0' for o in seq) < 2:
                        continue
                    yield (k, seq, how)


FLAGREF = {}


def chk_flagged(case, st):
    k, seq, how = case
    specs = snp_specs(k, .2)
    w = 4 if k == 'over' else 3
    c = real_pool(specs)[-1]
    if k not in FLAGREF:
        plain = [{q: v for q, v in s.items() if q != 'sNp'} for s in specs]
        FLAGREF[k] = {}
        for g, sp in ((True, plain), (False, table_spec(k, plain, w))):
            m = model_pool(sp)[-1]
            for i, f in enumerate(FS[:2]):
                for z, Z in enumerate((None, 20.)):
                    s = m.solve(f, Z)
                    FLAGREF[k][g, i, z] = s, dict(zip(s.net.free, range(len(s.net.free))))
    fl = {}
    for j, (o, i, z) in enumerate(seq):
        if o != '0':
            if how:
                fl['sNp'] = o == 's'
            else:
                fl = {'sNp': o == 's'}
        kw = {} if o == '0' else {'flags': fl}
        if z:
            kw['Zbase'] = 20.
        G = c.getS(FS[i], **kw)
        sol, pos = FLAGREF[k][o == 'g', i, z]
        ports = c.ports if all(q in pos for q in c.ports) else ['K.' + q for q in c.ports]
        ref = sol.perm(ports)
        if not close(G, ref, 1e-7):
            raise Violation(f'{k} getS {j + 1} of {seq} ({"one dict" if how else "new dicts"}) is {np.round(G, 5)}, '
                            f'expected {np.round(ref, 5)}')
        st.checks += 1
        st.transitions += 1
        st.state(k, o, i, z, how, j)
        st.outcome(rnd(ref, 3))


# --- evaluations while the circuit is being built
EXT = RLC(45., Rs=5., Ls=25e-9, Cp=9e-12)


def grown(k, order=False):
    """the network extended by a block, a junction and a termination"""
    specs = [dict(s) for s in catalog()[k]]
    m = model_pool(specs)[-1]
    top = specs[-1]
    if not order:
        top.pop('Portnames', None)
    ops = list(top['ops'])
    q = m.free[0]
    ops += [['add', 'EX', len(specs) - 1, {'s': 'in'}, 1.25], ['con', [q, 'EX.in', 'nn']], ['term', 'nn', 'Z', 31. + 4j],
            ['con', ['EX.p', 'oo']], ['term', 'oo', 'Y', .01], ['term', 'oo', 'RC', .3]]
    if len(m.free) == 1:
        ops = ops[:-2]                             # (one port is left)
    return specs[:-1] + [EXT, dict(top, ops=ops)]


def builds(tier):
    for k in catalog():
        n = len(grown(k)[-1]['ops'])
        for how in ('S', 'V', 'M', 'SL'):
            for i in range(n):
                yield (k, how, [i])
                for j in range(i + 1, n):
                    if how in 'SM' or tier != 'quick':
                        yield (k, how, [i, j])
                    if tier != 'quick':
                        for l in range(j + 1, n):
                            yield (k, how, [i, j, l])
            yield (k, how, list(range(n)))
            yield (k, how, [-1])
            yield (k, how, [-1, *range(n)])
            yield (k, how, list(range(1, n, 2)))
            specs = catalog()[k]
            if specs[-1].get('Portnames'):         # the order was announced
                nb = len(specs[-1]['ops'])
                for i in range(nb, n):
                    yield (k, how, [nb - 1, i])
                yield (k, how, list(range(nb - 1, n)))
                yield (k, how, [nb - 1])


def chk_build(case, st):
    k, how, when = case
    specs = grown(k, len(catalog()[k][-1]['ops']) - 1 == when[0])
    top = specs[-1]
    mp = model_pool(specs[:-1])
    pool = []
    for s in specs[:-1]:
        pool.append(real_obj(s, pool))
        if -1 in when and hasattr(pool[-1], 'ports'):
            evaluate(pool[-1], how)
    c, m = real_obj(dict(top, ops=[]), pool), model_obj(dict(top, ops=[]), mp)
    for i, op in enumerate(top['ops']):
        real_op(c, op, pool)
        model_op(m, op, mp)
        w = f'{k}, evaluated by {how} after the operations {when}, after {i} {op}: '
        if sorted(c.ports) != sorted(m.free):
            raise Violation(f'{w}ports {c.ports}, expected {m.free}')
        if i in when:
            if not m.free:
                continue
            try:
                if how == 'S':
                    obs_S(c, m, f1, None, st, what=w)
                elif how == 'SL':
                    c.getS([f2, f1])
                    obs_S(c, m, f2, 20., st, what=w)
                elif how == 'V':
                    obs_sol(c, m, f2, excite(m.free), 20., None, st, what=w)
                else:
                    obs_maxV(c, m, f1, excite(m.free), None, st, what=w)
            except Ill:
                st.skipped += 1
    obs_all(c, m, st, (f1, f2), what=f'{k}, evaluated by {how} after the operations {when}: ')
    st.transitions += len(top['ops']) + len(when)
    st.state(k, how, when)


def evaluate(o, how):
    E = excite(o.ports)
    if how == 'S':
        o.getS(f1)
    elif how == 'SL':
        o.getS([f2, f1], Zbase=20.)
    elif how == 'V' and hasattr(o, 'Solution'):
        o.Solution(f2, E)
    else:
        o.maxV(f1, E)


# --- terminations that are given again while the circuit still grows
AGAIN = ['E', 'x', 'n', 't0', 't1', 't2', 't3', 'a']
TV = [('Z', 20 + 10j), ('Y', .03), ('RC', .4 - .3j), ('Z', 75.), ('Y', 0.), ('RC', -1.), ('Z', 5.)]


def again(tier):
    d = 5 if tier == 'quick' else 6
    for big in (False, True):
        for n in range(2, d + 1):
            for seq in itertools.product(AGAIN, repeat=n):
                ts = [q for q in seq if q[0] == 't']
                if len(ts) == len(set(ts)) and n > 3:
                    continue                       # no termination is replaced
                if seq[-1] == 'E' or any(a == b == 'E' for a, b in zip(seq, seq[1:])) or seq.count('n') > 1 \
                        or seq.count('x') > 2 or 'E' not in seq and n > 3:
                    continue
                yield (big, list(seq))


def chk_again(case, st):
    big, seq = case
    specs = [S(4, 3, 30.), EXT, S(1, 7, 40.), CT([['add', 'O', 1]] if big else [], Zb=33.)]
    rp, mp = real_pool(specs), model_pool(specs)
    c, m = rp[-1], mp[-1]
    real_op(c, ['add', 'A', 0], rp)
    model_op(m, ['add', 'A', 0], mp)
    known = [f'A.{k + 1}' for k in range(4)]
    for i, k in enumerate(seq):
        ops = []
        if k == 'E':
            if m.free:
                c.getS(f1)
            continue
        if k == 'x':
            b = f'X{i}'
            ops = [['add', b, 1], ['con', [m.free[-1], f'{b}.s']]]
        elif k == 'a':
            ops = [['add', f'Y{i}', 2]]
        elif k == 'n':
            ops = [['con', [m.free[0], 'new']]]
        else:
            q = known[int(k[1])]
            if q not in m.terms and (q not in m.free or len(m.free) == 1):
                return
            ops = [['term', q, *TV[i % len(TV)]]]
        for op in ops:
            real_op(c, op, rp)
            model_op(m, op, mp)
            st.transitions += 1
    if sorted(c.ports) != sorted(m.free):
        raise Violation(f'{case}: ports {c.ports}, expected {m.free}')
    try:
        obs_S(c, m, f1, None, st, what=f'{case}: ')
        obs_sol(c, m, f2, excite(m.free), 20., None, st, what=f'{case}: ')
    except Ill:
        st.skipped += 1


# --- changes that are made on an object of the circuit itself
DIRECT = {
    'A': [('pool', 0, 'Ls', 90e-9), ('pool', 0, 'Rs', 17.), ('pool', 1, 'L', 2.2), ('table', 2, 6), ('table', 2, 7),
          ('obj', 'R1', 'Cp', 5e-12), ('obj', 'L', 'L', .6)],
    'B': [('pool', 0, 'Ls', 90e-9), ('pool', 1, 'L', 2.2), ('table', 2, 6), ('obj', 'V.U.R', 'Cp', 5e-12),
          ('obj', 'W.U.L', 'L', .6), ('obj', 'V', 'R.Rs', 17.), ('pool', 3, 'L.L', .9), ('pool', 4, 'U.R.Ls', 33e-9),
          ('in', 4, 'R.p', 'Z', 75.), ('in', 3, 'add', 'R', 5), ('in', 4, 'add', 'S', 6), ('in', 4, 'add', 'U.L', 1)],
    'C': [('pool', 0, 'Rs', 17.), ('pool', 1, 'L', 2.2), ('table', 2, 6), ('obj', 'N.L', 'L', .6), ('obj', 'U', 'A.Rs', 9.),
          ('in', 5, 'L.1', 'Y', .03), ('in', 3, 'add', 'L', 1)],
}


def get(m, path):
    for b in path.split('.'):
        m = m.blocks[b]['obj']
    return m


def direct(tier):
    for k in DIRECT:
        ev, mu = MENU[k][1], MENU[k][2]
        D = range(len(DIRECT[k]))
        for a in range(len(ev)):
            for b in D:
                yield (k, [['e', a], ['d', b]])
                for c in range(len(mu)):
                    yield (k, [['e', a], ['d', b], ['m', c]])
                    yield (k, [['m', c], ['e', a], ['d', b]])
                for c in range(len(ev)) if tier != 'quick' else (0, 3):
                    for d in D:
                        yield (k, [['e', a], ['d', b], ['e', c], ['d', d]])
                if tier != 'quick':
                    for c in range(len(mu)):
                        for d in range(len(ev)):
                            for e in D:
                                yield (k, [['e', a], ['d', b], ['m', c], ['e', d], ['d', e]])


def chk_direct(case, st):
    k, seq = case
    rp, mp = build(k)
    c, m = rp[-1], mp[-1]
    done, last = [], None
    for w, i in seq:
        op = (DIRECT[k] if w == 'd' else MENU[k][1] if w == 'e' else MENU[k][2])[i]
        done.append(op)
        st.transitions += 1
        if w != 'd':
            if op[0] == 'term' and op[1] not in m.terms and op[1] not in m.free:
                return
            apply_real(c, op, rp)
            apply_model(m, op, mp)
            if w == 'e':
                last = op[1] if len(op) > 1 else f1
            continue
        if op[0] == 'table':
            r, q = rp[op[1]], mp[op[1]]
            r.setS(r.fs, [smat(op[2], 3, f) for f in r.fs])
            q.s['id'] = op[2]
        elif op[0] == 'in':
            o = ['add', op[3], op[4]] if op[2] == 'add' else ['term', *op[2:]]
            if o[0] == 'term' and (o[1] not in mp[op[1]].terms):
                return
            apply_real(rp[op[1]], ('repl', *o[1:]) if o[0] == 'add' else o, rp)
            apply_model(mp[op[1]], ('repl', *o[1:]) if o[0] == 'add' else o, mp)
        else:
            r, q = (rp[op[1]], mp[op[1]]) if op[0] == 'pool' else (c.object(op[1]), get(m, op[1]))
            if isinstance(q, Net):
                r.set(op[2], op[3])
                q.set(op[2], op[3])
            else:
                r.set(**{op[2]: op[3]})
                q.set(**{op[2]: op[3]})
    observe(c, m, st, int(last == f2), f'after {done}: ')


def families(tier):
    d = {'A': 3, 'B': 3, 'C': 3} if tier == 'quick' else {'A': 4, 'B': 4, 'C': 4}
    fams = [Family(f'histories-{k}', (lambda k=k: histories(k, tier, d[k])), chk(k),
                   f'all sequences of <= {d[k]} operations of a menu of {len(MENU[k][1])} evaluations '
                   f'and {len(MENU[k][2])} changes (from length 3 on: the last one is a change and no two '
                   'evaluations in a row but the first two)') for k in MENU]
    return fams + [
        Family('frequencies', lambda: frequencies(tier), chk_freq,
               'all orders of 3 evaluations at 3 frequencies x 3 impedance orders of the catalogue'),
        Family('narrow', lambda: narrow(tier), chk_narrow,
               'relative steps of 1e-2..1e-9 of the frequency, the impedance or a parameter between two evaluations of lines, '
               'resonators, couplers and circuits of depth <= 2; any change of the answer must be followed'),
        Family('touchstone', lambda: touch(tier), chk_touch,
               'circuits that have a touchstone of themselves (flat, on top of or inside another one): all sequences '
               'of <= 2 (thorough 3) of getS/Solution/maxV/solve with and without the table at 2 frequencies and set'),
        Family('several', lambda: several(tier), chk_several,
               'all ordered choices of attributes of a resonator, each with the value it has or a new one, and of a line, '
               'in one call of 7 kinds, at depth 0..2, after 0..2 evaluations'),
        Family('flags', lambda: flagged(tier), chk_flagged,
               'circuits of which the touchstone differs from the blocks: all sequences of <= 3 (thorough 4) getS with '
               'the table, without it or without flags, 2 frequencies, 2 impedances, new dicts or one that is modified'),
        Family('construction', lambda: builds(tier), chk_build,
               'the networks of the catalogue, extended by 6 more operations: evaluations after one, any two (thorough: '
               'three) or all of the operations, of 4 kinds, and of the blocks before they are used'),
        Family('terminations', lambda: again(tier), chk_again,
               'all sequences of <= 5 (thorough 6) evaluations, extensions and (new) terminations of a 4-port in a '
               'circuit, alone and after another block'),
        Family('direct', lambda: direct(tier), chk_direct,
               'changes made on an object of a circuit itself (parameters, tables, terminations and blocks of a nested '
               'circuit): evaluation, change, each with another change before or after, and twice in a row'),
        Family('elements', lambda: els(tier), chk_els, 'set/params histories of the elements'),
    ]
