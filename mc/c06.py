"""C06: de-embedding undoes embedding."""
import itertools, copy
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import *
from . import c01

PROP = 'C06'
ASSUME = c01.ASSUME + ['the embedding networks are invertible (no isolated ports)']


def inv(id, n):
    """a network that can be removed: dominant transmission between its ports"""
    return {f: _inv(id, n, f) for f in FS}


def _inv(id, n, f):
    S_ = 0.25 * smat(id, n, f)
    h = n // 2
    for i in range(h):
        S_[i, h + i] += 0.8 * np.exp(1j * (id + f / 30e6))
        S_[h + i, i] += 0.7 * np.exp(-1j * (2 * id + f / 50e6))
    return S_


# --- circuits:  M = D + F,  then  M - F = D
def circ(tier):
    for nd in (1, 2, 3):
        for kint in (1, 2):
            if kint > nd:
                continue
            for dp in itertools.permutations(range(1, nd + 1), kint):
                nf = 2 * kint
                fp = list(itertools.permutations(range(1, nf + 1), kint)) if kint == 1 else \
                    [(1, 2), (2, 1), (1, 4), (3, 2), (4, 3)]
                for fi in fp:
                    for form in ('dict', 'list'):
                        for zi in range(4 if tier != 'quick' else 2):
                            for how in ('nested', 'array', 'object'):
                                for extra in (None, 'term', 'con', 'obj3'):
                                    yield (nd, kint, dp, fi, form, zi, how, extra)


ZBS = [(50., 50., 50., 50.), (30., 75., 20., 110.), (50., 20., 50., 33.), (90., 50., 33., 50.)]


def embed_specs(case):
    nd, kint, dp, fi, form, zi, how, extra = case
    zd, zf, zm, zt = ZBS[zi]
    nf = 2 * kint
    # the internal ports face the other half of the network
    half = kint
    fe = []
    for q in fi:
        fe.append(q + half if q <= half else q - half)
    if len(set(fi) | set(fe)) != 2 * kint:
        return None
    D = S(nd, 3, zd)
    Fn = S(nf, inv(5, nf), zf)
    mops = [['add', 'D', 0], ['add', 'F', 1]]
    for a, b in zip(dp, fi):
        mops.append(['con', [f'D.{a}', f'F.{b}']])
    for b in fe:
        mops.append(['con', [f'F.{b}', f'e{b}']])
    for a in range(1, nd + 1):
        if a not in dp:
            mops.append(['con', [f'D.{a}', f'd{a}']])
    M = CT(mops, Zb=zm)
    return D, Fn, M, fe


def chk_circ(case, st):
    import pyRFtk as rf
    nd, kint, dp, fi, form, zi, how, extra = case
    e = embed_specs(case)
    if e is None:
        st.skipped += 1
        return
    D, Fn, M, fe = e
    zt = ZBS[zi][3]
    pool = [D, Fn, M]
    rp = real_pool(pool)
    mp = model_pool(pool)
    mports = mp[2].ports
    names = [q for q in mports]
    if how == 'array':
        Mr = np.array(rp[2].getS(FS[0], Zbase=zt))
        pm = list(rp[2].ports)
    elif how == 'object':
        Mr = rf.rfObject(ports=list(rp[2].getS(FS[0]) is not None and rp[2].ports), Zbase=64., funit='Hz')
        for f in FS:
            Mr.setS(f, rp[2].getS(f, Zbase=64.))
        pm = None
    else:
        Mr, pm = rp[2], None
    c = rf.rfCircuit(Zbase=zt)
    if how == 'array':
        c.addblock('M', Mr, ports=pm)
    else:
        c.addblock('M', Mr)
    c.addblock('F', rp[1])
    if extra == 'obj3':         # other blocks before and after
        c.addblock('X', rp[0] if nd == 3 else rf.rfObject(np.array([[.2, .1], [.3, .4j]]), Zbase=20.))
    Int = [(f'F.{b}', f'i{a}') for a, b in zip(dp, fi)]
    Ext = [(f'M.e{b}', f'F.{b}') for b in fe]
    if form == 'dict':
        Int, Ext = dict(Int), dict(Ext)
    else:
        Ext = [(b, a) for a, b in Ext]
    c.deembed(copy.copy(Int), copy.copy(Ext))
    st.transitions += 4 + kint
    # what is left is D with other names
    D2 = Net(zt)
    D2.add('D', mp[0])
    ren = {}
    for a in range(1, nd + 1):
        ren[f'D.{a}'] = f'i{a}' if a in dp else f'M.d{a}'
    want = sorted(ren.values())
    if extra == 'term' and nd > 1:
        p = ren[f'D.{dp[0]}']
        c.terminate(p, Z=20 + 10j)
        D2.term(f'D.{dp[0]}', 'Z', 20 + 10j)
        want.remove(p)
    elif extra == 'con':
        p = ren[f'D.{dp[-1]}']
        c.connect('new', p)
        want.remove(p)
        want.append('new')
        ren[f'D.{dp[-1]}'] = 'new'
    got = [q for q in c.ports if not q.startswith('X.')]
    if sorted(got) != sorted(want):
        raise Violation(f'{case}: ports {c.ports}, expected {want}')
    for f in (FS[:1] if how == 'array' else FS[:2]):
        for Z in (None, 20.):
            try:
                R = D2.solve(f, Z)
                mp[2].wellposed(f, {zt})
            except Ill:
                st.skipped += 1
                continue
            G = c.getS(f) if Z is None else c.getS(f, Zbase=Z)
            back = {v: k for k, v in ren.items()}
            k = [c.ports.index(q) for q in got]
            r = R.perm([back[q] for q in got])
            g = G[np.ix_(k, k)]
            if not close(g, r, 1e-6):
                raise Violation(f'{case} f={f} Zbase={Z}: de-embedded\n{np.round(g, 5)}\n'
                                f'expected\n{np.round(r, 5)}')
            st.checks += 1
            st.state(rnd(r))
            st.outcome(rnd(r, 3))
            st.transitions += 1
    if extra is None and how != 'array':
        # positions and voltages of the remaining ports
        E = excite(c.ports)
        sol = c.Solution(FS[0], E)
        R = D2.solve(FS[0])
        ref, _ = R.at({back_: E[ren[back_]] for back_ in R.ports})
        for k, v in ren.items():
            if abs(sol[v][0] - ref[k][0]) > 1e-6 * max(1, abs(ref[k][0])):
                raise Violation(f'{case}: voltage of {v} is {sol[v][0]}, expected {ref[k][0]}')
        if len(c.xpos) != len(c.ports):
            raise Violation(f'{case}: {len(c.xpos)} positions for {len(c.ports)} ports')
        st.checks += 1


# --- two networks at two ports, one after the other or at once
def twice(tier):
    for a, b in itertools.permutations((1, 2, 3), 2):
        for once in (False, True):
            for s1, s2 in itertools.product((1, 2), repeat=2):
                for same in (False, True):
                    yield (a, b, once, s1, s2, same)


def chk_twice(case, st):
    import pyRFtk as rf
    a, b, once, s1, s2, same = case
    Fs = [S(2, inv(5, 2), 75.), S(2, inv(7, 2), 20.)]
    if same:
        Fs[1] = Fs[0]
    pool = [S(3, 3, 30.)] + Fs
    o1, o2 = 3 - s1, 3 - s2
    M = CT([['add', 'D', 0], ['add', 'F', 1], ['add', 'F1', 1 if same else 2],
            ['con', [f'D.{a}', f'F.{s1}']], ['con', [f'D.{b}', f'F1.{s2}']]], Zb=60.)
    rp = real_pool(pool + [M])
    mp = model_pool(pool)
    c = rf.rfCircuit(Zbase=45.)
    c.addblock('M', rp[3])
    c.addblock('F', rp[1])
    c.addblock('F1', rp[1] if same else rp[2])
    I = [(f'F.{s1}', 'x'), (f'F1.{s2}', 'y')]
    E = [(f'M.F.{o1}', f'F.{o1}'), (f'F1.{o2}', f'M.F1.{o2}')]
    if once:
        c.deembed(dict(I), dict(E))
    else:
        c.deembed(I[:1], E[:1])
        c.deembed(IntPorts=dict(I[1:]), ExtPorts=E[1:])
    st.transitions += 5
    r = ({1, 2, 3} - {a, b}).pop()
    D2 = Net(45.)
    D2.add('D', mp[0])
    back = {'x': f'D.{a}', 'y': f'D.{b}', f'M.D.{r}': f'D.{r}'}
    if sorted(c.ports) != sorted(back):
        raise Violation(f'{case}: ports {c.ports}')
    for f in FS[:2]:
        G, R = c.getS(f), D2.solve(f).perm([back[q] for q in c.ports])
        if not close(G, R, 1e-6):
            raise Violation(f'{case}: {np.round(G, 4)} expected {np.round(R, 4)}')
        st.checks += 1
        st.state(rnd(R))
        st.outcome(rnd(R, 3))


# --- arbitrary pairings against the tableau (physical meaning of the equations)
def pairings(tier):
    base = ['A.1', 'A.2', 'A.3', 'B.1', 'B.2']
    for dp in base:
        yield ([(dp, 'i')], [])
        rest = [q for q in base if q != dp]
        for x, y in itertools.permutations(rest, 2):
            yield ([(dp, 'i')], [(x, y)])
        if tier != 'quick':
            for x, y in itertools.permutations(rest, 2):
                yield ([(dp, 'i'), (x, 'k')], [(y, [q for q in rest if q not in (x, y)][0])])


AFTER = {
    'term': [['term', 'i', 'Z', 20. + 10j]],
    'name': [['con', ['i', 'z']]],
    'use': [['add', 'C', 2, None, 7.], ['con', ['C.2', 'i', 'z']]],
    'use2': [['add', 'C', 2, None, 7.], ['con', ['i', 'C.1']], ['term', 'C.2', 'Y', .02]],
    'chain': [['con', ['i', 'z']], ['add', 'C', 2, None, 7.], ['con', ['z', 'C.1', 'y']], ['term', 'y', 'RC', .3]],
}


def used(tier):
    """the circuit is used further after the de-embedding, with evaluations before/between"""
    for I, E in pairings(tier):
        for k in AFTER:
            for ev in ('', 'b', 'a', 'ba'):
                yield (I, E, k, ev)


def chk_used(case, st):
    I, E, k, ev = case
    specs = [S(3, 1, 30., xpos=[.1, .3, .7]), S(2, 6, 70., xpos=[.5, 1.75]), S(2, 7, 20.), CT([], Zb=45.)]
    rp, mp = real_pool(specs), model_pool(specs)
    c, m = rp[-1], mp[-1]

    def do(op):
        real_op(c, op, rp)
        model_op(m, op, mp)
        st.transitions += 1
    for op in [['add', 'A', 0, None, 1.], ['add', 'B', 1, None, 3.]]:
        do(op)
    if 'b' in ev:
        c.getS(FS[0])
    do(['deem', I, E])
    if 'a' in ev:
        try:
            obs_S(c, m, FS[1], None, st)
        except (Ill, np.linalg.LinAlgError):
            st.skipped += 1
            return
    for op in AFTER[k]:
        do(op)
        obs_pos(c, m, st, f'{case} after {op}: ')
    if sorted(c.ports) != sorted(m.free):
        raise Violation(f'{case}: ports {c.ports}, expected {m.free}')
    if not m.free:
        return
    obs_all(c, m, st, FS[:2], what=f'{case}: ')


def chk_pair(case, st):
    I, E = case
    specs = [S(3, 1, 30.), S(2, 6, 70.), CT([['add', 'A', 0, None, 1.], ['add', 'B', 1, None, 3.],
                                             ['deem', I, E]], Zb=45.)]
    c, m = real_pool(specs)[-1], model_pool(specs)[-1]
    try:
        for f in FS[:2]:
            obs_S(c, m, f, None, st)
            obs_S(c, m, f, 20., st)
            obs_sol(c, m, f, excite(m.free), None, None, st)
        obs_pos(c, m, st)
    except Ill:
        st.skipped += 1
    st.transitions += 6


# --- tabulated data
UN = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}
FORMS = [('scalar', .7), ('scalar', -1.3), ('int', 2), ('tuple', (.9, 30.)), ('tuple', (-.4, 120.)),
         ('dict', dict(L=-.6, Z0TL=45.)), ('dict', dict(L=.5, Z0TL=80., vr=.7)),
         ('dict', dict(L=-.8, LTL=2.5e-7, CTL=1e-10, rTL=3.)), ('dict', dict(L=-.3, Z0TL=20., Zbase=77.))]


def tab(tier):
    for n in (1, 2, 3):
        for sub in itertools.chain.from_iterable(
                itertools.combinations(range(n), r) for r in range(0, n + 1)):
            for forms in itertools.product(range(len(FORMS)), repeat=min(len(sub), 2)):
                for Zb in (50., 20.):
                    for u in UN:
                        if len(sub) > 1 and u != 'MHz' and tier == 'quick':
                            continue
                        yield (n, sub, forms, Zb, u)


def line_el(form, Zb):
    """the line that is *added* to the port"""
    k, v = form
    if k in ('scalar', 'int'):
        return TRL(-v, Zb, Zb)
    if k == 'tuple':
        return TRL(-v[0], v[1], Zb)
    d = dict(t='TRL', L=v['L'], Zb=Zb)
    if 'LTL' in v:
        d['LCRG'] = (v['LTL'], v['CTL'], v.get('rTL', 0.), 0.)
    else:
        d['Z0'] = v['Z0TL']
        if 'vr' in v:
            d['vr'] = v['vr']
    return d


def chk_tab(case, st):
    import pyRFtk as rf
    n, sub, forms, Zb, u = case
    ports = ['b', 'a', 'c'][:n]
    mats = {f: smat(4, n, f) for f in FS}
    o = rf.rfObject(ports=list(ports), Zbase=Zb, funit=u, xpos=[.1 * i for i in range(n)])
    for f in FS[::-1]:
        o.setS(f / UN[u], mats[f])
    o.getS(40e6 / UN[u])
    arg, lines = {}, {}
    for i, k in enumerate(sub):
        fm = FORMS[forms[i % len(forms)]]
        arg[ports[k]] = copy.deepcopy(fm[1])
        lines[k] = line_el(fm, Zb)
    keep = copy.deepcopy(arg)
    o.deembed(arg)
    st.transitions += len(FS) + 1
    if arg != keep:
        raise Violation(f'{case}: the argument became {arg}')
    net = Net(Zb)
    net.add('O', El(S(n, mats, Zb)))
    for k, l in lines.items():
        net.add(f'L{k}', El(l))
        net.con([f'O.{k + 1}', f'L{k}.1'])
    order = [f'L{k}.2' if k in lines else f'O.{k + 1}' for k in range(n)]
    new = {}
    for f in FS:
        try:
            R = net.solve(f).perm(order)
        except Ill:
            st.skipped += 1
            return
        new[f] = R
        G = o.getS(f / UN[u])
        if not close(G, R, 1e-8):
            raise Violation(f'{case} f={f}:\n{np.round(G, 5)}\nexpected\n{np.round(R, 5)}')
        st.checks += 1
        st.state(rnd(R))
        st.outcome(rnd(R, 3))
    if list(o.ports) != ports or not np.allclose(o.xpos, [.1 * i for i in range(n)]) or o.Zbase != Zb \
            or len(o.fs) != len(FS):
        raise Violation(f'{case}: ports/positions/frequencies changed: {o.ports} {o.xpos} {o.Zbase}')
    # interpolated values come from the new data
    o2 = rf.rfObject(ports=list(ports), Zbase=Zb, funit=u)
    for f in FS:
        o2.setS(f / UN[u], new[f])
    if not close(o.getS(50e6 / UN[u]), o2.getS(50e6 / UN[u]), 1e-6):
        raise Violation(f'{case}: interpolates other data than the de-embedded')
    # and back
    back = {}
    for p, v in keep.items():
        back[p] = (-v if not isinstance(v, (tuple, dict)) else (-v[0], v[1]) if isinstance(v, tuple)
                   else dict(v, L=-v['L']))
    o.deembed(back)
    for f in FS:
        if not close(o.getS(f / UN[u]), mats[f], 1e-8):
            raise Violation(f'{case} f={f}: there and back is not the identity')
        st.checks += 1
    st.transitions += 1


# --- lines that resonate with the port they are removed from
def reson(tier):
    K = range(-8, 9) if tier == 'quick' else range(-16, 17)
    for n in (1, 2):
        for Z0 in (2., 50., 1000.):
            for k in K:
                for m in (0., .9, .99, .999):
                    for a in range(8 if m else 1):
                        for form in ('tuple', 'dict'):
                            yield (n, Z0, k, m, a, form)


def chk_reson(case, st):
    import pyRFtk as rf
    n, Z0, k, m, a, form = case
    f, Zb = 40e6, 50.
    s = m * np.exp(2j * np.pi * a / 8)
    M = np.array([[s]]) if n == 1 else np.array([[.1, .02 + .01j], [.03j, s]])
    L = k * 299792458. / f / 8
    o = rf.rfObject(ports=['b', 'a'][:n], Zbase=Zb, funit='Hz')
    o.setS(f, M)
    net = Net(Zb)
    net.add('O', El(S(n, {f: M}, Zb)))
    net.add('L', El(TRL(-L, Z0, Zb)))
    net.con([f'O.{n}', 'L.1'])
    order = ['L.2'] if n == 1 else ['O.1', 'L.2']
    try:
        R = net.solve(f).perm(order)
    except Ill:
        st.skipped += 1
        return
    if np.max(np.abs(R)) > 1e6:
        st.skipped += 1
        return
    o.deembed({'ab'[n == 1]: (L, Z0) if form == 'tuple' else dict(L=-L, Z0TL=Z0)})
    G = o.getS(f)
    if not close(G, R, 1e-7 * max(1., np.max(np.abs(R))) ** 2):
        raise Violation(f'{case}:\n{G}\nexpected\n{R}')
    st.checks += 1
    st.transitions += 2
    st.state(rnd(R))
    st.outcome(rnd(R, 3))


def families(tier):
    return [
        Family('resonant', lambda: reson(tier), chk_reson,
               'lines of 3 impedances and k/8 (k/16) wavelengths removed from ports of reflection 0 to .999 and 8 phases'),
        Family('circuits', lambda: circ(tier), chk_circ,
               'D 1..3 ports, F 2/4 ports, all assignments, impedances, forms, following operations'),
        Family('twice', lambda: twice(tier), chk_twice, 'two networks removed at once or in turn'),
        Family('pairings', lambda: pairings(tier), chk_pair, 'all pairings against the tableau'),
        Family('used', lambda: used(tier), chk_used,
               'all pairings, the new port then named, joined and terminated in 5 ways, 4 choices of evaluations between'),
        Family('tables', lambda: tab(tier), chk_tab,
               'port subsets x 9 line forms x impedances x 4 frequency units'),
    ]
