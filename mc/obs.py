"""observations of a real circuit compared with the reference model"""
import numpy as np
from .engine import Violation
from .ref import *

EXC = [1.0, 0.6 - 0.8j, -0.3 + 0.2j, 0.5j, 0.7, -1., 0.25 + 1j, 0.1, 0.9j, -0.4, 0.33, 0.2 - 0.6j, 1.1,
       0.8, 0.45j]


def excite(ports, k=0):
    """k=0: all ports, different complex values; k>0: unit excitation of port k-1"""
    ps = sorted(ports)
    if k == 0:
        return {q: EXC[i % len(EXC)] for i, q in enumerate(ps)}
    return {q: (1. if i == k - 1 else 0.) for i, q in enumerate(ps)}


def amp(E):
    """scale of an excitation"""
    return max([abs(v) for v in E.values()] or [0.]) or 1.


def obs_S(c, m, f, Z=None, st=None, tol=1e-7, sol=None, what=''):
    """raises Ill when the model has no answer"""
    sol = sol or m.solve(f, Z)
    G = c.getS(f) if Z is None else c.getS(f, Zbase=Z)
    if sorted(c.ports) != sorted(m.free):
        raise Violation(f'{what}ports {c.ports}, expected {m.free}')
    R = sol.perm(c.ports)
    if not close(G, R, tol):
        raise Violation(f'{what}getS(f={f}, Zbase={Z}) is\n{np.round(G, 5)}\nexpected\n{np.round(R, 5)}\n'
                        f'for ports {c.ports}')
    if st is not None:
        st.checks += 1
        st.state('S', rnd(R))
        st.outcome(rnd(R, 3))


def obs_sol(c, m, f, E, Z=None, nodes=None, st=None, tol=1e-7, what=''):
    sol = m.solve(f, Z)
    ref, _ = sol.at(E)
    kw = {} if Z is None else {'Zbase': Z}
    if nodes is not None:
        kw['nodes'] = list(nodes)
    G = c.Solution(f, dict(E), **kw)
    need = list(ref) if nodes is None else \
        list(nodes) + [q for q in ref if q in [w[2:] for w in c.waves]]
    sc = max([1e-3 * amp(E)] + [abs(v[0]) for v in ref.values()])
    if nodes is None and set(G) - set(ref):
        raise Violation(f'{what}Solution has unknown nodes {sorted(set(G) - set(ref))[:5]}')
    for q in need:
        if q not in G:
            raise Violation(f'{what}Solution(f={f}, Zbase={Z}, nodes={nodes}) lacks node {q}')
    for q, v in G.items():
        if q not in ref:
            raise Violation(f'{what}unknown node {q} in the solution')
        g = np.array([v[0], v[1] * 50, v[2], v[3]])
        r = np.array([ref[q][0], ref[q][1] * 50, ref[q][2], ref[q][3]])
        if not np.all(np.isfinite(g)) or np.max(np.abs(g - r)) > tol * max(sc, np.max(np.abs(r))) * 10:
            raise Violation(f'{what}Solution(f={f}, E={E}, Zbase={Z}, nodes={nodes}) node {q}: '
                            f'V, 50 I, Vf, Vr = {np.round(g, 5)} expected {np.round(r, 5)}')
    if st is not None:
        st.checks += 1
        st.state('V', rnd([ref[q][0] for q in sorted(ref)]))
        st.outcome(rnd([ref[q][0] for q in sorted(ref)], 3))
    return ref


def obs_int(c, m, f, nodes, Z=None, st=None, tol=1e-6, what=''):
    """Get_internalSmatrix"""
    sol = m.solve(f, Z)
    A, B = [], []
    for k in range(len(sol.ports)):
        ref, _ = sol.at({q: (1. if i == k else 0.) for i, q in enumerate(sol.ports)})
        a, b = [], []
        for n in nodes:
            v = ref[n.lstrip('<')]
            a.append(v[3] if n[0] == '<' else v[2])
            b.append(v[2] if n[0] == '<' else v[3])
        A.append(a)
        B.append(b)
    A, B = np.array(A).T, np.array(B).T
    if A.shape[0] > A.shape[1]:
        return False
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] < 1e-4 * s[0]:
        return False                       # the waves do not determine the matrix
    R = B @ np.linalg.pinv(A)
    if np.max(np.abs(R @ A - B)) > 1e-9 * max(1, np.max(np.abs(B))):
        return False                       # the nodes do not form an N-port of their own
    G = c.Get_internalSmatrix(f, list(nodes)) if Z is None else \
        c.Get_internalSmatrix(f, list(nodes), Zbase=Z)
    if not close(G, R, tol):
        raise Violation(f'{what}Get_internalSmatrix(f={f}, {nodes}, Zbase={Z}) is\n{np.round(G, 5)}\n'
                        f'expected\n{np.round(R, 5)}')
    if st is not None:
        st.checks += 1
        st.state('I', rnd(R), tuple(nodes))
        st.outcome(rnd(R, 3))
    return True


def line_V(el, f, V1, I1, s, ov=None):
    """voltage at the distances s from port 1"""
    z, y = el.zy(f)
    g = np.sqrt(z * y + 0j)
    if abs(g) == 0:
        return V1 - z * I1 * np.asarray(s)
    Zc = z / g
    return V1 * np.cosh(g * s) - Zc * I1 * np.sinh(g * s)


def true_max(sol, x):
    """largest voltage over all nodes and all points of the lines (dense sampling)"""
    v = max(abs(x[iv]) for iv, ii in sol.sy.own.values())
    for path, o, vs, ov, pos, d in sol.sy.els:
        if o.t == 'TRL':
            L = dict(o.p, **ov)['L']
            s = np.linspace(0, L, 4001)
            v = max(v, np.max(np.abs(line_V(o, sol.f, x[vs[0][0]], x[vs[0][1]] / SC, s))))
    return v


def obs_maxV(c, m, f, E, Z=None, st=None, tol=1e-6, pos=True, what=''):
    sol = m.solve(f, Z)
    ref, x = sol.at(E)
    kw = {} if Z is None else {'Zbase': Z}
    vm, where, tree = c.maxV(f, dict(E), **kw)
    vt = true_max(sol, x)
    w = f'{what}maxV(f={f}, E={E}, Zbase={Z})'
    if not (abs(vm - vt) <= 5e-3 * vt + 1e-9 * amp(E)):
        raise Violation(f'{w} is {vm} at {where}, expected {vt}')
    if list(tree) != [c.Id]:
        raise Violation(f'{w}: top of the tree is {list(tree)}')
    nv = walk(tree[c.Id], m, '', 0., ref, sol, x, tol, pos, w, {})
    if not nv <= vm * (1 + 1e-9) + 1e-12 * amp(E):
        raise Violation(f'{w} is {vm} but the tree has a voltage of {nv}')
    if st is not None:
        st.checks += 1
        st.state('M', round(float(vt), 4))
        st.outcome(round(float(vt), 3))


def cmpV(w, name, xs, vs, xr, vr, tol, pos, sc):
    vs = np.asarray(vs, dtype=float)
    if np.shape(vs) != np.shape(vr) or np.shape(xs) != np.shape(vs):
        raise Violation(f'{w}: entry {name} has shapes {np.shape(xs)} {np.shape(vs)}, expected {np.shape(vr)}')
    if not np.all(np.abs(vs - np.abs(vr)) <= tol * sc):
        raise Violation(f'{w}: entry {name} has voltages {vs}, expected {np.abs(vr)}')
    if pos and not np.allclose(np.asarray(xs, dtype=float), xr, rtol=0, atol=1e-9):
        raise Violation(f'{w}: entry {name} has positions {xs}, expected {xr}')


def walk(t, net, prefix, x0, ref, sol, x, tol, pos, w, ov):
    """compares a voltage tree; returns the largest value in it"""
    top = max(max(abs(v[0]), abs(v[2])) for v in ref.values()) or 1.
    sc = max(1e-3 * top, max(abs(v[0]) for v in ref.values()))
    els = {path: (o, vs, o_ov, px, d) for path, o, vs, o_ov, px, d in sol.sy.els}
    own = {}
    for b, d in net.blocks.items():
        for q in d['ports']:
            own[f'{b}.{q}'] = None
    for q in net.ref:
        own[q] = None
    blks = [b for b, d in net.blocks.items() if not d['obj'].arr]
    if set(t) != set(own) | set(blks):
        raise Violation(f'{w}: tree {prefix or "<top>"} has entries {sorted(t)}, '
                        f'expected {sorted(list(own) + blks)}')
    mx = 0.
    for q in own:
        cmpV(w, prefix + q, t[q][0], t[q][1], [x0 + net.pos(q)], [x[sol.sy.own[prefix, q][0]]], tol, pos, sc)
        mx = max(mx, t[q][1][0])
    for b in blks:
        d = net.blocks[b]
        o = d['obj']
        e = t[b]
        px = x0 + d['relpos']
        if isinstance(o, Net):
            mx = max(mx, walk(e, o, prefix + b + '.', px, ref, sol, x, tol, pos, w, {}))
            continue
        o, vs, o_ov, _, _ = els[prefix + b]
        pv = [x[v[0]] for v in vs]
        if o.t == 'TRL':
            L = dict(o.p, **o_ov)['L']
            if not isinstance(e, tuple) or len(e) != 2 or len(e[0]) != len(e[1]) or len(e[0]) < 2:
                raise Violation(f'{w}: entry {prefix}{b} is no line profile')
            xs = np.asarray(e[0], dtype=float)
            xp = np.array(o.xpos) + px
            if len(o_ov) and 'L' in o_ov:
                xp[1] = xp[0] + L
            if pos and (abs(xs[0] - xp[0]) > 1e-9 or abs(xs[-1] - xp[1]) > 1e-9 or
                        np.any(np.diff(xs) * (np.sign(xp[1] - xp[0]) or 1) < -1e-12)):
                raise Violation(f'{w}: profile of {prefix}{b} extends over {xs[0]}..{xs[-1]}, '
                                f'expected {xp}')
            fr = (xs - xs[0]) / (xs[-1] - xs[0]) if xs[-1] != xs[0] else np.linspace(0, 1, len(xs))
            V = line_V(o, sol.f, x[vs[0][0]], x[vs[0][1]] / SC, fr * L)
            cmpV(w, prefix + b, xs, e[1], xs, V, tol * 10, False, sc)
            # dense enough to show the standing wave
            z, y = o.zy(sol.f)
            lam = 2 * np.pi / max(1e-12, abs(np.imag(np.sqrt(z * y + 0j))))
            if np.max(np.abs(np.diff(fr))) * abs(L) > lam / 12:
                raise Violation(f'{w}: profile of {prefix}{b} is sampled too coarsely ({len(xs)} points)')
            mx = max(mx, np.max(e[1]))
        elif o.t in ('RLC',) or (o.t == 'S' and o.s.get('cls', 'obj') == 'obj'):
            cmpV(w, prefix + b, e[0], e[1], np.array(o.xpos) + px, pv, tol, pos, sc)
            mx = max(mx, np.max(e[1]))
        else:
            if not isinstance(e, dict) or set(e) != set(o.ports):
                raise Violation(f'{w}: entry {prefix}{b} is {e}, expected ports {o.ports}')
            for q, xq, v in zip(o.ports, o.xpos, pv):
                cmpV(w, f'{prefix}{b}/{q}', e[q][0], e[q][1], [px + xq], [v], tol, pos, sc)
                mx = max(mx, e[q][1][0])
    return mx


def obs_pos(c, m, st=None, what=''):
    """positions of ports and nodes"""
    for q, x in zip(c.ports, c.xpos):
        if abs(x - m.pos(q)) > 1e-9:
            raise Violation(f'{what}xpos of port {q} is {x}, expected {m.pos(q)}')
    if len(c.xpos) != len(c.ports):
        raise Violation(f'{what}{len(c.xpos)} positions for {len(c.ports)} ports')

    def nodes(net, prefix):
        for b, d in net.blocks.items():
            for q in d['ports']:
                yield f'{prefix}{b}.{q}'
            if isinstance(d['obj'], Net):
                yield from nodes(d['obj'], f'{prefix}{b}.')
        for q in net.ref:
            yield prefix + q
    for q in nodes(m, ''):
        x = c.getpos(q)
        if abs(x - m.pos(q)) > 1e-9:
            raise Violation(f'{what}getpos({q}) is {x}, expected {m.pos(q)}')
    if st is not None:
        st.checks += 1
        st.state('P', rnd([m.pos(q) for q in c.ports]), tuple(c.ports))
        st.outcome(rnd([m.pos(q) for q in c.ports]))


def obs_all(c, m, st, fs=(FS[0],), Z=20., what='', pos=True, only=('S', 'V', 'M', 'P')):
    """every observation; ill posed networks are counted and skipped"""
    try:
        for f in fs:
            if 'S' in only:
                obs_S(c, m, f, None, st, what=what)
                obs_S(c, m, f, Z, st, what=what)
            if 'V' in only:
                obs_sol(c, m, f, excite(m.free), Z, None, st, what=what)
            if 'M' in only:
                obs_maxV(c, m, f, excite(m.free), None, st, pos=pos, what=what)
            if 'P' in only and pos:
                obs_pos(c, m, st, what=what)
    except Ill:
        st.skipped += 1
