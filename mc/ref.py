"""Independent reference model of the networks (no pyRFtk code is used here).

A network is described by a *spec*:

    pool : list of object specs, an object may refer to earlier objects by index
      {'t':'S',  'n':2, 'id':3, 'Zb':30., 'cls':'obj'|'base'|'arr', 'ports':[..], 'xpos':[..]}
      {'t':'TRL','L':..,'Z0':..|'LCRG':(l,c,r,g), 'Zb':.., 'ports':.., 'xpos':..}
      {'t':'RLC','p':{..},'Zb':..}   {'t':'CPL','kc':..,'Lc':..,'Zb':..}   {'t':'ARC','Larc':..}
      {'t':'CT', 'Zb':.., 'Portnames':[..], 'ops':[...], 'Id':..}
    ops  : ['add', name, poolindex, portsarg, relpos, params]
           ['con', [ports]]    ['term', port, kind, value]    ['deem', int, ext]

The same interpreter drives the model and the real code.  The model is a tableau
in the voltages and the currents of all the ports: each element contributes
P V + Q I = 0, a junction equal voltages and a zero sum of the currents, a
termination V + Z I = 0; it is solved with a dense solver.
"""
import copy, math
import numpy as np
from scipy.linalg import expm

C0 = 299792458.0
MU0 = 4e-7 * math.pi
FS = [35e6, 48e6, 61e6]                    # the frequencies of the tables
SC = 50.                                    # scaling of the currents


class Ill(Exception):
    """the network has no (well conditioned) solution"""


# ------------------------------------------------------------------ S-matrices
def smat(id, n, f):
    """deterministic, non-reciprocal, frequency dependent matrices"""
    if isinstance(id, dict):
        return np.array(id[f], dtype=complex)
    if isinstance(id, np.ndarray):
        return id
    if id == 'zero':
        return np.zeros((n, n), dtype=complex)
    if id == 'thru':
        return np.eye(n, dtype=complex)[::-1]
    if isinstance(id, str) and id[0] in 'rlp':       # r:reciprocal l:lossless p:passive
        k = int(id[1:])
        K = np.array([[math.sin(1.7 * k + 2.3 * (i + j) + 0.9 * i * j + f / 47e6)
                       for j in range(n)] for i in range(n)])
        L = np.linalg.solve(np.eye(n) + 1j * K, np.eye(n) - 1j * K)   # unitary, symmetric
        if id[0] == 'l':
            return L
        if id[0] == 'r':
            return 0.8 * L * np.exp(0.3j) + 0.05 * np.ones((n, n))
        G = np.diag([0.55 + 0.4 * math.cos(i + k) ** 2 for i in range(n)])
        Q = np.roll(np.eye(n), 1, axis=0)
        return L @ G @ Q                              # passive, not reciprocal
    S = np.empty((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            a = 0.2 + 0.6 * abs(math.sin(3.1 * id + 1.3 * i + 2.9 * j + 0.7 * i * j)) / max(1, n - 1)
            ph = 0.9 * id + 2.1 * i - 1.7 * j + (1 + 0.3 * i) * f / 20e6
            S[i, j] = a * complex(math.cos(ph), math.sin(ph))
    return S


# ------------------------------------------------------------------------ model
class El:
    """a primitive element"""
    def __init__(self, spec):
        self.t = spec['t']
        self.s = dict(spec)
        self.Zb = spec.get('Zb', 50.)
        self.p = {}
        d = {'S': None, 'TRL': ['1', '2'], 'RLC': ['s', 'p'],
             'CPL': ['A1', 'A2', 'B1', 'B2'], 'ARC': ['1']}[self.t]
        if self.t == 'S':
            d = [str(k) for k in range(1, spec['n'] + 1)]
        self.arr = self.t == 'S' and spec.get('cls') == 'arr'
        self.ports = list(spec.get('ports', d))
        if self.t == 'RLC':
            self.p = dict(Rs=0., Ls=0., Cs=np.inf, Rp=np.inf, Lp=np.inf, Cp=0.)
            self.p.update(spec.get('p', {}))
        elif self.t == 'TRL':
            self.p = dict(L=spec.get('L', 0.))
        elif self.t == 'ARC':
            self.p = dict(Larc=spec.get('Larc', np.inf))
        self.x0 = spec.get('xpos')

    @property
    def xpos(self):
        if self.t == 'TRL':
            if isinstance(self.x0, (list, tuple)) and 'setL' not in self.s:
                return list(self.x0)
            x = self.x0[0] if isinstance(self.x0, (list, tuple)) else (self.x0 or 0.)
            return [x, x + self.p['L']]
        return list(self.x0) if self.x0 is not None else [0.] * len(self.ports)

    def set(self, **kw):
        for k in kw:
            if k not in self.p:
                raise KeyError(k)
        if 'L' in kw and self.t == 'TRL':
            self.s['setL'] = True
        self.p.update(kw)

    def lcrg(self):
        if 'LCRG' in self.s:
            return self.s['LCRG']
        z0, vr = self.s.get('Z0', 50.), self.s.get('vr', 1.)
        return z0 / (C0 * vr), 1 / (z0 * C0 * vr), 0., 0.

    def zy(self, f):
        l, c, r, g = self.lcrg()
        w = 2 * math.pi * f
        return r + 1j * w * l, g + 1j * w * c

    def PQ(self, f, ov=None, Zb=None):
        """P V + Q I = 0; the currents flow into the element"""
        p = dict(self.p, **(ov or {}))
        if self.t == 'S':
            n = len(self.ports)
            S = smat(self.s['id'], n, 0. if self.arr else f)
            Z = Zb if self.arr else self.Zb
            return np.eye(n) - S, -Z * (np.eye(n) + S)
        if self.t == 'TRL':
            z, y = self.zy(f)
            T = expm(np.array([[0, z * SC ** -1], [y * SC, 0]]) * p['L'])
            A, B, C, D = T[0, 0], T[0, 1] * SC, T[1, 0] / SC, T[1, 1]
            # V1 = A V2 - B I2 ; I1 = C V2 - D I2
            return (np.array([[1, -A], [0, -C]], dtype=complex),
                    np.array([[0, B], [1, D]], dtype=complex))
        if self.t == 'RLC':
            w = 2 * math.pi * f
            P = np.zeros((2, 2), dtype=complex)
            Q = np.zeros((2, 2), dtype=complex)
            # series branch
            if w == 0 and p['Cs'] != np.inf or p['Cs'] == 0:
                Q[0, 0] = 1.
            else:
                zs = p['Rs'] + 1j * w * p['Ls'] + (0 if p['Cs'] == np.inf else 1 / (1j * w * p['Cs']))
                P[0] = [1., -1.]
                Q[0, 0] = -zs
            # parallel branch
            if p['Rp'] == 0 or p['Lp'] == 0 or (w == 0 and p['Lp'] != np.inf):
                P[1, 1] = 1.
            else:
                yp = (0 if p['Rp'] == np.inf else 1 / p['Rp']) + 1j * w * p['Cp'] + \
                     (0 if p['Lp'] == np.inf else 1 / (1j * w * p['Lp']))
                P[1, 1] = -yp
                Q[1] = [1., 1.]
            return P, Q
        if self.t == 'CPL':
            S = coupler(self.s.get('kc', math.sqrt(.5)), self.s.get('Lc'), f)
            return np.eye(4) - S, -self.Zb * (np.eye(4) + S)
        if self.t == 'ARC':
            if np.isinf(p['Larc']):
                return np.zeros((1, 1), dtype=complex), np.ones((1, 1), dtype=complex)
            return (np.ones((1, 1), dtype=complex),
                    np.array([[-2j * math.pi * f * p['Larc']]]))
        raise ValueError(self.t)


def coupler(k, Lc, f):
    """even/odd mode analysis of a matched coupled line section; Z0=1"""
    th = math.pi / 2 if not Lc else 2 * math.pi * f * Lc / C0
    if k >= 1:                                   # everything is coupled
        S = np.zeros((4, 4), dtype=complex)
        for a, b in ((0, 2), (1, 3)):
            S[a, b] = S[b, a] = 1
        return S
    ze = math.sqrt((1 + k) / (1 - k))
    zo = 1 / ze

    def half(z):
        A, B, C = math.cos(th), 1j * z * math.sin(th), 1j * math.sin(th) / z
        d = 2 * A + B + C
        return np.array([[B - C, 2], [2, B - C]]) / d
    e, o = half(ze), half(zo)
    same, other = (e + o) / 2, (e - o) / 2
    # order A1 A2 B1 B2
    return np.block([[same, other], [other, same]])


class Net:
    """a circuit"""
    arr = False

    def __init__(self, Zb=50., Portnames=()):
        self.Zb = Zb
        self.Portnames = list(Portnames)
        self.blocks = {}
        self.joins = []
        self.terms = {}
        self.deems = []
        self.steps = []         # the two above in the order they were asked
        self.free = []
        self.ref = {}                   # named junction -> port that gives its position

    # - - - - - construction
    def add(self, name, obj, ports=None, relpos=0., params=None):
        if '.' in name:
            blk, sub = name.split('.', 1)
            # the copy shares nothing with the original, keeps inner sharing
            c = copy.deepcopy(self.blocks[blk]['obj'])
            c.add(sub, obj, ports, relpos, params)
            if '.' not in sub:
                c.blocks[sub]['params'] = dict(params or {})
            self.blocks[blk]['obj'] = c
            return
        if name in self.blocks:
            self.blocks[name]['obj'] = obj
            return
        po = list(obj.ports)
        if obj.arr:
            po = [str(k + 1) for k in range(len(po))]
        if ports is None:
            names = po
        elif isinstance(ports, dict):
            names = [ports.get(q, q) for q in po]
        elif isinstance(ports, str):
            names = [ports % (k + 1) for k in range(len(po))]
        else:
            names = list(ports)
        self.blocks[name] = dict(obj=obj, ports=names, relpos=relpos, params=dict(params or {}),
                                 oports=po)
        self.free += [f'{name}.{q}' for q in names]

    def con(self, ports):
        new = [q for q in ports if not self.known(q)]
        old = [q for q in ports if self.known(q)]
        assert len(new) <= 1 and old
        if new:
            self.free.append(new[0])
            self.ref[new[0]] = old[0]
        for q in old:
            self.free.remove(q)
        self.joins.append((new[0] if new else None, old))
        self.steps.append(('j', *self.joins[-1]))

    def known(self, q):
        return q in self.ref or any(q == f'{b}.{r}' for b, d in self.blocks.items()
                                    for r in d['ports'])

    def term(self, port, kind=None, val=None):
        if port not in self.terms:
            self.free.remove(port)
        self.terms[port] = (kind, val)

    def deem(self, Int=(), Ext=()):
        Int = list(Int.items()) if isinstance(Int, dict) else Int
        Ext = list(Ext.items()) if isinstance(Ext, dict) else Ext
        for dp, ip in Int:
            self.free.append(ip)
            self.ref[ip] = dp
            self.free.remove(dp)
            self.deems.append(('i', dp, ip))
            self.steps.append(self.deems[-1])
        for dp, ep in Ext:
            self.free.remove(dp)
            self.free.remove(ep)
            self.deems.append(('e', dp, ep))
            self.steps.append(self.deems[-1])

    @property
    def ports(self):
        if self.Portnames and sorted(self.Portnames) == sorted(self.free):
            return list(self.Portnames)
        return list(self.free)

    @property
    def xpos(self):
        return [self.pos(q) for q in self.ports]

    def pos(self, q):
        if q in self.ref:
            return self.pos(self.ref[q])
        b, r = q.split('.', 1)
        d = self.blocks[b]
        o = d['obj']
        if r in d['ports']:
            return d['relpos'] + o.xpos[d['ports'].index(r)]
        return d['relpos'] + (o.pos(r) if isinstance(o, Net) else o.xpos[o.ports.index(r)])

    # - - - - - state changes
    def find(self, path):
        o = self
        for b in path.split('.'):
            o = o.blocks[b]['obj']
        return o

    def set(self, path, val=None):
        """set('blk.sub.attr', val) or set('blk.sub', {attr:val}) (may be nested)"""
        if not isinstance(val, dict):
            path, a = path.rsplit('.', 1)
            val = {a: val}
        o = self.find(path)
        o.setd(val) if isinstance(o, Net) else o.set(**val)

    def setd(self, d):
        for k, v in d.items():
            self.set(k, v)

    # - - - - - solution
    def emit(self, sy, prefix='', ov=None, pos=0.):
        ov = ov or {}
        loc = {}
        for name, d in self.blocks.items():
            o = d['obj']
            o_ov = dict(ov.get(name, {}))
            for k, v in d['params'].items():
                o_ov[k] = dict(o_ov.get(k, {}), **v) if isinstance(v, dict) else v
            path = prefix + name
            x = pos + d['relpos']
            if isinstance(o, Net):
                ext = o.emit(sy, path + '.', o_ov, x)
                # (an object that was given another port order since keeps its names)
                vs = [ext[q] for q in o.ports]
            else:
                vs = [(sy.var(), sy.var()) for _ in o.ports]
                sy.element(o, vs, o_ov, self.Zb, path, x, d)
            for q, v in zip(d['ports'], vs):
                loc[f'{name}.{q}'] = v
                sy.nodes[f'{path}.{q}'] = v
                sy.own[prefix, f'{name}.{q}'] = v
        for kind, a, b in self.steps:
            if kind == 'j':
                new, old = a, b
                if new is not None:
                    loc[new] = (sy.var(), sy.var())
                    sy.nodes[prefix + new] = sy.own[prefix, new] = loc[new]
                vs = [loc[q] for q in old]
                allv = vs + ([loc[new]] if new is not None else [])
                for v in allv[1:]:
                    sy.row([(allv[0][0], 1), (v[0], -1)])
                r = [(v[1], 1) for v in vs]
                if new is not None:
                    r.append((loc[new][1], -1))
                sy.row(r)
            elif kind == 'i':
                loc[b] = (sy.var(), sy.var())
                sy.nodes[prefix + b] = sy.own[prefix, b] = loc[b]
                sy.row([(loc[a][0], 1), (loc[b][0], -1)])
                sy.row([(loc[a][1], 1), (loc[b][1], 1)])
            else:
                sy.row([(loc[a][0], 1), (loc[b][0], -1)])
                sy.row([(loc[a][1], 1), (loc[b][1], -1)])
        for q, (kind, val) in self.terms.items():
            iv, ii = loc[q]
            if kind == 'Z':
                sy.row([(ii, 1 / SC)] if np.isinf(val) else [(iv, 1), (ii, val / SC)])
            elif kind == 'Y':
                sy.row([(iv, 1)] if np.isinf(val) else [(iv, val * SC), (ii, 1)])
            else:
                rc = 0. if val is None else val
                sy.row([(iv, 1 - rc), (ii, self.Zb * (1 + rc) / SC)])
            sy.loads[prefix + q] = (iv, ii)
        return loc

    def solve(self, f, Z=None, check=True):
        """-> Sol with unit excitations of the ports"""
        Z = self.Zb if Z is None else Z
        if check:
            self.wellposed(f, {Z, self.Zb})
        return self._solve(f, Z)

    def _solve(self, f, Z, lim=1e6):
        sy = Sys(f)
        loc = self.emit(sy)
        ports = self.ports
        ne = len(sy.rows)
        for q in ports:
            sy.row([(loc[q][0], .5), (loc[q][1], .5 * Z / SC)])
        if len(sy.rows) != sy.n:
            raise AssertionError(f'reference model: {len(sy.rows)} equations, {sy.n} unknowns')
        A = np.zeros((sy.n, sy.n), dtype=complex)
        for k, r in enumerate(sy.rows):
            for c, v in r:
                A[k, c] += v
        nr = np.max(np.abs(A), axis=1)
        nr[nr == 0] = 1.
        try:
            inv = np.linalg.inv(A / nr[:, None])
        except np.linalg.LinAlgError:
            raise Ill()
        if not np.all(np.isfinite(inv)) or np.max(np.abs(inv)) > lim:
            raise Ill()
        X = inv[:, ne:] / nr[ne:][None, :]
        return Sol(self, f, Z, ports, X, sy, loc)

    def wellposed(self, f, Zs=()):
        """every nested circuit must have an S-matrix of its own"""
        for Z in set(Zs) | {self.Zb}:
            self._solve(f, Z)
        for d in self.blocks.values():
            if isinstance(d['obj'], Net):
                d['obj'].wellposed(f, {self.Zb})

    def S(self, f, Z=None, check=True):
        return self.solve(f, Z, check).S


class Sys:
    def __init__(self, f):
        self.f, self.n, self.rows = f, 0, []
        self.nodes, self.own, self.loads, self.els = {}, {}, {}, []

    def var(self):
        self.n += 1
        return self.n - 1

    def row(self, r):
        self.rows.append(r)

    def element(self, o, vs, ov, Zb, path, x, d):
        P, Q = o.PQ(self.f, ov, Zb)
        for k in range(P.shape[0]):
            self.row([(v[0], P[k, i]) for i, v in enumerate(vs) if P[k, i] != 0] +
                     [(v[1], Q[k, i] / SC) for i, v in enumerate(vs) if Q[k, i] != 0])
        self.els.append((path, o, vs, ov, x, d))


class Sol:
    def __init__(self, net, f, Z, ports, X, sy, loc):
        self.net, self.f, self.Z, self.ports, self.X, self.sy = net, f, Z, ports, X, sy
        V = np.array([X[loc[q][0]] for q in ports]).reshape(len(ports), len(ports))
        I = np.array([X[loc[q][1]] for q in ports]).reshape(len(ports), len(ports)) / SC
        self.S = (V - Z * I) / 2

    def at(self, E):
        """node values for an excitation dict: path -> (V, I, Vf, Vr)"""
        e = np.array([E[q] for q in self.ports], dtype=complex)
        x = self.X @ e
        r = {}
        for k, (iv, ii) in self.sy.nodes.items():
            V, I = x[iv], x[ii] / SC
            r[k] = (V, I, (V + self.Z * I) / 2, (V - self.Z * I) / 2)
        return r, x

    def perm(self, ports):
        k = [self.ports.index(q) for q in ports]
        return self.S[np.ix_(k, k)]


# ---------------------------------------------------------------- interpreter
def model_obj(spec, pool):
    if spec['t'] == 'CT':
        n = Net(spec.get('Zb', 50.), spec.get('Portnames', ()))
        for op in spec.get('ops', ()):
            model_op(n, op, pool)
        return n
    return El(spec)


def model_op(n, op, pool):
    k = op[0]
    if k == 'add':
        _, name, i, *r = op
        r = list(r) + [None] * (3 - len(r))
        n.add(name, pool[i], r[0], r[1] or 0., r[2])
    elif k == 'con':
        n.con(op[1])
    elif k == 'term':
        n.term(*op[1:])
    elif k == 'deem':
        n.deem(op[1], op[2])
    else:
        raise ValueError(op)


def model_pool(specs):
    pool = []
    for s in specs:
        pool.append(model_obj(s, pool))
    return pool


def real_obj(spec, pool):
    import pyRFtk as rf
    t = spec['t']
    kw = {}
    if 'Zb' in spec:
        kw['Zbase'] = spec['Zb']
    if 'Id' in spec:
        kw['Id'] = spec['Id']
    if 'ports' in spec:
        kw['ports'] = list(spec['ports'])
    if spec.get('xpos') is not None:
        kw['xpos'] = list(spec['xpos']) if isinstance(spec['xpos'], (list, tuple)) else spec['xpos']
    if t == 'S':
        n, cls = spec['n'], spec.get('cls', 'obj')
        if cls == 'arr':
            return smat(spec['id'], n, 0.)
        kw.setdefault('ports', [str(k) for k in range(1, n + 1)])
        if cls == 'obj':
            kw.setdefault('Zbase', 50.)
            o = rf.rfObject(funit='Hz', **kw)
            for f in FS:
                o.setS(f, smat(spec['id'], n, f))
            return o
        return rf.rfBase(Ss=[smat(spec['id'], n, f) for f in FS], fs=FS, **kw)
    if t == 'TRL':
        if 'LCRG' in spec:
            l, c, r, g = spec['LCRG']
            kw.update(LTL=l, CTL=c, rTL=r, gTL=g)
        else:
            kw.update(Z0TL=spec.get('Z0', 50.))
            if 'vr' in spec:
                kw['vr'] = spec['vr']
        return rf.rfTRL(L=spec.get('L', 0.), **kw)
    if t == 'RLC':
        return rf.rfRLC(**dict(kw, **spec.get('p', {})))
    if t == 'CPL':
        kw.update(kc=spec.get('kc', math.sqrt(.5)))
        if spec.get('Lc'):
            kw['Lc'] = spec['Lc']
        return rf.rfCoupler(**kw)
    if t == 'ARC':
        if 'Larc' in spec:
            kw['Larc'] = spec['Larc']
        return rf.rfArcObj(**kw)
    if t == 'CT':
        if spec.get('Portnames'):
            kw['Portnames'] = list(spec['Portnames'])
        if spec.get('sNp'):
            kw['sNp'] = spec['sNp']
        c = rf.rfCircuit(**kw)
        for op in spec.get('ops', ()):
            real_op(c, op, pool)
        return c
    raise ValueError(t)


def real_op(c, op, pool):
    k = op[0]
    if k == 'add':
        _, name, i, *r = op
        r = list(r) + [None] * (3 - len(r))
        kw = {}
        if r[0] is not None:
            kw['ports'] = copy.copy(r[0])
        if r[1]:
            kw['relpos'] = r[1]
        if r[2]:
            kw['params'] = copy.deepcopy(r[2])
        c.addblock(name, pool[i], **kw)
    elif k == 'con':
        c.connect(*op[1])
    elif k == 'term':
        if len(op) > 2 and op[2]:
            c.terminate(op[1], **{op[2]: op[3]})
        else:
            c.terminate(op[1])
    elif k == 'deem':
        c.deembed(copy.copy(op[1]), copy.copy(op[2]))
    else:
        raise ValueError(op)


def real_pool(specs):
    pool = []
    for s in specs:
        pool.append(real_obj(s, pool))
    return pool


# ------------------------------------------------------------------ comparison
def close(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    return bool(np.max(np.abs(a - b)) <= tol * max(1., np.max(np.abs(b))))


def rnd(a, n=5):
    """hashable, rounded"""
    a = np.asarray(a)
    return np.round(a, n).tolist().__repr__()
