"""C25: what an object says about itself agrees with its state.

All objects are asked for their description (str, asstr, at every level of detail), the
text is read back and compared with the state: names, positions, values, equations (the
waves of the circuit must satisfy the equations that are shown), the parts of a circuit
and how they are found.
"""
import ast, itertools, re
import numpy as np
from .engine import Family, Violation
from .ref import *
from .nets import *
from .obs import excite

PROP = 'C25'
ASSUME = ['descriptions keep their general layout (one fact on a line)', 'numbers are right within the digits shown']
F1, F2, F3 = FS
FULL = (0, 1, 2, True)
NUM = r'[-+]?(?:\d[\d_]*\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)'
CPLX = re.compile(r'([-+]?\s*(?:\d+\.?\d*(?:[eE][-+]?\d+)?))\s*([-+]\s*\d*\.?\d*(?:[eE][-+]?\d+)?)j')


def bad(what, text):
    raise Violation(f'{what} in the description\n' + '\n'.join(text.split('\n')[:60]))


def last(text):
    """frequency and elements of the last evaluation shown"""
    m = re.search(r'last evaluation (?:at|@) (' + NUM + r')\s*Hz', text)
    if not m:
        return None
    return float(m.group(1).replace('_', '')), text[m.end():]


def elements(text):
    return [float(a.replace(' ', '')) + 1j * float(b.replace(' ', '')) for a, b in CPLX.findall(text)]


def near(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def chk_last(text, ev, what, st):
    """ev: None (nothing known), or (frequency, matrix)"""
    g = last(text)
    if ev is None:
        if g is not None:
            bad(f'{what}: an evaluation at {g[0]} Hz that never took place', text)
        return
    if ev[1] is None:                              # (something changed since)
        return
    if g is None or abs(g[0] - ev[0]) > .06:
        bad(f'{what}: last evaluation {g and g[0]}, expected at {ev[0]} Hz', text)
    if not near(elements(g[1]), list(np.ravel(ev[1])), 2e-6):
        bad(f'{what}: last evaluation shows another matrix than\n{np.round(ev[1], 6)}\n', text)
    st.checks += 1


# ------------------------------------------------------------------ single objects
UNIT = {'Ohm': 1., 'nH': 1e-9, 'pF': 1e-12}
NONE = {'Rs': 0., 'Ls': 0., 'Cs': INF, 'Rp': INF, 'Lp': INF, 'Cp': 0.}


def say_ports(text, names, xpos, what):
    pl = re.findall(r"'([^']*)'\s*@\s*(" + NUM + ')m', text)
    if [p for p, _ in pl] != list(names) or not near([float(x) for _, x in pl], xpos, 6e-4):
        bad(f'{what}: ports {pl}, expected {list(zip(names, xpos))}', text)


def say_base(text, m, full, what, cls):
    if not re.search(r'\b' + cls + r'\b', text) or f'"{m["Id"]}"' not in text.split('\n')[0]:
        bad(f'{what}: not called {cls} {m["Id"]}', text)
    z = re.search(r'Zbase=\s*(' + NUM + r')\s*Ohm', text)
    if not z or abs(float(z.group(1)) - m['Zb']) > .0051:
        bad(f'{what}: Zbase {z and z.group(1)}, expected {m["Zb"]}', text)


def say(o, m, full, text, what, st):
    t, cls = m['t'], type(o).__name__
    if t == 'RLC':
        g = {k: float(v) * UNIT[u] for k, v, u in re.findall(r'\|\s+(\w\w) = (' + NUM + r') (Ohm|nH|pF)', text)}
        want = {k: v for k, v in m['p'].items() if v != NONE[k]} if full else {}
        if set(g) != set(want) or any(abs(g[k] - want[k]) > 6e-6 * abs(want[k]) for k in g):
            bad(f'{what}: elements {g}, expected {want}', text)
        if m['Id'] not in text.split('\n')[0]:
            bad(f'{what}: no name', text)
    elif t == 'TRL':
        if not text.startswith(m['Id'] + ':'):
            bad(f'{what}: no name', text)
        z, p, l = (re.search(r, text) for r in (r'Zbase: (' + NUM + ') Ohm', r'ports: (\[.*\])', r'length: (' + NUM + ')m'))
        if not (z and p and l) or float(z.group(1)) != m['Zb'] or ast.literal_eval(p.group(1)) != m['ports'] \
                or abs(float(l.group(1)) - m['L']) > 6e-4:
            bad(f'{what}: impedance, ports or length are not {m["Zb"]}, {m["ports"]}, {m["L"]}', text)
        if ('constant TL parameters' in text) != m['const']:
            bad(f'{what}: constant is not {m["const"]}', text)
        d = re.search(r'dx: (' + NUM + r')\s?(m\b|pts)', text)
        if not d or (d.group(2) == 'pts') != isinstance(m['dx'], int) or abs(float(d.group(1)) - m['dx']) > 6e-4:
            bad(f'{what}: dx is not {m["dx"]}', text)
        f = re.search(r'values at (' + NUM + ') MHz', text)
        f0 = m['ev'][0] if m['ev'] else 1e6
        if not f or abs(float(f.group(1)) * 1e6 - f0) > 501:
            bad(f'{what}: values at {f and f.group(1)} MHz, expected at {f0} Hz', text)
        w = 2 * np.pi * f0
        rows = re.findall(r'\| (\w+)\s+= f\(([wx,]*)\)\s+(?:(\S.*?)\s+)?= (\S+) *\n', text)
        names = [r[0] for r in rows]
        if len(set(names)) != len(names) or not {'rjwL', 'gjwC'} <= set(names) or not set(m['given']) <= set(names) \
                or full and not {'Zc', 'gamma', 'LTL', 'CTL', 'rTL', 'gTL'} <= set(names):
            bad(f'{what}: parameters {names}', text)
        for n, dep, src, v in rows:
            fun = getattr(o.TLP, n)
            want = complex(fun(w, 0))
            if abs(complex(v.strip('()')) - want) > 1e-9 * abs(want):
                bad(f'{what}: {n} is {want}', text)
            for y, arg in (('w', (w * 1.7, 0)), ('x', (w, .6 * m['L']))):
                if y not in dep.split(',') and abs(complex(fun(*arg)) - want) > 1e-12 * abs(want):
                    bad(f'{what}: {n} depends on {y}', text)
            if full and (src == 'input') != (n in m['given']):
                bad(f'{what}: {n} comes from "{src}"', text)
            if full and src.startswith('<-- '):
                for q in src[4:].split(', '):
                    if q not in names[:names.index(n)]:
                        bad(f'{what}: {n} comes from {q} that is not there', text)
        # the textbook relations between the numbers shown
        v = {n: complex(s.strip('()')) for n, _, _, s in rows}
        if full:
            for a, b in ((v['rjwL'], v['rTL'] + 1j * w * v['LTL']), (v['gjwC'], v['gTL'] + 1j * w * v['CTL']),
                         (v['Zc'] ** 2, v['rjwL'] / v['gjwC']), (v['gamma'] ** 2, v['rjwL'] * v['gjwC'])):
                if abs(a - b) > 1e-9 * abs(b):
                    bad(f'{what}: {a} and {b} should agree', text)
            if 'A' in v and not abs(v['A'] - v['gamma'].real) <= 1e-7 * abs(v['gamma']):
                bad(f'{what}: the attenuation is not {v["gamma"].real}', text)
        for k, x in m['given'].items():
            if not callable(x) and np.ndim(x) == 0 and abs(v[k] - x) > 1e-12 * abs(x):
                bad(f'{what}: {k} is not {x}', text)
        chk_last(text, m['ev'], what, st)
    elif t == 'CPL':
        say_base(text, m, full, what, cls)
        for k, want, tol in (('kc', m['kc'], 6e-5), ('kcdB', 20 * np.log10(m['kc']), 6e-3)) + (
                (('Lc', m['Lc'], 6e-4),) if m['Lc'] else ()):
            g = re.search(r'(\+?)\b' + k + r'=\s*(' + NUM + ')', text)
            if not g or abs(float(g.group(2)) - want) > tol or (g.group(1) == '+') != (k in m['given']):
                bad(f'{what}: {k} is not {want} (given: {k in m["given"]})', text)
        if ('quarter wave' in text) != (not m['Lc']):
            bad(f'{what}: quarter wave', text)
        if full:
            say_ports(text, m['ports'], m['xpos'], what)
        chk_last(text, m['ev'], what, st)
    elif t == 'ARC':
        say_base(text, m, full, what, cls)
        g = re.search(r'Larc = (' + NUM + r') \[nH\]', text)
        if full and (not g or abs(float(g.group(1)) - m['Larc'] * 1e9) > 1e-6) or not full and g:
            bad(f'{what}: Larc', text)
    elif t == 'S' and cls == 'rfObject':
        p = re.search(r'Portnames=\[[^\n]*?(\d+)[^\n]*\n((?:\s*\'[^\n]*\n)*)', text)
        names = re.findall(r"'([^']*)'", p.group(2)) if p else None
        n = re.search(r'(\d+) frequenc', text)
        z = re.search(r'Zbase = (' + NUM + ')', text)
        if names != m['ports'] or int(p.group(1)) != len(names) or not n or int(n.group(1)) != m['nf'] \
                or not z or float(z.group(1)) != m['Zb']:
            bad(f'{what}: expected ports {m["ports"]}, {m["nf"]} frequencies, Zbase {m["Zb"]}', text)
        chk_last(text, m['ev'], what, st)
    elif t == 'S':
        say_base(text, m, full, what, cls)
        if full:
            say_ports(text, m['ports'], m['xpos'], what)
            n = re.search(r'(\d+) frequencies from (' + NUM + ') to +(' + NUM + ') Hz', text)
            if not n or int(n.group(1)) != len(FS) or float(n.group(2)) != min(FS) or float(n.group(3)) != max(FS):
                bad(f'{what}: {len(FS)} frequencies', text)
            g = last(text)
            if (g is None) != (m['ev'] is None):
                bad(f'{what}: last evaluation {g and g[0]}', text)
            if g and m['ev'][1] is not None:
                q = re.findall(r'(\d+\.\d+)\s+([-+]\d+\.\d)\N{DEGREE SIGN}', g[1])
                e = np.ravel(m['ev'][1])
                if abs(g[0] - m['ev'][0]) > .06 or len(q) != len(e) or any(
                        abs(float(a) - abs(z)) > 6e-7 or
                        abs(float(a) * np.exp(1j * np.pi / 180 * float(b)) - z) > 2e-3 * abs(z) + 1e-6 for (a, b), z in zip(q, e)):
                    bad(f'{what}: last evaluation is not {m["ev"]}', text)
    st.checks += 1


def mk(spec, **kw):
    return dict(spec, **kw)


LINES = {
    'line': (dict(Z0TL=35.), {}),
    'named': (dict(Z0TL=35., vr=.7), dict(ports=['in', 'out'], Zbase=30., Id='feeder', dx=.02)),
    'lossy': (dict(LTL=2.5e-7, CTL=1e-10, rTL=3., gTL=4e-4), dict(Zbase=20)),
    'heavy': (dict(LTL=1e-9, CTL=1e-13, rTL=50., gTL=9e-2), dict(Zbase=20)),
    'coax': (dict(OD=.23, ID=.1, rho=2e-8, epsr=1.5, tand=1e-4), dict(dx=700)),
    'fading': (dict(Z0TL=[20., 40.]), dict(Zbase=25.)),
    'table': (dict(Z0TL=[[0., .5, 1.3], [20., 30., 25.]], AdB=.2), {}),
    'skin': (dict(Z0TL=30., rTL=lambda w: 1e-5 * np.sqrt(w)), {}),
    'bend': (dict(Z0TL=lambda x: 30. + x, vr=.9), {}),
}
LEAF = {k: v for k, v in PRIMS.items() if v.get('cls') != 'arr'}
LEAF.update({
    'rlcnone': RLC(25.), 'rlcall': RLC(30., Rs=1., Ls=2e-9, Cs=3e-12, Rp=40., Lp=5e-9, Cp=6e-12),
    'rlcmany': RLC(30., Rs=1.23456e-3, Cp=123.456e-12), 'rlczero': RLC(30., Rp=0., Cs=0., Lp=0.),
    'cplq': CPL(30., kc=.25), 'cpln': CPL(30., kc=.9, ports=['i', 't', 'c', 'x'], Lc=.7, Id='split'),
    'arc2': ARC(1.5e-9, 12.5, ports=['plasma'], Id='breakdown'),
    'cpldb': CPL(30., kc=.35, how='kcdB'),
    'obj1': S(1, 21, 12.5, ['only']), 'base1': S(1, 22, 7.25, ['p'], 'base'),
    'base4': S(4, 23, 33.335, ["a", 'bb', 'ccc', '11'], 'base', xpos=[0., 1.5, -2.25, 10.125]),
})
OPS = ['one', 'two', 'other', 'list', 'maxV', 'set', 'copy', 'say']
SETS = {'TRL': ('L', 2.125), 'RLC': ('Rs', 7.5), 'ARC': ('Larc', 3e-9), 'CPL': None, 'S': None}


def build(name):
    """object, its state, and a function that builds another one"""
    import pyRFtk as rf
    if name in LINES:
        given, kw = LINES[name]
        m = dict(t='TRL', Zb=kw.get('Zbase', 50.), ports=kw.get('ports', ['1', '2']), L=1.3, const=name not in ('fading', 'table', 'bend'),
                 dx=kw.get('dx', 72), given=given)
        new = lambda: rf.rfTRL(L=1.3, **given, **kw)
    else:
        s = LEAF[name]
        m = dict(s, ports=oports(s), ev=None, p=dict(NONE, **s.get('p', {})), nf=len(FS))
        if s['t'] == 'TRL':
            m.update(const=True, dx=72, given=dict(zip(('LTL', 'CTL', 'rTL', 'gTL'), s['LCRG'])) if 'LCRG' in s else dict(Z0TL=s['Z0']))
        if s['t'] == 'CPL':
            m.update(given=['kc'] + ['Lc'] * ('Lc' in s), Lc=s.get('Lc'))
            if s.get('how') == 'kcdB':
                m.update(given=['kcdB'])
        m['xpos'] = s.get('xpos') or [0.] * nports(s)
        new = lambda: rf.rfCoupler(Zbase=30., kcdB=20 * np.log10(s['kc'])) if s.get('how') == 'kcdB' else real_obj(s, [])
    o = new()
    m.update(ev=None, Id=str(o.Id))
    if 'Id' in LEAF.get(name, {}) and m['Id'] != LEAF[name]['Id'] or name in LINES and LINES[name][1].get('Id', m['Id']) != m['Id']:
        raise Violation(f'{name}: Id is {m["Id"]}')
    return o, m, new


def spoil(*Ss):
    """what was returned belongs to the caller"""
    for S in Ss:
        S[...] = 7.


def leaf_cases(tier):
    n = 2 if tier == 'quick' else 3
    for name in list(LEAF) + list(LINES):
        for k in range(n + 1):
            for ops in itertools.product(OPS, repeat=k):
                yield (name, list(ops))


def chk_leaf(case, st):
    name, ops = case
    o, m, new = build(name)
    now = []                                        # (changes made)

    def fresh(f):
        q = new()
        for k, v in now:
            q.set(**{k: v})
        return np.array(q.getS(f))

    def texts(what):
        for full in FULL:
            t = o.__str__(full)
            if o.asstr(full) != t if hasattr(o, 'asstr') else False:
                bad(f'{what}: asstr({full}) is another text', t)
            if full == 0 and str(o) != t:
                bad(f'{what}: str is another text than that of level 0', t)
            say(o, m, full, t, f'{name} after {ops}: level {full}{what}', st)

    for op in ops:
        st.transitions += 1
        if op == 'one':
            spoil(o.getS(F1))
            m['ev'] = (F1, fresh(F1))
        elif op == 'two':
            spoil(o.getS(F2))
            m['ev'] = (F2, fresh(F2))
        elif op == 'other':
            spoil(o.getS(F3, Zbase=18.))
            m['ev'] = (F3, None if name.startswith('obj') else fresh(F3))
        elif op == 'list':
            spoil(*o.getS([F2, F1]))
            m['ev'] = (F1, fresh(F1))
        elif op == 'maxV':
            if name == 'rlczero':                   # (a short)
                continue
            o.maxV(F3, excite(o.ports))
            m['ev'] = (F3, None)
        elif op == 'set':
            if m['t'] in ('S', 'CPL') or m['t'] == 'TRL' and not m['const']:
                continue
            k, v = SETS[m['t']]
            o.set(**{k: v})
            now.append((k, v))
            if m['t'] == 'RLC':
                m['p'] = dict(m['p'], **{k: v})
            else:
                m[k] = v
            m['ev'] = m['ev'] and (m['ev'][0], None)
        elif op == 'copy':
            o = o.copy()
            m['Id'] = str(o.Id)
        elif op == 'say':
            texts(' in between')
    texts('')
    st.state(name, tuple(ops))
    st.outcome(name, len(o.__str__(1).split('\n')))


# ------------------------------------------------------------------ circuits
ROW = re.compile(r'^\|\s+(\d+) (<-|->)(\S+)\s+\[\s*(\d+)\] (S\[|S\||S\]|S:|C\[|C\+|C\||C\]|C:|Di|De|T:|E:|E\?|[A-Z]\S) (\S+) *(.*)$')
ENT = re.compile(r'\[\s*(\d+)(?:\.\.\s*(\d+))?\]|([-+ ]\s*[\d.]+|\s*[-+]?nan)([-+ ]\s*[\d.]+|\s*[-+]?nan)j')


def equations(text):
    """waves, rows: (kind, port, {column: coefficient})"""
    waves, rows = [], []
    for ln in text.split('\n'):
        m = ROW.match(ln)
        if not m:
            continue
        k, arrow, port, k2, kind, node, rest = m.groups()
        if int(k) != len(waves) or int(k2) != int(k):
            bad(f'row {k} of the equations is number {len(waves)}', text)
        waves.append(arrow + port)
        co, at = {}, None
        for a, b, re_, im in ENT.findall(rest):
            if a:
                at = int(a)
                continue
            if at is None or at in co:
                bad(f'row {k}: coefficient without or with the same column', text)
            co[at] = float(re_.replace(' ', '')) + 1j * float(im.replace(' ', ''))
            at += 1
        rows.append((kind, node, co))
    return waves, rows


def chk_circuit(c, m, full, what, st, ev=None, levels=True):
    """m: model; ev: frequency of the last evaluation"""
    text = c.__str__(full)
    if c.asstr(full) != text:
        bad(f'{what}: asstr({full}) is another text', text)
    lines = text.split('\n')
    say_base(text, dict(Id=str(c.Id), Zb=c.Zbase), full, what, 'rfCircuit')
    try:
        i = next(k for k, s in enumerate(lines) if re.match(r'\| ports: \[', s))
        j = next(k for k, s in enumerate(lines) if k > i and re.match(r'\| \]', s))
        ports = [s.lstrip('| ') for s in lines[i + 1:j]]
    except StopIteration:
        ports = None
    if ports != list(c.ports) and not (ports == [''] and not c.ports) or sorted(c.ports) != sorted(m.free):
        bad(f'{what}: ports {ports}, the circuit has {m.free}', text)
    q = re.search(r'(\d+) equations, (\d+) unknowns', text)
    if not q or int(q.group(2)) != len(c.waves):
        bad(f'{what}: number of unknowns is not {len(c.waves)}', text)
    if not full:
        if len(lines) > j + 5:
            bad(f'{what}: short text is long', text)
        st.checks += 1
        return
    waves, rows = equations(text)
    neq = sum(k != 'E?' for k, _, _ in rows)
    if waves != list(c.waves) or neq != int(q.group(1)):
        bad(f'{what}: {neq} equations for the unknowns {waves}', text)
    if ev is not None and neq == len(waves):
        E = excite(c.ports)
        try:
            sol = c.Solution(ev, dict(E), Zbase=c.Zbase)
        except np.linalg.LinAlgError:
            sol = None
        if sol:
            val = [sol[w[2:]][2 if w[:2] == '->' else 3] for w in waves]
            for k, (kind, node, co) in enumerate(rows):
                s = sum(a * val[i] for i, a in co.items()) - (E[node] if kind[0] == 'E' else 0)
                tol = 8e-5 * sum(abs(v) for i, v in enumerate(val)) + 1e-6
                if not co or not abs(s) <= tol:
                    bad(f'{what}: the waves at {ev} Hz do not satisfy equation {k} ({s})', text)
            st.checks += 1
    # the blocks
    n = re.search(r'\+ (\d+) Blocks', text)
    if int(n.group(1)) if n else 0 != len(m.blocks):
        if not n or int(n.group(1)) != len(m.blocks):
            bad(f'{what}: number of blocks is not {len(m.blocks)}', text)
    seen, pos = {}, 0
    body = lines[next((k for k, s in enumerate(lines) if re.search(r'\+ \d+ Blocks', s)), len(lines)):]
    for b, d in m.blocks.items():
        o = c.blocks[b]['object']
        if id(o) in seen:
            first = seen[id(o)]
            if not any(re.match(r'\|\s+' + re.escape(b) + r'\s*: --> ' + re.escape(first) + r'\b', s) for s in body):
                bad(f'{what}: block {b} is the same object as {first}', text)
            continue
        seen[id(o)] = b
        k = [i for i, s in enumerate(body) if re.match(r'\|   ' + re.escape(b) + r': *$', s)]
        if len(k) != 1:
            bad(f'{what}: block {b} is shown {len(k)} times', text)
        k = k[0] + 1
        for i, p in enumerate(d['ports']):
            g = re.match(r'\|   \|   (\S+)\s+(?:-> (\S+)\s+)?@\s*(' + NUM + ')m', body[k + i])
            own = o.ports[i] if hasattr(o, 'ports') else None
            if not g or g.group(1) != p or g.group(2) != own or abs(float(g.group(3)) - m.pos(f'{b}.{p}')) > 6e-5:
                bad(f'{what}: port {p} of block {b} is {own} of the object, at {m.pos(f"{b}.{p}")} m', text)
        rest = '\n'.join(body[k + len(d['ports']):])
        if hasattr(o, '__str__') and not isinstance(o, (np.ndarray, list)):
            sub = o.__str__(full - 1).split('\n')
            at = [i for i, s in enumerate(body) if i >= k and s.startswith('|   + ' + sub[0])]
            if not at or [s.startswith('|   ' + x) or s == ('|   + ' + x) for s, x in zip(body[at[0] + 1:], sub[1:])].count(False):
                bad(f'{what}: block {b} is not described as\n' + '\n'.join(sub) + '\n', text)
        else:
            want = list(np.ravel(np.array(o, dtype=complex)))
            g = elements(rest.split('^')[0])
            if not near(g, want, 1e-7):
                bad(f'{what}: block {b} does not show its matrix', text)
    st.checks += 1


def build_states(tier):
    for name in allnets():
        for stage in ('grow', 'one', 'two', 'other', 'list', 'maxV', 'Sol', 'again'):
            yield (name, stage)


def chk_net(case, st):
    name, stage = case
    specs = allnets()[name]
    pool, model = real_pool(specs[:-1]), model_pool(specs[:-1])
    top = dict(specs[-1])
    ops = top.pop('ops')
    c, m = real_obj(top, pool), model_obj(top, model)
    what = f'{name} '
    for k, op in enumerate(ops):
        real_op(c, op, pool)
        model_op(m, op, model)
        st.transitions += 1
        if stage == 'grow':
            for full in (0, 1, 2):
                chk_circuit(c, m, full, f'{what}after {k + 1} steps, level {full}', st)
    ev = None
    try:
        sol = {f: m.solve(f, None) for f in FS}
    except Ill:
        st.skipped += 1
        return
    if stage in ('one', 'again'):
        c.getS(F1)
        ev = F1
    if stage in ('two', 'again'):
        c.getS(F2)
        ev = F2
    if stage == 'other':
        c.getS(F3, Zbase=18.)
        ev = F3
    if stage == 'list':
        c.getS([F2, F3, F1])
        ev = F1
    if stage == 'maxV':
        c.maxV(F1, excite(c.ports))
        ev = F1
    if stage == 'Sol':
        c.Solution(F3, excite(c.ports))
        ev = F3
    if stage == 'again':
        c.__str__(2)
        c.getS(F1)
        ev = F1
    if ev:
        text = c.__str__(1)
        g = text.rfind('\n+ last evaluation')
        if g < 0:
            bad(f'{what}: no evaluation', text)
        R = sol[ev].perm(c.ports) if c.Zbase == m.Zb else None
        chk_last(text[g:], (ev, R), what + stage, st)
    elif '\n+ last evaluation' in c.__str__(1):
        bad(f'{what}: an evaluation that never took place', c.__str__(1))
    for full in (0, 1, 2, 3):
        if ev:
            c.getS(ev)
        chk_circuit(c, m, full, f'{what}{stage} level {full}', st, ev=ev)
    st.state(name, stage)
    st.outcome(name, len(c.__str__(2)))


# ------------------------------------------------------------------ finding the parts
def find_cases(tier):
    for name in allnets():
        yield (name, 0)
        yield (name, 1)


def tree(m, c, prefix=''):
    for b, d in m.blocks.items():
        o = c.blocks[b]['object']
        yield prefix + b, o
        if isinstance(d['obj'], Net):
            yield from tree(d['obj'], o, f'{prefix}{b}.')


def chk_find(case, st):
    name, evaluated = case
    specs = allnets()[name]
    pool, model = real_pool(specs), model_pool(specs)
    c, m = pool[-1], model[-1]
    if evaluated:
        try:
            m.solve(F1, None)
        except Ill:
            st.skipped += 1
            return
        c.getS(F1)
    parts = list(tree(m, c))
    if c.listBlocks() != [p for p, _ in parts]:
        raise Violation(f'{name}: listBlocks() is {c.listBlocks()}, expected {[p for p, _ in parts]}')
    if len(c) != len(m.free):
        raise Violation(f'{name}: length {len(c)}, expected {len(m.free)}')
    by = {}
    walk = [(c, specs[-1], '')]
    while walk:                                    # the objects by the description of the network
        o, s, pre = walk.pop()
        for op in s['ops']:
            if op[0] == 'add':
                by[pre + op[1]] = pool[op[2]]
                if specs[op[2]]['t'] == 'CT':
                    walk.append((pool[op[2]], specs[op[2]], pre + op[1] + '.'))
    for p, o in parts:
        for how in ('findObj', 'object'):
            g = getattr(c, how)(p)
            st.checks += 1
            if g is not o or g is not by[p] and not (isinstance(g, np.ndarray) and np.array_equal(g, by[p])):
                raise Violation(f'{name}: {how}({p!r}) is not the object of that block')
    if c.findObj('') is not c:
        raise Violation(f'{name}: findObj("") is not the circuit')
    names = {p for p, _ in parts}
    wrong = {p[:-1] for p in names} | {p + '1' for p in names} | {p[1:] for p in names} | {p.split('.')[-1] for p in names} | \
        {p.upper() for p in names} | {p.lower() for p in names} | {q.split('.')[0] + '.nix' for q in names} | set(m.free)
    for p in sorted(wrong - names - {''}):
        if p.endswith('.') or p.startswith('.'):
            continue
        for how in ('findObj', 'object'):
            try:
                g = getattr(c, how)(p)
            except Exception:
                g = None
            st.checks += 1
            if g is not None:
                raise Violation(f'{name}: {how}({p!r}) finds {g!r} though there is no such block')
    st.state(name, evaluated)
    st.outcome(tuple(p for p, _ in parts))


# ------------------------------------------------------------------ circuits of model files
GDEF = [1.5, 2, '3/2', 'g1*2', '2*g2', 'len+1']
LDEF = [None, .75, 'g1', 'g1+g2', "l1*3"]


def model_cases(tier):
    for g in itertools.product(GDEF, repeat=2):
        for l in itertools.product(LDEF, repeat=2):
            for over in (None, 2.25):
                for names in (('a', 'b'), ('antenna', 'b')):
                    if tier != 'quick' or (over is None) == (names[0] == 'a'):
                        yield (list(g), list(l), over, list(names))


def chk_model(case, st):
    import pprint
    from pyRFtk import rfGTL
    from .c17 import Vars, Refuse
    g, l, over, (pa, pb) = case
    glo = {'g1': g[0], 'g2': g[1], 'len': 1.25}
    loc = {k: v for k, v in zip(('l1', 'l2'), l) if v is not None}
    vs = Vars(dict(loc, **dict(glo, **({'len': over} if over else {}))))
    try:
        for k in vs.defs:
            vs[k]
    except (Refuse, TypeError):
        st.skipped += 1
        return
    mod = {'variables': glo, 'OBJ': {'Portnames': [pb, pa], 'relpos': {pa: .5}, 'GTL': {
        'L1': {'ports': [pa, 'j'], 'L': 'len', 'Z0TL': 35.}, 'L2': {'ports': ['j', pb], 'L': 'g1', 'Z0TL': 60.},
        'C': {'ports': ['j', '[sc]'], 'Ls': 40.}}}}
    if loc:
        mod['OBJ']['variables'] = loc
    with open('m.mod', 'w') as f:
        f.write(pprint.pformat(mod))
    o = rfGTL('m.mod', objkey='OBJ', Zbase=30., **({'variables': {'len': over}} if over else {}))
    end = .5 + vs['len'] + vs['g1']
    for again in (0, 1):
        for full in FULL:
            t = o.__str__(full)
            z = re.search(r'Zbase\s*:\s*(' + NUM + ') Ohm', t)
            q = re.search(r'Portnames\s*: (.*)\n', t)
            po = re.findall(r'^\|   (\S+)\s*:\s*(' + NUM + ')m', t, re.M)
            if not z or float(z.group(1)) != 30. or not q or q.group(1).strip() != f'{pb}, {pa}' or [n for n, _ in po] != [pb, pa] \
                    or not near([float(x) for _, x in po], [end, .5], 6e-5):
                bad(f'{case}: impedance 30, ports {pb} at {end} and {pa} at 0.5 m', t)
            sec = {k: dict(re.findall(r'\|  \|  (\w+)\s*: (.*?) *\n', b)) for k, b in re.findall(
                r'\|  (global|local) variables\s*:\n((?:\|  \|.*\n)*)\|  \^', t)}
            if set(sec.get('global', {})) != set(glo) or set(sec.get('local', {})) != set(loc):
                bad(f'{case}: variables {sec}', t)
            for n, v in sec.get('global', {}).items():
                w = over if n == 'len' and over else glo[n]
                if v != str(w):
                    bad(f'{case}: global variable {n} is {w}', t)
            for n, v in sec.get('local', {}).items():
                x = [y.strip() for y in v.split('->')]
                if x[0] != str(loc[n]) or len(x) > 1 and abs(float(x[-1]) - vs[n]) > 1e-9 or isinstance(loc[n], str) and len(x) < 2:
                    bad(f'{case}: local variable {n} is {loc[n]}, {vs[n]}', t)
            if full > 1:
                for b in ('L1', 'L2', 'C'):
                    if f'   {b}: ' not in t:
                        bad(f'{case}: no block {b}', t)
            st.checks += 1
        o.getS(F2)
    st.state(str(case))
    st.outcome(rnd([vs[k] for k in sorted(vs.defs)]))


# ------------------------------------------------------------------ trees
def dict_cases(tier):
    for name in allnets(trees=True):
        for f in (0, 1, 2):
            yield ('net', name, f)
    for n in range(1, 5):
        for lens in itertools.product((0, 1, 2, 5), repeat=n):
            yield ('tree', list(lens), 0)
            yield ('deep', list(lens), 0)


def chk_dict(case, st):
    from pyRFtk import str_dict
    kind, what, k = case
    if kind == 'net':
        specs = allnets(trees=True)[what]
        c, m = real_pool(specs)[-1], model_pool(specs)[-1]
        try:
            m.solve(FS[k], None)
        except Ill:
            st.skipped += 1
            return
        t = c.maxV(FS[k], excite(c.ports))[2]
    else:
        t = d = {}
        for i, n in enumerate(what):
            v = ([None] if n == 0 else [i + .5 * j for j in range(n)], [1.] * max(n, 1))
            d[f'k{i}'] = v
            if kind == 'deep':
                d[f'blk{i}'] = d = {}
    text = str_dict(t)
    lines = text.split('\n')
    want = []

    def go(d, lev):
        for a, v in d.items():
            if isinstance(v, dict):
                want.append((lev, a, '{'))
                go(v, lev + 1)
                want.append((lev, None, '}'))
            else:
                x = v[0]
                if len(x) == 1:
                    want.append((lev, a, 'node', x[0], None, None))
                else:
                    want.append((lev, a, 'line', x[0], x[-1], len(x)))
    go(t, 1)
    got = []
    for s in lines[1:]:
        lev = (len(s) - len(s.lstrip(' '))) // 4
        g = re.match(r'\s*(\S+): (.*)$', s)
        if not g:
            if '}' in s:
                got.append((lev, None, '}'))
            continue
        a, r = g.groups()
        n = re.match(r'node \[\s*(N/A|' + NUM + r')\s*m\]', r)
        l = re.match(r'line \[(\d+) pts,\s*(' + NUM + r')m to\s+(' + NUM + r')m\]', r)
        if r.startswith('{'):
            got.append((lev, a, '{'))
        elif n:
            got.append((lev, a, 'node', None if n.group(1) == 'N/A' else float(n.group(1)), None, None))
        elif l:
            got.append((lev, a, 'line', float(l.group(2)), float(l.group(3)), int(l.group(1))))
        else:
            got.append((lev, a, r))
    if got and got[-1] == (0, None, '}'):
        got.pop()
    ok = len(got) == len(want)
    for g, w in zip(got, want):
        ok = ok and g[:3] == w[:3] and len(g) == len(w) and all(
            x is None and y is None or None not in (x, y) and abs(x - y) < 6e-5 for x, y in zip(g[3:], w[3:]))
    st.checks += 1
    st.state(kind, str(what), k)
    st.outcome(text)
    if not ok:
        raise Violation(f'str_dict of {case} is\n{text}\nexpected {want}')


def families(tier):
    return [
        Family('objects', lambda: leaf_cases(tier), chk_leaf,
               'all kinds of objects x all histories of evaluations, changes, copies (<= 2, thorough 3) x 4 levels of detail'),
        Family('circuits', lambda: build_states(tier), chk_net,
               'all circuits of the catalogue, also with confusing names, after every step of the construction and after '
               'every kind of evaluation x 4 levels of detail'),
        Family('parts', lambda: find_cases(tier), chk_find, 'all paths of all circuits, and names that do not exist'),
        Family('models', lambda: model_cases(tier), chk_model, 'all model files with 2 global and 2 local variables of 6 and 5 '
               'definitions each, own values, names of ports'),
        Family('trees', lambda: dict_cases(tier), chk_dict, 'voltage trees of all circuits, all trees of <= 4 parts'),
    ]
