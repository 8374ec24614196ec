"""an independent reader and writer of touchstone (version 1) text"""
import math
import numpy as np

UNITS = {'HZ': 1., 'KHZ': 1e3, 'MHZ': 1e6, 'GHZ': 1e9}


class Bad(Exception):
    pass


def parse(text, n, Z=50., normalised=False):
    """strict reader for n ports -> fs [Hz], S on Z, option dict, data tokens"""
    opt = None
    rows = []
    for line in text.split('\n'):
        line = line.split('!', 1)[0].strip()
        if not line:
            continue
        if line[0] == '#':
            if opt is not None:
                raise Bad('two option lines')
            opt = options(line)
            continue
        if opt is None:
            raise Bad('data before the option line')
        try:
            tok = [float(t) for t in line.split()]
        except ValueError:
            raise Bad(f'not a number in {line!r}')
        if not all(math.isfinite(t) for t in tok):
            raise Bad(f'not a finite number in {line!r}')
        rows.append(tok)
    if opt is None:
        raise Bad('no option line')
    fs, Ms = [], []
    i = 0
    while i < len(rows):
        M = np.zeros((n, n), dtype=complex)
        first = rows[i]
        if len(first) % 2 == 0:
            raise Bad(f'a frequency line has {len(first)} numbers')
        fs.append(first[0])
        if n <= 2:
            if len(first) != 1 + 2 * n * n:
                raise Bad(f'{len(first)} numbers in the line of a {n}-port')
            v = [cplx(first[k], first[k + 1], opt['fmt']) for k in range(1, len(first), 2)]
            M = np.array(v).reshape(n, n)
            if n == 2:
                M = M.T                            # S11 S21 S12 S22
            i += 1
        else:
            for r in range(n):
                v = []
                start = True
                while len(v) < n:
                    if i >= len(rows):
                        raise Bad('not enough data')
                    t = rows[i][1:] if (r == 0 and start) else rows[i]
                    if len(t) % 2 or len(t) > 8 or not t:
                        raise Bad(f'line with {len(t)} numbers')
                    v += [cplx(t[k], t[k + 1], opt['fmt']) for k in range(0, len(t), 2)]
                    i += 1
                    start = False
                if len(v) != n:
                    raise Bad('a row does not start on a new line')
                M[r] = v
        Ms.append(M)
    if any(b <= a for a, b in zip(fs, fs[1:])):
        raise Bad('frequencies do not increase')
    fs = np.array(fs) * UNITS[opt['unit']]
    out = []
    for M in Ms:
        k = opt['R'] if normalised else 1.
        if opt['par'] == 'S':
            out.append(renorm(M, opt['R'], Z))
        elif opt['par'] == 'Z':
            out.append(z2s(M * k, Z))
        else:
            out.append(z2s(np.linalg.inv(M / k), Z))
    return fs, np.array(out), opt, Ms


def options(line):
    t = line[1:].upper().split()
    o = dict(unit='GHZ', par='S', fmt='MA', R=50.)
    k = 0
    while k < len(t):
        if t[k] in UNITS:
            o['unit'] = t[k]
        elif t[k] in ('S', 'Z', 'Y'):
            o['par'] = t[k]
        elif t[k] in ('MA', 'DB', 'RI'):
            o['fmt'] = t[k]
        elif t[k] == 'R':
            o['R'] = float(t[k + 1])
            k += 1
        else:
            raise Bad(f'option {t[k]!r}')
        k += 1
    return o


def cplx(a, b, fmt):
    if fmt == 'RI':
        return complex(a, b)
    m = 10 ** (a / 20) if fmt == 'DB' else a
    return m * complex(math.cos(math.radians(b)), math.sin(math.radians(b)))


def renorm(S, z1, z2):
    """through the impedances and voltages"""
    n = len(S)
    I = np.eye(n)
    V, J = I + S, (I - S) / z1
    A, B = V + z2 * J, V - z2 * J
    return np.linalg.solve(A.T, B.T).T


def s2z(S, z):
    I = np.eye(len(S))
    return z * np.linalg.solve((I - S).T, (I + S).T).T


def z2s(Zm, z):
    I = np.eye(len(Zm))
    return np.linalg.solve((Zm + z * I).T, (Zm - z * I).T).T


# ----------------------------------------------------------------- writer
def pair(z, fmt, style=0):
    if fmt == 'RI':
        a, b = z.real, z.imag
    else:
        m = abs(z)
        a = 20 * math.log10(m) if fmt == 'DB' else m
        b = math.degrees(math.atan2(z.imag, z.real))
    return f'{num(a, style)} {num(b, style + 1)}'


def num(v, style):
    style %= 4
    if style == 0:
        return repr(float(v))
    if style == 1:
        return '%.16e' % v
    if style == 2:
        return '%+.17G' % v
    s = '%.18f' % v
    return s.replace('0.', '.', 1) if s.lstrip('-').startswith('0.') else s
