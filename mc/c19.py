"""C19: files are found and read as described.

Every small directory tree and search list is built in the scratch directory of
the worker and searched; every small text is read from each kind of source.
"""
import fnmatch, io, itertools, os, re, shutil
from .engine import Family, Violation

PROP = 'C19'
ASSUME = ['"[" in a pattern stands for itself (as in the code), "*" and "?" are wildcards',
          'which of several matches inside the first directory is returned is not specified',
          'a text that ends with a newline may give a last empty line']


# what a search directory may hold: list of files (directories end with /)
SHAPES = {
    'missing': None, 'empty': [], 'here': ['x.txt'], 'deep': ['s/x.txt'], 'deeper': ['s/t/x.txt', 's/y.txt'],
    'other': ['y.txt', 'x.txt1', 's/ax.txt', 's/x.tx'], 'both': ['x.txt', 's/t/x.txt'], 'dir': ['x.txt/'],
    'dirs': ['x.txt/x.txt'], 'two': ['s/x.txt', 't/x.txt'], 'more': ['x1.txt', 's/x2.txt', 'x[1].txt'],
    'hid': ['.h/x.txt', 'x.TXT'],
}
PATTERNS = ['x.txt', 'x*.txt', 'x[1].txt', '?.txt', 's/x.txt', 'none']
HOW = [('u', 'u', 'u'), ('e', 'u', 'a'), ('a', 'u', 'e'), ('e', 'e', 'a'), ('a', 'a', 'u'), ('e', 'a', 'a'), ('u', 'e', 'e'),
       # directories that are given more than once
       ('ee', 'e', 'u'), ('eu', 'e', 'ea'), ('uu', 'u', 'ua'), ('aa', 'ua', 'eu')]
NAMES = {'plain': ['d1', 'd2', 'd3'], 'odd': ['d[1]', 'd 2', 'd*'], 'wild': ['d*', 'dx', 'd?'],
         'nest': ['d1', 'd1/s', 'd1/s/t'], 'home': ['~/d1', '~/q/d2', 'd3'], 'slash': ['d1/', './d2', 'd3//']}


def build(name, shape):
    files = SHAPES[shape]
    if files is None:
        return
    d = os.path.expanduser(name)
    os.makedirs(d, exist_ok=True)
    for f in files:
        p = os.path.join(d, f)
        if f.endswith('/'):
            if not os.path.exists(p.rstrip('/')):
                os.makedirs(p)
            continue
        if os.path.isfile(os.path.dirname(p)) or os.path.isdir(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            fh.write(repr({'dir': name, 'file': f}))


def matches(d, pattern):
    """all the files below a directory that match"""
    rx = ''.join('[^/]*' if c == '*' else '[^/]' if c == '?' else re.escape(c) for c in pattern)
    out = set()
    for root, dirs, files in os.walk(d):
        for sub, ds, fs in os.walk(root):
            for f in fs:
                rel = os.path.relpath(os.path.join(sub, f), root)
                if re.fullmatch(rx, rel) and not (pattern[0] in '*?' and rel[0] == '.'):
                    out.add(os.path.realpath(os.path.join(sub, f)))
    return out


def trees(tier):
    for naming in NAMES:
        shapes = list(SHAPES) if naming == 'plain' or tier != 'quick' else ['missing', 'empty', 'here', 'deep', 'other']
        for sh in itertools.product(shapes, repeat=3):
            for h in range(len(HOW)) if tier != 'quick' else ((sum(map(len, sh)) % 7, (sum(map(len, sh)) + 3) % 7, 7 + sum(map(len, sh)) % 4)):
                yield (naming, list(sh), h)


class Here:
    """an empty directory as working directory and home"""
    def __enter__(self):
        self.old, self.home = os.getcwd(), os.environ.get('HOME')
        self.dir = os.path.join(self.old, 'tree')
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.mkdir(self.dir)
        os.chdir(self.dir)
        os.environ['HOME'] = os.path.join(self.dir, 'home')

    def __exit__(self, *a):
        os.chdir(self.old)
        if self.home is None:
            os.environ.pop('HOME')
        else:
            os.environ['HOME'] = self.home
        os.environ.pop('MC_DIRS', None)
        shutil.rmtree(self.dir)


def find(fn, pattern, **kw):
    try:
        return fn(pattern, **kw)
    except OSError:
        return None


def chk_tree(case, st):
    from pyRFtk.findpath import findpath, existspath
    from pyRFtk.ReadDictData import ReadDictData
    naming, sh, h = case
    with Here():
        names = NAMES[naming]
        for n, s in zip(names, sh):
            build(n, s)
        kind = HOW[h]
        env, user, app = [[n for n, k in zip(names, kind) if x in k] +
                          [n for n, k in zip(names, kind) if k.count(x) > 1] for x in 'eua']
        os.environ['MC_DIRS'] = ':'.join(env)
        kw = dict(userdirs=user, appdirs=app)
        if env:
            kw['envvar'] = 'MC_DIRS'
        forms = [kw]
        if len(user) == 1:
            forms.append(dict(kw, userdirs=user[0]))
        if len(app) == 1:
            forms.append(dict(kw, appdirs=app[0]))
        if not env:
            forms.append(dict(kw, envvar='MC_DIRS'))
            forms.append(dict(kw, envvar='MC_NOT_SET'))
        order = env + user + app
        for p in PATTERNS:
            want, missing = set(), False
            for d in order:
                d = os.path.expanduser(d)
                if not os.path.exists(d):
                    missing = True
                    continue
                want = matches(d, p)
                if want:
                    break
            first_missing = [d for d in order if not os.path.exists(os.path.expanduser(d))]
            for f in forms:
                w = f'{p} in {f} (env {env}, trees {dict(zip(names, sh))})'
                keep = repr(f)
                got = find(findpath, p, **f)
                if (got is not None) != bool(want):
                    raise Violation(f'findpath {w}: {got}, expected {sorted(want)}')
                if want and (os.path.realpath(got) not in want or not os.path.isfile(got)):
                    raise Violation(f'findpath {w}: {got}, expected one of {sorted(want)}')
                ex = existspath(p, **f)
                if bool(ex) != bool(want) or (ex and os.path.realpath(ex) not in want) or ex is None:
                    raise Violation(f'existspath {w}: {ex!r}, expected {sorted(want)}')
                # with missing directories not accepted
                got = find(findpath, p, missingOK=False, **f)
                if (got is not None) != (bool(want) and not missing):
                    raise Violation(f'findpath {w}, missingOK=False: {got}, expected {sorted(want)}, missing {first_missing}')
                if repr(f) != keep:
                    raise Violation(f'findpath changes the lists given: {f}')
                if want:
                    d = ReadDictData(p, **f)
                    if os.path.realpath(os.path.join(os.path.expanduser(d['dir']), d['file'])) not in want:
                        raise Violation(f'ReadDictData {w}: {d}')
                else:
                    try:
                        d = ReadDictData(p, **f)
                    except OSError:
                        pass
                    else:
                        raise Violation(f'ReadDictData {w}: {d}')
                st.checks += 4
                st.transitions += 4
            st.state(naming, sh, h, p, sorted(want) and [os.path.relpath(x) for x in sorted(want)])
            st.outcome(p, [os.path.relpath(x) for x in sorted(want)])


# --- the default directory and absolute names
def plain(tier):
    for s in SHAPES:
        for p in PATTERNS:
            for form in ('default', 'abs', 'verbose'):
                yield (s, p, form)


def chk_plain(case, st):
    from pyRFtk.findpath import findpath, existspath
    s, p, form = case
    with Here():
        build('.', s)
        want = matches('.', p)
        q, kw = p, {}
        if form == 'abs':
            q = os.path.abspath(p)
            want = {os.path.realpath(p)} if os.path.isfile(p) else \
                {x for x in want if os.path.dirname(x) == os.path.dirname(os.path.realpath(p))}
        if form == 'verbose':
            kw = {'verbose': True}
        got = find(findpath, q, **kw)
        if (got is None) != (not want) or want and os.path.realpath(got) not in want:
            raise Violation(f'findpath({q}) in {SHAPES[s]}: {got}, expected {sorted(want)}')
        ex = existspath(q, **kw)
        if bool(ex) != bool(want):
            raise Violation(f'existspath({q}) in {SHAPES[s]}: {ex}')
        st.checks += 2
        st.transitions += 2
        st.state(s, p, form)
        st.outcome(sorted(os.path.relpath(x) for x in want))


# --- dictionaries
ATOMS = [1, -2.5, 1e-30, 0.1, 3 + 4j, 'text', "it's", 'a\nb', 'é', '', True, None, (), [], {}, b'x']


def dicts(tier):
    for a in range(len(ATOMS)):
        for b in range(len(ATOMS)):
            for form in range(5):
                yield (a, b, form)


def chk_dict(case, st):
    from pyRFtk.ReadDictData import ReadDictData, ReadDictString
    a, b, form = case
    a, b = ATOMS[a], ATOMS[b]
    d = [{'k': a, 'l': b}, {'k': [a, b, [b]]}, {'k': {'m': a, 'n': (b,)}, 3: 4}, [a, {'z': b}],
         {('t', 1): a, -1: {'u': {'v': b}}}][form]
    import pprint
    for text in (repr(d), pprint.pformat(d, width=8, sort_dicts=False), '# a comment\n' + repr(d) + '  # end\n\n',
                 repr(d).replace(', ', ' ,\n  ')):
        try:
            import ast
            want = ast.literal_eval(text)
        except SyntaxError:
            continue
        for got in (ReadDictString(text), file_of(text, ReadDictData)):
            if repr(got) != repr(want) or repr(got) != repr(d) and ' ,\n' not in text:
                raise Violation(f'{text!r} is read as {got!r}')
            st.checks += 1
            st.transitions += 1
    st.state(repr(d))
    st.outcome(repr(d))


def file_of(text, fn):
    with Here():
        with open('d.mod', 'w', encoding='utf-8') as fh:
            fh.write(text)
        return fn('d.mod')


BAD = ["{'a': x}", "{'a': __import__('os')}", "{'a': 1", '', "{'a': 1} 3", "{'a': f()}", 'a = 1']


def bads(tier):
    for i in range(len(BAD)):
        yield i


def chk_bad(i, st):
    from pyRFtk.ReadDictData import ReadDictData, ReadDictString
    for fn in (ReadDictString, lambda t: file_of(t, ReadDictData)):
        try:
            r = fn(BAD[i])
        except Exception as e:
            st.outcome(type(e).__name__)
            st.checks += 1
            st.transitions += 1
            continue
        raise Violation(f'{BAD[i]!r} is read as {r!r}')
    st.state(i)


# --- lines
LINES = ['a', '', ' b ', '! c\td', 'x\\ny', '1.0 2.0e3  -4']


def texts(tier):
    for n in range(0, 5 if tier == 'quick' else 6):
        for t in itertools.product(range(len(LINES)), repeat=n):
            yield list(t)


def chk_text(t, st):
    from pyRFtk.getlines import getlines
    lines = [LINES[i] for i in t]
    for end in ('\n', '', '\n\n'):
        text = '\n'.join(lines) + end
        if not t:
            text = end
        want = text.split('\n')
        if want[-1] == '':
            want = want[:-1]

        def chk(got, what, w=want):
            if got and got[-1] == '' and len(got) == len(w) + 1:
                got = got[:-1]
            if got != w:
                raise Violation(f'{what} of {text!r} gives {got}, expected {w}')
            st.checks += 1
            st.transitions += 1
        with open('lines.txt', 'w') as fh:
            fh.write(text)
        g = getlines('lines.txt')
        chk(list(g()), 'path')
        chk(list(g()), 'path again')
        a, b = g(), g()                            # two readers at once
        both = [(x, y) for x, y in zip(a, b)]
        chk([x for x, _ in both], 'path, two at once')
        chk([y for _, y in both], 'path, two at once')
        with open('lines.txt') as fh:
            chk(list(getlines(fh)()), 'open file')
        with open('lines.txt') as fh:
            fh.readline()
            chk(list(getlines(fh)()), 'rest of the open file', want[1:])
        with open('lines.txt', newline='') as fh:
            chk(list(getlines(fh)()), 'open file')
        chk(list(getlines(io.StringIO(text))()), 'text stream')
        if '\n' in text:
            g = getlines(text)
            chk(list(g()), 'text')
            chk(list(g()), 'text again')
            both = [(x, y) for x, y in zip(g(), getlines('lines.txt')())]
            chk([x for x, _ in both][:len(want)], 'text and file at once')
        st.outcome(want)
    st.state(t)


def families(tier):
    return [
        Family('trees', lambda: trees(tier), chk_tree,
               f'three search directories, each with one of {len(SHAPES)} contents (or of 5 for the unusual names in the '
               f'quick tier), {len(NAMES)} namings, {len(HOW)} distributions over environment/user/application lists '
               f'(2 of these per tree in the quick tier), {len(PATTERNS)} patterns'),
        Family('default', lambda: plain(tier), chk_plain, 'default directory, absolute names, verbose'),
        Family('dictionaries', lambda: dicts(tier), chk_dict, f'pairs of {len(ATOMS)} values in 5 structures, 4 layouts'),
        Family('malformed', lambda: bads(tier), chk_bad, f'{len(BAD)} texts that are no data'),
        Family('lines', lambda: texts(tier), chk_text,
               f'all texts of <= {4 if tier == "quick" else 5} lines of {len(LINES)}, 3 endings, each kind of source'),
    ]
