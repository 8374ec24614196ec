"""development: single-node mutants of a source file
mutants(path) -> list of (line, description, new text)"""
import ast, sys

SKIP = ('__str__', '__repr__', 'asstr', 'strM', 'printM', 'processGTL', 'prettyprint')
DBG = ('_debug_', 'logident', 'tLogger', 'ident(', 'print(', 'whoami', 'warnings.')


def mutants(path):
    raw = open(path, newline='').read()
    crlf = '\r\n' in raw
    src = raw.replace('\r\n', '\n')
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def off(l, c):
        return starts[l - 1] + c
    out = []

    def emit(node, new, what):
        a, z = off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)
        old = b[a:z].decode()
        if old == new:
            return
        t = (b[:a] + new.encode() + b[z:]).decode()
        try:
            compile(t, path, 'exec')
        except SyntaxError:
            return
        out.append((node.lineno, f'{what}: {old[:70]!r} -> {new[:70]!r}', t.replace('\n', '\r\n') if crlf else t))

    def txt(n):
        return b[off(n.lineno, n.col_offset):off(n.end_lineno, n.end_col_offset)].decode()
    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
           ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: None, ast.Mod: None}

    def visit(n):
        if isinstance(n, ast.FunctionDef) and n.name in SKIP:
            return
        if isinstance(n, ast.If) and ('__main__' in txt(n.test) or 'VERBOSE' in txt(n.test) or 'debug' in txt(n.test)):
            return
        if isinstance(n, ast.Assign) and '__updated__' in txt(n):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for s in body:
                visit(s)
            return
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            s = txt(n)
            if any(d in s for d in DBG) and not isinstance(n, ast.Raise):
                return
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
                emit(n, 'pass', 'delete')
            if isinstance(n, ast.Continue):
                emit(n, 'break', 'continue')
            if isinstance(n, ast.Break):
                emit(n, 'continue', 'break')
            if isinstance(n, ast.Raise):
                return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if any(d in txt(n.test) for d in DBG):
                for s in ast.iter_child_nodes(n):
                    if s is not n.test:
                        pass
                return
            emit(n.test, f'(not ({txt(n.test)}))', 'negate')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            emit(n, f'{txt(n.left)} {CMP[type(n.ops[0])]} {txt(n.comparators[0])}', 'compare')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            emit(n, '(' + op.join(f'({txt(v)})' for v in n.values) + ')', 'bool')
            for k in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                emit(n, '(' + o2.join(f'({txt(v)})' for j, v in enumerate(n.values) if j != k) + ')', 'drop operand')
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            emit(n, f'({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})', 'arith')
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            emit(n, f'({txt(n.right)} @ {txt(n.left)})', 'swap')
        if isinstance(n, ast.UnaryOp):
            emit(n, f'({txt(n.operand)})', 'unary')
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            emit(n, f'({n.value!r} + 1)', 'const')
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            emit(n, str(not n.value), 'const')
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'conj', 'deepcopy', 'transpose', 'upper', 'lower',
                                                           'strip', 'squeeze') and not n.args:
                emit(n, txt(f.value), 'drop call')
            if len(n.args) == 1 and (isinstance(f, ast.Name) and f.id in ('list', 'dict', 'sorted', 'abs', 'deepcopy',
                                     'tuple', 'set', 'float', 'int', 'complex', 'str') or isinstance(f, ast.Attribute)
                                     and f.attr in ('array', 'deepcopy', 'copy', 'abs', 'conj', 'sqrt', 'asarray',
                                                    'real', 'imag')):
                emit(n, f'({txt(n.args[0])})', 'drop call')
            for k, kw in enumerate(n.keywords):
                if kw.arg and not any(d in txt(n) for d in DBG):
                    parts = [txt(a) for a in n.args] + [
                        (f'{w.arg}={txt(w.value)}' if w.arg else f'**{txt(w.value)}')
                        for j, w in enumerate(n.keywords) if j != k]
                    emit(n, f'{txt(f)}({", ".join(parts)})', 'drop keyword')
            if len(n.args) == 2 and not n.keywords:
                emit(n, f'{txt(f)}({txt(n.args[1])}, {txt(n.args[0])})', 'swap args')
        if isinstance(n, ast.Attribute) and n.attr in ('T', 'real', 'imag'):
            emit(n, txt(n.value), 'drop attr')
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)
    visit(tree)
    return out


if __name__ == '__main__':
    for f in sys.argv[1:]:
        m = mutants(f)
        print(f, len(m))
