#!/opt/venv/bin/python
"""Mutation run (development aid, not a check): small syntactic changes to /repo's sources, kept when the 32 tests still pass, are put to
the checks. usage: mutate.py OUT FILE[:CHECK,CHECK..]...   (VH_SHARD=i/n takes every n-th mutant)"""
import ast, os, shutil, subprocess, sys, tempfile
REPO = '/repo'


def spans(src):
    """[(start, end, new text, what)]"""
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*pos(n))].decode()
    out = []

    def put(n, new, what):
        s, e = pos(n)
        out.append((s, e, new, '%d %s: %s -> %s' % (n.lineno, what, b[s:e].decode()[:60].replace('\n', ' '), new[:60])))
    OPS = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
            for s in n.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    doc.add(id(s)); doc.add(id(s.value))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
            put(n, '%s %s %s' % (text(n.left), OPS[type(n.ops[0])], text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.Compare):
            put(n, '(%s) and True' % text(n).replace('<=', '<', 1), 'cmp')
            put(n, '(%s) and True' % text(n)[::-1].replace('=<', '<', 1)[::-1], 'cmp')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, w.join('(%s)' % text(v) for v in n.values), 'bool')
            for i in range(len(n.values)):
                put(n, text(n.values[i]), 'boolkeep')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, repr(not v), 'const')
            elif isinstance(v, int):
                put(n, repr(v + 1), 'const')
                if v:
                    put(n, repr(v - 1), 'const')
            elif isinstance(v, bytes) and v:
                put(n, repr(bytes([v[0] ^ 1]) + v[1:]), 'const')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.BitAnd, ast.BitOr, ast.BitXor, ast.RShift, ast.LShift)):
            w = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|', ast.RShift: '<<', ast.LShift: '>>'}[type(n.op)]
            put(n, '%s %s %s' % (text(n.left), w, text(n.right)), 'binop')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, 'not (%s)' % text(n.test), 'neg')
            if isinstance(n, ast.If):
                put(n.test, 'False', 'iffalse')
                put(n.test, 'True', 'iftrue')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', 'ret')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), 'noslice')
        elif isinstance(n, ast.keyword) and n.arg:
            pass
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            s, _ = pos(n.args[0]); _, e = pos(n.args[1])
            out.append((s, e, text(n.args[1]) + ', ' + text(n.args[0]), '%d swapargs: %s' % (n.lineno, text(n)[:60].replace('\n', ' '))))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'KeyboardInterrupt', 'noexcept')
    return sorted(set(out))


def main():
    out = sys.argv[1]
    si, sn = map(int, os.environ.get('VH_SHARD', '0/1').split('/'))
    work = tempfile.mkdtemp(prefix='mutate')
    r = work + '/r'
    shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git'))
    k = 0
    for a in sys.argv[2:]:
        f, _, checks = a.partition(':')
        checks = checks.split(',')
        path = os.path.join(r, f)
        raw = open(path, 'rb').read()
        crlf = b'\r\n' in raw
        src = raw.decode().replace('\r\n', '\n')
        for s, e, new, what in spans(src):
            k += 1
            if k % sn != si:
                continue
            b = src.encode()
            m = (b[:s] + new.encode() + b[e:])
            try:
                compile(m, f, 'exec')
            except SyntaxError:
                continue
            open(path, 'wb').write(m.replace(b'\n', b'\r\n') if crlf else m)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=r, PYTHONHASHSEED='0')
            try:
                t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--ignore=tests/saltlib', 'tests'], cwd=r, env=env,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
            except subprocess.TimeoutExpired:
                t = 1
            res = 'tests'
            if t == 0:
                res = 'SURVIVED'
                odd = []
                for c in checks:
                    env = dict(os.environ, VERIF_REPO=r, VERIF_SEED='1')
                    try:
                        p = subprocess.run(['./check.sh', c], cwd=os.environ.get('VH_DIR', '/verif'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                        rc = p.returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc == 1:
                        res = c
                        break
                    if rc != 0:
                        odd.append('%s=%s' % (c, rc))
                if odd:
                    res += ' ' + ','.join(odd)
            with open(out, 'a') as o:
                o.write('%s %s | %s\n' % (res, f, what))
        open(path, 'wb').write(raw)
    shutil.rmtree(work)


main()
