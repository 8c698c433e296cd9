#!/usr/bin/env python3
"""mutate.py PROP N SEED [files...]: plant N random small changes in functions the check interprets; report which survive.
Development aid only; no registered check uses it."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'


def visited(p):
    f = f'/tmp/visited_{p}.txt'
    if not os.path.exists(f):
        subprocess.run(['python3-vt', 'check.py', p], cwd=V, env=dict(os.environ, VP_VISITED=f), capture_output=True)
    return set(open(f).read().split('\n'))


FLIP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
        ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(path, rel, names):
    src = open(path).read()
    lines = src.split('\n')
    tree = ast.parse(src)
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def offs(n):
        return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)

    def walk(n, qual):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                walk(c, qual + [c.name])
            elif isinstance(n, ast.FunctionDef):
                if isinstance(c, ast.arguments):
                    continue
                for x in ast.walk(c):
                    cand(x, '.'.join(qual), n)

    def cand(x, q, fn):
        if not any(v.endswith('.' + q) for v in names):
            return
        s = seg(x)
        if s is None:
            return
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            if 'TYPE_CHECKING' in s:
                return
            a, b = seg(x.left), seg(x.comparators[0])
            out.append((q, offs(x), f'({a} {FLIP[type(x.ops[0])]} {b})', 'cmp'))
        elif isinstance(x, ast.BoolOp):
            op = ' or ' if isinstance(x.op, ast.And) else ' and '
            out.append((q, offs(x), '(' + op.join('(' + seg(v) + ')' for v in x.values) + ')', 'bool'))
            for i in range(len(x.values)):
                o = ' and ' if isinstance(x.op, ast.And) else ' or '
                out.append((q, offs(x), '(' + o.join('(' + seg(v) + ')' for j, v in enumerate(x.values) if j != i) + ')', 'drop'))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            out.append((q, offs(x), '(' + seg(x.operand) + ')', 'not'))
        elif isinstance(x, ast.Constant) and isinstance(x.value, bool):
            out.append((q, offs(x), str(not x.value), 'boolc'))
        elif isinstance(x, ast.Constant) and isinstance(x.value, int):
            out.append((q, offs(x), str(x.value + 1), 'int'))
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value and len(x.value) < 20 and '\n' not in s and "'" in s and not s.startswith('f'):
            out.append((q, offs(x), repr(x.value + 'x'), 'str'))
        elif isinstance(x, (ast.Assign, ast.AugAssign)) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)):
            if 'environLocal' in s or 'print' in s or 'warn' in s.lower():
                return
            out.append((q, offs(x), 'pass', 'del'))
    walk(tree, [])
    return src, out


def apply(src, off, new):
    ls = src.encode().split(b'\n')
    l0, c0, l1, c1 = off
    head = b'\n'.join(ls[:l0 - 1] + [ls[l0 - 1][:c0]])
    tail = b'\n'.join([ls[l1 - 1][c1:]] + ls[l1:])
    return (head + new.encode() + tail).decode()


def main():
    props = sys.argv[1].split(',')
    n = int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]))
    filt = sys.argv[4:]
    vs = {p: visited(p) for p in props}
    allv = set().union(*vs.values())
    pool = []
    for v in sorted(allv):
        if ':' not in v:
            continue
    files = sorted({v.split(':')[0] for v in allv if v.startswith('converter21/')})
    for rel in files:
        if filt and not any(f in rel for f in filt):
            continue
        names = {v.split(':')[1] for v in allv if v.startswith(rel + ':')}
        src, ms = mutants('/repo/' + rel, rel, names)
        pool += [(rel, src) + m for m in ms]
    rnd.shuffle(pool)
    print(len(pool), "possible", flush=True)
    done = [0]

    def one(m):
        rel, src, q, off, new, kind = m
        if done[0] >= n:
            return None
        try:
            t = apply(src, off, new)
            ast.parse(t)
        except SyntaxError:
            return None
        w = tempfile.mkdtemp(prefix='vpmut_')
        try:
            shutil.copytree('/repo', w + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
            open(f'{w}/r/{rel}', 'w').write(t)
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            r = subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider  2>&1 | tail -3', shell=True, cwd=w + '/r', env=e, capture_output=True, text=True)
            if '148 passed' not in r.stdout:
                return None
            done[0] += 1
            caught = []
            for p in props:
                if not any(v.startswith(rel + ':') and v.endswith('.' + q) for v in vs[p]):
                    continue
                shutil.copytree(V, w + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'), dirs_exist_ok=True)
                r = subprocess.run(['python3-vt', 'check.py', p], cwd=w + '/v', env=dict(e, VP_REPO=w + '/r'), capture_output=True, text=True)
                if r.returncode == 1:
                    caught.append(p)
                    break
                elif r.returncode:
                    caught.append(f'{p}:rc{r.returncode}')
            old = '\n'.join(src.split('\n')[off[0] - 1:off[2]])
            return f"{'caught ' + ','.join(caught) if caught else 'SURVIVED'} | {rel}:{off[0]} {q} [{kind}] {new[:110]!r} <<< {old.strip()[:160]!r}"
        finally:
            shutil.rmtree(w)
    with ThreadPoolExecutor(int(os.environ.get('W', '5'))) as ex:
        for l in ex.map(one, pool[:n * 4]):
            if l:
                print(l, flush=True)


main()
