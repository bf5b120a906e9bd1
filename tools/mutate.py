"""python3 tools/mutate.py N SEED OUT: small random changes of the library and
the first check that reports each (only changes that the tests let pass count).
MUT_KINDS selects kinds (cmp op bool int not cond raise delete kwarg slice
return), MUT_TMP the folder for the copies.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
PKG = 'freesif/'
TMP = os.environ.get('MUT_TMP', '/tmp/mut')
KINDS = os.environ.get('MUT_KINDS', '').split()
ORDER = {
    'sequentialparser/parsers.py': 'C01 C10 C09 C04 C03 C05 C08 C02 C06 C07 C17 C12 C13 C14 C15',
    'sequentialparser/sif2hdf5.py': 'C02 C04 C08 C09 C01 C03 C06 C07 C10 C17 C05 C11',
    'sequentialparser/sequentialfiles.py': 'C01 C10 C05 C04 C09 C02 C03',
    'data/file.py': 'C11 C06 C02 C12 C08 C13 C17 C16',
    'data/sifdata.py': 'C11 C13 C12 C14 C16 C15 C17',
    'data/strucdata.py': 'C12 C13 C15 C16 C17 C11',
    'data/hydrodata.py': 'C14 C16 C11 C17',
    'data/helpers.py': 'C13 C14 C12 C02 C15 C11 C17',
    'utils/writers.py': 'C18 C19 C16 C17',
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in',
       ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(True)
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()))
    b = src.encode()

    def pos(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    out = []

    def seg(n):
        a, z = pos(n)
        return b[a:z].decode()

    def add(n, new, what):
        a, z = pos(n)
        out.append((n.lineno, what, seg(n)[:60], new, a, z))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, 'False', 'cond')
            if isinstance(n, ast.If):
                add(n.test, 'True', 'cond')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, '%s %s %s' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'op')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), 'int')
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            add(n.test, 'not (%s)' % seg(n.test), 'not')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, o.join('(%s)' % seg(v) for v in n.values), 'bool')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and n not in docs:
            add(n, 'pass', 'raise' if isinstance(n, ast.Raise) else 'delete')
        elif isinstance(n, ast.Call) and n.keywords and all(k.arg for k in n.keywords):
            k = n.keywords[-1]
            c = b[pos(n)[0]:pos(k)[0]].rstrip()
            out.append((n.lineno, 'kwarg', seg(k)[:60], '' if not c.endswith(b',') else 'None', pos(k)[0], pos(k)[1])
                       if not c.endswith(b',') else
                       (n.lineno, 'kwarg', seg(k)[:60], '', pos(n)[0] + len(c) - 1, pos(k)[1]))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(n.value), 'slice')
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, 'return None', 'return')
    return b, out


def sh(cmd, cwd, env=None, timeout=300):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def build(i, fn, mu, b):
    w = '%s/w%d' % (TMP, i)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    a, z = mu[4], mu[5]
    with open(os.path.join(w, PKG + fn), 'wb') as f:
        f.write(b[:a] + mu[3].encode() + b[z:])
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', TMPDIR=TMP)
    p = sh([PY, '-W', 'ignore', '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider'], w, env)
    if p is None or '73 passed' not in p.stdout:
        shutil.rmtree(w, ignore_errors=True)
        return None
    return w


def main():
    n, seed, outf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = sys.argv[4:]
    rng = random.Random(seed)
    pool = []
    for fn in ORDER:
        if only and fn not in only:
            continue
        src = open('/repo/' + PKG + fn).read()
        b, ms = mutants(src)
        ms = [m for m in ms if not KINDS or m[1] in KINDS]
        if fn.endswith('parsers.py'):
            # a column or a position of one of the 100 record types: one in four
            ms = [m for m in ms if m[1] != 'int' or rng.random() < .25]
        pool += [(fn, m, b) for m in ms]
    print(len(pool), 'mutants')
    rng.shuffle(pool)
    pool = pool[:n]
    with ThreadPoolExecutor(8) as ex:
        alive = [(x, w) for x, w in zip(pool, ex.map(lambda t: build(t[0], t[1][0], t[1][1], t[1][2]),
                                                     [(i, p) for i, p in enumerate(pool)])) if w]
    print(len(alive), 'of', len(pool), 'pass the tests', flush=True)
    res = []
    if os.path.exists(outf):
        res = json.load(open(outf))         # go on
    skip = len(res)
    for (fn, mu, _), w in alive[skip:]:
        hit = None
        odd = []
        for c in ORDER[fn].split()[:11]:
            env = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_SHRINK='0')
            if c != ORDER[fn].split()[0]:
                env['VERIF_RUNS'] = '150'
            p = sh([sys.executable, 'run.py', 'check', c, 'quick'], ROOT, env, 600)
            if p is None or p.returncode not in (0, 1):
                odd.append((c, None if p is None else p.returncode))
            elif p.returncode == 1:
                hit = c
                break
        res.append(dict(file=fn, line=mu[0], kind=mu[1], old=mu[2], new=mu[3][:80], hit=hit, odd=odd))
        with open(outf, 'w') as f:
            json.dump(res, f, indent=1)
        print('%-4s %s:%d %s [%s] -> [%s] %s' % (hit or 'MISS', fn, mu[0], mu[1], mu[2].replace('\n', '|'), mu[3][:50].replace('\n', '|'), odd or ''), flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
