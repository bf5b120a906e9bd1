"""python3 tools/coverage.py [RUNS [ID ...]]: lines of freesif no run executes"""
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def lines(co):
    out = {ln for _, _, ln in co.co_lines() if ln}
    for c in co.co_consts:
        if hasattr(c, 'co_lines'):
            out |= lines(c)
    return out


def main():
    runs = sys.argv[1] if len(sys.argv) > 1 else '150'
    ids = sys.argv[2:] or ['C%02d' % k for k in range(1, 20)]
    seen = set()
    with tempfile.TemporaryDirectory() as d:
        for i in ids:
            subprocess.run([sys.executable, 'run.py', 'check', i, 'quick'], cwd=ROOT, capture_output=True,
                           env=dict(os.environ, VERIF_COV=d, VERIF_RUNS=runs))
            for f in os.listdir(d):
                seen |= set(open(os.path.join(d, f)).read().split('\n'))
                os.unlink(os.path.join(d, f))
    for sub in ('sequentialparser', 'data', 'utils', 'calc', '.'):
        folder = os.path.join(REPO, 'freesif', sub)
        for f in sorted(os.listdir(folder)):
            if not f.endswith('.py'):
                continue
            src = open(os.path.join(folder, f)).read()
            text = src.split('\n')
            want = set()
            for c in compile(src, f, 'exec').co_consts:
                if hasattr(c, 'co_lines'):
                    # of functions only: class bodies run at import
                    for g in ([c] if c.co_flags & 2 else [x for x in c.co_consts if hasattr(x, 'co_lines')]):
                        want |= lines(g) - {g.co_firstlineno}
            miss = sorted(x for x in want if '%s:%d' % (f, x) not in seen)
            print('== %s/%s: %d of %d lines not executed' % (sub, f, len(miss), len(want)))
            if f != 'vtfdata.py':
                for x in miss:
                    print('  %5d %s' % (x, text[x - 1].rstrip()[:110]))


main()
