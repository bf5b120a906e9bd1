"""python3 tools/selftest.py [ID ...]: a run is a function of its seed

Plays the same runs with other numbers of workers and another hash seed and
compares the digests of their traces.
"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(i, **env):
    fd, f = tempfile.mkstemp()
    os.close(fd)
    e = dict(os.environ, VERIF_DIGESTS=f, VERIF_RUNS=os.environ.get('VERIF_RUNS', '60'), **env)
    p = subprocess.run([sys.executable, 'run.py', 'check', i, 'quick'], cwd=ROOT, env=e, capture_output=True, text=True)
    d = sorted(json.load(open(f)).items())
    os.unlink(f)
    return p.returncode, d


def main():
    bad = 0
    for i in sys.argv[1:] or ['C%02d' % k for k in range(1, 20)]:
        a = digests(i, VERIF_WORKERS='8')
        for env in (dict(VERIF_WORKERS='8'), dict(VERIF_WORKERS='1'), dict(VERIF_WORKERS='3', VERIF_HASHSEED='4711')):
            b = digests(i, **env)
            same = a == b
            bad += not same
            print(i, env, 'same' if same else 'DIFFERENT', len(a[1]),
                  '' if same else [(x, y) for x, y in zip(a[1], b[1]) if x != y][:3], flush=True)
    sys.exit(1 if bad else 0)


main()
