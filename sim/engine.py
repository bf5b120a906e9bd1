"""Seeded search over simulated runs, shrinking, replay and evidence.

A check module provides
    ID, TITLE, COMPONENTS (real / stub), RUNS = {tier: n}
    gen(rng, tier)   -> plan   (JSON; the only input of a run)
    run(plan, ctx)             (raises Violation)
    shrink(plan)     -> iterator of smaller plans
Every run happens in a child forked from this warmed process, so no run sees
state another left behind; a plan plus the code determines the run.
"""
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CPU_LIMIT = 60
HANG = 240
LINE_LIMIT = 30000000
OPS_LIMIT = 3000000
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    """The property is broken.  key: stable identification of what failed."""

    def __init__(self, key, msg):
        super(Violation, self).__init__(msg)
        self.key, self.msg = key, msg


class Discard(Exception):
    """The plan exercises nothing (counted, not a pass)."""


class Unreplayable(Exception):
    pass


# ------------------------------------------------------------- environment ---

def reexec():
    """Restart under the seam: preloaded layer, fixed hash seed, one thread."""
    from . import shim
    so = shim.build()
    want = {'LD_PRELOAD': so, 'PYTHONDONTWRITEBYTECODE': '1',
            'NUMEXPR_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1', 'OMP_NUM_THREADS': '1',
            'OPENBLAS_NUM_THREADS': '1', 'BLOSC_NTHREADS': '1', 'MALLOC_ARENA_MAX': '1',
            'HDF5_USE_FILE_LOCKING': 'TRUE', 'PYTHONUNBUFFERED': '1', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}
    want['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
    if any(os.environ.get(k) != v for k, v in want.items()) or sys.executable != PY:
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'LD_'))}
        env.update(want)
        os.execve(PY, [PY, '-W', 'ignore'] + [os.path.join(ROOT, 'run.py')] + sys.argv[1:], env)


def warm():
    """Import everything the runs need, freesif compiled from its source."""
    import importlib._bootstrap_external as be
    orig = be.cache_from_source

    def no_cache(path, *a, **k):
        if str(path).startswith(REPO):
            raise NotImplementedError
        return orig(path, *a, **k)
    be.cache_from_source = no_cache
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    from . import sched
    sched.install(REPO)
    import numpy
    import tables
    import freesif
    import freesif.utils.writers
    got = os.path.realpath(freesif.__file__)
    if not got.startswith(os.path.realpath(REPO) + '/'):
        raise RuntimeError('freesif imported from ' + got)
    tables.parameters.MAX_NUMEXPR_THREADS = 1
    tables.parameters.MAX_BLOSC_THREADS = 1
    return freesif


def scratch_base():
    for base in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='fsim.', dir=base)
        except OSError:
            pass
    raise RuntimeError('no scratch folder')


# -------------------------------------------------------------------- child ---

class Ctx(object):
    """What a run may use: the seam, a scratch folder, counters."""

    def __init__(self, sim, work):
        self.sim, self.work = sim, work
        self.probes, self.faults = {}, {}
        self.nsub = 0
        self.evals = 0
        self.events = []

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        if n:
            self.faults[name] = self.faults.get(name, 0) + n

    def eval(self, n=1):
        self.evals += n

    def log(self, *a):
        """goes into the trace digest (never timing, never addresses)"""
        t = ' '.join(str(x) for x in a)
        self.events.append(t)
        self.sim.mix(t)

    def dir(self, name=None):
        self.nsub += 1
        d = os.path.join(self.work, name or 'd%d' % self.nsub)
        os.makedirs(d, exist_ok=True)
        return d


class TooManyLines(BaseException):
    pass


def _linebudget(limit):
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > limit:
                raise TooManyLines()
        return local

    def tracer(frame, event, arg):
        if '/freesif/' in frame.f_code.co_filename:
            return local
    sys.settrace(tracer)


def _coverage(folder):
    """lines of freesif executed by this run, one file per run (for finding
    what the generators do not reach; not part of the checks)"""
    mon, seen = sys.monitoring, set()

    def line(co, n):
        if '/freesif/' in co.co_filename:
            seen.add('%s:%d' % (os.path.basename(co.co_filename), n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'cov')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def save():
        with open(os.path.join(folder, '%d.%d' % (os.getpid(), time.monotonic_ns())), 'w') as f:
            f.write('\n'.join(seen))
    return save


def _set_order(plan):
    """the order in which sets of open files are walked (closing all of them)
    depends on addresses otherwise: hash them by order of creation, permuted by
    the plan"""
    import weakref
    import zlib
    import freesif.data.file
    import tables
    key = zlib.crc32(json.dumps(plan, sort_keys=True).encode()) | 1
    count, serial = [0], {}

    def h(self):
        i = id(self)
        if i not in serial:
            count[0] += 1
            serial[i] = (count[0] * key % 65521, weakref.ref(self, lambda r: serial.pop(i, None)))
        return serial[i][0]

    for cls in (freesif.data.file.File, tables.File):
        if cls.__weakrefoffset__ and not {'__eq__', '__hash__'} & set(cls.__dict__):
            cls.__hash__ = h


def child(check, plan, work, wfd, lines=0):
    """Run one plan; report through wfd; never returns."""
    code = 0
    res = {}
    try:
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT * (8 if lines else 1),) * 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_NOFILE, (512, 512))
        null = os.open(os.path.join(work, '.out'), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(null, 1)
        os.dup2(null, 2)
        from .shim import Shim
        sim = Shim()
        w = os.path.join(work, 'w')
        os.makedirs(w)
        os.chdir(w)
        ctx = Ctx(sim, w)
        random.seed(0)
        import numpy as np
        np.random.seed(0)
        _set_order(plan)
        t0 = time.monotonic()
        sim.enable(w, OPS_LIMIT)
        if lines:
            _linebudget(lines)
        cov = os.environ.get('VERIF_COV')
        if cov:
            save = _coverage(cov)
        try:
            check.run(plan, ctx)
            res['status'] = 'ok'
        except Violation as v:
            res.update(status='violation', key=v.key, msg=v.msg)
            if v.key == 'process-crash' and plan.get('cramp'):
                res.update(status='discard', msg='crash inside HDF5')
        except Discard as d:
            res.update(status='discard', msg=str(d))
        except TooManyLines:
            res.update(status='violation', key='no-progress',
                       msg='no progress: more than %d source lines executed' % lines)
        except BaseException as e:
            fr = traceback.extract_tb(e.__traceback__)
            if any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + '/') for f in fr):
                # escaped from the code under test at a place where the check
                # expects no error (a seam fault is always caught by the check)
                res.update(status='violation', key='unexpected-error:' + type(e).__name__,
                           msg=traceback.format_exc()[-1500:])
            else:
                res.update(status='error', msg=traceback.format_exc())
        sys.settrace(None)
        res.update(digest=sim.digest(), ops=sim.ops(), total=sim.total(), probes=ctx.probes,
                   faults=ctx.faults, evals=ctx.evals, clock=sim.L.sim_now() / 1e6,
                   dt=time.monotonic() - t0)
        if os.environ.get('VERIF_EVENTS'):
            res['events'] = ctx.events
        sim.disable()
        if cov:
            save()
    except BaseException:
        res = dict(status='error', msg=traceback.format_exc())
    try:
        data = json.dumps(res).encode()
        while data:
            data = data[os.write(wfd, data):]
    finally:
        os._exit(code)


class Pool(object):
    """Runs plans in forked children, several at a time."""

    def __init__(self, check, base, workers=WORKERS):
        self.check, self.base, self.workers = check, base, workers
        self.live = {}          # rfd -> (tag, pid, work, chunks, lines, plan)
        self.seq = 0

    def start(self, tag, plan, lines=0):
        self.seq += 1
        # same length and name for every run: paths must not differ
        work = os.path.join(self.base, '%05d' % self.seq)
        os.makedirs(work)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in list(self.live):
                    os.close(fd)
                child(self.check, plan, work, w, lines)
            finally:
                os._exit(70)
        os.close(w)
        self.live[r] = [tag, pid, work, [], lines, plan, time.monotonic()]

    def wait(self, timeout=None):
        """results of children that ended: [(tag, result)]"""
        out = []
        while True:
            ready, _, _ = select.select(list(self.live), [], [], 5 if timeout is None else timeout)
            now = time.monotonic()
            for e in self.live.values():
                if now - e[6] > HANG and not e[4]:
                    os.kill(e[1], signal.SIGALRM)       # blocked for ever
                    e[6] = now + 1e9
            if ready or timeout is not None:
                break
        for r in ready:
            e = self.live[r]
            data = os.read(r, 1 << 20)
            if data:
                e[3].append(data)
                continue
            os.close(r)
            del self.live[r]
            tag, pid, work, chunks, lines, plan, _ = e
            _, st = os.waitpid(pid, 0)
            err = ''
            try:
                with open(os.path.join(work, '.out'), errors='replace') as f:
                    err = f.read()[-2000:]
            except OSError:
                pass
            shutil.rmtree(work, ignore_errors=True)
            try:
                res = json.loads(b''.join(chunks))
            except ValueError:
                res = None
            if res is None:
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                    res = dict(status='violation', key='no-progress',
                               msg='no progress: more than %d I/O calls in one run' % OPS_LIMIT)
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
                    res = dict(status='violation', key='no-progress',
                               msg='no progress: the run blocked for ever (no answer in %d s)' % HANG)
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL) \
                        and not lines:
                    # decide deterministically: count source lines
                    self.start(tag, plan, LINE_LIMIT)
                    continue
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                               signal.SIGFPE):
                    res = dict(status='violation', key='process-crash',
                               msg='the process died with signal %d: %s' % (os.WTERMSIG(st), err[-500:]))
                    if plan.get('cramp'):
                        # freesif is Python; HDF5 1.14 can crash after a
                        # metadata error, which is not freesif's to prevent
                        res = dict(status='discard', msg='crash inside HDF5')
                else:
                    res = dict(status='error', msg='child ended with status %r: %s' % (st, err))
            for k, v in (('digest', ''), ('ops', {}), ('total', 0), ('probes', {}), ('faults', {}),
                         ('evals', 0), ('clock', 1e9), ('dt', 0)):
                res.setdefault(k, v)
            out.append((tag, res))
        return out

    def kill(self):
        for r, e in list(self.live.items()):
            try:
                os.kill(e[1], signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(e[1], 0)
            os.close(r)
            shutil.rmtree(e[2], ignore_errors=True)
        self.live.clear()

    def one(self, plan):
        self.start(0, plan)
        while True:
            got = self.wait()
            if got:
                return got[0][1]


# ------------------------------------------------------------------- driver ---

def plan_for(check, seed, i, tier):
    rng = random.Random('%s/%s/%d' % (check.ID, seed, i))
    plan = check.gen(rng, tier)
    return json.loads(json.dumps(plan))


def minimise(pool, check, plan, res, seconds=60., attempts=600):
    """Greedy: take the first smaller plan that fails the same way."""
    t0 = time.monotonic()
    best, tried, n = plan, set(), 0
    if not hasattr(check, 'shrink'):
        return best, res, 0
    while True:
        improved = False
        cands = check.shrink(best)
        batch = []
        done = False
        while not done and not improved:
            batch = []
            for c in cands:
                c = json.loads(json.dumps(c))
                h = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()
                if h in tried:
                    continue
                tried.add(h)
                batch.append(c)
                if len(batch) >= pool.workers:
                    break
            if not batch or n > attempts or time.monotonic() - t0 > seconds:
                done = True
                break
            n += len(batch)
            for k, c in enumerate(batch):
                pool.start(k, c)
            got = {}
            while len(got) < len(batch):
                for tag, r in pool.wait():
                    got[tag] = r
            for k in range(len(batch)):
                if got[k]['status'] == 'violation' and got[k]['key'] == res['key']:
                    best, res, improved = batch[k], got[k], True
                    break
        if not improved:
            return best, res, n


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)['findings'] if x.get('status') == 'known']


def run_check(name, tier, seed, limit=None, start=0, quiet=False):
    warm()
    check = importlib.import_module('checks.' + name.lower())
    if hasattr(check, 'warm'):
        check.warm()
    known = [k for k in load_known() if k['property'] == check.ID]
    total = limit or check.RUNS[tier]
    wall = float(os.environ.get('VERIF_WALL', {'quick': 300, 'thorough': 3000}[tier]))
    base = scratch_base()
    t0 = time.monotonic()
    stats = dict(runs=0, ops={}, faults={}, probes={}, evals=0, discards=0, clock=0., dt=0.)
    digests, errors, viols, knownhits = set(), [], [], {}
    seen_digest = {}
    samples = []
    pool = Pool(check, base)
    try:
        nxt = start
        stop = False
        while (nxt < start + total and not stop) or pool.live:
            while nxt < start + total and not stop and len(pool.live) < pool.workers:
                pool.start(nxt, plan_for(check, seed, nxt, tier))
                nxt += 1
            for i, res in pool.wait():
                stats['runs'] += 1
                for k in ('ops', 'faults', 'probes'):
                    for a, b in res[k].items():
                        stats[k][a] = stats[k].get(a, 0) + b
                stats['evals'] += res['evals']
                stats['clock'] += max(0., res['clock'] - 1e9)
                stats['dt'] += res['dt']
                digests.add(res['digest'])
                seen_digest[i] = res['digest']
                if len(samples) < 4:
                    samples.append(json.dumps(plan_for(check, seed, i, tier))[:600])
                if res['status'] == 'discard':
                    stats['discards'] += 1
                elif res['status'] == 'error':
                    errors.append((i, res['msg']))
                    stop = stop or len(errors) >= 20
                elif res['status'] == 'violation':
                    hit = [k for k in known if k['key'] == res['key']]
                    if hit:
                        knownhits.setdefault(res['key'], []).append(i)
                    else:
                        viols.append((i, res))
                        stop = True
            if time.monotonic() - t0 > wall:
                stop = True
        viols.sort(key=lambda x: x[0])
        replay = None
        if viols:
            i, res = viols[0]
            plan = plan_for(check, seed, i, tier)
            small, sres, tries = minimise(pool, check, plan, res,
                                          float(os.environ.get('VERIF_SHRINK', '60')))
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            h = hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
            replay = os.path.join(ROOT, 'replays', '%s-%s.json' % (check.ID, h))
            with open(replay, 'w') as f:
                json.dump(dict(property=check.ID, seed=seed, run=i, key=sres['key'], message=sres['msg'],
                               digest=sres['digest'], plan=small, original_plan=plan,
                               shrink_attempts=tries), f, indent=1)
    finally:
        pool.kill()
        shutil.rmtree(base, ignore_errors=True)
    dt = time.monotonic() - t0
    write_evidence(check, tier, seed, stats, digests, samples, viols, knownhits, dt, replay)
    if os.environ.get('VERIF_DIGESTS'):
        with open(os.environ['VERIF_DIGESTS'], 'w') as f:
            json.dump({str(k): v for k, v in sorted(seen_digest.items())}, f)
    for k, runs in sorted(knownhits.items()):
        what = [x['what'] for x in known if x['key'] == k][0]
        print('KNOWN-FINDING: property=%s %s (run %d)' % (check.ID, what, runs[0]))
    print('%s: %d runs, %d evaluations, %d distinct traces, faults %s, %.1f s'
          % (check.ID, stats['runs'], stats['evals'], len(digests),
             ' '.join('%s=%d' % x for x in sorted(stats['faults'].items())) or '-', dt))
    if not quiet and stats['probes']:
        print('  reached: ' + ' '.join('%s=%d' % x for x in sorted(stats['probes'].items())))
    if viols:
        i, res = viols[0]
        print('run %d: [%s] %s' % (i, sres['key'], sres['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (check.ID, replay))
        return 1
    if errors:
        i, msg = errors[0]
        print('HARNESS ERROR in run %d:\n%s' % (i, msg))
        return 2
    return 0


def write_evidence(check, tier, seed, stats, digests, samples, viols, knownhits, dt, replay):
    rate = stats['runs'] / max(dt, 1e-9) * 3600
    ev = dict(
        property=check.ID, tier=tier, seed=int(seed), level=check.LEVEL,
        coverage=dict(
            evaluations=stats['evals'], distinct_nontrivial=len(digests),
            rule=check.RULE, samples=samples, runs=stats['runs'], discarded=stats['discards'],
            runs_per_hour=int(rate), seeds='every run has its own seed (VERIF_SEED and the run number)',
            simulated_io_calls=stats['ops'], simulated_seconds=round(stats['clock'], 3),
            faults_fired=stats['faults'], reached=stats['probes'],
            distinct_measure='64-bit digest of the sequence of I/O calls (path, offset, size, result, first '
                             'bytes), faults and recorded events of a run',
            real_components=check.REAL, stub_components=check.STUB,
            known_findings={k: len(v) for k, v in knownhits.items()}),
        assumptions=check.ASSUMPTIONS, wall_s=round(dt, 2), violations=len(viols))
    if replay:
        ev['coverage']['replay'] = replay
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', check.ID + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    warm()
    check = importlib.import_module('checks.' + rec['property'].lower())
    if hasattr(check, 'warm'):
        check.warm()
    base = scratch_base()
    pool = Pool(check, base)
    try:
        res = pool.one(rec['plan'])
    finally:
        pool.kill()
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps({k: v for k, v in res.items() if k in ('status', 'key', 'msg', 'digest', 'total', 'events')},
                     indent=1))
    if res['status'] == 'violation':
        same = res['key'] == rec['key'] and res['digest'] == rec['digest']
        print('reproduced %s' % ('exactly' if same else 'with a DIFFERENT trace or violation'))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    return 2 if res['status'] == 'error' else 0
