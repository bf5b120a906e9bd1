"""C17: threads converting, querying and writing do not disturb each other."""
import os
import shutil

import freesif as fs
from freesif.utils import VtuWriter

from sim import engine, lib, model as M, sched, vtu
from sim.engine import Violation

ID = 'C17'
TITLE = 'Threads converting and querying do not disturb each other'
LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 9000}
RULE = ('a run is two to four generated threads (conversions, question histories on their own file handles, VTU '
        'histories; some with failing or short reads of their own source) under a generated schedule of switches at '
        'library source lines or bytecode instructions; every result is compared with the one of the same thread alone; '
        'non-trivial: new trace with at least one switch taken inside the library')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['which thread runs', 'locks created by freesif', 'results of read on the sources']
ASSUMPTIONS = ['calls from freesif into PyTables and numpy are not interrupted (PyTables documents that it has to be '
               'serialised by its user, and the interpreter lock does that for most calls)',
               'no HDF5 call fails in another thread meanwhile (HDF5 keeps one error record per process)']


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    tasks = []
    for i in range(n):
        k = rng.random()
        if k < .35:
            t = dict(kind='convert', spec=M.random_spec(rng, 'TTRRGHS', small=rng.random() < .75), fmt=rng.choice('FU'),
                     how=rng.choice(['plain', 'plain', 'append', 'mem', 'list', 'only']),
                     prefix=rng.choice(['', '', 'p_']), usefileprefix=rng.random() < .7)
            t['rules'] = lib.gen_benign(rng, n=rng.choice([0, 0, 0, 1]))
            if rng.random() < .2:
                t['bad'] = rng.choice(['cut', 'eio', 'gone', 'name'])
                t['frac'] = lib.rfrac(rng)
        elif k < .78:
            t = dict(kind='query', spec=M.random_spec(rng, 'TRRRRGGHS', small=rng.random() < .75),
                     asks=[rng.randrange(1 << 30) for _ in range(rng.choice([1, 3, 8, 20]))], close=rng.random() < .5,
                     sif=rng.random() < .2, fmt=rng.choice('FU'))
            if t['spec']['kind'] in ('R', 'RH') and rng.random() < .7:
                # shells, of second order or not
                fe = set(t['spec']['feats']) - {'noshell', 'second'}
                t['spec']['feats'] = sorted(fe | ({'second'} if rng.random() < .5 else set()))
            if i and rng.random() < .25:
                t['same'] = 1               # another handle on the previous file, other questions
        else:
            t = dict(kind='vtu', ops=vtu.gen_ops(rng, rng.randint(2, 12), rng.random() < .3))
        tasks.append(t)
    if rng.random() < .15:
        # all of them convert, for themselves or to ask afterwards
        for t in tasks:
            if t['kind'] == 'query':
                t['sif'] = True
                t['asks'] = t['asks'][:3]
                t.pop('same', None)
    if rng.random() < .5:
        # the same work on other numbers
        k = rng.random() < .7
        for i in range(1, n):
            def other(x):
                return {'salt': i} if k else {'seed': x['seed'] + i}
            t = dict(tasks[0])
            t.pop('same', None)
            if 'spec' in t:
                t['spec'] = dict(t['spec'], **other(t['spec']))
                if t.get('sif') or t.get('how') == 'mem':
                    # two files of one name cannot be held in memory at a time
                    t['spec']['fileprefix'] = 'q%d_' % i
            else:
                t['ops'] = [dict(o, **other(o)) for o in t['ops']]
            if t['kind'] == 'query' and rng.random() < .3:
                t['asks'] = [rng.randrange(1 << 30) for _ in t['asks']]
            tasks[i] = t
    sw = []
    for _ in range(rng.choice([1, 2, 3, 8, 40, 150])):
        # position, target, then how often and after how many steps again
        sw.append([round(rng.random(), 6), rng.randrange(12), rng.choice([0, 0, 1, 1, 5, 30, 200]),
                   rng.choice([1, 1, 2, 3, 7, 20, 100])])
    sw.sort()
    # schedules that switch at many steps of one function, wherever threads meet in it
    focus = []
    light = sum(t['kind'] != 'convert' for t in tasks) == n
    for _ in range(rng.choice([4, 8, 14]) if light else rng.choice([0, 1, 1, 2])):
        focus.append([round(rng.random(), 6), rng.choice([1., 1., .5, .1]), rng.randrange(1 << 30), 1,
                      rng.choice([10, 100, 1000])])
    if focus and rng.random() < .5:
        sw = []
    for d in ([1., .3] if light else [1.]) if rng.random() < .7 else []:
        # everywhere: the threads go through the library side by side
        focus.append([-1, d, rng.randrange(1 << 30), rng.choice([1, 1, 2, 7]), 100000])
    if sum(t['kind'] == 'convert' or bool(t.get('sif')) for t in tasks) > 1 and rng.random() < .6:
        # another thread takes the lock over where one releases it
        focus.append([-2, rng.choice([1., .5]), rng.randrange(1 << 30), 1, 100000])
    return dict(tasks=tasks, focus=focus, switches=sw, grain=rng.choice(['line', 'line', 'op']), bufrows=rng.choice([None, None, 1, 4]))


# ------------------------------------------------------------------- threads ---

def prepare(ctx, plan):
    """sources and files of the threads; everything they only read"""
    env = []
    inmem = set()
    for i, t in enumerate(plan['tasks']):
        e = {}
        if t['kind'] != 'vtu':
            m = M.build(t['spec'])
            # two files of one name cannot be held in memory at a time
            if t.get('sif') or t.get('how') == 'mem':
                if m.top.lower() in inmem:
                    t = plan['tasks'][i] = dict(t, **({'sif': False} if t['kind'] == 'query' else {'how': 'plain'}))
                inmem.add(m.top.lower())
            d = ctx.dir('s%d' % i)
            src = m.write(d, t['fmt'])
            e.update(m=m, src=src, h5=None)
            if t['kind'] == 'query' and not t['sif']:
                p = env[-1].get('h5') if t.get('same') and env else None
                if p:
                    e['h5'], e['m'] = p, env[-1]['m']
                else:
                    e['h5'] = os.path.join(ctx.dir('q%d' % i), 'x.h5')
                    lib.convert(src, e['h5'])
            if t['kind'] == 'convert' and t['how'] == 'append':
                e['base'] = os.path.join(ctx.dir('b%d' % i), 'x.h5')
                other = M.build({**t['spec'], 'fileprefix': 'zz_'}) if t['spec'].get('fileprefix') != 'zz_' else None
                if other is not None:
                    o = other.write(ctx.dir('o%d' % i), t['fmt'])
                    lib.convert(o, e['base'])
            if t.get('bad') == 'cut':
                with open(src, 'rb+') as f:
                    f.truncate(lib.position(t['frac'], os.path.getsize(src)))
            elif t.get('bad') == 'gone':
                os.unlink(src)
            elif t.get('bad') == 'name':
                e['src'] = os.path.join(os.path.dirname(src), 'nosuch.txt')
        env.append(e)
    return env


def rules_of(plan, env):
    out = []
    for i, t in enumerate(plan['tasks']):
        if t['kind'] != 'convert':
            continue
        sfx = '/s%d/%s' % (i, os.path.basename(env[i]['src']))
        for r in t['rules']:
            out.append(dict(r, suffix=sfx))
        if t.get('bad') == 'eio':
            n = max(1, os.path.getsize(env[i]['src']) // 4096) if os.path.exists(env[i]['src']) else 1
            out.append(dict(op='read', suffix=sfx, wr=0, at=lib.position(t['frac'], n), count=1, act='err', err='EIO'))
    return out


def thread(ctx, plan, env, i, out):
    """-> (what the thread runs, how its outcome is read afterwards)"""
    t, e = plan['tasks'][i], env[i]
    if t['kind'] == 'convert':
        p = os.path.join(out, 'x%d.h5' % i)
        if e.get('base') and os.path.exists(e['base']):
            shutil.copyfile(e['base'], p)

        def fn():
            kw = dict(prefix=t['prefix'], usefileprefix=t['usefileprefix'])
            how = t['how']
            try:
                if how == 'mem':
                    f = fs.sif2hdf5(e['src'], in_memory=True, **kw)
                    try:
                        return 'ok', lib.snap_file(f)
                    finally:
                        f.close()
                if how == 'list':
                    r = fs.sif2hdf5([e['src'], e['src']], p, **dict(kw, prefix=['k_', 'l_']))
                elif how == 'only':
                    r = fs.sif2hdf5(e['src'], p, only=['GNODE', 'GCOORD', 'GELMNT1', 'WBODY', 'RVNODDIS', 'HIERARCH',
                                                       'IDENT', 'DATE'], **kw)
                else:
                    r = fs.sif2hdf5(e['src'], p, append=how == 'append', **kw)
                return 'ok', os.path.basename(r) if r else r
            except Exception as x:
                return 'raises', type(x).__name__

        def read():
            return lib.snapshot(p) if t['how'] != 'mem' and os.path.exists(p) else None
        return fn, read
    if t['kind'] == 'query':
        def fn():
            got = []
            try:
                if t['sif']:
                    d = fs.open_sif(e['src'])
                    f = d.file
                else:
                    f = fs.open_hdf5(e['h5'])
                for a in t['asks']:
                    got.append(question(f, e['m'], a))
                    if t['close'] and a % 5 == 0 and not t['sif']:
                        f.close()
                        f = fs.open_hdf5(e['h5'])
                got.append(str(f))
                f.close()
            except Exception as x:
                got.append('raises ' + lib.err(x))
            return got
        return fn, lambda: None

    def fn():
        p = os.path.join(out, 'x%d.vtu' % i)
        w = VtuWriter(p)
        h = vtu.History(ctx, w, p)
        calls = []
        for op in t['ops']:
            call, commit = h.do(op)
            if call is None:
                continue
            try:
                call()
            except Exception as x:
                calls.append(type(x).__name__)
            else:
                calls.append('ok')
                if commit is not None:
                    commit()
        w.close()
        with open(p, 'rb') as f:
            return calls, f.read()
    return fn, lambda: None


def question(f, m, a):
    keys = sorted(f.keys())
    if not keys:
        return None
    d = f[keys[a % len(keys)]]
    a //= 97
    if hasattr(d, 'get_angular_freqs'):
        b = lib.bodies_of(m) or [1]
        qs = lib.hydro_queries(b)
    else:
        names = lib.ask(d.get_setnames)
        names = [str(x) for x in names] if isinstance(names, list) else []
        qs = lib.struct_queries(names)
    # every kind of question is as likely
    names = sorted(set(q[0] for q in qs))
    if 'get_elementresults' in names:
        names += ['get_elementresults'] * 4 + ['get_noderesults'] * 2
    n = names[a % len(names)]
    qs = [q for q in qs if q[0] == n]
    n, kw = qs[a // 31 % len(qs)]
    fn = getattr(d, n, None)
    if fn is None:
        return None
    return [keys, n, lib.ask(fn, **kw)]


# ----------------------------------------------------------------------- run ---

def play(ctx, plan, env, which, switches, out, log, focus=None):
    os.makedirs(out, exist_ok=True)
    pairs = [thread(ctx, plan, env, i, out) for i in which]
    s = sched.Scheduler(engine.REPO, [a for a, _ in pairs], switches, plan['grain'], log,
                        focus)
    with lib.faults(ctx, rules_of(plan, env)):
        bad = s.run()
    if bad:
        raise Violation(*bad)
    res = []
    for k, i in enumerate(which):
        t = s.tasks[k]
        if t.error is not None:
            raise t.error
        try:
            res.append([t.result, pairs[k][1]()])
        except Exception as e:
            res.append([t.result, 'unreadable: ' + lib.err(e)])
    return res, s


def run(plan, ctx):
    plan = dict(plan, tasks=list(plan['tasks']))
    lib.set_knobs(plan)
    env = prepare(ctx, plan)
    n = len(plan['tasks'])
    out = os.path.join(ctx.work, 'out')
    alone, total, met = [], 0, {}
    for i in range(n):
        def one():
            res, s = play(ctx, plan, env, [i], [], out, None)
            return res[0], s.steps, sorted({sched.place(co) for co in s.seen})
        r, k, places = lib.in_child(one)
        alone.append(r)
        total += k
        for x in places:
            met[x] = met.get(x, 0) + 1
    shutil.rmtree(out, ignore_errors=True)
    sw = expand(plan['switches'], total)
    shared = sorted(x for x in met if met[x] > 1) or sorted(met)
    todo, left = [], []
    for f in plan.get('focus') or ():
        left = left or list(shared)
        if f[0] in (-1, -2):
            todo.append((['*' if f[0] == -1 else '@release'] + f[1:], []))
        elif left:
            todo.append(([left.pop(lib.position(f[0], len(left)))] + f[1:], []))
    if plan['switches'] or not todo:
        todo.append((None, sw))
    for k, (focus, sw) in enumerate(todo):
        def concurrent():
            log = []
            note = ctx.log if k == len(todo) - 1 else (lambda *a: log.append(a))
            res, s = play(ctx, plan, env, list(range(n)), sw, out, note, focus)
            for i in range(n):
                if not lib.equal(res[i], alone[i]):
                    raise Violation('disturbed:' + plan['tasks'][i]['kind'],
                                    'thread %d (%s of %d threads) got something else than alone: %s'
                                    % (i, plan['tasks'][i]['kind'], n, explain(alone[i], res[i])))
            left = [h for h in lib.open_handles()]
            if left:
                raise Violation('leak', 'files still open after all threads ended: %s' % left)
            return s.taken, s.contended, s.steps, s.nfocus, log
        if focus:
            ctx.log('focus', focus[0])
        # a fresh process for each schedule, the last one is played in this one
        taken, contended, steps, nfocus, log = concurrent() if k == len(todo) - 1 else lib.in_child(concurrent)
        for x in log:
            ctx.log(*x)
        ctx.probe('schedules')
        ctx.probe('switches', taken)
        ctx.probe('lock-waits', contended)
        ctx.probe('steps', steps)
        ctx.probe('focus-switches', nfocus)
        ctx.eval(n)
        shutil.rmtree(out, ignore_errors=True)


def expand(sw, total):
    out = []
    for frac, to, again, gap in sw:
        at = 1 + int(frac * total)
        for k in range(again + 1):
            out.append([at + k * gap, to + k])
    out.sort()
    return out


def explain(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if not lib.equal(x, y):
                return '[%d] %s' % (k, explain(x, y))
    return str(lib.differ(a, b))[:400]


def shrink(plan):
    t = plan['tasks']
    if len(t) > 2:
        for i in range(len(t)):
            rest = [dict(x) for x in t[:i] + t[i + 1:]]
            yield dict(plan, tasks=rest)
    s = plan['switches']
    n = len(s)
    if n and plan.get('focus'):
        yield dict(plan, switches=[])
    for size in (n // 2, n // 4, 8, 3, 1):
        if size < 1 or size >= n:
            continue
        for i in range(0, n, size):
            yield dict(plan, switches=s[:i] + s[i + size:])
    for i, x in enumerate(s):
        if x[2]:
            for k in (0, x[2] // 2, x[2] - 1):
                yield dict(plan, switches=s[:i] + [[x[0], x[1], k, x[3]]] + s[i + 1:])
    for i, x in enumerate(t):
        for k in ('bad', 'rules', 'same', 'close', 'prefix'):
            if x.get(k):
                y = dict(x, **{k: [] if k == 'rules' else '' if k == 'prefix' else 0})
                yield dict(plan, tasks=t[:i] + [y] + t[i + 1:])
        for k in ('asks', 'ops'):
            if len(x.get(k, ())) > 1:
                h = len(x[k]) // 2
                for part in (x[k][:h], x[k][h:], x[k][1:], x[k][:-1]):
                    yield dict(plan, tasks=t[:i] + [dict(x, **{k: part})] + t[i + 1:])
        if 'spec' in x:
            for sp in M.shrink_spec(x['spec']):
                yield dict(plan, tasks=t[:i] + [dict(x, spec=sp)] + t[i + 1:])
    fl = plan.get('focus') or []
    for i, fo in enumerate(fl):
        if len(fl) > 1 or s:
            yield dict(plan, focus=fl[:i] + fl[i + 1:])
    for i, fo in enumerate(fl):
        lo, hi = fo[3], fo[4]
        if hi > lo:
            mid = (lo + hi) // 2
            for x, y in ((lo, mid), (mid + 1, hi), (lo + 1, hi), (lo, hi - 1)):
                yield dict(plan, focus=fl[:i] + [fo[:3] + [x, y]] + fl[i + 1:])
    if plan['grain'] == 'op':
        yield dict(plan, grain='line')
    if plan.get('bufrows'):
        yield dict(plan, bufrows=None)
