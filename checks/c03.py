"""C03: the outcome of a conversion does not depend on earlier ones."""
import os

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C03'
TITLE = 'Conversions do not depend on what the process converted before'
LEVEL = 'exploration'
RUNS = {'quick': 420, 'thorough': 7000}
RULE = ('a run is a generated sequence of conversions (models of all kinds, all targets, filters; complete, failed, '
        'truncated, interrupted) in one process; the outcome of each is compared with that of the same call in a fresh '
        'copy of the process; non-trivial: new trace with at least two conversions')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'process state', 'kernel file system below the layer']
STUB = ['results of read/open on the scratch folder', 'delivery of SIGINT']
ASSUMPTIONS = ['a forked copy of the process that has only imported the libraries stands for a fresh process']


def gen_only(rng):
    from checks import c10
    return c10.gen_only(rng)


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 3, 4, 6])
    pool = [M.random_spec(rng, 'TRRGGHS', small=True) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(n):
        spec = dict(rng.choice(pool))
        if rng.random() < .4:       # same shape, other numbers
            spec['seed'] = rng.randrange(1 << 30)
        op = dict(spec=spec, fmt=rng.choice('FU'), how=rng.choice(['disk', 'disk', 'memfile', 'opensif', 'append']),
                  only=gen_only(rng) if rng.random() < .2 else None,
                  usefileprefix=rng.random() < .8, prefix=rng.choice(['', '', 'p_']),
                  fail=rng.choice([None, None, None, 'read', 'sigint', 'cut', 'missing', 'tb', 'tbint', 'badname',
                                   'garble']),
                  frac=lib.rfrac(rng), keep=rng.random() < .3)
        if rng.random() < .3:
            # all records but a few, which others may need
            op['drop'] = [round(rng.random(), 4) for _ in range(rng.randint(1, 3))]
        ops.append(op)
    return dict(ops=ops, bufrows=rng.choice([None, None, 1, 3]),
                cramp=rng.choice([None, None, None, 1024, 8192]))


def damage(data, op):
    n = lib.position(op['frac'], len(data))
    if op['fail'] == 'cut':
        return data[:n]
    return data[:n] + b'?' * min(30, len(data) - n) + data[n + 30:]


def prepare(op, k, ctx):
    """write the sources of one conversion; returns a description to run"""
    m = M.build(op['spec'])
    d = ctx.dir('s%d' % k)
    names = list(m.files)
    if op['fail'] == 'missing' and len(names) > 1:
        names.pop(lib.position(op['frac'], len(names) - 1) + 1)
    src = m.write(d, op['fmt'], names)
    if op['fail'] in ('cut', 'garble'):
        v = sorted(os.listdir(d))
        p = os.path.join(d, v[int(op['frac'] * 7919) % len(v)])
        with open(p, 'rb') as h:
            data = h.read()
        with open(p, 'wb') as h:
            h.write(damage(data, op))
    if op['fail'] == 'badname':
        bad = os.path.join(d, 'nonsense.txt')
        os.rename(src, bad)
        src = bad
    return m, src, os.path.join(ctx.dir('o%d' % k), 'x.h5')


def perform(op, k, m, src, out, ctx):
    """one conversion; its outcome in comparable form"""
    rules = []
    tbf = None
    if op.get('drop'):
        names = sorted({n for s in m.stores() for n in s.recs} | {'IDENT', 'IEND', 'DATE'})
        for x in op['drop']:
            names.pop(lib.position(x, len(names)))
        op = dict(op, only=names)
    if op['fail'] == 'read' or op['fail'] == 'sigint':
        rules = [dict(op='read', suffix=m.top[-4:], wr=0, at=int(op['frac'] * 40),
                      act='err' if op['fail'] == 'read' else 'sigint', err='EIO')]
    if op['fail'] in ('tb', 'tbint'):
        tbf = lib.tbfault(ctx, lib.TBCALLS[int(op['frac'] * 6997) % 4], int(op['frac'] * 12),
                          'MemoryError' if op['fail'] == 'tb' else 'KeyboardInterrupt')
    if op['how'] == 'append':
        lib_seed(out)
    obj = None
    try:
        with lib.faults(ctx, rules):
            if tbf:
                tbf.__enter__()
            try:
                if op['how'] in ('disk', 'append'):
                    fs.sif2hdf5(src, out, append=op['how'] == 'append', only=op['only'],
                                usefileprefix=op['usefileprefix'], prefix=op['prefix'])
                elif op['how'] == 'memfile':
                    obj = fs.sif2hdf5(src, only=op['only'], usefileprefix=op['usefileprefix'], prefix=op['prefix'],
                                      in_memory=True)
                else:
                    obj = fs.open_sif(src)
            finally:
                if tbf:
                    tbf.__exit__()
        status = 'ok'
    except (Exception, KeyboardInterrupt) as e:
        status = 'raises ' + type(e).__name__ + ' ' + str(e).split('\n')[0][:120].replace(out, 'OUT')
    res = {'status': status}
    if obj is not None:
        tbf = obj if op['how'] == 'memfile' else lib.tbgroup(obj)._v_file
        res['groups'] = lib.snap_file(tbf)
    elif status == 'ok':
        res['groups'] = lib.read_output(out)
    elif op['how'] == 'append':
        res['groups'] = lib.read_output(out)
    return res, obj


def lib_seed(out):
    import tables as tb
    with tb.open_file(out, 'w') as f:
        f.create_group('/', 'KEEP')
        f.create_array('/KEEP', 'a', [1, 2, 3])


def run(plan, ctx):
    lib.set_knobs(plan)
    prep = [prepare(op, k, ctx) for k, op in enumerate(plan['ops'])]
    want = []
    for k, op in enumerate(plan['ops']):
        def alone():
            return perform(op, k, *prep[k], ctx)[0]
        want.append(lib.in_child(alone))
        if os.path.exists(prep[k][2]):
            os.unlink(prep[k][2])
    held = []
    for k, op in enumerate(plan['ops']):
        if op['how'] in ('memfile', 'opensif'):
            # PyTables refuses a second in-memory file of a name
            for o in [h for h in held if h[0] == prep[k][0].top[:-3] + 'h5' or op['fail'] == 'badname']:
                close(o[1])
                held.remove(o)
        got, obj = perform(op, k, *prep[k], ctx)
        ctx.log('op', k, got['status'])
        ctx.eval()
        d = lib.differ(want[k], got)
        if d:
            before = ', '.join('%s/%s%s' % (o['spec']['kind'], o['how'], '/' + o['fail'] if o['fail'] else '')
                               for o in plan['ops'][:k])
            raise Violation('history:' + d.split(':')[0].split('/')[1][:20],
                            'conversion %d (%s) after [%s] differs from the same conversion in a fresh process: %s'
                            % (k, op['spec']['kind'], before, d))
        ctx.probe('outcome-ok' if got['status'] == 'ok' else 'outcome-raises')
        if obj is not None:
            if op['keep']:
                held.append((prep[k][0].top[:-3] + 'h5', obj))
            else:
                close(obj)
    for _, o in held:
        close(o)


def close(o):
    o = getattr(o, 'file', None) or o
    o.close()


def shrink(plan):
    ops = plan['ops']
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    for i, op in enumerate(ops):
        def alt(**k):
            return dict(plan, ops=ops[:i] + [dict(op, **k)] + ops[i + 1:])
        for k, v in (('fail', None), ('only', None), ('drop', None), ('prefix', ''), ('keep', False), ('how', 'disk'),
                     ('usefileprefix', True)):
            if op.get(k) != v:
                yield alt(**{k: v})
        for s in M.shrink_spec(op['spec']):
            yield alt(spec=s)
