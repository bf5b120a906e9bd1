"""C07: a write failure on the output is never reported as success."""
import os
import shutil

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C07'
TITLE = 'A write failure on the output is never reported as success'
LEVEL = 'exploration'
RUNS = {'quick': 240, 'thorough': 6000}
RULE = ('a run converts one generated model into a healthy output and then again with faults of the output at generated '
        'positions and for generated durations; a conversion that returns must have left the complete data on the disk, '
        'read from a copy of the file; non-trivial: new trace and at least one fault fired')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of write/pwrite/ftruncate/fsync/close/open of the output', 'a disk quota over all writes']
ASSUMPTIONS = ['a write that reports success is on the disk (no silent corruption below the system call)']
HOW = ['new', 'new', 'new', 'over', 'append', 'append', 'list']


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTRRGGHHSS', small=rng.random() < .6)
    if rng.random() < .3:
        spec['n'] = rng.choice([20, 40, 80])
    tries = []
    for _ in range(rng.randint(2, 5)):
        tries.append(dict(kind=rng.choice(['err', 'err', 'err', 'err', 'errafter', 'quota', 'quota', 'trunc', 'close',
                                           'short', 'shorterr', 'late', 'late', 'openfail']),
                          frac=lib.rfrac(rng) if rng.random() < .4 else rng.random(),
                          back=rng.randint(1, 12) if rng.random() < .3 else 0,
                          err=rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EROFS']),
                          count=rng.choice([1, 1, 2, 5, 1000000, 1000000])))
    cramp = rng.choice([None, None, None, 1024, 8192])
    if cramp and rng.random() < .6:
        # single failures spread over the whole conversion
        tries += [dict(kind='err', frac=rng.random(), back=0, err=rng.choice(['ENOSPC', 'EIO', 'EDQUOT']), count=1)
                  for _ in range(rng.randint(3, 8))]
    return dict(spec=spec, fmt=rng.choice('FU'), how=rng.choice(HOW), tries=tries,
                bufrows=rng.choice([None, None, 1, 4]), cramp=cramp)


def rules_for(t, nwrite, ntrunc, nclose, nopen, total):
    k = t['kind']
    at = max(0, nwrite - t['back']) if t['back'] else lib.position(t['frac'], nwrite)
    w = dict(op='write', suffix='.h5', wr=1, at=at, count=t['count'], act='err', err=t['err'])
    if k == 'err':
        return [w]
    if k == 'late':             # only the very last writes (the close)
        return [dict(w, at=max(0, nwrite - 1 - (t['back'] or int(t['frac'] * 6))))]
    if k == 'errafter':         # the data arrived, the error is reported all the same
        return [dict(w, act='errafter')]
    if k == 'short':
        return [dict(w, act='short', keep=1 + int(t['frac'] * 600))]
    if k == 'shorterr':
        return [dict(w, act='short', keep=1 + int(t['frac'] * 600), count=1), dict(w, at=at + 1)]
    if k == 'quota':
        return [dict(op='quota', at=int(t['frac'] * total), name='quota')]
    if k == 'trunc':
        return [dict(op='trunc', suffix='.h5', wr=1, at=0, count=t['count'], act='err', err=t['err'])]
    if k == 'close':
        return [dict(op='close', suffix='.h5', wr=1, at=0, count=1, act='errafter', err=t['err'])]
    if k == 'openfail':
        return [dict(op='open', suffix='.h5', wr=1, at=lib.position(t['frac'], nopen), count=t['count'], act='err',
                     err=t['err'])]
    raise ValueError(k)


def run(plan, ctx):
    m = M.build(plan['spec'])
    lib.set_knobs(plan)
    src = m.write(ctx.dir('src'), plan['fmt'])
    other = M.build(dict(kind='T', letter='L', fmt='F', seed=5, n=3, feats=[], fileprefix='other_', seltyp=9))
    osrc = other.write(ctx.dir('other'))
    how = plan['how']
    n = [0]

    def target():
        n[0] += 1
        out = os.path.join(ctx.dir('o%d' % n[0]), 'x.h5')
        if how in ('append', 'over'):
            lib.convert(osrc, out)
        return out

    def call(out):
        return fs.sif2hdf5([src, osrc] if how == 'list' else src, out, append=how == 'append')

    def on_disk(out, what):
        # a copy: HDF5 in this process may still cache the file itself
        copy = os.path.join(ctx.dir('copy'), 'c%d.h5' % n[0])
        shutil.copyfile(out, copy)
        snap = lib.read_output(copy, what)
        os.unlink(copy)
        return snap

    pats = [dict(op=o, suffix='.h5', wr=1) for o in ('write', 'trunc', 'close', 'open')]
    out = target()
    ctx.sim.log(1)
    try:
        _, seen = lib.count_ops(ctx, pats, lambda: call(out))
    except Exception as e:
        raise Violation('raises:' + type(e).__name__, 'converting a well-formed model raised ' + lib.err(e))
    total = sum(o[3] for o in ctx.sim.logdata() if o[0] == 2)
    ctx.sim.log(0)
    full = on_disk(out, 'output-unreadable')
    for mm in [m] + ([other] if how in ('append', 'list') else []):
        lib.check_stores(lib.take(full, mm), mm.stores(), ctx=ctx)
    for t in plan['tries']:
        out = target()
        rules = rules_for(t, *(seen + [total]))

        def attempt():
            raised = None
            with lib.faults(ctx, rules) as fl:
                try:
                    call(out)
                except Exception as e:
                    raised = lib.err(e)
            return raised, fl.fired
        if plan.get('cramp'):
            # HDF5 1.14 itself can crash when it fails to write metadata it
            # evicts from its cache: in a process of its own, where a crash
            # is a failure like any other
            try:
                raised, fired = lib.in_child(attempt)
                ctx.fault('in-own-process', fired)
            except Violation as v:
                if v.key != 'process-crash':
                    raise
                ctx.probe('hdf5-crashed')
                continue
        else:
            raised, fired = attempt()
        ctx.log('try', t['kind'], raised is not None)
        if raised is not None:
            if not fired:
                raise Violation('raises:spurious', 'a conversion raised %s although no fault was injected' % raised)
            ctx.probe('raised-' + t['kind'])
            continue
        what = '%s of the output at call %d, %d times (%s)' % (t['err'], rules[0].get('at', 0), t['count'], t['kind'])
        snap = on_disk(out, 'lost-output')
        dd = lib.differ(full, snap)
        if dd:
            raise Violation('lost-data', 'the conversion returned normally in spite of %s, but the file is incomplete: %s'
                            % (what, dd))
        if fired:
            ctx.probe('survived-' + t['kind'])
        try:
            f = fs.open_hdf5(out)
        except Exception as e:
            raise Violation('lost-output', 'the conversion returned normally in spite of %s, but its output cannot be '
                            'opened: %s' % (what, lib.err(e)))
        f.close()
    # the process is as good as new
    out = target()
    try:
        call(out)
    except Exception as e:
        raise Violation('poisoned', 'after failed writes a conversion to a healthy file raised ' + lib.err(e))
    dd = lib.differ(full, on_disk(out, 'output-unreadable'))
    if dd:
        raise Violation('poisoned', 'after failed writes a conversion to a healthy file stored other data: ' + dd)


def shrink(plan):
    t = plan['tries']
    for i in range(len(t)):
        if len(t) > 1:
            yield dict(plan, tries=[t[i]])
    for i in range(len(t)):
        if len(t) > 1:
            yield dict(plan, tries=t[:i] + t[i + 1:])
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    if plan['how'] != 'new':
        yield dict(plan, how='new')
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
