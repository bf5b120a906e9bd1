"""C01: conversion stores every supported record of the source exactly."""
from sim import lib, model as M
from sim.engine import Violation

ID = 'C01'
TITLE = 'Conversion stores every supported record of the source exactly'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('a run is one generated model file (or hierarchy) converted once under generated short reads, interrupted '
        'calls, short writes, buffer threshold and clock; non-trivial: the trace of I/O calls is new and at least '
        'one record was compared')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of read/write/pread/pwrite on the scratch folder', 'wall clock']
ASSUMPTIONS = ['sources are encoded by the reference encoder as Sesam writes them; other dialects are not generated']


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTTRRRGGGHS')
    # records that no question needs or that questions cannot deal with
    if spec['kind'] == 'G' and rng.random() < .3:
        spec['feats'].append('wmix')
    if spec['kind'] == 'R' and rng.random() < .15:
        spec['feats'].append('nopoints')
    if rng.random() < (.004 if tier == 'quick' else .002):
        spec = dict(kind='big', seed=rng.randrange(1 << 30), n=rng.choice([99999, 100000, 100001, 200000]),
                    feats=[], fmt=rng.choice('FU'))
    return dict(spec=spec, src=lib_benign(rng), out=lib.gen_benign_out(rng) if rng.random() < .3 else [],
                bufrows=rng.choice([None, 1, 1, 2, 3, 4, 5, 7, 16, 64]),
                clock=[rng.choice([0, 1, 1e9, 4e9, 2**31 - 1]), rng.choice([0, .001, 86400])])


def lib_benign(rng):
    return lib.gen_benign(rng, '', 0)


def run(plan, ctx):
    m = M.build(plan['spec'])
    d = ctx.dir()
    src = m.write(d)
    lib.set_knobs(plan)
    lib.quiet_clock(ctx, plan)
    out = d + '/out.h5'
    with lib.faults(ctx, plan['src'] + plan['out']):
        try:
            lib.convert(src, out)
        except Exception as e:
            raise Violation('convert-raises:' + type(e).__name__,
                            'converting a well-formed source raised %s' % lib.err(e))
    snap = lib.snapshot(out)
    lib.check_stores(snap, m.stores(), ctx=ctx)
    ctx.probe('kind-' + plan['spec']['kind'])
    ctx.probe('format-' + next(iter(m.files.values())).fmt)
    ctx.probe('records', sum(len(r[0]) for s in m.stores() for r in s.recs.values()))


def shrink(plan):
    for k in ('src', 'out'):
        for i in range(len(plan[k])):
            yield dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
    if plan['clock'] != [1e9, 0]:
        yield dict(plan, clock=[1e9, 0])
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    if plan['spec']['kind'] != 'big':
        for s in M.shrink_spec(plan['spec']):
            yield dict(plan, spec=s)
