"""C12: structural results are those of the source, for every selection."""
from sim import model as M, oracle as O, qhist

ID = 'C12'
TITLE = 'Structural results are those of the source, for every selection'
LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('a run is a generated result model (one or several superelements) and a history of 8 to 30 result queries over '
        'selections, cases and connectivity, some with failing, short or interrupted reads; every answer is compared '
        'with an independent computation from the source; non-trivial: new trace with at least one answered query')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of read on the result file']
ASSUMPTIONS = ['result records are ordered by result case, then by node or element, as Sesam writes them',
               'thin and thick shells are not mixed in one superelement']


def gen(rng, tier):
    pool = [result_spec(rng) for _ in range(rng.choice([1, 1, 2, 2]))]
    medium = qhist.gen_media(rng, pool)
    return dict(pool=pool, medium=medium,
                steps=qhist.gen_steps(rng, rng.randint(8, 30), question), cramp=qhist.gen_cramp(rng), mode=qhist.gen_mode(rng))


def result_spec(rng):
    while True:
        s = M.random_spec(rng, 'RRRS', small=rng.random() < .6)
        if not {'rvdis', 'rvvel', 'rvacc'} & set(s['feats']):
            s['feats'] = sorted(s['feats'] + ['rvdis'])
        if rng.random() < .7 and 'sets' not in s['feats']:
            s['feats'] = sorted(s['feats'] + ['sets'])
        return s


def question(rng):
    a = qhist.gen_select(rng)
    a['q'] = rng.choice(O.StructOracle.RES)
    if rng.random() < .4:
        a['run'] = rng.choice([1, 1, 2, 2, 3])
    if rng.random() < .6:
        a['cases'] = [rng.randrange(12) for _ in range(rng.choice([1, 1, 2, 3]))]
        a['cform'] = rng.choice([0, 0, 1, 2, 3])
        a['extra'] = rng.random() < .2
    k = rng.random()
    if k < .04:
        a['bad'] = 'restype'
    elif k < .08:
        a['bad'] = 'set'
    return a


def objects(bench):
    out, orac = [], []
    for i, m in enumerate(bench.models):
        stores = {f.store.path: f.store for f in m.files.values()}
        for path, s in m.sub.items():
            if s is None:
                continue
            out.append((i, path))
            orac.append(O.StructOracle(s, m, getattr(s, 'occ', None), results=m.letter == 'R', store=stores[path]))
    return out, orac


def run(plan, ctx):
    bench = qhist.Bench(ctx, plan)
    objs, orac = objects(bench)
    qhist.run_steps(ctx, bench, plan['steps'], objs, lambda st, j: orac[j].result(st['q'], st), ID)
    bench.close()
    ctx.probe('objects', len(objs))


def shrink(plan):
    for q in qhist.shrink_steps(plan):
        yield q
    if len(plan['pool']) > 1:
        for j in range(len(plan['pool'])):
            yield dict(plan, pool=[plan['pool'][j]], medium=[plan['medium'][j]])
    for j, sp in enumerate(plan['pool']):
        for q in M.shrink_spec(sp):
            yield dict(plan, pool=plan['pool'][:j] + [q] + plan['pool'][j + 1:])
