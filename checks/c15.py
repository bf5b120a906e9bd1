"""C15: coordinate transformations follow the superelement hierarchy."""
from sim import model as M, oracle as O, qhist
from checks import c12

ID = 'C15'
TITLE = 'Coordinate transformations follow the superelement hierarchy'
LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('a run is a generated superelement hierarchy (model or results, two to four levels, repeated and shared '
        'superelements) or a single result file and a history of 8 to 30 transformation and coordinate queries, some with '
        'failing, short or interrupted reads; compared with the composition along the path of the occurrence in the '
        'source; non-trivial: new trace')
REAL = c12.REAL
STUB = c12.STUB
ASSUMPTIONS = ['level 1 is the level of the superelement itself (no transformation)']


def gen(rng, tier):
    pool = []
    for _ in range(rng.choice([1, 1, 2, 2])):
        s = M.random_spec(rng, 'HHSSRT', small=True)
        if s['kind'] == 'R' and rng.random() < .6:
            s['feats'] = sorted(set(s['feats']) | {'rsuptran'})
        pool.append(s)
    medium = qhist.gen_media(rng, pool)
    return dict(pool=pool, medium=medium,
                steps=qhist.gen_steps(rng, rng.randint(8, 30), question), cramp=qhist.gen_cramp(rng), mode=qhist.gen_mode(rng))


def question(rng):
    a = qhist.gen_select(rng)
    if rng.random() < .5:
        a.pop('sets', None)
        a.pop('kind', None)
    a['q'] = rng.choice(['get_nodes'] * 2 + ['get_transformation'])
    a['trans'] = rng.choice(['top', 'top', 'top', 'level', 'level', 'level', 'level', 'matrix', 'none', 'absent',
                             'badshape', 'badword'])
    a['level'] = rng.choice([1, 2, 2, 3, 3, 4, 5, 9, 0, -1])
    return a


def run(plan, ctx):
    bench = qhist.Bench(ctx, plan)
    objs, orac = c12.objects(bench)
    tops = [i for i, m in enumerate(bench.models) if hasattr(m, 'occ')]

    def resolve(st, j):
        if st['q'] == 'get_transformation':
            # asked from the top level of the same model, when it has one
            return None
        if st['trans'] == 'absent':
            st = dict(st, trans='top')
        return orac[j].transformed('get_nodes', st)
    steps = plan['steps']
    if tops:
        n = len(objs)
        for i in tops:
            m = bench.models[i]
            objs.append((i, next(iter(m.files.values())).store.path))
            orac.append(O.TopOracle(m))
        steps = []
        for st in plan['steps']:
            if st['q'] == 'get_transformation':
                st = dict(st, obj=n + st['obj'] % len(tops))
            else:
                st = dict(st, obj=st['obj'] % n)
            steps.append(st)

        def resolve(st, j):        # noqa: F811
            if j >= n:
                return orac[j].transformation(st)
            if st['trans'] == 'absent':
                st = dict(st, trans='top')
            return orac[j].transformed('get_nodes', st)
    qhist.run_steps(ctx, bench, steps, objs, resolve, ID)
    bench.close()


shrink = c12.shrink
