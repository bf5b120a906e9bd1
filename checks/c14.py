"""C14: hydrodynamic queries return the source data, placed correctly."""
from sim import model as M, oracle as O, qhist
from checks import c12

ID = 'C14'
TITLE = 'Hydrodynamic queries return the source data, placed correctly'
LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('a run is a generated hydrodynamic model and a history of 12 to 40 queries over bodies, matrices and transfer '
        'functions, present and absent, some with failing, short or interrupted reads; every answer is compared with an '
        'independent placement of the source values; non-trivial: new trace')
REAL = c12.REAL
STUB = c12.STUB
ASSUMPTIONS = ['result references run over directions and, within them, frequencies, and result records follow that order '
               'per body (as the library documents)']


def gen(rng, tier):
    pool = [M.random_spec(rng, 'G', small=rng.random() < .6) for _ in range(rng.choice([1, 1, 2, 2]))]
    medium = qhist.gen_media(rng, pool)
    return dict(pool=pool, medium=medium,
                steps=qhist.gen_steps(rng, rng.randint(12, 40), question), cramp=qhist.gen_cramp(rng), mode=qhist.gen_mode(rng))


def question(rng):
    a = dict(q=rng.choice(O.HydroOracle.ALL), i=rng.randrange(1000), mtyp=rng.randrange(84),
             body=rng.choice([0, 0, 1, 2, -1]), body2=rng.choice([0, 0, 1, 2, -1]))
    if rng.random() < .1:
        a['bad'] = 1
    if rng.random() < .2:
        a['np'] = rng.randrange(3)
    return a


def run(plan, ctx):
    bench = qhist.Bench(ctx, plan)
    objs = [(i, next(iter(m.files.values())).store.path) for i, m in enumerate(bench.models)]
    orac = [O.HydroOracle(m) for m in bench.models]
    qhist.run_steps(ctx, bench, plan['steps'], objs, lambda st, j: orac[j].question(st['q'], st), ID)
    bench.close()


shrink = c12.shrink
