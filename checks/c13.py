"""C13: geometry, numbering and connectivity of any selection agree."""
import numpy as np

from sim import model as M, oracle as O, qhist
from sim.engine import Violation
from checks import c12

ID = 'C13'
TITLE = 'Geometry, numbering and connectivity of any selection agree'
LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('a run is a generated model (input or results, one or several superelements) and a history of 10 to 35 geometry '
        'queries over selections, some with failing, short or interrupted reads; every answer is compared with the '
        'source, and the answers for one selection with each other; non-trivial: new trace')
REAL = c12.REAL
STUB = c12.STUB
ASSUMPTIONS = ['internal node and element numbers count the records of the file from one, as Sesam writes them',
               'a varying shell thickness (one per node) is refused by get_shell_thicknesses']


def gen(rng, tier):
    pool = []
    for _ in range(rng.choice([1, 1, 2, 2])):
        s = M.random_spec(rng, 'TTTRHS', small=rng.random() < .6)
        if rng.random() < .6 and 'sets' not in s['feats']:
            s['feats'] = sorted(s['feats'] + ['sets'])
        pool.append(s)
    medium = qhist.gen_media(rng, pool)
    return dict(pool=pool, medium=medium,
                steps=qhist.gen_steps(rng, rng.randint(10, 35), question), cramp=qhist.gen_cramp(rng), mode=qhist.gen_mode(rng))


def question(rng):
    a = qhist.gen_select(rng)
    a['q'] = rng.choice(O.StructOracle.GEO + O.StructOracle.GEO[:4] * 2)
    a['num'] = rng.choice([0, 0, 0, 1, 1, 2]) if rng.random() < .5 else 0
    if rng.random() < .6:
        a['cases'] = [rng.randrange(12) for _ in range(rng.choice([1, 1, 2, 3]))]
    k = rng.random()
    if k < .04:
        a['bad'] = 'kind'
    elif k < .08:
        a['bad'] = 'set'
    return a


def run(plan, ctx):
    bench = qhist.Bench(ctx, plan)
    objs, orac = c12.objects(bench)
    qhist.run_steps(ctx, bench, plan['steps'], objs, lambda st, j: orac[j].geometry(st['q'], st), ID)
    bench.settle()
    # the answers for one selection fit each other
    for n, st in enumerate(plan['steps'][:6]):
        j = st['obj'] % len(objs)
        d = bench.open(objs[j][0])[objs[j][1]]
        k = orac[j].select(st)
        idx = orac[j].elements(**k)
        if not idx:
            continue
        if st.get('disc'):
            k['disconnected'] = True
        what = 'selection %s of %s' % (k, objs[j][1])
        xyz, num = d.get_nodes(**k), d.get_nodenumbers(**k)
        con, off, typ = d.get_elements(**k)
        el = d.get_elementnumbers(**{x: y for x, y in k.items() if x != 'disconnected'})
        s = orac[j].s
        if len(xyz) != len(num) or len(off) != len(typ) or len(el) != len(off) or len(con) != off[-1]:
            raise Violation('lengths', '%s: %d coordinates, %d node numbers, %d offsets, %d types, %d elements'
                            % (what, len(xyz), len(num), len(off), len(typ), len(el)))
        byx = {x: (t, c) for x, t, c in s.elems}
        start = 0
        for e, t, o in zip(el, typ, off):
            want = byx.get(int(e))
            got = [int(num[c]) for c in con[start:o]]
            if want is None or want[0] != t or got != [s.nodex[c - 1] for c in want[1]]:
                raise Violation('connectivity', '%s: element %s is type %s with nodes %s; in the source %s'
                                % (what, e, t, got, want))
            for c, w in zip(con[start:o], want[1]):
                if O.same(xyz[c], np.array(s.coords[w - 1], np.float32)):
                    raise Violation('connectivity', '%s: element %s has a node at %s instead of %s'
                                    % (what, e, xyz[c], s.coords[w - 1]))
            start = o
        ctx.eval()
    bench.close()
    ctx.probe('objects', len(objs))


shrink = c12.shrink
