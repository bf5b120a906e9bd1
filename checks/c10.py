"""C10: filtering and unsupported records never affect the records kept."""
import os

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C10'
TITLE = 'Filtering and unsupported records never affect the records kept'
LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 5000}
RULE = ('a run converts one generated model with generated lists of wanted record types and with unsupported records '
        'inserted at generated places, under generated delivery faults, and compares with the source and with the '
        'unfiltered conversion; non-trivial: new trace with at least one record left out')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of read on the scratch folder']
ASSUMPTIONS = ['a filter list holds the types a wanted type is read with: IDENT and HIERARCH always, GELMNT1 for '
               'GELREF1, RDPOINTS for RDIELCOR, RDRESREF/RDPOINTS/RDFORCES|RDSTRESS|RDSTRAIN|RDNODRES for results',
               'unsupported records are types of the Sesam format that the library knows by name']

NEEDS = {'GELREF1': ['GELMNT1'], 'RDIELCOR': ['RDPOINTS'],
         'RVFORCES': ['RDFORCES', 'RDPOINTS', 'RDRESREF'], 'RVSTRESS': ['RDSTRESS', 'RDPOINTS', 'RDRESREF'],
         'RVSTRAIN': ['RDSTRAIN', 'RDPOINTS', 'RDRESREF'], 'RVNODDIS': ['RDNODRES', 'RDRESREF'],
         'RVNODVEL': ['RDNODRES', 'RDRESREF'], 'RVNODACC': ['RDNODRES', 'RDRESREF']}
ALWAYS = ['IDENT', 'HIERARCH']


def close_only(names):
    out = set(names) | set(ALWAYS)
    while True:
        more = set(y for x in out for y in NEEDS.get(x, ())) - out
        if not more:
            return sorted(out)
        out |= more


def gen_only(rng):
    k = rng.choice([1, 2, 4, 10, 30])
    return close_only(rng.sample(lib.STORED_TYPES, k))


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTTRRRGGGHS')
    for f in ('unsup',):
        if f not in spec['feats'] and rng.random() < .8:
            spec['feats'] = sorted(spec['feats'] + [f])
    # types that occur are chosen by position in the model, see run
    picks = [[rng.random() for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))] for _ in range(rng.randint(1, 3))]
    return dict(spec=spec, fmt=rng.choice('FU'), picks=picks, drop=[rng.random() < .5 for _ in picks],
                kind=[rng.choice(['list', 'tuple', 'set']) for _ in picks],
                how=rng.choice(['disk', 'disk', 'mem', 'append', 'list', 'deflist']), src=lib.gen_benign(rng),
                extra=[[rng.randrange(1 << 30), lib.rfrac(rng)] for _ in range(rng.choice([0, 1, 2, 4]))],
                bufrows=rng.choice([None, None, 1, 2, 5]))


def convert(m, src, out, how, only, ctx):
    if how == 'mem':
        f = fs.sif2hdf5(src, only=only, in_memory=True)
        try:
            return lib.snap_file(f)
        finally:
            f.close()
    if how == 'append':
        fs.sif2hdf5(src, out, only=only, prefix='first_')
        fs.sif2hdf5(src, out, only=only, append=True)
        return both(lib.read_output(out), m)
    if how == 'list':
        fs.sif2hdf5([src, src], out, only=only, prefix=['first_', ''])
        return both(lib.read_output(out), m)
    if how == 'deflist':
        # into a file named after the source, in the current folder
        os.chdir(os.path.dirname(out))
        fs.sif2hdf5([src], only=only)
        return lib.read_output(os.path.join(os.path.dirname(out), os.path.basename(src)[:-3] + 'h5'))
    fs.sif2hdf5(src, out, only=only)
    return lib.read_output(out)


def both(snap, m):
    one, two = lib.take(snap, m, 'first_'), lib.take(snap, m)
    d = lib.differ(one, two)
    if d:
        raise Violation('twice-differs', 'the same source, converted twice into one file, is stored in two ways: ' + d)
    return two


def add_unsupported(m, extra):
    """more unsupported records, anywhere between records of a file"""
    import random
    for seed, frac in extra:
        rng = random.Random(seed)
        f = list(m.files.values())[rng.randrange(len(m.files))]
        b = M.Builder(rng, f.store, set())
        names = M.UNSUPW if m.letter == 'G' else M.UNSUP1 + M.UNSUP2
        M.add_unsupported(b, names, rng, M.Dom(rng))
        # between any two records, also of one type, before the end record
        n = max(i for i, r in enumerate(f.recs) if r.name != 'IEND') + 1
        p = lib.position(frac, n + 1)
        if p and f.recs[p - 1].neg is None and f.recs[p - 1].typ == 'neg5':
            p -= 1
        f.recs[p:p] = b.runs[0][1]


def run(plan, ctx):
    m = M.build(plan['spec'])
    if plan['extra']:
        add_unsupported(m, plan['extra'])
    lib.set_knobs(plan)
    src = m.write(ctx.dir(), plan['fmt'])
    plain = M.build(plan['spec'])
    unsup = set(M.UNSUP1 + M.UNSUP2 + M.UNSUPW)
    for f in plain.files.values():
        recs = []
        for r in f.recs:
            # (the record that announces a run stands only before the run)
            if r.name not in unsup and not (r.f[0] < 0 and recs and recs[-1].name == r.name):
                recs.append(r)
        f.recs = recs
    psrc = plain.write(ctx.dir(), plan['fmt'])

    def go(s, only=None):
        try:
            with lib.faults(ctx, plan['src']):
                return convert(m, s, ctx.dir() + '/x.h5', plan['how'], only, ctx)
        except Violation:
            raise
        except Exception as e:
            raise Violation('raises:' + type(e).__name__, 'converting a well-formed source%s raised %s'
                            % (' with a filter' if only else '', lib.err(e)))
    full = go(src)
    lib.check_stores(full, m.stores(), ctx=ctx)
    d = lib.differ(go(psrc), full)
    if d:
        raise Violation('unsupported-changes', 'records of types not stored change what is stored: ' + d)
    ctx.probe('unsupported', sum(r.name in unsup for f in m.files.values() for r in f.recs))
    names = []
    for s in m.stores():
        names += [n for n in s.names() if n not in names]
    for pick, drop, kind in zip(plan['picks'], plan['drop'], plan['kind']):
        chosen = [names[lib.position(x, len(names))] for x in pick]
        if drop:
            # all but the chosen ones and what needs them
            only = [n for n in names if not set(close_only([n])) & (set(chosen) - set(ALWAYS))]
            only = close_only(only)
        else:
            only = close_only(chosen)
        snap = go(src, {'list': list, 'tuple': tuple, 'set': set}[kind](only))
        lib.check_stores(snap, m.stores(), only=set(only), ctx=ctx)
        for p, g in snap.items():
            for k, v in g.items():
                if k.startswith('@') and k != '@RECORDS' or not k.startswith('@'):
                    if k not in full[p] or not lib.equal(full[p][k], v):
                        raise Violation('filter-changes', 'with only=%s, %s/%s is not what the unfiltered conversion '
                                        'stores' % (only, p, k))
        ctx.probe('filtered')


def shrink(plan):
    for k in ('picks', 'extra', 'src'):
        for i in range(len(plan[k])):
            if k != 'picks' or len(plan[k]) > 0:
                p = dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
                if k == 'picks':
                    p['drop'] = plan['drop'][:i] + plan['drop'][i + 1:]
                    p['kind'] = plan['kind'][:i] + plan['kind'][i + 1:]
                yield p
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    if plan['how'] != 'disk':
        yield dict(plan, how='disk')
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
