"""C16: what a query returned belongs to the caller."""
import os

import numpy as np

from freesif.utils import VtuWriter

from sim import lib, model as M, oracle as O, qhist, vtu
from sim.engine import Violation
from checks import c12, c13, c14, c15, c18

ID = 'C16'
TITLE = 'What a query returned belongs to the caller'
LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 12000}
RULE = ('a run is a generated history of 10 to 40 queries on one or two files, of writes of VTU files from the answers, and '
        'of in-place changes (values, shape, type, order, keys) of earlier answers and arguments, also between a failed '
        'read and the repeated query; every answer is compared with the source and the stored data with those before; '
        'non-trivial: new trace with a changed answer')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of read on the result file', 'results of write on the VTU file']
ASSUMPTIONS = ['an answer that is marked read-only is not changed by the caller']

HOW = ('fill', 'reverse', 'shape', 'dtype', 'byteswap', 'sort', 'flat', 'strides', 'resize')


def gen(rng, tier):
    pool = []
    for _ in range(rng.choice([1, 1, 2, 2])):
        k = rng.choice('RRTGGGHS')
        s = c12.result_spec(rng) if k in 'RS' else M.random_spec(rng, k, small=rng.random() < .7)
        pool.append(s)

    def question(rng):
        st = dict(c12.question(rng), rq=rng.choice(O.StructOracle.RES))
        g, h, t = c13.question(rng), c14.question(rng), c15.question(rng)
        st.update(gq=g['q'], num=g['num'], hq=h['q'], mtyp=h['mtyp'], body=h['body'], body2=h['body2'],
                  trans=t['trans'], level=t['level'], which=rng.choice('rrggt'))
        st.pop('bad', None)
        st['poke'] = [dict(back=rng.choice([0, 0, 0, 1, 2, 5]), how=rng.choice(HOW), arg=rng.random() < .25)
                      for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        return st
    steps = qhist.gen_steps(rng, rng.randint(10, 40), question)
    for i in sorted((rng.randrange(len(steps)) for _ in range(rng.randint(0, 2))), reverse=True):
        steps.insert(i, dict(vtu=1, obj=rng.randrange(100), i=rng.randrange(1000), twice=rng.random() < .5,
                             disc=rng.random() < .6, cp=rng.random() < .7))
    medium = qhist.gen_media(rng, pool)
    return dict(pool=pool, medium=medium, steps=steps,
                cramp=qhist.gen_cramp(rng), mode=qhist.gen_mode(rng))


def poke(v, how):
    """change an answer in place; True when something was changed"""
    if isinstance(v, dict):
        for x in list(v.values()):
            if isinstance(x, np.ndarray):
                poke(x, how)
        v.clear()
        v['gone'] = 1
        return True
    if isinstance(v, list):
        for x in v:
            if isinstance(x, np.ndarray):
                poke(x, how)
        del v[:]
        v.append('gone')
        return True
    if isinstance(v, tuple):
        return any([poke(x, how) for x in v])
    if isinstance(v, np.void):
        # a single row
        if not v.flags.writeable:
            return False
        for n in v.dtype.names:
            v[n] = 0
        return True
    if not isinstance(v, np.ndarray) or not v.flags.writeable:
        return False
    try:
        if how == 'reverse' and len(v) > 1:
            v[:] = v[::-1].copy()
        elif how == 'sort' and v.dtype.names is None:
            v.sort(axis=0)
            v.ravel()[:1] = 3
        elif how == 'byteswap':
            v.byteswap(inplace=True)
        elif how == 'shape':
            fill(v)
            v.shape = (-1,)
        elif how == 'strides':
            fill(v)
            v.shape = (1,) + v.shape
        elif how == 'dtype' and v.dtype.names is None:
            fill(v)
            v.dtype = np.uint8
        elif how == 'resize':
            fill(v)
            v.resize((0,), refcheck=False)
        elif how == 'flat' and v.dtype.names is None:
            v.flat[:] = 12
        else:
            fill(v)
    except (ValueError, AttributeError, TypeError):
        fill(v)
    # the memory below, when the answer is a view of something larger
    b = v.base
    while isinstance(b, np.ndarray):
        if b.flags.writeable:
            fill(b)
        b = b.base
    return True


def fill(v):
    if v.size == 0:
        return
    if v.dtype.names:
        for n in v.dtype.names:
            v[n] = b'zz' if v[n].dtype.kind == 'S' else 77
    elif v.dtype.kind in 'SU':
        v[...] = 'zz'
    elif v.dtype.kind == 'O':
        v[...] = None
    else:
        v[...] = 77


def arrays_in(kw):
    return [(k, x) for k, x in kw.items() if isinstance(x, (np.ndarray, list))]


def run(plan, ctx):
    bench = qhist.Bench(ctx, plan)
    objs, orac = c12.objects(bench)
    for i, m in enumerate(bench.models):
        if m.letter == 'G':
            objs.append((i, next(iter(m.files.values())).store.path))
            orac.append(O.HydroOracle(m))
        elif hasattr(m, 'occ'):
            objs.append((i, next(iter(m.files.values())).store.path))
            orac.append(O.TopOracle(m))
    before = [lib.in_child(lambda p=p: lib.snapshot(p)) if bench.medium[i] == 'disk' else None
              for i, p in enumerate(bench.path)]
    held = []       # answers and arguments of earlier queries
    changed = 0
    for n, st in enumerate(plan['steps']):
        j = st['obj'] % len(objs)
        i, key = objs[j]
        if st.get('fresh'):
            bench.fresh(i)
        o = orac[j]
        d = bench.open(i)[key]
        if st.get('vtu'):
            if isinstance(o, O.StructOracle):
                write(ctx, d, o, st, 'step %d: writing %s' % (n, key))
            continue
        if isinstance(o, O.HydroOracle):
            meth, kw, exp = o.question(st['hq'], st)
            if meth == 'globals':
                kw = {'depth': 1} if len(exp['value']) == 3 else {}
        elif isinstance(o, O.TopOracle):
            meth, kw, exp = o.transformation(st)
        elif st['which'] == 'r' and o.results:
            meth, kw, exp = o.result(st['rq'], st)
        elif st['which'] == 't':
            meth, kw, exp = o.transformed('get_nodes', dict(st, trans='top' if st['trans'] == 'absent' else st['trans']))
        else:
            meth, kw, exp = o.geometry(st['gq'], st)
        given = {k: (x.copy() if isinstance(x, np.ndarray) else list(x)) for k, x in arrays_in(kw)}
        what = 'step %d: %s(%s) of %s' % (n, meth, ', '.join('%s=%s' % (a, qhist.short(b)) for a, b in kw.items()), key)
        f = st.get('fault')
        rules = []
        if f and bench.medium[i] == 'disk' and f['act'] == 'err':
            rules = [dict(op='read', suffix='.h5', wr=-1, at=int(f['frac'] * 6), count=f['count'], act='err', err='EIO')]
        with lib.faults(ctx, rules) as fl:
            out, val = qhist.attempt(d, meth, kw)
        if fl.fired and bench.cramp:
            bench.spoilt.add(i)
        if out == 'ok' or not (fl.fired or (i in bench.spoilt and out in qhist.HDF5_FAILS)):
            bad = O.judge(exp, out, val)
            if bad:
                raise Violation('changed:' + meth, '%s%s: %s' % (
                    what, ' (after %d earlier answers were changed)' % changed if changed else '', bad))
        ctx.eval()
        for k, x in arrays_in(kw):
            if not lib.equal(given[k], x):
                raise Violation('argument', '%s: the argument %s was changed from %s to %s' % (what, k, given[k], x))
        ctx.log('q', meth, out)
        held.append((val, kw, meth))
        for p in st.get('poke', ()):
            k = len(held) - 1 - p['back']
            if k < 0:
                continue
            v, a, _ = held[k]
            if p['arg']:
                for _, x in arrays_in(a):
                    changed += bool(poke(x, p['how']))
            elif v is not None:
                changed += bool(poke(v, p['how']))
    bench.settle()
    # what is stored, and what the files answer, is unchanged
    for st in plan['steps'][:12]:
        j = st['obj'] % len(objs)
        o = orac[j]
        if st.get('vtu'):
            continue
        d = bench.open(objs[j][0])[objs[j][1]]
        if isinstance(o, O.HydroOracle):
            meth, kw, exp = o.question(st['hq'], st)
            if meth == 'globals':
                kw = {'depth': 1} if len(exp['value']) == 3 else {}
        elif isinstance(o, O.StructOracle):
            meth, kw, exp = o.result(st['rq'], st) if o.results and st['which'] == 'r' else o.geometry(st['gq'], st)
        else:
            continue
        out, val = qhist.attempt(d, meth, kw)
        bad = O.judge(exp, out, val)
        if bad:
            raise Violation('changed:' + meth, 'in the end %s(%s) of %s: %s' % (meth, kw, objs[j][1], bad))
    bench.close()
    for i, p in enumerate(bench.path):
        if before[i] is not None and not lib.equal(before[i], lib.snapshot(p)):
            raise Violation('stored', 'the stored data changed: %s' % lib.differ(before[i], lib.snapshot(p)))
    ctx.probe('changed', changed)


def write(ctx, d, o, st, what):
    """mesh and results of an object to a VTU file: the arrays stay as they
    are, and changing them afterwards changes nothing in the file"""
    sel = dict(kind='shell', disconnected=True) if st['disc'] else {}
    out, pts = qhist.attempt(d, 'get_nodes', sel)
    out2, cells = qhist.attempt(d, 'get_elements', sel)
    if out != 'ok' or out2 != 'ok' or any(int(t) not in vtu.VTKTYPE for t in cells[2]):
        return
    p = os.path.join(ctx.dir('vtu'), 'x.vtu')
    w = VtuWriter(p)
    h = vtu.History(ctx, w, p)
    r = np.random.RandomState(st['i'])
    res = r.uniform(-1, 1, (len(cells[0]), 3)).astype('f4')
    every = [pts] + list(cells) + [res]
    keep = [x.copy() for x in every]
    ro = st['i'] % 5 == 0
    if ro:
        for x in every:
            x.flags.writeable = False
    for k in range(2 if st['twice'] else 1):
        try:
            w.new_piece(pts, cells)
            piece = vtu.Piece(keep[0], keep[1:4])
            h.pieces.append(piece)
            if not ro and st['i'] % 2 and not st['twice']:
                # the caller may reuse the arrays of the mesh at once
                for x in (pts,) + tuple(cells):
                    x[...] = 0
            w.start_pointdata()
            arrays = []
            piece.sections.append(('PointData', arrays))
            if st['cp']:
                w.add_data_cellpoints(res, 'res')
                arrays.append(('res', None, vtu.reorder(keep[4], piece.cells, vtu.RES)))
            w.add_data(res, 'raw')
            arrays.append(('raw', None, keep[4]))
        except Exception as e:
            raise Violation('writer', '%s: %s' % (what, lib.err(e)))
        if ro or not st['i'] % 2 or st['twice']:
            for name, x, y in zip(('points', 'connectivity', 'offsets', 'types', 'results'), every, keep):
                if not lib.equal(x, y):
                    raise Violation('argument', '%s: the writer changed the %s it was given' % (what, name))
    if not ro:
        for x in every:
            x[...] = 5
    w.close()
    c18.check(p, h)
    ctx.probe('vtu')


def shrink(plan):
    for q in c12.shrink(plan):
        yield q
    o = plan['steps']
    for i, st in enumerate(o):
        if st.get('poke'):
            yield dict(plan, steps=o[:i] + [dict(st, poke=[])] + o[i + 1:])
