"""C18: the VTU writer always produces a valid document with the given data."""
import os

from freesif.utils import VtuWriter

from sim import lib, vtu
from sim.engine import Violation

ID = 'C18'
TITLE = 'The VTU writer always produces a valid document with the given data'
LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('a run is a generated history of 5 to 30 writer calls, valid ones and ones that must be refused, over array types, '
        'byte orders, memory layouts and names, one file or two in turns, with short and interrupted writes; the closed '
        'file is parsed and decoded '
        'independently; non-trivial: new trace with at least one piece')
REAL = ['freesif.utils.VtuWriter', 'numpy', 'Python file objects', 'kernel file system below the layer']
STUB = ['results of write on the VTU file']
ASSUMPTIONS = ['data arrays have as many rows as the piece has points or cells, each kind of data is started at most once '
               'per piece']


def gen(rng, tier):
    ops = vtu.gen_ops(rng, rng.randint(5, 30), True, rng.random() < .3)
    if rng.random() < .85:
        first = [o for o in ops if o['op'] == 'piece'] or [dict(ops[0], op='piece', n=3)]
        ops.insert(rng.choice([0, 0, 1, 2]), dict(first[0]))
    plan = dict(ops=ops, rules=benign(rng), late=rng.random() < .3)
    if rng.random() < .3:
        # a second file written in turns with the first one
        more = vtu.gen_ops(rng, rng.randint(3, 15), True)
        more.insert(0, dict(more[0], op='piece', n=rng.randint(1, 6)))
        plan['more'] = more
        plan['turns'] = [rng.randint(0, 3) for _ in range(len(ops) + 1)]
    return plan


def benign(rng):
    out = []
    for _ in range(rng.randint(0, 2)):
        if rng.random() < .6:
            out.append(dict(op='write', suffix='.vtu', wr=1, at=rng.randint(0, 6), count=rng.choice([1, 3, 50]),
                            act='short', keep=rng.choice([1, 3, 100, 4095])))
        else:
            out.append(dict(op='write', suffix='.vtu', wr=1, at=rng.randint(0, 6), count=rng.choice([1, 2]),
                            act='err', err='EINTR'))
    return out


def play(ctx, h, ops, between=None):
    for n, op in enumerate(ops):
        if between:
            between(n)
        fn, commit = h.do(op)
        if fn is None:
            continue
        try:
            fn()
        except Exception as e:
            if commit is not None and not hasattr(commit, 'optional'):
                raise Violation('refused:' + op['op'], 'call %d (%s): a good call raised %s'
                                % (n, op['op'], lib.err(e)))
            h.refused += 1
            ctx.log('refused', op['op'], type(e).__name__)
        else:
            if commit is None:
                raise Violation('accepted:' + op['op'], 'call %d (%s): a call out of order or with unsupported data '
                                'was accepted' % (n, op['op']))
            commit()
            ctx.log('call', op['op'])
        ctx.eval()


def run(plan, ctx):
    p = os.path.join(ctx.dir('out'), 'x.vtu')
    with lib.faults(ctx, plan['rules']):
        w = VtuWriter(p)
        h = vtu.History(ctx, w, p)
        if plan.get('more'):
            p2 = os.path.join(ctx.dir('out'), 'y.vtu')
            w2 = VtuWriter(p2)
            h2 = vtu.History(ctx, w2, p2)
            rest = list(plan['more'])

            def between(n):
                k = plan['turns'][n] if n < len(plan['turns']) else 1
                play(ctx, h2, rest[:k])
                del rest[:k]
            play(ctx, h, plan['ops'], between)
            if len(plan['ops']) % 2:
                w2.close()
                w.close()
            else:
                w.close()
                play(ctx, h2, rest)
                w2.close()
            check(p2, h2)
            ctx.probe('two-files')
        else:
            play(ctx, h, plan['ops'])
            w.close()
    check(p, h)
    if plan['late']:
        # nothing can be added once it is closed
        for op in plan['ops'][:5]:
            fn, _ = h.do(op)
            if fn is None:
                continue
            try:
                fn()
            except Exception:
                pass
            else:
                if op['op'] != 'point' and op['op'] != 'cell':
                    raise Violation('accepted:closed', '%s was accepted after close' % op['op'])
        check(p, h)
    if ctx.sim.openfds():
        raise Violation('leak-file', 'the file is still open after close')
    ctx.probe('pieces', len(h.pieces))
    ctx.probe('refused', h.refused)


def check(p, h):
    with open(p, 'rb') as f:
        vtu.check_document(f.read(), h.pieces)


def shrink(plan):
    o = plan['ops']
    n = len(o)
    for size in (n // 2, n // 4, 3, 1):
        if size < 1 or size >= n:
            continue
        for i in range(0, n, size):
            yield dict(plan, ops=o[:i] + o[i + size:])
    if plan.get('more'):
        q = plan['more']
        yield {k: v for k, v in plan.items() if k not in ('more', 'turns')}
        for i in range(len(q)):
            yield dict(plan, more=q[:i] + q[i + 1:])
    if plan.get('rules'):
        yield dict(plan, rules=[])
        for i in range(len(plan['rules'])):
            yield dict(plan, rules=plan['rules'][:i] + plan['rules'][i + 1:])
    for i, x in enumerate(o):
        for k, v in (('n', 1), ('dtype', 'f8'), ('layout', 'C'), ('name', 0), ('comp', 0), ('ndim', 1)):
            if x.get(k, v) != v:
                yield dict(plan, ops=o[:i] + [dict(x, **{k: v})] + o[i + 1:])
