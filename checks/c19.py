"""C19: a write failure of the VTU writer is reported and releases the file."""
import os

from freesif.utils import VtuWriter

from sim import lib, vtu
from sim.engine import Violation

ID = 'C19'
TITLE = 'A write failure of the VTU writer is reported and releases the file'
LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('a run is a generated history of writer calls with one to three failures of open, write or close at seeded '
        'positions, transient or lasting; the outcome of every call and the file are compared with the complete document, '
        'then the path is written again; non-trivial: new trace in which a failure was injected')
REAL = ['freesif.utils.VtuWriter', 'numpy', 'Python file objects', 'kernel file system below the layer']
STUB = ['results of open, write and close on the VTU file']
ASSUMPTIONS = ['the kernel keeps what a successful write returned']


def gen(rng, tier):
    ops = vtu.gen_ops(rng, rng.randint(2, 16), False, rng.random() < .8)
    ops.insert(0, dict(ops[0], op='piece', n=rng.choice([2, 50, 400])))
    rules = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        e = rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'])
        if k < .55:
            rules.append(dict(op='write', suffix='.vtu', wr=1, frac=lib.rfrac(rng),
                              count=rng.choice([1, 1, 2, 1 << 20]), act='err', err=e))
        elif k < .75:
            rules.append(dict(op='quota', frac=lib.rfrac(rng)))
        elif k < .9:
            rules.append(dict(op='close', suffix='.vtu', wr=1, at=0, count=1,
                              act=rng.choice(['errafter', 'errafter', 'err']), err=rng.choice(['EIO', 'ENOSPC'])))
        elif k < .95:
            rules.append(dict(op='open', suffix='.vtu', wr=1, at=0, count=1, act='err',
                              err=rng.choice(['EACCES', 'ENOSPC', 'EMFILE'])))
        else:
            rules.append(dict(op='write', suffix='.vtu', wr=1, frac=lib.rfrac(rng), count=rng.choice([1, 9]),
                              act='short', keep=rng.choice([1, 100])))
    return dict(ops=ops, rules=rules, giveup=rng.random() < .5, old=rng.random() < .5, twice=rng.random() < .5)


def play(ctx, p, ops, giveup):
    """-> (history, what raised, close returned)"""
    raised = []
    try:
        w = VtuWriter(p)
    except Exception as e:
        ctx.log('open', type(e).__name__)
        return None, [lib.err(e)], False, None
    h = vtu.History(ctx, w, p)
    for op in ops:
        fn, commit = h.do(op)
        if fn is None or commit is None:
            continue
        try:
            fn()
        except Exception as e:
            raised.append('%s raised %s' % (op['op'], lib.err(e)))
            ctx.log('failed', op['op'], type(e).__name__)
            if giveup:
                break
            # the caller goes on as if the call had worked
        commit()
    try:
        w.close()
        closed = True
    except Exception as e:
        raised.append('close raised ' + lib.err(e))
        ctx.log('failed', 'close', type(e).__name__)
        closed = False
    return h, raised, closed, w


def run(plan, ctx):
    p = os.path.join(ctx.dir('out'), 'x.vtu')

    def clean():
        h, raised, closed, _ = play(ctx, p, plan['ops'], False)
        if raised or not closed:
            raise Violation('undisturbed', 'without a failure: %s' % raised)
        with open(p, 'rb') as f:
            data = f.read()
        vtu.check_document(data, h.pieces)
        return len(data)

    def counted():
        return lib.count_ops(ctx, [dict(op='write', suffix='.vtu', wr=1)], clean)
    size, (writes,) = lib.in_child(counted)
    if not plan['old']:
        os.unlink(p)
    rules = []
    for r in plan['rules']:
        r = dict(r)
        f = r.pop('frac', None)
        if f is not None:
            r['at'] = lib.position(f, size if r['op'] == 'quota' else writes)
        rules.append(r)
    with lib.faults(ctx, rules) as fl:
        h, raised, closed, w = play(ctx, p, plan['ops'], plan['giveup'])
        if ctx.sim.openfds():
            raise Violation('leak-file', 'the file is still open after a failure and close (%s)' % raised)
    hard = fl.fired and any(r.get('act') != 'short' for r in rules)
    ctx.eval()
    if raised and not hard:
        raise Violation('raised-without-cause', 'no failure was injected, but %s' % raised)
    if closed:
        # close says that everything is there
        with open(p, 'rb') as f:
            data = f.read()
        try:
            vtu.check_document(data, h.pieces)
        except Violation as v:
            raise Violation('silent:' + v.key, 'close returned normally%s, but the file is not complete: %s'
                            % (' (after %s)' % raised if raised else '', v.msg))
    elif not raised:
        raise Violation('silent', 'nothing raised')
    if w is not None and plan['twice'] and not closed:
        try:
            w.close()
        except Exception:
            pass
        if ctx.sim.openfds():
            raise Violation('leak-file', 'the file is still open after close')
    ctx.probe('reported' if raised else 'unharmed')
    # the cause is gone
    h, raised, closed, _ = play(ctx, p, plan['ops'], False)
    if raised or not closed:
        raise Violation('retry', 'after the failure, writing the same file again: %s' % raised)
    with open(p, 'rb') as f:
        try:
            vtu.check_document(f.read(), h.pieces)
        except Violation as v:
            raise Violation('retry:' + v.key, 'written again after the failure: ' + v.msg)
    if ctx.sim.openfds():
        raise Violation('leak-file', 'the file is still open after close')
    ctx.eval()


def shrink(plan):
    from checks import c18
    for q in c18.shrink(plan):
        if q['rules']:
            yield q
    for i, r in enumerate(plan['rules']):
        if r.get('count', 1) > 1:
            yield dict(plan, rules=plan['rules'][:i] + [dict(r, count=1)] + plan['rules'][i + 1:])
    for k in ('giveup', 'old', 'twice'):
        if plan[k]:
            yield dict(plan, **{k: False})
