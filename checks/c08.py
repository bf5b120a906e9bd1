"""C08: appending never damages what the file already holds."""
import os
from collections import OrderedDict

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C08'
TITLE = 'Appending never damages what the file already holds'
LEVEL = 'exploration'
RUNS = {'quick': 240, 'thorough': 4500}
RULE = ('a run is a generated history of conversions into one file (appended and replacing, prefixes, lists, same model '
        'again, failing at generated I/O calls or by interrupts, truncated or missing sources); after every step the file '
        'must hold exactly what the successful steps put there; non-trivial: new trace with at least two steps')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of read/open on the sources', 'delivery of SIGINT', 'n-th call of PyTables create/append']
ASSUMPTIONS = ['the disk of the output is healthy (failures of the output are C07)']


def gen(rng, tier):
    pool = [M.random_spec(rng, 'TTRRGGHHS', small=True) for _ in range(rng.randint(2, 4))]
    steps = []
    for i in range(rng.randint(3, 6)):
        steps.append(dict(
            model=[rng.randrange(len(pool)) for _ in range(rng.choice([1, 1, 1, 1, 2]))],
            append=rng.random() < .85 if i else rng.random() < .5, prefix=rng.choice(['', '', 'a_', 'b_', 'Run2_']),
            usefileprefix=rng.random() < .7, fmt=rng.choice('FU'), src=lib.gen_benign(rng) if rng.random() < .3 else [],
            fail=rng.choice([None] * 5 + ['read', 'open', 'sigint', 'cut', 'gone', 'tb', 'tbint']),
            frac=lib.rfrac(rng), sub=rng.random(), reopen=rng.random() < .5))
        if len(steps[-1]['model']) > 1 and rng.random() < .5:
            # a prefix for each of the sources
            steps[-1]['prefix2'] = rng.choice(['', 'a_', 'c_'])
    return dict(pool=pool, steps=steps, bufrows=rng.choice([None, None, 1, 4]),
                cramp=rng.choice([None, None, None, 1024, 8192]))


def run(plan, ctx):
    models = [M.build(s) for s in plan['pool']]
    lib.set_knobs(plan)
    dirs = {}
    for i, m in enumerate(models):
        for fmt in 'FU':
            dirs[i, fmt] = ctx.dir('m%d%s' % (i, fmt))
            m.write(dirs[i, fmt], fmt)
    out = os.path.join(ctx.dir('out'), 'x.h5')
    expect = OrderedDict()          # top group -> (model, prefix, usefileprefix)
    content = {}                    # top group -> snapshot when it was stored
    for k, st in enumerate(plan['steps']):
        ms = [models[i] for i in st['model']]
        pre = [st['prefix'], st.get('prefix2', st['prefix'])][:len(ms)]
        tops = [lib.group_of(m, x, st['usefileprefix']) for m, x in zip(ms, pre)]
        base = list(expect) if st['append'] else []
        # (group names, in the order in which they are stored)
        collide = None
        have = list(base)
        for j, t in enumerate(tops):
            if t in have:
                collide = j
                break
            have.append(t)
        srcs = [os.path.join(dirs[i, st['fmt']], m.top) for i, m in zip(st['model'], ms)]
        undo = None
        rules, tbf = [], None
        f = st['fail']
        sfx = ms[-1].top[-4:]
        if f in ('read', 'sigint'):
            rules = [dict(op='read', suffix=sfx, wr=0, at=int(st['frac'] * st['sub'] * 60),
                          act='err' if f == 'read' else 'sigint', err='EIO')]
        elif f == 'open':
            rules = [dict(op='open', suffix=sfx, wr=0, at=int(st['frac'] * 4), act='err', err='EACCES')]
        elif f in ('tb', 'tbint'):
            tbf = lib.tbfault(ctx, lib.TBCALLS[int(st['sub'] * 6997) % 4], int(st['frac'] * 25),
                              'MemoryError' if f == 'tb' else 'KeyboardInterrupt')
        elif f in ('cut', 'gone'):
            mm = ms[-1]
            names = list(mm.files) if f == 'cut' else [mm.top]
            nm = names[int(st['sub'] * 7919) % len(names)]
            p = os.path.join(dirs[st['model'][-1], st['fmt']], nm)
            with open(p, 'rb') as h:
                good = h.read()
            if f == 'gone':
                os.unlink(p)
            else:
                data, spans = mm.files[nm].encode(st['fmt'])
                ends = [a for (a, b), r in zip(spans, mm.files[nm].recs) if r.name == 'IEND']
                with open(p, 'wb') as h:
                    h.write(data[:lib.position(st['frac'], ends[0])])

            def undo(p=p, good=good):
                with open(p, 'wb') as h:
                    h.write(good)
        raised = None
        with lib.faults(ctx, rules + st['src']) as fl:
            if tbf:
                tbf.__enter__()
            try:
                fs.sif2hdf5(srcs if len(srcs) > 1 else srcs[0], out, append=st['append'],
                            prefix=pre if 'prefix2' in st else st['prefix'],
                            usefileprefix=st['usefileprefix'])
            except (Exception, KeyboardInterrupt) as e:
                raised = e
            finally:
                if tbf:
                    tbf.__exit__()
        if undo:
            undo()
        fired = bool(fl.fired and rules) or bool(tbf and tbf.fired) or f in ('cut', 'gone')
        what = 'step %d (%s of %s, prefix %r%s%s)' % (k, 'append' if st['append'] else 'conversion', tops, pre,
                                                    ', fault ' + f if f else '',
                                                    ', raised ' + lib.err(raised) if raised else '')
        ctx.log('step', k, type(raised).__name__)
        ctx.eval()
        if raised is None and collide is not None:
            raise Violation('collision-accepted', '%s: returned normally although the file already has %r'
                            % (what, tops[collide]))
        if raised is not None and collide is None and not fired:
            raise Violation('raises:' + type(raised).__name__, '%s: raised without any fault' % what)
        if not st['append']:
            old, expect, content = expect, OrderedDict(), {}
        optional = {}
        for m, t, x in zip(ms, tops, pre):
            if t in expect or t in optional:
                break
            if raised is None:
                expect[t] = (m, dict(st, prefix=x))
            else:
                optional[t] = (m, dict(st, prefix=x))
        if raised is not None and not st['append']:
            # a replacing conversion that failed: only what it may have stored
            if not os.path.exists(out):
                ctx.probe('replace-failed')
                continue
            try:
                snap = lib.snapshot(out)
            except Exception:
                os.unlink(out)
                ctx.probe('replace-failed')
                continue
            if set(x.split('/')[0] for x in snap) - set(tops) - set(old):
                raise Violation('foreign', '%s: the file holds %s' % (what, list(snap)))
            os.unlink(out)
            ctx.probe('replace-failed')
            continue
        if not os.path.exists(out):
            ctx.probe('nothing-yet')
            if expect:
                raise Violation('lost', '%s: the file is gone' % what)
            continue
        snap = lib.read_output(out)
        # what was there is there, unchanged; what is new is complete
        present = []
        for g in snap:
            t = g.split('/')[0]
            if t not in present:
                present.append(t)
        for t, (m, s) in expect.items():
            if t not in present:
                raise Violation('lost', '%s: superelement %r is gone' % (what, t))
            verify(snap, t, m, s, what, content)
        for t in present:
            if t in expect:
                continue
            if t not in optional:
                raise Violation('foreign', '%s: superelement %r should not be there' % (what, t))
            m, s = optional[t]
            if len(ms) == 1:
                raise Violation('partial', '%s: the failed conversion left superelement %r' % (what, t))
            verify(snap, t, m, s, what, content)        # complete member of a list
            expect[t] = optional[t]
        if st['reopen']:
            try:
                h = fs.open_hdf5(out)
            except Exception as e:
                raise Violation('unreadable', '%s: opening the file raises %s' % (what, lib.err(e)))
            keys = sorted(h.keys())
            h.close()
            if keys != sorted(snap):
                raise Violation('keys', '%s: the opened file offers %s, it holds %s' % (what, keys, sorted(snap)))
        ctx.probe('ok' if raised is None else 'failed' if collide is None else 'collision')
        if raised is not None and st['append'] and expect:
            ctx.probe('failed-append-onto-data')


def verify(snap, t, m, s, what, content):
    mine = OrderedDict((k, v) for k, v in snap.items() if k == t or k.startswith(t + '/'))
    if t in content:
        d = lib.differ(content[t], mine)
        if d:
            raise Violation('changed', '%s: what the file already held changed: %s' % (what, d))
        return
    got = lib.take(mine, m, s['prefix'], s['usefileprefix'])
    try:
        lib.check_stores(got, m.stores())
    except Violation as v:
        raise Violation('stored:' + v.key, '%s: %s' % (what, v.msg))
    content[t] = mine


def shrink(plan):
    s = plan['steps']
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(plan, steps=s[:i] + s[i + 1:])
    for i in range(len(s)):
        for ch in (dict(src=[]), dict(fail=None), dict(prefix=''), dict(model=s[i]['model'][:1]), dict(usefileprefix=True)):
            if any(s[i][a] != b for a, b in ch.items()):
                q = dict(s[i], **ch)
                if len(q['model']) < 2:
                    q.pop('prefix2', None)
                yield dict(plan, steps=s[:i] + [q] + s[i + 1:])
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    for j, sp in enumerate(plan['pool']):
        for q in M.shrink_spec(sp):
            yield dict(plan, pool=plan['pool'][:j] + [q] + plan['pool'][j + 1:])
