"""Histories of queries on open files, with failing, short and interrupted
reads, compared with the oracle after every step."""
import os

import freesif as fs

from . import lib, model as M, oracle as O
from .engine import Violation


# how PyTables reports that HDF5 cannot read a header
HDF5_FAILS = ('HDF5ExtError', 'TypeError')


def gen_select(rng):
    a = {}
    if rng.random() < .55:
        a['sets'] = [rng.randrange(9) for _ in range(rng.choice([1, 1, 2, 3]))]
        a['form'] = rng.choice([0, 0, 1, 2])
    if rng.random() < .45:
        a['kind'] = rng.choice(['beam', 'shell'])
    if rng.random() < .4:
        a['disc'] = 1
    a['i'] = rng.randrange(1000)
    if rng.random() < .25:      # numbers given as integers of numpy
        a['np'] = rng.randrange(3)
    return a


def gen_steps(rng, n, question):
    """steps: a question, where it is asked and what goes wrong meanwhile"""
    out = []
    for _ in range(n):
        st = question(rng)
        st['obj'] = rng.randrange(100)
        k = rng.random()
        if k < .3:
            st['fault'] = dict(frac=lib.rfrac(rng), act=rng.choice(['err', 'err', 'err', 'short', 'eintr']),
                               count=rng.choice([1, 1, 1, 2, 1 << 20]), keep=rng.choice([1, 7, 64, 500]))
            st['fresh'] = rng.random() < .85
            if st['fresh'] and rng.random() < .35:
                st['fault']['open'] = 1         # from the opening of the file on
        else:
            st['fresh'] = rng.random() < .1
        if rng.random() < .15:
            st['again'] = 1
        out.append(st)
    return out


def gen_media(rng, pool):
    """where the models of a pool are kept; a second model often has the
    names of the first"""
    medium = [rng.choice(['disk', 'disk', 'disk', 'mem']) for _ in pool]
    if len(pool) > 1:
        k = rng.random()
        if medium == ['mem', 'mem'] or k < .3:      # PyTables refuses two in-memory files of one name
            pool[1]['fileprefix'] = 'other_'
        else:
            if k < .7:
                pool[1] = dict(pool[0], seed=rng.randrange(1 << 30))
            pool[1]['fileprefix'] = pool[0]['fileprefix']
            for s in pool:
                s['seltyp'] = 1
    return medium


def gen_cramp(rng):
    """metadata cache of the files opened for queries"""
    return rng.choice([None, None, 1024, 1024, 8192])


def gen_mode(rng):
    return rng.choice(['r', 'r', 'r', 'a', 'r+'])


def shrink_steps(plan, key='steps'):
    o = plan[key]
    n = len(o)
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan.get('mode', 'r') != 'r':
        yield dict(plan, mode='r')
    for size in (n // 2, n // 4, 3, 1):
        if size < 1 or size >= n:
            continue
        for i in range(0, n, size):
            yield dict(plan, **{key: o[:i] + o[i + size:]})
    for i, st in enumerate(o):
        for k in ('fault', 'fresh', 'again', 'bad', 'sets', 'kind', 'disc', 'cases', 'run'):
            if st.get(k):
                t = {x: y for x, y in st.items() if x != k}
                yield dict(plan, **{key: o[:i] + [t] + o[i + 1:]})


class Bench(object):
    """one or two converted models and the open files on them"""

    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.models = [M.build(s) for s in plan['pool']]
        self.medium = plan.get('medium') or ['disk'] * len(self.models)
        self.cramp, self.mode = plan.get('cramp'), plan.get('mode', 'r')
        # files of which HDF5 may hold a partly read header: it caches one
        # when the reading of its continuation fails (HDF5 1.14), and then
        # fails until the file is opened again
        self.spoilt = set()
        self.src, self.path, self.files = [], [], [None] * len(self.models)
        for i, m in enumerate(self.models):
            s = m.write(ctx.dir('s%d' % i))
            p = os.path.join(ctx.dir('h%d' % i), 'x.h5')
            self.src.append(s)
            self.path.append(p)
            if self.medium[i] == 'disk':
                lib.convert(s, p)
        self.reads = [[] for _ in self.models]

    def open(self, i):
        if self.files[i] is None:
            if self.medium[i] == 'mem':
                self.files[i] = fs.open_sif(self.src[i]).file
            else:
                with lib.cramped(self.cramp):
                    self.files[i] = fs.open_hdf5(self.path[i], self.mode)
        return self.files[i]

    def other_reads(self, i, key, meth, kw):
        """whether a second handle on the same open file answers"""
        if self.mode != 'r' or self.medium[i] != 'disk':
            return False
        try:
            f = fs.open_hdf5(self.path[i], 'r')
        except Exception:
            return False
        try:
            return attempt(f[key], meth, kw)[0] == 'ok'
        finally:
            f.close()

    def settle(self):
        for i in sorted(self.spoilt):
            self.fresh(i)

    def fresh(self, i):
        self.spoilt.discard(i)
        if self.files[i] is not None:
            self.files[i].close()
            self.files[i] = None

    def close(self):
        for i in range(len(self.files)):
            self.fresh(i)


def call(d, meth, kw):
    if meth == 'globals':
        return [d.g, d.ro] + ([d.depth] if 'depth' in kw else [])
    return getattr(d, meth)(**kw)


def run_steps(ctx, bench, steps, objects, resolve, prop):
    """objects: list of (model index, key); resolve(step, object index) ->
    (method, kwargs, expectation)"""
    for n, st in enumerate(steps):
        j = st['obj'] % len(objects)
        i, key = objects[j]
        q = resolve(st, j)
        if q is None:
            continue
        meth, kw, exp = q
        if meth == 'globals':
            kw = {'depth': 1} if len(exp['value']) == 3 else {}
        if st.get('fresh'):
            bench.fresh(i)
        f = st.get('fault')
        # HDF5 crashes when a file is opened again whose opening failed half
        # way with hardly any metadata cache
        fo = bool(f and f.get('open') and st.get('fresh') and not bench.cramp)
        d = None if fo else bench.open(i)[key]
        what = 'step %d: %s(%s) of %s' % (n, meth, ', '.join('%s=%s' % (a, short(b)) for a, b in kw.items()), key)
        rules = []
        if f and bench.medium[i] == 'disk':
            _, seen = lib.in_child(lambda: count(ctx, d or (bench, i, key), meth, kw))
            if seen:
                at = lib.position(f['frac'], seen)
                if f['act'] == 'err':
                    rules = [dict(op='read', suffix='.h5', wr=-1, at=at, count=f['count'], act='err', err='EIO')]
                elif f['act'] == 'eintr':
                    rules = [dict(op='read', suffix='.h5', wr=-1, at=at, count=min(f['count'], 3), act='err',
                                  err='EINTR')]
                else:
                    rules = [dict(op='read', suffix='.h5', wr=-1, at=at, count=min(f['count'], 9), act='short',
                                  keep=f['keep'])]
        with lib.faults(ctx, rules) as fl:
            out, val = attempt(d or (bench, i, key), meth, kw)
        failed = bool(fl.fired and f['act'] == 'err') if f else False
        ctx.log('q', meth, sorted(kw), out)
        if failed and bench.cramp:
            bench.spoilt.add(i)
        if failed and out != 'ok':
            ctx.probe('query-failed')
        else:
            bad = O.judge(exp, out, val)
            if bad and out in HDF5_FAILS and i in bench.spoilt:
                ctx.probe('hdf5-stays-failed')
            elif bad:
                raise Violation('wrong:' + meth + (':fault' if failed else ''),
                                '%s%s: %s' % (what, ' while a read failed' if failed else '', bad))
        ctx.eval()
        d = bench.open(i)[key]
        if failed or st.get('again'):
            if failed and out != 'ok' and not st.get('stay', 1):
                bench.fresh(i)
                d = bench.open(i)[key]
            out, val = attempt(d, meth, kw)
            if out in HDF5_FAILS and i in bench.spoilt:
                ctx.probe('hdf5-stays-failed')
                if bench.other_reads(i, key, meth, kw):
                    # HDF5 can read it, so the same has to be true here
                    ctx.probe('hdf5-reads-again')
                    out, val = attempt(d, meth, kw)
                    if out in HDF5_FAILS:
                        raise Violation('stuck:' + meth, '%s: keeps failing after a failed read, although another '
                                        'object of the same file answers' % what)
                bench.fresh(i)
                out, val = attempt(bench.open(i)[key], meth, kw)
            bad = O.judge(exp, out, val)
            if bad:
                raise Violation('later:' + meth, '%s, asked again %s: %s' % (
                    what, 'after a failed read' if failed else '', bad))
            ctx.eval()


def count(ctx, d, meth, kw):
    out, seen = lib.count_ops(ctx, [dict(op='read', suffix='.h5', wr=-1)], lambda: attempt(d, meth, kw)[0])
    return out, seen[0]


def attempt(d, meth, kw):
    try:
        if isinstance(d, tuple):
            d = d[0].open(d[1])[d[2]]
        return 'ok', call(d, meth, kw)
    except Exception as e:
        return type(e).__name__, None


def short(v):
    r = repr(v).replace('\n', ' ')
    return r if len(r) < 60 else r[:57] + '...'
