"""C06: a conversion killed at any instant never leaves silently wrong data."""
import os

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C06'
TITLE = 'A conversion killed at any instant never leaves silently wrong data'
LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 4000}
RULE = ('a run converts one generated model with the write log on, rebuilds the output as process death at generated '
        'points of the write sequence leaves it (last write whole or torn at a generated byte) and opens each; in a third '
        'of the runs the conversion fails by a truncated source, so that it dies before or while it cleans up; '
        'non-trivial: new trace and at least one crash point between the first and the last write')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['process death: the state on disk is rebuilt from the recorded write calls']
ASSUMPTIONS = ['writes issued before the death of the process survive in order (the kernel stays up)']
WRITE, TRUNC = 2, 3


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTRRGHHSS', small=rng.random() < .5)
    if rng.random() < .3:
        spec['n'] = rng.choice([20, 40, 80])
    pts = []
    fail = None
    if rng.random() < .35:
        fail = [rng.random(), rng.random() if rng.random() < .6 else lib.rfrac(rng) * .02]
    for _ in range(rng.randint(10, 24)):
        pts.append(dict(frac=lib.rfrac(rng) if rng.random() < .3 else rng.random(), torn=rng.choice([0, 0, 1, 1, 8, 64, 512, .5, .9, rng.random()]),
                        back=rng.randint(1, 16) if rng.random() < (.6 if fail else .3) else 0, later=rng.random() < .25))
    return dict(spec=spec, fmt=rng.choice('FU'), how=rng.choice(['new', 'new', 'over', 'append', 'append', 'list']),
                points=pts, bufrows=rng.choice([None, None, 1, 4, 16]),
                cramp=rng.choice([None, None, None, 1024, 8192]), mode=rng.choice(['r', 'r', 'r', 'a']),
                fail=fail)


class Dead(object):
    """the output file as the write calls build it"""

    def __init__(self, start):
        self.b = bytearray(start)

    def apply(self, op, upto=None):
        kind, path, off, n, data = op
        if kind == WRITE:
            data = data[:upto] if upto is not None else data
            if not data:
                return
            if len(self.b) < off:
                self.b.extend(bytes(off - len(self.b)))
            self.b[off:off + len(data)] = data
        elif kind == TRUNC and upto is None:
            if off < len(self.b):
                del self.b[off:]
            else:
                self.b.extend(bytes(off - len(self.b)))
        elif kind == 0 and upto is None and off & os.O_TRUNC:
            del self.b[:]


def run(plan, ctx):
    m = M.build(plan['spec'])
    lib.set_knobs(plan)
    src = m.write(ctx.dir('src'), plan['fmt'])
    other = M.build(dict(kind='T', letter='L', fmt='F', seed=5, n=3, feats=[], fileprefix='other_', seltyp=9))
    osrc = other.write(ctx.dir('other'))
    out = os.path.join(ctx.dir('out'), 'x.h5')
    how = plan['how']
    start = b''
    before = {}
    if how in ('append', 'over'):
        lib.convert(osrc, out)
        before = lib.snapshot(out)
        with open(out, 'rb') as h:
            start = h.read()
    srcs = ([osrc, src] if plan['fail'] else [src, osrc]) if how == 'list' else src
    full = None
    if plan['fail']:
        # the conversion fails by a truncated source, and is killed before or while it cleans up
        whole = os.path.join(ctx.dir('whole'), 'x.h5')
        if how == 'append':
            with open(whole, 'wb') as h:
                h.write(start)
        lib.convert(srcs, whole, append=how == 'append')
        full = lib.snapshot(whole)
        names = sorted(os.listdir(os.path.dirname(src)))
        cut = os.path.join(os.path.dirname(src), names[int(plan['fail'][0] * len(names))])
        with open(cut, 'rb') as h:
            data = h.read()
        with open(cut, 'wb') as h:
            h.write(data[:int(plan['fail'][1] * len(data))])
    ctx.sim.log(1)
    try:
        lib.convert(srcs, out, append=how == 'append')
    except Exception as e:
        if not plan['fail']:
            raise
        ctx.probe('failed')
        ctx.log('failed', lib.err(e))
    ops = [o for o in ctx.sim.logdata() if o[1] == out]
    ctx.sim.log(0)
    full = full or lib.snapshot(out)
    lib.check_stores(full, m.stores(), strict=False)
    if not ops:
        return          # failed before the output was opened
    with open(out, 'rb') as h:
        final = h.read()
    whole = Dead(start)
    for o in ops:
        whole.apply(o)
    if bytes(whole.b) != final:
        raise RuntimeError('the write log does not rebuild the output')
    n = len(ops)
    ctx.probe('writes', n)
    dead = os.path.join(ctx.dir('dead'), 'x.h5')
    done, state = 0, Dead(start)
    points = [(max(0, n - p['back']) if p['back'] else min(n, int(p['frac'] * (n + 1))), i, p)
              for i, p in enumerate(plan['points'])]
    for k, _, pt in sorted(points, key=lambda x: x[:2]):
        while done < k:
            state.apply(ops[done])
            done += 1
        img = state
        torn = 0
        if k < n and ops[k][0] == WRITE and pt['torn']:
            ln = ops[k][3]
            torn = int(pt['torn'] * ln) if pt['torn'] < 1 else min(int(pt['torn']), ln - 1)
            img = Dead(bytes(state.b))
            img.apply(ops[k], torn)
        with open(dead, 'wb') as h:
            h.write(bytes(img.b))
        ctx.fault('process-death' + ('-torn' if torn else ''))
        ctx.eval()
        ctx.log('dead', k, torn, ask(ctx, dead, full, before, plan, k, n, torn, osrc if pt.get('later') else None))
        os.unlink(dead)


def ask(ctx, dead, full, before, plan, k, n, torn, later=None):
    def look():
        if later:
            # somebody appends something else to what the dead process left
            try:
                fs.sif2hdf5(later, dead, append=True, prefix='later_')
            except Exception:
                return 'append-refused', lib.open_handles()
        try:
            f = fs.open_hdf5(dead, plan['mode'])
        except Exception as e:
            return 'refused', lib.open_handles()
        out = {}
        try:
            for key in list(f.keys()):
                g = lib.tbgroup(f[key])
                try:
                    out[key] = ('ok', lib.snap_group(g))
                except Exception as e:
                    out[key] = ('raises', lib.err(e))
        except Exception as e:
            return 'refused', lib.err(e)
        lib.close_quietly(f)
        return 'opened', out

    at = 'killed after %d of %d write calls%s' % (k, n, ' and %d bytes of the next' % torn if torn else '')
    try:
        what, got = lib.in_child(look)
    except Violation as v:
        if v.key != 'process-crash':
            raise
        ctx.probe('hdf5-crash')     # not readable at all
        return 'refused'
    ctx.probe(what)
    if what.endswith('refused') and isinstance(got, list) and got:
        raise Violation('leak', '%s, the output was refused, but is left open' % at)
    if what in ('refused', 'append-refused'):
        return what
    for key, (st, snap) in got.items():
        if later and key.startswith('later_'):
            continue
        if st != 'ok':
            ctx.probe('superelement-unreadable')
            continue
        want = [full.get(key)] + ([before[key]] if key in before else [])
        if want[0] is None:
            if key in before:
                want = want[1:]
            else:
                raise Violation('unknown', '%s: the output offers %r, which no complete conversion has' % (at, key))
        d = [lib.differ(w, snap) for w in want]
        if all(d):
            raise Violation('silently-wrong', '%s the output offers superelement %r with other data than the complete '
                            'one: %s' % (at, key, d[0]))
        ctx.probe('complete-superelement')
    for key in got:
        lost = [x for x in full if x.startswith(key + '/') and x not in got]
        if '/' not in key and lost:
            raise Violation('part-of-hierarchy', '%s the output offers %r without its superelement %s' % (at, key, lost[0]))
    return what


def shrink(plan):
    p = plan['points']
    for i in range(len(p)):
        if len(p) > 1:
            yield dict(plan, points=[p[i]])
    for i in range(len(p)):
        if p[i].get('later'):
            yield dict(plan, points=p[:i] + [dict(p[i], later=False)] + p[i + 1:])
        if p[i]['torn']:
            yield dict(plan, points=p[:i] + [dict(p[i], torn=0)] + p[i + 1:])
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    if plan['fail']:
        yield dict(plan, fail=None)
    if plan['how'] != 'new':
        yield dict(plan, how='new')
    if plan['mode'] != 'r':
        yield dict(plan, mode='r')
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
