"""C04: a failed conversion raises, leaks nothing and can be retried."""
import os
import traceback

from sim import lib, model as M
from sim.engine import Discard, Violation

import freesif as fs

ID = 'C04'
TITLE = 'A failed conversion raises, leaks nothing, and can simply be retried'
LEVEL = 'exploration'
RUNS = {'quick': 200, 'thorough': 8000}
RULE = ('a run converts one generated model, then repeats the call with faults at generated positions of the same '
        'I/O sequence (source open/read errors, interrupts, output open errors, missing or malformed source, failing '
        'PyTables calls), one fault per attempt, and retries; non-trivial: new trace and at least one fault fired')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of open/read on the scratch folder', 'delivery of SIGINT', 'n-th call of PyTables create/append/flush/'
        'set-attribute replaced by an error']
ASSUMPTIONS = ['an interrupt arrives at an I/O call of the conversion (Python delivers it at the next bytecode)',
               'malformed record: a number that is none (formatted file), a record name blanked or overwritten '
               'with bytes that are no text, RDIELCOR of an element type whose layout only the missing '
               'RDPOINTS tells, a concept type or a mesh reference that the library refuses to store']
KINDS = ['read', 'read', 'read', 'open', 'open', 'sigint', 'sigint', 'sigout', 'outopen', 'gone', 'malformed', 'tb',
         'tb', 'tbint', 'cut']


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTRRGGHHSS', small=True)
    at = []
    for _ in range(rng.randint(2, 5)):
        at.append(dict(kind=rng.choice(KINDS), frac=lib.rfrac(rng), sub=rng.random(),
                       err=rng.choice(['EIO', 'EIO', 'ESTALE', 'ENOMEM', 'EISDIR']),
                       oerr=rng.choice(['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EIO', 'EINTR']),
                       after=rng.random() < .3, dmg=rng.choice(['number', 'blank', 'binary', 'orphan', 'refused'])))
    if spec['kind'] == 'R' and rng.random() < .5:
        at.append(dict(at[0], kind='malformed', dmg='orphan'))
    if spec['kind'] in 'TR' and rng.random() < .4:
        at.append(dict(at[0], kind='malformed', dmg='refused', frac=rng.random(), sub=rng.random()))
    return dict(spec=spec, fmt=rng.choice('FU'), attempts=at,
                how=rng.choice(['disk', 'disk', 'disk', 'append', 'memfile', 'opensif', 'same', 'list']),
                bufrows=rng.choice([None, None, 1, 4]),
                cramp=rng.choice([None, None, None, 1024, 8192]), hold=rng.random() < .2)


OPTIONAL = ('GBARM', 'GBOX', 'GCHAN', 'GCHANR', 'GDOBO', 'GIORH', 'GIORHR', 'GLSEC', 'GLSECR', 'GPIPE', 'GUSYI')


def gen_damage(f, fmt, at):
    """damage a stored record: a number that is none (formatted), a record
    name blanked or overwritten; returns the damaged bytes or None"""
    kind = at.get('dmg', 'number')
    recs = [i for i, r in enumerate(f.recs) if r.name in f.store.recs and not r.lines and r.f[0] >= 0
            and r.typ != 'neg5']
    if kind != 'number':
        # behind a record of known length, where a name has to follow
        recs = [i for i in recs if i - 1 in recs and f.recs[i - 1].name not in OPTIONAL]
    elif fmt != 'F':
        return None
    if not recs:
        return None
    i = recs[lib.position(at['frac'], len(recs))]
    enc, spans = f.encode(fmt)
    a = spans[i][0] + (fmt == 'U')
    if kind == 'number':
        k, new = a + 8 + 16 * lib.position(at['sub'], 4), b'   not a number '
    else:
        k, new = a, {'blank': b' ' * 8, 'binary': b'\xff\xfe\x80\x81' * 2}[kind]
    return enc[:k] + new + enc[k + len(new):]


def orphan(plan):
    if plan['spec']['kind'] != 'R':
        return None
    m = M.build(dict(plan['spec'], n=10, feats=[f for f in plan['spec']['feats'] if not f.startswith('no')]
                     + ['nopoints', 'orphancor']))
    if not getattr(m.struct, 'orphans', False):
        return None
    return m.files[m.top].bytes(plan['fmt'])


def refused(plan, at):
    """a concept the library says it does not know how to store"""
    if plan['spec']['kind'] not in 'TR':
        return None
    m = M.build(dict(plan['spec'], feats=sorted(set(plan['spec']['feats']) | {'concepts'})))
    f = m.files[m.top]
    name = 'SCONMESH' if at['sub'] < .6 else 'SCONCEPT'
    idx = [k for k, r in enumerate(f.recs) if r.name == name and r.typ == 2]
    if not idx:
        return None
    k = idx[int(at['frac'] * len(idx)) % len(idx)]
    r = f.recs[k]
    v = list(r.f)
    if name == 'SCONMESH':              # a second representation
        more = [float(x + 1) for x in range(1 + int(at['sub'] * 10))]
        v[0] += 2 + len(more)
        v[2] = 2.
        v += [1., float(len(more))] + more
    else:
        v[2] = 5.
    f.recs[k] = M.Rec(r.name, v, r.typ, r.lines, r.neg)
    return f.bytes(plan['fmt'])


def run(plan, ctx):
    m = M.build(plan['spec'])
    lib.set_knobs(plan)
    d = ctx.dir()
    src = m.write(d, plan['fmt'])
    suffix = m.top[-4:]
    how = plan['how']
    os.chdir(ctx.dir('cwd'))
    other = None
    other = M.build(dict(kind='T', letter='L', fmt='F', seed=5, n=3, feats=[], fileprefix='other_', seltyp=9))
    osrc = other.write(ctx.dir('other'))
    nout = [0]

    def target():
        if how == 'same':
            return ctx.dir('same') + '/x.h5'
        nout[0] += 1
        out = ctx.dir('o%d' % nout[0]) + '/x.h5'
        if how == 'append':
            lib.convert(osrc, out)
        return out

    def call(out):
        if how == 'list':
            return fs.sif2hdf5([src, osrc], out)
        if how in ('memfile', 'opensif'):
            return fs.sif2hdf5(src, in_memory=True) if how == 'memfile' else fs.open_sif(src)
        return fs.sif2hdf5(src, out, append=how == 'append')

    def content(out, obj):
        if how == 'memfile':
            try:
                return lib.snap_file(obj)
            finally:
                obj.close()
        if how == 'opensif':
            try:
                return lib.snap_file(lib.tbgroup(obj)._v_file)
            finally:
                obj.file.close()
        return lib.read_output(out)

    def verify(snap, what):
        for mm in [m] + ([other] if how in ('append', 'list') else []):
            try:
                lib.check_stores(lib.take(snap, mm), mm.stores(), ctx=ctx)
            except Violation as v:
                raise Violation(what, '%s: %s' % (what, v.msg))

    held = None
    if plan['hold']:
        h5 = ctx.dir('held') + '/held.h5'
        lib.convert(osrc, h5)
        held = fs.open_hdf5(h5)
        heldans = lib.all_answers(held)
    base_handles = lib.open_handles()
    base_fds = ctx.sim.openfds()
    pats = [dict(op='read', suffix=suffix, wr=0), dict(op='open', suffix=suffix, wr=0),
            dict(op='read', suffix=suffix, wr=0), dict(op='write', suffix='.h5', wr=1),
            dict(op='open', suffix='.h5', wr=1)]
    out = target()
    try:
        obj, seen = lib.count_ops(ctx, pats, lambda: call(out))
    except Exception as e:
        raise Violation('raises:' + type(e).__name__, 'converting a well-formed model raised ' + lib.err(e))
    verify(content(out, obj), 'undisturbed')
    nread, nopen, _, nwrite, noutopen = seen

    for at in plan['attempts']:
        kind = at['kind']
        rules, tbf, undo = [], None, None
        hard = True             # must raise when it fired
        out = target()
        if kind == 'read':
            rules = [dict(op='read', suffix=suffix, wr=0, at=lib.position(at['frac'], nread), act='err', err=at['err'])]
        elif kind == 'open':
            # count>1: a lower-level file stays unreadable
            rules = [dict(op='open', suffix=suffix, wr=0, at=lib.position(at['frac'], nopen),
                          act='err', err=at['oerr'] if at['oerr'] != 'EINTR' else 'EACCES')]
            hard = not (at['oerr'] == 'ENOENT')     # a missing lower-level file may be skipped (C09)
        elif kind == 'sigint':
            rules = [dict(op='read', suffix=suffix, wr=0, at=lib.position(at['frac'], nread), act='sigint')]
        elif kind == 'sigout':
            rules = [dict(op='write', suffix='.h5', wr=1, at=lib.position(at['frac'], nwrite), act='sigint')]
        elif kind == 'outopen':
            rules = [dict(op='open', suffix='.h5', wr=1, at=0, count=1000, act='err',
                          err=at['oerr'] if at['oerr'] != 'ENOENT' else 'EACCES')]
            hard = False        # PyTables may look at the file before it opens it
        elif kind == 'gone':
            names = list(m.files)
            p = os.path.join(d, names[0])
            os.rename(p, p + '.away')
            undo = lambda: os.rename(p + '.away', p)
        elif kind in ('malformed', 'cut'):
            names = list(m.files)
            nm = names[int(at['sub'] * 7919) % len(names)]
            f = m.files[nm]
            if kind == 'malformed' and at.get('dmg') == 'orphan':
                # records that cannot be read without others, and these are missing
                bad = orphan(plan)
                if bad is None:
                    continue
            elif kind == 'malformed' and at.get('dmg') == 'refused':
                bad = refused(plan, at)
                if bad is None:
                    continue
            elif kind == 'malformed':
                bad = gen_damage(f, plan['fmt'], at)
                if bad is None:
                    continue
            else:
                good, spans = f.encode(plan['fmt'])
                bad = good[:lib.position(at['frac'], spans[-1][0])]
                ends = [b for (a, b), r in zip(spans, f.recs) if r.name == 'IEND']
                hard = not any(a <= len(bad) <= b for (a, b), r in zip(spans, f.recs) if r.name == 'IEND')
            p = os.path.join(d, nm)
            with open(p, 'rb') as h:
                goodbytes = h.read()
            with open(p, 'wb') as h:
                h.write(bad)

            def undo(p=p, goodbytes=goodbytes):
                with open(p, 'wb') as h:
                    h.write(goodbytes)
        elif kind in ('tb', 'tbint'):
            call_ = lib.TBCALLS[int(at['sub'] * 6997) % len(lib.TBCALLS)]
            exc = 'KeyboardInterrupt' if kind == 'tbint' else ('MemoryError' if at['after'] else 'HDF5ExtError')
            with lib.tbfault(ctx, call_) as cnt:
                close_any(call(target()))
            tbf = lib.tbfault(ctx, call_, lib.position(at['frac'], cnt.seen), exc, at['after'])
            hard = call_ in ('create_table', 'create_earray', 'table_append', 'earray_append')
        raised, finished = None, False
        with lib.faults(ctx, rules) as fl:
            if tbf:
                tbf.__enter__()
            try:
                obj = call(out)
                # an interrupt may be pending until here
                for _ in range(3):
                    pass
            except (Exception, KeyboardInterrupt) as e:
                raised = lib.err(e)
                if isinstance(e, KeyboardInterrupt) and inside(e, 'open_file'):
                    # interrupted within PyTables' own open call: nobody else
                    # holds the half-open file
                    raise Discard('interrupt inside open_file of PyTables')
                # interrupted in the final close: all was done
                finished = isinstance(e, KeyboardInterrupt) and inside(e, 'close')
                # while the error is being handled, as an application would see it
                leak(ctx, base_handles, base_fds, kind, raised)
            finally:
                if tbf:
                    tbf.__exit__()
        fired = fl.fired or (tbf and tbf.fired) or kind in ('gone', 'malformed', 'cut')
        if undo:
            undo()
        ctx.log('attempt', kind, raised and raised.split(':')[0])
        if raised is None:
            if fired and hard:
                if kind not in ('sigint', 'sigout', 'tb', 'tbint'):
                    close_any(obj)
                    raise Violation('not-raised:' + kind, 'the conversion returned normally although %s' % what(kind, at))
            snap = content(out, obj)
            if kind == 'open' and at['oerr'] == 'ENOENT':
                missing_ok(m, snap)
            elif kind == 'cut':
                pass        # looks like a shorter, complete file (C05)
            else:
                verify(snap, 'wrong-after:' + kind)
            ctx.probe('attempt-ok')
        else:
            if not fired:
                raise Violation('raises:spurious', 'the conversion raised %s without any fault' % raised)
            leak(ctx, base_handles, base_fds, kind, raised)
            ctx.probe('failed-' + kind)
        # retry: same call, same process, same output
        retry = out if raised is not None or how != 'append' else target()
        if how == 'append' and finished:
            retry = target()
        if raised is None and kind == 'sigout' and fired:
            # PyTables swallowed the interrupt and may have kept an object of
            # the file open below the Python level
            return
        try:
            obj = call(retry)
        except Exception as e:
            raise Violation('retry-raises', 'after a conversion that failed (%s: %s) the same call raised %s'
                            % (kind, raised, lib.err(e)))
        verify(content(retry, obj), 'retry-wrong')
        ctx.probe('retried')
        leak(ctx, base_handles, base_fds, kind, 'retry')
    if held:
        dd = lib.differ(heldans, lib.all_answers(held))
        if dd:
            raise Violation('bystander', 'a file open all the time changed its answers: ' + dd)
        held.close()


def inside(e, name):
    return any(f.name == name and '/tables/' in f.filename for f in traceback.extract_tb(e.__traceback__))


def missing_ok(m, snap):
    for s in m.stores():
        if s.path in snap:
            lib.check_group(snap, s)
    if m.stores()[0].path not in snap:
        raise Violation('not-raised:open', 'the conversion returned without the top level superelement')


def close_any(o):
    o = getattr(o, 'file', None) or o
    if hasattr(o, 'close'):
        o.close()


def what(kind, at):
    return {'read': 'reading a source failed with ' + at['err'], 'open': 'opening a source failed with ' + at['oerr'],
            'gone': 'the source does not exist', 'malformed': 'a record of the source is malformed',
            'cut': 'the source ends in the middle of its data', 'outopen': 'the output cannot be opened'}.get(kind, kind)


def leak(ctx, handles, fds, kind, raised):
    now = lib.open_handles()
    if now != handles:
        raise Violation('leak-handle', 'after a failed conversion (%s: %s) PyTables still has open: %s'
                        % (kind, raised, [os.path.basename(x) for x in now if x not in handles]))
    now = ctx.sim.openfds()
    if now != fds:
        raise Violation('leak-file', 'after a failed conversion (%s: %s) still open: %s'
                        % (kind, raised, [os.path.basename(x) for x in now if x not in fds]))


def shrink(plan):
    at = plan['attempts']
    for i in range(len(at)):
        if len(at) > 1:
            yield dict(plan, attempts=at[:i] + at[i + 1:])
    if plan['hold']:
        yield dict(plan, hold=False)
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    if plan['how'] != 'disk':
        yield dict(plan, how='disk')
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
    for i, a in enumerate(at):
        for f in (0., a['frac'] / 2):
            if f < a['frac']:
                yield dict(plan, attempts=at[:i] + [dict(a, frac=f)] + at[i + 1:])
