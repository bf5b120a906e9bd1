"""C02: encoding, medium and target do not matter."""
import os
import shutil

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C02'
TITLE = 'Same model, same answers: encoding, medium and target do not matter'
LEVEL = 'exploration'
RUNS = {'quick': 380, 'thorough': 6000}
RULE = ('a run writes one generated model in both encodings and reads it through generated targets (new file, appended, '
        'in memory as tables.File, in memory as data object) under generated delivery faults; non-trivial: new trace '
        'and at least two targets compared')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of read/write/open on the scratch folder']
ASSUMPTIONS = ['values are single precision and written with nine significant digits, so both encodings carry the '
               'same numbers', 'PyTables may refuse a second in-memory file of the same name while the first is open']
SLOTS = ['disk', 'append', 'memfile', 'opensif', 'disk', 'append', 'memfile', 'opensif', 'default', 'list', 'deflist']


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTRRRGGGHS')
    steps = []
    for _ in range(rng.randint(2, 4)):
        steps.append(dict(fmt=rng.choice('FU'), how=rng.choice(SLOTS), src=lib.gen_benign(rng),
                          fail=rng.choice([None] * 4 + ['read', 'read', 'open', 'sigint']), frac=lib.rfrac(rng),
                          keep=rng.random() < .5, mname=rng.choice([None, None, 'new.h5', 'decoy']),
                          mappend=rng.random() < .4))
    if rng.random() < .8:
        steps[0]['fmt'], steps[1]['fmt'] = 'F', 'U'
    return dict(spec=spec, other=M.random_spec(rng, 'TRG', small=True), steps=steps,
                decoy=rng.choice([None, 'file', 'file', 'h5', 'same']), twin=rng.random() < .5,
                clock=[rng.choice([1e9, 4e9]), rng.choice([0, 1])])


def keys_of(f, m, prefix=''):
    top = lib.group_of(m, prefix)
    return {k: k[len(prefix):] for k in f.keys() if k == top or k.startswith(top + '/')}


def watch(ctx, folders, fn):
    """run fn; nothing on disk may be created, changed or opened for writing"""
    before = [lib.tree(d) for d in folders]
    ctx.sim.log(1)
    try:
        return fn()
    finally:
        ops = ctx.sim.logdata()
        ctx.sim.log(0)
        after = [lib.tree(d) for d in folders]
        if before != after:
            raise Violation('memory-writes', 'reading in memory changed files on disk: %s' % [
                sorted(set(a.items()) ^ set(b.items())) for a, b in zip(before, after)])
        bad = [o for o in ops if o[0] in (2, 3) or o[0] == 0 and o[2]]
        if bad:
            raise Violation('memory-writes', 'reading in memory opened or wrote %s on disk'
                            % os.path.basename(bad[0][1]))


def run(plan, ctx):
    m = M.build(plan['spec'])
    lib.quiet_clock(ctx, plan)
    bodies = lib.bodies_of(m)
    dirs = {}
    for fmt in 'FU':
        dirs[fmt] = ctx.dir('src' + fmt)
        m.write(dirs[fmt], fmt)
    cwd = ctx.dir('cwd')
    os.chdir(cwd)
    base = os.path.splitext(m.top)[0] + '.h5'
    other = M.build(plan['other'])
    dother = ctx.dir('other')
    osrc = other.write(dother)
    if plan['decoy'] == 'file':
        with open(base, 'wb') as h:
            h.write(b'not to be touched')
    elif plan['decoy'] == 'h5':
        lib.convert(osrc, os.path.join(cwd, base))
    elif plan['decoy'] == 'same':
        lib.convert(os.path.join(dirs['F'], m.top), os.path.join(cwd, base))
    folders = [cwd, dirs['F'], dirs['U'], dother]
    ref = refans = None
    held = []
    for n, st in enumerate(plan['steps']):
        src = os.path.join(dirs[st['fmt']], m.top)
        out = os.path.join(ctx.dir('out%d' % n), 'x.h5')
        how = st['how']
        tag = '%s/%s' % (st['fmt'], how)
        if how == 'append':
            lib.convert(osrc, out, prefix='old_')
        prefix = 'new_' if how == 'append' else ''

        if how in ('default', 'deflist'):
            # the output is named after the source, in the current folder
            for h in held:
                close(h[0])
            held = []
            dd = ctx.dir('def%d' % n)
            out = os.path.join(dd, base)
            if plan['decoy'] == 'file':
                shutil.copy(os.path.join(cwd, base), out)
            if how == 'deflist' and os.path.splitext(other.top)[0] + '.h5' == base:
                how = 'default'

        def go():
            if how == 'disk':
                return lib.convert(src, out)
            if how == 'list':
                return fs.sif2hdf5((osrc, src) if n % 2 else [osrc, src], out, prefix=['old_', ''])
            if how in ('default', 'deflist'):
                os.chdir(dd)
                try:
                    return fs.sif2hdf5(src) if how == 'default' else fs.sif2hdf5([osrc, src])
                finally:
                    os.chdir(cwd)
            if how == 'append':
                return lib.convert(src, out, append=True, prefix=prefix)
            if how == 'memfile':
                # a name for the output, and append, are documented to be ignored
                nm = base if st.get('mname') == 'decoy' else st.get('mname')
                if nm:
                    ctx.probe('named-memory')
                    return fs.sif2hdf5(src, nm, in_memory=True, append=bool(st['mappend']))
                return fs.sif2hdf5(src, in_memory=True, append=bool(st['mappend']))
            return fs.open_sif(src)

        mem = how in ('memfile', 'opensif')
        guard = (lambda fn: watch(ctx, folders, fn)) if mem else (lambda fn: fn())
        if st['fail'] and mem:
            # a reading that fails must not touch the disk either
            rule = dict(op='open' if st['fail'] == 'open' else 'read', suffix=m.top[-4:], wr=0,
                        at=lib.position(st['frac'], 8), act='sigint' if st['fail'] == 'sigint' else 'err', err='EIO')
            with lib.faults(ctx, [rule]) as fl:
                try:
                    guard(lambda: close(go()))
                except (Violation, AssertionError):
                    raise
                except (Exception, KeyboardInterrupt):
                    ctx.probe('memory-failure')
        if mem and n % 2:
            # a list of sources cannot be read in memory: refused, and nothing on disk changes either
            def many():
                try:
                    close(fs.sif2hdf5([src, osrc], in_memory=True))
                except Exception:
                    ctx.probe('memory-list-refused')
            watch(ctx, folders, many)
        with lib.faults(ctx, st['src']):
            try:
                obj = guard(go)
            except Violation:
                raise
            except Exception as e:
                if mem and held:
                    ctx.probe('same-name-refused')
                    for h in held:
                        close(h[0])
                    held = []
                    obj = guard(go)
                else:
                    raise Violation('raises:%s' % type(e).__name__, 'reading a well-formed model (%s) raised %s'
                                    % (tag, lib.err(e)))
        # what is there
        if how == 'memfile':
            snap = lib.snap_file(obj)
            f = fs.data.file.File(obj)
        elif how == 'opensif':
            f = obj.file
            snap = lib.snap_file(lib.tbgroup(obj)._v_file)
        else:
            allsnap = lib.read_output(out)
            snap = lib.take(allsnap, m, prefix)
            if how in ('append', 'list'):
                lib.check_stores(lib.take(allsnap, other, 'old_'), other.stores(), ctx=ctx)
            if how == 'deflist':
                o2 = os.path.join(dd, os.path.splitext(other.top)[0] + '.h5')
                lib.check_stores(lib.take(lib.read_output(o2), other), other.stores(), ctx=ctx)
            if how not in ('list', 'deflist') and obj != os.path.abspath(out):
                raise Violation('name-returned', 'the conversion to %s returned %r' % (out, obj))
            if how in ('disk', 'default', 'deflist') and {k.split('/')[0] for k in allsnap} != {lib.group_of(m)}:
                raise Violation('target-content', 'the output of %s holds %s' % (tag, sorted(allsnap)))
            f = fs.open_hdf5(out)
        ans = {k: lib.answers(f[name], bodies) for name, k in sorted(keys_of(f, m, prefix).items())}
        if how == 'opensif' and obj is not f[lib.group_of(m)]:
            raise Violation('open_sif-object', 'open_sif does not return the data of the model')
        if ref is None:
            lib.check_stores(snap, m.stores(), ctx=ctx)
            ref, refans, reftag = snap, ans, tag
        else:
            d = lib.differ(ref, snap)
            if d:
                raise Violation('stored-differ', 'stored records of %s and %s differ: %s' % (reftag, tag, d))
            d = lib.differ(refans, ans)
            if d:
                raise Violation('answers-differ', 'answers of %s and %s differ: %s' % (reftag, tag, d))
            ctx.eval(sum(len(a) for a in ans.values()))
        ctx.probe('target-' + how)
        if mem and st['keep']:
            held.append((f, ans))
        elif mem:
            guard(lambda: close(f))
        else:
            close(f)
    if plan['twin']:
        twins(plan, ctx, m, held, folders)
    for f, ans in held:
        now = {k: lib.answers(f[k], bodies) for k in sorted(f.keys())}
        d = lib.differ(ans, now)
        if d:
            raise Violation('memory-mixed', 'a model held in memory changed its answers: ' + d)
        watch(ctx, folders, lambda: close(f))
    for d in folders[1:]:
        for r in os.listdir(d):
            if r.endswith('.h5'):
                raise Violation('memory-writes', 'a file %s appeared beside the source' % r)


def close(o):
    if hasattr(o, 'file') and o.file is not None:
        o = o.file
    o.close()


def twins(plan, ctx, m, held, folders):
    """another model under the same file name in another folder"""
    spec = dict(plan['spec'], seed=plan['spec']['seed'] + 1, seltyp=m.seltyp)
    if spec['kind'] in ('TH', 'RH'):
        spec['topsel'] = m.seltyp
    m2 = M.build(spec)
    if m2.top != m.top:
        return
    d2 = ctx.dir('twin')
    p2 = m2.write(d2)
    p1 = os.path.join(folders[1], m.top)
    opened = []
    for mm, p in ((m, p1), (m2, p2)):
        try:
            opened.append((mm, fs.open_sif(p)))
        except Exception:
            # two in-memory files of one name at a time may be refused
            if not opened and not held:
                raise Violation('twin-raises', 'a model could not be read in memory')
            ctx.probe('twin-refused')
    for mm, d in opened:
        lib.check_stores(lib.snap_file(lib.tbgroup(d)._v_file), mm.stores(), ctx=ctx)
    for mm, d in opened:
        close(d)
    if not held:
        for mm, p in ((m2, p2), (m, p1)):
            d = fs.open_sif(p)
            lib.check_stores(lib.snap_file(lib.tbgroup(d)._v_file), mm.stores(), ctx=ctx)
            close(d)
        ctx.probe('twins')


def shrink(plan):
    for i in range(len(plan['steps'])):
        if len(plan['steps']) > 1:
            yield dict(plan, steps=plan['steps'][:i] + plan['steps'][i + 1:])
    if plan['twin']:
        yield dict(plan, twin=False)
    if plan['decoy']:
        yield dict(plan, decoy=None)
    for i, st in enumerate(plan['steps']):
        for k in ('src', 'fail', 'keep', 'mname', 'mappend'):
            if st[k]:
                yield dict(plan, steps=plan['steps'][:i] + [dict(st, **{k: type(st[k])() if k not in ('fail', 'mname') else None})]
                           + plan['steps'][i + 1:])
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
    for s in M.shrink_spec(plan['other']):
        yield dict(plan, other=s)
