"""C09: superelement hierarchies are assembled completely and correctly."""
import os

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C09'
TITLE = 'Superelement hierarchies are assembled completely and correctly'
LEVEL = 'exploration'
RUNS = {'quick': 330, 'thorough': 5000}
RULE = ('a run lays out one generated superelement hierarchy with decoy files, and converts it several times with '
        'generated sets of lower-level files missing, vanishing between look-up and opening, unreadable or interrupted; '
        'non-trivial: new trace with at least one lower-level superelement')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer (name look-up)']
STUB = ['results of open/read on the sources (a file that vanishes or cannot be read)']
ASSUMPTIONS = ['lower-level files lie in the folder of the top-level file and are named as Sesam names them']
CLASSES = {'TOPLEVEL': 'TopLevelData', 'INTERLEVEL': 'InterLevelData', 'FIRSTLEVEL': 'FirstLevelData'}


def gen(rng, tier):
    spec = M.random_spec(rng, 'HHHS' if rng.random() < .5 else 'SSSH', small=rng.random() < .7)
    spec['n'] = rng.choice([2, 3, 5])
    spec.pop('low', None)       # see 'lower'
    tries = []
    for _ in range(rng.randint(2, 5)):
        tries.append(dict(missing=rng.choice(['none', 'some', 'some', 'one', 'one', 'all']), sub=rng.random(),
                          race=rng.choice([None, None, None, 'ENOENT', 'ENOENT', 'ESTALE', 'EACCES', 'EMFILE', 'EIO']),
                          at=rng.random(), src=lib.gen_benign(rng) if rng.random() < .4 else [],
                          how=rng.choice(['disk', 'disk', 'disk', 'memfile', 'opensif', 'append']),
                          prefix=rng.choice(['', '', 'p_']), usefileprefix=rng.random() < .7,
                          path=rng.choice(['abs', 'abs', 'rel', 'link', 'dot'])))
    return dict(spec=spec, fmt=rng.choice('FU'), tries=tries, lower=rng.random() < .25,
                decoys=[rng.choice(['type', 'index', 'prefix', 'dir', 'letter', 'ext', 'load', 'first'])
                        for _ in range(rng.randint(0, 4))], bufrows=rng.choice([None, None, 1, 3]),
                cramp=rng.choice([None, None, None, 1024, 8192]))


def decoy_names(m, kind, ext, low):
    """files that must not be taken for lower-level files of the hierarchy"""
    L = m.letter
    occ = m.occ
    used = {o['iselty'] for o in occ}
    free = [t for t in range(1, 99) if t not in used][3]
    p = m.fileprefix
    if kind == 'type':
        return ['%s%s%d%s.%s' % (p, L, free, 'H2' if L == 'R' else '', ext)]
    if kind == 'index':         # an occurrence number the hierarchy does not have
        o = occ[-1]
        return ['%sR%dH%d.%s' % (p, o['iselty'], len(occ) + 3, ext), '%sT%dH1.%s' % (p, o['iselty'], ext)]
    if kind == 'prefix':
        o = occ[-1]
        q = 'no_' + p
        return ['%s%s%d%s.%s' % (q, L, o['iselty'], 'H%d' % o['ihref'] if L == 'R' else '', ext)]
    if kind == 'letter':
        o = occ[-1]
        return ['%s%s%d.%s' % (p, 'R' if L == 'T' else 'T', o['iselty'], ext)]
    if kind == 'ext':
        o = occ[-1]
        return ['%s%s%d%s.%s' % (p, L, o['iselty'], 'H%d' % o['ihref'] if L == 'R' else '', 'BAK'),
                '%s%s%d%s.%s' % (p, L, o['iselty'], 'H%d' % o['ihref'] if L == 'R' else '',
                                 'SIN')]
    if kind == 'load':
        return ['%sL%d.FEM' % (p, occ[-1]['iselty'])]
    if kind == 'first':         # the files of other occurrences' levels
        if L == 'R':
            return ['%sR%dH%d.%s' % (p, o['iselty'], o['ihref'], ext) for o in occ[1:] if o['islevl'] > 1][:1]
        return []
    return []


def run(plan, ctx):
    m = M.build(plan['spec'])
    lib.set_knobs(plan)
    fmt = plan['fmt']
    d = ctx.dir('src')
    low = (lambda s: s[:len(m.fileprefix)] + s[len(m.fileprefix):].lower()) if plan['lower'] else (lambda s: s)
    files = {low(n): f for n, f in m.files.items()}
    names = list(files)
    top, subs = names[0], names[1:]
    ext = top[-3:]
    stranger = M.build(dict(kind='T', letter='T', fmt=fmt, seed=11, n=3, feats=[], fileprefix='', seltyp=9))
    sdata = next(iter(stranger.files.values())).bytes(fmt)
    dirs = []
    for k in plan['decoys']:
        if k == 'dir':
            dirs.append(len(dirs))
            continue
        for nm in decoy_names(m, k, m.top[-3:], low):
            if low(nm) not in files:
                with open(os.path.join(d, low(nm)), 'wb') as h:
                    h.write(sdata)
    link = os.path.join(ctx.dir('links'), 'model')
    os.symlink(d, link)
    os.chdir(ctx.dir('cwd'))
    for n, f in files.items():
        with open(os.path.join(d, n), 'wb') as h:
            h.write(f.bytes(fmt))
    for k, t in enumerate(plan['tries']):
        gone = set()
        if t['missing'] == 'all':
            gone = set(subs)
        elif t['missing'] == 'one' and subs:
            gone = {subs[lib.position(t['sub'], len(subs))]}
        elif t['missing'] == 'some':
            x = int(t['sub'] * (1 << 30))
            gone = {n for i, n in enumerate(subs) if x >> i & 1}
        for n in gone:
            os.rename(os.path.join(d, n), os.path.join(d, n + '.away'))
            if dirs:
                os.mkdir(os.path.join(d, n))        # a folder of that name
        left = [n for n in subs if n not in gone]
        raced = None
        rules = []
        if t['race'] and left:
            raced = left[lib.position(t['at'], len(left))]
            rules = [dict(op='open', suffix='/' + raced, wr=0, at=0, act='err', err=t['race'])]
        src = {'abs': os.path.join(d, top), 'rel': os.path.join('..', 'src', top), 'link': os.path.join(link, top),
               'dot': os.path.join(d, '.', '..', 'src', top)}[t['path']]
        out = os.path.join(ctx.dir('o%d' % k), 'x.h5')
        prefix, usep = t['prefix'], t['usefileprefix']
        if t['how'] == 'opensif':
            prefix, usep = '', True
        raised = None
        obj = None
        with lib.faults(ctx, rules + t['src']) as fl:
            try:
                if t['how'] == 'opensif':
                    obj = fs.open_sif(src)
                elif t['how'] == 'memfile':
                    obj = fs.sif2hdf5(src, prefix=prefix, usefileprefix=usep, in_memory=True)
                else:
                    fs.sif2hdf5(src, out, prefix=prefix, usefileprefix=usep, append=t['how'] == 'append')
            except Exception as e:
                raised = e
        hit = bool(rules) and fl.fired > 0
        ctx.log('try', k, sorted(gone), raced, type(raised).__name__)
        what = 'hierarchy %s with %s missing%s' % (top, sorted(gone) or 'nothing',
                                                  ', %s on opening %s' % (t['race'], raced) if raced else '')
        stores = [f.store for n, f in files.items() if n not in gone]
        if raised is not None:
            if not gone and not raced:
                raise Violation('raises:' + type(raised).__name__, '%s: the conversion raised %s' % (what, lib.err(raised)))
            # an error is an accepted answer to a missing or unreadable file
            ctx.probe('raised-%s' % (t['race'] or 'missing'))
        else:
            snap, keys, types = look(t, obj, out, what)
            vanished = None
            if raced and t['race'] == 'ENOENT':
                vanished = files[raced].store.path
                stores = [s for s in stores if s.path != vanished]
            elif raced and hit_needed(ctx, fl):
                raise Violation('unreadable-skipped', '%s: the conversion returned although a lower-level file cannot be '
                                'read' % what)
            mine = lib.take(snap, m, prefix, usep)
            for s in stores:
                try:
                    lib.check_group(mine, s, ctx=ctx)
                except Violation as v:
                    raise Violation(v.key, '%s: %s' % (what, v.msg))
            have = {s.path for s in stores}
            for g in mine:
                if g not in have and not (g == vanished and same_as(mine, files[raced].store)):
                    raise Violation('group-extra', '%s: superelement %r appears' % (what, g))
            if len(mine) != len(snap):
                raise Violation('group-extra', '%s: superelements %s appear' % (what, sorted(set(snap) - set(mine))))
            if sorted(keys) != sorted(snap):
                raise Violation('keys', '%s: the file offers %s, stored are %s' % (what, keys, sorted(snap)))
            for key, ty in types.items():
                lev = snap[key]['@LEVEL']
                if CLASSES[lev] != ty:
                    raise Violation('type', '%s: %s is offered as %s' % (what, key, ty))
            ctx.probe('assembled')
            ctx.probe('superelements', len(snap))
        for n in gone:
            if dirs:
                os.rmdir(os.path.join(d, n))
            os.rename(os.path.join(d, n + '.away'), os.path.join(d, n))


def hit_needed(ctx, fl):
    return fl.fired > 0 and any(i is not None and nm.startswith('open-') for i, nm in fl.ids)


def same_as(mine, store):
    try:
        lib.check_group(mine, store)
        return True
    except Violation:
        return False


def look(t, obj, out, what):
    if t['how'] == 'opensif':
        f = obj.file
        snap = lib.snap_file(lib.tbgroup(obj)._v_file)
    elif t['how'] == 'memfile':
        snap = lib.snap_file(obj)
        f = fs.data.file.File(obj)
    else:
        snap = lib.read_output(out)
        f = fs.open_hdf5(out)
    keys = list(f.keys())
    types = {k: type(f[k]).__name__ for k in keys}
    f.close()
    return snap, keys, types


def shrink(plan):
    t = plan['tries']
    for i in range(len(t)):
        if len(t) > 1:
            yield dict(plan, tries=[t[i]])
    for i in range(len(t)):
        for ch in (dict(src=[]), dict(race=None), dict(missing='none'), dict(prefix=''), dict(path='abs'), dict(how='disk')):
            if any(t[i][a] != b for a, b in ch.items()):
                yield dict(plan, tries=t[:i] + [dict(t[i], **ch)] + t[i + 1:])
    for i in range(len(plan['decoys'])):
        yield dict(plan, decoys=plan['decoys'][:i] + plan['decoys'][i + 1:])
    if plan['lower']:
        yield dict(plan, lower=False)
    if plan.get('cramp'):
        yield dict(plan, cramp=None)
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
