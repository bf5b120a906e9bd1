"""C11: open files follow their life cycle whatever the order of operations."""
import os

from sim import lib, model as M
from sim.engine import Violation

import tables as tb
import freesif as fs
from freesif.exceptions import ClosedFileError

ID = 'C11'
TITLE = 'Open files follow their life cycle whatever the order of operations'
LEVEL = 'exploration'
RUNS = {'quick': 240, 'thorough': 7000}
RULE = ('a run is a generated history of 10 to 30 operations (open, open_sif, open in memory, query, close through file, '
        'data or all, close again, re-open, convert over a path, open bad files, open with failing reads, close with failing close) on several '
        'handles, compared step by step with a model of which handle is open; non-trivial: new trace with two handles')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['results of open/read on the scratch folder']
ASSUMPTIONS = ['PyTables may refuse a second in-memory file of the same name while the first is open, and refuses to '
               'overwrite a file that is open']
FILE_OPS = [('keys', ()), ('values', ()), ('items', ()), ('get', ('x',)), ('__contains__', ('x',)),
            ('__getitem__', ('x',)), ('__iter__', ())]
STRUCT_OPS = [('get_nodes', ()), ('get_nodenumbers', ()), ('get_elements', ()), ('get_elementnumbers', ()),
              ('get_noderesults', ('displacement',)), ('get_elementresults', ('generalstress',)),
              ('get_section_properties', ()), ('get_shell_thicknesses', ()), ('get_setnames', ()),
              ('get_resultcase_names', ())]
HYDRO_OPS = [(n, ()) for n in ('get_angular_freqs get_periods get_directions get_timesteps get_sections get_points '
                               'get_bodyproperties get_motion_raos get_excitationforce_raos get_sectionforce_raos '
                               'get_fluidkinematics_raos get_bodymass get_addedmass get_potentialdamping '
                               'get_viscousdamping get_hydrostatic_restoring get_mooring_restoring get_meandrift '
                               'get_horiz_meandrift get_pressure_panel_ids get_panel_pressures').split()] + \
            [('get_matrix', ('bodymass',))]


def gen(rng, tier):
    pool = [M.random_spec(rng, 'TRRGGHS', small=True) for _ in range(rng.randint(2, 3))]
    for s in pool:
        s['n'] = min(s['n'], 4)
    if rng.random() < .5:       # other content, same name
        pool.append(dict(pool[0], seed=rng.randrange(1 << 30)))
    ops = []
    for _ in range(rng.randint(8, 26)):
        ops.append(dict(op=rng.choice(['open'] * 5 + ['opensif'] * 2 + ['mem'] + ['query'] * 5 + ['close'] * 4 +
                                      ['closed'] * 3 + ['closeall', 'over', 'over', 'bare', 'bad', 'bad', 'faultopen', 'faultopen',
                                                        'faultsif', 'data', 'faultquery', 'faultclose', 'faultall']),
                        i=rng.randrange(1000), j=rng.randrange(1000), frac=lib.rfrac(rng),
                        via=rng.choice(['file', 'file', 'data']), rel=rng.random() < .3))
    return dict(pool=pool, ops=ops)


class Handle(object):
    def __init__(self, f, path, want, mem):
        self.f, self.path, self.want, self.mem = f, path, want, mem
        self.open = True
        self.datas = dict(f.items())
        self.answers = want


def queries(d, bodies):
    if hasattr(d, 'get_angular_freqs'):
        return lib.hydro_queries(bodies)
    return [q for q in lib.struct_queries(()) if hasattr(d, q[0])]


def run(plan, ctx):
    models = [M.build(s) for s in plan['pool']]
    paths, srcs, want = [], [], []
    for i, m in enumerate(models):
        src = m.write(ctx.dir('s%d' % i))
        p = os.path.join(ctx.dir('h%d' % i), 'x.h5')
        lib.convert(src, p)
        srcs.append(src)
        paths.append(p)
        bodies = lib.bodies_of(m)

        def expected():
            out = {}
            f = fs.open_hdf5(p)
            for k in f.keys():
                out[k] = [lib.ask(getattr(f[k], n), **a) for n, a in queries(f[k], bodies)]
            return out
        want.append(lib.in_child(expected))
    os.chdir(ctx.dir('cwd'))
    content = list(range(len(paths)))       # which model lies at each path
    bad = bad_files(ctx, paths[0])
    bare = os.path.join(ctx.dir('bare'), 'bare.h5')     # a file that holds nothing
    with tb.open_file(bare, 'w'):
        pass
    live = []           # all handles, open and closed

    def check_open(what):
        now = lib.open_handles()
        exp = sorted(h.path for h in live if h.open)
        if now != exp:
            raise Violation('registry', '%s: PyTables has open %s, should be %s' % (
                what, [short(x) for x in now], [short(x) for x in exp]))
        fds = set(ctx.sim.openfds())
        if fds != {h.path for h in live if h.open and not h.mem}:
            raise Violation('leak-file', '%s: files open: %s' % (what, sorted(short(x) for x in fds)))

    def check_closed(h, what):
        for n, a in FILE_OPS:
            closed(h.f, n, a, what)
        for k, d in h.datas.items():
            ops = HYDRO_OPS if type(d).__name__ == 'HydroData' else STRUCT_OPS
            for n, a in ops:
                if hasattr(d, n) and not (n == 'get_nodes' and type(d).__name__ != 'FirstLevelData'):
                    closed(d, n, a, what)
            if hasattr(d, 'get_transformation'):
                closed(d, 'get_transformation', (1, 1), what)
            str(d), repr(d)
        if str(h.f) != '<Closed File object>':
            raise Violation('closed-usable', '%s: a closed file prints as %r' % (what, str(h.f)[:60]))
        ctx.eval()

    def check_query(h, key, i, what):
        d = h.datas[key]
        qs = queries(d, h.bodies)
        n, a = qs[i % len(qs)]
        got = lib.ask(getattr(d, n), **a)
        exp = h.want[key][i % len(qs)]
        if not lib.equal(got, exp):
            raise Violation('disturbed', '%s: %s(%s) of %s differs from what it is alone: %s' % (
                what, n, a, short(h.path), lib.differ(exp, got) or got))
        ctx.eval()

    for k, op in enumerate(plan['ops']):
        o = op['op']
        opened = [h for h in live if h.open]
        dead = [h for h in live if not h.open]
        what = 'operation %d (%s)' % (k, o)
        i = op['i'] % len(paths)
        if o in ('open', 'faultopen'):
            p = os.path.relpath(paths[i]) if op['rel'] else paths[i]
            rules = []
            if o == 'faultopen':
                rules = [dict(op='read' if op['j'] % 3 else 'open', suffix='.h5', wr=-1, at=int(op['frac'] * 25) if
                              op['j'] % 3 else 0, act='err', err=['EIO', 'EACCES', 'EMFILE'][op['j'] // 3 % 3] if
                              not op['j'] % 3 else 'EIO')]
            with lib.faults(ctx, rules) as fl:
                try:
                    f = fs.open_hdf5(p)
                except Exception as e:
                    f, why = None, lib.err(e)
                    # while the error is handled
                    check_open(what + ' failed')
            if f is None and not fl.fired:
                raise Violation('open-raises', '%s: opening a good file raised %s' % (what, why))
            if f is None:
                check_open(what + ' failed')
                ctx.probe('open-failed')
            else:
                h = Handle(f, paths[i], want[content[i]], False)
                h.bodies = lib.bodies_of(models[content[i]])
                live.append(h)
                if sorted(h.datas) != sorted(h.want):
                    raise Violation('keys', '%s: the file offers %s instead of %s'
                                    % (what, sorted(h.datas), sorted(h.want)))
        elif o in ('opensif', 'mem', 'faultsif'):
            rules = []
            if o == 'faultsif':
                rules = [dict(op='read', suffix=srcs[i][-4:], wr=0, at=int(op['frac'] * 12), act='err', err='EIO')]
            name = os.path.basename(srcs[i])[:-3] + 'h5'
            clash = any(h.mem and h.path == name for h in opened)
            with lib.faults(ctx, rules) as fl:
                try:
                    if o == 'mem':
                        f = fs.data.file.File(fs.sif2hdf5(srcs[i], in_memory=True))
                    else:
                        f = fs.open_sif(srcs[i]).file
                except Exception as e:
                    f, why = None, lib.err(e)
                    check_open(what + ' failed')
            if f is None and not fl.fired and not clash:
                raise Violation('open-raises', '%s: reading a good source raised %s' % (what, why))
            if f is not None:
                h = Handle(f, name, want[i], True)
                h.bodies = lib.bodies_of(models[i])
                live.append(h)
        elif o == 'bare':
            f = fs.open_hdf5(bare)
            live.append(Handle(f, bare, {}, False))
            if len(f.keys()) or list(f):
                raise Violation('keys', '%s: a file that holds nothing offers %s' % (what, sorted(f.keys())))
        elif o == 'query' and opened:
            h = opened[op['i'] % len(opened)]
            if h.path == bare:
                continue
            keys = sorted(h.datas)
            check_query(h, keys[op['j'] % len(keys)], op['i'], what)
            try:
                now = sorted(h.f.keys()), sorted(x for x, _ in h.f.items()), len(list(h.f)), len(h.f.values())
                one = h.f[keys[0]] is h.datas[keys[0]] and h.f.get('nothing', 7) == 7 and keys[0] in h.f \
                    and 'nothing' not in h.f
            except Exception as e:
                raise Violation('disturbed', '%s: an open file raised %s' % (what, lib.err(e)))
            if now != (keys, keys, len(keys), len(keys)) or not one:
                raise Violation('disturbed', '%s: an open file offers %s' % (what, now))
            str(h.f), repr(h.f)
        elif o == 'faultquery' and opened:
            h = opened[op['i'] % len(opened)]
            if h.path == bare:
                continue
            keys = sorted(h.datas)
            d = h.datas[keys[op['j'] % len(keys)]]
            qs = queries(d, h.bodies)
            n, a = qs[op['i'] % len(qs)]
            with lib.faults(ctx, [dict(op='read', suffix='.h5', wr=-1, at=0, count=3, act='err', err='EIO')]):
                lib.ask(getattr(d, n), **a)
        elif o == 'data' and opened:
            h = opened[op['i'] % len(opened)]
            for key in h.datas:
                if h.datas[key].file is not h.f:
                    raise Violation('disturbed', '%s: data of another file' % what)
        elif o == 'close' and live:
            h = live[op['i'] % len(live)]
            keys = sorted(h.datas)
            try:
                if op['via'] == 'data' and keys:
                    h.datas[keys[op['j'] % len(keys)]].close()
                else:
                    h.f.close()
            except Exception as e:
                raise Violation('close-raises', '%s: closing %s raised %s'
                                % (what, 'again' if not h.open else '', lib.err(e)))
            ctx.probe('closed' if h.open else 'closed-again')
            h.open = False
            check_closed(h, what)
        elif o in ('faultclose', 'faultall') and live:
            # the file system reports an error when a file is closed (the descriptor is gone all the same)
            h = live[op['i'] % len(live)]
            keys = sorted(h.datas)
            with lib.faults(ctx, [dict(op='close', suffix='.h5', wr=-1, at=op['j'] % 2 if o == 'faultall' else 0,
                                       act='errafter', err='EIO')]) as fl:
                try:
                    if o == 'faultall':
                        fs.data.file.close_all_files()
                    elif op['via'] == 'data' and keys:
                        h.datas[keys[op['j'] % len(keys)]].close()
                    else:
                        h.f.close()
                except Exception as e:
                    if not fl.fired:
                        raise Violation('close-raises', '%s: raised %s' % (what, lib.err(e)))
                    ctx.probe('close-failed')
            for x in live if o == 'faultall' else [h]:
                x.open = False
                check_closed(x, what)
        elif o == 'closed' and dead:
            check_closed(dead[op['i'] % len(dead)], what)
        elif o == 'closeall':
            try:
                fs.data.file.close_all_files()
            except Exception as e:
                raise Violation('close-raises', '%s: closing all files raised %s' % (what, lib.err(e)))
            for h in live:
                h.open = False
                check_closed(h, what)
        elif o == 'over':
            busy = any(h.path == paths[i] for h in opened)
            j = op['j'] % len(srcs)
            try:
                lib.convert(srcs[j], os.path.relpath(paths[i]) if op['rel'] else paths[i])
                done = True
            except Exception as e:
                done = False
                if not busy:
                    raise Violation('path-blocked', '%s: the path cannot be converted to although nothing is open: %s'
                                    % (what, lib.err(e)))
            if done:
                if busy:
                    raise Violation('overwritten', '%s: converted over a file that is open' % what)
                content[i] = j
        elif o == 'bad':
            p = bad[op['j'] % len(bad)]
            try:
                f = fs.open_hdf5(p)
            except Exception as e:
                check_open('%s of %s failed' % (what, short(p)))
                ctx.probe('bad-refused')
            else:
                raise Violation('bad-opened', '%s: %s was opened: %s' % (what, short(p), sorted(f.keys())))
        check_open(what)
        for h in live:
            if h.open != bool(getattr(h.f, '_isopen', h.open)):
                raise Violation('registry', '%s: a handle is %s' % (what, 'closed' if h.open else 'open'))
    # the open ones are unaffected, then everything can be closed and used again
    for h in live:
        if h.open:
            for x, key in enumerate(sorted(h.datas)):
                for y in range(3):
                    check_query(h, key, x * 7 + y * 5, 'in the end')
            h.f.close()
            h.open = False
            check_open('closing in the end')
        check_closed(h, 'in the end')
    for i, p in enumerate(paths):
        try:
            lib.convert(srcs[i], p)
        except Exception as e:
            raise Violation('path-blocked', 'everything is closed, but %s cannot be converted to: %s'
                            % (short(p), lib.err(e)))
    check_open('finally')
    ctx.probe('handles', len(live))


def short(p):
    return os.sep.join(p.split(os.sep)[-2:])


def closed(obj, name, args, what):
    try:
        r = getattr(obj, name)(*args)
        if name == '__iter__':
            list(r)
    except ClosedFileError:
        return
    except Exception as e:
        raise Violation('closed-error', '%s: %s.%s on closed data raised %s instead of the closed-file error'
                        % (what, type(obj).__name__, name, lib.err(e)))
    raise Violation('closed-usable', '%s: %s.%s on closed data returned' % (what, type(obj).__name__, name))


def bad_files(ctx, good):
    d = ctx.dir('bad')
    j = lambda n: os.path.join(d, n)
    with open(good, 'rb') as h:
        data = h.read()
    with open(j('half.h5'), 'wb') as h:
        h.write(data[:len(data) // 2])
    with open(j('text.h5'), 'wb') as h:
        h.write(b'not an HDF5 file\n' * 9)
    with open(j('empty.h5'), 'wb'):
        pass
    with tb.open_file(j('foreign.h5'), 'w') as f:
        f.create_group('/', 'Data')
        f.create_array('/Data', 'a', [1, 2])
    with tb.open_file(j('odd.h5'), 'w') as f:
        g = f.create_group('/', 'T1')
        for k, v in (('RECORDS', ['GNODE']), ('LEVEL', 'FIRSTLEVEL'), ('SELTYP', 1), ('FILETYPE', 'T')):
            g._f_setattr(k, v)
    with tb.open_file(j('sub.h5'), 'w') as f:
        g = f.create_group('/', 'T1')
        for k, v in (('RECORDS', ['GNODE']), ('LEVEL', 'TOPLEVEL'), ('SELTYP', 1), ('FILETYPE', 'T'),
                     ('DATATYPE', 'STRUCTURAL')):
            g._f_setattr(k, v)
        f.create_group('/T1', 'T2')
    with tb.open_file(j('kind.h5'), 'w') as f:
        g = f.create_group('/', 'X1')
        for k, v in (('RECORDS', ['GNODE']), ('LEVEL', ''), ('SELTYP', 1), ('FILETYPE', 'X'), ('DATATYPE', 'UNKNOWN')):
            g._f_setattr(k, v)
    os.mkdir(j('dir.h5'))
    return [j(n) for n in ('half.h5', 'text.h5', 'empty.h5', 'foreign.h5', 'odd.h5', 'sub.h5', 'kind.h5', 'dir.h5',
                           'absent.h5')]


def shrink(plan):
    o = plan['ops']
    n = len(o)
    for size in (n // 2, n // 4, 3, 1):
        if size < 1 or size >= n:
            continue
        for i in range(0, n, size):
            yield dict(plan, ops=o[:i] + o[i + size:])
    for j, sp in enumerate(plan['pool']):
        for q in M.shrink_spec(sp):
            yield dict(plan, pool=plan['pool'][:j] + [q] + plan['pool'][j + 1:])
