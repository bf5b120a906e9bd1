"""C05: a truncated source is never converted as if it were complete."""
import os

from sim import lib, model as M
from sim.engine import Violation

import freesif as fs

ID = 'C05'
TITLE = 'A truncated source is never converted as if it were complete'
LEVEL = 'exploration'
RUNS = {'quick': 350, 'thorough': 6000}
RULE = ('a run converts one generated model whole and then with one of its files ending at generated bytes (any byte, '
        'record boundaries, inside the last record, line ends, the first bytes), each under generated short reads; '
        'non-trivial: new trace and at least one cut that must raise')
REAL = ['freesif', 'PyTables', 'HDF5', 'numpy', 'kernel file system below the layer']
STUB = ['length of the source as seen by the library (a writer that died or a disk that filled up)',
        'results of read on the scratch folder']
ASSUMPTIONS = ['a file that ends inside or right after an end-of-data record looks complete up to there: either outcome '
               'is accepted']
HOW = ['disk', 'disk', 'disk', 'append', 'memfile', 'opensif']


def gen(rng, tier):
    spec = M.random_spec(rng, 'TTTRRRGGHHSS', small=rng.random() < .7)
    cuts = []
    for _ in range(rng.randint(5, 10)):
        cuts.append(dict(file=rng.choice([0., 0., rng.random()]), frac=lib.rfrac(rng),
                         kind=rng.choice(['byte', 'byte', 'byte', 'record', 'record', 'record', 'line', 'inlast', 'head',
                                          'last', 'last']),
                         off=rng.choice([0, 0, 1, -1, 2, -2, 4, 8, rng.randint(-20, 20)]),
                         src=lib.gen_benign(rng) if rng.random() < .3 else []))
    return dict(spec=spec, fmt=rng.choice('FU'), cuts=cuts, how=rng.choice(HOW),
                bufrows=rng.choice([None, None, 1, 3]))


def where(cut, f, data, spans, fmt):
    k, fr, off = cut['kind'], cut['frac'], cut['off']
    n = len(spans)
    if k == 'record':
        p = spans[lib.position(fr, n)][0] + off
    elif k == 'inlast':
        # inside the record before the end-of-data record
        a, b = spans[max(0, n - 2)]
        p = a + int(fr * (b - a))
    elif k == 'last':
        # one of the last few records, at its start or at any of its lines
        a, b = spans[max(0, n - 1 - lib.position(fr, min(n, 6)))]
        p = a if off == 0 else a + abs(off) * max(1, (b - a) // 20)
    elif k == 'head':
        p = abs(off) + int(fr * 40)
    elif k == 'line' and fmt == 'F':
        i = data.find(b'\n', int(fr * len(data)))
        p = (i + 1 if i >= 0 else 0) + off
    else:
        p = int(fr * len(data)) + off
    return min(max(p, 0), len(data))


def run(plan, ctx):
    m = M.build(plan['spec'])
    lib.set_knobs(plan)
    d = ctx.dir('src')
    fmt = plan['fmt']
    src = m.write(d, fmt)
    os.chdir(ctx.dir('cwd'))
    n = [0]
    how = plan['how']

    def convert():
        n[0] += 1
        out = os.path.join(ctx.dir('o%d' % n[0]), 'x.h5')
        if how == 'memfile':
            obj = fs.sif2hdf5(src, in_memory=True)
            s = lib.snap_file(obj)
            obj.close()
        elif how == 'opensif':
            obj = fs.open_sif(src)
            s = lib.snap_file(lib.tbgroup(obj)._v_file)
            obj.file.close()
        else:
            fs.sif2hdf5(src, out, append=how == 'append')
            s = lib.read_output(out)
        return s

    try:
        full = convert()
    except Violation:
        raise
    except Exception as e:
        raise Violation('raises:' + type(e).__name__, 'converting a complete source raised ' + lib.err(e))
    lib.check_stores(full, m.stores())
    names = list(m.files)
    for cut in plan['cuts']:
        nm = names[lib.position(cut['file'], len(names))]
        f = m.files[nm]
        data, spans = f.encode(fmt)
        p = where(cut, f, data, spans, fmt)
        ends = [s for s, r in zip(spans, f.recs) if r.name == 'IEND']
        maybe = any(a < p <= b for a, b in ends) or p >= (ends[-1][0] + 1 if ends else len(data))
        path = os.path.join(d, nm)
        with open(path, 'wb') as h:
            h.write(data[:p])
        raised = None
        with lib.faults(ctx, cut['src']):
            try:
                got = convert()
            except Violation:
                raise
            except Exception as e:
                raised = e
        with open(path, 'wb') as h:
            h.write(data)
        ctx.fault('truncated-source')
        ctx.eval()
        if raised is not None:
            ctx.probe('raised')
            continue
        if maybe:
            ctx.probe('complete-looking')
            continue
        dd = lib.differ(full, got)
        if dd:
            inrec = [r.name for (a, b), r in zip(spans, f.recs) if a <= p < b]
            raise Violation('truncated-accepted', '%s (%s, %d bytes) cut at byte %d (in %s) was converted without an error '
                            'and differs from the whole one: %s' % (nm, fmt, len(data), p, inrec, dd))
        ctx.probe('identical')
    # complete again: converts, as before
    got = convert()
    dd = lib.differ(full, got)
    if dd:
        raise Violation('recovery', 'after conversions of truncated sources the complete one differs: ' + dd)


def shrink(plan):
    c = plan['cuts']
    for i in range(len(c)):
        if len(c) > 1:
            yield dict(plan, cuts=c[:i] + c[i + 1:])
    for i in range(len(c)):
        if c[i]['src']:
            yield dict(plan, cuts=c[:i] + [dict(c[i], src=[])] + c[i + 1:])
    if plan['bufrows']:
        yield dict(plan, bufrows=None)
    if plan['how'] != 'disk':
        yield dict(plan, how='disk')
    for s in M.shrink_spec(plan['spec']):
        yield dict(plan, spec=s)
