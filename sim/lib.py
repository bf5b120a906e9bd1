"""Shared parts of the checks: driving freesif, reading back what it stored."""
import ctypes
import os
import sys
import warnings
from collections import OrderedDict

import numpy as np
import tables as tb

import freesif as fs
from freesif import exceptions as fx

from . import model as M
from .engine import Violation, Discard

warnings.simplefilter('ignore')

SUPPORTED_EXTRA = {'IEND', 'IRECSIZE'}      # read but not stored


# ------------------------------------------------------------ the fault arm ---

def arm(ctx, rules):
    """rules: [{op, suffix, wr, at, count, act, err, keep, name}]"""
    ids = []
    for r in rules or ():
        r = dict(r)
        nm = r.pop('name', None) or '%s-%s' % (r['op'], r.get('err') if r.get('act', 'err') in ('err', 'errafter')
                                              else r['act'])
        if r['op'] == 'quota':
            ctx.sim.quota(r['at'])
            ids.append((None, nm))
        else:
            ids.append((ctx.sim.rule(**r), nm))
    return ids


def disarm(ctx, ids):
    n = 0
    for i, nm in ids:
        k = ctx.sim.quota_hits() if i is None else ctx.sim.fired(i)
        ctx.fault(nm, k)
        n += k
    ctx.sim.clear()
    return n


class faults(object):
    """with faults(ctx, rules) as f: ...; f.fired"""

    def __init__(self, ctx, rules):
        self.ctx, self.rules, self.fired = ctx, rules, 0

    def __enter__(self):
        self.q0 = self.ctx.sim.quota_hits()
        self.ids = arm(self.ctx, self.rules)
        return self

    def __exit__(self, *a):
        self.fired = 0
        for i, nm in self.ids:
            k = (self.ctx.sim.quota_hits() - self.q0) if i is None else self.ctx.sim.fired(i)
            self.ctx.fault(nm, k)
            self.fired += k
        self.ctx.sim.clear()
        return False


def gen_benign(rng, suffix='', wr=0, n=None):
    """faults an operating system may always produce without harm"""
    out = []
    for _ in range(rng.randint(0, 3) if n is None else n):
        k = rng.random()
        at = rng.choice([0, 0, 1, 2, 3, rng.randint(0, 40)])
        if k < .7:
            out.append(dict(op='read', suffix=suffix, wr=wr, at=at, count=rng.choice([1, 2, 5, 50, 400]),
                            act='short', keep=rng.choice([1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 64, 100, 511])))
        else:
            out.append(dict(op='read', suffix=suffix, wr=wr, at=at, count=rng.choice([1, 1, 2, 5]),
                            act='err', err='EINTR'))
    return out


def gen_benign_out(rng, suffix='.h5'):
    out = []
    for _ in range(rng.randint(0, 2)):
        at = rng.choice([0, 1, 2, 3, rng.randint(0, 60)])
        k = rng.random()
        if k < .5:
            out.append(dict(op='write', suffix=suffix, wr=1, at=at, count=rng.choice([1, 3, 20]),
                            act='short', keep=rng.choice([1, 3, 8, 100])))
        elif k < .75:
            out.append(dict(op='write', suffix=suffix, wr=1, at=at, count=rng.choice([1, 2]),
                            act='err', err='EINTR'))
        else:
            out.append(dict(op='read', suffix=suffix, wr=-1, at=at, count=rng.choice([1, 3]),
                            act='short', keep=rng.choice([1, 3, 8])))
    return out


# ------------------------------------------------------------- conversions ---

def quiet_clock(ctx, plan):
    c = plan.get('clock')
    if c:
        ctx.sim.clock(c[0], c[1])


def set_knobs(plan):
    """internal buffering thresholds, when the code has such a knob; size of
    HDF5's metadata cache"""
    if plan.get('cramp'):
        cramped(plan['cramp']).__enter__()
    k = plan.get('bufrows')
    if k:
        from freesif.sequentialparser import parsers
        if hasattr(parsers, 'tmp_arr_size'):
            parsers.tmp_arr_size = k


def err(e):
    """stable short form of an exception"""
    return '%s: %s' % (type(e).__name__, str(e).split('\n')[0][:160])


def convert(src, out, **kw):
    return fs.sif2hdf5(src, out, **kw)


def open_handles():
    """file handles PyTables holds, by path"""
    return sorted(str(h.filename) for h in tb.file._open_files.handlers)


# --------------------------------------------------------------- snapshots ---

def tbgroup(d):
    """the group behind a data object"""
    g = getattr(d, '_tbgroup', None)
    if g is None:
        g = [x for x in vars(d).values() if isinstance(x, tb.Group)][0]
    return g


def snap_node_table(t):
    return t[:]


def snap_group(g):
    """attributes and datasets of one superelement group (no subgroups)"""
    out = OrderedDict()
    for a in ('RECORDS', 'LEVEL', 'DATATYPE', 'SELTYP', 'FILETYPE', 'INDEX'):
        if a in g._v_attrs:
            v = g._v_attrs[a]
            out['@' + a] = list(v) if isinstance(v, (list, tuple)) else v
    for n in sorted(g._v_children):
        c = g._v_children[n]
        if isinstance(c, tb.Group):
            continue
        out[n] = c[:] if isinstance(c, (tb.Table, tb.Array)) else repr(c)
    return out


def snap_file(tbf):
    """{group path: snapshot} for all groups below the root"""
    out = OrderedDict()
    for g in tbf.walk_groups('/'):
        p = g._v_pathname[1:]
        if p:
            out[p] = snap_group(g)
    return out


def snapshot(path):
    f = tb.open_file(path, 'r')
    try:
        return snap_file(f)
    finally:
        f.close()


def equal(a, b):
    """deep equality; arrays bitwise except that NaN equals NaN"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.names:
            return all(equal(np.asarray(a[n]), np.asarray(b[n])) for n in a.dtype.names)
        if a.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(sorted(a)) == list(sorted(b)) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def differ(a, b, path=''):
    """first difference of two snapshots, in words"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return '%s/%s is missing' % (path, k)
        for k in b:
            if k not in a:
                return '%s/%s is additional' % (path, k)
        for k in a:
            d = differ(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if equal(a, b):
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return '%s: %s%r instead of %s%r' % (path, b.dtype, b.shape, a.dtype, a.shape)
        fa, fb = a.ravel(), b.ravel()
        for i in range(len(fa)):
            if not equal(fa[i:i + 1], fb[i:i + 1]):
                return '%s[%d]: %r instead of %r' % (path, i, fb[i], fa[i])
    return '%s: %r instead of %r' % (path, b, a)


# --------------------------------------------- what a conversion must store ---

def same_number(got, want):
    """stored value against source value, at single precision"""
    if isinstance(want, complex):
        got = complex(got)
        return np.float32(got.real) == np.float32(want.real) and \
            np.float32(got.imag) == np.float32(want.imag)
    return np.float32(got) == np.float32(want)


def same_value(got, want):
    if isinstance(want, str):
        if isinstance(got, bytes):
            got = got.decode('latin1')
        return str(got).rstrip() == want.rstrip()
    if isinstance(want, (list, tuple)):
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            return False
        if w.dtype.kind in 'US':
            return all(same_value(a, b) for a, b in zip(g.ravel().tolist(), w.ravel().tolist()))
        if w.dtype.kind == 'c' or g.dtype.kind == 'c':
            return bool(np.array_equal(g.astype(np.complex64), w.astype(np.complex64)))
        return bool(np.array_equal(g.astype(np.float32), w.astype(np.float32)))
    return bool(same_number(got, want))


def check_table(where, name, table, arrays, rows, arrs):
    """one record type of one superelement"""
    tag = '%s.%s' % (where, name)
    if len(table) != len(rows):
        raise Violation('rows:' + name, '%s: %d rows stored, %d records in the source'
                        % (tag, len(table), len(rows)))
    cols = {}
    for i, row in enumerate(rows):
        for c, want in row.items():
            if c not in cols:
                if c not in table.dtype.names:
                    raise Violation('column:' + name, '%s: no column %s' % (tag, c))
                cols[c] = table[c]
            if not same_value(cols[c][i], want):
                raise Violation('value:%s.%s' % (name, c), '%s row %d: %s is %r, source has %r'
                                % (tag, i, c, cols[c][i], want))
    for a, parts in arrs.items():
        if a not in arrays:
            raise Violation('array:' + name, '%s: no array %s' % (tag, a))
        data = arrays[a]
        for s in ('_start', '_stop'):
            if a + s not in table.dtype.names:
                raise Violation('column:' + name, '%s: no column %s' % (tag, a + s))
        lo, hi = table[a + '_start'], table[a + '_stop']
        used = 0
        for i, want in enumerate(parts):
            got = data[lo[i]:hi[i]]
            used += len(want)
            if len(got) != len(want):
                raise Violation('varlen:%s.%s' % (name, a), '%s row %d: %s has %d entries, source has %d'
                                % (tag, i, a, len(got), len(want)))
            if want and not same_value(got, want):
                raise Violation('varlen:%s.%s' % (name, a), '%s row %d: %s is %s, source has %s'
                                % (tag, i, a, np.asarray(got).tolist(), want))
        if len(data) != used:
            raise Violation('varlen:%s.%s' % (name, a), '%s: array %s holds %d entries, source has %d'
                            % (tag, a, len(data), used))


ALL_NAMES = None


def known_names():
    global ALL_NAMES
    if ALL_NAMES is None:
        ALL_NAMES = set(STORED_TYPES)
    return ALL_NAMES


STORED_TYPES = (
    'HIERARCH DATE TEXT IDENT TDMATER TDSECT TDSETNAM TDSUPNAM TSLAYER TDSCONC TDLOAD TDRESREF TDBODNAM '
    'TDRSNAM TDSCATTER GNODE GCOORD GELMNT1 GELREF1 GELTH GBEAMG GBARM GBOX GCHAN GCHANR GDOBO GIORH GIORHR '
    'GLSEC GLSECR GPIPE GUSYI MISOSEL GECCEN GUNIVEC BNBCD BLDEP BEUSLO BGRAV BRIGAC GSETMEMB SCONCEPT '
    'SCONMESH RDFORCES RDNODRES RDSTRESS RDSTRAIN RDPOINTS RDIELCOR RDRESREF RBLODCMB RDRESCMB RVFORCES '
    'RVSTRESS RVSTRAIN RVNODDIS RVNODVEL RVNODACC RSUPTRAN HSUPTRAN GELMNT2 WGLOBDEF WBODCON WBODY WDRESREF '
    'WSECTION WFKPOINT W1MATRIX W1MOTION W1EXFORC W2EXFDIF W2EXFSUM W1SFORCE W2HDRIFT W2MDRIFT WFLUIDKN '
    'W1PANPRE WSURFACE WINPUT').split()


def check_group(snap, store, path=None, only=None, ctx=None):
    """snapshot of one group against the expected store"""
    path = path or store.path
    if path not in snap:
        raise Violation('group-missing', 'no superelement %r stored; there are %r' % (path, list(snap)))
    g = snap[path]
    for a, want in store.attrs.items():
        got = g.get('@' + a)
        if got is None or (str(got) != str(want)):
            raise Violation('attr:' + a, '%s: %s is %r, expected %r' % (path, a, got, want))
    want_names = [n for n in store.names() if only is None or n in only]
    recs = g.get('@RECORDS')
    if recs is None:
        raise Violation('attr:RECORDS', '%s: no list of record types' % path)
    extra = set(recs) - set(want_names) - SUPPORTED_EXTRA
    extra &= set(STORED_TYPES)
    if set(want_names) - set(recs) or extra or len(set(recs)) != len(recs):
        raise Violation('attr:RECORDS', '%s: record types listed %r, in the source %r'
                        % (path, recs, want_names))
    for n in want_names:
        rows, arrs = store.recs[n]
        t = g.get(n.lower())
        if t is None:
            raise Violation('table-missing:' + n, '%s: no table for the %d %s records' % (path, len(rows), n))
        arrays = {k[len(n) + 1:]: v for k, v in g.items() if k.startswith(n.lower() + '_')}
        check_table(path, n, t, arrays, rows, arrs)
        if ctx:
            ctx.eval(len(rows))
    for n in STORED_TYPES:
        if n.lower() in g and n not in want_names:
            raise Violation('table-extra:' + n, '%s: a table of %s records that the source does not have '
                            '(or that were filtered out)' % (path, n))


def check_stores(snap, stores, gprefix='', strict=True, only=None, ctx=None):
    """all superelements of a converted model; gprefix replaces the start of
    the top group name"""
    want = []
    for s in stores:
        p = gprefix + s.path
        want.append(p)
        check_group(snap, s, p, only, ctx)
    if strict:
        for p in snap:
            if p not in want:
                raise Violation('group-extra', 'superelement %r is stored but not in the source' % p)


# ------------------------------------------------------------------ answers ---

def norm(v):
    """a comparable form of an answer"""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, np.generic):
        return v.item() if v.dtype.names is None else tuple(norm(x) for x in v.tolist())
    if isinstance(v, dict):
        return {str(norm(k)): norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def ask(fn, *a, **k):
    """answer of a query, or the class of the error it raises"""
    try:
        return norm(fn(*a, **k))
    except Exception as e:
        return 'raises %s' % type(e).__name__


def struct_queries(setnames=()):
    q = []
    sels = [{}] + [dict(sets=s) for s in setnames[:3]] + [dict(kind='beam'), dict(kind='shell')]
    if len(setnames) > 1:
        sels.append(dict(sets=list(setnames[:2]), kind='shell'))
    for s in sels:
        q += [('get_nodes', dict(s)), ('get_nodes', dict(s, disconnected=True)),
              ('get_nodenumbers', dict(s)), ('get_nodenumbers', dict(s, numbertype='internal')),
              ('get_elements', dict(s)), ('get_elements', dict(s, disconnected=True)),
              ('get_elementnumbers', dict(s))]
        for r in ('displacement', 'velocity', 'acceleration'):
            q.append(('get_noderesults', dict(s, restype=r)))
    for s in [{}] + [dict(sets=x) for x in setnames[:2]]:
        q += [('get_section_properties', dict(s)), ('get_shell_thicknesses', dict(s))]
        for r in ('beamforce', 'generalstress', 'decomposedstress'):
            q.append(('get_elementresults', dict(s, restype=r)))
    q += [('get_setnames', {}), ('get_resultcase_names', {}), ('get_nodes', dict(trans='top'))]
    return q


def hydro_queries(bodies=(1,)):
    q = [('get_angular_freqs', {}), ('get_periods', {}), ('get_directions', {}),
         ('get_directions', dict(unit='radians')), ('get_timesteps', {}), ('get_sections', {}), ('get_points', {})]
    for b in bodies:
        for n in ('get_bodyproperties', 'get_motion_raos', 'get_excitationforce_raos', 'get_sectionforce_raos',
                  'get_meandrift', 'get_horiz_meandrift', 'get_pressure_panel_ids', 'get_panel_pressures'):
            q.append((n, dict(bodyid=b)))
        for b2 in bodies:
            for n in ('get_bodymass', 'get_addedmass', 'get_potentialdamping', 'get_viscousdamping',
                      'get_hydrostatic_restoring', 'get_mooring_restoring'):
                q.append((n, dict(bodyid=b, bodyid2=b2)))
    for k in ('elevation', 'pressure', 'velocity'):
        q.append(('get_fluidkinematics_raos', dict(kind=k)))
    return q


def answers(d, bodies=(1,)):
    """answers of one data object to a standard list of questions"""
    out = OrderedDict()
    out['type'] = type(d).__name__
    out['str'] = str(d)
    if hasattr(d, 'get_angular_freqs'):
        qs = hydro_queries(bodies)
        out['globals'] = [float(d.g), float(d.ro)]
    else:
        names = ask(d.get_setnames) or []
        names = [n.decode() if isinstance(n, bytes) else str(n) for n in names] if isinstance(names, list) else []
        qs = struct_queries(names)
    for n, k in qs:
        fn = getattr(d, n, None)
        if fn is None:
            continue
        out['%s(%s)' % (n, ','.join('%s=%s' % x for x in sorted(k.items())))] = ask(fn, **k)
    return out


def all_answers(f, bodies=(1,)):
    out = OrderedDict()
    for k in sorted(f.keys()):
        out[k] = answers(f[k], bodies)
    return out


def close_quietly(*fs_):
    for f in fs_:
        try:
            f.close()
        except Exception:
            pass


def tree(path):
    """{relative path: (size, content hash)} of a folder"""
    import hashlib
    out = {}
    for root, _, files in os.walk(path):
        for n in files:
            p = os.path.join(root, n)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, path)] = hashlib.sha1(h.read()).hexdigest()
    return out


# ------------------------------------------------- failing PyTables calls ---

TBCALLS = ('create_table', 'create_earray', 'table_append', 'earray_append', 'table_flush', 'setattr', 'file_flush')


class tbfault(object):
    """n-th call of a PyTables entry point fails (allocation failure, library
    error); at=None only counts.  Nothing freesif-internal is touched."""
    TARGETS = {'create_table': (tb.File, 'create_table'), 'create_earray': (tb.File, 'create_earray'),
               'table_append': (tb.Table, 'append'), 'earray_append': (tb.EArray, 'append'),
               'table_flush': (tb.Table, 'flush'), 'setattr': (tb.Node, '_f_setattr'),
               'file_flush': (tb.File, 'flush')}

    def __init__(self, ctx, call, at=None, exc='MemoryError', after=False):
        self.ctx, self.call, self.at, self.exc, self.after = ctx, call, at, exc, after
        self.seen = self.fired = 0

    def __enter__(self):
        cls, name = self.TARGETS[self.call]
        self.orig = cls.__dict__[name]
        orig, me = self.orig, self

        def wrapped(*a, **k):
            if '/tables/' in sys._getframe(1).f_code.co_filename:
                return orig(*a, **k)        # only calls from outside PyTables
            n = me.seen
            me.seen += 1
            if me.at is not None and n == me.at:
                me.fired += 1
                me.ctx.log('tbfault', me.call, n, me.exc)
                if me.after:
                    orig(*a, **k)
                if me.exc == 'MemoryError':
                    raise MemoryError('simulated')
                if me.exc == 'KeyboardInterrupt':
                    raise KeyboardInterrupt('simulated')
                raise tb.HDF5ExtError('simulated failure', h5bt=False)
            return orig(*a, **k)
        setattr(cls, name, wrapped)
        return self

    def __exit__(self, *a):
        cls, name = self.TARGETS[self.call]
        setattr(cls, name, self.orig)
        self.ctx.fault('pytables-' + self.exc, self.fired)
        return False


# ---------------------------------------------------------- common pieces ---

def group_of(m, prefix='', usefileprefix=True):
    """name of the top group of a converted model"""
    return prefix + (m.fileprefix if usefileprefix else '') + m.letter + str(m.seltyp)


def regroup(path, m, prefix='', usefileprefix=True):
    """path of a store when the conversion used another prefix"""
    if not usefileprefix and m.fileprefix and path.startswith(m.fileprefix):
        path = path[len(m.fileprefix):]
    return prefix + path


def bodies_of(m):
    h = getattr(m, 'hydro', None)
    return tuple(h.bodies) if h is not None else (1,)


def take(snap, m, prefix='', usefileprefix=True):
    """the groups of one model, under their plain names"""
    top = group_of(m, prefix, usefileprefix)
    out = OrderedDict()
    for k, v in snap.items():
        if k == top or k.startswith(top + '/'):
            out[group_of(m) + k[len(top):]] = v
    return out


def read_output(path, key='output-unreadable'):
    """snapshot of an output that must be readable"""
    try:
        return snapshot(path)
    except Exception as e:
        raise Violation(key, 'the output file of a conversion that returned normally cannot be read: ' + err(e))


def count_ops(ctx, rules, fn):
    """how often each rule pattern would have matched while fn ran"""
    ids = [ctx.sim.rule(r['op'], r.get('suffix', ''), r.get('wr', -1), 1 << 60, 0, 'err', 'EIO', 1) for r in rules]
    try:
        out = fn()
        return out, [ctx.sim.seen(i) for i in ids]
    finally:
        ctx.sim.clear()


def position(frac, n):
    """position from a fraction; the ends are as likely as the middle"""
    if n <= 0:
        return 0
    return min(n - 1, max(0, int(frac * n)))


def rfrac(rng):
    k = rng.random()
    if k < .12:
        return 0.
    if k < .24:
        return .999999
    return rng.random()


def in_child(fn):
    """result of fn() computed in a forked copy of this process"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                data = pickle.dumps(('ok', fn()))
            except Violation as v:
                data = pickle.dumps(('violation', v.key, v.msg))
            except BaseException as e:
                import traceback
                data = pickle.dumps(('error', traceback.format_exc(), type(e).__name__))
            os.close(r)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise Violation('process-crash', 'the process died')
    got = pickle.loads(b''.join(buf))
    if got[0] == 'ok':
        return got[1]
    if got[0] == 'violation':
        raise Violation(got[1], got[2])
    raise RuntimeError('in child: ' + got[1])


# --------------------------------------------------- small metadata cache ---

class _Mdc(ctypes.Structure):
    """H5AC_cache_config_t, version 1"""
    _b, _z, _d, _i = ctypes.c_bool, ctypes.c_size_t, ctypes.c_double, ctypes.c_int
    _fields_ = [('version', _i), ('rpt', _b), ('open_trace', _b), ('close_trace', _b), ('trace', ctypes.c_char * 1025),
                ('evictions', _b), ('set_initial', _b), ('initial', _z), ('min_clean', _d), ('max', _z), ('min', _z),
                ('epoch', ctypes.c_long), ('incr_mode', _i), ('lower_hr', _d), ('increment', _d), ('apply_max', _b),
                ('max_increment', _z), ('flash', _i), ('flash_mult', _d), ('flash_thr', _d), ('decr_mode', _i),
                ('upper_hr', _d), ('decrement', _d), ('apply_maxd', _b), ('max_decrement', _z), ('epochs', _i),
                ('apply_reserve', _b), ('reserve', _d), ('dirty', _z), ('strategy', _i)]


_hdf5 = []


def hdf5():
    if not _hdf5:
        with open('/proc/self/maps') as f:
            p = [x.split()[-1] for x in f if '/libhdf5' in x and '_hl' not in x]
        h = ctypes.CDLL(p[0]) if p else None
        for n in ('H5Fget_mdc_config', 'H5Fset_mdc_config'):
            getattr(h, n).argtypes = [ctypes.c_int64, ctypes.c_void_p]
        _hdf5.append(h)
    return _hdf5[0]


def cramp(tbf, size):
    """leave an open file hardly any metadata cache, as it has when it is
    large: what HDF5 knows of it is read, or written, again and again"""
    c = _Mdc(version=1)
    hid = tbf._v_objectid
    if hdf5().H5Fget_mdc_config(hid, ctypes.byref(c)) < 0:
        raise RuntimeError('no metadata cache configuration')
    c.initial = c.max = c.min = size
    c.set_initial, c.incr_mode, c.flash, c.decr_mode, c.min_clean = True, 0, 0, 0, 0.
    if hdf5().H5Fset_mdc_config(hid, ctypes.byref(c)) < 0:
        raise RuntimeError('metadata cache configuration refused')


class cramped(object):
    """with cramped(size): every file opened by freesif has a small metadata
    cache (nothing changes when size is None)"""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.orig = tb.open_file
        if self.size:
            def open_file(*a, **k):
                f = self.orig(*a, **k)
                if k.get('driver') != 'H5FD_CORE':
                    cramp(f, self.size)
                return f
            tb.open_file = open_file
        return self

    def __exit__(self, *a):
        tb.open_file = self.orig
        return False
