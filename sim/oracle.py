"""What the queries must answer, computed from the source model alone.

An expectation is a dict with
  value    the answer (arrays, or nested lists / dicts of them)
  tol      array of absolute tolerances (computed results), else exact
  raises   class names one of which must be raised; 'any' for any error
  empty    an error or an answer without any value is acceptable
"""
import numpy as np

from . import model as M

F32 = np.float32
S3 = 3. ** .5


# ------------------------------------------------------ shape functions ---

def _quad():
    pts = [(-1, -1), (1, -1), (-1, 1), (1, 1)]          # result points, times 1/sqrt(3)
    nodes = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)]
    return np.array([[.25 * (1 + S3 * px * x) * (1 + S3 * py * y) for px, py in pts] for x, y in nodes])


def _tri():
    c = np.full((3, 3), -1. / 3) + 2 * np.eye(3)        # corner values
    out = []
    for i in range(3):
        out.append(c[i])
        out.append((c[i] + c[(i + 1) % 3]) / 2)
    return np.array(out)


def _line():
    return np.array([[.5 * (1 + S3 * p * x) for p in (-1, 1)] for x in (-1, 0, 1)])


QUAD, TRI, LINE = _quad(), _tri(), _line()
THIN = {24: [(0, 5), (1, 6), (4, 9), (3, 8)], 25: [(0, 4), (1, 5), (3, 7)]}     # (lower, upper) per node


def cplx(data, ic):
    a = np.array(data, dtype=float)
    if ic:
        a = a.reshape(-1, 2)
        return a[:, 0] + 1j * a[:, 1]
    return a


def element_result(t, restype, data):
    """values at the element nodes, and the tolerance that goes with them"""
    if t == 15:
        d = data.reshape(3, 6)
        return d[[0, 2]], np.zeros((2, 6))
    if t == 23:
        d = data.reshape(2, 6)
        return LINE @ d, np.tile(1e-5 * np.abs(d).max(axis=0), (3, 1))
    if t in (24, 25):
        d = data.reshape(-1, 3)
        lo = d[[a for a, _ in THIN[t]]]
        up = d[[b for _, b in THIN[t]]]
        if restype == 'generalstress':
            v = np.stack([lo, up], axis=1)
            return v, np.zeros(v.shape)
        v = np.concatenate([(lo + up) / 2, (up - lo) / 2], axis=1)
        tol = 1e-5 * np.abs(np.stack([lo, up])).max(axis=(0, 1))
        return v, np.tile(np.concatenate([tol, tol]), (len(v), 1))
    x = TRI if t == 26 else QUAD
    d = data.reshape(2, -1, 5)
    tol = 1e-5 * np.abs(d).max(axis=(0, 1))
    mid, half = (d[0] + d[1]) / 2, (d[1] - d[0]) / 2 * S3        # linear over the thickness
    lo, up = mid - half, mid + half
    if restype == 'generalstress':
        lo, up = lo.copy(), up.copy()
        lo[:, 3:] = 0.
        up[:, 3:] = 0.
        v = np.stack([x @ lo, x @ up], axis=1)
        return v, np.tile(tol, (len(x), 2, 1))
    memb, bend, shear = mid[:, :3], half[:, :3], 1.5 * d[0][:, 3:]
    v = x @ np.concatenate([memb, bend, shear], axis=1)
    return v, np.tile(np.concatenate([tol[:3], tol[:3], tol[3:]]), (len(x), 1))


# -------------------------------------------------------------- structure ---

class StructOracle(object):
    """one first-level superelement"""

    def __init__(self, s, m=None, occ=None, results=False, store=None):
        self.s, self.m, self.occ = s, m, occ
        self.loads = {r['idno']: r['name'] for r in store.recs['TDLOAD'][0]} \
            if store is not None and 'TDLOAD' in store.recs else {}
        self.results = results
        self.setnames = list(s.sets)

    # ---- selections
    def elements(self, sets=None, kind=None):
        s = self.s
        if sets is None:
            idx = list(range(len(s.elems)))
        else:
            names = [sets] if isinstance(sets, str) else list(sets)
            if any(n not in s.sets for n in names):
                return None
            idx = sorted({e - 1 for n in names for ist, mem in s.sets[n] if ist == 2 for e in mem})
        if kind == 'beam':
            idx = [i for i in idx if s.elems[i][1] in M.BEAMS]
        elif kind == 'shell':
            idx = [i for i in idx if s.elems[i][1] in M.SHELLS]
        return idx

    def nodes(self, sets=None, kind=None, disconnected=False):
        """zero-based node indices"""
        if sets is None and kind is None and not disconnected:
            return list(range(self.s.nnodes))
        idx = self.elements(sets, kind)
        if idx is None:
            return None
        con = [n - 1 for i in idx for n in self.s.elems[i][2]]
        return con if disconnected else sorted(set(con))

    def select(self, a):
        """the arguments sets/kind of an abstract question"""
        k = {}
        if a.get('sets') is not None and self.setnames:
            names = [self.setnames[i % len(self.setnames)] for i in a['sets']]
            form = a.get('form', 0)
            k['sets'] = names[0] if form == 0 else (tuple(names) if form == 1 else names)
        if a.get('kind'):
            k['kind'] = a['kind']
        return k

    def wrong(self, a, k):
        """bad arguments: (changed kwargs, expectation) or None"""
        bad = a.get('bad')
        if bad == 'kind':
            return dict(k, kind='solid'), dict(raises=['ValueError'])
        if bad == 'set':
            return dict(k, sets='no such set'), dict(raises='any')
        return None

    # ---- geometry (C13)
    GEO = ('get_nodes', 'get_nodenumbers', 'get_elements', 'get_elementnumbers', 'get_section_properties',
           'get_shell_thicknesses', 'get_setnames', 'get_resultcase_names')

    def geometry(self, q, a):
        """-> (method, kwargs, expectation)"""
        s = self.s
        k = self.select(a)
        disc = bool(a.get('disc'))
        if q == 'get_setnames':
            if not s.sets:
                return q, {}, dict(value=None, none=True)
            return q, {}, dict(value=[n.encode() for n in s.sets])
        if q == 'get_resultcase_names':
            if not self.loads:
                return q, {}, dict(raises='any')
            want = {str(i): n.encode() for i, n in self.loads.items()}
            if a.get('cases') is None:
                return q, {}, dict(value=want)
            ids = sorted(self.loads)
            pick = [ids[i % len(ids)] for i in a['cases']] + ([999] if a.get('bad') else [])
            arg = pick[0] if a.get('form', 0) == 0 else (tuple(pick) if a.get('form') == 1 else pick)
            keep = pick[:1] if a.get('form', 0) == 0 else pick
            return q, dict(rescases=arg), dict(value={str(i): want[str(i)] for i in keep if str(i) in want})
        if q in ('get_section_properties', 'get_shell_thicknesses'):
            kk = {x: y for x, y in k.items() if x == 'sets'}
            beam = q == 'get_section_properties'
            idx = self.elements(kk.get('sets'), 'beam' if beam else 'shell')
            if not idx:
                return q, kk, dict(empty=True)
            if beam:
                want = [[s.geono[i]] + s.beamsecs[s.geono[i]] for i in idx]
                return q, kk, dict(rows=M.GBEAMG_COLS, value=want)
            if any(s.geono[i] < 0 for i in idx):    # thickness per node: not supported by this query
                return q, kk, dict(raises='any')
            return q, kk, dict(value=np.array([s.thick[s.geono[i]] for i in idx], F32))
        w = self.wrong(a, k) if q in self.GEO[:4] else None
        if w:
            return (q,) + w
        idx = self.elements(**k)
        if q == 'get_elementnumbers':
            if a.get('num') == 2:
                return q, dict(k, numbertype='other'), dict(raises=['ValueError'])
            if not idx:
                return q, k, dict(empty=True)
            if a.get('num') == 1:
                return q, dict(k, numbertype='internal'), dict(value=np.array([i + 1 for i in idx]))
            return q, k, dict(value=np.array([s.elems[i][0] for i in idx]))
        if disc:
            k['disconnected'] = True
        if q == 'get_elements':
            if not idx:
                return q, k, dict(empty=True)
            con = [n - 1 for i in idx for n in s.elems[i][2]]
            if disc:
                con = list(range(len(con)))
            elif 'sets' in k or 'kind' in k:
                pos = {n: i for i, n in enumerate(sorted(set(con)))}
                con = [pos[n] for n in con]
            off = np.cumsum([len(s.elems[i][2]) for i in idx])
            return q, k, dict(value=[np.array(con), off, np.array([s.elems[i][1] for i in idx])])
        nodes = self.nodes(k.get('sets'), k.get('kind'), disc)
        if q == 'get_nodenumbers':
            if a.get('num') == 2:
                return q, dict(k, numbertype='other'), dict(raises=['ValueError'])
            if not nodes:
                return q, k, dict(empty=True)
            if a.get('num') == 1:
                return q, dict(k, numbertype='internal'), dict(value=np.array([n + 1 for n in nodes]))
            return q, k, dict(value=np.array([s.nodex[n] for n in nodes]))
        if q == 'get_nodes':
            if not nodes:
                return q, k, dict(empty=True)
            return q, k, dict(value=np.array([s.coords[n] for n in nodes], F32))
        raise KeyError(q)

    # ---- results (C12)
    RES = ('displacement', 'velocity', 'acceleration', 'beamforce', 'generalstress', 'decomposedstress')

    def cases(self, a, k):
        """(kwargs, selected cases in file order)"""
        s = self.s
        run = 1
        if a.get('run'):
            run = a['run']
            k['run'] = integer(a, run)
        sel = [c for c in s.cases if c[1] == run]
        if a.get('cases') is not None:
            ext = sorted({c[2] for c in s.cases})
            form = a.get('cform', 0)
            if form == 0:
                pick = [ext[a['cases'][0] % len(ext)]]
                k['rescases'] = integer(a, pick[0])
            else:
                pick = [ext[i % len(ext)] for i in a['cases']] + ([9999] if a.get('extra') else [])
                k['rescases'] = [[integer(a, x) for x in pick], tuple(pick), np.array(pick)][form - 1]
            sel = [c for c in sel if c[2] in pick]
        return sel

    def result(self, q, a):
        s = self.s
        node = q in self.RES[:3]
        meth = 'get_noderesults' if node else 'get_elementresults'
        k = self.select(a)
        k['restype'] = q
        if not node:
            k.pop('kind', None)
        if a.get('bad') == 'restype':
            return meth, dict(k, restype='stress'), dict(raises=['ValueError'])
        if node:
            if a.get('disc'):
                k['disconnected'] = True
        sel = self.cases(a, k)
        rec = {'displacement': 'DIS', 'velocity': 'VEL', 'acceleration': 'ACC'}.get(q)
        kinds = M.BEAMS if q == 'beamforce' else M.SHELLS
        if not self.results or (node and rec not in s.reskinds) or \
                (not node and not any(e[1] in kinds for e in s.elems)):
            return meth, k, dict(raises='any')
        if a.get('bad') == 'set':
            return meth, dict(k, sets='no such set'), dict(raises='any')
        if not sel:
            return meth, k, dict(empty=True)
        if len({c[3] for c in sel}) > 1:
            return meth, k, dict(raises=['ResultError'])
        ic = sel[0][3]
        if node:
            nodes = self.nodes(k.get('sets'), k.get('kind'), bool(a.get('disc')))
            if not nodes:
                return meth, k, dict(empty=True)
            v = np.array([[cplx(s.noderes[rec, c[0]][n], ic) for n in nodes] for c in sel])
            v = v.astype(np.complex64 if ic else F32)
            return meth, k, dict(value=v if len(sel) > 1 else v[0])
        idx = self.elements(k.get('sets'), 'beam' if q == 'beamforce' else 'shell')
        if not idx:
            return meth, k, dict(empty=True)
        src = s.forces if q == 'beamforce' else s.stress
        vs, ts = [], []
        for c in sel:
            p = [element_result(s.elems[i][1], q, cplx(src[c[0], i], ic)) for i in idx]
            vs.append(np.concatenate([x for x, _ in p]))
            ts.append(np.concatenate([x for _, x in p]))
        v, t = np.array(vs), np.array(ts)
        if len(sel) == 1:
            v, t = v[0], t[0]
        return meth, k, dict(value=v, tol=t)

    # ---- transformations (C15)
    def transformed(self, q, a):
        """get_nodes with a transformation"""
        meth, k, exp = self._transformed(a)
        if not self.nodes(k.get('sets'), k.get('kind'), bool(a.get('disc'))):
            exp = dict(empty=True)
        return meth, k, exp

    def _transformed(self, a):
        s, m = self.s, self.m
        k = self.select(a)
        if a.get('disc'):
            k['disconnected'] = True
        nodes = self.nodes(k.get('sets'), k.get('kind'), bool(a.get('disc')))
        base = np.array([s.coords[n] for n in nodes or ()], F32)
        tr = a['trans']
        if tr == 'none':
            if not nodes:
                return 'get_nodes', k, dict(empty=True)
            return 'get_nodes', k, dict(value=base)
        if tr == 'badshape':
            return 'get_nodes', dict(k, trans=np.eye(3)), dict(raises=['ValueError'] if nodes else 'any')
        if tr == 'badword':
            return 'get_nodes', dict(k, trans='bottom'), dict(raises=['ValueError', 'HierarchyError'])
        if tr == 'matrix':
            r = np.random.RandomState(a['i'] % (1 << 31))
            t = np.eye(4)
            t[:3, :3] = r.uniform(-2, 2, (3, 3))
            t[3, :3] = r.uniform(-9, 9, 3)
            k['trans'] = t.astype(F32) if a['i'] % 2 else t
            t = k['trans'].astype(float)
        else:
            o = self.occ
            hier = o is not None
            if hier and m.letter == 'T':
                occs = [x for x in m.occ if x['iselty'] == s.seltyp]
                n = a['i'] % (len(occs) + 1)        # one index too many now and then
                if n == len(occs):
                    if a['i'] % 3:
                        n = 0
                    else:
                        # level 1 needs no occurrence
                        kk = dict(k, trans='top', index=n + 1)
                        return 'get_nodes', kk, dict(raises='any')
                if n or a['i'] % 2:
                    k['index'] = integer(a, n + 1)
                o = [x for x in occs if x['indsel'] == n + 1][0]
            if tr == 'top':
                k['trans'] = 'top'
                if hier:
                    t = M.compose(m, o, m.depth)
                else:
                    t = getattr(m, 'rsup', None)
                    if t is None:
                        return 'get_nodes', k, dict(raises=['HierarchyError'])
                    t = t.astype(float)
            else:
                lev = a['level']
                k['trans'] = integer(a, lev)
                if not hier:
                    return 'get_nodes', k, dict(raises=['HierarchyError'])
                t = np.eye(4) if lev == 1 else (M.compose(m, o, lev) if 1 < lev <= m.depth else None)
                if t is None:
                    return 'get_nodes', k, dict(raises=['HierarchyError'])
        if not nodes:
            return 'get_nodes', k, dict(empty=True)
        h = np.column_stack([base.astype(float), np.ones(len(base))])
        v = (h @ t)[:, :3]
        tol = 1e-4 * ((np.abs(h) @ np.abs(t))[:, :3] + 1e-30)
        return 'get_nodes', k, dict(value=v, tol=tol)


def integer(a, v):
    """a number as Python's int or as one of numpy, as read from an array"""
    return v if a.get('np') is None else [np.int64, np.int32, np.int16][a['np']](v)


class TopOracle(object):
    """the top level of a hierarchy: get_transformation"""

    def __init__(self, m):
        self.m = m

    def transformation(self, a):
        m = self.m
        cand = [o for o in m.occ if o['ihpref']]
        o = cand[a['i'] % len(cand)]
        lev = a['level'] if a['trans'] == 'level' else 'top'
        args = dict(seltyp=integer(a, o['iselty']), index=integer(a, o['indsel']))
        if lev != 'top' or a['i'] % 2:
            args['level'] = lev if lev == 'top' else integer(a, lev)
        if a['trans'] == 'absent':
            n = max(x['indsel'] for x in cand if x['iselty'] == o['iselty'])
            return 'get_transformation', dict(args, index=n + 1, level='top'), dict(raises='any')
        top = m.depth if lev == 'top' else lev
        if top < 1 or top > m.depth:
            return 'get_transformation', args, dict(raises=['HierarchyError'])
        if o['islevl'] > 1 and top <= o['islevl']:
            # to its own level or below it: not what the query is documented for
            return 'get_transformation', args, dict(skip=True)
        t = np.eye(4) if top == 1 else M.compose(m, o, top)
        if t is None:
            return 'get_transformation', args, dict(raises=['HierarchyError'])
        # tolerance: products of entries along the path
        return 'get_transformation', args, dict(value=t, tol=1e-4 * (np.abs(t) + path_norm(m, o, top) * 1e-2))


def path_norm(m, o, level):
    by = {x['ihref']: x for x in m.occ}
    n = 1.
    while o['islevl'] < level and o['ihpref']:
        n = n * 2.5 + np.abs(m.trans[o['itref']]).max()
        o = by[o['ihpref']]
    return n


# -------------------------------------------------------------- hydrodynamic ---

class HydroOracle(object):
    REC = {'get_motion_raos': 'W1MOTION', 'get_excitationforce_raos': 'W1EXFORC',
           'get_meandrift': 'W2MDRIFT', 'get_horiz_meandrift': 'W2HDRIFT'}
    MAT = {'get_bodymass': 11, 'get_addedmass': 12, 'get_potentialdamping': 21, 'get_viscousdamping': 22,
           'get_hydrostatic_restoring': 31, 'get_mooring_restoring': 32}
    ALL = ('get_angular_freqs', 'get_periods', 'get_directions', 'get_timesteps', 'get_sections', 'get_points',
           'get_bodyproperties', 'get_matrix', 'get_sectionforce_raos', 'get_fluidkinematics_raos',
           'get_pressure_panel_ids', 'get_panel_pressures', 'globals') + tuple(REC) + tuple(MAT)

    def __init__(self, m):
        self.m, self.h = m, m.hydro

    def body(self, a, name='bodyid', key='body'):
        """(kwargs, body id or None when absent)"""
        ids = list(self.h.bodies)
        i = a.get(key, 0)
        if i == -1:
            absent = [x for x in (0, 5, 9, 77, -1) if x not in ids]
            b = absent[a['i'] % len(absent)]
            return {name: b}, None
        b = ids[i % len(ids)]
        if b == 1 and a['i'] % 2:
            return {}, b            # the default
        return {name: integer(a, b)}, b

    def question(self, q, a):
        h = self.h
        freq = not h.time
        none = dict(raises='any')
        if q == 'globals':
            v = [h.g, h.ro] + ([h.depth] if h.finite else [])
            return q, {}, dict(value=v)
        if q in ('get_angular_freqs', 'get_periods'):
            if not freq:
                return q, {}, dict(raises=['ResultError'])
            v = np.array(h.freqs, float)
            if q == 'get_periods':
                v = 2 * np.pi / v
            return q, {}, dict(value=v, tol=1e-6 * np.abs(v))
        if q == 'get_directions':
            if a.get('bad'):
                return q, dict(unit='grads'), dict(raises=['ValueError'])
            v = np.array(h.dirs if freq else [], float)
            if not freq:
                return q, {}, dict(empty=True)
            if a['i'] % 2:
                return q, dict(unit='radians'), dict(value=v, tol=1e-6 * np.abs(v))
            return q, {}, dict(value=v * 180 / np.pi, tol=1e-4 * np.abs(v))
        if q == 'get_timesteps':
            if freq:
                return q, {}, dict(raises=['ResultError'])
            return q, {}, dict(value=np.array(h.times), tol=np.full(len(h.times), 1e-6))
        if q == 'get_sections':
            if not h.sections:
                return q, {}, none
            return q, {}, dict(rows=['secusr', 'isecty', 'p1', 'p2', 'p3'],
                               value=[[u, t] + p for u, t, p in h.sections])
        if q == 'get_points':
            if not h.points:
                return q, {}, none
            return q, {}, dict(value=np.array(h.points, F32))
        if q in self.MAT or q == 'get_matrix':
            k1, b1 = self.body(a)
            k2, b2 = self.body(a, 'bodyid2', 'body2')
            k = dict(k1, **k2)
            mt = self.MAT.get(q)
            if mt is None:
                mt = [11, 12, 21, 22, 31, 32, 13][a.get('mtyp', 0) % 7]
                k['mtyp'] = integer(a, mt)
            want = h.mats.get((mt, b1, b2))
            if mt == 13 or b1 is None or b2 is None:
                return q, k, none
            if want is None:
                return q, k, dict(empty=True)
            if mt in (12, 21):
                return q, k, dict(value=np.stack(want, axis=2).astype(F32))
            return q, k, dict(value=want[0].astype(F32))
        nd, nf = h.nd, h.nf
        if q == 'get_fluidkinematics_raos':
            kind = ['elevation', 'pressure', 'velocity', 'other'][a.get('mtyp', 0) % 4]
            k = dict(kind=kind) if kind != 'elevation' or a['i'] % 2 else {}
            if not freq:
                return q, k, dict(raises=['ResultError'])
            if not h.fluid or kind == 'other':
                return q, k, none
            f = np.array(h.fluid).reshape(nd, nf, len(h.points), 4)
            f = np.moveaxis(f, 2, 0)                # point, dir, freq, (p, vx, vy, vz)
            if kind == 'velocity':
                return q, k, dict(value=np.moveaxis(f[..., 1:], 3, 1).astype(np.complex64))
            p = f[..., 0].astype(np.complex64)
            if kind == 'pressure':
                return q, k, dict(value=p)
            v = p.astype(complex) / h.ro / h.g
            return q, k, dict(value=v, tol=1e-5 * np.abs(v) + 1e-44)
        k, b = self.body(a)
        if q == 'get_bodyproperties':
            if b is None or not h.body:
                return q, k, none
            return q, k, dict(value={n: (F32(v) if n != 't' else np.array(v, F32)) for n, v in h.body[b].items()})
        if not freq:
            return q, k, dict(raises=['ResultError'])
        if q in self.REC:
            want = h.rao.get((self.REC[q], b))
            if want is None:
                return q, k, none
            w = np.array(want)
            cx = q in ('get_motion_raos', 'get_excitationforce_raos')
            w = w.reshape(nd, nf, -1)
            w = np.moveaxis(w, 2, 0)
            return q, k, dict(value=w.astype(np.complex64 if cx else F32))
        if q == 'get_sectionforce_raos':
            want = h.rao.get(('W1SFORCE', b))
            if b is None or not h.sections:
                return q, k, none
            if want is None:
                return q, k, dict(empty=True)
            w = np.array(want).reshape(h.secs[b], nd, nf, 6)
            return q, k, dict(value=np.moveaxis(w, 3, 1).astype(np.complex64))
        if q in ('get_pressure_panel_ids', 'get_panel_pressures'):
            if not h.panels:
                return q, k, dict(empty=True, none=True)
            if b is None:
                return q, k, none
            pids, ns, vals = h.panels[b]
            if q == 'get_pressure_panel_ids':
                return q, k, dict(value=np.array([(p, s) for s in range(1, ns + 1) for p in pids]))
            w = np.array(vals).reshape(nd, nf, ns, len(pids))
            return q, k, dict(value=np.transpose(w, (3, 2, 0, 1)).astype(np.complex64))
        raise KeyError(q)


# --------------------------------------------------------------- comparing ---

def same(got, want, tol=None):
    """None, or what differs"""
    if isinstance(want, dict):
        if not isinstance(got, dict) or sorted(map(str, got)) != sorted(map(str, want)):
            return 'keys %s instead of %s' % (sorted(map(str, got)) if isinstance(got, dict) else type(got),
                                              sorted(map(str, want)))
        g = {str(k): v for k, v in got.items()}
        for k, v in want.items():
            r = same(g[str(k)], v)
            if r:
                return '%s: %s' % (k, r)
        return None
    if isinstance(want, list):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return '%r instead of %d parts' % (type(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            r = same(g, w)
            if r:
                return 'part %d: %s' % (i, r)
        return None
    if isinstance(want, (bytes, str)):
        w = want if isinstance(want, bytes) else want.encode()
        g = bytes(got) if isinstance(got, bytes) else str(got).encode()
        return None if g.rstrip() == w.rstrip() else '%r instead of %r' % (g, w)
    if want is None:
        return None if got is None else '%r instead of None' % (got,)
    w = np.asarray(want)
    if isinstance(got, (list, tuple, str, type(None))):
        return '%r instead of an array' % type(got)
    g = np.asarray(got)
    if g.shape != w.shape:
        return 'shape %r instead of %r' % (g.shape, w.shape)
    if (g.dtype.kind == 'c') != (w.dtype.kind == 'c'):
        return 'dtype %s instead of %s' % (g.dtype, w.dtype)
    if w.dtype.kind in 'fc':
        wide = complex if w.dtype.kind == 'c' else float
        narrow = np.complex64 if w.dtype.kind == 'c' else F32
        if tol is None:
            bad = ~(g.astype(narrow) == w.astype(narrow))
        else:
            bad = ~(np.abs(g.astype(wide) - w.astype(wide)) <= tol)
    else:
        bad = ~(g == w)
    if np.any(bad):
        i = np.argwhere(bad)[0].tolist()
        return 'at %s: %r instead of %r' % (i, g[tuple(i)], w[tuple(i)])
    return None


def size(v):
    if v is None:
        return 0
    if isinstance(v, (list, tuple)):
        return sum(size(x) for x in v)
    if isinstance(v, dict):
        return len(v)
    return np.asarray(v).size


def judge(exp, outcome, value):
    """None when the outcome ('ok' or the class of the error) fits"""
    if exp.get('skip'):
        return None
    if exp.get('empty'):
        if outcome == 'ok' and size(value):
            return 'returned %d values although nothing is selected or recorded' % size(value)
        return None
    r = exp.get('raises')
    if r:
        if outcome == 'ok':
            return 'returned a value instead of raising %s' % (r if r == 'any' else ' or '.join(r))
        if r != 'any' and outcome not in r:
            return 'raised %s instead of %s' % (outcome, ' or '.join(r))
        return None
    if outcome != 'ok':
        return 'raised %s' % outcome
    if exp.get('rows'):
        names, want = exp['rows'], exp['value']
        g = np.asarray(value)
        if g.shape != (len(want),) or g.dtype.names is None:
            return 'shape %r %s instead of %d rows' % (g.shape, g.dtype, len(want))
        for i, row in enumerate(want):
            for n, w in zip(names, row):
                if n not in g.dtype.names:
                    return 'no column %s' % n
                d = same(g[i][n], np.array(w, F32) if not isinstance(w, int) else np.array(w))
                if d:
                    return 'row %d, %s: %s' % (i, n, d)
        return None
    return same(value, exp['value'], exp.get('tol'))
