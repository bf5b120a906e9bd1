"""Call histories of the VTU writer and the document they must produce."""
import base64
import re
import struct
import xml.etree.ElementTree as ET

import numpy as np

from .engine import Violation

GOOD = ['i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8', '>i2', '>i4', '>u8', '>f4', '>f8']
BAD = ['c8', 'c16', '?', 'f2', 'S3', 'O', 'M8[s]']
NAMES = ['displacement', 'a', 'von Mises', 'a&b', '<tag>', 'say "x"', "it's", 'x > y', '\u03c3xx', 'tab\there',
         'line\nbreak', '&amp;', ']]>', '', '%d', '{}', 'a' * 300, 7]
ILLEGAL = ['a\x00b', '\x1b', '\ud800', 'x\ufffe']
VTKTYPE = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}
NNODES = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
# position of the element's nodes in the order VTK wants (corners, then sides)
CON = {23: [0, 2, 1], 28: [0, 2, 4, 6, 1, 3, 5, 7]}
RES = {26: [0, 2, 4, 1, 3, 5]}
KIND = {'i': 'Int', 'u': 'UInt', 'f': 'Float'}


def gen_ops(rng, n, bad=True, big=False):
    out = []
    for _ in range(n):
        k = rng.random()
        op = dict(seed=rng.randrange(1 << 30), dtype=rng.choice(GOOD), layout=rng.choice('CCFSR'),
                  ndim=rng.choice([1, 2, 2]), name=rng.randrange(len(NAMES)), comp=rng.choice([0, 0, 1, 2]))
        if k < .22:
            op.update(op='piece', n=rng.choice([1, 2, 5, 9]) if not big or rng.random() < .5 else
                      rng.choice([200, 700, 2500]))
        elif k < .36:
            op['op'] = 'point'
        elif k < .48:
            op['op'] = 'cell'
        elif k < .72:
            op['op'] = 'data'
        elif k < .86:
            op['op'] = 'cellpoints'
        elif bad:
            op['op'] = rng.choice(['badpiece', 'badpiece', 'baddata', 'baddata', 'badname', 'badpoints', 'empty'])
            op['bad'] = rng.randrange(len(BAD) + 3)
        else:
            op['op'] = 'data'
        out.append(op)
    return out


class Piece(object):
    def __init__(self, points, cells):
        self.points, self.cells = points, cells
        self.sections = []          # (tag, [(name, compnames, array)])


def layout(a, how):
    """same values in another memory layout"""
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'S':      # strided
        b = np.empty((2 * len(a),) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if how == 'R':      # read only
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def values(r, shape, dtype):
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        a = r.uniform(-1e3, 1e3, shape)
        if r.random_sample() < .2 and a.size:
            a.flat[0] = [np.nan, np.inf, -0., 1e-30][r.randint(4)]
    elif dt.kind == 'u':
        a = r.randint(0, 120, shape)
    elif dt.kind == 'i':
        a = r.randint(-120, 120, shape)
    else:
        a = r.randint(0, 2, shape)
    return a.astype(dt)


def mesh(op):
    """points and cells of a piece, as the geometry queries return them"""
    r = np.random.RandomState(op['seed'] % (1 << 31))
    n = op['n']
    typ = r.choice([[15, 24, 25], [23, 26, 28], list(VTKTYPE)][r.randint(3)], n)
    npts = max(8, n)
    con = np.concatenate([r.choice(npts, NNODES[t], replace=False) for t in typ])
    off = np.cumsum([NNODES[t] for t in typ])
    ci = ['i8', 'i4', 'u4', '>i4'][r.randint(4)]
    points = values(r, (npts, 3), ['f4', 'f8', '>f4'][r.randint(3)])
    if op.get('salt'):
        con = (con + op['salt']) % npts
        points = points - op['salt']
    return (layout(points, op['layout']),
            (layout(con.astype(ci), op['layout'] if op['seed'] % 3 else 'C'), off.astype(['i8', 'i4'][r.randint(2)]),
             typ.astype(['i4', 'i8'][r.randint(2)])))


class History(object):
    """plays operations on a writer and keeps the document to expect"""

    def __init__(self, ctx, writer, path):
        self.ctx, self.w, self.path = ctx, writer, path
        self.pieces = []
        self.section = None
        self.refused = 0
        self.args = []          # arrays given, with a copy of what they held

    def give(self, *arrays):
        for a in arrays:
            self.args.append((a, a.copy()))

    def do(self, op):
        """-> (callable, commit or None when it must be refused)"""
        o = op['op']
        w = self.w
        r = np.random.RandomState(op['seed'] % (1 << 31))
        if o == 'piece':
            pts, cells = mesh(op)
            self.give(pts, *cells)
            keep = Piece(pts.copy(), [c.copy() for c in cells])

            def commit():
                self.pieces.append(keep)
                self.section = None
            return lambda: w.new_piece(pts, cells), commit
        if o == 'empty':    # a piece without cells: refused as a whole, or written as one
            pts, cells = mesh(dict(op, n=2))
            cells = tuple(c[:0] for c in cells)
            if op['bad'] % 3 == 0:
                pts = pts[:0]
            self.give(pts, *cells)
            keep = Piece(pts.copy(), [c.copy() for c in cells])

            def commit():
                self.pieces.append(keep)
                self.section = None
            commit.optional = True
            return lambda: w.new_piece(pts, cells), commit
        if o == 'badpiece':
            pts, cells = mesh(dict(op, n=3))
            con, off, typ = cells
            k = op['bad'] % 6
            if k == 0:
                typ = typ.copy()
                typ[r.randint(len(typ))] = [16, 18, 99, 0][r.randint(4)]
            elif k == 1:
                pts = pts.astype('c8')
            elif k == 2:
                pts = pts.reshape(len(pts), 3, 1)
            elif k == 3:
                con = con.astype('c8')
            elif k == 4:
                off = off.astype('O')
            else:
                con, off, typ = con[:0], off[:0], np.array([77])
            return lambda: w.new_piece(pts, (con, off, typ)), None
        if o == 'badpoints':
            pts, cells = mesh(dict(op, n=2))
            return lambda: w.new_piece(None, cells), None
        if o in ('point', 'cell'):
            tag = 'PointData' if o == 'point' else 'CellData'
            if self.pieces and any(t == tag for t, _ in self.pieces[-1].sections):
                return None, None       # at most one of each in a piece

            def commit():
                self.section = (tag, [])
                self.pieces[-1].sections.append(self.section)
            return (w.start_pointdata if o == 'point' else w.start_celldata), (commit if self.pieces else None)
        # data
        ncell = len(self.pieces[-1].cells[1]) if self.pieces else 3
        npts = len(self.pieces[-1].points) if self.pieces else 3
        name = NAMES[op['name']]
        if o == 'cellpoints':
            rows = len(self.pieces[-1].cells[0]) if self.pieces else 3
        else:
            rows = npts if self.section and self.section[0] == 'PointData' else ncell
        dtype = op['dtype']
        shape = (rows,) if op['ndim'] == 1 else (rows, r.randint(1, 7))
        ok = self.section is not None
        if o == 'baddata':
            ok = False
            if op['bad'] < len(BAD):
                dtype = BAD[op['bad']]
            elif op['bad'] == len(BAD):
                shape = ()
            else:
                shape = (rows, 2, 3)
        if o == 'badname':
            ok = False
            name = ILLEGAL[op['bad'] % len(ILLEGAL)]
        arr = values(r, shape, dtype)
        if op.get('salt') and arr.dtype.kind in 'iuf' and shape:
            arr = (arr + arr.dtype.type(op['salt'])).astype(arr.dtype)
        if shape:
            arr = layout(arr, op['layout'])
        if o != 'baddata':
            self.give(arr)
        comps = None
        if op['comp'] and len(shape) == 2:
            comps = [str(NAMES[(op['name'] + i) % (len(NAMES) - 1)]) for i in range(shape[1])]
            if op['comp'] == 2:
                comps = tuple(comps)
        keep = arr.copy() if shape else None
        if o == 'cellpoints':
            keep = reorder(keep, self.pieces[-1].cells, RES) if self.pieces else None

        def commit():
            self.section[1].append((str(name), comps, keep))
        fn = w.add_data_cellpoints if o == 'cellpoints' else w.add_data
        if o == 'cellpoints' and op['seed'] % 2 and self.pieces and ok is False:
            pass
        if comps is None:
            return lambda: fn(arr, name), (commit if ok else None)
        return lambda: fn(arr, name, comps), (commit if ok else None)


def reorder(arr, cells, table):
    con, off, typ = cells
    out = []
    start = 0
    for stop, t in zip(off, typ):
        part = list(range(start, stop))
        out += [part[i] for i in table.get(int(t), range(len(part)))]
        start = stop
    return arr[out]


# ------------------------------------------------------- reading it back ---

def decode(text, dtype):
    raw = base64.b64decode(text.strip(), validate=True)
    n = struct.unpack('<Q', raw[:8])[0]
    if len(raw) != 8 + n:
        raise Violation('array-size', 'the header of an array says %d bytes, there are %d' % (n, len(raw) - 8))
    return np.frombuffer(raw[8:], dtype)


def vtk_dtype(name):
    m = re.match(r'^(Int|UInt|Float)(8|16|32|64)$', name)
    if not m:
        raise Violation('array-type', 'array type %r' % name)
    return np.dtype('<%s%d' % ({'Int': 'i', 'UInt': 'u', 'Float': 'f'}[m.group(1)], int(m.group(2)) // 8))


def read_array(el, what, name=None, want=None, comps=None):
    if el.tag != 'DataArray':
        raise Violation('structure', '%s: element %s instead of an array' % (what, el.tag))
    if el.get('format') != 'binary':
        raise Violation('structure', '%s: format %r' % (what, el.get('format')))
    if name is not None and el.get('Name') != name:
        raise Violation('array-name', '%s: array named %r instead of %r' % (what, el.get('Name'), name))
    dt = vtk_dtype(el.get('type') or '')
    try:
        a = decode(el.text or '', dt)
    except (ValueError, struct.error) as e:
        raise Violation('array-data', '%s: array %r cannot be decoded: %s' % (what, name, e))
    w = np.asarray(want)
    nc = w.shape[1] if w.ndim == 2 else 1
    if int(el.get('NumberOfComponents', 1)) != nc:
        raise Violation('array-shape', '%s: array %r has %s components instead of %d'
                        % (what, name, el.get('NumberOfComponents'), nc))
    if a.size != w.size:
        raise Violation('array-shape', '%s: array %r has %d values instead of %d' % (what, name, a.size, w.size))
    a = a.reshape(w.shape)
    if not np.array_equal(a, w, equal_nan=w.dtype.kind == 'f'):
        i = tuple(np.argwhere(~((a == w) | ((a != a) & (w != w))))[0])
        raise Violation('array-value', '%s: array %r has %r at %s instead of %r' % (what, name, a[i], i, w[i]))
    if want is not None and w.dtype.kind != dt.kind and name not in ('types',):
        raise Violation('array-type', '%s: array %r is of type %s, given was %s' % (what, name, dt, w.dtype))
    got = {k: v for k, v in el.attrib.items() if k.startswith('ComponentName')}
    exp = {'ComponentName%d' % i: c for i, c in enumerate(comps or ())}
    if got != exp:
        raise Violation('array-comps', '%s: array %r: %r instead of %r' % (what, name, got, exp))


def check_document(data, pieces):
    """the bytes of a closed file against the pieces given"""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation('not-xml', 'the document is not well-formed: %s' % e)
    if root.tag != 'VTKFile' or root.get('type') != 'UnstructuredGrid' or root.get('byte_order') != 'LittleEndian' \
            or root.get('header_type') != 'UInt64':
        raise Violation('structure', 'root %s %s' % (root.tag, root.attrib))
    grids = list(root)
    if [g.tag for g in grids] != ['UnstructuredGrid']:
        raise Violation('structure', 'below the root: %s' % [g.tag for g in grids])
    got = list(grids[0])
    if [g.tag for g in got] != ['Piece'] * len(pieces):
        raise Violation('structure', 'pieces: %s instead of %d' % ([g.tag for g in got], len(pieces)))
    for n, (el, p) in enumerate(zip(got, pieces)):
        what = 'piece %d' % n
        con, off, typ = p.cells
        if el.get('NumberOfPoints') != str(len(p.points)) or el.get('NumberOfCells') != str(len(off)):
            raise Violation('structure', '%s: %s instead of %d points, %d cells'
                            % (what, el.attrib, len(p.points), len(off)))
        tags = ['Points', 'Cells'] + [t for t, _ in p.sections]
        if [x.tag for x in el] != tags:
            raise Violation('structure', '%s: %s instead of %s' % (what, [x.tag for x in el], tags))
        kids = list(el)
        if len(kids[0]) != 1 or len(kids[1]) != 3:
            raise Violation('structure', '%s: %d arrays of points, %d of cells' % (what, len(kids[0]), len(kids[1])))
        read_array(kids[0][0], what, None, p.points)
        read_array(kids[1][0], what, 'connectivity', reorder(con, p.cells, CON))
        read_array(kids[1][1], what, 'offsets', off)
        read_array(kids[1][2], what, 'types', np.array([VTKTYPE[int(t)] for t in typ]))
        for x, (tag, arrays) in zip(kids[2:], p.sections):
            if len(x) != len(arrays):
                raise Violation('structure', '%s: %d arrays in %s instead of %d' % (what, len(x), tag, len(arrays)))
            for a, (name, comps, arr) in zip(x, arrays):
                read_array(a, '%s %s' % (what, tag), name, arr, comps)
