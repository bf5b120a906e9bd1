"""Synthetic Sesam models and their encodings: the reference side.

A model is built from a small JSON spec (kind, seed, size, feature list).  It
yields (a) the logical records of every interface file, (b) what a conversion
must store for each superelement and (c) the semantic content queries are
checked against.  Nothing here imports freesif.
"""
import random
import struct
from collections import OrderedDict

import numpy as np

F32 = np.float32

ELNODES = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
BEAMS = (15, 23)
SHELLS = (24, 25, 26, 28)


# --------------------------------------------------------------- records ---

class Rec(object):
    """One logical record: name, floats, encoding type, text lines.

    typ 1: input record (continuation lines of 4, blanks in column 1-8)
    typ 2: results record with its length first (long continuation records)
    text:  lines of a text record / td: unindented lines when unformatted
    """
    __slots__ = ('name', 'f', 'typ', 'lines', 'neg', 'breaks')

    def __init__(self, name, f, typ=1, lines=None, neg=None):
        self.name, self.f, self.typ = name, list(f), typ
        self.lines, self.neg = lines, neg


def fmt16(x):
    return '%16.8E' % float(F32(x))


def encode_formatted(recs, eol='\n', pad=True, final_eol=True):
    out = []
    spans = []          # (start, end) byte span of every logical record
    pos = 0

    def emit(line):
        nonlocal pos
        out.append(line + eol)
        pos += len(line) + len(eol)

    for r in recs:
        start = pos
        f = list(r.f)
        if r.typ == 'neg5':
            emit('%-8s' % r.name + ''.join(fmt16(x) for x in f[:4]))
            emit(' ' * 8 + ''.join(fmt16(x) for x in f[4:5]))
            spans.append((start, pos))
            continue
        head = f[:4] + [0.] * (4 - len(f[:4]))
        emit('%-8s' % r.name + ''.join(fmt16(x) for x in head))
        for i in range(4, len(f), 4):
            part = f[i:i + 4]
            if pad:
                part = part + [0.] * (4 - len(part))
            emit(' ' * 8 + ''.join(fmt16(x) for x in part))
        for ln in r.lines or ():
            emit(' ' * 8 + ln)
        spans.append((start, pos))
    data = ''.join(out)
    if not final_eol and data.endswith(eol):
        data = data[:-len(eol)]
    return data.encode('ascii'), spans


def encode_unformatted(recs, split=None, end=True):
    out = bytearray(b'K')
    spans = []

    def phys(data, more=False):
        n = 129 if more else len(data)
        out.append(n)
        out.extend(data)
        out.append(n)

    for r in recs:
        start = len(out)
        f = [float(F32(x)) for x in r.f]
        head = f[:4] + [0.] * (4 - len(f[:4]))
        name = ('%-8s' % r.name).encode('ascii')
        phys(name + struct.pack('<4f', *head))
        rest = f[4:]
        if r.typ == 'neg5':
            phys(struct.pack('<%df' % len(rest), *rest))
        elif r.typ == 1:
            for i in range(0, len(rest), 4):
                part = rest[i:i + 4]
                part = part + [0.] * (4 - len(part))
                phys(b' ' * 8 + struct.pack('<4f', *part))
        elif rest:
            k = split or 32
            i = 0
            while i < len(rest):
                part = rest[i:i + k]
                i += k
                phys(struct.pack('<%df' % len(part), *part),
                     more=(k == 32 and len(part) == 32 and i < len(rest)))
        for ln in r.lines or ():
            if r.typ == 'text':
                phys((' ' * 8 + ln).encode('ascii'))
            else:
                phys(ln.encode('ascii'))
        spans.append((start, len(out)))
    last = recs[-1]
    if end or last.f[0] != 0.:
        # the end mark may be left out only after an IEND that ends the file
        out.append(0x82)
    return bytes(out), spans


# ------------------------------------------------------------ expectation ---

class Store(object):
    """What the conversion of one file must store in one group."""

    def __init__(self, path, attrs):
        self.path = path
        self.attrs = attrs
        self.recs = OrderedDict()   # NAME -> (rows, arrays)

    def add(self, name, row, **arrays):
        rows, arrs = self.recs.setdefault(name, ([], OrderedDict()))
        rows.append(row)
        for k, v in arrays.items():
            arrs.setdefault(k, []).append(list(v) if v is not None else [])

    def names(self):
        return list(self.recs)


class Builder(object):
    """Collects runs of records of one file plus the expectation."""

    def __init__(self, rng, store, feats):
        self.rng, self.store, self.feats = rng, store, feats
        self.runs = []              # list of (name, [Rec])

    def run(self, name):
        self.cur = []
        self.runs.append((name, self.cur))
        return self.cur

    def rec(self, name, floats, typ=1, row=None, lines=None, **arrays):
        self.cur.append(Rec(name, floats, typ, lines))
        if row is not None:
            self.store.add(name, row, **arrays)


class Dom(object):
    """Random values; other ones of the same model with another salt."""
    salt = 0

    def __init__(self, rng):
        self.r = rng

    def val(self):
        v = self._val()
        return float(F32(-v * (1 + self.salt / 8.))) if self.salt else v

    def _val(self):
        r = self.r
        k = r.random()
        if k < .15:
            return float(r.choice([0., 1., -1., .5, 2., 100., -3.]))
        if k < .75:
            return float(F32(r.uniform(-100, 100)))
        if k < .9:
            return float(F32(r.uniform(-1, 1) * 10. ** r.randint(-12, 12)))
        return float(F32(r.uniform(-9, 9) * 10. ** r.choice([-30, -20, 20, 30])))

    def vals(self, n):
        return [self.val() for _ in range(n)]

    def pos(self):
        return float(F32(self.r.uniform(.001, 10) * (1 + self.salt / 8.)))

    def integer(self, hi=99):
        return self.r.randint(0, hi)


# ------------------------------------------------------- structural model ---

NAMECH = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-.'


def rname(rng, maxlen=12):
    n = rng.choice([1, 3, 7, 8, 9, maxlen, maxlen])
    s = ''.join(rng.choice(NAMECH) for _ in range(n))
    if rng.random() < .15 and n > 3:
        s = s[0] + ' ' + s[2:]
    return s


def rtext(rng, n):
    return ''.join(rng.choice(NAMECH + '   :') for _ in range(n))


SECTIONS = OrderedDict([
    # name -> (required float/int column kinds, optional columns)
    ('GBARM', (['geono', 'hz', 'bt', 'bb', 'sfy', 'sfz'], ['nloby', 'nlobz'])),
    ('GBOX', (['geono', 'hz', 'ty', 't_b', 'tt', 'by', 'sfy', 'sfz'], ['nloby', 'nlobz'])),
    ('GCHAN', (['geono', 'hz', 'ty', 'by', 'tz', 'sfy', 'sfz', 'empty', 'k'], ['nloby', 'nlobz'])),
    ('GCHANR', (['geono', 'hz', 'ty', 'by', 'tz', 'sfy', 'sfz', 'empty', 'k', 'r'], ['nloby', 'nlobz'])),
    ('GDOBO', (['geono', 'hz', 'ty', 'by', 'tt', 't_b', 'sfy', 'sfz'], ['nloby', 'nlobz'])),
    ('GIORH', (['geono', 'hz', 'ty', 'bt', 'tt', 'bb', 't_b', 'sfy', 'sfz'], ['nlobyt', 'nlobyb', 'nlobz'])),
    ('GIORHR', (['geono', 'hz', 'ty', 'bt', 'tt', 'bb', 't_b', 'sfy', 'sfz', 'rt', 'rb'],
                ['nlobyt', 'nlobyb', 'nlobz'])),
    ('GLSEC', (['geono', 'hz', 'ty', 'by', 'tz', 'sfy', 'sfz', 'k'], ['nloby', 'nlobz'])),
    ('GLSECR', (['geono', 'hz', 'ty', 'by', 'tz', 'sfy', 'sfz', 'k', 'r'], ['nloby', 'nlobz'])),
    ('GPIPE', (['geono', 'di', 'dy', 't', 'sfy', 'sfz'], ['ncir', 'nrad'])),
    ('GUSYI', (['geono', 'hz', 'ty', 'bt', 'b1', 'tt', 'bb', 'b2', 't_b', 'sfy', 'sfz'],
               ['nlobyt', 'nlobyb', 'nlobz'])),
])
INTCOLS = {'geono', 'nloby', 'nlobz', 'nlobyt', 'nlobyb', 'ncir', 'nrad', 'empty', 'k'}

GBEAMG_COLS = ['geono', 'void', 'area', 'ix', 'iy', 'iz', 'iyz', 'wxmin', 'wymin',
               'wzmin', 'shary', 'sharz', 'shceny', 'shcenz', 'sy', 'sz']

TDNAMES = ['TDMATER', 'TDSECT', 'TDSUPNAM', 'TSLAYER', 'TDSCONC', 'TDLOAD',
           'TDBODNAM', 'TDRSNAM', 'TDRESREF']

# record types the library does not store (all are in Sesam's format)
UNSUP1 = ['BNLOAD', 'BELOAD1', 'BSELL', 'BNTRCOS', 'BNMASS', 'MGSPRNG', 'MTRMEL',
          'BNDISPL', 'BEUVLO', 'GSLAYER']
UNSUP2 = ['RSUMLOAD', 'RSUMREAC', 'RDNODREA', 'RDNODBOC', 'RVNODREA', 'RSUMMASS',
          'HSUPSTAT', 'RDMLFACT', 'RDSERIES']
UNSUPW = ['W2FLUDIF', 'W2FLUSUM', 'WGRESPON', 'WSCATTER']


def add_text(b, name, rng):
    b.run(name)
    for _ in range(rng.randint(1, 2)):
        n = rng.randint(1, 4)
        lines = [('%-64s' % rtext(rng, 64))[:64] for _ in range(n)]
        typ, sub = rng.randint(1, 3), rng.randint(0, 2)
        b.rec(name, [typ, sub, n, 72], 'text',
              dict(type=typ, subtype=sub, nrecs=n, nbyte=72), lines,
              recs=[' ' * 8 + ln for ln in lines])


def add_td(b, name, rng, items=None):
    """items: list of (idno, name)"""
    b.run(name)
    if items is None:
        items = [(i + 1, rname(rng, 20)) for i in range(rng.randint(1, 4))]
    for idno, nm in items:
        ntxt = rng.choice([0, 0, 0, 1, 2])
        lt = rng.choice([5, 12, 40, 64])
        text = [('%-*s' % (lt, 'x' + rtext(rng, lt - 1)))[:lt] for _ in range(ntxt)]
        # a name may take more than one line
        k = len(nm) // 2
        lines = [nm[:k], nm[k:]] if nm and len(nm) % 4 == 0 and nm[k - 1] != ' ' != nm[k] else [nm] if nm else []
        codnam = 100 * len(lines) + max(map(len, lines), default=0)
        codtxt = 100 * ntxt + lt if ntxt else 0
        b.rec(name, [21, idno, codnam, codtxt], 'td',
              dict(nfield=21, idno=idno, codnam=codnam, codtxt=codtxt, name=nm),
              lines + text, text=[t.strip() for t in text])


def add_unsupported(b, names, rng, d):
    name = rng.choice(names)
    b.run(name)
    for _ in range(rng.randint(1, 3)):
        if name in UNSUP1:
            n = rng.choice([4, 4, 6, 8, 12, 17])
            f = [rng.randint(1, 20), rng.randint(1, 9)] + [d.val() for _ in range(n - 2)]
            if n > 4 and n % 4:
                f += [0.] * (4 - n % 4)
            b.rec(name, f, 1)
        else:
            n = rng.choice([4, 5, 8, 12, 36, 37, 42, 70])
            b.rec(name, [n, rng.randint(1, 9)] + [d.val() for _ in range(n - 2)], 2)


class Struct(object):
    """One first-level structural superelement: geometry and results."""

    def __init__(self, rng, n, feats, seltyp=1):
        self.rng, self.feats, self.seltyp = rng, feats, seltyp
        d = Dom(rng)
        self.nnodes = max(8, n)
        ext = rng.sample(range(1, 9 * self.nnodes + 10), self.nnodes)
        self.nodex = ext if 'extnum' in feats else list(range(1, self.nnodes + 1))
        self.coords = [[d.val() if rng.random() < .1 else float(F32(rng.uniform(-50, 50) * (1 + d.salt / 8.)))
                        for _ in range(3)] for _ in range(self.nnodes)]
        if 'second' in feats:
            pool = [23, 26, 28]
        else:
            pool = [15, 24, 25]
        if 'nobeam' in feats:
            pool = [t for t in pool if t not in BEAMS]
        if 'noshell' in feats:
            pool = [t for t in pool if t not in SHELLS]
        if 'springs' in feats:
            pool = pool + [16, 18]
        nel = max(2, rng.randint(max(2, n // 2), n + 2))
        self.elems = []         # (elnox, eltyp, con 1-based internal)
        extel = rng.sample(range(1, 9 * nel + 10), nel)
        for i in range(nel):
            t = rng.choice(pool)
            con = rng.sample(range(1, self.nnodes + 1), ELNODES[t])
            self.elems.append((extel[i] if 'extnum' in feats else i + 1, t, con))
        self.geono = []
        nb = [i for i, e in enumerate(self.elems) if e[1] in BEAMS]
        nsec = rng.randint(1, 3)
        nth = rng.randint(1, 3)
        self.beamsecs = OrderedDict((g, d.vals(15)) for g in rng.sample(range(1, 20), nsec))
        self.thick = OrderedDict((g, d.pos()) for g in rng.sample(range(21, 40), nth))
        for _, t, con in self.elems:
            if t in BEAMS:
                self.geono.append(rng.choice(list(self.beamsecs)))
            elif t in SHELLS:
                self.geono.append(rng.choice(list(self.thick)))
            else:
                self.geono.append(0)
        # sets
        self.sets = OrderedDict()       # name -> (isref, [parts of (istype, members)])
        if 'sets' in feats:
            names = []
            for i in range(rng.randint(1, 4)):
                nm = rname(rng, 16)
                while nm in names or not nm.strip() == nm:
                    nm = rname(rng, 16)
                names.append(nm)
            for nm in names:
                parts = []
                for _ in range(rng.randint(1, 3)):
                    k = rng.randint(1, nel)
                    parts.append((2, rng.sample(range(1, nel + 1), k)))
                if rng.random() < .4:
                    parts.insert(rng.randint(0, len(parts)),
                                 (1, rng.sample(range(1, self.nnodes + 1),
                                                rng.randint(1, self.nnodes))))
                self.sets[nm] = parts
            refs = rng.sample(range(1, 50), len(names))
            self.setrefs = dict(zip(names, refs))
        self.loads = OrderedDict()
        if 'loads' in feats:
            for i in rng.sample(range(1, 30), rng.randint(1, 4)):
                self.loads[i] = rname(rng, 16)
        self.cases = []                 # (ires, run, ieres, icompl)
        self.noderes = {}
        self.forces = {}
        self.stress = {}

    # ---- results -----------------------------------------------------------
    def make_results(self, rng, nruns=1, ncases=2, cplx=0):
        ires = 0
        for run in range(1, nruns + 1):
            ext = sorted(rng.sample(range(1, 4 * ncases + 2), ncases))
            for e in ext:
                ires += 1
                ic = 1 if cplx == 1 or (cplx == 2 and rng.random() < .5) else 0
                self.cases.append((ires, run, e, ic))
        kinds = [k for k in ('DIS', 'VEL', 'ACC') if 'rv' + k.lower() in self.feats]
        d = Dom(rng)
        self.reskinds = kinds
        for k in kinds:
            for c in self.cases:
                m = 2 if c[3] else 1
                self.noderes[k, c[0]] = [d.vals(6 * m) for _ in range(self.nnodes)]
        for c in self.cases:
            m = 2 if c[3] else 1
            for i, (_, t, _) in enumerate(self.elems):
                if t in BEAMS:
                    nsp = 3 if t == 15 else 2
                    self.forces[c[0], i] = d.vals(nsp * 6 * m)
                elif t in SHELLS:
                    nsp, nc = self.spc(t)
                    self.stress[c[0], i] = d.vals(nsp * nc * m)

    @staticmethod
    def spc(t):
        return {24: (10, 3), 25: (8, 3), 26: (6, 5), 28: (8, 5)}[t]

    # ---- records -----------------------------------------------------------
    def build(self, b, results=False):
        rng, feats = self.rng, self.feats
        d = Dom(rng)
        b.run('GNODE')
        for i in range(self.nnodes):
            v = [self.nodex[i], i + 1, 6, 123456]
            b.rec('GNODE', v, 1, dict(nodex=v[0], nodeno=v[1], ndof=6, odof=123456))
        b.run('GCOORD')
        for i, c in enumerate(self.coords):
            b.rec('GCOORD', [i + 1] + c, 1,
                  dict(nodeno=i + 1, xcoord=c[0], ycoord=c[1], zcoord=c[2]))
        b.run('GELMNT1')
        for i, (x, t, con) in enumerate(self.elems):
            b.rec('GELMNT1', [x, i + 1, t, i % 3] + con, 1,
                  dict(elnox=x, elno=i + 1, eltyp=t, eltyad=i % 3), nodin=con)
        b.run('GELREF1')
        for i, (x, t, con) in enumerate(self.elems):
            nn = len(con)
            h = [i + 1, rng.randint(1, 5), rng.randint(0, 3), rng.randint(0, 3)]
            h2 = [rng.randint(0, 9) for _ in range(4)]
            refs, lists = [], []
            for which in range(4):
                if which == 0:
                    many = t in SHELLS and 'geolist' in feats and rng.random() < .3
                    v = -1 if many else self.geono[i]
                    if many:
                        self.geono[i] = -1
                else:
                    many = rng.random() < .3
                    v = -1 if many else rng.randint(0, 9)
                refs.append(v)
                lists.append([rng.randint(1, 99) for _ in range(nn)] if many else [])
            row = dict(zip(['elno', 'matno', 'addno', 'intno', 'mintno', 'strano',
                            'streno', 'strepono', 'geono', 'fixno', 'eccno', 'transno'],
                           h + h2 + refs))
            b.rec('GELREF1', h + h2 + refs + sum(lists, []), 1, row,
                  geono=lists[0], fixno=lists[1], eccno=lists[2], transno=lists[3])
        if any(t in SHELLS for _, t, _ in self.elems):
            b.run('GELTH')
            for g, th in self.thick.items():
                ni = rng.randint(0, 3)
                b.rec('GELTH', [g, th, ni], 1, dict(geono=g, th=th, nint=ni))
        if any(t in BEAMS for _, t, _ in self.elems):
            b.run('GBEAMG')
            for g, v in self.beamsecs.items():
                b.rec('GBEAMG', [g] + v, 1, dict(zip(GBEAMG_COLS, [g] + v)))
        if 'sections' in feats:
            for name in rng.sample(list(SECTIONS), rng.randint(1, 4)):
                req, opt = SECTIONS[name]
                b.run(name)
                for _ in range(rng.randint(1, 3)):
                    vals = [rng.randint(1, 99) if c in INTCOLS else
                            (rng.choice([1., 1., .85, 1.25, .5]) if c in ('sfy', 'sfz') else d.pos())
                            for c in req]
                    # the optional part is present or not, per record; omitted
                    # values come back as zero
                    ov = [rng.randint(1, 9) for _ in opt] if rng.random() < .6 else []
                    row = dict(zip(req + opt, vals + (ov or [0] * len(opt))))
                    b.rec(name, vals + ov, 1, row)
        if 'mat' in feats:
            b.run('MISOSEL')
            for i in range(rng.randint(1, 3)):
                v = [d.pos() * 1e5, .3, d.pos(), d.pos() * 1e-5, d.pos() * 1e-5]
                v = [float(F32(x)) for x in v]
                b.rec('MISOSEL', [i + 1] + v + [1., .0005], 1,
                      dict(zip(['matno', 'young', 'poiss', 'rho', 'damp', 'alpha'], [i + 1] + v)))
        if 'ecc' in feats:
            for nm, cols in (('GECCEN', ['eccno', 'ex', 'ey', 'ez']),
                             ('GUNIVEC', ['transno', 'unix', 'uniy', 'uniz'])):
                b.run(nm)
                for i in range(rng.randint(1, 5)):
                    v = [i + 1] + d.vals(3)
                    b.rec(nm, v, 1, dict(zip(cols, v)))
        if 'bc' in feats:
            b.run('BNBCD')
            for _ in range(rng.randint(1, 4)):
                nd = rng.choice([1, 2, 3, 6, 6])
                fx = [rng.randint(0, 4) for _ in range(nd)]
                no = rng.randint(1, self.nnodes)
                b.rec('BNBCD', [no, nd] + fx, 1, dict(nodeno=no, ndof=nd), fix=fx)
            b.run('BLDEP')
            for _ in range(rng.randint(1, 3)):
                nd = rng.randint(1, 5)
                deps = [[rng.randint(1, 6), rng.randint(1, 6), d.val()] for _ in range(nd)]
                h = [rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 6), nd]
                b.rec('BLDEP', h + sum(([*x, 0.] for x in deps), []), 1,
                      dict(zip(['nodeno', 'cnod', 'ndof', 'ndep'], h)), deps=deps)
        if 'beuslo' in feats:
            b.run('BEUSLO')
            for _ in range(rng.randint(1, 4)):
                cx = rng.randint(0, 1)
                nd = rng.randint(1, 9)
                h = [rng.randint(1, 9), rng.randint(1, 4), cx, rng.randint(0, 2),
                     rng.randint(1, len(self.elems)), nd, rng.randint(0, 5), rng.randint(0, 2)]
                rl, il = d.vals(nd), d.vals(nd) if cx else []
                b.rec('BEUSLO', h + rl + il, 1,
                      dict(zip(['llc', 'lotyp', 'complx', 'layer', 'elno', 'ndof', 'intno', 'side'], h)),
                      rload=rl, iload=il)
            b.run('BGRAV')
            g = d.vals(3)
            b.rec('BGRAV', [1, 0, 0, 2] + g, 1,
                  dict(llc=1, empty1=0., empty2=0., opt=2, gx=g[0], gy=g[1], gz=g[2]))
            b.run('BRIGAC')
            for _ in range(rng.randint(1, 3)):
                cx = rng.randint(0, 1)
                xyz, ra, ia = d.vals(3), d.vals(6), d.vals(6) if cx else [0.] * 6
                row = dict(llc=3, empty1=0., complx=cx, empty2=0., xcoord=xyz[0],
                           ycoord=xyz[1], zcoord=xyz[2], empty3=0.)
                for i in range(6):
                    row['raccl%d' % (i + 1)] = ra[i]
                    row['iaccl%d' % (i + 1)] = ia[i]
                b.rec('BRIGAC', [3, 0., cx, 0.] + xyz + [0.] + ra + (ia if cx else []), 1, row)
        if self.sets:
            b.run('GSETMEMB')
            for nm, parts in self.sets.items():
                for k, (ist, mem) in enumerate(parts):
                    nf = 5 + len(mem)
                    b.rec('GSETMEMB', [nf, self.setrefs[nm], k + 1, ist, 0] + mem, 2,
                          dict(nfield=nf, isref=self.setrefs[nm], index=k + 1, istype=ist, isorig=0),
                          irmemb=mem)
            add_td(b, 'TDSETNAM', rng, [(self.setrefs[nm], nm) for nm in self.sets])
        if self.loads:
            add_td(b, 'TDLOAD', rng, list(self.loads.items()))
        if 'concepts' in feats:
            b.run('SCONCEPT')
            for i in range(rng.randint(1, 4)):
                if rng.random() < .6:
                    np_, nj = rng.randint(0, 5), rng.randint(0, 5)
                    ip = [rng.randint(1, 50) for _ in range(np_)]
                    ij = [rng.randint(1, 50) for _ in range(nj)]
                    nf = 7 + np_ + nj
                    v = [nf, i + 1, 7, 0, 0, np_, nj]
                    b.rec('SCONCEPT', v + ip + ij, 2,
                          dict(zip(['nfield', 'ircon', 'scontype', 'sconrole', 'irparent', 'npart', 'njoin'], v)),
                          irpart=ip, irjoin=ij)
                else:
                    v = [5, i + 1, 2, 1, 3]
                    b.rec('SCONCEPT', v, 2,
                          dict(zip(['nfield', 'ircon', 'scontype', 'sconrole', 'irparent', 'npart', 'njoin'],
                                   v + [0, 0])), irpart=[], irjoin=[])
            b.run('SCONMESH')
            for i in range(rng.randint(1, 3)):
                n = rng.randint(1, 40)
                fr = [rng.randint(1, 99) for _ in range(n)]
                v = [5 + n, i + 1, 1, 2, n]
                b.rec('SCONMESH', v + fr, 2,
                      dict(zip(['nfield', 'ircon', 'numrep', 'typrep', 'nferep'], v)), irferep=fr)
        if 'td' in feats:
            for nm in rng.sample(TDNAMES, rng.randint(1, 3)):
                if nm == 'TDLOAD' and self.loads:
                    continue
                add_td(b, nm, rng)
        if results:
            self.build_results(b)

    def build_results(self, b):
        rng = self.rng
        d = Dom(rng)
        used = sorted(set(t for _, t, _ in self.elems))
        beams = [t for t in used if t in BEAMS]
        shells = [t for t in used if t in SHELLS]

        def compdef(name, ir, comps):
            nf = 3 + len(comps)
            b.rec(name, [nf, ir, len(comps)] + comps, 2,
                  dict(nfield=nf, ir=ir, lenrec=len(comps)), icomp=comps)
        if beams:
            b.run('RDFORCES')
            for t in beams:
                compdef('RDFORCES', t, [1, 2, 3, 10, 11, 12])
        if self.reskinds:
            b.run('RDNODRES')
            compdef('RDNODRES', 6, [1, 2, 3, 4, 5, 6])
        if shells:
            b.run('RDSTRESS')
            for t in shells:
                compdef('RDSTRESS', t, list(range(1, self.spc(t)[1] + 1)))
            if 'strain' in self.feats:
                b.run('RDSTRAIN')
                for t in shells:
                    compdef('RDSTRAIN', t, [11, 12, 13])
        # result points
        dims = {15: (1, 1, 3), 23: (1, 1, 2), 24: (2, 3, 3), 25: (2, 2, 2),
                26: (2, 1, 3), 28: (2, 2, 2)}
        npts = {15: 3, 23: 2, 24: 10, 25: 8, 26: 6, 28: 8}
        b.run('RDPOINTS')
        nlays = {}
        bare = 'nopoints' in self.feats     # results without result points
        for i, (_, t, _) in enumerate(self.elems):
            if t not in dims or bare:
                continue
            nk, nj, ni = dims[t]
            nsp = npts[t]
            slots = nk * nj * ni
            live = set(rng.sample(range(slots), nsp)) if slots > nsp else set(range(slots))
            nlay = nlays.setdefault(t, rng.choice([0, 0, 1, 2]))
            nsptra = rng.choice([1, 1, 0, 2])
            ijk = nk * 10000 + nj * 100 + ni
            pts, fl, no = [], [], 0
            for s in range(slots):
                if s in live:
                    no += 1
                    p = [float(no)] + d.vals(3)
                    pts.append(p)
                    fl += p
                else:
                    fl.append(0.)
            xf = [[d.vals(3) for _ in range(3)] for _ in range(nsptra)]
            fl += [x for m in xf for r in m for x in r]
            v = [9 + len(fl), 1, i + 1, t, t, nsp, ijk, nsptra, nlay]
            b.rec('RDPOINTS', v + fl, 2,
                  dict(zip(['nfield', 'ispalt', 'iielno', 'icoref', 'ieltyp', 'nsp', 'ijkdim',
                            'nsptra', 'nlay'], v)), respoint=pts, xform=xf)
        b.run('RDIELCOR')
        for t in sorted(beams + shells, key=lambda t: bare and t not in (15, 24)):
            if bare and t not in (15, 24):
                # its layout is known from its result points only
                self.orphans = True
                if 'orphancor' not in self.feats:
                    continue
            nk, nj, ni = dims[t]
            g, be, al = d.vals(nk), d.vals(nj), d.vals(ni)
            lay = [d.vals(2) for _ in range(nlays.get(t, 0))]
            fl = g + be + al + sum(lay, [])
            v = [3 + len(fl), t, 0]
            b.rec('RDIELCOR', v + fl, 2, dict(nfield=v[0], icoref=t, igrid=0),
                  gamma=g, beta=be, alpha=al, layers=lay)
        b.run('RDRESREF')
        for ires, run, ieres, ic in self.cases:
            nt = rng.randint(1, 2)
            ref = [[10., float(ires), 0.] for _ in range(nt)]
            v = [7 + 3 * nt, ires, run, ieres, 1, ic, nt]
            b.rec('RDRESREF', v + sum(ref, []), 2,
                  dict(zip(['nfield', 'ires', 'irno', 'ieres', 'icalty', 'icompl', 'numtyp'], v)),
                  reftyps=ref)
        if 'cmb' in self.feats:
            for nm, arr in (('RBLODCMB', 'blcs'), ('RDRESCMB', 'rcs')):
                b.run(nm)
                for c in self.cases:
                    n = rng.randint(1, 3)
                    m = [d.vals(3) for _ in range(n)]
                    v = [4 + 3 * n, c[0], c[3], n]
                    b.rec(nm, v + sum(m, []), 2,
                          dict(zip(['nfield', 'ires', 'icompl', 'nblc'], v)), **{arr: m})
        if bare:
            beams = shells = []
        if beams:
            b.run('RVFORCES')
            for c in self.cases:
                for i, (_, t, _) in enumerate(self.elems):
                    if t in BEAMS:
                        self._rv(b, 'RVFORCES', 'force', c, i, t, self.forces[c[0], i])
        if shells:
            b.run('RVSTRESS')
            for c in self.cases:
                for i, (_, t, _) in enumerate(self.elems):
                    if t in SHELLS:
                        self._rv(b, 'RVSTRESS', 'stress', c, i, t, self.stress[c[0], i])
            if 'strain' in self.feats:
                b.run('RVSTRAIN')
                for c in self.cases:
                    for i, (_, t, _) in enumerate(self.elems):
                        if t in SHELLS:
                            m = 2 if c[3] else 1
                            self._rv(b, 'RVSTRAIN', 'strain', c, i, t, d.vals(self.spc(t)[0] * 3 * m))
        for k in self.reskinds:
            nm = 'RVNOD' + k
            b.run(nm)
            for c in self.cases:
                for i in range(self.nnodes):
                    data = self.noderes[k, c[0]][i]
                    v = [5 + len(data), c[0], i + 1, 6, 0]
                    b.rec(nm, v + data, 2,
                          dict(zip(['nfield', 'ires', 'iinod', 'irdva', 'itrans'], v)),
                          **{k.lower(): data})

    @staticmethod
    def _rv(b, name, arr, c, i, t, data):
        v = [5 + len(data), c[0], i + 1, 1, t]
        b.rec(name, v + data, 2,
              dict(zip(['nfield', 'ires', 'iielno', 'ispalt', 'ir'], v)), **{arr: data})


# --------------------------------------------------------------- one file ---

class SFile(object):
    """One interface file: name, logical records, expected store."""

    def __init__(self, name, recs, store, fmt, enc):
        self.name, self.recs, self.store = name, recs, store
        self.fmt, self.enc = fmt, enc

    def encode(self, fmt=None):
        fmt = fmt or self.fmt
        if fmt == 'F':
            return encode_formatted(self.recs, self.enc.get('eol', '\n'),
                                    self.enc.get('pad', True))
        return encode_unformatted(self.recs, self.enc.get('split'), self.enc.get('end', True))

    def bytes(self, fmt=None):
        return self.encode(fmt)[0]


RVNAMES = ('RVFORCES', 'RVSTRESS', 'RVSTRAIN', 'RVNODDIS', 'RVNODVEL', 'RVNODACC')
NEEDED_BY = {'GELMNT1': ('GELREF1',), 'RDPOINTS': ('RDIELCOR', 'RVFORCES', 'RVSTRESS', 'RVSTRAIN'),
             'RDRESREF': RVNAMES, 'RDFORCES': ('RVFORCES',), 'RDSTRESS': ('RVSTRESS',), 'RDSTRAIN': ('RVSTRAIN',),
             'RDNODRES': RVNAMES}


def assemble(b, rng, feats, head=(), two_part=False, hydro=False, end=None):
    """Order the runs of a builder into the record list of a file."""
    d = Dom(rng)
    runs = list(b.runs)
    if 'bycase' in feats:
        # results of one case after the other
        rv = [r for r in runs if r[0] in RVNAMES]
        if rv:
            order = []
            for x in sum((rs for _, rs in rv), []):
                if x.f[1] not in order:
                    order.append(x.f[1])
            runs = [r for r in runs if r[0] not in RVNAMES]
            for c in order:
                for nm, rs in rv:
                    part = [x for x in rs if x.f[1] == c]
                    if not part:
                        continue
                    if runs[-1][0] == nm:
                        runs[-1] = (nm, runs[-1][1] + part)
                    else:
                        runs.append((nm, part))
    if 'unsup' in feats:
        names = UNSUPW if hydro else UNSUP1 + UNSUP2
        for _ in range(rng.randint(1, 4)):
            bb = Builder(rng, b.store, feats)
            add_unsupported(bb, names, rng, d)
            runs.insert(rng.randint(0, len(runs)), bb.runs[0])
    if 'text' in feats:
        # text may stand anywhere; expectation order = file order per name,
        # so both runs are generated and inserted in increasing positions
        # (after the record that identifies the superelement, as Sesam does)
        lo = 0 if head else 1 + min([i for i, r in enumerate(runs) if r[0] in ('IDENT', 'HIERARCH')])
        pos = sorted(rng.randint(lo, len(runs)) for _ in range(rng.randint(1, 2)))
        for k, p in enumerate(pos):
            bb = Builder(rng, b.store, feats)
            add_text(bb, 'DATE' if k == 0 else 'TEXT', rng)
            runs.insert(p + k, bb.runs[0])
    if 'tworuns' in feats:
        # split some runs in two, the second part further down, but before
        # the records that need it
        cand = [nm for nm, rs in runs if len(rs) > 1 and nm not in
                ('DATE', 'TEXT', 'IDENT', 'HIERARCH', 'IRECSIZE', 'IEND') and nm in b.store.recs]
        rng.shuffle(cand)
        for nm in cand[:rng.choice([1, 2, 2, 3])]:
            i = [r[0] for r in runs].index(nm)
            rs = runs[i][1]
            if len(rs) < 2:
                continue
            end_ = min([k for k, r in enumerate(runs) if r[0] in NEEDED_BY.get(nm, ())] or [len(runs)])
            spots = [j for j in range(i + 2, end_ + 1) if runs[j - 1][0] != nm and (j == len(runs) or runs[j][0] != nm)]
            if spots:
                k = rng.randint(1, len(rs) - 1)
                runs[i] = (nm, rs[:k])
                # records of a type stay in their order
                later = [j for j in range(i + 1, len(runs)) if runs[j][0] == nm]
                spots = [j for j in spots if not later or j < later[0]]
                if not spots:
                    runs[i] = (nm, rs)
                    continue
                runs.insert(rng.choice(spots), (nm, rs[k:]))
    recs = list(head)
    for nm, rs in runs:
        if 'neg' in feats and rng.random() < .4 and (not recs or recs[-1].name != nm):
            if rng.random() < .2:
                recs.append(Rec(nm, [-5., 3., len(rs), 1., 2.], 'neg5'))
            else:
                recs.append(Rec(nm, [-4., 20., len(rs), 0.], 1))
        recs.extend(rs)
    if end is None:
        end = rng.choice([0, 1])
    recs.append(Rec('IEND', [float(end), 0., 0., 0.], 1))
    if end == 1 and rng.random() < .3:
        recs.append(Rec('IEND', [0., 0., 0., 0.], 1))
    return recs


def ident(b, slevel, seltyp, selmod=3):
    b.run('IDENT')
    b.rec('IDENT', [slevel, seltyp, selmod, 0], 1,
          dict(slevel=slevel, seltyp=seltyp, selmod=selmod))


def encopts(rng, feats):
    return dict(eol='\r\n' if 'crlf' in feats else '\n', pad='nopad' not in feats,
                split=rng.choice([4, 8, 31]) if 'split' in feats else None,
                end='noend' not in feats)


class Model(object):
    """files: OrderedDict name -> SFile (first one is the one to convert);
    stores: expected groups in the order converted."""

    def __init__(self, spec):
        self.spec = spec
        self.files = OrderedDict()
        self.sub = OrderedDict()        # group path -> Struct (first level)

    @property
    def top(self):
        return next(iter(self.files))

    def stores(self, present=None, gprefix=None):
        return [f.store for n, f in self.files.items()
                if present is None or n in present or n == self.top]

    def write(self, folder, fmt=None, present=None):
        import os
        for n, f in self.files.items():
            if present is not None and n not in present and n != self.top:
                continue
            with open(os.path.join(folder, n), 'wb') as h:
                h.write(f.bytes(fmt))
        return os.path.join(folder, self.top)


def groupname(fileprefix, letter, seltyp):
    return fileprefix + letter + str(seltyp)


def build_T(spec):
    """single model file (T or L)"""
    rng = random.Random('T%s' % spec['seed'])
    feats = set(spec['feats'])
    m = Model(spec)
    letter = spec.get('letter', 'T')
    seltyp = spec.get('seltyp', rng.choice([1, 1, 2, 17, 100]))
    pre = spec.get('fileprefix', '')
    st = Store(groupname(pre, letter, seltyp),
               dict(LEVEL='FIRSTLEVEL', DATATYPE='STRUCTURAL', SELTYP=seltyp, FILETYPE=letter))
    b = Builder(rng, st, feats)
    ident(b, 1, seltyp)
    s = Struct(rng, spec['n'], feats, seltyp)
    s.build(b)
    m.struct = s
    m.sub[st.path] = s
    recs = assemble(b, rng, feats)
    name = '%s%s%d.FEM' % (pre, letter, seltyp)
    m.files[name] = SFile(name, recs, st, spec.get('fmt', 'F'), encopts(rng, feats))
    m.seltyp, m.letter, m.fileprefix = seltyp, letter, pre
    return m


def build_R(spec):
    rng = random.Random('R%s' % spec['seed'])
    feats = set(spec['feats'])
    m = Model(spec)
    seltyp = spec.get('seltyp', rng.choice([1, 1, 3, 20]))
    pre = spec.get('fileprefix', '')
    hier = 'hier1' in feats
    st = Store(groupname(pre, 'R', seltyp),
               dict(LEVEL='FIRSTLEVEL', DATATYPE='STRUCTURAL', SELTYP=seltyp, FILETYPE='R'))
    b0 = Builder(rng, st, feats)
    head = []
    if hier:
        b0.run('HIERARCH')
        hier_rec(b0, dict(ihref=1, iselty=seltyp, indsel=1, islevl=1, itref=0, ihpref=0), [])
        head = [Rec('IRECSIZE', [2, 1024, 0, 0])] + b0.runs[0][1]
        bt = Builder(rng, st, feats)
        add_text(bt, 'DATE', rng)
        head += bt.runs[0][1] + [Rec('IEND', [1., 0., 0., 0.])]
        feats = feats - {'text'}
    b = Builder(rng, st, feats)
    ident(b, 1, seltyp)
    s = Struct(rng, spec['n'], feats, seltyp)
    s.make_results(rng, spec.get('nruns', 1), spec.get('ncases', 2), spec.get('cplx', 0))
    s.build(b, True)
    m.struct = s
    m.sub[st.path] = s
    if 'rsuptran' in feats:
        m.rsup = rand_trans(rng)
        b.run('RSUPTRAN')
        b.rec('RSUPTRAN', [18, 1] + m.rsup.ravel().tolist(), 2,
              dict(nfield=18, itref=1, t=m.rsup.tolist()))
    recs = assemble(b, rng, feats, head)
    ext = 'SIF' if spec.get('fmt', 'U') == 'F' else 'SIU'
    name = '%sR%d%s.%s' % (pre, seltyp, 'H%d' % spec['hno'] if spec.get('hno') and not hier else '', ext)
    m.files[name] = SFile(name, recs, st, spec.get('fmt', 'U'), encopts(rng, feats))
    m.seltyp, m.letter, m.fileprefix = seltyp, 'R', pre
    return m


def hier_rec(b, h, subs):
    nf = 8 + len(subs)
    v = [nf, h['ihref'], h['iselty'], h['indsel'], h['islevl'], h['itref'], h['ihpref'], len(subs)]
    b.rec('HIERARCH', v + list(subs), 2,
          dict(zip(['nfield', 'ihref', 'iselty', 'indsel', 'islevl', 'itref', 'ihpref', 'nsub'], v)),
          ihsref=list(subs))


def rand_trans(rng):
    """row-vector affine transformation, exactly representable rotations"""
    t = np.eye(4)
    ax = rng.randint(0, 2)
    ang = rng.choice([0, 90, 180, 270])
    c, s = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}[ang]
    i, j = [(1, 2), (2, 0), (0, 1)][ax]
    t[i, i] = t[j, j] = c
    t[i, j], t[j, i] = s, -s
    if rng.random() < .2:
        t[:3, :3] *= rng.choice([-1., .5, 2.])
    t[3, :3] = [rng.choice([0., rng.randint(-20, 20), rng.randint(-80, 80) / 4.]) for _ in range(3)]
    return t.astype(F32)


def build_hier(spec):
    """hierarchy of superelements: T-files or R-files"""
    rng = random.Random('H%s' % spec['seed'])
    feats = set(spec['feats'])
    m = Model(spec)
    letter = spec['kind'][0]            # T or R
    pre = spec.get('fileprefix', '')
    depth = spec.get('depth', 2)        # top level
    topsel = spec.get('topsel', 100)
    # superelement types per level
    types = {1: [1, 2, 3][:spec.get('ntypes', 2)]}
    for lv in range(2, depth):
        types[lv] = [10 * lv + k for k in range(1, rng.randint(2, 3))]
    types[depth] = [topsel]
    if spec.get('shuffle_types'):
        used = [t for v in types.values() for t in v]
        new = rng.sample(range(1, 60), len(used) - 1) + [topsel]
        mp = dict(zip(used, new))
        types = {lv: [mp[t] for t in v] for lv, v in types.items()}
    # content of each type: child types (each type has fixed children)
    content = {}
    for lv in range(2, depth + 1):
        for t in types[lv]:
            if lv == depth:
                kids = []
                for l2 in range(1, depth):
                    kids += types[l2] if l2 == depth - 1 else []
                n = rng.randint(0, 2)
                pool = [x for l2 in range(1, depth) for x in types[l2]]
                kids = kids + [rng.choice(pool) for _ in range(n)]
            else:
                pool = [x for l2 in range(1, lv) for x in types[l2]]
                kids = [rng.choice(types[lv - 1])] + [rng.choice(pool) for _ in range(rng.randint(0, 2))]
            content[t] = kids
    level = {t: lv for lv, ts in types.items() for t in ts}
    # every first-level type must occur
    for t in types[1]:
        def occurs(x):
            return x == t or any(occurs(k) for k in content.get(x, ()))
        if not occurs(topsel):
            content[topsel].append(t)
    # expand
    occ = []                            # dicts
    count = {}

    def expand(t, parent):
        if len(occ) > 24:
            return None
        me = dict(ihref=len(occ) + 1, iselty=t, islevl=level[t], ihpref=parent, kids=[])
        count[t] = count.get(t, 0) + 1
        me['indsel'] = count[t]
        occ.append(me)
        for k in content.get(t, ()):
            kid = expand(k, me['ihref'])
            if kid:
                me['kids'].append(kid)
        return me['ihref']
    expand(topsel, 0)
    trans = OrderedDict()
    for o in occ:
        o['itref'] = 0 if o['ihpref'] == 0 else (o['ihref'] if 'sharetr' not in feats else
                                                 rng.randint(2, max(2, len(occ))))
        if o['itref'] and o['itref'] not in trans:
            trans[o['itref']] = rand_trans(rng)
    m.occ, m.trans, m.depth, m.level = occ, trans, depth, level
    topgroup = groupname(pre, letter, topsel)
    ext = spec.get('ext') or ('FEM' if letter == 'T' else ('SIF' if spec.get('fmt') == 'F' else 'SIU'))
    fmt = spec.get('fmt', 'F' if letter == 'T' else 'U')
    enc = encopts(rng, feats)

    # top level file
    st = Store(topgroup, dict(LEVEL='TOPLEVEL', DATATYPE='STRUCTURAL', SELTYP=topsel, FILETYPE=letter))
    b = Builder(rng, st, feats)
    if rng.random() < .7 or letter == 'T':
        ident(b, depth, topsel, 0)
        if rng.random() < .5:
            rng2 = random.Random('x%s' % spec['seed'])
            gn = rng2.randint(1, 5)
            b.run('GNODE')
            for i in range(gn):
                b.rec('GNODE', [i + 1, i + 1, 6, 123456], 1,
                      dict(nodex=i + 1, nodeno=i + 1, ndof=6, odof=123456))
            b.run('GCOORD')
            for i in range(gn):
                c = [float(i), 0., float(F32(rng2.uniform(0, 9)))]
                b.rec('GCOORD', [i + 1] + c, 1, dict(nodeno=i + 1, xcoord=c[0], ycoord=c[1], zcoord=c[2]))
        if rng.random() < .5:
            d = Dom(rng)
            b.run('GELMNT2')
            for o in occ[1:]:
                nod = [rng.randint(1, 9) for _ in range(rng.randint(1, 9))]
                tt = d.vals(12)
                h = [o['ihref'], o['islevl'], o['iselty'], 0]
                b.rec('GELMNT2', h + tt + [len(nod)] + nod, 1,
                      dict(subno=h[0], slevel=h[1], stype=h[2], addno=0, t=tt, nnod=len(nod)), nod=nod)
    b.run('HIERARCH')
    for o in occ:
        hier_rec(b, o, o['kids'])
    b.run('HSUPTRAN')
    for it, t in trans.items():
        b.rec('HSUPTRAN', [18, it] + t.ravel().tolist(), 2,
              dict(nfield=18, itref=it, t=t.tolist()))
    if not trans:
        b.runs.pop()
    topfeats = feats & {'neg', 'unsup', 'text'}
    recs = assemble(b, rng, topfeats)
    name = '%s%s%d.%s' % (pre, letter, topsel, ext)
    m.files[name] = SFile(name, recs, st, fmt, enc)
    m.subocc = OrderedDict()
    # lower level files
    for o in occ[1:]:
        t = o['iselty']
        if letter == 'T':
            if o['indsel'] != 1:
                continue
            nm = '%sT%d.%s' % (pre, t, ext)
            path = topgroup + '/T%d' % t
            lev = 'FIRSTLEVEL' if o['islevl'] == 1 else 'INTERLEVEL'
        else:
            if o['islevl'] != 1:
                continue
            nm = '%sR%dH%d.%s' % (pre, t, o['ihref'], ext)
            path = topgroup + '/R%d_%d' % (t, o['indsel'])
            lev = 'FIRSTLEVEL'
        attrs = dict(LEVEL=lev, DATATYPE='STRUCTURAL', SELTYP=t, FILETYPE=letter)
        if letter == 'R':
            attrs['INDEX'] = o['indsel']
        st = Store(path, attrs)
        b = Builder(rng, st, feats)
        ident(b, o['islevl'], t)
        if o['islevl'] == 1:
            f2 = feats - {'hier1'}
            s = Struct(rng, spec['n'], f2, t)
            if letter == 'R':
                s.make_results(rng, spec.get('nruns', 1), spec.get('ncases', 2), spec.get('cplx', 0))
            s.build(b, letter == 'R')
            m.sub[path] = s
            s.occ = o
            if letter == 'R' and 'rsuptran' in feats:
                tt = compose(m, o, depth).astype(F32)
                b.run('RSUPTRAN')
                b.rec('RSUPTRAN', [18, 1] + tt.ravel().tolist(), 2,
                      dict(nfield=18, itref=1, t=tt.tolist()))
        else:
            d = Dom(rng)
            b.run('GNODE')
            for i in range(rng.randint(1, 4)):
                b.rec('GNODE', [i + 1, i + 1, 6, 123456], 1,
                      dict(nodex=i + 1, nodeno=i + 1, ndof=6, odof=123456))
        recs = assemble(b, rng, feats)
        m.files[nm] = SFile(nm, recs, st, fmt, enc)
        m.subocc[path] = o
    m.seltyp, m.letter, m.fileprefix = topsel, letter, pre
    return m


def compose(m, o, level):
    """Transformation of occurrence o up to *level*; None if unreachable."""
    by = {x['ihref']: x for x in m.occ}
    t = np.eye(4)
    cur = o
    while cur['islevl'] < level:
        if not cur['ihpref']:
            return None
        t = t.dot(m.trans[cur['itref']].astype(float))
        cur = by[cur['ihpref']]
    return t if cur['islevl'] == level else None


# ------------------------------------------------------------- hydrodynamic ---

class Hydro(object):
    pass


def build_G(spec):
    rng = random.Random('G%s' % spec['seed'])
    feats = set(spec['feats'])
    m = Model(spec)
    h = Hydro()
    m.hydro = h
    d = Dom(rng)
    n = spec['n']
    seltyp = spec.get('seltyp', 1)
    pre = spec.get('fileprefix', '')
    st = Store(groupname(pre, 'G', seltyp),
               dict(LEVEL='', DATATYPE='HYDRODYNAMIC', SELTYP=seltyp, FILETYPE='G'))
    b = Builder(rng, st, feats)
    ident(b, 1, seltyp, 3)
    h.time = 'time' in feats
    h.nd = rng.randint(1, max(1, min(4, n)))
    h.nf = rng.randint(1, max(2, min(5, n)))
    h.dirs = [float(F32(x)) for x in rng.sample([0., .5, 1., 1.5, 2., 2.5, 3., .7853982, 1.5707963, 3.1415927], h.nd)]
    h.freqs = [float(F32(x)) for x in rng.sample([.1, .2, .3, .4, .5, .6, .75, .9, 1.05, 1.3, 1.9], h.nf)]
    if rng.random() < .6:
        h.freqs.sort(reverse=rng.random() < .4)
    h.times = [float(F32(.5 * k)) for k in range(rng.randint(1, 5))]
    nb = 2 if 'multibody' in feats else 1
    if 'threebody' in feats:
        nb = 3
    ids = rng.sample([1, 2, 3, 4], nb) if 'bodyids' in feats else list(range(1, nb + 1))
    conds = rng.sample([1, 2, 3, 4, 7], nb) if 'bodyids' in feats else list(range(1, nb + 1))
    h.bodies = OrderedDict(zip(ids, conds))     # body id -> ibcond
    # globals
    h.g, h.ro = float(F32(rng.choice([9.81, 9.80665, 1.]))), float(F32(rng.choice([1025., 1000., 1.025])))
    h.depth = float(F32(rng.choice([100., 300., 12.5])))
    b.run('WGLOBDEF')
    finite = rng.random() < .8
    b.rec('WGLOBDEF', [5 if finite else 4, h.g, h.ro, 1 if finite else 0] + ([h.depth] if finite else []), 2,
          dict(nfield=5 if finite else 4, g=h.g, ro=h.ro, idepth=1 if finite else 0,
               **({'depth': h.depth} if finite else {})))
    h.finite = finite
    b.run('WBODCON')
    for bid, c in h.bodies.items():
        k = rng.randint(1, 2)
        rc = [d.vals(3) for _ in range(k)]
        b.rec('WBODCON', [4 + 3 * k, c, bid, k] + sum(rc, []), 2,
              dict(nfield=4 + 3 * k, ibcond=c, ibody=bid, numcon=k), refcond=rc)
    cols = ['clenb', 'bmass', 'wsarea', 'wparea', 'vol', 'xcg', 'ycg', 'zcg', 'xcb', 'ycb', 'zcb',
            'xrb', 'yrb', 'zrb']
    h.body = {}
    if 'wbody' in feats:
        b.run('WBODY')
        for bid, c in h.bodies.items():
            v = d.vals(14)
            t = np.array(d.vals(16)).reshape(4, 4)
            h.body[bid] = dict(zip(cols, v), t=t)
            b.rec('WBODY', [32, c] + v + t.ravel().tolist(), 2,
                  dict(zip(['nfield', 'ibcond'] + cols, [32, c] + v), t=t.tolist()))
    # result references
    b.run('WDRESREF')
    iw = 0
    h.refs = []
    if h.time:
        for t in h.times:
            iw += 1
            b.rec('WDRESREF', [7, iw, 1, 1, 3, 1., t], 2,
                  dict(nfield=7, iwres=iw, nresrf=1, numtyp=1), dir=[], freq=[], time=[[1., t]])
            h.refs.append(iw)
    else:
        for x in h.dirs:
            for w in h.freqs:
                iw += 1
                b.rec('WDRESREF', [10, iw, 1, 2, 1, 1., x, 2, 1., w], 2,
                      dict(nfield=10, iwres=iw, nresrf=1, numtyp=2),
                      dir=[[1., x]], freq=[[1., w]], time=[])
                h.refs.append(iw)
    nres = len(h.refs)
    if 'wmix' in feats:
        # references to any of the three, to none, or to more than one of a kind
        for _ in range(rng.randint(2, 7)):
            iw += 1
            ty = rng.sample([1, 2, 3], rng.randint(0, 3))
            v = {t: [[1., x] for x in d.vals(rng.randint(1, 2))] for t in ty}
            n = max([len(x) for x in v.values()] or [1])
            v = {t: (x * n)[:n] for t, x in v.items()}
            fl = sum([[float(t)] + sum(v[t], []) for t in ty], [])
            b.rec('WDRESREF', [4 + len(fl), iw, n, len(ty)] + fl, 2,
                  dict(nfield=4 + len(fl), iwres=iw, nresrf=n, numtyp=len(ty)),
                  dir=v.get(1, []), freq=v.get(2, []), time=v.get(3, []))
    # sections / points
    h.sections = []
    if 'sections' in feats and not h.time:
        secbody = list(h.bodies)[:1] if 'secall' not in feats else list(h.bodies)
        h.secs = {}
        b.run('WSECTION')
        k = 0
        for bid in secbody:
            ns = rng.randint(1, 3)
            h.secs[bid] = ns
            for _ in range(ns):
                k += 1
                p = [d.vals(3) for _ in range(3)]
                usr, ty = rng.randint(1, 99), rng.randint(1, 3)
                h.sections.append((usr, ty, p))
                b.rec('WSECTION', [14, bid, k, ty, usr] + sum(p, []), 2,
                      dict(nfield=14, ibody=bid, isect=k, isecty=ty, secusr=usr,
                           p1=p[0], p2=p[1], p3=p[2]))
    h.points = []
    if 'points' in feats:
        b.run('WFKPOINT')
        for i in range(rng.randint(1, 4)):
            p = d.vals(3)
            h.points.append(p)
            b.rec('WFKPOINT', [5, i + 1] + p, 2, dict(nfield=5, ifkpnt=i + 1, fkpnt=p))
    # matrices
    h.mats = {}
    if 'matrix' in feats:
        b.run('W1MATRIX')
        k = 0
        mtyps = rng.sample([11, 12, 21, 22, 31, 32], rng.randint(1, 6))
        for bi, ci in h.bodies.items():
            for bj, cj in h.bodies.items():
                if bi != bj and 'coupling' not in feats:
                    continue
                for mt in mtyps:
                    ws = range(1, h.nf + 1) if mt in (12, 21) else [0]
                    for w in ws:
                        k += 1
                        mat = np.array(d.vals(36)).reshape(6, 6)
                        h.mats.setdefault((mt, bi, bj), []).append(mat)
                        b.rec('W1MATRIX', [42, k, ci, cj, w, mt] + mat.ravel().tolist(), 2,
                              dict(nfield=42, imatrx=k, ibconi=ci, ibconj=cj, iwres=w, imtyp=mt,
                                   hmat=mat.tolist()))
    real = 'realres' in feats
    h.rao = {}

    def cvals(k):
        if real:
            v = d.vals(k)
            return v, [complex(x, 0) for x in v]
        v = d.vals(2 * k)
        return v, [complex(x, y) for x, y in zip(v[::2], v[1::2])]

    for name, ft in (('W1MOTION', 'motion'), ('W1EXFORC', 'exforce'), ('W2EXFDIF', 'exfdif'),
                     ('W2EXFSUM', 'exfsum')):
        if ft not in feats or h.time and ft != 'motion':
            continue
        b.run(name)
        order = [(bid, w) for bid in h.bodies for w in h.refs]
        if 'interleave' in feats:
            order = [(bid, w) for w in h.refs for bid in h.bodies]
        for bid, w in order:
            fl, cv = cvals(6)
            h.rao.setdefault((name, bid), []).append(cv)
            nf = 4 + len(fl)
            b.rec(name, [nf, h.bodies[bid], w, 0 if real else 1] + fl, 2,
                  dict(nfield=nf, ibcond=h.bodies[bid], iwres=w, icompl=0 if real else 1, data=cv))
    if h.sections:
        b.run('W1SFORCE')
        base = 0
        for bid, ns in h.secs.items():
            for s in range(ns):
                for w in h.refs:
                    fl, cv = cvals(6)
                    h.rao.setdefault(('W1SFORCE', bid), []).append(cv)
                    nf = 5 + len(fl)
                    b.rec('W1SFORCE', [nf, h.bodies[bid], base + s + 1, w, 0 if real else 1] + fl, 2,
                          dict(nfield=nf, ibcond=h.bodies[bid], isect=base + s + 1, iwres=w,
                               icompl=0 if real else 1, data=cv))
            base += ns
    for name, ft, k, col in (('W2HDRIFT', 'hdrift', 3, 'shfor'), ('W2MDRIFT', 'mdrift', 6, 'smfor')):
        if ft not in feats or h.time:
            continue
        b.run(name)
        for bid in h.bodies:
            for w in h.refs:
                v = d.vals(k)
                h.rao.setdefault((name, bid), []).append(v)
                b.rec(name, [3 + k, h.bodies[bid], w] + v, 2,
                      {'nfield': 3 + k, 'ibcond': h.bodies[bid], 'iwres': w, col: v})
    h.fluid = []
    if h.points and 'fluid' in feats and not h.time:
        b.run('WFLUIDKN')
        for w in h.refs:
            for i in range(len(h.points)):
                fl, cv = cvals(4)
                h.fluid.append(cv)
                nf = 4 + len(fl)
                b.rec('WFLUIDKN', [nf, w, i + 1, 0 if real else 1] + fl, 2,
                      dict(nfield=nf, iwres=w, ifkpnt=i + 1, icompl=0 if real else 1,
                           p=cv[0], v=cv[1:]))
    h.panels = {}
    if 'panels' in feats and not h.time:
        b.run('W1PANPRE')
        for bid, c in h.bodies.items():
            npan, ns = rng.randint(1, 3), rng.randint(1, 2)
            pids = sorted(rng.sample(range(1, 30), npan))
            vals = []
            for w in h.refs:
                for s in range(1, ns + 1):
                    for k, pid in enumerate(pids):
                        fl, cv = cvals(1)
                        vals.append(cv[0])
                        nf = 8 + len(fl)
                        b.rec('W1PANPRE', [nf, c, w, k + 1, s, 0 if real else 1] + fl + [pid, s], 2,
                              dict(nfield=nf, ibcond=c, iwres=w, ippan=k + 1, isymm1=s,
                                   icompl=0 if real else 1, p=cv[0], ipan=pid, isymm2=s))
            h.panels[bid] = (pids, ns, vals)
    if 'wsurface' in feats and not h.time:
        b.run('WSURFACE')
        for k, w in enumerate(h.refs[:4]):
            comps = [rng.randint(0, 1) for _ in range(3)]
            if not any(comps):
                comps[2] = 1
            ic = rng.randint(0, 1)
            nn = rng.randint(1, 3)
            fl, rows = [], []
            for i in range(nn):
                row = [complex(i + 1, 0)]
                fl.append(float(i + 1))
                for cmp_ in comps:
                    if not cmp_:
                        row.append(0j)
                    elif ic:
                        a, c2 = d.val(), d.val()
                        fl += [a, c2]
                        row.append(complex(a, c2))
                    else:
                        a = d.val()
                        fl.append(a)
                        row.append(complex(a, 0))
                rows.append(row)
            v = [8 + len(fl), w, k + 1, nn, ic] + comps
            b.rec('WSURFACE', v + fl, 2,
                  dict(zip(['nfield', 'iwres', 'indxwr', 'nnode', 'icompl', 'icompx', 'icompy', 'icompz'], v)),
                  zelev=rows)
    if 'winput' in feats:
        b.run('WINPUT')
        t = np.array(d.vals(16)).reshape(4, 4)
        c = list(h.bodies.values())[0]
        b.rec('WINPUT', [18, c] + t.ravel().tolist(), 2, dict(nfield=18, ibcond=c, t=t.tolist()))
    if 'td' in feats:
        add_td(b, rng.choice(['TDBODNAM', 'TDRSNAM']), rng)
    recs = assemble(b, rng, feats, hydro=True)
    fmt = spec.get('fmt', 'F')
    ext = 'SIF' if fmt == 'F' else 'SIU'
    name = '%sG%d.%s' % (pre, seltyp, ext)
    m.files[name] = SFile(name, recs, st, fmt, encopts(rng, feats))
    m.seltyp, m.letter, m.fileprefix = seltyp, 'G', pre
    return m


def build_big(spec):
    """more records of a type than any internal buffer holds"""
    rng = random.Random('B%s' % spec['seed'])
    m = Model(spec)
    st = Store('T1', dict(LEVEL='FIRSTLEVEL', DATATYPE='STRUCTURAL', SELTYP=1, FILETYPE='T'))
    b = Builder(rng, st, set())
    ident(b, 1, 1)
    n = spec['n']
    b.run('GNODE')
    for i in range(n):
        v = [i + 1, i + 1, 6, 123456]
        b.rec('GNODE', v, 1, dict(nodex=v[0], nodeno=v[1]))
    b.run('GELMNT1')
    for i in range(n):
        con = [(i * 7 + k) % n + 1 for k in range(1 + i % 2)]
        t = 15 if len(con) == 2 else 18
        b.rec('GELMNT1', [i + 1, i + 1, t, 0] + con, 1, dict(elno=i + 1, eltyp=t), nodin=con)
    m.sub[st.path] = None
    recs = assemble(b, rng, set())
    m.files['T1.FEM'] = SFile('T1.FEM', recs, st, spec['fmt'], {})
    m.seltyp, m.letter, m.fileprefix = 1, 'T', ''
    return m


def build(spec):
    Dom.salt = spec.get('salt', 0)
    try:
        m = build_kind(spec)
    finally:
        Dom.salt = 0
    if spec.get('low'):     # file names in lower case
        k = len(m.fileprefix)
        m.files = OrderedDict((n[:k] + n[k:].lower(), f) for n, f in m.files.items())
    return m


def build_kind(spec):
    k = spec['kind']
    if k == 'T':
        return build_T(spec)
    if k == 'R':
        return build_R(spec)
    if k == 'G':
        return build_G(spec)
    if k in ('TH', 'RH'):
        return build_hier(spec)
    if k == 'big':
        return build_big(spec)
    raise ValueError(k)


COMMON_FEATS = ['neg', 'unsup', 'text', 'tworuns', 'crlf', 'nopad', 'split', 'noend']
STRUCT_FEATS = ['extnum', 'second', 'springs', 'sets', 'loads', 'geolist', 'sections', 'mat',
                'ecc', 'bc', 'beuslo', 'concepts', 'td', 'nobeam', 'noshell']
RES_FEATS = ['bycase', 'rvdis', 'rvvel', 'rvacc', 'strain', 'cmb', 'hier1', 'rsuptran']
HYDRO_FEATS = ['multibody', 'threebody', 'bodyids', 'wbody', 'sections', 'secall', 'points', 'matrix',
               'coupling', 'realres', 'motion', 'exforce', 'exfdif', 'exfsum', 'interleave',
               'hdrift', 'mdrift', 'fluid', 'panels', 'wsurface', 'winput', 'td', 'time']
PREFIXES = ['', '', '', 'pre_', 'a-b_', 'test01_', 'T1', 'R2H1-', 'gl', 'Ab']


def random_spec(rng, kinds='TRGHS', small=False):
    k = rng.choice(list(kinds))
    p = lambda q: rng.random() < q
    if k == 'T':
        feats = [f for f in COMMON_FEATS if p(.35)] + \
                [f for f in STRUCT_FEATS if p(.15 if f in ('nobeam', 'noshell', 'springs') else .5)]
        if 'nobeam' in feats and 'noshell' in feats:
            feats.remove('noshell')
        s = dict(kind='T', letter='T' if p(.9) else 'L', fmt=rng.choice('FFU'))
    elif k == 'R':
        feats = [f for f in COMMON_FEATS if p(.35)] + \
                [f for f in STRUCT_FEATS if p(.15 if f in ('nobeam', 'noshell', 'springs') else .4)] + \
                [f for f in RES_FEATS if p(.6)]
        if 'nobeam' in feats and 'noshell' in feats:
            feats.remove('noshell')
        s = dict(kind='R', fmt=rng.choice('FUU'), nruns=rng.randint(1, 2), ncases=rng.randint(1, 3),
                 cplx=rng.choice([0, 0, 1, 2]))
    elif k == 'G':
        feats = [f for f in COMMON_FEATS if p(.35)] + \
                [f for f in HYDRO_FEATS if p(.12 if f in ('time', 'realres', 'threebody') else .6)]
        s = dict(kind='G', fmt=rng.choice('FFU'))
    elif k == 'H':
        feats = [f for f in COMMON_FEATS if p(.3)] + \
                [f for f in STRUCT_FEATS if p(.05 if f in ('nobeam', 'noshell', 'springs') else .3)]
        if 'nobeam' in feats and 'noshell' in feats:
            feats.remove('noshell')
        if p(.3):
            feats.append('sharetr')
        s = dict(kind='TH', fmt=rng.choice('FFU'), depth=rng.randint(2, 4), ntypes=rng.randint(1, 3),
                 topsel=rng.choice([100, 7]), shuffle_types=p(.3))
        if s['topsel'] == 7:
            s['shuffle_types'] = False
    else:
        feats = [f for f in COMMON_FEATS if p(.3)] + \
                [f for f in STRUCT_FEATS if p(.05 if f in ('nobeam', 'noshell', 'springs') else .25)] + \
                [f for f in ('bycase', 'rvdis', 'rvvel', 'rvacc', 'strain', 'cmb') if p(.5)] + ['rsuptran']
        if 'nobeam' in feats and 'noshell' in feats:
            feats.remove('noshell')
        s = dict(kind='RH', fmt=rng.choice('FUU'), depth=rng.randint(2, 4), ntypes=rng.randint(1, 3),
                 topsel=100, ncases=rng.randint(1, 2), cplx=rng.choice([0, 0, 1]))
    s['seed'] = rng.randrange(1 << 30)
    s['n'] = rng.choice([3, 5, 8] if small or k in 'HS' else [3, 6, 10, 16])
    s['feats'] = sorted(feats)
    s['fileprefix'] = rng.choice(PREFIXES)
    if rng.random() < .15:
        s['low'] = 1
    if k == 'R' and rng.random() < .15:     # a lower level file on its own
        s['hno'] = rng.choice([1, 2, 12])
    return s


def shrink_spec(s):
    """smaller variants of a spec"""
    for f in s['feats']:
        t = dict(s)
        t['feats'] = [x for x in s['feats'] if x != f]
        yield t
    if s['n'] > 2:
        for n in (2, s['n'] // 2, s['n'] - 1):
            if n < s['n']:
                yield dict(s, n=n)
    if s.get('fileprefix'):
        yield dict(s, fileprefix='')
    for x in ('low', 'hno'):
        if s.get(x):
            yield {k: v for k, v in s.items() if k != x}
    for k, lo in (('ncases', 1), ('nruns', 1), ('cplx', 0), ('depth', 2), ('ntypes', 1)):
        if s.get(k, lo) > lo:
            yield dict(s, **{k: lo})
