"""Independent codec of the SPOC format and workload generators. Shares nothing with /repo."""
import struct, zlib
import numpy as np

F64, U32, U16 = ('x', 'y', 'z'), ('c', 'p'), ('i', 'r', 'g', 'b')
FIELDS = F64 + U32 + U16
DT = {**{f: np.dtype('<f8') for f in F64}, **{f: np.dtype('<u4') for f in U32}, **{f: np.dtype('<u2') for f in U16}}
U64 = np.dtype('<u8')


class FormatError(Exception):
    pass


def rec_dtype(ne):
    return np.dtype([(f, DT[f]) for f in FIELDS] + ([('e', U64, (ne,))] if ne else []))


class Cloud:
    """n records as columns; e has shape (ne, n)."""
    def __init__(self, n=0, ne=0, wkt=b'', compressed=False):
        self.wkt, self.compressed = wkt, compressed
        self.cols = {f: np.zeros(n, DT[f]) for f in FIELDS}
        self.e = np.zeros((ne, n), U64)

    @property
    def n(self):
        return len(self.cols['x'])

    @property
    def ne(self):
        return self.e.shape[0]

    def __getitem__(self, f):
        return self.e[int(f[1:])] if f[0] == 'e' else self.cols[f]

    def copy(self):
        c = Cloud(0, 0, self.wkt, self.compressed)
        c.cols = {f: v.copy() for f, v in self.cols.items()}
        c.e = self.e.copy()
        return c

    def take(self, idx):
        c = Cloud(0, 0, self.wkt, self.compressed)
        c.cols = {f: v[idx] for f, v in self.cols.items()}
        c.e = self.e[:, idx]
        return c

    def with_(self, **kw):
        c = self.copy()
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def records(self):
        a = np.zeros(self.n, rec_dtype(self.ne))
        for f in FIELDS:
            # through integers: assigning floats may quieten signalling NaNs
            v = np.ascontiguousarray(self.cols[f])
            a[f].view('<u%d' % v.dtype.itemsize)[...] = v.view('<u%d' % v.dtype.itemsize)
        if self.ne:
            a['e'] = self.e.T
        return a

    def rec_bytes(self):
        return self.records().tobytes()


def header(wkt, ne, n, compressed, sig=b'SPOC', major=0, minor=1):
    return sig + struct.pack('<BBH', major, minor, len(wkt)) + wkt + struct.pack('<BQB', ne, n, int(compressed))


def encode(c, compressed=None, level=-1, elide=True, ne=None):
    comp = c.compressed if compressed is None else compressed
    h = header(c.wkt, c.ne if ne is None else ne, c.n, comp)
    if not comp:
        return h + c.rec_bytes()
    return h + encode_columns(c, level, elide)


def encode_columns(c, level=-1, elide=True):
    out = []
    for v in [c.cols[f] for f in FIELDS] + list(c.e):
        raw = np.ascontiguousarray(v).tobytes()
        if elide and raw.count(0) == len(raw):
            out.append(struct.pack('<Q', 0))
        else:
            z = zlib.compress(raw, level)
            out.append(struct.pack('<Q', len(z)) + z)
    return b''.join(out)


def parse_header(b):
    if len(b) < 8 or b[:4] != b'SPOC':
        raise FormatError('signature')
    major, minor, wl = struct.unpack_from('<BBH', b, 4)
    if (major, minor) != (0, 1):
        raise FormatError('version')
    if len(b) < 8 + wl + 10:
        raise FormatError('short header')
    wkt = b[8:8 + wl]
    ne, n, comp = struct.unpack_from('<BQB', b, 8 + wl)
    return wkt, ne, n, comp, 8 + wl + 10


def decode(b, strict=True):
    """bytes -> Cloud; every byte must be accounted for when strict."""
    wkt, ne, n, comp, off = parse_header(b)
    c = Cloud(0, 0, bytes(wkt), bool(comp))
    if comp not in (0, 1):
        raise FormatError('compression flag %d' % comp)
    if not comp:
        size = (40 + 8 * ne) * n
        if len(b) - off != size and (strict or len(b) - off < size):
            raise FormatError('expected %d bytes of records, found %d' % (size, len(b) - off))
        a = np.frombuffer(b, rec_dtype(ne), n, off) if n else np.zeros(0, rec_dtype(ne))
        c.cols = {f: _col(a, f) for f in FIELDS}
        c.e = np.ascontiguousarray(a['e'].T) if ne else np.zeros((0, n), U64)
        return c
    cols = []
    for k in range(9 + ne):
        dt = DT[FIELDS[k]] if k < 9 else U64
        if off + 8 > len(b):
            raise FormatError('column %d: no length' % k)
        m, = struct.unpack_from('<Q', b, off)
        off += 8
        if m == 0:
            cols.append(np.zeros(n, dt))
            continue
        if off + m > len(b):
            raise FormatError('column %d: %d bytes announced, %d left' % (k, m, len(b) - off))
        d = zlib.decompressobj()
        try:
            raw = d.decompress(b[off:off + m])
        except zlib.error as ex:
            raise FormatError('column %d: %s' % (k, ex))
        if not d.eof or d.unused_data:
            raise FormatError('column %d: not exactly one zlib stream' % k)
        if len(raw) != n * dt.itemsize:
            raise FormatError('column %d: %d bytes instead of %d' % (k, len(raw), n * dt.itemsize))
        cols.append(np.frombuffer(raw, dt).copy())
        off += m
    if strict and off != len(b):
        raise FormatError('%d bytes after the last column' % (len(b) - off))
    c.cols = dict(zip(FIELDS, cols))
    c.e = np.array(cols[9:], U64).reshape(ne, n)
    return c


def _col(a, f):
    o = np.empty(len(a), DT[f])
    u = '<u%d' % DT[f].itemsize
    o.view(u)[...] = a[f].copy().view(u) if len(a) else 0
    return o


def bits(v):
    v = np.ascontiguousarray(v)
    return v.view('<u%d' % v.dtype.itemsize)


def diff_cols(a, b):
    """First difference of the records of two clouds, or None."""
    if a.n != b.n:
        return '%d records instead of %d' % (b.n, a.n)
    if a.ne != b.ne and a.n:
        return '%d extra fields instead of %d' % (b.ne, a.ne)
    for f in FIELDS + tuple('e%d' % k for k in range(a.ne if a.n else 0)):
        u, v = bits(a[f]), bits(b[f])
        if not np.array_equal(u, v):
            k = int(np.flatnonzero(u != v)[0])
            return 'field %s of record %d is %r instead of %r' % (f, k, b[f][k], a[f][k])
    return None


def diff_clouds(a, b):
    if a.wkt != b.wkt:
        return 'WKT is %r instead of %r' % (b.wkt[:60], a.wkt[:60])
    if bool(a.compressed) != bool(b.compressed):
        return 'compression flag is %r instead of %r' % (b.compressed, a.compressed)
    return diff_cols(a, b)


# ---------------------------------------------------------------- generation

SPECIAL = np.array([0.0, -0.0, 1.0, -1.0, np.inf, -np.inf, np.nan, 5e-324, -5e-324, 2.2250738585072014e-308,
                    1.7976931348623157e308, -1.7976931348623157e308, 0.1, 1e-300, 1e15, 2 ** 53 + 1.0, -2 ** 31 - 0.5,
                    4294967296.5, 356631.45, 3515084.93], '<f8')
NAN_PAYLOADS = np.array([0x7ff8000000000001, 0xfff8000000000000, 0x7ff0000000000001, 0x7fffffffffffffff,
                         0xfff0000000000123], '<u8').view('<f8')


def rng_for(*key):
    return np.random.default_rng([int(k) & 0xffffffff for k in key])


def gen_coord(r, n, style):
    if style == 'unit':
        return r.uniform(-1, 1, n)
    if style == 'small':
        return r.integers(-4, 5, n).astype('f8')
    if style == 'half':
        return r.integers(-8, 9, n) / 2.0
    if style == 'utm':
        return np.round(r.uniform(300000, 300400, n) * (1 if r.random() < .7 else -1), 2)
    if style == 'cm':
        return np.round(r.uniform(-50, 50, n), 2)
    if style == 'wide':
        return r.uniform(-1e6, 1e6, n)
    if style == 'zero':
        return np.zeros(n)
    if style == 'const':
        return np.full(n, r.uniform(-100, 100))
    if style == 'special':
        v = r.choice(SPECIAL, n)
        return v
    if style == 'bits':
        return r.integers(0, 1 << 64, n, dtype='u8', endpoint=False).view('f8')
    if style == 'negzero':
        return np.where(r.random(n) < .5, -0.0, 0.0)
    raise KeyError(style)


FINITE_STYLES = ('unit', 'small', 'half', 'utm', 'cm', 'wide', 'zero', 'const')
ALL_STYLES = FINITE_STYLES + ('special', 'bits', 'negzero')


def gen_int(r, n, dt, style=None):
    top = np.iinfo(dt).max
    style = style or r.choice(['zero', 'small', 'full', 'edge', 'lastone', 'const'])
    if style == 'zero':
        return np.zeros(n, dt)
    if style == 'small':
        return r.integers(0, 6, n).astype(dt)
    if style == 'full':
        return r.integers(0, top, n, dtype=dt, endpoint=True)
    if style == 'edge':
        return r.choice(np.array([0, 1, top, top - 1, top // 2, top // 2 + 1], dt), n)
    if style == 'lastone':
        v = np.zeros(n, dt)
        if n:
            v[-1 if r.random() < .5 else r.integers(n)] = r.integers(1, top, dtype=dt, endpoint=True)
        return v
    if style == 'const':
        return np.full(n, r.integers(0, top, dtype=dt, endpoint=True), dt)
    raise KeyError(style)


def gen_cloud(r, n, ne=0, wkt=None, compressed=None, styles=FINITE_STYLES, xyz=None, int_style=None):
    c = Cloud(n, ne, gen_wkt(r) if wkt is None else wkt, bool(r.integers(2)) if compressed is None else compressed)
    s0 = r.choice(styles)
    for f in F64:
        s = xyz or (s0 if r.random() < .7 else r.choice(styles))
        c.cols[f] = np.asarray(gen_coord(r, n, s), '<f8')
    for f in U32 + U16:
        c.cols[f] = gen_int(r, n, DT[f], int_style)
    for k in range(ne):
        c.e[k] = gen_int(r, n, U64, int_style)
    return c


def gen_wkt(r):
    k = r.integers(6)
    if k == 0:
        return b''
    if k == 1:
        return b'Test WKT'
    if k == 2:
        return b'PROJCS["NAD83 / UTM zone 14N",GEOGCS["NAD83"]]'
    if k == 3:
        return bytes(r.integers(0, 256, int(r.integers(1, 40)), dtype='u1'))
    if k == 4:
        return b'A' * int(r.integers(1, 300))
    return bytes(r.integers(32, 127, int(r.integers(1, 1200)), dtype='u1'))


# ---------------------------------------------------------------- neutral dumps for harness/codec.cpp

def neutral(c):
    return (struct.pack('<Q', len(c.wkt)) + c.wkt + struct.pack('<QQB', c.n, c.ne, int(c.compressed)) +
            b''.join(np.ascontiguousarray(c.cols[f]).tobytes() for f in FIELDS) + np.ascontiguousarray(c.e).tobytes())


def from_neutral(b):
    wl, = struct.unpack_from('<Q', b, 0)
    wkt = b[8:8 + wl]
    n, ne, comp = struct.unpack_from('<QQB', b, 8 + wl)
    o = 8 + wl + 17
    c = Cloud(0, 0, wkt, bool(comp))
    for f in FIELDS:
        c.cols[f] = np.frombuffer(b, DT[f], n, o).copy()
        o += n * DT[f].itemsize
    c.e = np.frombuffer(b, U64, n * ne, o).copy().reshape(ne, n)
    return c


def many(item, every):
    """More records than a 16 bit counter holds, for one item in 'every'; None for the others."""
    return (65536, 70001, 65537)[item // every % 3] if item % every == every // 2 else None


def pick(r, seq):
    """Choose without numpy's type coercion."""
    return seq[int(r.integers(len(seq)))]
