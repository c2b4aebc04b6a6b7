# Histories of calls of the Python bindings, compared with a model after every call; files compared with an independent codec.
# Run by /usr/bin/python3 with the extension on PYTHONPATH; plain Python only.
import os, random, struct, sys, zlib
opt = dict(a.split('=', 1) for a in sys.argv[1:])
SEED, SHARD, SHARDS, ITEMS = (int(opt.get(k, d)) for k, d in (('seed', 1), ('shard', 0), ('shards', 1), ('items', 10)))
D = os.path.join(opt['dir'], 's%d' % SHARD)
os.makedirs(D, exist_ok=True)
import spocpy as sp
from spocpy import *

U = {'c': 32, 'p': 32, 'i': 16, 'r': 16, 'g': 16, 'b': 16}
F = 'xyzcpirgb'
cases, keys, counts, nviol = 0, set(), {}, 0


def flush():
    print('CASE %d' % cases)
    for k, v in counts.items():
        print('COUNT %s %d' % (k, v))
    for k in keys:
        print('KEY ' + k)
    print('DONE')
    sys.stdout.flush()


def viol(key, text):
    global nviol
    print('VIOLATION %s | %s' % (key, text.replace('\n', ' ')[:1500]), flush=True)
    nviol += 1
    if nviol >= 3:
        flush()
        os._exit(0)


def dbits(v):
    return struct.pack('<d', v)


class Rec:
    def __init__(self, v, extra):
        self.v, self.extra = v, extra           # v: dict of the nine fields

    def copy(self):
        return Rec(dict(self.v), list(self.extra))

    def pack(self):
        v = self.v
        return (b''.join(dbits(v[k]) for k in 'xyz') + struct.pack('<IIHHHH', *(v[k] for k in 'cpirgb'))
                + struct.pack('<%dQ' % len(self.extra), *self.extra))


def gdouble(r):
    return r.choice([0.0, -0.0, 1.5, -2.25, r.uniform(-1e6, 1e6), float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308,
                     struct.unpack('<d', struct.pack('<Q', r.getrandbits(63) & ~(0x7ff << 52) | (r.randrange(0x7ff) << 52)))[0]])


def gint(r, bits):
    top = (1 << bits) - 1
    return r.choice([0, 0, 1, 2, top, top - 1, top // 2, top // 2 + 1, r.getrandbits(bits)])


def grec(r, ne):
    v = {k: gdouble(r) for k in 'xyz'}
    v.update({k: gint(r, b) for k, b in U.items()})
    if r.random() < .2:
        v = {k: 0 if k in U else 0.0 for k in F}
    return Rec(v, [gint(r, 64) for _ in range(ne)])


def topy(m, r):
    p = PointRecord()
    for k in F:
        setattr(p, k, m.v[k])
    p.extra = m.extra if r.random() < .5 else tuple(m.extra)
    return p


def frompy(p):
    return Rec({k: getattr(p, k) for k in F}, list(p.extra))


def samerec(p, m):
    q = frompy(p)
    for k in 'xyz':
        if type(q.v[k]) is not float:
            return False
    try:
        return q.pack() == m.pack()
    except struct.error:
        return False


def encode(m):
    n = len(m.prs)
    ne = len(m.prs[0].extra) if n else 0
    w = m.wkt.encode()
    b = b'SPOC\0\1' + struct.pack('<H', len(w)) + w + struct.pack('<BQB', ne, n, m.comp)
    if not m.comp:
        return b + b''.join(p.pack() for p in m.prs)
    cols = [b''.join(dbits(p.v[k]) for p in m.prs) for k in 'xyz']
    cols += [struct.pack('<%d%s' % (n, 'I' if U[k] == 32 else 'H'), *(p.v[k] for p in m.prs)) for k in 'cpirgb']
    cols += [struct.pack('<%dQ' % n, *(p.extra[k] for p in m.prs)) for k in range(ne)]
    for c in cols:
        if any(c):
            z = zlib.compress(c)
            b += struct.pack('<Q', len(z)) + z
        else:
            b += struct.pack('<Q', 0)
    return b


def decode(b):
    """-> (wkt, compressed, [packed records], ne); raises ValueError"""
    if b[:6] != b'SPOC\0\1':
        raise ValueError('signature or version')
    wl, = struct.unpack_from('<H', b, 6)
    w = b[8:8 + wl]
    o = 8 + wl
    ne, n, comp = struct.unpack_from('<BQB', b, o)
    o += 10
    size = 40 + 8 * ne
    if not comp:
        if len(b) != o + n * size:
            raise ValueError('length %d instead of %d' % (len(b), o + n * size))
        return w, comp, [b[o + k * size:o + (k + 1) * size] for k in range(n)], ne
    cols = []
    for s in [8] * 3 + [4] * 2 + [2] * 4 + [8] * ne:
        l, = struct.unpack_from('<Q', b, o)
        o += 8
        c = zlib.decompress(b[o:o + l]) if l else bytes(n * s)
        if len(c) != n * s:
            raise ValueError('column length')
        o += l
        cols.append([c[k * s:(k + 1) * s] for k in range(n)])
    if o != len(b):
        raise ValueError('%d bytes too many' % (len(b) - o))
    return w, comp, [b''.join(c[k] for c in cols) for k in range(n)], ne


class Model:
    def __init__(self, wkt, comp):
        self.wkt, self.comp, self.prs = wkt, comp, []

    def ne(self):
        return len(self.prs[0].extra) if self.prs else 0


def check(f, m, what, deep):
    """The state of f must be that of m."""
    if f.getMajorVersion() != 0 or f.getMinorVersion() != 1:
        return 'the version is %d.%d' % (f.getMajorVersion(), f.getMinorVersion())
    if f.getWKT() != m.wkt:
        return 'the WKT is %r' % f.getWKT()[:50]
    if f.getCompressed() is not m.comp:
        return 'getCompressed() is %r' % f.getCompressed()
    a = f.getPointRecords()
    if len(a) != len(m.prs):
        return '%d records instead of %d' % (len(a), len(m.prs))
    for k, (p, q) in enumerate(zip(a, m.prs)):
        if not samerec(p, q):
            return 'record %d is %r %r instead of %r %r' % (k, frompy(p).v, p.extra[:4], q.v, q.extra[:4])
    if not deep:
        return None
    for k in F:
        c = getattr(f, 'get' + k.upper())()
        w = [q.v[k] for q in m.prs]
        if [dbits(v) for v in c] != [dbits(v) for v in w] if k in 'xyz' else (list(c) != w or any(type(v) is not int for v in c)):
            return 'get%s() is wrong' % k.upper()
    for k in range(m.ne()):
        if list(f.getExtra(k)) != [q.extra[k] for q in m.prs]:
            return 'getExtra(%d) is wrong' % k
    for k, q in enumerate(m.prs):
        if not samerec(f.getPointRecord(k), q):
            return 'getPointRecord(%d) is wrong' % k
    return None


def raises(what, fn, hist):
    try:
        fn()
    except Exception:
        return True
    viol('accepted ' + what.split('(')[0], '%s raises no exception; %s' % (what, hist))
    return False


BADINT = {32: [-1, 1 << 32, 1 << 64, 1 << 70, 1.5, 'a', None, [1]], 16: [-1, 1 << 16, 70000, 1 << 32, 2.5, 'a', None, [1]]}


def history(item):
    global cases
    r = random.Random(SEED * 1000003 + item * 7919 + 22)
    path = os.path.join(D, 'f')
    wkts = ['', 'W', 'PROJCS["x"]', 'caf\u00e9 \u4e2d', 'a\0b', 'x' * 65535, 'y' * 65536, "it's"]
    m = Model(r.choice(wkts), r.random() < .5)
    f = SpocFile(m.wkt, m.comp)
    log = ['SpocFile(%r..., %r)' % (m.wkt[:12], m.comp)]
    kept = []                                       # records taken earlier and what they were
    for step in range(25):
        op = r.choice(['wkt', 'comp', 'setrecs', 'setrecs', 'setrec', 'setrec', 'get', 'badextra', 'badset', 'badget', 'file', 'file', 'file',
                       'badfile', 'mutate', 'new', 'keep', 'header', 'badtype'])
        what = op
        ne = m.ne()
        n = len(m.prs)
        if op == 'wkt':
            m.wkt = r.choice(wkts)
            what = 'setWKT(%d characters)' % len(m.wkt)
            f.setWKT(m.wkt)
        elif op == 'comp':
            m.comp = r.random() < .5
            what = 'setCompressed(%r)' % m.comp
            f.setCompressed(m.comp)
        elif op == 'setrecs':
            k = r.choice([0, 0, 1, 2, 3, 5, 255, 256]) if r.random() < .4 else ne
            a = [grec(r, k) for _ in range(r.choice([0, 1, 2, 3, 10]))]
            what = 'setPointRecords(%d records with %d)' % (len(a), k)
            b = [topy(q, r) for q in a]
            f.setPointRecords(b)
            m.prs = [q.copy() for q in a]
            if b and r.random() < .5:               # the file holds copies
                b[0].x = 12345.0
                b[0].extra = [1] * (k + 1)
        elif op == 'setrec' and n:
            k = r.randrange(n)
            q = grec(r, ne)
            what = 'setPointRecord(%d)' % k
            f.setPointRecord(k, topy(q, r))
            m.prs[k] = q
        elif op == 'get' and n:
            k = r.randrange(n)
            p = f.getPointRecord(k)
            p.c = 77
            p.extra = []
            what = 'getPointRecord(%d), and change what was returned' % k
        elif op == 'keep' and n:
            k = r.randrange(n)
            kept.append((f.getPointRecord(k), m.prs[k].copy()))
            a = f.getPointRecords()
            kept.append((a[k], m.prs[k].copy()))
            what = 'keep record %d' % k
        elif op == 'badextra':
            a = [grec(r, ne) for _ in range(r.choice([2, 3, 8]))]
            k = r.randrange(len(a))
            a[k] = grec(r, ne - 1 if ne and r.random() < .5 else ne + r.choice([1, 2, 100]))
            what = 'setPointRecords(inconsistent)'
            raises(what, lambda: f.setPointRecords([topy(q, r) for q in a]), log[-12:])
        elif op == 'badset':
            if r.random() < .5:
                k = r.choice([n, n + 1, n + 1000, 2**63, 2**64 - 1, 2**64, -1, 1 << 90])
                what = 'setPointRecord(%d of %d)' % (k, n)
                raises(what, lambda: f.setPointRecord(k, topy(grec(r, ne), r)), log[-12:])
            elif n:
                what = 'setPointRecord(wrong number of extra fields)'
                raises(what, lambda: f.setPointRecord(r.randrange(n), topy(grec(r, ne + 1), r)), log[-12:])
        elif op == 'badget':
            if r.random() < .5:
                k = r.choice([n, n + 1, n + 1000, 2**63, 2**64 - 1, 2**64, -1, -n, 1.0, 'a', None])
                what = 'getPointRecord(%r of %d)' % (k, n)
                raises(what, lambda: f.getPointRecord(k), log[-12:])
            else:
                k = r.choice([ne, ne + 1, ne + 1000, 2**63, 2**64 - 1, 2**64, -1, 'a', None])
                what = 'getExtra(%r of %d)' % (k, ne)
                raises(what, lambda: f.getExtra(k), log[-12:])
        elif op == 'badtype':
            t = r.choice([('setWKT', 5), ('setWKT', None), ('setPointRecords', 5), ('setPointRecords', [1, 2]), ('setPointRecords', [None]),
                          ('setPointRecords', None), ('setPointRecord', 0), ('getX', 1), ('setPointRecords', 'abc')])
            what = '%s(%r)' % t
            raises(what, lambda: getattr(f, t[0])(t[1]), log[-12:])
            raises('SpocFile(bad)', lambda: SpocFile(*r.choice([(), (1,), ('a',), (None, True), ([], True), ('a', True, [])])), log[-12:])
            raises('readspocfile(bad)', lambda: readspocfile(r.choice([None, 5, ['a']])), log[-12:])
            raises('writespocfile(bad)', lambda: writespocfile(os.path.join(D, 'no'), r.choice([None, 5, PointRecord()])), log[-12:])
        elif op == 'mutate':
            q = grec(r, r.choice([0, 1, 3]))
            p = topy(q, r)
            for _ in range(4):
                k = r.choice(F + 'e')
                if k in 'xyz':
                    v = r.choice(['a', None, [1], {}, 1j, 10**400])
                    ok = raises('PointRecord.%s = %r' % (k, str(v)[:20]), lambda: setattr(p, k, v), log[-3:])
                elif k == 'e':
                    v = r.choice([[-1], [1, 1 << 64], [1, 1.5], 'abc', None, 5, [None]])
                    ok = raises('PointRecord.extra = %r' % (v,), lambda: setattr(p, 'extra', v), log[-3:])
                else:
                    v = r.choice(BADINT[U[k]])
                    ok = raises('PointRecord.%s = %r' % (k, v), lambda: setattr(p, k, v), log[-3:])
                if not samerec(p, q):
                    viol('record-setter', 'a refused assignment to %s changed the record: %r' % (k, v))
                k = r.choice(F)
                q.v[k] = gdouble(r) if k in 'xyz' else gint(r, U[k])
                setattr(p, k, q.v[k])
                if r.random() < .3:
                    q.extra = [gint(r, 64) for _ in range(r.choice([0, 1, 5]))]
                    p.extra = q.extra
                if r.random() < .2 :                # whole numbers are numbers
                    q.v['x'] = float(r.randrange(1 << 50))
                    p.x = int(q.v['x'])
                if not samerec(p, q):
                    viol('record-setter', 'after an assignment to %s the record is %r instead of %r' % (k, frompy(p).v, q.v))
            what = 'record setters'
        elif op == 'file':
            k = r.random()
            if k < .4:                          # over an existing file, often a longer one
                with open(path, 'wb') as g:
                    g.write(r.choice([b'x', b'\0', b'SPOC']) * r.choice([0, 1, 10, 1000, 30000]))
            elif k < .7 and os.path.exists(path):
                os.unlink(path)
            what = 'writespocfile (%d records with %d, WKT of %d, %r) and read back' % (n, ne, len(m.wkt), m.comp)
            fits = ne <= 255 and len(m.wkt.encode()) <= 65535
            if not fits:
                raises('writespocfile(too large a header)', lambda: writespocfile(path, f), log[-12:])
            else:
                writespocfile(path, f)
                b = open(path, 'rb').read()
                try:
                    w, c, recs, e = decode(b)
                    bad = None
                    if w != m.wkt.encode() or bool(c) != m.comp or c > 1 or recs != [q.pack() for q in m.prs] or e != ne:
                        bad = 'the file holds something else'
                except (ValueError, struct.error, zlib.error) as x:
                    bad = 'the file is not valid: %s' % x
                if bad:
                    viol('file-content', '%s; %s; %s' % (what, bad, log[-12:]))
                h = readheader(path)
                if (h.major_version, h.minor_version, h.wkt, h.extra_fields, h.total_points, h.compressed) != (0, 1, m.wkt, ne, n, int(m.comp)):
                    viol('header', '%s: readheader() gives %r' % (what, (h.wkt[:20], h.extra_fields, h.total_points, h.compressed)))
                f = readspocfile(path)
                if n and r.random() < .3:           # a file of another program: the same by the format
                    m.comp = r.random() < .5
                    open(path, 'wb').write(encode(m))
                    f = readspocfile(path)
                    what += ', and a file written by another program'
        elif op == 'header':
            small = Model(m.wkt if len(m.wkt.encode()) < 60000 else 'w', m.comp)
            open(path, 'wb').write(encode(small))
            h = readheader(path)
            for k, top in (('major_version', 255), ('minor_version', 255), ('extra_fields', 255), ('compressed', 1), ('total_points', 2**64 - 1)):
                v = r.choice([0, 1, top])
                setattr(h, k, v)
                if getattr(h, k) != v:
                    viol('header-setter', 'Header.%s = %r stores %r' % (k, v, getattr(h, k)))
                for bad in (-1, 'a', None, 1 << 64, 1.5) + ((256,) if top == 255 else ()):
                    raises('Header.%s = %r' % (k, bad), lambda: setattr(h, k, bad), log[-3:])
                    if getattr(h, k) != v:
                        viol('header-setter', 'a refused assignment changed Header.%s' % k)
            h.wkt = 'new \u00e9'
            if h.wkt != 'new \u00e9':
                viol('header-setter', 'Header.wkt')
        elif op == 'badfile':
            k = r.choice(['missing', 'dir', 'cut', 'garbage', 'nodir', 'full', 'isdir', 'flip' if opt.get('flip') == '1' else 'cut', 'empty'])
            what = 'file ' + k
            if k == 'missing':
                raises('readspocfile(missing)', lambda: readspocfile(os.path.join(D, 'nothing')), log[-3:])
                raises('readheader(missing)', lambda: readheader(os.path.join(D, 'nothing')), log[-3:])
            elif k == 'dir':
                raises('readspocfile(directory)', lambda: readspocfile(D), log[-3:])
                raises('readheader(directory)', lambda: readheader(D), log[-3:])
            elif k == 'nodir':
                raises('writespocfile(no such directory)', lambda: writespocfile(os.path.join(D, 'no', 'f'), f), log[-3:])
            elif k == 'isdir':
                raises('writespocfile(directory)', lambda: writespocfile(D, f), log[-3:])
            elif k == 'full':
                raises('writespocfile(full device)', lambda: writespocfile('/dev/full', f), log[-3:])
            else:
                s = Model('WKT', r.random() < .5)
                s.prs = [grec(r, r.choice([0, 1])) for _ in range(r.choice([1, 2, 20]))]
                for q in s.prs:
                    q.extra = s.prs[0].extra
                b = bytearray(encode(s))
                if k == 'cut':
                    b = b[:r.randrange(len(b))]
                elif k == 'empty':
                    b = b''
                elif k == 'garbage':
                    b = bytes(r.getrandbits(8) for _ in range(r.choice([1, 4, 30, 1000])))
                else:
                    for _ in range(r.choice([1, 2, 5])):
                        b[r.randrange(len(b))] = r.choice([0, 255, r.getrandbits(8)])
                    # keep the counts small: what a damaged count asks for is another check's business
                    w = 8 + struct.unpack_from('<H', b, 6)[0]
                    if len(b) > w + 9:
                        b[w + 3:w + 9] = bytes(6)
                open(path, 'wb').write(b)
                if k == 'flip':
                    try:
                        t = readspocfile(path)
                        t.getX()
                        t.getPointRecords()
                    except Exception:
                        pass
                else:
                    raises('readspocfile(%s)' % k, lambda: readspocfile(path), log[-3:])
        elif op == 'new':
            f2 = SpocFile('other', not m.comp)
            f2.setPointRecords(f.getPointRecords())
            if len(f2.getPointRecords()) != n or f.getWKT() != m.wkt:
                viol('independent', 'two files share their state')
            if n:
                q = grec(r, ne)
                f2.setPointRecord(0, topy(q, r))
            del f2
            what = 'another SpocFile'
        log.append(what)
        e = check(f, m, what, step % 3 == 0)
        if e:
            viol('state-after ' + op, '%s: %s; history: %s' % (what, e, log[-12:]))
            return
        for p, q in kept:
            if not samerec(p, q):
                viol('kept-record', 'a record obtained earlier has changed; %s' % log[-12:])
                return
        cases += 1
        counts[op] = counts.get(op, 0) + 1
        keys.add('%s|%d|%d|%r' % (what[:60], n, ne, m.comp))


if opt.get('version', '1') == '1' and (getmajorversion(), getminorversion()) != (0, 1):
    viol('version', 'the version functions')
for item in range(SHARD, ITEMS, SHARDS):
    print('AT item %d' % item, flush=True)
    try:
        history(item)
    except Exception:
        import traceback
        viol('unexpected-exception', 'item %d: %s' % (item, traceback.format_exc()[-1200:]))
flush()
