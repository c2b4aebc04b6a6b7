import os, sys, struct, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M

ck = Check('C02', 'exploration',
           'clouds over counts x extras x content styles x WKT, written by the library and parsed by an independent '
           'codec, and written by the independent codec (all zlib levels, window sizes, elision on/off) and read by '
           'the library; wrong signature/version/encoding must be refused; non-trivial: at least one record',
           min_events=1500)
ck.build([('codec', VERIF + '/harness/codec.cpp', 'san', []), ('codecd', VERIF + '/harness/codec.cpp', 'dbg', [])])
CODEC = [ck.bin['codec'], ck.bin['codecd']]
WORK = ck.work

NS = [0, 1, 2, 3, 5, 24, 25, 26, 50, 51, 100, 256, 257, 1000, 1024]
NES = [0, 1, 2, 3, 7, 8, 9, 16, 60, 61, 122, 123, 124, 125, 200, 254, 255]
BIG = [(65535, 0), (65536, 1), (65537, 0), (131071, 0), (131072, 0), (131073, 0), (140000, 1), (262144, 0)]


class Batch:
    def __init__(self, item):
        self.d = os.path.join(WORK, 'b%d' % item)
        os.makedirs(self.d)
        self.cmds, self.k = [], 0

    def add(self, cmd, data, how, meta):
        a, b = '%s/%d.in' % (self.d, self.k), '%s/%d.out' % (self.d, self.k)
        self.k += 1
        with open(a, 'wb') as f:
            f.write(data)
        self.cmds.append((cmd, a, b, how, meta, data))

    def go(self, res, exe):
        inp = '\n'.join('%s %s %s %s' % c[:4] for c in self.cmds).encode() + b'\n'
        r = run([exe], inp, cpu=200, wall=400)
        rs = [l[4:] for l in r.out.decode('utf8', 'replace').splitlines() if l.startswith('RES ')]
        out = []
        for k, c in enumerate(self.cmds):
            if k >= len(rs):
                res.violation('codec-abnormal', 'the library %s while doing %s %s (%s)' %
                              (r.bad or 'ended early rc=%d' % r.rc, c[0], c[3], c[4]), {'input': c[5], 'stderr': r.err})
                break
            data = None
            if rs[k] == 'OK':
                with open(c[2], 'rb') as f:
                    data = f.read()
            out.append((c, rs[k], data))
        shutil.rmtree(self.d)
        return out


def enc_variant(r, c):
    """A conforming file that the library's own writer would not produce like this."""
    if not c.compressed:
        return M.encode(c), 'uncompressed'
    kind = int(r.integers(4))
    if kind == 0:
        lv = int(r.integers(-1, 10))
        return M.encode(c, level=lv), 'level %d' % lv
    if kind == 1:
        lv = int(r.integers(-1, 10))
        return M.encode(c, level=lv, elide=False), 'level %d without elision' % lv
    out = [M.header(c.wkt, c.ne, c.n, True)]
    for v in [c.cols[f] for f in M.FIELDS] + list(c.e):
        raw = v.tobytes()
        if raw.count(0) == len(raw) and r.random() < .5:
            out.append(struct.pack('<Q', 0))
            continue
        o = zlib.compressobj(int(r.integers(0, 10)), zlib.DEFLATED, int(r.integers(9, 16)), int(r.integers(1, 10)),
                             int(r.integers(0, 5)))
        k = len(raw) // 2
        z = o.compress(raw[:k])
        if r.random() < .5:
            z += o.flush([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH][int(r.integers(2))])
        z += o.compress(raw[k:]) + o.flush()
        out.append(struct.pack('<Q', len(z)) + z)
    return b''.join(out), 'mixed zlib parameters'


def make(item):
    r = M.rng_for(SEED, 2, item)
    clouds = []
    if item >= 100000:
        n, ne = BIG[item - 100000]
        for comp in (0, 1):
            clouds.append(M.gen_cloud(r, n, ne, compressed=bool(comp), styles=M.ALL_STYLES))
    else:
        for _ in range(16):
            n, ne = int(r.choice(NS)), int(r.choice(NES if r.random() < .5 else [0, 0, 1, 2, 3]))
            if n * ne > 40000:
                n = 25
            c = M.gen_cloud(r, n, ne, styles=M.ALL_STYLES)
            if r.random() < .1:
                c.wkt = bytes(r.integers(0, 256, int(r.choice([255, 256, 257, 32767, 32768, 65534, 65535])), dtype='u1'))
            if r.random() < .1:
                c.cols['x'] = r.choice(M.NAN_PAYLOADS, n)
            clouds.append(c)
    return r, clouds


def case(item):
    res = Res()
    r, clouds = make(item)
    b = Batch(item)
    n_bad = 0
    for c in clouds:
        hows = ['generic', 'compressed' if c.compressed else 'uncompressed'] + ([] if c.compressed else ['streamed'])
        for how in hows:
            b.add('w', M.neutral(c), how, ('write', c))
        v, name = enc_variant(r, c)
        for how in hows:
            b.add('r', v, how, ('read ' + name, c))
        # encoding-specific functions refuse the other encoding
        b.add('w', M.neutral(c), 'uncompressed' if c.compressed else 'compressed', ('wrong', c))
        b.add('r', v, 'uncompressed' if c.compressed else 'compressed', ('wrong', c))
        # wrong signature or version
        if r.random() < .6:
            k = int(r.integers(6))
            bad = bytearray(v)
            bad[k] = (bad[k] + int(r.integers(1, 256))) % 256
            for how in hows:
                b.add('r', bytes(bad), how, ('bad', c))
            b.add('h', bytes(bad), '-', ('bad', c))
        # every other value of each byte of the signature and the version, spread over the items
        if n_bad < 48 and len(v) < 3000:
            for _ in range(24):
                k, d = divmod((item % 100000) * 48 + n_bad, 255)
                n_bad += 1
                bad = bytearray(v)
                bad[k % 6] = (bad[k % 6] + d + 1) % 256
                b.add('r', bytes(bad), hows[n_bad % len(hows)], ('bad', c))
                b.add('h', bytes(bad), '-', ('bad', c))
        # headers by themselves
        total = M.pick(r, [0, 1, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1])
        ne, comp = int(r.integers(256)), int(r.integers(2))
        b.add('g', b'%d %d %d\n' % (ne, total, comp) + c.wkt, '-', ('header', (c.wkt, ne, total, comp)))
        b.add('h', M.header(c.wkt, ne, total, comp) + b'rest', '-', ('parse', (c.wkt, ne, total, comp)))
    if item < 100000 and item % 4 == 0:
        c = M.gen_cloud(r, 2, 1, wkt=b'w' * int(r.choice([65536, 65537, 70000, 131072])))
        b.add('w', M.neutral(c), 'generic', ('wrong', c))
    exe = CODEC[item % 2]
    for cmd, rs, data in b.go(res, exe):
        kind, c = cmd[4]
        what = 'command %s %s (%s)' % (cmd[0], cmd[3], kind)
        files = {'input.bin': cmd[5], 'output.bin': data or b''}
        if kind in ('wrong', 'bad'):
            res.case()
            res.count('refusals_expected')
            if rs == 'OK':
                res.violation('accepted-' + kind, '%s: %s was accepted' % (what, {
                    'wrong': 'a cloud or file of the other encoding, or an SRS that is too long,',
                    'bad': 'a file with a wrong signature or version (first bytes %r)' % cmd[5][:6]}[kind]), files)
            continue
        if rs != 'OK':
            res.case()
            res.violation('refused', '%s was refused: %s' % (what, rs), files)
            continue
        if kind == 'header':
            res.case(('h',) + c)
            want = M.header(*c)
            if data != want:
                res.violation('header-bytes', 'header %r is written as %r instead of %r' % (c[1:], data[:40], want[:40]), files)
        elif kind == 'parse':
            res.case(('p',) + c)
            want = b'0 1 %d %d %d %d\n' % (c[1], c[2], c[3], 18 + len(c[0])) + c[0]
            if data != want:
                res.violation('header-parse', 'header %r is read as %r instead of %r' % (c[1:], data[:60], want[:60]), files)
        elif kind == 'write':
            res.case((c.n, c.ne, len(c.wkt), c.compressed, data[-64:]) if c.n else None)
            res.count('files_parsed')
            try:
                d = M.decode(data)
            except M.FormatError as e:
                res.violation('bad-file', '%s: n=%d extra=%d: the file written is not conforming: %s' % (what, c.n, c.ne, e), files)
                continue
            if c.n and d.ne != c.ne:
                res.violation('file-extra', '%s: extra field count %d instead of %d' % (what, d.ne, c.ne), files)
                continue
            m = M.diff_clouds(c, d)
            if m:
                res.violation('file-content', '%s: the file written holds something else: %s' % (what, m), files)
            if not c.compressed and data != M.encode(c, ne=(c.ne if c.n else 0)):
                res.violation('file-bytes', '%s: bytes differ' % what, files)
        else:
            res.case((c.n, c.ne, len(c.wkt), c.compressed, kind, cmd[5][-64:]) if c.n else None)
            res.count('foreign_files_read')
            m = M.diff_clouds(c, M.from_neutral(data))
            if m:
                res.violation('read-content', '%s: %s' % (what, m), files)
    res.sample('n=%d extra=%d wkt=%d bytes compressed=%s x[0]=%r' % (c.n, c.ne, len(c.wkt), c.compressed, c['x'][:1])
               if isinstance(c, M.Cloud) else repr(c)[:200])
    return res


ck.map(case, list(range(scale(60, 2000))) + [100000 + k for k in range(len(BIG))])
ck.finish()
