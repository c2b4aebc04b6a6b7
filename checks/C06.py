import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M

ck = Check('C06', 'exploration',
           'zlib layer: sizes around the 1 MiB buffers, all levels, all producers x all consumers x zlib itself, damaged '
           'streams, streams that fail; tools: compress/decompress byte identity over clouds x encodings x files/streams x chains; '
           'non-trivial: distinct (size, content, level, producer, consumer) or cloud with points', min_events=3000)
ck.build([('c06.rel', VERIF + '/harness/c06.cpp', 'rel', ['-D_GLIBCXX_ASSERTIONS'])] +
         ([('c06.san', VERIF + '/harness/c06.cpp', 'san', [])] if THOROUGH else []))
ck.build_apps(['compress', 'decompress'], ['rel', 'san'])
run_harness(ck, 'c06.rel', [], NPROC)
if THOROUGH:
    run_harness(ck, 'c06.san', [], NPROC, cpu=7200, wall=7200)

NS = [0, 1, 2, 3, 24, 25, 26, 51, 100, 1000]


def one(item):
    res = Res()
    r = M.rng_for(SEED, 6, item)
    d = '%s/t%d' % (ck.work, item)
    os.makedirs(d)
    big = item >= 100000
    n = [131071, 131072, 131073, 200000][item - 100000] if big else int(r.choice(NS)) if r.random() < .5 else int(r.integers(0, 400))
    ne = int(r.choice([0, 0, 1, 2, 5, 255])) if n < 60 else int(r.integers(0, 3))
    c = M.gen_cloud(r, n, 0 if n == 0 else ne, compressed=False, styles=['bits'] if big else M.ALL_STYLES)
    v = 'rel' if big or item % 4 else 'san'
    th = {'OMP_NUM_THREADS': str(int(r.choice([1, 1, 3])))}
    U = M.encode(c)

    def go(app, data, how):
        exe = ck.bin['%s.%s' % (app, v)]
        if how == 'file':
            open(d + '/i', 'wb').write(data)
            if os.path.exists(d + '/o'):
                os.unlink(d + '/o')
            rr = run([exe, d + '/i', d + '/o'], env=th)
            return rr, open(d + '/o', 'rb').read() if os.path.exists(d + '/o') else b''
        rr = run([exe], data, env=th)
        return rr, rr.out

    hows = [M.pick(r, ['file', 'pipe']) for _ in range(4)]
    files = {'original.spoc': U}
    desc = '%d points, %d extra, wkt %d bytes, %s' % (n, c.ne, len(c.wkt), v)
    res.case((n, c.ne, item) if n else None)
    res.count('tool_round_trips')
    z, Z = go('compress', U, hows[0])
    if z.rc != 0 or z.bad:
        res.violation('compress-failed', 'spoc_compress (%s) on %s: %s' % (hows[0], desc, z.bad or z.err[-300:]), files)
        return res
    files['compressed.spoc'] = Z
    try:
        got = M.decode(Z)
    except M.FormatError as e:
        res.violation('compress-bad', 'spoc_compress (%s) on %s: not a valid file: %s' % (hows[0], desc, e), files)
        return res
    want = c.copy()
    want.compressed = True
    m = M.diff_clouds(want, got)
    if m:
        res.violation('compress-content', 'spoc_compress (%s) on %s: %s' % (hows[0], desc, m), files)
    # a compressed file of another writer
    F = M.encode(c, True, level=int(r.integers(-1, 10)), elide=bool(r.integers(2)))
    for name, data in (('own', Z), ('foreign', F)):
        u, V = go('decompress', data, hows[1])
        res.case()
        if u.rc != 0 or u.bad:
            res.violation('decompress-failed', 'spoc_decompress (%s) on %s: %s' % (hows[1], desc, u.bad or u.err[-300:]), files)
        elif V != U:
            k = next((k for k in range(min(len(U), len(V))) if U[k] != V[k]), min(len(U), len(V)))
            files['decompressed.spoc'] = V
            res.violation('not-identical', 'compress then decompress (%s file, %s) changes %s: %d bytes became %d, first '
                          'difference at %d' % (name, hows[1], desc, len(U), len(V), k), files)
    # compressing again what was decompressed gives the same bytes
    z2, Z2 = go('compress', U, hows[2])
    res.case()
    if z2.rc != 0 or Z2 != Z:
        res.violation('not-repeatable', 'compressing again gives other bytes for %s' % desc, files)
    # the other encoding is refused and nothing is written
    for app, data in (('compress', Z), ('compress', F), ('decompress', U)):
        x, X = go(app, data, hows[3])
        res.case()
        res.count('refusals_expected')
        if x.rc == 0 or x.bad or X:
            res.violation('wrong-encoding', 'spoc_%s (%s) on the other encoding: exit status %d, %d bytes, %s' %
                          (app, hows[3], x.rc, len(X), x.bad), files)
    res.sample(desc + ': %d -> %d -> %d bytes' % (len(U), len(Z), len(V)))
    shutil.rmtree(d)
    return res


ck.map(one, list(range(scale(150, 4000))) + [100000 + k for k in range(scale(2, 4))])

# a cloud without points whose header announces extra fields
c = M.Cloud(0, 3, b'W')
U = M.encode(c)
z = run([ck.bin['compress.rel']], U)
u = run([ck.bin['decompress.rel']], z.out)
ck.case(('empty-extra',))
if z.rc or u.rc or u.out != U:
    ck.violation('empty-extra', 'compress then decompress of a file with 0 points and 3 extra fields gives %r instead of %r' %
                 (u.out, U), {'original.spoc': U})
ck.finish()
