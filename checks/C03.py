import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import ops as O

ck = Check('C03', 'exploration',
           'files of both encodings over counts x extras x WKT x content; every truncation (sampled for large files) '
           'through every library reader from whole, fragmented and failing streams, sampled truncations through every tool '
           'command from files and pipes; each must be an error; non-trivial: a distinct (file, cut decile, reader, '
           'delivery) or (tool command, encoding, cut class, delivery)', min_events=20000)
apps = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform', 'noop',
        'stream_averaging']
ck.build([('c03.san', VERIF + '/harness/c03.cpp', 'san', []), ('c03.rel', VERIF + '/harness/c03.cpp', 'rel', [])])
ck.build_apps(apps, ['rel'])
D = ck.work + '/files'
os.makedirs(D)
r = M.rng_for(SEED, 3)
SPEC = [(0, 0, 0), (1, 0, 0), (1, 2, 30), (3, 1, 300), (25, 0, 3), (26, 3, 0), (60, 1, 1), (2, 255, 0), (200, 0, 2),
        (3000, 1, 8), (700, 125, 9)]
k = 0
for n, ne, wl in SPEC + ([(int(r.integers(1, 300)), int(r.integers(6)), int(r.integers(50))) for _ in range(scale(4, 60))]):
    for comp in (0, 1):
        # busy columns, mixed ones, and ones whose last column is all zero or constant
        for st in ([None, 'full', 'zero'] if n < 700 else [None]):
            c = M.gen_cloud(r, n, ne, wkt=bytes(r.integers(1, 256, wl, dtype='u1')), compressed=bool(comp),
                            styles=M.ALL_STYLES, int_style=st)
            with open('%s/%03d.spoc' % (D, k), 'wb') as f:
                f.write(M.encode(c))
            k += 1
ck.count('files', k)
run_harness(ck, 'c03.rel', ['dir=' + D, 'budget=%d' % scale(1200, 20000)], NPROC)
run_harness(ck, 'c03.san', ['dir=' + D, 'budget=%d' % scale(60, 1500), 'stride=%d' % scale(20, 3)], NPROC)

# ------------------------------------------------------------- the tools
OPS = O.point_ops() + O.header_ops() + [
    O.Op('noop', enc='u', io='in', streaming=True), O.Op('stream_averaging', enc='u', out='text', io='in')]


def cli(item):
    oi, comp, rep = item
    op = OPS[oi]
    res = Res()
    r = M.rng_for(SEED, 33, oi, comp, rep)
    d = '%s/cli%d-%d-%d' % (ck.work, oi, comp, rep)
    os.makedirs(d)
    n = int(r.integers(2, 12))
    c = M.gen_cloud(r, n, 1, compressed=bool(comp), styles=['small', 'half'], wkt=b'W' * int(r.integers(0, 20)),
                    int_style='small' if rep % 2 else None)
    good = M.encode(c)
    hs = 18 + len(c.wkt)
    open(d + '/good', 'wb').write(good)
    open(d + '/vals', 'w').write('\n'.join(str(v) for v in range(n)) + '\n')
    exe = ck.bin[op.app + '.rel']
    sub = {'@GOOD@': d + '/good', '@VALS@': d + '/vals', '@DIR@': d}

    def invoke(data, how, tag):
        inp = d + '/in.spoc'
        out = d + '/out.spoc'
        for x in os.listdir(d):
            if x not in ('good', 'vals'):
                os.unlink(d + '/' + x)
        if how == 'file' and op.app not in ('noop', 'stream_averaging'):
            open(inp, 'wb').write(data)
            rr = run(op.argv(exe, inp, out if op.io in ('inout', 'srs') else None, sub), cpu=20)
            o = open(out, 'rb').read() if os.path.exists(out) else b''
            return rr, rr.out + o, sorted(x for x in os.listdir(d) if x[:1] == 't')
        if op.io in ('two', 'two2'):
            # the truncated file arrives through a pipe
            a = op.argv('x', '/dev/stdin', None, sub)
        else:
            a = op.argv('x', None, None, sub)
        rr = run([exe] + a[1:], data, cpu=20)
        return rr, rr.out, sorted(x for x in os.listdir(d) if x[:1] == 't')

    full, fullout, tiles = invoke(good, 'pipe', 'full')
    if full.rc != 0 and not (op.app == 'diff' and full.rc in (1, 255)):
        raise RuntimeError('%s fails on the complete file: %s %s' % (op.name, full.rc, full.err))
    end = hs if op.header_only else len(good)
    cuts = {0, 1, 3, 4, 5, 6, 7, 8, hs - 1, hs - 2, hs - 9, hs - 10, end - 1, end - 2, end - 8, end - 9}
    if not op.header_only:
        cuts |= {hs, hs + 1, hs + 7, hs + 8, hs + 40, len(good) - 40, len(good) - 16}
        cuts |= {int(x) for x in r.integers(hs, len(good), 4)}
    cuts = sorted(x for x in cuts if 0 <= x < end)
    if not THOROUGH:
        cuts = sorted({cuts[-1]} | {cuts[int(x)] for x in r.integers(0, len(cuts), 7)})
    for cut in cuts:
        how = 'file' if r.random() < .5 else 'pipe'
        rr, out, tl = invoke(good[:cut], how, cut)
        res.case(('cli', op.name, comp, 'h' if cut < hs else 'e' if cut > len(good) - 9 else 'm', how))
        res.count('tool_runs')
        desc = '%s (%s) on the first %d of %d bytes (header %d) of a %s file' % (
            op.name, how, cut, len(good), hs, 'compressed' if comp else 'uncompressed')
        files = {'input.spoc': good[:cut], 'complete.spoc': good, 'stderr': rr.err}
        if rr.bad:
            res.violation('tool-abnormal', desc + ': ' + rr.bad, files, shq(rr.cmd))
        elif rr.rc == 0 or (op.app == 'diff' and rr.rc == 1):
            res.violation('tool-accepted', desc + ': exit status %d' % rr.rc, files, shq(rr.cmd))
        elif op.streaming:
            # what was emitted before the error must be what the complete file gives
            if not fullout.startswith(out):
                files['out'] = out
                res.violation('tool-output', desc + ': invented output', files, shq(rr.cmd))
        elif out or tl:
            files['out'] = out
            res.violation('tool-output', desc + ': an output of %d bytes was written (%s)' % (len(out), tl), files, shq(rr.cmd))
    shutil.rmtree(d)
    return res


items = [(k, c, rep) for rep in range(scale(2, 12)) for k, op in enumerate(OPS) for c in (0, 1) if 'uc'[c] in op.enc]
ck.map(cli, items)
ck.finish()
