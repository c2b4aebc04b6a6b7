import os, sys, struct, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import ops as O

ck = Check('C04', 'exploration',
           'structure-aware mutations (bytes, header fields, column lengths, payloads, foreign streams, splices) of '
           'files of both encodings through all library readers under ASan+UBSan with a memory budget and a CPU limit, '
           'judged by an independent decoder; mutated and non-finite files through every tool command; non-trivial: a '
           'distinct (mutation sequence, outcome) or (tool command, outcome)', min_events=20000)
apps = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform', 'noop',
        'stream_averaging']
ck.build([('c04.san', VERIF + '/harness/c04.cpp', 'san', ['-D_GLIBCXX_ASSERTIONS']),
          ('c04.dbg', VERIF + '/harness/c04.cpp', 'dbg', [])])
ck.build_apps(apps, ['san'] if not THOROUGH else ['san', 'dbg'])
D = ck.work + '/pool'
os.makedirs(D)
r = M.rng_for(SEED, 4)
k = 0
for n, ne in [(0, 0), (1, 0), (1, 3), (2, 1), (5, 0), (7, 2), (26, 1), (40, 4), (120, 0), (3, 255), (900, 2)]:
    for comp in (0, 1):
        for st in (None, 'full', 'zero'):
            c = M.gen_cloud(r, n, ne, compressed=bool(comp), styles=M.ALL_STYLES, int_style=st,
                            wkt=bytes(r.integers(32, 127, int(r.integers(0, 30)), dtype='u1')))
            open('%s/%03d' % (D, k), 'wb').write(M.encode(c, level=int(r.integers(-1, 10))))
            k += 1
ST = ck.work + '/status'


def harness(name, iters, mb):
    nv = ck.nviol
    run_harness(ck, name, ['dir=' + D, 'status=' + ST, 'iters=%d' % iters, 'mb=%d' % mb], NPROC, cpu=scale(300, 3600), wall=scale(700, 7200))
    if ck.nviol > nv:
        # keep the inputs beside the report
        d = os.path.join(ck.replay_root, '%03d' % ck.nviol)
        for f in glob.glob(ST + '.*'):
            b = open(f, 'rb').read()
            if '.bad' not in f:
                n, = struct.unpack_from('<Q', b)
                b = b[8:8 + n]
            open(os.path.join(d, os.path.basename(f)), 'wb').write(b)


harness('c04.san', scale(16000, 600000), 160)
harness('c04.dbg', scale(20000, 600000), 600)

# ------------------------------------------------------------- the tools
OPS = [o for o in O.point_ops() + O.header_ops() if o.io != 'x'] + [
    O.Op('noop', enc='u', io='in', streaming=True), O.Op('stream_averaging', enc='u', out='text', io='in'),
    O.Op('info', ['-j', '-q', '-s', '-m'], out='text', io='in'), O.Op('info', ['-q', '-m', '-c'], out='text', io='in'),
    O.Op('info', out='text', io='in'), O.Op('tile', ['--tile-size', '0.75', '-f', '-p', '@DIR@/t'], out='tiles', io='in'),
    O.Op('tile', ['-x', '1e-3', '-f', '-p', '@DIR@/t'], out='tiles', io='in'),
    O.Op('tile', ['-t', '9', '-f', '-p', '@DIR@/t'], out='tiles', io='in')]


def mutate(b, r, hs, comp):
    b = bytearray(b)
    for _ in range(int(r.integers(1, 4))):
        k = int(r.integers(9))
        if k == 0 and len(b):
            b[int(r.integers(len(b)))] ^= 1 << int(r.integers(8))
        elif k == 1 and len(b) > hs:
            b[int(r.integers(hs, len(b)))] = int(r.integers(256))
        elif k == 2:
            b[hs - 10:hs - 9] = bytes([int(r.integers(256)) if r.random() < .5 else int(r.integers(3))])
        elif k == 3:
            n = M.pick(r, [0, 1, 2, 3, 9, 100, 60000, 2 ** 40, 2 ** 57, 2 ** 62, 2 ** 64 - 1])
            b[hs - 9:hs - 1] = struct.pack('<Q', n)
        elif k == 4:
            b[hs - 1:hs] = bytes([int(r.integers(3))])
        elif k == 5:
            b[int(r.integers(len(b) + 1)):] = b''
        elif k == 6:
            b[hs:hs + 8] = struct.pack('<Q', M.pick(r, [0, 1, 30, 2 ** 20, 2 ** 33, 2 ** 63, 2 ** 64 - 1]))
        elif k == 7:
            b += bytes(r.integers(0, 256, int(r.integers(1, 50)), dtype='u1'))
        else:
            o = int(r.integers(len(b) + 1))
            b[o:o] = bytes(r.integers(0, 256, int(r.integers(1, 9)), dtype='u1'))
    return bytes(b)


def cli(item):
    oi, rep = item
    op = OPS[oi]
    res = Res()
    r = M.rng_for(SEED, 44, oi, rep)
    d = '%s/cli%d-%d' % (ck.work, oi, rep)
    os.makedirs(d)
    v = 'dbg' if THOROUGH and rep % 3 == 0 else 'san'
    exe = ck.bin['%s.%s' % (op.app, v)]
    sub = {'@GOOD@': d + '/good', '@VALS@': d + '/vals', '@DIR@': d}
    for it in range(6):
        comp = 'uc'.index(op.enc) if len(op.enc) == 1 else int(r.integers(2))
        n = int(r.integers(1, 12))
        hostile = r.random() < .35
        c = M.gen_cloud(r, n, 1, compressed=bool(comp), styles=M.ALL_STYLES if hostile else ['small', 'half'],
                        wkt=b'W' * int(r.integers(0, 20)))
        good = M.encode(c)
        open(d + '/good', 'wb').write(M.encode(M.gen_cloud(r, 3, 1, compressed=bool(comp), styles=['small'])))
        open(d + '/vals', 'w').write('\n'.join(str(x) for x in range(60)) + '\n')
        b = good if hostile and r.random() < .5 else mutate(good, r, 18 + len(c.wkt), comp)
        try:
            M.decode(b, strict=False)
            valid = True
        except M.FormatError:
            valid = False
        except (MemoryError, ValueError, OverflowError):
            valid = None
        a = op.argv('x', '/dev/stdin' if op.io in ('two', 'two2') else None, None, sub)
        # ASan reserves address space: memory is bounded through its own limit instead
        rr = run([exe] + a[1:], b, cpu=30, env={'ASAN_OPTIONS': BASE_ENV['ASAN_OPTIONS'].replace(
            'allocator_may_return_null=0', 'allocator_may_return_null=1:max_allocation_size_mb=512')})
        oom = v == 'san' and (b'out-of-memory' in rr.err or b'allocation-size-too-big' in rr.err or
                              b'out of memory' in rr.err)
        key = (op.name, rr.rc == 0, valid, hostile)
        res.case(key)
        res.count('tool_runs')
        if oom:
            # the sanitizer's allocator ends the program where the real one throws
            res.count('ended_by_sanitizer_allocator')
            continue
        files = {'input.spoc': b, 'original.spoc': good, 'good.spoc': open(d + '/good', 'rb').read(), 'stderr': rr.err}
        desc = '%s on a %s file (%d bytes)' % (op.name, 'hostile' if b == good else 'mutated', len(b))
        if rr.bad:
            res.violation('tool-abnormal', desc + ': ' + rr.bad, files, shq(rr.cmd))
        elif rr.rc == 0 and valid is False and not op.header_only and op.name != 'noop' and b[hsz(b) - 1:hsz(b)] in (b'\0', b'\1'):
            res.violation('tool-accepted', desc + ': corrupt data were accepted', files, shq(rr.cmd))
        for x in os.listdir(d):
            if x[:1] == 't':
                os.unlink(d + '/' + x)
    shutil.rmtree(d)
    return res


def hsz(b):
    return 18 + struct.unpack_from('<H', b, 6)[0] if len(b) >= 8 else 0


ck.map(cli, [(k, rep) for rep in range(scale(3, 60)) for k in range(len(OPS))])

# ------------------------------------------------------------- real memory limits, release build
RL = ['compress', 'decompress', 'info', 'filter', 'tool']
ck.build_apps(RL, ['rel'])


def claims(item):
    res = Res()
    r = M.rng_for(SEED, 45, item)
    app = RL[item % len(RL)]
    comp = int(app != 'compress' and (app == 'decompress' or r.random() < .6))
    n = M.pick(r, [10 ** 5, 10 ** 6, 3 * 10 ** 6, 10 ** 7, 10 ** 8, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 56, 2 ** 58, 2 ** 61, 2 ** 64 - 1])
    ne = M.pick(r, [0, 0, 1, 8, 255])
    b = M.header(b'', ne, n, comp)
    full = comp and r.random() < .6
    if comp:
        sizes = [0 if full or r.random() < .8 else M.pick(r, [1, 10, 2 ** 31, 2 ** 40, 2 ** 63, 2 ** 64 - 1]) for _ in range(9 + ne)]
        full = not any(sizes)                       # columns that are zero everywhere: a valid file
        b += b''.join(struct.pack('<Q', q) for q in sizes)
    b += bytes(40)
    opts = {'filter': ['-u'], 'tool': ['--recenter-xy'], 'info': ['-j']}.get(app, [])
    mb = M.pick(r, [400, 900, 2000])
    th = M.pick(r, [1, 4])
    rr = run([ck.bin[app + '.rel']] + opts, b, cpu=120, as_mb=mb, stdout=subprocess.DEVNULL, env={'OMP_NUM_THREADS': str(th)})
    res.case(('claim', app, comp, n, ne, rr.rc == 0))
    res.count('large_claims')
    desc = '%s on a file of %d bytes that claims %d points and %d extra fields (compressed %d), memory limit %d MB' % (app, len(b), n, ne, comp, mb)
    if rr.bad:
        res.violation('claim-abnormal', desc + ': ' + rr.bad + rr.err[-300:].decode('latin1'), {'input.spoc': b}, shq(rr.cmd))
    elif rr.rc == 0 and not full:
        res.violation('claim-accepted', desc + ' was accepted', {'input.spoc': b}, shq(rr.cmd))
    return res


ck.map(claims, range(scale(60, 1500)))

if THOROUGH:
    ck.build([('fuzz', VERIF + '/harness/c04.cpp', ['clang++', '-O1', '-g1', '-DFUZZ', '-DNDEBUG',
               '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all'], [])])

    def fuzz(item):
        res = Res()
        d = '%s/fuzz%d' % (ck.work, item)
        os.makedirs(d + '/corpus')
        for f in os.listdir(D):
            shutil.copy(D + '/' + f, d + '/corpus/' + f)
        rr = run([ck.bin['fuzz'], '-runs=400000', '-max_len=6000', '-seed=%d' % (SEED * 100 + item), '-timeout=60',
                  '-rss_limit_mb=3000', '-artifact_prefix=%s/' % d, d + '/corpus'], cpu=5000, wall=6000, retry=False,
                 env={'ASAN_OPTIONS': 'detect_leaks=0'})
        res.case(('fuzz', item), 400000)
        res.count('libfuzzer_executions', 400000)
        res.count('libfuzzer_corpus', len(os.listdir(d + '/corpus')))
        if rr.rc != 0:
            art = [f for f in os.listdir(d) if f != 'corpus']
            res.violation('fuzz', 'libFuzzer stopped: ' + rr.err[-1500:].decode('latin1'),
                          {f: open(d + '/' + f, 'rb').read() for f in art})
        shutil.rmtree(d)
        return res
    ck.map(fuzz, range(NPROC))
ck.finish()
