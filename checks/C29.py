import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import ops as O

ck = Check('C29', 'exploration',
           'every tool command and the operations of the library on clouds of n and 16 n points of many spatial distributions '
           '(volumes, planes, lines and diagonals of grids, clusters, duplicates, far outliers) and field contents, with the '
           'control-flow edges executed, bytes moved, allocations and peak heap counted deterministically; work and memory may grow '
           'by the factor of the size (with a margin for logarithms), the streaming tools must need the same memory for both; '
           'non-trivial: distinct (operation, distribution)', min_events=500)
VARIANTS['work'] = ['g++', '-O1', '-DNDEBUG', '-fopenmp', '-fsanitize-coverage=trace-pc', '-rdynamic', VERIF + '/harness/work.cpp']
N, K = (800, 16) if not THOROUGH else (2000, 32)
ck.build([('c29.work', VERIF + '/harness/c29.cpp', 'work', [])])
ck.build_apps(APPS + ('noop',), ['work'])
run_harness(ck, 'c29.work', ['n=%d' % N, 'k=%d' % K], NPROC, env={'OMP_NUM_THREADS': '1'})


# ------------------------------------------------------------- clouds
def cube(n):
    s = int(np.ceil(n ** (1 / 3)))
    t = np.arange(n)
    return t % s, t // s % s, t // s // s


def square(n):
    s = int(np.ceil(n ** .5))
    t = np.arange(n)
    return t % s, t // s


z = lambda n: np.zeros(n)
U = lambda r, n, a, b: r.uniform(a, b, n)
DIST = {
    'volume': lambda r, n: [U(r, n, 0, n ** (1 / 3)) for _ in 'xyz'],
    'dense': lambda r, n: [U(r, n, 500000, 500010) for _ in 'xyz'],
    'grid': lambda r, n: cube(n),
    'negative-grid': lambda r, n: [-3. * v for v in cube(n)],
    'ground': lambda r, n: [*square(n), U(r, n, 0, .1)],
    'wall-x': lambda r, n: [z(n) + 7, *square(n)],
    'wall-y': lambda r, n: [square(n)[0], z(n) - 7, square(n)[1]],
    'line-x': lambda r, n: [np.arange(n) * 1., z(n), z(n)],
    'line-y': lambda r, n: [z(n), np.arange(n)[::-1] * 1., z(n)],
    'line-z': lambda r, n: [z(n), z(n), np.arange(n) * 1.],
    'diagonal': lambda r, n: [np.arange(n) * 1.] * 3,
    'antidiagonal': lambda r, n: [np.arange(n) * 1., -np.arange(n) * 1., z(n)],
    'duplicates': lambda r, n: [z(n) + 1.5] * 3,
    'pairs': lambda r, n: [np.arange(n) // 2 * .5, np.arange(n) // 2 * .25, z(n)],
    'clusters': lambda r, n: [U(r, n, 0, 1) + 1000. * r.integers(0, 40, n) for _ in 'xyz'],
    'outlier': lambda r, n: [np.append(U(r, n - 1, 0, n ** (1 / 3)), 1e5) if n else z(n) for _ in 'xyz'],
    'centimetres': lambda r, n: [np.round(U(r, n, 356000, 356000 + n ** .5), 2), np.round(U(r, n, 5e6, 5e6 + n ** .5), 2), np.round(U(r, n, 10, 30), 2)],
    'scattered': lambda r, n: [U(r, n, -1e5, 1e5) for _ in 'xyz'],
}
INTS = {'few': lambda r, n, dt: r.integers(0, 6, n), 'zero': lambda r, n, dt: z(n), 'same': lambda r, n, dt: z(n) + 1,
        'counting': lambda r, n, dt: np.arange(n) % 65536, 'any': lambda r, n, dt: r.integers(0, np.iinfo(dt).max, n, dtype='u8', endpoint=True)}


def cloud(seed, n, dist, ints, ne, compressed, wkt=b'WKT'):
    r = M.rng_for(SEED, 29, *seed)
    c = M.Cloud(n, ne, wkt, compressed)
    for f, v in zip('xyz', DIST[dist](r, n)):
        c.cols[f] = np.asarray(v, '<f8').copy()
    for f in M.U32 + M.U16:
        c.cols[f] = np.asarray(INTS[ints](r, n, M.DT[f])).astype(M.DT[f])
    for k in range(ne):
        c.e[k] = np.asarray(INTS[ints](r, n, M.U64)).astype(M.U64)
    return c


class Cost:
    def __init__(self, line):
        self.edges, self.bytes, self.allocs, self.peak = map(int, line.split())
        self.work = self.edges + self.bytes // 16 + 16 * self.allocs


def measure(d, argv, data):
    rep = d + '/report'
    if os.path.exists(rep):
        os.unlink(rep)
    inp = d + '/stdin'
    with open(inp, 'wb') as f:
        f.write(data)
    with open(inp, 'rb') as f, open('/dev/null', 'wb') as o:
        r = run(argv, stdin=f, stdout=o, env={'WORK_REPORT': rep}, cpu=60)
    try:
        with open(rep) as f:
            return r, Cost(f.read())
    except FileNotFoundError:
        return r, None


OPS = O.point_ops() + O.header_ops() + [
    O.Op('noop', enc='u', streaming=True), O.Op('info', ['-q'], out='text', io='in'), O.Op('info', ['-c', '-m'], out='text', io='in'),
    O.Op('filter', ['-s', '.1']), O.Op('filter', ['-s', '40']), O.Op('filter', ['-u', '-a', '3']), O.Op('filter', ['-k', '1', '-c', 'z < 7']),
    O.Op('tile', ['-t', '8', '-p', '@DIR@/t'], out='tiles', io='in'), O.Op('tile', ['-x', '30', '-p', '@DIR@/t'], out='tiles', io='in'),
    O.Op('tool', ['--upsample-classifications=@GOOD@', '--resolution=5'], name='upsample 5'),
    O.Op('tool', ['--upsample-classifications=@GOOD@', '--resolution=0.2'], name='upsample 0.2'),
    O.Op('tool', ['--upsample-classifications=@SELF@', '--resolution=1'], name='upsample from all points'),
    O.Op('transform', ['--add-x=1', '--rotate-y=3', '--set=c,3', '--copy-field=c,e0', '--replace=c,3,4'], enc='u', streaming=True)]
DISTS = sorted(DIST)


def cost(item):
    oi, dist = item
    op = OPS[oi]
    res = Res()
    d = '%s/o%d-%s' % (ck.work, oi, dist)
    os.makedirs(d)
    r = M.rng_for(SEED, 291, oi, DISTS.index(dist))
    exe = ck.bin[op.app + '.work']
    for enc in op.enc if THOROUGH else M.pick(r, op.enc):
        ints, ne = M.pick(r, ['few', 'few', 'few', 'counting', 'same', 'zero', 'any']), M.pick(r, [1, 1, 2, 4])
        if 'tile' == op.app and dist in ('clusters', 'outlier', 'scattered'):
            continue                                 # as many tiles as points
        got = []
        for n in (N, N * K):
            data = M.encode(cloud((oi, 1), n, dist, ints, ne, enc == 'c'))
            for f, b in (('good', M.encode(cloud((oi, 2), n // 2, dist, ints, ne, enc == 'c'))), ('self', data),
                         ('vals', '\n'.join(str(k % 7) for k in range(n)).encode() + b'\n')):
                with open(d + '/' + f, 'wb') as f:
                    f.write(b)
            shutil.rmtree(d + '/t', ignore_errors=True)
            os.makedirs(d + '/t')
            sub = {'@GOOD@': d + '/good', '@SELF@': d + '/self', '@VALS@': d + '/vals', '@DIR@': d + '/t'}
            with open(d + '/in', 'wb') as f:
                f.write(data)
            if op.io in ('two', 'two2'):
                argv = op.argv(exe, d + '/in', None, sub)
            elif op.io == 'srs':
                argv = op.argv(exe, d + '/in', d + '/out', sub)
            else:
                argv = op.argv(exe, None, None, sub)
            if op.app == 'noop':
                argv = [exe]
            got.append(measure(d, argv, data))
        res.case((op.name, dist))
        res.count('pairs_of_runs')
        (ra, a), (rb, b) = got
        desc = '%s on "%s" points (%s values, %d extra fields, %s)' % (op.name, dist, ints, ne, 'compressed' if enc == 'c' else 'uncompressed')
        files = {'large.spoc': data}
        if ra.bad or rb.bad or a is None or b is None or ra.rc != rb.rc:
            bad = ra if ra.bad or (ra.rc and not rb.rc) else rb
            res.violation('abnormal', '%s: %d points: %s' % (desc, N if bad is ra else N * K, bad.bad or 'exit status %d' % bad.rc), files, shq(bad.cmd))
            continue
        res.count('edges', a.edges + b.edges)
        show = '%s: %d points: work %d, peak %d bytes; %d points: work %d (x %.1f), peak %d (x %.1f)' % (
            desc, N, a.work, a.peak, N * K, b.work, b.work / a.work, b.peak, b.peak / a.peak)
        res.sample(show)
        if os.environ.get('C29_SHOW'):
            print('SHOW %.1f %.1f %s' % (b.work / a.work, b.peak / a.peak, show))
        if b.work > a.work * K * 1.7 + 20000:
            res.violation('work', show, files, shq(rb.cmd))
        if op.header_only and b.work > a.work + 1000:
            res.violation('header-work', show + ' (only the header is needed)', files, shq(rb.cmd))
        if b.peak > a.peak * K * 1.5 + 100000:
            res.violation('memory', show, files, shq(rb.cmd))
        if (op.streaming or op.header_only) and b.peak > a.peak + 20000:
            res.violation('streaming-memory', show, files, shq(rb.cmd))
    shutil.rmtree(d, ignore_errors=True)
    return res


# ------------------------------------------------------------- many files, many commands
def many(item):
    what, rep = item
    res = Res()
    d = '%s/m%s-%d' % (ck.work, what, rep)
    os.makedirs(d)
    r = M.rng_for(SEED, 292, rep)
    k1, k2 = 12, 12 * 16
    comp = bool(r.integers(2)) and what != 'commands'
    c = cloud((3, rep), 60 if what in ('merge', 'srs', 'info') else 300, 'volume', 'few', 2, comp, b'W' * 400)
    data = M.encode(c)
    with open(d + '/f', 'wb') as f:
        f.write(data)
    got = []
    for k in (k1, k2):
        argv = {'merge': lambda: ['merge'] + ['-q'] * bool(rep % 2) + [d + '/f'] * k,
                'srs': lambda: ['srs'] + [d + '/f'] * k,
                'commands': lambda: ['transform'] + ['--add-x=1', '--set=c,3', '--rotate-z=2'] * (k // 3),
                'keep': lambda: ['filter'] + [x for j in range(k) for x in ('-k', str(j))],
                'remove': lambda: ['filter'] + [x for j in range(k) for x in ('-r', str(10 + j))],
                'coords': lambda: ['filter'] + [x for j in range(k) for x in ('-c', 'x > %d' % (1000 + j))]}[what]()
        argv[0] = ck.bin[argv[0] + '.work']
        got.append(measure(d, argv, data))
    (ra, a), (rb, b) = got
    desc = '%s of %d and %d' % (what, k1, k2)
    res.case((what, rep))
    res.count('pairs_of_runs')
    if ra.bad or rb.bad or a is None or b is None or ra.rc or rb.rc:
        bad = ra if ra.bad or ra.rc else rb
        res.violation('abnormal', '%s: %s' % (desc, bad.bad or 'exit status %d: %r' % (bad.rc, bad.err[-200:])), {'f': data}, shq(bad.cmd))
    else:
        show = '%s: work %d and %d (x %.1f), peak %d and %d' % (desc, a.work, b.work, b.work / a.work, a.peak, b.peak)
        res.sample(show)
        if os.environ.get('C29_SHOW'):
            print('SHOW %.1f %.1f %s' % (b.work / a.work, b.peak / a.peak, show))
        if b.work > a.work * 16 * 1.7 + 20000:
            res.violation('many-work', show, {'f': data}, shq(rb.cmd))
        if b.peak > a.peak * 16 * 1.5 + 100000:
            res.violation('many-memory', show, {'f': data}, shq(rb.cmd))
    shutil.rmtree(d, ignore_errors=True)
    return res


ck.map(many, [(w, rep) for rep in range(scale(2, 6)) for w in ('merge', 'srs', 'commands', 'keep', 'remove', 'coords')])
ck.map(cost, [(i, d) for d in DISTS for i in range(len(OPS))])
ck.finish()
