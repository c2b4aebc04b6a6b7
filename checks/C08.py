import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import tk

ck = Check('C08', 'exploration',
           'clouds with few and many classes (values that agree in their low 8, 16 or 31 bits) and coordinates equal or '
           'adjacent to the threshold x random keep/remove sets x coordinate conditions x encodings x file/pipe; the exact '
           'output bytes are compared with a numpy model; malformed expressions must be refused; non-trivial: some but '
           'not all records are kept', min_events=900)
ck.build_apps(['filter'], ['rel', 'san', 'dbg'])


def number(r, v):
    """A decimal text of exactly this double."""
    v = float(v)
    f = [repr(v), '%.17g' % v, '%.20e' % v]
    if v == int(v) and abs(v) < 1e6:
        f += ['%d' % v, '%.1f' % v, '%d.' % v]
        if v > 0:
            f += ['+%d' % v, '0%d' % v]
    return M.pick(r, f)


def one(item):
    res = Res()
    r = M.rng_for(SEED, 8, item)
    bx = tk.Box(ck, res, str(item))
    for rep in range(10):
        n = (rep == 0 and M.many(item, 60)) or int(r.choice([0, 1, 2, 5, 20, 60, 300]))
        ne = int(r.choice([0, 0, 1, 3]))
        c = M.gen_cloud(r, n, ne, styles=M.FINITE_STYLES + (('special',) if r.random() < .1 else ()))
        base = int(r.integers(0, 1 << 32))
        pools = [list(range(8)), [0, 1, 2, 255, 256, 257, 258, 65536, 65537, 65538, 1 << 31, (1 << 31) + 1, (1 << 32) - 1],
                 [base ^ (1 << k) for k in range(32)] + [base], [int(x) for x in r.integers(0, 1 << 32, 5)]]
        P = M.pick(r, pools)
        c.cols['c'] = np.array([M.pick(r, P) for _ in range(n)], '<u4')
        opts, keep, m = [], np.ones(n, bool), []
        todo = M.pick(r, ['k', 'r', 'c', 'k', 'r', 'c', 'kr', 'kc', 'rc', 'krc', ''])
        groups = []
        if 'k' in todo:
            K = {M.pick(r, P) for _ in range(int(r.integers(1, 6)))} | ({int(r.integers(1 << 32))} if r.random() < .2 else set())
            if r.random() < .05:                             # very many classes
                K |= {int(x) for x in r.integers(0, 1 << 32, 400)}
            keep &= np.isin(c['c'], np.array(sorted(K), 'u8'))
            groups += [tk.opt(r, 'k', 'keep-class', k) for k in K] + ([tk.opt(r, 'k', 'keep-class', sorted(K)[0])] if r.random() < .2 else [])
        if 'r' in todo:
            K = {M.pick(r, P) for _ in range(int(r.integers(1, 6)))}
            if r.random() < .05:
                K |= {int(x) for x in r.integers(0, 1 << 32, 400)}
            keep &= ~np.isin(c['c'], np.array(sorted(K), 'u8'))
            groups += [tk.opt(r, 'r', 'remove-class', k) for k in K]
        if 'c' in todo:
            f = M.pick(r, list('xyz'))
            op = M.pick(r, ['<', '>'])
            t = float(c[f][int(r.integers(n))]) if n and r.random() < .7 else float(M.gen_coord(r, 1, 'half')[0])
            if not np.isfinite(t) or t == 0 or 0 < abs(t) < 1e-300:
                t = 0.0
            k = int(r.integers(4))
            t = [t, t, np.nextafter(t, np.inf), np.nextafter(t, -np.inf)][k]
            t = float(t) if 1e-300 < abs(t) < 1e307 else 0.0
            if n and r.random() < .5:
                c.cols[f][int(r.integers(n))] = [t, np.nextafter(t, np.inf), np.nextafter(t, -np.inf), -t][int(r.integers(4))]
            v = c[f]
            keep &= ~((v > t) if op == '>' else (v < t))
            groups += [tk.opt(r, 'c', 'remove-coords', '%s %s %s' % (f, op, number(r, t)))]
        r.shuffle(groups)
        opts = [x for g in groups for x in g]
        if r.random() < .1:
            opts += ['-v']
        if r.random() < .2:
            opts += tk.opt(r, 'a', 'random-seed', int(r.integers(0, 100)))
        want = c.take(np.flatnonzero(keep))
        data = M.encode(c)
        how = M.pick(r, tk.HOWS)
        v = M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg'])
        rr, out = bx.call('filter', v, opts, data, how)
        res.case((item, rep, todo) if 0 < want.n < n else None)
        res.count('records_judged', n)
        res.count('records_kept', want.n)
        tk.expect_cloud(res, 'filter', 'spoc_filter %s (%s) on %d points' % (' '.join(opts), how, n), rr, out, want, {'in.spoc': data})
    bad = ['x', 'x >', '> 5', 'x > ', 'x 5', 'x = 5', 'x >= 5', 'x <= 5', 'x == 5', 'x > 5 6', 'x > abc', 'x > 5abc', 'q > 5', 'i > 5', 'X > 5',
           'x  > 5', ' x > 5', 'x > 5 ', 'x> 5', 'x >5', 'x>5', '5 < x', 'xy > 5', 'x > 1,5', 'x > 1e', 'x ! 5', '', ' ', 'x >> 5', 'x > --5', 'x and 5', 'x > 1e999']
    badk = ['', 'abc', '-1', '2.5', '4294967296', '1,2', '1 2', '2x', '0x2', '99999999999999999999', '--', '1e1']
    data = M.encode(M.gen_cloud(r, 5, 0))
    for _ in range(6):
        if r.random() < .6:
            o = ['--remove-coords=' + M.pick(r, bad)]
        else:
            o = ['%s=%s' % (M.pick(r, ['--keep-class', '--remove-class']), M.pick(r, badk))]
        rr, out = bx.call('filter', 'rel', o, data, M.pick(r, tk.HOWS))
        res.case(('bad', o[0]))
        res.count('refusals_expected')
        tk.expect_refusal(res, 'bad', 'spoc_filter %r' % o, rr, out, {'in.spoc': data})
    res.sample('%s: %d of %d kept' % (' '.join(opts), want.n, n))
    bx.close()
    return res


ck.map(one, range(scale(300, 6000)))
ck.finish()
