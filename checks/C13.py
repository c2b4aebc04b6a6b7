import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import math
import numpy as np
import spocmodel as M
import tk

ck = Check('C13', 'exploration',
           'the eight documented noise options x magnitudes from 1e-6 to 1e6 and zero x seeds x clouds: bounds and untouched '
           'fields for every record; sign, mean, spread, distribution, independence between points and between axes over '
           'samples of 4000 to 300000 draws with error probabilities below 1e-9 (the seeds are fixed by VERIF_SEED); equal '
           'seeds equal output, different seeds different output; non-trivial: non-zero magnitude', min_events=300)
ck.build_apps(['transform'], ['rel', 'san', 'dbg'])
OPTS = [k + s for k in ('uniform-noise', 'gaussian-noise') for s in ('', '-x', '-y', '-z')]
Z = 7.0


def axes(name):
    return 'xyz' if name[-2] != '-' else name[-1]


def dist_distance(u):
    """Kolmogorov-Smirnov distance of a sample from the uniform distribution on [0, 1]."""
    u = np.sort(u)
    n = len(u)
    k = np.arange(n)
    return max((u - k / n).max(), ((k + 1) / n - u).max())


def statistics(name, mag, d):
    """d: axis -> draws in units of the magnitude. What is wrong, or None."""
    n = len(next(iter(d.values())))
    ks = 3.3 / math.sqrt(n)
    for a, v in d.items():
        sd = 1 / math.sqrt(3) if name[0] == 'u' else 1.0
        if len(np.unique(v)) < .9999 * n:
            return 'only %d distinct values in %d draws of axis %s' % (len(np.unique(v)), n, a)
        if abs(v.mean()) > Z * sd / math.sqrt(n):
            return 'the mean noise of axis %s is %.4f of the magnitude over %d points' % (a, v.mean(), n)
        if abs(v.std() - sd) > Z * sd / math.sqrt(n):
            return 'the standard deviation of axis %s is %.4f instead of %.4f over %d points' % (a, v.std(), sd, n)
        if name[0] == 'u':
            u = (v + 1) / 2
            if v.max() < .98 or v.min() > -.98:
                return 'the noise of axis %s covers only %.3f to %.3f of the magnitude' % (a, v.min(), v.max())
        else:
            u = np.array([.5 * math.erfc(-x / math.sqrt(2)) for x in v])
        if dist_distance(np.clip(u, 0, 1)) > ks:
            return 'the noise of axis %s is not %s (distance %.4f over %d points)' % (a, name.split('-')[0], dist_distance(np.clip(u, 0, 1)), n)
        for lag in (1, 2, 3):
            w = (v - v.mean())
            rho = (w[lag:] * w[:-lag]).mean() / w.var()
            if abs(rho) > Z / math.sqrt(n):
                return 'draws of axis %s are correlated at distance %d: %.4f' % (a, lag, rho)
    A = list(d)
    for i in range(len(A)):
        for j in range(i):
            rho = np.corrcoef(d[A[i]], d[A[j]])[0, 1]
            if abs(rho) > Z / math.sqrt(n):
                return 'the noise of axes %s and %s is correlated: %.4f' % (A[j], A[i], rho)
    return None


def one(item):
    res = Res()
    r = M.rng_for(SEED, 13, item)
    bx = tk.Box(ck, res, str(item))

    def go(name, mag, seed, data, variant=None, how=None):
        o = ['--%s=%s' % (name, repr(mag) if r.random() < .7 else '%.17g' % mag)]
        s = tk.opt(r, 'a', 'random-seed', seed) if seed is not None else []
        o = s + o if r.random() < .5 else o + s
        return bx.call('transform', variant or M.pick(r, ['rel', 'rel', 'rel', 'dbg', 'san']), o, data, how or M.pick(r, tk.HOWS)), o

    for rep, name in enumerate(OPTS):
        ax = axes(name)
        # exact part: any cloud, any magnitude
        c = M.gen_cloud(r, M.pick(r, [1, 2, 10, 100]) if (item + rep) % 50 else 66000, M.pick(r, [0, 2]), compressed=False)
        mag = M.pick(r, [1.0, .01, 1e-6, 1e6, 3.0, float(r.uniform(.1, 50)), 0.0])
        if r.random() < .15:
            c = c.take(np.arange(0))
        seed = M.pick(r, [None, 0, 1, 2, 12345, 2 ** 31 - 5, int(r.integers(1 << 31))])
        data = M.encode(c)
        (rr, out), o = go(name, mag, seed, data)
        res.case((item, name) if mag and c.n else None)
        res.count('opt_' + name)
        desc = 'spoc_transform %s on %d points' % (' '.join(o), c.n)
        files = {'in.spoc': data, 'out.spoc': out}
        got = tk.expect_cloud(res, 'noise', desc, rr, out, None, files)
        if got is None:
            continue
        w = c.copy()
        for a in ax:
            if mag and got.n == c.n:
                w.cols[a] = got[a]
        d = M.diff_clouds(w, got)
        if d:
            res.violation('other-field', '%s: %s' % (desc, d), files, shq(rr.cmd))
            continue
        if name[0] == 'u':
            for a in ax:
                e = np.abs(got[a] - c[a])
                lim = mag + 2e-16 * (np.abs(c[a]) + mag) * 2
                if (e > lim).any():
                    res.violation('bound', '%s: axis %s moved by %r, more than the magnitude' % (desc, a, float(e.max())), files, shq(rr.cmd))
        (rr2, out2), _ = go(name, mag, seed, data)
        if out2 != out:
            res.violation('repeat', '%s: a second run with the same seed gave a different result' % desc, files, shq(rr2.cmd))
        # with the other seed and enough resolution every axis must differ
        s2 = (seed or 0) + M.pick(r, [1, 2, 1000, 2 ** 16, 2 ** 31, 2 ** 32, 3 * 2 ** 32, 2 ** 40, 2 ** 62])
        (rr3, out3), _ = go(name, mag, s2, data)
        res.count('seed_pairs')
        if c.n >= 10 and mag >= .01 and max(np.abs(c[a]).max() for a in ax) < 1e9:
            try:
                g3 = M.decode(out3)
                if any(np.array_equal(g3[a], got[a]) for a in ax):
                    res.violation('seeds', '%s: seeds %r and %r gave the same noise' % (desc, seed, s2), files, shq(rr3.cmd))
            except M.FormatError as e:
                res.violation('seeds', '%s: with seed %r: %s' % (desc, s2, e), files, shq(rr3.cmd))
        # statistical part: coordinates zero, so that the draws are seen exactly
        n = 300000 if r.random() < .04 else M.pick(r, [4000, 10000, 40000])
        c = M.Cloud(n, 0, b'', False)
        mag = M.pick(r, [1.0, .01, 1e-6, 1e6, 3.0, float(r.uniform(.1, 50))])
        seed = M.pick(r, [None, 0, 1, 5, 12345, int(r.integers(1 << 31))])
        data = M.encode(c)
        (rr, out), o = go(name, mag, seed, data, variant='rel', how='ss')
        desc = 'spoc_transform %s on %d points' % (' '.join(o), n)
        files = {'out.spoc': out}
        res.case((item, name, 'stat'))
        res.count('draws', n * len(ax))
        got = tk.expect_cloud(res, 'noise', desc, rr, out, None, files)
        if got is None:
            continue
        if any(got[a].any() for a in 'xyz' if a not in ax):
            res.violation('other-field', '%s: changed another axis' % desc, files, shq(rr.cmd))
        d = statistics(name, mag, {a: got[a] / mag for a in ax})
        if d:
            res.violation('statistics', '%s: %s' % (desc, d), files, shq(rr.cmd))
        res.sample(desc)
    # unparsable
    data = M.encode(M.gen_cloud(r, 5, 0, compressed=False))
    o = ['--%s=%s' % (M.pick(r, OPTS), M.pick(r, ['', 'abc', '1x', 'x', '--1', '1e999']))]
    rr, out = bx.call('transform', 'rel', o, data, 'ss')
    res.case()
    if rr.rc == 0 or rr.bad or not rr.err.strip():
        res.violation('bad', 'spoc_transform %s: not refused cleanly: %s %s' % (o, rr.rc, rr.bad), {'in.spoc': data}, shq(rr.cmd))
    bx.close()
    return res


ck.map(one, range(scale(64, 1200)))
ck.finish()
