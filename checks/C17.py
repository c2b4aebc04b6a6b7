import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import itertools
import numpy as np
import spocmodel as M
import tk

ck = Check('C17', 'exploration',
           'high resolution clouds x low resolution clouds (made by spoc_filter -s at the same resolution with several seeds, '
           'relabelled; arbitrary records inside; records below, beyond and far outside the extent; empty) x resolutions x '
           'encodings; each classification must come from a low resolution record of the same voxel, or be unchanged if there '
           'is none; non-trivial: some but not all records are assigned, or a subsampled pair', min_events=700)
ck.build_apps(['tool', 'filter'], ['rel', 'san', 'dbg'])


def voxels(c, low, res_):
    """Candidate voxel index tuples per record, relative to the minimum corner of c."""
    o = []
    for f in 'xyz':
        m = float(c[f].min())
        o.append(tk.cell_options(low[f], m, res_, 1e-9))
    return o


def cands(o, k):
    return set(itertools.product(*[(int(a[k]), int(b[k])) for a, b in o]))


def one(item):
    res = Res()
    r = M.rng_for(SEED, 17, item)
    bx = tk.Box(ck, res, str(item))
    for rep in range(3):
        n = (rep == 0 and M.many(item, 80)) or M.pick(r, [1, 2, 5, 30, 100, 300, 300])
        if r.random() < .05:
            n = 0
        rs = float(M.pick(r, [1.0, .5, .25, 2.0, .1, .3, 10.0, 100.0]))
        c = M.gen_cloud(r, n, M.pick(r, [0, 0, 2]), styles=('small', 'half', 'cm', 'unit', 'utm', 'wide'))
        c.cols['c'] = (r.integers(0, 5, n) + 1000000).astype('<u4')
        kind = M.pick(r, ['subsampled', 'subsampled', 'arbitrary', 'outside', 'mixed', 'edge', 'edge', 'empty'])
        hi = bx.put('hi.spoc', M.encode(c))
        if n == 0:
            kind = 'empty'
        if kind == 'subsampled':
            x = run([ck.bin['filter.rel'], '-s', repr(rs), '-a', str(int(r.integers(4))), hi])
            if x.rc or x.bad:
                res.violation('subsample', 'spoc_filter -s %r failed: %s' % (rs, x.err[-200:]), {'hi.spoc': M.encode(c)}, shq(x.cmd))
                continue
            low = M.decode(x.out)
            if r.random() < .3:
                low = low.take(r.permutation(low.n))
        else:
            k = 0 if kind == 'empty' else M.pick(r, [1, 3, 30, 100] if n < 60000 else [100, 65537])
            low = M.gen_cloud(r, k, M.pick(r, [0, 1]))
            for f in 'xyz':
                if n == 0 or k == 0:
                    continue
                lo, hi_ = float(c[f].min()), float(c[f].max())
                v = r.choice(c[f], k) if r.random() < .5 else r.uniform(lo, hi_, k) if hi_ > lo else np.full(k, lo)
                if kind == 'mixed' and r.random() < .5:
                    v = np.clip(v + rs * r.integers(-1, 2, k) * .5, lo, hi_)
                low.cols[f] = np.asarray(v, '<f8')
            if kind == 'edge' and n and k:
                # in the voxel of a high resolution record, often one at the maximum, but anywhere in it, also beyond the maximum
                f = M.pick(r, 'xyz')
                top = np.argsort(c[f])[-max(1, n // 10):]
                src = r.choice(top if r.random() < .6 else np.arange(n), k)
                for f in 'xyz':
                    lo, v = float(c[f].min()), c[f][src].astype('f8')
                    w = lo + (np.floor((v - lo) / rs) + r.choice([.1, .5, .9], k)) * rs
                    low.cols[f] = np.where(r.random(k) < .4, v, w).astype('<f8')
            if kind in ('outside', 'mixed') and n and k:
                for q in range(k):
                    if kind == 'mixed' and r.random() < .5:
                        continue
                    f = M.pick(r, 'xyz')
                    lo, hi_ = float(c[f].min()), float(c[f].max())
                    below = lo - rs * M.pick(r, [1e-3, .5, .999, 1, 1.5, 7, 1000])
                    # beyond the maximum, and beyond the voxel that contains it
                    above = lo + (np.floor((hi_ - lo) / rs) + M.pick(r, [1.01, 1.5, 2, 50, 4294967296.0])) * rs
                    low.cols[f][q] = below if r.random() < .6 else above
                    if r.random() < .2:
                        # so far away that the number of the voxel cannot be represented, or not a number
                        low.cols[f][q] = M.pick(r, [1e300, 2e19 * rs, 3.7e19 * rs, -2e19 * rs, -1e300, np.inf, -np.inf, np.nan, 1.7e308])
        low.cols['c'] = r.permutation(low.n).astype('<u4') if r.random() < .7 else r.integers(0, 3, low.n).astype('<u4')
        low.compressed, low.wkt = bool(r.integers(2)), M.gen_wkt(r)
        data = M.encode(low)
        opts = M.pick(r, [['--upsample-classifications=' + hi], ['--upsample-classifications', hi]])
        ro = M.pick(r, [['--resolution=%r' % rs], ['--resolution', repr(rs)]])
        opts = opts + ro if r.random() < .5 else ro + opts
        if r.random() < .15:
            opts = ['-v'] + opts
        how = M.pick(r, tk.HOWS)
        rr, out = bx.call('tool', M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg']), opts, data, how)
        desc = 'spoc_tool %s (%s): %d low (%s), %d high' % (' '.join(opts[-2:]), how, low.n, kind, n)
        files = {'low.spoc': data, 'hi.spoc': M.encode(c), 'out.spoc': out}
        got = tk.expect_cloud(res, 'upsample', desc, rr, out, None, files)
        if got is None:
            continue
        want = c.copy()
        if got.n == n:
            want.cols['c'] = got['c']
        d = M.diff_clouds(want, got)
        if d:
            res.violation('other', '%s: %s' % (desc, d), files, shq(rr.cmd))
            continue
        if bx.get('hi.spoc') != M.encode(c):
            res.violation('input', '%s: the high resolution file was changed' % desc, files, shq(rr.cmd))
        sure, maybe = {}, {}                          # voxel -> classes
        if n and low.n:
            # anything further away than 2^60 voxels is not in a voxel of the high resolution cloud
            inside = np.all([(low[f] >= c[f].min()) & (low[f] - c[f].min() < 1e18 * rs) for f in 'xyz'], axis=0)
            for f in 'xyz':
                low.cols[f] = np.where(inside, low[f], c[f].min()).astype('<f8')
            ol = voxels(c, low, rs)
            for k in np.flatnonzero(inside):
                s = cands(ol, k)
                for q in s:
                    (sure if len(s) == 1 else maybe).setdefault(q, set()).add(int(low['c'][k]))
        assigned = 0
        if n:
            oh = voxels(c, c, rs)
        for k in range(n):
            s = cands(oh, k)
            allow, free = set(), False
            for q in s:
                a = sure.get(q, set()) | maybe.get(q, set())
                allow |= a
                if q not in sure:
                    free = True
            if kind == 'subsampled':
                free = False
            if free:
                allow.add(int(c['c'][k]))
            v = int(got['c'][k])
            assigned += v != int(c['c'][k])
            if v not in allow:
                res.violation('class', '%s: record %d in voxel %s has classification %d, was %d; low resolution records of its voxel have %s' % (
                    desc, k, sorted(s)[:2], v, int(c['c'][k]), sorted(allow)[:5]), files, shq(rr.cmd))
                break
        res.count('records_judged', n)
        res.count('records_assigned', assigned)
        res.count('kind_' + kind)
        res.case((item, rep, kind) if kind == 'subsampled' or 0 < assigned < n else None)
        res.sample(desc + ', %d assigned' % assigned)
    c = M.gen_cloud(r, 5, 0)
    hi = bx.put('hi.spoc', M.encode(c))
    cut = bx.put('cut.spoc', M.encode(c)[:-1])
    U = '--upsample-classifications='
    o = M.pick(r, [[U + hi], [U + hi, '--resolution=0'], [U + hi, '--resolution=-1'], [U + hi, '--resolution='], [U + hi, '--resolution=x'],
                   [U + bx.path('none'), '--resolution=1'], [U, '--resolution=1'], [U + cut, '--resolution=1'], [U + bx.d, '--resolution=1']])
    rr, out = bx.call('tool', M.pick(r, ['rel', 'san', 'dbg']), o, M.encode(c), M.pick(r, tk.HOWS))
    res.case()
    res.count('refusals_expected')
    tk.expect_refusal(res, 'bad', 'spoc_tool %r' % o, rr, out, {'in.spoc': M.encode(c)})
    bx.close()
    return res


ck.map(one, range(scale(260, 6000)))
ck.finish()
