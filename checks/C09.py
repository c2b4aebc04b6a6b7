import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import tk

ck = Check('C09', 'exploration',
           'clouds with many records per voxel and location (grids, faces, duplicates, clusters, hash-colliding offsets, '
           'far origins) x resolutions x seeds x encodings x file/pipe; seed 0 compared byte for byte with a numpy model, '
           'other seeds judged for exactly one unchanged record per cell, repeatability and idempotence; non-trivial: '
           'fewer cells than records', min_events=800)
ck.build_apps(['filter'], ['rel', 'san', 'dbg'])


def cloud(r, n):
    c = M.gen_cloud(r, n, int(r.choice([0, 0, 1, 3])), xyz='small')
    kind = M.pick(r, ['grid', 'grid', 'unit', 'cm', 'line', 'cluster', 'far', 'one', 'collide', 'negzero', 'axis', 'perm', 'huge'])
    if kind == 'grid':
        for f in M.F64:
            c.cols[f] = r.integers(-3, 4, n) / 2.0
    elif kind == 'unit':
        for f in M.F64:
            c.cols[f] = r.uniform(-3, 3, n)
    elif kind == 'cm':
        for f in M.F64:
            c.cols[f] = np.round(r.uniform(0, 3, n), 1)
    elif kind == 'line':
        f = M.pick(r, M.F64)
        for g in M.F64:
            c.cols[g] = np.zeros(n)
        c.cols[f] = r.integers(-20, 21, n) / 4.0
    elif kind == 'cluster':
        k = r.integers(0, 6, n)
        for f in M.F64:
            c.cols[f] = r.uniform(-50, 50, 6)[k] + r.choice([0, 0, 1e-9, 0.25], n)
    elif kind == 'far':
        for f, o in zip(M.F64, (356631.45, 3515084.93, -172.64)):
            c.cols[f] = o + r.integers(0, 8, n) * .25
    elif kind == 'one':
        for f in M.F64:
            c.cols[f] = np.full(n, r.uniform(-9, 9))
    elif kind == 'collide':
        # indexes that coincide in (i) ^ (j << 16) ^ (k << 32)
        s = r.integers(0, 3, n)
        c.cols['x'] = np.where(s == 0, 65536.0, 0.0) + r.integers(0, 2, n)
        c.cols['y'] = np.where(s == 1, 1.0, 0.0) + np.where(s == 2, 65536.0, 0.0)
        c.cols['z'] = r.integers(0, 2, n).astype('f8')
    elif kind == 'negzero':
        for f in M.F64:
            c.cols[f] = r.choice([0.0, -0.0, 1.0, -1.0], n)
    elif kind == 'axis':
        # records that differ in one coordinate only
        f = M.pick(r, M.F64)
        for g in M.F64:
            c.cols[g] = np.full(n, 2.5)
        c.cols[f] = r.integers(0, max(2, n // 2), n).astype('f8')
    elif kind == 'perm':
        p = np.array([[1, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]], 'f8')[r.integers(0, 6, n)].reshape(n, 3)
        for k, f in enumerate(M.F64):
            c.cols[f] = p[:, k].copy()
    elif kind == 'huge':
        for f in M.F64:
            c.cols[f] = r.choice([-1e9, 1e9, 0, 1e9 - 1, 4294967296.0, 65536.0], n)
    return c, kind


def cells(c, res_):
    if c.n == 0:
        return np.zeros((0, 3), 'u8')
    return np.stack([((c[f] - c[f].min()) / res_).astype('u8') for f in M.F64], 1)


def locs(c):
    return np.stack([c[f] + 0.0 for f in M.F64], 1).view('u8').reshape(c.n, 3)


def first(a):
    seen, out = set(), []
    for k, t in enumerate(map(bytes, a)):
        if t not in seen:
            seen.add(t)
            out.append(k)
    return np.array(out, int)


def one(item):
    res = Res()
    r = M.rng_for(SEED, 9, item)
    bx = tk.Box(ck, res, str(item))
    for rep in range(6):
        n = int(r.choice([0, 1, 2, 8, 30, 100, 400])) if item % 50 else (66000 if item % 100 and not rep else 30000)
        c, kind = cloud(r, n)
        R = float(M.pick(r, [0.5, 1, 2, 0.25, 0.1, 0.3, 3, 7.5, 1e-3, 1e6]))
        if kind == 'huge':
            R = float(M.pick(r, [1, 1e3, 1e9, 5e8]))
        seed = M.pick(r, [0, 0, 0, 1, 2, 123, -1, 2 ** 40, int(r.integers(1, 1 << 30))])
        what = M.pick(r, ['s', 's', 'u', 'u', 'us'])
        if what == 'us' and seed:
            seed = 0
        opts = []
        if 'u' in what:
            opts += tk.opt(r, 'u', 'unique-xyz')
        if 's' in what:
            opts += tk.opt(r, 's', 'subsample', repr(R))
        if seed or r.random() < .3:
            o = tk.opt(r, 'a', 'random-seed', seed)
            opts = o + opts if r.random() < .5 else opts + o
        data = M.encode(c)
        how = M.pick(r, tk.HOWS)
        v = M.pick(r, ['rel', 'rel', 'san', 'dbg']) if n < 1000 else 'rel'
        desc = 'spoc_filter %s (%s) on %d points (%s)' % (' '.join(opts), how, n, kind)
        files = {'in.spoc': data}
        if what == 'us':
            u = c.take(first(locs(c)))
            ncell = len(first(cells(u, R)))
            want = u.take(first(cells(u, R)))
        else:
            key = locs(c) if what == 'u' else cells(c, R)
            want = c.take(first(key))
        rr, out = bx.call('filter', v, opts, data, how, env={'OMP_NUM_THREADS': M.pick(r, ['1', '4'])})
        res.case((item, rep) if want.n < n else None)
        res.count('records', n)
        res.count('cells', want.n)
        if seed == 0:
            if tk.expect_cloud(res, 'first', desc, rr, out, want, files) is None:
                continue
        else:
            got = tk.expect_cloud(res, 'random', desc, rr, out, None, files)
            if got is None:
                continue
            files['output.spoc'] = out
            if got.wkt != c.wkt or got.compressed != c.compressed:
                res.violation('header', desc + ': WKT or encoding changed', files)
            if got.n != want.n:
                res.violation('count', desc + ': %d records for %d occupied cells' % (got.n, want.n), files)
                continue
            if n:
                # every output record is an input record; as many of each as possible at most once
                src = {}
                for k, b in enumerate(tk.order_cols(c)):
                    src.setdefault(b, []).append(k)
                cellof = [bytes(t) for t in key]
                seen = set()
                for k, b in enumerate(tk.order_cols(got)):
                    if b not in src:
                        res.violation('altered', desc + ': output record %d is no input record' % k, files)
                        break
                    t = cellof[src[b][0]]
                    if t in seen:
                        res.violation('twice', desc + ': output record %d is the second of its cell' % k, files)
                        break
                    seen.add(t)
        # the same again, from the other encoding: the same records
        c2 = c.with_(compressed=not c.compressed)
        rr2, out2 = bx.call('filter', 'rel', opts, M.encode(c2), M.pick(r, tk.HOWS), env={'OMP_NUM_THREADS': M.pick(r, ['1', '3'])})
        res.case()
        g1 = M.decode(out)
        g2 = tk.expect_cloud(res, 'again', desc + ' from the other encoding', rr2, out2, None, {'in.spoc': M.encode(c2)})
        if g2 is not None and M.diff_cols(g1, g2):
            res.violation('not-repeatable', desc + ': running it again from the other encoding: ' + M.diff_cols(g1, g2), files)
        # unique-xyz of its own output changes nothing
        if 's' not in what:
            rr3, out3 = bx.call('filter', 'rel', opts, out, 'ss')
            g3 = tk.expect_cloud(res, 'idempotent', desc + ' on its own output', rr3, out3, None, {'in.spoc': out})
            if g3 is not None:
                a, b = tk.order_cols(g1), tk.order_cols(g3)
                if (a != b) if seed == 0 else (sorted(a) != sorted(b)):
                    res.violation('not-idempotent', desc + ': repeating it on its own output changes it', {'in.spoc': out, 'again.spoc': out3})
            res.case()
    # the choice depends on the seed
    if item % 10 == 0:
        c = M.gen_cloud(r, 40, 0, xyz='zero')
        c.cols['p'] = np.arange(40, dtype='u4')
        for o in (['-u'], ['-s', '1']):
            chosen = set()
            for s in range(1, 13):
                rr, out = bx.call('filter', 'rel', o + ['-a', str(s)], M.encode(c), 'ss')
                g = tk.expect_cloud(res, 'seeds', 'spoc_filter %s -a %d' % (o, s), rr, out, None, {})
                if g is not None and g.n:
                    chosen.add(int(g['p'][0]))
            res.case(('seeds', item, o[0]))
            if len(chosen) < 3:
                res.violation('not-random', 'spoc_filter %s with 12 different seeds always chooses one of %s out of 40 records' % (o, sorted(chosen)), {'in.spoc': M.encode(c)})
    # an impossible resolution is refused
    for s in M.pick(r, [['0'], ['-1'], ['nan'], ['abc'], ['1x'], ['']]):
        rr, out = bx.call('filter', 'rel', ['--subsample=' + s], data, 'ss')
        res.case(('bad', s))
        tk.expect_refusal(res, 'bad', 'spoc_filter --subsample=%s' % s, rr, out, {'in.spoc': data})
    res.sample(desc)
    bx.close()
    return res


ck.map(one, range(scale(300, 6000)))
ck.finish()
