import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import math
import numpy as np
import spocmodel as M
import tk

ck = Check('C16', 'exploration',
           'clouds of both encodings (unit, projected and large coordinates, constant axes, skewed distributions, one point, '
           'no point, special values in the axis that must stay) x the four commands x file and pipe; the shift of every record '
           'is compared with the exactly computed mean or minimum; non-trivial: the reference point is not the origin',
           min_events=1500)
ck.build_apps(['tool'], ['rel', 'san', 'dbg'])
EPS = 2.3e-16


def one(item):
    res = Res()
    r = M.rng_for(SEED, 16, item)
    bx = tk.Box(ck, res, str(item))
    for rep in range(6):
        n = (rep == 0 and M.many(item, 50)) or M.pick(r, [0, 1, 1, 2, 3, 10, 100, 1000, 5000 if r.random() < .2 else 50])
        cmd = M.pick(r, ['recenter-xy', 'recenter-xyz', 'subtract-min-xy', 'subtract-min-xyz'])
        ax = cmd[cmd.rindex('-') + 1:]
        c = M.gen_cloud(r, n, M.pick(r, [0, 0, 2]), styles=('unit', 'small', 'half', 'utm', 'cm', 'wide', 'const'))
        if n and r.random() < .3:                        # the extreme or heavy record is a single one
            f = M.pick(r, 'xyz')
            c.cols[f][int(r.integers(n))] = M.pick(r, [-1e6, 1e6, float(c[f].min()) - 1, 12345.678])
        if n and r.random() < .3:                        # one-sided clouds
            f = M.pick(r, 'xyz')
            c.cols[f] = M.pick(r, [np.abs, lambda v: -np.abs(v)])(c[f])
        if r.random() < .1:
            c.cols[M.pick(r, 'xyz')] *= 1e9
        if ax == 'xy' and r.random() < .4:
            c.cols['z'] = np.asarray(M.gen_coord(r, n, M.pick(r, ['special', 'bits', 'negzero'])), '<f8')
        data = M.encode(c)
        opts = ['--' + cmd] + (['-v'] if r.random() < .1 else [])
        how = M.pick(r, tk.HOWS)
        rr, out = bx.call('tool', M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg']), opts, data, how)
        desc = 'spoc_tool --%s (%s) on %d points' % (cmd, how, n)
        files = {'in.spoc': data, 'out.spoc': out}
        got = tk.expect_cloud(res, 'shift', desc, rr, out, None, files)
        res.case((item, rep, cmd) if n and any(c[f].any() for f in ax) else None)
        res.count(cmd)
        res.count('records_judged', n)
        if got is None:
            continue
        want = c.copy()
        if got.n == n:
            for f in ax:
                want.cols[f] = got[f]
        d = M.diff_clouds(want, got)
        if d:
            res.violation('other', '%s: %s' % (desc, d), files, shq(rr.cmd))
            continue
        for f in ax if n else '':
            v, w = c[f], got[f]
            if cmd[0] == 's':
                m = float(v.min())
                tol = np.zeros(n)
                e = v - m
                if w.min() != 0 or (w < 0).any():
                    res.violation('minimum', '%s: the new minimum of %s is %r' % (desc, f, float(w.min())), files, shq(rr.cmd))
            else:
                s = math.fsum(v)
                m = s / n
                e = v - m
                # accumulated rounding of a sum of n terms, and of the subtraction
                tol = EPS * (n * np.abs(v).sum() / n + np.abs(v) + abs(m)) + 1e-300
                nm = math.fsum(w) / n
                if abs(nm) > 2 * tol.max():
                    res.violation('mean', '%s: the new mean of %s is %r' % (desc, f, nm), files, shq(rr.cmd))
            bad = np.abs(w - e) > tol
            if bad.any():
                k = int(np.flatnonzero(bad)[0])
                res.violation('value', '%s: %s of record %d became %r instead of %r (was %r, reference %r)' % (desc, f, k, float(w[k]), float(e[k]), float(v[k]), m), files, shq(rr.cmd))
        res.sample(desc)
    bx.close()
    return res


ck.map(one, range(scale(350, 8000)))
ck.finish()
