import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import tk

ck = Check('C11', 'exploration',
           'lists of 2 to 6 (sometimes 40) clouds of mixed size, encoding and WKT, also the same file twice and empty files, x '
           'quiet, verbose, point-id; the output bytes are compared with the concatenation, the warnings with the WKTs and with the areas; '
           'differing extra fields, missing, cut or single inputs must be refused; non-trivial: two non-empty inputs',
           min_events=900)
ck.build_apps(['merge'], ['rel', 'san', 'dbg'])


def empty_ratio(cl):
    """The area of the box of all points over the sum of the areas of the inputs' boxes; None if not a positive finite number."""
    area = lambda cs: float((max(c['x'].max() for c in cs) - min(c['x'].min() for c in cs)) * (max(c['y'].max() for c in cs) - min(c['y'].min() for c in cs)))
    cl = [c for c in cl if c.n]
    with np.errstate(all='ignore'):
        if not cl or not all(np.isfinite(c[f]).all() for c in cl for f in 'xy'):
            return None
        parts, whole = [area([c]) for c in cl], area(cl)
        ratio = whole / sum(parts) if sum(parts) > 0 else None
    return ratio if ratio is not None and np.isfinite([whole, sum(parts), ratio]).all() else None


def one(item):
    res = Res()
    r = M.rng_for(SEED, 11, item)
    for rep in range(6):
        bx = tk.Box(ck, res, '%d-%d' % (item, rep))
        k = M.pick(r, [2, 2, 2, 3, 4, 6, (300 if r.random() < .2 else 40) if r.random() < .2 else 5])
        ne = M.pick(r, [0, 0, 1, 3, 20])
        wkts = [M.gen_wkt(r), M.gen_wkt(r)]
        # often equal, near-equal, prefixes of one another
        if r.random() < .3:
            wkts[1] = wkts[0] + M.pick(r, [b' ', b'\0', b'x'])
        if r.random() < .3 and wkts[0]:
            w = bytearray(wkts[0])
            w[int(M.pick(r, [0, len(w) - 1, r.integers(len(w))]))] ^= int(M.pick(r, [1, 32, 255]))
            wkts[1] = bytes(w)
        if r.random() < .2:
            wkts[0] = b''
        mode = M.pick(r, ['same', 'last', 'first', 'mixed', 'one'])
        comp = M.pick(r, ['u', 'c', 'mixed', 'oneu'])
        odd = int(r.integers(1, k))
        cl = []
        for j in range(k):
            w = {'same': 0, 'last': j == k - 1, 'first': j == 0, 'mixed': r.integers(2), 'one': j == odd}[mode]
            z = {'u': False, 'c': True, 'mixed': bool(r.integers(2)), 'oneu': j != odd}[comp]
            cl.append(M.gen_cloud(r, (j == item % k and rep == 0 and ne < 5 and M.many(item, 50)) or M.pick(r, [0, 1, 2, 10, 60]), ne, wkts[int(w)], z, styles=M.ALL_STYLES))
        if r.random() < .1:
            cl[1] = cl[0]
        if r.random() < .35:
            # islands: each input in a small box of its own, the boxes near to or far from one another, so that the inputs
            # cover much or less than one hundredth of the box of the result
            side = float(M.pick(r, [1, 1, 10, 100, .01]))
            gap = side * float(M.pick(r, [0, 1, 3, 8, 12, 15, 30, 100, 1e4]))
            o = [float(M.pick(r, [0, 0, 1e3, -5e5])) for q in 'xy']
            for j, c in enumerate(cl):
                at = [o[q] + (gap * r.random() * k if M.pick(r, [0, 1]) or j != k - 1 else gap * k) for q in (0, 1)]
                for q, f in enumerate('xy'):
                    c.cols[f] = np.round((at[q] + side * r.random(c.n)) * 64) / 64 if side >= 1 else at[q] + side * r.random(c.n)
        fault = M.pick(r, ['none'] * 9 + ['extras', 'extras', 'missing', 'cut', 'garbage', 'dir'])
        nonempty = [j for j in range(k) if cl[j].n]
        if fault == 'extras':
            if len(nonempty) < 2:
                fault = 'none'
            else:
                j = nonempty[int(r.integers(len(nonempty)))]
                cl[j] = M.gen_cloud(r, cl[j].n, M.pick(r, [q for q in (0, 1, 2, 3, 4, 255) if q != ne]), cl[j].wkt, cl[j].compressed)
        fns, blobs = [], {}
        for j, c in enumerate(cl):
            b = M.encode(c)
            fns.append(bx.put('f%d' % j, b))
            blobs['f%d' % j] = b
        if r.random() < .15 and fault == 'none':         # literally the same file twice
            cl[-1], fns[-1] = cl[0], fns[0]
        if fault in ('missing', 'cut', 'garbage', 'dir'):
            j = int(r.integers(k))
            if fault == 'missing':
                fns[j] = bx.path('nonexistent')
            elif fault == 'dir':
                fns[j] = bx.d
            elif fault == 'cut':
                b = M.encode(cl[j])
                fns[j] = bx.put('cut', b[:int(r.integers(len(b)))])
            else:
                fns[j] = bx.put('garbage', r.bytes(100))
        opts, pid, quiet = [], None, False
        if r.random() < .3:
            pid = M.pick(r, [0, 1, 7, 4294967295, 2147483648, int(r.integers(1 << 32))])
            opts += tk.opt(r, 'p', 'point-id', pid)
        if r.random() < .3:
            quiet = True
            opts += tk.opt(r, 'q', 'quiet')
        if r.random() < .15:
            opts += tk.opt(r, 'v', 'verbose')
        args = opts + fns if r.random() < .8 else fns + opts
        rr = run([ck.bin['merge.' + M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg'])]] + args, b'', cpu=60)
        desc = 'spoc_merge %s of %s' % (' '.join(opts), ['%d points, %d extras, %s' % (c.n, c.ne, 'compressed' if c.compressed else 'raw') for c in cl[:6]])
        if fault != 'none':
            res.case((item, rep, fault))
            res.count('refusals_expected')
            tk.expect_refusal(res, 'bad-' + fault, '%s with a fault: %s' % (desc, fault), rr, rr.out, blobs)
            bx.close()
            continue
        want = M.Cloud(0, ne, cl[0].wkt, all(c.compressed for c in cl))
        want.cols = {f: np.concatenate([c[f] for c in cl]) for f in M.FIELDS}
        want.e = np.concatenate([c.e for c in cl], axis=1)
        want.cols['p'] = np.concatenate([np.full(c.n, j if pid is None else pid, '<u4') for j, c in enumerate(cl)])
        res.case((item, rep) if len(nonempty) > 1 else None)
        res.count('inputs', k)
        res.count('records_judged', want.n)
        tk.expect_cloud(res, 'merge', desc, rr, rr.out, want, blobs)
        warned = b'spatial reference' in rr.err.lower()
        differ = any(c.wkt != cl[0].wkt for c in cl)
        res.count('wkt_warnings_expected', int(differ and not quiet))
        if warned != (differ and not quiet):
            res.violation('warning', '%s: %s warning although %s' % (desc, 'a WKT' if warned else 'no WKT', 'the option quiet was given' if warned and quiet else
                          'some WKT differs' if differ else 'the WKTs are equal'), dict(blobs, stderr=rr.err), shq(rr.cmd))
        # "Warn if the area of the merged file is too big": more than 99% of the area of the result is not in any input
        area = empty_ratio(cl)
        if area is None or 99 < area < 101:
            res.count('area_warnings_not_judged')
        else:
            big = area > 100 and not quiet
            got = b'99% of' in rr.err
            res.count('area_warnings_expected' if big else 'area_warnings_not_expected')
            if got != big:
                res.violation('area', '%s: the result covers %.6g times the area of the inputs and %s, but %s given' % (
                    desc, area, 'quiet is set' if quiet else 'quiet is not set', 'a warning is' if got else 'no warning is'),
                    dict(blobs, stderr=rr.err), shq(rr.cmd))
        if quiet and b'WARNING' in rr.err.upper():
            res.violation('quiet', '%s: a warning despite quiet' % desc, dict(blobs, stderr=rr.err), shq(rr.cmd))
        for j in range(k):
            if bx.get('f%d' % j) != blobs['f%d' % j]:
                res.violation('input', '%s: an input file was changed' % desc, blobs, shq(rr.cmd))
        res.sample(desc)
        bx.close()
    bx = tk.Box(ck, res, 'bad%d' % item)
    a = bx.put('a', M.encode(M.gen_cloud(r, 4, 0)))
    o = M.pick(r, [[], [a], ['-v', a], ['-p5'], ['--point-id=-1', a, a], ['--point-id=4294967296', a, a], ['-p', '1.5', a, a],
                   ['-p', '', a, a], ['-p', 'x', a, a], ['--point-id', a, a], ['-z', a, a], ['--bogus', a, a], ['-p', '1 2', a, a]])
    rr = run([ck.bin['merge.' + M.pick(r, ['rel', 'san', 'dbg'])]] + o, b'')
    res.case(('refuse', str(o)[:10]))
    res.count('refusals_expected')
    tk.expect_refusal(res, 'bad', 'spoc_merge %r' % o, rr, rr.out, {'a': bx.get('a')})
    bx.close()
    return res


ck.map(one, range(scale(300, 8000)))
ck.finish()
