import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import tk

ck = Check('C07', 'exploration',
           'pairs of clouds that are equal or differ in one chosen place (one field of one record, first/last/random, '
           'count, order, WKT, encoding, extra fields, -0.0/0.0, NaN) x every selection x reverse x both orders; the exit '
           'status is compared with the model; non-trivial: a distinct (difference, selection, reverse, encodings)',
           min_events=3000)
ck.build_apps(['diff'], ['rel', 'san', 'dbg'])

KINDS = ['same', 'same', 'field', 'field', 'field', 'field', 'count', 'dup', 'swap', 'wkt', 'enc', 'extra', 'zero', 'nan', 'two', 'empty', 'wktcase', 'other']


def near(r, v):
    """A different value that is easily confused with v."""
    if v.dtype.kind == 'f':
        k = int(r.integers(4))
        x = [np.nextafter(v, np.inf), -v, v + 1, np.float64(1e300)][k]
        return x if x != v else v + 1 if np.isfinite(v) else np.float64(0)
    top = int(np.iinfo(v.dtype).max)
    x = M.pick(r, [int(v) ^ 1, int(v) ^ (1 << int(r.integers(v.dtype.itemsize * 8))), top - int(v), (int(v) + 256) & top])
    return v.dtype.type(x if x != int(v) else int(v) ^ 1)


def mutate(r, a):
    b = a.copy()
    kind = M.pick(r, KINDS)
    n = a.n
    where = ''
    fs = list(M.FIELDS) + ['e%d' % k for k in range(a.ne)]
    if kind == 'field' and n or kind == 'two' and n:
        for _ in range(2 if kind == 'two' else 1):
            f = M.pick(r, fs)
            k = M.pick(r, [0, n - 1, int(r.integers(n))])
            b[f][k] = near(r, b[f][k])
            where += f
    elif kind == 'count' and n:
        b = b.take(np.arange(n - 1))
    elif kind == 'dup' and n:
        b = b.take(np.r_[np.arange(n), n - 1])
    elif kind == 'swap' and n > 1:
        i = np.arange(n)
        k = int(r.integers(n - 1))
        i[k], i[k + 1] = i[k + 1], i[k]
        b = b.take(i)
    elif kind == 'wkt':
        b.wkt = a.wkt + b'x' if r.random() < .5 or not a.wkt else a.wkt[:-1]
    elif kind == 'wktcase':
        b.wkt = a.wkt.swapcase()
    elif kind == 'enc':
        b.compressed = not a.compressed
    elif kind == 'extra':
        if r.random() < .5 and a.ne:
            b.e = b.e[:-1]
        else:
            b.e = np.vstack([b.e, np.zeros((1, n), M.U64)])
    elif kind == 'zero' and n:
        f = M.pick(r, list(M.F64))
        k = int(r.integers(n))
        a[f][k], b[f][k] = (0.0, -0.0)
    elif kind == 'nan' and n:
        f = M.pick(r, list(M.F64))
        k = int(r.integers(n))
        a[f][k] = b[f][k] = np.nan
    elif kind == 'empty':
        b = b.take(np.arange(0))
    elif kind == 'other':
        b = M.gen_cloud(r, n, a.ne, wkt=a.wkt, compressed=a.compressed)
    return b, kind, where


def hdr(c):
    return (c.wkt, c.ne if c.n else 0, c.n, bool(c.compressed))


def eqf(a, b, f):
    return a.n == b.n and bool(np.all(a[f] == b[f]))


def same(a, b, sel):
    ea, eb = (a.ne if a.n else 0), (b.ne if b.n else 0)
    if sel == 'a':
        return hdr(a) == hdr(b)
    if sel in ('d', ''):
        ok = a.n == b.n and ea == eb and all(eqf(a, b, f) for f in M.FIELDS) and all(eqf(a, b, 'e%d' % k) for k in range(ea))
        return ok and (sel == 'd' or hdr(a) == hdr(b))
    for f in sel:
        if f.isdigit():
            k = int(f)
            if (k < ea) != (k < eb) or k < ea and not eqf(a, b, 'e' + f):
                return False
        elif not eqf(a, b, f):
            return False
    return True


def one(item):
    res = Res()
    r = M.rng_for(SEED, 7, item)
    bx = tk.Box(ck, res, str(item))
    v = M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg'])
    exe = ck.bin['diff.' + v]
    n = M.many(item, 50) or int(r.choice([0, 1, 2, 3, 10, 30, 200]))
    ne = int(r.choice([0, 1, 2, 8, 10, 12])) if n < 60000 else 1
    # wide values: every byte of every field can matter
    a = M.gen_cloud(r, n, ne, styles=M.FINITE_STYLES, int_style=M.pick(r, [None, 'full', 'small']))
    for rep in range(6 if n < 60000 else 3):
        a2 = a.copy()
        for f in list(M.FIELDS) + ['e%d' % k for k in range(ne)]:    # fields that were never set
            if r.random() < (.3, .8)[rep % 2]:
                a2[f][:] = 0
        b, kind, where = mutate(r, a2)
        fa, fb = bx.put('a.spoc', M.encode(a2)), bx.put('b.spoc', M.encode(b))
        files = {'a.spoc': M.encode(a2), 'b.spoc': M.encode(b)}
        for _ in range(8):
            q = int(r.integers(6))
            letters = list('xyzcpirgb') + [str(k) for k in range(10)]
            if q == 0:
                sel, opts = '', []
            elif q == 1:
                sel, opts = 'a', tk.opt(r, 'a', 'header-only')
            elif q == 2:
                sel, opts = 'd', tk.opt(r, 'd', 'data-only')
            else:
                hit = [f[1:] if f[0] == 'e' else f for f in ([where[k:k + 2] if where[k] == 'e' else where[k] for k in range(len(where)) if not where[k].isdigit()])]
                hit = [h for h in hit if h in letters]
                fs = [M.pick(r, letters) for _ in range(int(r.integers(1, 4)))]
                if hit and r.random() < .6:
                    fs[int(r.integers(len(fs)))] = M.pick(r, hit)
                if r.random() < .15:
                    fs = list(letters)
                    r.shuffle(fs)
                sel = ''.join(fs)
                k = int(r.integers(1, len(fs) + 1))
                opts = tk.opt(r, 'f', 'field', sel[:k]) + (tk.opt(r, 'f', 'field', sel[k:]) if sel[k:] else [])
            rev = bool(r.integers(2))
            if rev:
                opts = M.pick(r, [opts + tk.opt(r, 'r', 'reverse'), tk.opt(r, 'r', 'reverse') + opts])
            if r.random() < .2:
                opts = opts + tk.opt(r, 'v', 'verbose')
            want = same(a2, b, sel)
            for x, y in ((fa, fb), (fb, fa)):
                rr = run([exe] + opts + [x, y])
                res.case((kind, where, sel if len(sel) < 3 else len(sel), rev, a2.compressed, b.compressed, want))
                res.count('same' if want else 'different')
                desc = 'spoc_diff %s on files that differ by "%s" %s (%d points, %d extra, order %s)' % (
                    ' '.join(opts), kind, where, n, ne, 'ab' if x == fa else 'ba')
                if rr.bad:
                    res.violation('abnormal', desc + ': ' + rr.bad, files, shq(rr.cmd))
                elif (rr.rc == 0) != (want != rev):
                    res.violation('verdict', desc + ': exit status %d, but the selected parts are %s' %
                                  (rr.rc, 'equal' if want else 'different'), files, shq(rr.cmd))
                elif rr.out:
                    res.violation('stdout', desc + ': printed %r' % rr.out[:100], files, shq(rr.cmd))
    # errors, whatever the files hold
    fa, fb = bx.put('a.spoc', M.encode(a)), bx.put('b.spoc', M.encode(a))
    cut = bx.put('cut.spoc', M.encode(a)[:-1])
    bad = [['-a', '-d', fa, fb], ['-a', '-f', 'x', fa, fb], ['-d', '-f', 'x', fa, fb], ['-f', 'q', fa, fb], ['-f', 'xw', fa, fb],
           ['-f', 'e0', fa, fb], ['-f', ' ', fa, fb], ['-f', '', fa, fb], [fa], [fa, fb, fa], [fa, bx.path('none')],
           [bx.path('none'), fa], [cut, fa], [fa, cut], [bx.d, fa], ['-a', cut, fa], ['--header-only', '--data-only', fa, fb],
           ['-f', 'x', '--data-only', fa, fb], ['-a', fa, bx.path('none')], ['-q', fa, fb], ['-fxq', fa, bx.put('z.spoc', M.encode(M.gen_cloud(r, n + 1, ne)))]]
    for o in [M.pick(r, bad) for _ in range(8)]:
        rev = bool(r.integers(2))
        rr = run([exe] + (['-r'] if rev else []) + o)
        res.case(('error', tuple(os.path.basename(x) for x in o), rev))
        res.count('errors_expected')
        tk.expect_refusal(res, 'error', 'spoc_diff %s %s' % ('-r' if rev else '', ' '.join(os.path.basename(x) for x in o)), rr, rr.out, {'a.spoc': M.encode(a)})
    res.sample('%s: %d points, %d extra' % (kind, n, ne))
    bx.close()
    return res


ck.map(one, range(scale(110, 3000)))
ck.finish()
