import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import tk

ck = Check('C12', 'exploration',
           'random chains of 1 to 5 transform commands x clouds (values at the edges of every field, extra fields that agree '
           'in their low 32 bits) x file and pipe; a numpy model gives the expected records: bit for bit for integers and '
           'single roundings, to rounding for rotations and quantisation; bad parameters must be refused; non-trivial: '
           'a chain that changes some record', min_events=1500)
ck.build_apps(['transform'], ['rel', 'san', 'dbg'])

NUM = {'x': 8, 'y': 8, 'z': 8}
TOP = {**{f: 2 ** 32 - 1 for f in 'cp'}, **{f: 2 ** 16 - 1 for f in 'irgb'}}


def top(f):
    return TOP.get(f, 2 ** 64 - 1)


def num(r, v):
    v = float(v)
    f = [repr(v), '%.17g' % v, '%.17e' % v]
    if v == int(v) and abs(v) < 1e9:
        f += ['%d' % v, '%d.0' % v]
    return M.pick(r, f)


class Model:
    """Values, plus per coordinate an error bound and a mask of entries that cannot be predicted."""
    def __init__(self, c):
        self.c = c.copy()
        self.unfit = False           # some value does not fit the field it should go to
        self.tol = {f: np.zeros(c.n) for f in 'xyz'}
        self.amb = {f: np.zeros(c.n, bool) for f in 'xyz'}

    def axis(self, f, v, scale=1.0):
        self.c.cols[f] = v
        self.tol[f] = self.tol[f] * abs(scale)


def small(r):
    """A value of small magnitude, of either sign."""
    return float(10 ** r.uniform(-13, -1)) * M.pick(r, [1, -1])


def command(r, m):
    """One random command: its option, applied to the model; None if it does not suit the data."""
    c = m.c
    n, ne = c.n, c.ne
    ints = ['c', 'p', 'i', 'r', 'g', 'b'] + ['e%d' % k for k in range(ne)]
    k = M.pick(r, ['add', 'add', 'scale', 'rotate', 'quantize', 'set', 'set', 'copy', 'copy', 'replace', 'replace', 'not', 'not'])
    f = M.pick(r, list('xyz'))
    with np.errstate(all='ignore'):
        if k == 'add':
            v = float(M.pick(r, [0.0, 1.0, -1.0, .1, 1e-9, 1e6, float(r.normal()) * 100, small(r)]))
            m.axis(f, c[f] + v)
            m.tol[f] *= 1 + 1e-15
            m.tol[f][m.tol[f] > 0] += 1e-15 * abs(v)
            return 'add-' + f, num(r, v)
        if k == 'scale':
            v = float(M.pick(r, [0.0, 1.0, -1.0, 2.0, .1, 1e3, float(r.normal()) * 10, small(r), 1 + small(r)]))
            m.axis(f, c[f] * v, v)
            return 'scale-' + f, num(r, v)
        if k == 'rotate':
            v = float(M.pick(r, [0, 90, 180, -90, 30, 45, 360, 720, 1, float(r.uniform(-720, 720)), float(r.uniform(-720, 720)), small(r), small(r), 1e5 + float(r.random())]))
            a, b = {'x': 'yz', 'y': 'xz', 'z': 'xy'}[f]
            t = v * np.pi / 180
            u, w = c[a], c[b]
            if not (np.isfinite(u).all() and np.isfinite(w).all()):
                return None
            nu, nw = u * np.cos(t) - w * np.sin(t), u * np.sin(t) + w * np.cos(t)
            tol = m.tol[a] + m.tol[b] + 4e-15 * (1 + abs(t)) * (np.abs(u) + np.abs(w)) + 1e-300
            amb = m.amb[a] | m.amb[b]
            m.c.cols[a], m.c.cols[b] = nu, nw
            for g in (a, b):
                m.tol[g], m.amb[g] = tol.copy(), amb.copy()
            return 'rotate-' + f, num(r, v)
        if k == 'quantize':
            v = float(M.pick(r, [1.0, .5, .1, .01, .25, 10.0, 100.0, 1e-10, 1e-7, 1e6, float(r.uniform(.01, 5))]))
            if any(not np.isfinite(c[g] / v).all() or (np.abs(c[g]) + m.tol[g] > 1e300).any() for g in 'xyz'):
                return None
            for g in 'xyz':
                q = c[g] / v
                near = np.abs(q - np.rint(q)) * v <= m.tol[g] + 4e-16 * np.abs(c[g])
                # the quotient is close to an integer that truncation may or may not reach
                exact = (m.tol[g] == 0) & (np.rint(q) * v == c[g]) & (float(v).hex().rstrip('0').count('p') == 1) & (
                    np.log2(v) == int(np.log2(v)))
                near = (near & ~exact | (np.abs(q) > 1e12)) & (np.rint(q) != 0)
                # near zero both sides truncate to zero
                t = np.trunc(q) * v
                m.c.cols[g] = t
                m.tol[g] = 4e-16 * np.abs(t) + np.where(near, v * 1.001 + m.tol[g] + 4e-16 * np.abs(t), 0)
            return 'quantize-xyz', num(r, v)
        if k == 'set':
            g = M.pick(r, list('xyz') + ints)
            if g in 'xyz':
                v = float(M.pick(r, [0.0, 1.5, -2.25, 1e300, .1, float(r.normal()) * 1e5]))
                m.c.cols[g] = np.full(n, v)
                m.tol[g], m.amb[g] = np.zeros(n), np.zeros(n, bool)
                return 'set', '%s,%s' % (g, num(r, v))
            v = M.pick(r, [0, 1, 2, 255, 256, 65535, min(top(g), 2 ** 53), int(r.integers(0, min(top(g), 2 ** 53) + 1))])
            if v > top(g):
                return None
            put(c, g, np.full(n, v, 'u8'))
            return 'set', '%s,%s' % (g, '%d' % v)
        if k == 'copy':
            a, b = M.pick(r, ints), M.pick(r, ints)
            if n and int(c[a].max()) > top(b):
                if r.random() < .5:
                    return None
                m.unfit = True
            else:
                put(c, b, c[a].copy())
            return 'copy-field', '%s,%s' % (a, b)
        g = M.pick(r, ints)
        vals = [0, 1, 2, 65535, 65536, 2 ** 32 - 1] + [int(x) & 0xffffffff for x in c[g][:5]]
        v2 = M.pick(r, [0, 1, 7, 65535, min(top(g), 2 ** 32 - 1), int(r.integers(0, min(top(g), 2 ** 32 - 1) + 1))])
        if k == 'replace':
            v1 = M.pick(r, vals)
            col = c[g].astype('u8')
            put(c, g, np.where(col == np.uint64(v1), np.uint64(v2), col))
            return 'replace', '%s,%d,%d' % (g, v1, v2)
        vs = [M.pick(r, vals) for _ in range(int(r.integers(1, 5)))]
        col = c[g].astype('u8')
        put(c, g, np.where(np.isin(col, np.array(vs, 'u8')), col, np.uint64(v2)))
        return 'replace-not', '%s,%s' % (g, ','.join(str(v) for v in vs + [v2]))


def put(c, g, v):
    if g[0] == 'e':
        c.e[int(g[1:])] = v
    else:
        c.cols[g] = v.astype(M.DT[g])


def gen(r, big=None):
    n = big or M.pick(r, [0, 1, 2, 7, 30, 30, 200, 3000 if r.random() < .2 else 50])
    c = M.gen_cloud(r, n, M.pick(r, [0, 1, 2, 4, 12] if n < 60000 else [0, 1]), compressed=False, styles=M.FINITE_STYLES + (('special', 'negzero') if r.random() < .2 else ()))
    for k in range(c.ne):
        if r.random() < .5:          # values that agree in their low half
            c.e[k] = r.integers(0, 4, n).astype('u8') + (r.integers(0, 3, n).astype('u8') << np.uint64(32))
    return c


def compare(c0, m, got):
    w = m.c
    if got.wkt != c0.wkt or got.compressed or got.n != c0.n or (got.n and got.ne != c0.ne):
        return 'the header changed'
    for f in M.FIELDS[3:] + tuple('e%d' % k for k in range(w.ne if w.n else 0)):
        if not np.array_equal(w[f], got[f]):
            k = int(np.flatnonzero(w[f] != got[f])[0])
            return 'field %s of record %d is %d instead of %d (was %d)' % (f, k, got[f][k], w[f][k], c0[f][k])
    for f in 'xyz':
        a, b = w[f], got[f]
        with np.errstate(all='ignore'):
            ok = m.amb[f] | (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= m.tol[f])
        # an untouched coordinate keeps every bit
        if M.bits(a).tobytes() == M.bits(c0[f]).tobytes() and not m.amb[f].any() and not m.tol[f].any():
            ok &= np.isnan(a) | (M.bits(a) == M.bits(b)) | (a == 0)
        if not ok.all():
            k = int(np.flatnonzero(~ok)[0])
            return 'field %s of record %d is %r instead of %r (was %r)' % (f, k, float(b[k]), float(a[k]), float(c0[f][k]))
    return None


def one(item):
    res = Res()
    r = M.rng_for(SEED, 12, item)
    bx = tk.Box(ck, res, str(item))
    for rep in range(9):
        c = gen(r, M.many(item, 50) if rep < 3 else None)
        m = Model(c)
        opts, names = [], []
        for _ in range(M.pick(r, [1, 1, 2, 3, 5]) if r.random() < .97 else 40):
            x = command(r, m)
            if x:
                names.append(x[0])
                opts += ['--%s=%s' % x] if r.random() < .7 else ['--' + x[0], x[1]]
        if not names:
            continue
        if r.random() < .1:
            opts = tk.opt(r, 'a', 'random-seed', int(r.integers(-5, 100))) + opts
        if r.random() < .1:
            opts.insert(0, '-v')
        data = M.encode(c)
        how = M.pick(r, tk.HOWS)
        rr, out = bx.call('transform', M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg']), opts, data, how)
        changed = M.diff_cols(c, m.c) is not None
        res.case((item, rep, tuple(names)) if changed else None)
        for x in names:
            res.count('cmd_' + x)
        res.count('records_judged', c.n)
        desc = 'spoc_transform %s (%s) on %d points with %d extra fields' % (' '.join(opts), how, c.n, c.ne)
        if m.unfit:
            res.count('unfit_copies')
            if rr.bad or rr.rc == 0 or not rr.err.strip():
                res.violation('unfit', '%s: a copied value does not fit its field, exit status %d %s' % (desc, rr.rc, rr.bad or ''), {'in.spoc': data, 'out.spoc': out}, shq(rr.cmd))
            continue
        got = tk.expect_cloud(res, 'transform', desc, rr, out, None, {'in.spoc': data})
        if got is not None:
            d = compare(c, m, got)
            if d:
                res.violation('content', '%s: %s' % (desc, d), {'in.spoc': data, 'out.spoc': out, 'model.spoc': M.encode(m.c)}, shq(rr.cmd))
        res.sample(desc)
    for _ in range(6):
        ne = M.pick(r, [0, 1, 2])
        c = M.gen_cloud(r, M.pick(r, [1, 5]), ne, compressed=False)
        e = 'e%d' % M.pick(r, [ne, ne + 1, 255, 256, 1000, 4294967296])
        num_bad = M.pick(r, ['', 'abc', '1,2', '1x', '--1', '1e', '.', 'x', '1;2', '1e999'])
        fld_bad = M.pick(r, ['', 'q', 'X', 'xx', 'cc', 'e', 'e-1', 'ex', 'e1x', 'C', 'intensity', 'e 1', 'ee1', '0', 'ce0', 'e99999999999999999999'])
        o = M.pick(r, [
            ['--set=%s,1' % e], ['--replace=%s,0,1' % e], ['--replace-not=%s,0,1' % e], ['--copy-field=%s,c' % e],
            ['--copy-field=c,%s' % e], ['--replace=%s,%d,1' % (e, 2 ** 32 - 1)], ['--add-x=1', '--set=%s,1' % e],
            ['--copy-field=%s,c' % M.pick(r, 'xyz')], ['--copy-field=c,%s' % M.pick(r, 'xyz')],
            ['--replace=%s,1,2' % M.pick(r, 'xyz')], ['--replace-not=%s,1,2' % M.pick(r, 'xyz')],
            ['--%s=%s' % (M.pick(r, ['add-x', 'add-y', 'add-z', 'scale-x', 'scale-y', 'scale-z', 'rotate-x', 'rotate-y', 'rotate-z', 'quantize-xyz']), num_bad)],
            ['--set=%s,1' % fld_bad], ['--replace=%s,1,2' % fld_bad], ['--replace-not=%s,1,2' % fld_bad],
            ['--copy-field=%s,c' % fld_bad], ['--copy-field=c,%s' % fld_bad],
            ['--set=c'], ['--set=c,'], ['--set=c,abc'], ['--set=c,1,2'], ['--set=1,c'], ['--set=x,1x'], ['--set=x'], ['--set='],
            ['--replace=c'], ['--replace=c,1'], ['--replace=c,1,'], ['--replace=c,a,2'], ['--replace=c,1,b'], ['--replace=c,1,2,3'],
            ['--replace=c,1.5,2'], ['--replace='], ['--replace-not=c'], ['--replace-not=c,1'], ['--replace-not=c,'], ['--replace-not=c,1,a'],
            ['--replace-not=c,a,1'], ['--replace-not='], ['--copy-field=c'], ['--copy-field=c,'], ['--copy-field=,c'], ['--copy-field='],
            ['--copy-field=c,p,i'], ['--set=c,-1'], ['--set=c,4294967296'], ['--set=i,65536'], ['--set=b,1e10'], ['--replace=i,1,65536'],
            ['--replace=c,1,4294967296'], ['--replace=c,-1,2'], ['--replace=g,1,-1'], ['--replace-not=r,1,70000'], [], ['-v'], ['-a', '5'],
            ['--unknown=5'], ['--add=5'], ['--add-x'], ['--add-w=1'], ['-a', 'x', '--add-x=1'], ['--random-seed=', '--add-x=1'],
            ['--random-seed=1.5', '--add-x=1'], ['COMPRESSED']])
        if o == ['COMPRESSED']:
            o, c.compressed = ['--add-x=1'], True
        data = M.encode(c)
        rr, out = bx.call('transform', M.pick(r, ['rel', 'san', 'dbg']), o, data, M.pick(r, tk.HOWS))
        res.case(('refuse', str(o)))
        res.count('refusals_expected')
        desc = 'spoc_transform %r on a file with %d extra fields' % (o, ne)
        files = {'in.spoc': data, 'stderr': rr.err, 'out': out}
        if rr.bad:
            res.violation('bad-abnormal', '%s: %s' % (desc, rr.bad), files, shq(rr.cmd))
        elif rr.rc == 0:
            res.violation('bad-accepted', '%s: accepted' % desc, files, shq(rr.cmd))
        elif not rr.err.strip():
            res.violation('bad-silent', '%s: no message' % desc, files, shq(rr.cmd))
        else:
            try:
                M.decode(out)
                res.violation('bad-output', '%s: refused, but a complete file was written' % desc, files, shq(rr.cmd))
            except M.FormatError:
                pass
    bx.close()
    return res


ck.map(one, range(scale(300, 8000)))
# values of extra fields beyond the precision of a double
bx = tk.Box(ck, ck, 'precision')
c = M.gen_cloud(M.rng_for(1), 3, 1, compressed=False)
rr, out = bx.call('transform', 'rel', ['--set=e0,9007199254740993'], M.encode(c))
ck.case()
try:
    g = M.decode(out)
    if rr.rc != 0 or (g.e[0] != 9007199254740993).any():
        ck.violation('set-extra-precision', 'spoc_transform --set=e0,9007199254740993 stored %d (exit status %d)' % (g.e[0][0], rr.rc), {'in.spoc': M.encode(c)}, shq(rr.cmd))
except M.FormatError as e:
    ck.violation('set-extra', 'spoc_transform --set=e0,9007199254740993: %s' % e, {'in.spoc': M.encode(c)}, shq(rr.cmd))
bx.close()
ck.finish()
