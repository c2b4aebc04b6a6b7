import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import re, threading
import numpy as np
from decimal import Decimal, getcontext
import spocmodel as M
import tk

getcontext().prec = 60
ck = Check('C15', 'exploration',
           'clouds of both encodings x every field (values at the edges of the type) x get, set from files and named pipes '
           '(several number spellings, with and without a final newline), get then set, resize to 0..255; exact output bytes '
           'are compared with a model; malformed, missing and unfit values, fields and sizes must be refused; non-trivial: '
           'at least one record', min_events=2000)
ck.build_apps(['tool'], ['rel', 'san', 'dbg'])
TOP = {**{f: 2 ** 32 - 1 for f in 'cp'}, **{f: 2 ** 16 - 1 for f in 'irgb'}}


def gen(r, ne=None, big=None):
    n = big or M.pick(r, [0, 1, 2, 5, 30, 200, 2000 if r.random() < .1 else 20])
    return M.gen_cloud(r, n, M.pick(r, [0, 0, 1, 2, 7, 255 if n < 50 else 3]) if ne is None else ne, styles=M.FINITE_STYLES + (('special', 'negzero') if r.random() < .2 else ()))


def field(r, c):
    return M.pick(r, list(M.FIELDS) + (['e%d' % M.pick(r, [0, c.ne - 1, int(r.integers(c.ne))])] * 4 if c.ne else []))


def check_get(c, f, out):
    lines = out.split(b'\n')
    if lines.pop() != b'':
        return 'the last line is not ended'
    if len(lines) != c.n:
        return '%d lines for %d records' % (len(lines), c.n)
    for k, (l, v) in enumerate(zip(lines, c[f])):
        if f in 'xyz':
            try:
                t = float(l)
            except ValueError:
                return 'line %d is %r' % (k, l)
            if np.isfinite(v) and abs(v) < 1e308:
                # sixteen significant digits
                if t != v and not abs(Decimal(l.decode()) - Decimal(float(v))) <= Decimal('5.01e-16') * abs(Decimal(float(v))):
                    return 'line %d is %r for %r' % (k, l, float(v))
            elif not (abs(v) >= 1e308 or t == v or (np.isnan(t) and np.isnan(v))):
                return 'line %d is %r for %r' % (k, l, float(v))
        elif l != b'%d' % int(v):
            return 'line %d is %r for %d' % (k, l, int(v))
    return None


def number(r, v):
    v = float(v)
    return M.pick(r, ['%r' % v, '%.17g' % v, '%.20e' % v])


def pour(p, text):
    try:
        with open(p, 'w') as f:
            f.write(text)
    except BrokenPipeError:
        pass


def one(item):
    res = Res()
    r = M.rng_for(SEED, 15, item)
    bx = tk.Box(ck, res, str(item))
    variant = lambda: M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg'])
    for rep in range(5):
        # ---------------------------------------------------- get
        c = gen(r, big=M.many(item, 50) if rep == 0 else None)
        data = M.encode(c)
        f = field(r, c)
        rr, out = bx.call('tool', variant(), tk.opt(r, 'g', 'get-field', f), data, M.pick(r, ['fs', 'ss']))
        res.case((item, rep, 'get', f) if c.n else None)
        res.count('values_printed', c.n)
        desc = 'spoc_tool -g %s on %d points with %d extra fields' % (f, c.n, c.ne)
        if rr.bad or rr.rc:
            res.violation('get-refused', '%s: exit status %d %s %s' % (desc, rr.rc, rr.bad or '', rr.err[-200:]), {'in.spoc': data}, shq(rr.cmd))
        else:
            d = check_get(c, f, out)
            if d:
                res.violation('get', '%s: %s' % (desc, d), {'in.spoc': data, 'out': out}, shq(rr.cmd))
            # setting what was got restores the field
            if c.n and (f not in 'xyz' or (np.abs(c[f]) < 1e308).all()):
                b = c.copy()
                if f[0] == 'e':
                    b.e[int(f[1:])] = 0
                else:
                    b.cols[f] = np.zeros(c.n, M.DT[f])
                vals = bx.put('vals', out)
                rr, o2 = bx.call('tool', variant(), ['-s', f, '-f', vals], M.encode(b), M.pick(r, tk.HOWS))
                want = c
                if f in 'xyz':
                    want = c.copy()
                    want.cols[f] = np.array([float(x) for x in out.split()], '<f8')
                res.case()
                res.count('restored')
                tk.expect_cloud(res, 'restore', 'setting what %s printed' % desc, rr, o2, want, {'in.spoc': M.encode(b), 'vals': out})
        # ---------------------------------------------------- set
        c = gen(r, big=M.many(item, 50) if rep == 0 else None)
        f = field(r, c)
        if r.random() < .25:
            f = 'e%d' % M.pick(r, [c.ne, c.ne + 1, c.ne + 5, 254])
            f = 'e%d' % min(254, int(f[1:]))
        want = c.copy()
        if f in 'xyz':
            v = M.gen_coord(r, c.n, M.pick(r, M.FINITE_STYLES))
            want.cols[f] = np.asarray(v, '<f8')
            texts = [number(r, x) for x in v]
        elif f[0] == 'e':
            j = int(f[1:])
            v = M.gen_int(r, c.n, M.U64)
            if j >= c.ne and c.n:
                want.e = np.zeros((j + 1, c.n), M.U64)
                want.e[:c.ne] = c.e
            if c.n:
                want.e[j] = v
            texts = ['%d' % int(x) for x in v]
        else:
            v = M.gen_int(r, c.n, M.DT[f])
            want.cols[f] = v
            texts = ['%d' % int(x) for x in v]
        text = '\n'.join(texts) + ('\n' if r.random() < .7 else '')
        data = M.encode(c)
        opts = tk.opt(r, 's', 'set-field', f)
        fifo = r.random() < .2
        if fifo:
            p = bx.path('fifo%d' % rep)
            os.mkfifo(p)
            th = threading.Thread(target=pour, args=(p, text), daemon=True)
            th.start()
        else:
            p = bx.put('vals', text)
        opts = opts + tk.opt(r, 'f', 'field-filename', p) if r.random() < .7 else tk.opt(r, 'f', 'field-filename', p) + opts
        if r.random() < .1:
            opts += ['-v']
        rr, out = bx.call('tool', variant(), opts, data, M.pick(r, tk.HOWS))
        if fifo:
            os.close(os.open(p, os.O_RDONLY | os.O_NONBLOCK))     # releases the writer if nobody came
            th.join(10)
            res.count('named_pipes')
        res.case((item, rep, 'set', f) if c.n else None)
        res.count('values_set', c.n)
        desc = 'spoc_tool %s on %d points with %d extra fields' % (' '.join(opts), c.n, c.ne)
        tk.expect_cloud(res, 'set', desc, rr, out, want, {'in.spoc': data, 'vals': text})
        # ---------------------------------------------------- resize
        c = gen(r, big=M.many(item, 50) if rep == 0 else None)
        k = M.pick(r, [0, 0, 1, 2, 3, c.ne, max(0, c.ne - 1), min(255, c.ne + 1), 7, 100, 254, 255])
        if k > 100 and c.n > 300:
            k = 10
        want = c.copy()
        want.e = np.zeros((k, c.n), M.U64)
        m = min(k, c.ne)
        want.e[:m] = c.e[:m]
        data = M.encode(c)
        o = M.pick(r, [['--resize-extra=%d' % k], ['--resize-extra', '%d' % k]])
        rr, out = bx.call('tool', variant(), o, data, M.pick(r, tk.HOWS))
        res.case((item, rep, 'resize', c.ne, k) if c.n else None)
        res.count('resizes')
        tk.expect_cloud(res, 'resize', 'spoc_tool %s on %d points with %d extra fields' % (o, c.n, c.ne), rr, out, want, {'in.spoc': data})
        res.sample(desc)
    # ---------------------------------------------------- refusals
    for _ in range(7):
        c = M.gen_cloud(r, M.pick(r, [1, 2, 5]), M.pick(r, [0, 1, 3]))
        data = M.encode(c)
        n = c.n
        bad = M.pick(r, ['', 'q', 'X', 'xx', 'e', 'e-1', 'ex', 'e1x', 'intensity', 'cc', '1', 'ee', 'x,y', 'c,', 'c p', 'e0 ', 'e99999999999999999999'])
        if bad == 'c,':
            bad = 'c,p'
        f = M.pick(r, list('cpirgb') + ['e0'])
        t = TOP.get(f, 2 ** 64 - 1)
        ok = ['1'] * n
        k = int(r.integers(n))
        badv = M.pick(r, ['abc', '-1', '-', str(t + 1), '1.5', '1e3x', '99999999999999999999999', '0x10', '1,1', '', '1;', 'nan', '--1', '5-', str(2 ** 64)])
        badc = M.pick(r, ['abc', '-', '1x', '1,5', '', '--1', '1e', '1.2.3'])
        few = ok[:M.pick(r, [0, n - 1])]
        vals = bx.put('vals', '\n'.join(ok) + '\n')
        x = M.pick(r, ['getf', 'setf', 'gete', 'val', 'val', 'val', 'coord', 'few', 'size', 'e255', 'nofile', 'missing', 'two'])
        if x == 'getf':
            o = ['--get-field=' + bad]
        elif x == 'setf':
            o = ['--set-field=' + bad, '-f', vals]
        elif x == 'gete':
            o = ['-g', 'e%d' % M.pick(r, [c.ne, c.ne + 1, 255, 1000])]
        elif x in ('val', 'coord'):
            g = f if x == 'val' else M.pick(r, 'xyz')
            bv = badv if x == 'val' else badc
            if bv == '' and k == n - 1:
                bv = ' '
            w = ok[:k] + [bv] + ok[k + 1:]
            if not bv.strip() and n > 1 and len(' '.join(w).split()) >= n:
                w = ok[:-1]
            o = ['-s', g, '-f', bx.put('vals', '\n'.join(w) + '\n')]
            x += ' ' + repr(bv) + ' at %d of %d' % (k, n)
        elif x == 'few':
            o = ['-s', M.pick(r, [f, 'x', 'e0', 'e5']), '-f', bx.put('vals', '\n'.join(few) + M.pick(r, ['', '\n', '\n\n']))]
        elif x == 'size':
            o = ['--resize-extra=' + M.pick(r, ['-1', '256', '1000', '', 'x', '1.5', '4294967296', '-4294967296', '3x', '4294967297', ' '])]
        elif x == 'e255':
            o = ['-s', 'e' + M.pick(r, ['255', '256', '1000', '2147483647']), '-f', vals]
        elif x == 'nofile':
            o = ['-s', f]
        elif x == 'missing':
            o = ['-s', f, '-f', bx.path('missing')]
        else:
            o = M.pick(r, [['-g', 'x', '-g', 'y'], ['-g', 'x', '--resize-extra=1'], ['--recenter-xy', '--recenter-xyz'], ['-s', 'c', '-s', 'p', '-f', vals]])
        rr, out = bx.call('tool', M.pick(r, ['rel', 'san', 'dbg']), o, data, M.pick(r, tk.HOWS))
        res.case(('refuse', x.split()[0], str(o[:2])[:40]))
        res.count('refusals_expected')
        tk.expect_refusal(res, 'bad', 'spoc_tool %r (%s) on %d points with %d extra fields' % (o, x, n, c.ne), rr, out,
                          {'in.spoc': data, 'vals': bx.get('vals') or b''})
    bx.close()
    return res


ck.map(one, range(scale(200, 4000)))
ck.finish()
