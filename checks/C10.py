import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import re
from fractions import Fraction
import numpy as np
import spocmodel as M
import tk

ck = Check('C10', 'exploration',
           'clouds x tile counts, square, oblong and strip sizes (also points exactly on cell edges, and cells whose numbers differ in their high bits only) x file, subdirectory and '
           'standard input x prefixes, digits, extensions, pre-existing files; the directory after the run is judged: the '
           'tiles partition the records in order, each within one cell, one file per cell, header kept, names as documented, '
           'nothing overwritten; non-trivial: at least two tiles', min_events=700)
ck.build_apps(['tile'], ['rel', 'san', 'dbg'])


def snapshot(d):
    o = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            o[os.path.relpath(p, d)] = open(p, 'rb').read()
    return o


def make(r, big=None):
    n = big or M.pick(r, [0, 1, 2, 3, 10, 50, 50, 300, 300])
    c = M.gen_cloud(r, n, M.pick(r, [0, 0, 1, 2, 5]))
    if r.random() < .2 and n:                       # a cloud that is large in one direction only
        c.cols[M.pick(r, 'xy')] *= 37.0
    if r.random() < .2 and n:
        f = M.pick(r, 'xy')
        c.cols[f] = np.full(n, c[f][0])
    if r.random() < .9:
        c.cols['p'] = r.permutation(n).astype('<u4')       # identifies every record
    return c


def far(r):
    """Points in cells that are far apart, so that the numbers of many tiles agree in their low bits."""
    ts = float(2.0 ** int(r.integers(-8, 8)))
    w = int(2 ** r.uniform(4, 31))
    h = int(2 ** r.uniform(4, 31))
    idx = [0, w - 1, (h - 1) * w]
    for _ in range(8):
        base = int(2 ** r.uniform(0, 61)) % (w * h)
        for k in [0, 0] + [M.pick(r, [8, 16, 24, 31, 32, 33, 40, 48, 53, 56]) for _ in range(3)]:
            idx.append((base + int(r.integers(0, 3)) * 2 ** k) % (w * h))
    idx = [idx[k] for k in r.permutation(len(idx))]
    c = M.gen_cloud(r, len(idx), M.pick(r, [0, 1]))
    c.cols['x'] = np.array([(k % w + M.pick(r, [.25, .5, .75])) * ts for k in idx], '<f8')
    c.cols['y'] = np.array([(k // w + M.pick(r, [.25, .5, .75])) * ts for k in idx], '<f8')
    c.cols['x'][idx.index(0)] = c.cols['y'][idx.index(0)] = 0.0
    c.cols['p'] = r.permutation(c.n).astype('<u4')
    return c, ts


def one(item):
    res = Res()
    r = M.rng_for(SEED, 10, item)
    for rep in range(5):
        bx = tk.Box(ck, res, '%d-%d' % (item, rep))
        c, ts = far(r) if rep == 4 else (make(r, M.many(item, 40) if rep == 0 else None), None)
        n = c.n
        x, y = c['x'], c['y']
        dx, dy = (float(x.max() - x.min()), float(y.max() - y.min())) if n else (0., 0.)
        ext = max(dx, dy) or 1.0
        opts, tx, ty, tiles, tol = [], None, None, None, 1e-9
        mode = M.pick(r, ['default', 'tiles', 'tiles', 'size', 'size', 'xy', 'xonly', 'yonly'])

        def size(e):
            k = int(r.integers(5))
            e = e or 1.0
            return [e / int(r.integers(1, 12)), float(2.0 ** np.floor(np.log2(e)) / M.pick(r, [1, 2, 4, 8])),
                    float(np.round(e / int(r.integers(1, 9)), 2)) or e, e * 3, float(r.uniform(.05, 1.2)) * e][k]
        if ts:
            mode, tol = 'far', 1e-15
            tx = ty = ts
            opts += tk.opt(r, 's', 'tile-size', repr(ts))
        elif mode in ('default', 'tiles'):
            tiles = 2 if mode == 'default' else M.pick(r, [1, 2, 3, 4, 7, 16, 50])
            if mode == 'tiles':
                opts += tk.opt(r, 't', 'tiles', tiles)
            eps = float(np.finfo('f4').eps)
            tx = ty = (max(dx, dy) + eps) / tiles
            tol = 1e-6
        elif mode == 'size':
            tx = ty = size(ext)
            opts += tk.opt(r, 's', 'tile-size', repr(tx))
        else:
            if mode in ('xy', 'xonly'):
                tx = size(dx)
                opts += tk.opt(r, 'x', 'tile-size-x', repr(tx))
            if mode in ('xy', 'yonly'):
                ty = size(dy)
                opts += tk.opt(r, 'y', 'tile-size-y', repr(ty))
            if mode != 'xy' and r.random() < .3:
                opts += ['--tile-size-%s=-1' % ('y' if mode == 'xonly' else 'x')]
        digits = 3
        if r.random() < .4:
            digits = M.pick(r, [0, 1, 2, 3, 5, 8, 20])
            opts += tk.opt(r, 'd', 'digits', digits)
        if r.random() < .1:
            opts += ['-v']
        data = M.encode(c)
        name = M.pick(r, [None, None, 'cloud.spoc', 'cloud.zpoc', 'a.b.spoc', 'noext', 'sub/in.spoc', 'cloud.xyz'])
        prefix = None
        os.makedirs(bx.path('cwd/sub'))
        os.makedirs(bx.path('cwd/out'))
        if name is None or r.random() < .4:
            prefix = M.pick(r, ['t', 'tile_', 'out/q', '7', 'a b', bx.path('cwd/out/abs'), 'p.q'])
            opts += tk.opt(r, 'p', 'prefix', prefix)
        if name:
            bx.put('cwd/' + name, data)
            stem = prefix if prefix is not None else os.path.splitext(os.path.basename(name))[0]
            extn = os.path.splitext(name)[1]
            opts += [name if r.random() < .7 else bx.path('cwd/' + name)]
        else:
            stem, extn = prefix, '.zpoc' if c.compressed else '.spoc'
        stem = os.path.relpath(os.path.join(bx.path('cwd'), stem), bx.path('cwd'))
        bx.put('cwd/bystander.spoc', b'do not touch')
        force = r.random() < .25
        o = (['-f'] if r.random() < .5 else ['--force']) + opts if force else opts
        exe = ck.bin['tile.' + M.pick(r, ['rel', 'rel', 'rel', 'san', 'dbg'])]
        before = snapshot(bx.path('cwd'))
        rr = run([exe] + o, b'' if name else data, cwd=bx.path('cwd'), cpu=60)
        after = snapshot(bx.path('cwd'))
        desc = 'spoc_tile %s on %d points' % (' '.join(o), n)
        files = {'input.spoc': data, 'stderr': rr.err}

        def bad(key, what, **kw):
            res.violation(key, '%s: %s' % (desc, what), dict(files, **kw), shq(rr.cmd))
        made = sorted(set(after) - set(before))
        res.case((item, rep, mode) if len(made) > 1 else None)
        res.count('tiles_written', len(made))
        res.count('records_judged', n)
        if rr.bad:
            bad('abnormal', rr.bad)
        elif rr.rc != 0:
            bad('refused', 'exit status %d: %s' % (rr.rc, rr.err[-200:]))
        elif any(after.get(k) != v for k, v in before.items()):
            bad('touched', 'changed files other than its tiles')
        elif rr.out:
            bad('stdout', 'wrote to standard output')
        else:
            judge(res, bad, c, made, after, stem, extn, digits, tx, ty, tol, tiles, dx, dy)
        if made and not res.viol:
            overwrite(res, r, bx, exe, opts, name, data, made, after, before, c)
        res.sample('%s: %d tiles' % (desc, len(made)))
        bx.close()
    tiny(res, r, item)
    refuse(res, r, item)
    return res


def judge(res, bad, c, made, after, stem, extn, digits, tx, ty, tol, tiles, dx, dy):
    n = c.n
    pat = re.compile(re.escape(stem) + r'(\d+)' + re.escape(extn) + r'\Z')
    nums = {}
    for f in made:
        m = pat.match(f)
        if not m:
            return bad('name', 'wrote a file named %r' % f)
        k = m.group(1)
        if len(k) < digits or (len(k) > max(digits, 1) and k[0] == '0'):
            return bad('name', 'wrote a file named %r, the number should have %d digits' % (f, digits))
        if int(k) in nums:
            return bad('name', 'two files for tile %s' % k)
        nums[int(k)] = f
    ident = n > 0 and len(np.unique(c['p'])) == n
    pos = {int(p): k for k, p in enumerate(c['p'])} if ident else None
    seen = np.zeros(n, bool)
    if n:
        xl, xh = tk.cell_options(c['x'], float(c['x'].min()), tx, tol)
        yl, yh = tk.cell_options(c['y'], float(c['y'].min()), ty, tol)
    total, rest, cells = 0, [], {}
    for f in made:
        try:
            t = M.decode(after[f])
        except M.FormatError as e:
            return bad('badfile', '%s is not a valid file: %s' % (f, e))
        if t.n == 0:
            return bad('empty', 'the tile %s is empty' % f)
        if t.wkt != c.wkt or t.compressed != c.compressed or t.ne != c.ne:
            return bad('header', 'the tile %s does not have the WKT, extra fields and encoding of the input' % f)
        total += t.n
        if not ident:
            rest += tk.order_cols(t)
            continue
        idx = [pos.get(int(p), -1) for p in t['p']]
        if -1 in idx:
            return bad('content', 'the tile %s contains a record that the input does not' % f)
        if any(a >= b for a, b in zip(idx, idx[1:])):
            return bad('order', 'the records in tile %s are not in input order' % f)
        if seen[idx].any():
            return bad('twice', 'a record is in two tiles')
        seen[idx] = True
        m = M.diff_cols(c.take(idx), t)
        if m:
            return bad('content', 'the tile %s: %s' % (f, m))
        # one cell
        if max(xl[idx]) > min(xh[idx]) or max(yl[idx]) > min(yh[idx]):
            return bad('cell', 'the records of tile %s lie in several cells (x cells %d..%d, y cells %d..%d)' % (
                f, min(xl[idx]), max(xh[idx]), min(yl[idx]), max(yh[idx])))
        if max(xl[idx]) == min(xh[idx]) and max(yl[idx]) == min(yh[idx]):
            cell = (int(max(xl[idx])), int(max(yl[idx])))
            if cell in cells:
                return bad('split', 'tiles %s and %s are of the same cell %s' % (f, cells[cell], cell))
            cells[cell] = f
    if total != n:
        return bad('lost', '%d records in, %d records out' % (n, total))
    if n and not ident and sorted(rest) != sorted(tk.order_cols(c)):
        return bad('content', 'the records in the tiles are not the records of the input')
    if tiles is not None and n and max(dx, dy) < 1e6 and len(made) > tiles * tiles:
        return bad('count', '%d tiles, more than %d in each direction' % (len(made), tiles))
    res.count('distinct_cells', len(cells))


def overwrite(res, r, bx, exe, opts, name, data, made, after, before, c):
    """Without force nothing that exists is overwritten; with it, exactly the tiles are."""
    victim = M.pick(r, made)
    keep = set(M.pick(r, [[victim], made, [victim, M.pick(r, made)]]))
    for f in made:
        if f not in keep:
            os.unlink(bx.path('cwd/' + f))
    content = M.pick(r, [b'precious', b'', after[victim]])
    for f in keep:
        bx.put('cwd/' + f, content)
    rr = run([exe] + opts, b'' if name else data, cwd=bx.path('cwd'), cpu=60)
    now = snapshot(bx.path('cwd'))
    res.case()
    res.count('overwrite_attempts')
    files = {'input.spoc': data, 'stderr': rr.err}
    desc = 'spoc_tile %s when %s exist' % (' '.join(opts), sorted(keep))
    if rr.bad:
        res.violation('abnormal', '%s: %s' % (desc, rr.bad), files, shq(rr.cmd))
    elif any(now.get(f) != content for f in keep):
        res.violation('overwrite', '%s: an existing file was overwritten' % desc, files, shq(rr.cmd))
    elif rr.rc == 0:
        res.violation('exists-accepted', '%s: exit status 0' % desc, files, shq(rr.cmd))
    elif any(now.get(f) != v for f, v in before.items()):
        res.violation('touched', '%s: changed another file' % desc, files, shq(rr.cmd))
    rr = run([exe, '-f'] + opts, b'' if name else data, cwd=bx.path('cwd'), cpu=60)
    now = snapshot(bx.path('cwd'))
    if rr.bad or rr.rc:
        res.violation('force', 'spoc_tile -f %s: exit status %d %s' % (' '.join(opts), rr.rc, rr.bad or ''), files, shq(rr.cmd))
    elif now != after:
        res.violation('force', 'spoc_tile -f %s: the second run did not produce the files of the first' % ' '.join(opts), files, shq(rr.cmd))


def tiny(res, r, item):
    """Cells so small that there are about as many as the tile number can count, or more: points that are apart
    get separate tiles, or the size is refused, which is not needed while the count stays below 2^62."""
    bx = tk.Box(ck, res, 'tiny%d' % item)
    for rep in range(2):
        n = int(r.integers(2, 9))
        c = M.gen_cloud(r, n, 0)
        px = M.pick(r, [1.0, 1000.0, 1e6])
        c.cols['x'] = np.array([float(r.integers(0, 9)) * px for _ in range(n)], '<f8')
        c.cols['y'] = np.array([float(r.integers(0, 9)) * M.pick(r, [px, 0.0]) for _ in range(n)], '<f8')
        c.cols['p'] = r.permutation(n).astype('<u4')
        ts = float('1e-%d' % M.pick(r, [5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 17, 18, 20, 30, 300, int(r.integers(5, 30))]))
        kx = M.pick(r, [1.0, 1.0, 1e8 if ts < 1e-10 else 1.0])
        dx, dy = float(c['x'].max() - c['x'].min()), float(c['y'].max() - c['y'].min())
        cells = (int(Fraction(dx) / Fraction(ts * kx)) + 1) * (int(Fraction(dy) / Fraction(ts)) + 1)
        bx.put('in.spoc', M.encode(c))
        sub = 'cwd%d' % rep
        os.makedirs(bx.path(sub))
        o = ['-s', repr(ts)] if kx == 1 else ['-x', repr(ts * kx), '-y', repr(ts)]
        rr = run([ck.bin['tile.' + M.pick(r, ['rel', 'san', 'dbg'])]] + o + ['-p', 't', bx.path('in.spoc')], b'', cwd=bx.path(sub))
        made = snapshot(bx.path(sub))
        res.case(('tiny', item, rep))
        res.count('tiny_cells')
        desc = 'spoc_tile %s on %d points in %g x %g, about 2^%d cells: ' % (' '.join(o), n, dx, dy, cells.bit_length() - 1)
        files = {'in.spoc': M.encode(c), 'stderr': rr.err}
        if rr.bad:
            res.violation('tiny', desc + rr.bad, files, shq(rr.cmd))
        elif rr.rc != 0:
            res.count('tiny_refused')
            if cells < 2 ** 62:
                res.violation('tiny', desc + 'refused: %r' % rr.err[-200:], files, shq(rr.cmd))
            elif made:
                res.violation('tiny', desc + 'refused, but wrote tiles', files, shq(rr.cmd))
        else:
            where = {}
            for k, v in made.items():
                for t in range(M.decode(v).n):
                    d = M.decode(v)
                    where.setdefault((float(d['x'][t]), float(d['y'][t])), set()).add(k)
            want = {(float(a), float(b)) for a, b in zip(c['x'], c['y'])}
            if sum(M.decode(v).n for v in made.values()) != n or set(where) != want:
                res.violation('tiny', desc + 'not the points of the input', files, shq(rr.cmd))
            elif any(len(v) > 1 for v in where.values()):
                res.violation('tiny', desc + 'one location in several tiles', files, shq(rr.cmd))
            elif len(made) != len(want):
                res.violation('tiny', desc + '%d tiles for %d locations that are far apart' % (len(made), len(want)), files, shq(rr.cmd))
    bx.close()


def refuse(res, r, item):
    bx = tk.Box(ck, res, 'bad%d' % item)
    c = M.gen_cloud(r, 20, 0)
    data = M.encode(c)
    bx.put('in.spoc', data)
    for _ in range(3):
        o, inp = M.pick(r, [
            ([], data), (['-v'], data), (['--prefix='], data),
            (['--tile-size=5', '--tile-size-x=5', 'in.spoc'], b''), (['-s5', '-y', '5', 'in.spoc'], b''),
            (['--tiles=0', 'in.spoc'], b''), (['--tiles=-1', 'in.spoc'], b''), (['--tiles=two', 'in.spoc'], b''),
            (['--digits=-1', 'in.spoc'], b''), (['--digits=x', 'in.spoc'], b''), (['--tile-size=abc', 'in.spoc'], b''),
            (['--tile-size=', 'in.spoc'], b''), (['--tile-size=5x', 'in.spoc'], b''), (['-x', '1e', 'in.spoc'], b''),
            (['missing.spoc'], b''), (['in.spoc', 'in.spoc'], b''), (['-p', 'nodir/x', 'in.spoc'], b''),
            (['-p', 'q'], data[:-1]), (['-p', 'q'], data[:10]), (['-p', 'q'], b''), (['-p', 'q'], b'X' + data[1:]), (['.'], b'')])
        before = snapshot(bx.d)
        rr = run([ck.bin['tile.' + M.pick(r, ['rel', 'san', 'dbg'])]] + o, inp, cwd=bx.d)
        res.case(('refuse', tuple(o)))
        res.count('refusals_expected')
        made = set(snapshot(bx.d)) ^ set(before)
        tk.expect_refusal(res, 'bad', 'spoc_tile %r' % o, rr, rr.out, {'in.spoc': data})
        if snapshot(bx.d) != before:
            res.violation('bad-files', 'spoc_tile %r was refused but changed files %s' % (o, made), {'in.spoc': data}, shq(rr.cmd))
    bx.close()


ck.map(one, range(scale(220, 5000)))
ck.finish()
