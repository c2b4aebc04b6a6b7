import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M

ck = Check('C28', 'exploration',
           'random pipelines of one to five tool commands over generated clouds, executed in both encodings and, per encoding, '
           'through named files, standard streams (regular files and pipes), one concurrent shell pipeline with relays that cut '
           'the data into random pieces, and repeated with verbose output, existing outputs, another environment: bytes per '
           'encoding, records, WKT and encoding across encodings, texts, tiles and exit statuses compared; every way of giving '
           'second inputs in either encoding; non-trivial: a pipeline whose reference run succeeds', min_events=3000)
APPS_ = [a for a in APPS]
ck.build_apps(APPS_, ['rel', 'dbg'])
ck.build([('relay', VERIF + '/harness/relay.c', ['gcc', '-O2'], [])])


class Stage:
    """One step: 'app' with options. kind: 'map' (one cloud to one), 'two' (a second input), 'text', 'tiles', 'status'"""
    def __init__(self, app, opts, kind='map', second=None, enc='both'):
        self.app, self.opts, self.kind, self.second, self.enc = app, opts, kind, second, enc

    def __str__(self):
        return ' '.join([self.app] + self.opts + ([self.second] if self.second else []))


def map_stage(r, w):
    k = int(r.integers(0, 19))
    cls = str(int(r.integers(0, 6)))
    num = lambda: repr(round(float(r.uniform(-3, 3)), 2))
    if k < 4:
        o = []
        if r.random() < .4:
            for _ in range(int(r.integers(1, 3))):
                o += [M.pick(r, ['-k', '-r']), str(int(r.integers(0, 6)))]
        if r.random() < .3:
            o += ['-u']
        if r.random() < .4:
            o += ['-s', M.pick(r, ['0.3', '1', '2.5'])]
            if r.random() < .6:
                o += ['-a', str(int(r.integers(0, 9)))]
        if r.random() < .3:
            o += ['-c', '%s %s %s' % (M.pick(r, 'xyz'), M.pick(r, '<>'), num())]
        return Stage('filter', o)
    if k < 8:
        o = M.pick(r, [['--recenter-xy'], ['--recenter-xyz'], ['--subtract-min-xy'], ['--subtract-min-xyz'],
                       ['--resize-extra=%d' % r.integers(0, 5)]])
        return Stage('tool', o)
    if k == 8:
        return Stage('tool', ['--upsample-classifications=@B@', '--resolution=' + M.pick(r, ['0.7', '4', '100'])])
    if k == 9:
        return Stage('srs', ['-s', M.pick(r, ['NEW', 'PROJCS["a b"]', ' ', 'x' * 300])])
    if k < 12:
        o = ['-q'] + (['-p', cls] if r.random() < .4 else [])
        return Stage('merge', o, 'two', M.pick(r, ['@A@', '@B@', '@E@']))
    if k == 12:
        return Stage('turn', [])                # to the other encoding and back
    ops = {'add': num, 'scale': num, 'rotate': num}
    o = []
    for _ in range(int(r.integers(1, 4))):
        j = int(r.integers(0, 8))
        if j < 3:
            o.append('--%s-%s=%s' % (M.pick(r, ['add', 'scale', 'rotate']), M.pick(r, 'xyz'), num()))
        elif j == 3:
            o.append('--quantize-xyz=' + M.pick(r, ['0.1', '1', '0.25']))
        elif j == 4:
            o.append('--%s-noise%s=0.5' % (M.pick(r, ['uniform', 'gaussian']), M.pick(r, ['', '-x', '-y', '-z'])))
        elif j == 5:
            o.append('--set=%s,%s' % (M.pick(r, ['c', 'p', 'i', 'r', 'g', 'b', 'x']), cls))
        elif j == 6:
            o.append('--copy-field=%s,%s' % (M.pick(r, 'cpirgb'), M.pick(r, 'cpirgb')))
        else:
            o.append(M.pick(r, ['--replace=c,1,4', '--replace=i,0,3', '--replace-not=c,1,2,5', '--replace-not=p,0,1']))
    if r.random() < .5:
        o += ['-a', str(int(r.integers(0, 9)))]
    return Stage('transform', o, enc='u')


def last_stage(r, w):
    k = int(r.integers(0, 8))
    if k < 2:
        return Stage('info', M.pick(r, [[], ['-j'], ['-q'], ['-c', '-m'], ['-a'], ['-s', '-x']]) if r.random() < .9 else [], 'text')
    if k < 4:
        return Stage('tool', ['-g', M.pick(r, ['x', 'y', 'z', 'c', 'p', 'i', 'r', 'g', 'b', 'e0'])], 'text')
    if k == 4:
        return Stage('srs', [], 'text')
    if k == 5:
        o = M.pick(r, [[], ['-r'], ['-a'], ['-d'], ['-f', 'x'], ['-f', 'c'], ['-d', '-r']])
        return Stage('diff', o, 'status', M.pick(r, ['@A@', '@I@']))
    o = M.pick(r, [['-t', str(int(r.integers(1, 6)))], ['-s', M.pick(r, ['3', '0.9'])], ['-x', '4', '-y', '1.5'], []])
    if w.clouds['@A@'].n > 1000 and o[:1] in (['-s'], ['-x']):      # not thousands of files
        o = ['-t', str(int(r.integers(2, 20)))]
    return Stage('tile', o, 'tiles')


def expand(stages, enc):
    """The commands for one encoding: transform works on uncompressed files only."""
    L = []
    for s in stages:
        if s.app == 'turn':
            L += [Stage('compress', []), Stage('decompress', [])] if enc == 'u' else [Stage('decompress', []), Stage('compress', [])]
        elif s.enc == 'u' and enc == 'c':
            L += [Stage('decompress', []), s, Stage('compress', [])]
        else:
            L.append(s)
    return L


class World:
    def __init__(self, r, name):
        self.d = ck.work + '/w-' + name
        os.makedirs(self.d)
        ne = int(M.pick(r, [0, 0, 1, 2, 5]))
        n = int(M.pick(r, [0, 1, 2, 30, 30, 150, 150, 400, 2000])) if r.random() < .99 else 66000
        kw = dict(wkt=M.pick(r, [b'', b'SRS one', b'PROJCS["x",\n  1]', b'w' * 5000]), styles=['cm', 'half', 'unit'],
                  int_style=M.pick(r, ['small', 'small', 'full', None]))
        self.clouds = {'@A@': M.gen_cloud(r, n, ne if n else 0, compressed=False, **kw),
                       '@B@': M.gen_cloud(r, max(1, n // 3), ne, compressed=False, **kw),
                       '@E@': M.gen_cloud(r, 0, 0, compressed=False, **kw)}
        for k, c in self.clouds.items():
            for e in 'uc':
                x = c.copy()
                x.compressed = e == 'c'
                open('%s/%s.%s' % (self.d, k.strip('@').lower(), {'u': 'spoc', 'c': 'zpoc'}[e]), 'wb').write(M.encode(x))

    def path(self, k, e):
        return '%s/%s.%s' % (self.d, k.strip('@').lower(), {'u': 'spoc', 'c': 'zpoc'}[e])

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def ext(s, enc):
    """The extension of the output of a step (the tiles get the extension of their input)."""
    return {'compress': 'zpoc', 'decompress': 'spoc'}.get(s.app) or ('spoc' if s.enc == 'u' or enc == 'u' else 'zpoc')


def execute(w, r, stages, enc, variant, mode, second=None, inp=None):
    """Run the pipeline. -> (list of exit statuses or None, kind, result, command text, standard error)
    mode: 'files', 'streams', 'mixed', 'shell'. second: encoding of the second inputs (default: as the first)."""
    tag = '%08x' % int(r.integers(0, 1 << 32))
    cur = inp or w.path('@A@', enc)
    first = cur
    second = second or enc
    verb = mode in ('mixed', 'shell')
    sts, text, err = [], [], b''
    parts = []
    env = dict(os.environ)
    if mode == 'mixed':
        env = {'OMP_NUM_THREADS': env.get('OMP_NUM_THREADS', '2'), 'LC_ALL': M.pick(r, ['C', 'C.UTF-8', 'xx_YY']), 'TZ': 'UTC+3'}
    L = expand(stages, enc)
    dead = []
    for k, s in enumerate(L):
        exe = ck.bin['%s.%s' % (s.app, variant)]
        o = [x.replace('@B@', w.path('@B@', second)) for x in s.opts]
        if verb and r.random() < .6 and s.kind != 'text':
            o.insert(M.pick(r, [0, len(o)]), '-v')
        out = '%s/%s-%d.%s' % (w.d, tag, k, ext(s, enc))
        dead.append(out)
        how = {'files': 'ff', 'streams': 'ss', 'mixed': M.pick(r, ['ff', 'fs', 'ss', 'sp', 'dev', 'rel', 'old']), 'shell': 'ss'}[mode]
        if s.kind in ('two', 'status'):
            how = 'fs'
        other = {'@I@': first}.get(s.second) or (s.second and w.path(s.second, enc))
        if s.kind == 'tiles':
            os.makedirs(out)
            o = o + ['--prefix=%s/t' % out]
        if mode == 'shell':
            a = [exe] + o
            if s.kind in ('two', 'status'):
                a += ['/dev/stdin', other]
            parts.append(shq(a))
            if r.random() < .6 and k + 1 < len(L):
                parts.append(shq([ck.bin['relay'], str(int(r.integers(1, 1 << 30)))]))
            continue
        cwd, stdin, data, a = w.d, None, None, [exe] + o
        if s.app == 'srs' and how in ('fs', 'old') and s.kind == 'map':
            how = 'ff'
        if s.kind == 'text' and how in ('ff', 'old'):
            how = 'fs'
        if s.kind == 'tiles' and how in ('ff', 'old', 'rel', 'dev'):
            how = 'fs'                      # the tiles have the extension of the name of the input
        if how in ('ff', 'old', 'rel'):
            if how == 'old':
                open(out, 'wb').write(b'old' * 5000)
            if how == 'rel':
                a += [os.path.relpath(cur, w.d), os.path.relpath(out, w.d)] if s.kind == 'map' else [os.path.relpath(cur, w.d)]
            else:
                a += [cur, out]
        elif how == 'fs' and not (s.kind == 'map' and s.app == 'srs'):
            a += [cur]
        elif how == 'dev' and not (s.kind == 'map' and s.app == 'srs'):
            a += ['/dev/stdin']
        if how == 'fs':
            data = b''
        elif how == 'ss':
            stdin = os.open(cur, os.O_RDONLY)
        else:
            data = open(cur, 'rb').read() if how in ('sp', 'dev') else b''
        if s.kind in ('two', 'status'):
            a = [exe] + o + [cur, other]
        try:
            rr = run(a, data or b'', stdin=stdin, cwd=cwd, env=env, cpu=60)
        finally:
            if stdin is not None:
                os.close(stdin)
        text.append('%s   # %s' % (shq(a), how))
        err += rr.err[-400:]
        sts.append(rr.rc if not rr.bad else rr.bad)
        if rr.bad or (rr.rc != 0 and s.kind != 'status'):
            break
        named = s.kind == 'map' and how in ('ff', 'old', 'rel')
        if named and rr.out:
            sts.append('wrote %d bytes to standard output besides the named file' % len(rr.out))
            break
        if s.kind == 'tiles':
            if rr.out:
                sts.append('wrote %d bytes to standard output besides the tiles' % len(rr.out))
            break
        if not named:
            open(out, 'wb').write(rr.out)
        cur = out
    if mode == 'shell':
        cmd = 'set -o pipefail; ' + ' | '.join(parts)
        with open(first, 'rb') as f:
            rr = run(['/bin/bash', '-c', cmd], stdin=f.fileno(), cwd=w.d, env=env, cpu=60)
        text, err = [cmd + ' < ' + first], rr.err[-2000:]
        sts = [rr.bad or rr.rc]
        open(out, 'wb').write(rr.out) if L[-1].kind != 'tiles' else None
        cur = out
    if L[-1].kind == 'tiles' and os.path.isdir(out):
        got = {f: open(out + '/' + f, 'rb').read() for f in sorted(os.listdir(out))}
    else:
        got = open(cur, 'rb').read()
    for x in dead:
        shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.path.exists(x) and os.unlink(x)
    return sts, L[-1].kind, got, '\n'.join(text), err


def same_records(a, b):
    """Compare two files in different encodings -> text or None"""
    try:
        x, y = M.decode(a), M.decode(b)
    except M.FormatError as e:
        return 'not a valid file: %s' % e
    m = M.diff_clouds(x, y)
    return m


def across(kind, u, c):
    """Results of the two encodings -> text or None"""
    if kind == 'tiles':
        names = lambda d, e: {k[:-5]: v for k, v in d.items() if k.endswith(e)}
        x, y = names(u, '.spoc'), names(c, '.zpoc')
        if len(x) != len(u) or len(y) != len(c):
            return 'tiles with a name of the other encoding: %s %s' % (sorted(u)[:5], sorted(c)[:5])
        if sorted(x) != sorted(y):
            return 'tiles %s and %s' % (sorted(u)[:9], sorted(c)[:9])
        for k in x:
            m = across('map', x[k], y[k])
            if m:
                return 'tile %s: %s' % (k, m)
        return None
    if kind == 'text':
        f = lambda t: [l for l in t.split(b'\n') if b'ompressed' not in l]
        a, b = f(u), f(c)
        if a != b:
            k = [i for i in range(max(len(a), len(b))) if i >= len(a) or i >= len(b) or a[i] != b[i]][0]
            return 'line %d: %r and %r' % (k + 1, (a[k:k + 1] or [b''])[0][:80], (b[k:k + 1] or [b''])[0][:80])
        return None
    if kind == 'status':
        return None if u == c else 'output %r and %r' % (u[:80], c[:80])
    try:
        x, y = M.decode(u), M.decode(c)
    except M.FormatError as e:
        return 'not a valid file: %s' % e
    if x.compressed or not y.compressed:
        return 'the encoding of the output is not that of the input: %s from an uncompressed, %s from a compressed file' % (
            'compressed' if x.compressed else 'uncompressed', 'compressed' if y.compressed else 'uncompressed')
    y.compressed = False
    return M.diff_clouds(x, y)


def keeps_wkt(stages):
    # the result of upsampling is the file given with the option
    return not any(s.app == 'srs' and s.opts or s.app == 'merge' or '@B@' in ' '.join(s.opts) for s in stages)


def one(item):
    k, single = item
    res = Res()
    r = M.rng_for(SEED, 28, single, k)
    w = World(r, '%d-%d' % (single, k))
    for _ in range(scale(6, 40)):
        variant = 'rel' if r.random() < .8 else 'dbg'
        stages = [map_stage(r, w) for _ in range(int(r.integers(0, 5)) if not single else 0)]
        if r.random() < .55 or not stages:
            stages.append(last_stage(r, w) if r.random() < .5 else map_stage(r, w))
        desc = '%d points, %d extra fields: %s' % (w.clouds['@A@'].n, w.clouds['@A@'].ne, ' | '.join(map(str, stages)))
        ref = {e: execute(w, r, stages, e, variant, 'files') for e in 'uc'}
        ok = {e: all(s == 0 for s in (ref[e][0] if ref[e][1] != 'status' else ref[e][0][:-1])) for e in 'uc'}
        kind = ref['u'][1]
        files = {'a.spoc': open(w.path('@A@', 'u'), 'rb').read(), 'b.spoc': open(w.path('@B@', 'u'), 'rb').read()}

        def bad(key, text, *xs):
            f = dict(files)
            for j, x in enumerate(xs):
                f['commands-%d' % j] = x[3]
                f['stderr-%d' % j] = x[4]
                if not isinstance(x[2], dict):
                    f['result-%d' % j] = x[2]
            res.violation(key, desc + ': ' + text, f, xs[-1][3])

        res.count('pipelines')
        res.count('stages', len(stages))
        res.case((single, k, _, variant) if ok['u'] else None)
        abn = [s for e in 'uc' for s in ref[e][0] if not isinstance(s, int)]
        if abn:
            bad('abnormal', abn[0], ref['u'], ref['c'])
            continue
        if ok['u'] != ok['c']:
            bad('refused', 'works on %s, exit statuses %s and %s' % ('one encoding only', ref['u'][0], ref['c'][0]), ref['u'], ref['c'])
            continue
        if not ok['u']:
            res.count('refused')
        else:
            if kind == 'status' and ref['u'][0][-1] != ref['c'][0][-1]:
                bad('status', 'exit status %d uncompressed and %d compressed' % (ref['u'][0][-1], ref['c'][0][-1]), ref['u'], ref['c'])
            m = across(kind, ref['u'][2], ref['c'][2])
            if m:
                bad('encoding', m, ref['u'], ref['c'])
                continue
            if kind in ('map', 'two') and keeps_wkt(stages):
                if M.decode(ref['u'][2]).wkt != w.clouds['@A@'].wkt:
                    bad('wkt', 'the WKT changes', ref['u'])
            if kind == 'tiles' and keeps_wkt(stages):
                if any(M.decode(v).wkt != w.clouds['@A@'].wkt for v in ref['u'][2].values()):
                    bad('wkt', 'the WKT changes in a tile', ref['u'])
        for e in 'uc':
            for mode in ('streams', 'mixed', 'shell', 'files', 'mixed'):
                if mode == 'shell' and kind == 'status' and False:
                    continue
                if mode in ('files',) and r.random() < .5:
                    continue
                x = execute(w, r, stages, e, variant, mode)
                res.case((single, k, _, e, mode, x[3]) if ok[e] else None)
                res.count('runs_' + mode)
                a = [s for s in x[0] if not isinstance(s, int)]
                if a:
                    bad('abnormal', '%s: %s' % (mode, a[0]), x)
                elif mode == 'shell':
                    if ok[e] and kind == 'status':
                        # bash's status of the last command
                        if (x[0][-1] == 0) != (ref[e][0][-1] == 0):
                            bad('mode', 'exit status %d through files, %d in a shell pipeline' % (ref[e][0][-1], x[0][-1]), ref[e], x)
                    elif x[0][-1] == 141 and stages[-1].app == 'srs' and kind == 'text':
                        pass            # srs ends after the header, and the command before it gets SIGPIPE
                    elif (x[0][-1] == 0) != ok[e]:
                        bad('mode', 'exit statuses %s through files, %d in a shell pipeline' % (ref[e][0], x[0][-1]), ref[e], x)
                elif x[0] != ref[e][0]:
                    bad('mode', 'exit statuses %s through files and %s (%s)' % (ref[e][0], x[0], mode), ref[e], x)
                if ok[e] and not a and x[2] != ref[e][2]:
                    bad('mode', 'other bytes than through files (%s)' % mode, ref[e], x)
        # the encoding of an auxiliary file
        ups = [j for j, s in enumerate(stages) if '@B@' in ' '.join(s.opts)]
        if ok['u'] and ups:
            cut = stages[:ups[0] + 1]
            part = {e: execute(w, r, cut, e, variant, 'files') for e in 'uc'}
            for e in 'uc':
                x = execute(w, r, cut, e, variant, 'files', second='uc'.replace(e, ''))
                res.case((single, k, _, e, 'aux'))
                res.count('auxiliary')
                try:
                    y, z = M.decode(x[2]), M.decode(part[e][2])
                    y.compressed = z.compressed
                    m = M.diff_clouds(z, y)
                except M.FormatError as v:
                    m = str(v)
                if m:
                    bad('auxiliary', 'depends on the encoding of the auxiliary file: ' + m, part[e], x)
        res.sample(desc)
    w.close()
    return res


def merges(k):
    """Merging files in any mixture of encodings: the records are the same, compressed only if all inputs are."""
    res = Res()
    r = M.rng_for(SEED, 28, 7, k)
    w = World(r, 'm-%d' % k)
    for _ in range(scale(6, 20)):
        variant = 'rel' if r.random() < .8 else 'dbg'
        keys = [M.pick(r, ['@A@', '@A@', '@B@'] + ['@E@'] * (r.random() < .3)) for _ in range(int(r.integers(2, 6)))]
        o = ['-q'] + (['-p', '7'] if r.random() < .3 else [])
        ref = None
        n = len(keys)
        encs = ['u' * n, 'c' * n, 'u' + 'c' * (n - 1), 'c' + 'u' * (n - 1), 'c' * (n - 1) + 'u', 'u' * (n - 1) + 'c'] + \
            [''.join(M.pick(r, 'uc') for _ in keys) for _ in range(3)]
        for es in dict.fromkeys(encs):
            a = [ck.bin['merge.' + variant]] + o + [w.path(x, e) for x, e in zip(keys, es)]
            x = run(a, cpu=60)
            res.case((7, k, _, es, variant))
            res.count('mixed_merges')
            try:
                m = x.bad or (x.rc and 'exit status %d: %r' % (x.rc, x.err[-200:]))
                if not m:
                    y = M.decode(x.out)
                    if bool(y.compressed) != (es == 'c' * n):
                        m = 'the output is %scompressed' % ('' if y.compressed else 'un')
                    y.compressed = False
                    if ref is None:
                        ref = y
                    m = m or M.diff_clouds(ref, y)
            except M.FormatError as v:
                m = 'not a valid file: %s' % v
            if m:
                res.violation('merge', 'merging inputs with encodings %s (u: uncompressed, c: compressed): %s' % (es, m),
                              {'a.spoc': open(w.path('@A@', 'u'), 'rb').read(), 'b.spoc': open(w.path('@B@', 'u'), 'rb').read(),
                               'result': x.out}, shq(a))
    w.close()
    return res


ck.map(merges, range(scale(24, 200)))
ck.map(one, [(k, s) for k in range(scale(80, 800)) for s in (0, 1)])
ck.finish()
