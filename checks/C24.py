import os, sys, stat, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import ops as O
import tk

ck = Check('C24', 'exploration',
           'every tool command x every cause of failure (first or second input missing, a directory, unreadable, empty, garbage, '
           'cut, damaged or of the wrong encoding; bad value files; absent extra fields; differing inputs; unknown, '
           'incomplete, malformed, conflicting or surplus arguments) x output that exists as a file, link or is the input '
           'itself: complete directory contents before and after; and the same for successful runs; non-trivial: the tool '
           'failed with an existing output, or succeeded', min_events=3000)
apps = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform']
ck.build_apps(apps, ['rel', 'dbg'])
OPS = O.point_ops() + O.header_ops() + [
    O.Op('filter', ['-v', '-u']), O.Op('info', ['-q', '-c', '-m', '-a', '-v'], out='text', io='in'),
    O.Op('tile', ['-p', '@DIR@/t', '-t', '1', '-v'], out='tiles', io='in'),
    O.Op('tile', ['-f', '-p', '@DIR@/t'], out='tiles', io='in'), O.Op('tile', ['-p', '@DIR@/t', '-s', '1e9'], out='tiles', io='in'),
    O.Op('diff', ['-v', '-d'], out='none', io='two', name='diff -v -d (first)'),
    O.Op('tool', ['-v', '--recenter-xy'])]


def snapshot(d):
    """Everything below d."""
    s = {}
    for base, dirs, names in os.walk(d):
        for n in dirs + names:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                v = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                v = ('dir',)
            else:
                with open(p, 'rb') as f:
                    v = ('file', f.read(), stat.S_IMODE(st.st_mode))
            s[os.path.relpath(p, d)] = v
    return s


def changes(a, b):
    out = {}
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out[k] = 'new' if k not in a else 'removed' if k not in b else 'changed'
    return out


MALFORMED = {
    'filter': [['-k', 'abc'], ['-k', '-1'], ['-k', '4294967296'], ['-k', '2x'], ['-r', ''], ['-r', 'x'], ['-s', '-1'], ['-s', 'x'],
               ['-s', '0'], ['-a', '1x'], ['-c', ''], ['-c', 'nonsense']],
    'tool': [['-g', 'x', '--recenter-xy'], ['--recenter-xy', '--recenter-xy'], ['--resize-extra=x', ], ['--resize-extra=-1'],
             ['--resize-extra=256'], ['-g', 'q'], ['-g', 'x,y'], ['-s', 'i'], ['-s', 'i', '-f', '/nonexistent/values'],
             ['--upsample-classifications=/nonexistent/x', '--resolution=1'], ['--resolution=x'], []],
    'tile': [['-t', '0'], ['-t', 'x'], ['-d', '-1'], ['-d', '256'], ['-s', 'x'], ['-s', '1', '-x', '2'], ['-s', '1', '-y', '2'],
             ['-x', 'x'], ['-y', '']],
    'merge': [['-p', 'x'], ['-p', '99999999999999999999']],
    'diff': [['-a', '-d'], ['-f', 'q'], ['-f', ''], ['-f', 'x', '-a']],
    'transform': [['--add-x=x'], ['--set=e99999999999,1'], ['--replace=c,1'], ['--set=c'], ['--quantize-xyz=x'], ['--rotate-z='],
                  ['--copy-field=c'], ['-a', 'x']],
    'compress': [], 'decompress': [], 'info': [], 'srs': [],
}


def causes(r, op, c, good, other):
    """-> list of (cause, where, replacement of that file or None, options to use instead or None, surplus operands)"""
    L = []
    hl = 18 + len(c.wkt)
    bad = {'missing': None, 'directory': 'DIR', 'empty': b'', 'garbage': bytes(r.integers(0, 256, int(r.integers(1, 400)), dtype='u1')),
           'text': b'x y z\n1 2 3\n', 'cut-header': good[:int(r.integers(1, hl))], 'magic': b'SPOX' + good[4:],
           'unreadable': '/proc/self/mem'}
    if not op.header_only and c.n:
        bad['cut'] = good[:int(r.integers(hl, len(good)))]
        bad['cut-one'] = good[:-1]
        if c.compressed:
            k = hl + 8 + int(r.integers(0, 2))
            bad['damaged'] = good[:k] + bytes([good[k] ^ 0xff]) + good[k + 1:]
    for k, v in bad.items():
        L.append((k, 'in', v, None, []))
        if op.io in ('two', 'two2'):
            L.append((k, 'good', v, None, []))
        elif '@GOOD@' in ' '.join(op.opts):
            L.append((k, 'good', v, None, []))
    if op.app in ('compress', 'decompress', 'transform'):
        L.append(('wrong-encoding', 'in', M.encode(other), None, []))
    if op.app == 'merge' and c.n:
        w = M.gen_cloud(r, 3, c.ne + 1, compressed=c.compressed)
        L.append(('extra-fields', 'in', M.encode(w), None, []))
        L.append(('extra-fields', 'good', M.encode(w), None, []))
    if '@VALS@' in op.opts:
        for k, v in (('missing', None), ('directory', 'DIR'), ('unreadable', '/proc/self/mem'), ('empty', b''), ('text', b'1\n2\nthree\n'),
                     ('short', b'1\n' * (c.n - 1)), ('negative', b'-1\n' * c.n), ('large', b'99999999999999999999999\n' * c.n)):
            if c.n:
                L.append(('values-' + k, 'vals', v, None, []))
            elif k in ('missing',):
                L.append(('values-' + k, 'vals', v, None, []))
    o = list(op.opts)
    for x in (['--bogus'], ['-Z'], ['--verbose=1'], ['--ver'], ['-vZ']):
        k = int(r.integers(0, len(o) + 1)) if not any(y in ('-k', '-r', '-s', '-a', '-c', '-p', '-f', '-g', '-t') for y in o) else M.pick(r, [0, len(o)])
        L.append(('option ' + ' '.join(x), None, None, o[:k] + x + o[k:], []))
    for x in MALFORMED[op.app]:
        L.append(('malformed ' + ' '.join(x), None, None, x, []))
    if op.io == 'inout':
        L.append(('surplus operand', None, None, None, ['@DIR@/bystander']))
    if op.app == 'tile':
        L.append(('surplus operand', None, None, None, ['@DIR@/bystander']))
    if op.app == 'diff':
        L.append(('surplus operand', None, None, None, ['@DIR@/bystander']))
    if op.io == 'srs':
        L += [('surplus operand', None, None, None, ['@DIR@/bystander']), ('SRS too long', None, None, ['-s', 'S' * 65536], [])]
    if op.app == 'filter':
        L.append(('missing argument', None, None, None, ['-k']))
    if op.app == 'tool':
        L.append(('missing argument', None, None, None, ['-g']))
    if op.app == 'tile':
        L.append(('missing argument', None, None, None, ['-t']))
    if op.app == 'transform':
        L.append(('missing argument', None, None, None, ['--add-x']))
    if op.app in ('tool', 'transform') and c.n and not op.header_only:
        o = ['-g', 'e%d' % c.ne] if op.app == 'tool' else ['--set=e%d,1' % c.ne]
        L.append(('absent extra field', None, None, o, []))
    if op.app == 'filter' and not any(x == '-c' for x in op.opts):
        L.append(('malformed condition', None, None, op.opts + ['-c', M.pick(r, ['x', 'x >', 'w > 1', '1', 'x ! 3', 'x > abc'])], []))
    return L


def one(item):
    oi, comp, rep = item
    op = OPS[oi]
    res = Res()
    r = M.rng_for(SEED, 24, oi, comp, rep)
    d = '%s/box%d-%d-%d' % (ck.work, oi, comp, rep)
    n = [7, 120, 1, 30, 0][(rep + oi) % 5]
    kw = dict(styles=['unit', 'cm', 'half'], wkt=b'W' * int(r.integers(0, 40)))
    c = M.gen_cloud(r, n, 1, compressed=bool(comp), int_style='small', **kw)
    g = M.gen_cloud(r, max(n, 1), 1, compressed=bool(comp), int_style='small', **kw)
    if op.app == 'diff':
        g = c
    other = c.copy()
    other.compressed = not c.compressed
    good, second = M.encode(c), M.encode(g)

    def put(path, v):
        if v == 'DIR':
            os.makedirs(path)
        elif isinstance(v, str):
            os.symlink(v, path)
        elif v is not None:
            with open(path, 'wb') as f:
                f.write(v)

    def setup(where, repl, kind):
        """kind of existing output: none, plain, valid, link, same, samelink. -> its path"""
        shutil.rmtree(d, ignore_errors=True)
        for x in ('', '/cwd', '/home', '/tmp', '/sub'):
            os.makedirs(d + x)
        files = {'in': good, 'good': second, 'vals': b'\n'.join(b'%d' % v for v in range(n)) + b'\n'}
        if where:
            files[where] = repl
        put(d + '/in.spoc', files['in'])
        put(d + '/good', files['good'])
        put(d + '/vals', files['vals'])
        put(d + '/bystander', good)
        old = b'previous contents\n' * 5000 if kind != 'valid' else M.encode(g)
        if kind == 'none':
            return d + '/out.spoc'
        if kind == 'same':
            return d + '/in.spoc'
        if kind == 'samelink':
            os.symlink('in.spoc', d + '/out.spoc')
            return d + '/out.spoc'
        if kind == 'hardlink' and os.path.isfile(d + '/in.spoc') and not os.path.islink(d + '/in.spoc'):
            os.link(d + '/in.spoc', d + '/out.spoc')
            return d + '/out.spoc'
        if kind == 'link':
            put(d + '/sub/target', old)
            os.symlink('sub/target', d + '/out.spoc')
        else:
            put(d + '/out.spoc', old)
        if op.out == 'tiles':
            for k in (0, 1, 2, 3):
                put(d + '/t00%d.spoc' % k, old)
        return d + '/out.spoc'

    sub = {'@GOOD@': d + '/good', '@VALS@': d + '/vals', '@DIR@': d}
    env = {'HOME': d + '/home', 'TMPDIR': d + '/tmp'}

    def invoke(opts, extra, outp):
        exe = ck.bin[op.app + '.' + M.pick(r, ['rel', 'rel', 'dbg'])]
        o2 = O.Op(op.app, op.opts if opts is None else opts, op.enc, op.out, op.io, streaming=op.streaming)
        a = o2.argv(exe, d + '/in.spoc', outp if op.io in ('inout', 'srs') else None, sub)
        a += [O._sub(x, sub) for x in extra]
        before = snapshot(d)
        rr = run(a, b'', cpu=20, cwd=d + '/cwd', env=env)
        return rr, before, snapshot(d)

    def files_of(rr):
        return {'in.spoc': good, 'good': second, 'stderr': rr.err}

    outputs = op.io in ('inout', 'srs') and op.out == 'spoc'
    kinds = ['plain', 'valid', 'link', 'same', 'samelink', 'hardlink'] if outputs else ['plain']
    for cause, where, repl, opts, extra in causes(r, op, c, good, other):
        # the input itself as the output only makes sense where it can be opened
        ks = [k for k in kinds if not (where == 'in' and k in ('same', 'samelink', 'hardlink') and not isinstance(repl, bytes))]
        for kind in [M.pick(r, ks)] if not THOROUGH else ks:
            if op.streaming and kind in ('same', 'samelink', 'hardlink'):
                continue
            outp = setup(where, repl, kind)
            rr, a, b = invoke(opts, extra, outp)
            desc = 'spoc_%s with %s%s, existing output: %s, %d points, compressed %d: %s' % (
                op.name, cause, ' (%s)' % where if where else '', kind, n, comp, shq(rr.cmd)[-300:])
            res.count('failures')
            if rr.bad:
                res.violation('abnormal', desc + ': ' + rr.bad, files_of(rr), shq(rr.cmd))
                continue
            ch = changes(a, b)
            if rr.rc == 0:
                # some of these are no error for some inputs (nothing to do, values not needed); others are decided elsewhere
                res.case()
                res.count('not_refused')
                res.count('accepted %s' % cause.split(' -')[0])
                continue
            res.case((op.name, cause, where, kind, n, comp))
            if op.streaming:
                # its partial output is allowed, everything else is not
                ch = {k: v for k, v in ch.items() if k not in ('out.spoc', 'sub/target')}
            if kind == 'none':
                ch.pop('out.spoc', None)
            if op.out == 'tiles':
                ch = {k: v for k, v in ch.items() if v != 'new' or not re.fullmatch(r't\d+\.spoc', k)}
            if ch:
                res.violation('failed-run', desc + ': exit status %d, but files were affected: %s' % (rr.rc, ch), files_of(rr), shq(rr.cmd))
    # successful runs
    for kind in ['none', 'plain', 'valid', 'link'] if outputs else ['plain', 'none']:
        if op.out == 'tiles' and kind != 'none' and '-f' not in op.opts:
            # existing tiles are an error without the force option
            outp = setup(None, None, kind)
            rr, a, b = invoke(None, [], outp)
            ch = {k: v for k, v in changes(a, b).items() if v != 'new' or not re.fullmatch(r't\d+\.spoc', k)}
            res.case((op.name, 'existing tiles', n, comp))
            if rr.bad:
                res.violation('abnormal', 'spoc_%s with existing tiles: %s' % (op.name, rr.bad), files_of(rr), shq(rr.cmd))
            if ch:
                res.violation('tiles-overwritten', 'spoc_%s without the force option changed existing files: %s' % (op.name, ch), files_of(rr), shq(rr.cmd))
            continue
        outp = setup(None, None, kind)
        rr, a, b = invoke(None, [], outp)
        desc = 'spoc_%s, existing output: %s, %d points, compressed %d' % (op.name, kind, n, comp)
        if rr.bad or rr.rc != 0:
            if n == 0 or op.app == 'diff' and rr.rc != 0 and not rr.bad:
                res.count('not_successful')
                continue
            res.violation('refused', desc + ': %s, exit status %d: %s' % (rr.bad, rr.rc, rr.err[-300:].decode('latin1')), files_of(rr), shq(rr.cmd))
            continue
        res.case((op.name, 'success', kind, n, comp))
        res.count('successes')
        ch = changes(a, b)
        named = set()
        if outputs:
            named = {'sub/target'} if kind == 'link' else {'out.spoc'}
        left = {k: v for k, v in ch.items() if k not in named}
        if op.out == 'tiles':
            left = {k: v for k, v in left.items() if not re.fullmatch(r't\d+\.spoc', k)}
        if left or 'removed' in ch.values():
            res.violation('other-files', desc + ': a successful run affected %s' % ch, files_of(rr), shq(rr.cmd))
            continue
        if outputs:
            got = b[named.pop()][1]
            # the same through the standard streams
            exe = ck.bin[op.app + '.rel']
            rs = run(op.argv(exe, None, None, sub), good, cpu=20, cwd=d + '/cwd', env=env)
            if rs.rc != 0 or got != rs.out:
                res.violation('output', desc + ': the named output has %d bytes, standard output %d (exit status %d)' % (len(got), len(rs.out), rs.rc),
                              dict(files_of(rr), named=got, stdout=rs.out), shq(rr.cmd))
            if rr.out:
                res.violation('stdout', desc + ': also wrote %d bytes to standard output' % len(rr.out), files_of(rr), shq(rr.cmd))
    # help and version leave an output alone, too
    if outputs:
        for o in (['-e'], ['--version'], ['-h'], ['--help']):
            outp = setup(None, None, 'plain')
            rr, a, b = invoke(o, [], outp)
            res.case((op.name, o[0]))
            if changes(a, b):
                res.violation('help', 'spoc_%s %s changed %s' % (op.app, o[0], changes(a, b)), files_of(rr), shq(rr.cmd))
    res.sample('spoc_%s, %d points, compressed %d: %s' % (op.name, n, comp, dict(res.counters)))
    shutil.rmtree(d, ignore_errors=True)
    return res


ck.map(one, [(k, c, rep) for rep in range(scale(2, 15)) for k, op in enumerate(OPS) for c in (0, 1) if 'uc'[c] in op.enc])
ck.finish()
