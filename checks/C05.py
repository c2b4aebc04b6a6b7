import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import ops as O

ck = Check('C05', 'exploration',
           'fault enumeration on outputs: every library writer with the stream failing after k bytes (every k or a '
           'stride) and three buffering kinds; every tool command with a file size limit of k bytes, full device, '
           'closed standard output and broken pipe; the Python writer likewise; a zero exit must come with the complete '
           'output; non-trivial: a failure was injected below the size of the complete output', min_events=8000)
apps = ['compress', 'decompress', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform', 'noop']
ck.build([ck.py_job('rel'), ('c05', VERIF + '/harness/c05.cpp', 'dbg', [])])
ck.build_apps(apps, ['rel'])
run_harness(ck, 'c05', ['stride=%d' % scale(3, 1)], NPROC)

OPS = [o for o in O.point_ops() if o.app != 'diff'] + [
    O.Op('srs', out='text', io='in', header_only=True), O.Op('noop', enc='u', io='in', streaming=True),
    O.Op('info', ['-q', '-c', '-m', '-a'], out='text', io='in'), O.Op('info', ['-j', '-c', '-m'], out='text', io='in'),
    O.Op('info', ['-s'], out='text', io='in'), O.Op('filter', ['-s', '0.5', '-v'])]
SIZES = [3, 9, 60, 400]


def cli(item):
    oi, comp, rep = item
    op = OPS[oi]
    res = Res()
    r = M.rng_for(SEED, 5, oi, comp, rep)
    d = '%s/cli%d-%d-%d' % (ck.work, oi, comp, rep)
    os.makedirs(d)
    n = SIZES[rep % len(SIZES)]
    c = M.gen_cloud(r, n, 1, compressed=bool(comp), styles=['small', 'half'] if n < 60 else ['unit', 'cm'],
                    wkt=b'W' * int(r.integers(0, 40)), int_style=None if n < 60 else 'full')
    good = M.encode(c)
    open(d + '/good', 'wb').write(good)
    open(d + '/in.spoc', 'wb').write(good)
    open(d + '/vals', 'w').write('\n'.join(str(v) for v in range(n)) + '\n')
    exe = ck.bin[op.app + '.rel']
    sub = {'@GOOD@': d + '/good', '@VALS@': d + '/vals', '@DIR@': d}
    keep = {'good', 'in.spoc', 'vals'}

    def clean():
        for x in os.listdir(d):
            if x not in keep:
                os.unlink(d + '/' + x)

    def invoke(how, limit=None):
        """-> run, {output name: bytes}"""
        clean()
        named = how == 'named' and op.io in ('inout', 'srs')
        a = op.argv(exe, d + '/in.spoc', d + '/out.spoc' if named or op.io == 'srs' else None, sub)
        if op.io == 'srs' and not named:
            a = op.argv(exe, None, None, sub)
        std = op.io == 'srs' and not named or op.app == 'noop'
        if std:
            a = [exe] + op.argv('x', None, None, sub)[1:]
        with open(d + '/stdout', 'wb') as f, open(d + '/in.spoc', 'rb') as g:
            rr = run(a, stdin=g if std else subprocess.DEVNULL, stdout=f, fsize=limit, cpu=20)
        out = {x: open(d + '/' + x, 'rb').read() for x in sorted(os.listdir(d)) if x not in keep}
        return rr, out

    hows = ['stdout'] + (['named'] if op.io in ('inout', 'srs') and not (op.app == 'srs' and op.header_only) else [])
    for how in hows:
        full, want = invoke(how)
        if full.rc != 0:
            raise RuntimeError('%s fails: %r' % (op.name, full.err))
        top = max(len(b) for b in want.values())
        if top == 0:
            raise RuntimeError('%s has no output' % op.name)
        ks = {0, 1, 5, top // 2, top - 1, top - 2, top - 8, 18 + len(c.wkt), 18 + len(c.wkt) - 1, 4096, 8191, 8192, top, top + 1}
        ks |= {int(x) for x in r.integers(0, top, 3)}
        ks = sorted(k for k in ks if 0 <= k <= top + 1)
        if not THOROUGH and len(ks) > 8:
            ks = sorted({top - 1, top} | {M.pick(r, ks) for _ in range(6)})
        for k in ks:
            rr, got = invoke(how, k)
            fits = all(len(b) <= k for b in want.values())
            res.case(('limit', op.name, comp, how, k * 8 // (top + 1), n) if not fits else None)
            res.count('size_limits')
            desc = '%s (%s, %d points, compressed %d) with a file size limit of %d bytes; the complete output has %d' % (
                op.name, how, n, comp, k, top)
            files = {'in.spoc': good, 'stderr': rr.err}
            if rr.bad:
                res.violation('abnormal', desc + ': ' + rr.bad, files, shq(rr.cmd))
            elif rr.rc == 0 and got != want:
                res.violation('silent', desc + ': exit status 0, but %s' % {x: '%d bytes of %d' % (len(got.get(x, b'')), len(b)) for x, b in want.items() if got.get(x) != b},
                              files, shq(rr.cmd))
            elif fits and rr.rc != 0:
                res.violation('spurious', desc + ': exit status %d' % rr.rc, files, shq(rr.cmd))
    # standard output that cannot take anything, and named full devices
    base = op.argv(exe, d + '/in.spoc', None, sub) if op.io not in ('srs',) and op.app != 'noop' else [exe] + op.argv('x', None, None, sub)[1:]
    for kind in ('devfull', 'closed', 'brokenpipe', 'brokenpipe-ignored', 'readonly', 'named-full', 'named-dir', 'named-missing-dir'):
        clean()
        if op.out == 'tiles' and not kind.startswith('named'):
            continue
        a, so, pre = list(base), None, None
        fds = []
        if kind == 'devfull':
            so = os.open('/dev/full', os.O_WRONLY)
            fds = [so]
        elif kind == 'closed':
            so, pre = subprocess.DEVNULL, lambda: os.close(1)
        elif kind.startswith('brokenpipe'):
            rd, so = os.pipe()
            os.close(rd)
            fds = [so]
            if kind != 'brokenpipe':
                pre = lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        elif kind == 'readonly':
            so = os.open(d + '/good', os.O_RDONLY)
            fds = [so]
        else:
            if op.io not in ('inout', 'srs') and op.out != 'tiles':
                continue
            to = {'named-full': '/dev/full', 'named-dir': d, 'named-missing-dir': d + '/none/x.spoc'}[kind]
            if op.out == 'tiles':
                if kind != 'named-missing-dir':
                    continue
                a = [exe, '-p', d + '/none/t', d + '/in.spoc']
            else:
                a = op.argv(exe, d + '/in.spoc', to, sub)
        with open(d + '/in.spoc', 'rb') as g:
            # the standard descriptors must not be replaced by an opened file: keep 0 and 2
            rr = run(a, stdin=g, stdout=so, pre=pre, cpu=20)
        for f in fds:
            os.close(f)
        res.case(('device', op.name, comp, kind))
        res.count('broken_outputs')
        desc = '%s (compressed %d) with output %s' % (op.name, comp, kind)
        if rr.bad and not (kind == 'brokenpipe' and rr.rc == -signal.SIGPIPE):
            res.violation('abnormal', desc + ': ' + rr.bad, {'in.spoc': good, 'stderr': rr.err}, shq(rr.cmd))
        elif rr.rc == 0:
            res.violation('silent-' + kind, desc + ': exit status 0', {'in.spoc': good, 'stderr': rr.err}, shq(rr.cmd))
        if open(d + '/good', 'rb').read() != good:
            res.violation('wrote-readonly', desc + ': changed a file it must not', {}, shq(rr.cmd))
    shutil.rmtree(d)
    return res


ck.map(cli, [(k, c, rep) for rep in range(scale(2, 16)) for k, op in enumerate(OPS) for c in (0, 1) if 'uc'[c] in op.enc])

# ------------------------------------------------------------- Python
PY = r'''
import sys, os, resource, signal, random
import spocpy
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
d, seed = sys.argv[1], int(sys.argv[2])
r = random.Random(seed)
for n in (0, 1, 3, 30, 400):
    for comp in (False, True):
        f = spocpy.SpocFile('w' * r.randrange(30), comp)
        ps = []
        for k in range(n):
            p = spocpy.PointRecord()
            p.x, p.y, p.z, p.c, p.i = r.random(), r.random(), k, r.randrange(1 << 32), r.randrange(1 << 16)
            p.extra = [r.randrange(1 << 60), 0, k]
            ps.append(p)
        f.setPointRecords(ps)
        fn = d + '/w.spoc'
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        spocpy.writespocfile(fn, f)
        want = open(fn, 'rb').read()
        L = len(want)
        ks = sorted({0, 1, L - 1, L - 2, L // 2, L, L + 1, 8191, 8192, 4096} | {r.randrange(L) for _ in range(8)})
        for k in ks:
            if not 0 <= k <= L + 1: continue
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
            os.unlink(fn)
            try:
                spocpy.writespocfile(fn, f)
                ok = True
            except RuntimeError:
                ok = False
            got = open(fn, 'rb').read()
            print('CASE', n, comp, k, L, int(ok), int(got == want), flush=True)
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        for bad in ('/dev/full', d, d + '/none/x'):
            try:
                spocpy.writespocfile(bad, f)
                ok = True
            except RuntimeError:
                ok = False
            print('CASE', n, comp, bad, L, int(ok), 0, flush=True)
print('END')
'''
open(ck.work + '/w.py', 'w').write(PY)


def py(item):
    res = Res()
    d = ck.work + '/py%d' % item
    os.makedirs(d)
    rr = run(['/usr/bin/python3', ck.work + '/w.py', d, SEED * 1000 + item], env=ck.py_env(), cpu=120)
    last = rr.out.decode().splitlines()
    for l in last:
        w = l.split()
        if w[0] != 'CASE':
            continue
        n, comp, k, L, ok, same = w[1], w[2], w[3], int(w[4]), w[5] == '1', w[6] == '1'
        room = k.isdigit() and int(k) >= L
        res.case(('py', n, comp, int(k) * 10 // L if k.isdigit() else k))
        res.count('python_writes')
        if ok and not same:
            res.violation('py-silent', 'writespocfile of %s points (compressed %s) to %s: no exception, but the %d bytes did not arrive' % (n, comp, k, L), {'w.py': PY})
        if room and not ok:
            res.violation('py-spurious', 'writespocfile of %s points raises with room for %s of %d bytes' % (n, k, L), {'w.py': PY})
    if last[-1:] != ['END']:
        res.violation('py-abnormal', 'the interpreter ended: %s rc=%s %s' % (rr.bad, rr.rc, rr.err[-800:].decode()), {'w.py': PY})
    return res


ck.map(py, range(scale(2, 20)))
ck.finish()
