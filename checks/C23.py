import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M
import tk

ck = Check('C23', 'exploration',
           'files of both encodings with WKTs of 0 to 65535 arbitrary bytes, all values including NaNs, x showing one to five '
           'files (also headers of files whose points are damaged), setting SRS strings of 0 to 65536 and more bytes, between '
           'files, onto the input itself, over an existing file, from files and standard streams, all option spellings; wrong '
           'numbers of files, missing, damaged and unwritable ones; non-trivial: a WKT shown or replaced',
           min_events=2500)
ck.build_apps(['srs'], ['rel', 'san', 'dbg'])
OPT = lambda r, s: M.pick(r, [['-s', s], ['--srs', s], ['--srs=' + s]] + ([['-s' + s]] if s else []))


def srs(r):
    k = int(r.integers(10))
    if k == 0:
        return b''
    if k == 1:
        return b'x' * M.pick(r, [65535, 65534, 40000])
    if k == 2:
        return bytes(r.integers(1, 256, M.pick(r, [1, 5, 200]), dtype='u1'))
    if k == 3:
        return M.pick(r, [b' ', b'a b\tc\n', b'-1', b'--', b'-s', b'"', b"'", b'%s%n', b'new\n\n'])
    return b'PROJCS["NAD83 / UTM zone %dN",GEOGCS["NAD83"]]' % r.integers(1, 60)


def one(item):
    res = Res()
    r = M.rng_for(SEED, 23, item)
    for rep in range(14):
        bx = tk.Box(ck, res, '%d-%d' % (item, rep))
        v = M.pick(r, ['rel', 'rel', 'rel', 'dbg', 'san'])
        exe = ck.bin['srs.' + v]
        verb = M.pick(r, [[], [], [], ['-v'], ['--verbose']])
        n = (rep == 0 and M.many(item, 20)) or M.pick(r, [0, 1, 2, 17, 200])
        c = M.gen_cloud(r, n, 0 if n == 0 else M.pick(r, [0, 1, 4, 255 if n < 20 else 3] if n < 60000 else [0, 1]), None, bool(r.integers(2)), styles=M.ALL_STYLES)
        if r.random() < .15:
            c.wkt = bytes(r.integers(0, 256, M.pick(r, [65535, 300, 65534]), dtype='u1'))
        data = M.encode(c)
        kind = M.pick(r, ['show', 'show', 'show1', 'set', 'set', 'set', 'set', 'inplace', 'over', 'toolong', 'badnum', 'badin', 'nodir', 'full', 'showbad'])
        files = {'in.spoc': data}
        desc = 'spoc_srs (%s), %s' % (v, kind)
        key = None
        if kind in ('show', 'show1'):
            cl = [c] + [M.gen_cloud(r, M.pick(r, [0, 3]), 0, None, bool(r.integers(2))) for _ in range(int(r.integers(4)) if kind == 'show' else 0)]
            fns = []
            for k, q in enumerate(cl):
                b = M.encode(q)
                h = len(b) - len(M.encode(q)) + len(M.header(q.wkt, q.ne, q.n, q.compressed))
                if r.random() < .2:
                    b = b[:h]                    # the points are not needed
                fns.append(bx.put('f%d' % k, b))
                files['f%d.spoc' % k] = b
            if kind == 'show' and r.random() < .2:
                fns.append(fns[0])
                cl.append(cl[0])
            before = [bx.get('f%d' % k) for k in range(len(fns)) if bx.get('f%d' % k) is not None]
            if kind == 'show1':
                rr = run([exe] + verb, bx.get('f0'))
            else:
                rr = run([exe] + verb + fns)
            want = b''.join(q.wkt + b'\n' for q in cl)
            if rr.bad or rr.rc:
                res.violation('show-fails', '%s: %s %s' % (desc, rr.bad or 'exit status %d' % rr.rc, rr.err[-300:]), files, shq(rr.cmd))
            elif rr.out != want:
                res.violation('show-wrong', '%s of %d files: printed %r... instead of %r...' % (desc, len(cl), rr.out[:200], want[:200]), files, shq(rr.cmd))
            elif [bx.get('f%d' % k) for k in range(len(before))] != before or sorted(os.listdir(bx.d)) != ['f%d' % k for k in range(len(before))]:
                res.violation('show-modifies', desc + ': a file changed', files, shq(rr.cmd))
            key = ('show', [q.wkt[:30] for q in cl], len(cl[0].wkt))
        elif kind in ('set', 'inplace', 'over'):
            s = srs(r)
            o = verb + OPT(r, os.fsdecode(s))
            if r.random() < .1:
                o = OPT(r, 'the last one counts') + o
            how = M.pick(r, ['ff', 'ss']) if kind == 'set' else 'ff'
            want = c.with_(wkt=s)
            if how == 'ss':
                rr = run([exe] + o, data)
                out = rr.out
            else:
                i = bx.put('in.spoc', data)
                t = i if kind == 'inplace' else bx.path('out.spoc')
                if kind == 'over':
                    bx.put('out.spoc', M.pick(r, [b'old contents' * 1000, data, data + data]))
                rr = run([exe] + o + [i, t])
                out = bx.get(os.path.basename(t)) or b''
                if rr.out:
                    res.violation('set-stdout', desc + ': wrote to standard output although it has an output file', files, shq(rr.cmd))
                if kind != 'inplace' and bx.get('in.spoc') != data:
                    res.violation('set-input', desc + ': changed its input', files, shq(rr.cmd))
            d2 = '%s: SRS of %d bytes on %d points +%d, %s' % (desc, len(s), c.n, c.ne, 'compressed' if c.compressed else 'uncompressed')
            g = tk.expect_cloud(res, 'set', d2, rr, out, want, files)
            if g is not None and not c.compressed and out != M.encode(want):
                res.violation('set-bytes', d2 + ': an uncompressed output must equal the input but for the WKT', files, shq(rr.cmd))
            key = (kind, how, s[:40], len(s), n, c.ne, c.compressed)
        else:
            i = bx.put('in.spoc', data)
            old = b'previous contents'
            t = bx.put('out.spoc', old)
            s = 'NEW'
            stdin, stdout = b'', None
            if kind == 'toolong':
                s = 'y' * M.pick(r, [65536, 65537, 70000, 131071 - 10])
                if r.random() < .5:
                    cmd, stdin = [exe] + ['-s', s], data
                else:
                    cmd = [exe, '-s', s, i, t]
            elif kind == 'badnum':
                cmd = [exe] + OPT(r, s) + M.pick(r, [[i], [i, t, t], [i, i, i, i]])
            elif kind == 'badin':
                k = M.pick(r, ['missing', 'cut', 'garbage', 'dir', 'empty', 'cuth'])
                b = {'cut': data[:-1] if c.n else data[:5], 'garbage': b'SPOX' + data[4:], 'empty': b'', 'cuth': data[:int(r.integers(8 + len(c.wkt)))]}.get(k)
                if b is not None:
                    i = bx.put('in.spoc', b)
                    files['in.spoc'] = b
                elif k == 'missing':
                    i = bx.path('nonexistent')
                else:
                    i = bx.d
                if b is not None and r.random() < .4:
                    cmd, stdin = [exe] + OPT(r, s), b
                else:
                    cmd = [exe] + OPT(r, s) + [i, t]
            elif kind == 'nodir':
                cmd = [exe] + OPT(r, s) + [i, M.pick(r, [bx.path('no/out'), bx.d])]
            elif kind == 'full':
                if r.random() < .5:
                    cmd = [exe] + OPT(r, s) + [i, '/dev/full']
                else:
                    cmd, stdin, stdout = [exe] + (OPT(r, s) if r.random() < .5 else []), data, open('/dev/full', 'wb')
            else:
                k = M.pick(r, ['missing', 'short', 'sig', 'version', 'dir'])
                b = {'short': data[:int(r.integers(8 + len(c.wkt) + 10))], 'sig': b'SPOD' + data[4:], 'version': data[:4] + M.pick(r, [b'\1\1', b'\0\2', b'\0\0']) + data[6:]}.get(k)
                bad = bx.path('nonexistent') if k == 'missing' else bx.d if k == 'dir' else bx.put('bad', b)
                cmd = [exe] + M.pick(r, [[bad], [i, bad]])
                if b is not None:
                    files['bad.spoc'] = b
                    if r.random() < .3:
                        cmd, stdin = [exe], b
            before = bx.get('in.spoc')
            rr = run(cmd, stdin, stdout=stdout)
            if rr.bad:
                res.violation('refusal-abnormal', '%s: %s' % (desc, rr.bad), files, shq(rr.cmd)[:3000])
            elif rr.rc == 0:
                res.violation('accepted-' + kind, '%s was accepted' % desc, files, shq(rr.cmd)[:3000])
            elif not rr.err.strip():
                res.violation('silent', '%s: no message' % desc, files, shq(rr.cmd)[:3000])
            elif bx.get('out.spoc') != old or bx.get('in.spoc') != before:
                res.violation('refusal-modifies', '%s: a refused command changed a file' % desc, files, shq(rr.cmd)[:3000])
            elif kind != 'showbad' and stdout is None and rr.out:
                res.violation('refusal-output', '%s: a refused command wrote %d bytes' % (desc, len(rr.out)), files, shq(rr.cmd)[:3000])
        res.case(key)
        res.count(kind)
        bx.close()
    return res


ck.map(one, range(scale(260, 4000)))
ck.finish()
