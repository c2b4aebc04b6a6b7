import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import fcntl, re, select, subprocess, threading
import numpy as np
import spocmodel as M
import ops as O
import tk

ck = Check('C14', 'exploration',
           'clouds x fragmentations of the input (single bytes, records, arbitrary cuts, with pauses): the input of '
           'spoc_transform and noop is withheld after each fragment until the output that is due has arrived, so that a tool '
           'that needs more input deadlocks visibly; every tool and library reader on fragmented pipes and streams is '
           'compared with one delivery; non-trivial: at least two fragments', min_events=1500)
APPS = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform', 'noop',
        'stream_averaging', 'generate_infinite_points']
ck.build([('c14.san', VERIF + '/harness/c14.cpp', 'san', []), ('c14.rel', VERIF + '/harness/c14.cpp', 'rel', [])])
ck.build_apps(APPS, ['rel'])
ck.build_apps(['transform', 'noop'], ['dbg', 'san'])
run_harness(ck, 'c14.rel', ['items=%d' % scale(400, 8000)], NPROC)
run_harness(ck, 'c14.san', ['items=%d' % scale(24, 800)], NPROC)


def cuts(r, size, hs, rs):
    """Lengths of the fragments."""
    k = int(r.integers(6))
    if k == 0 and size < 3000:
        return [1] * size
    if k == 1:
        return [hs] + [rs] * ((size - hs) // max(rs, 1))
    if k == 2:                                       # just before and after each record
        b = sorted({x for q in range(hs, size + 1, max(rs, 1)) for x in (q - 1, q, q + 1) if 0 < x < size})[:400]
    elif k == 3:
        b = sorted(int(x) for x in r.integers(1, max(size, 2), 12))
    elif k == 4:
        b = sorted(int(x) for x in r.integers(1, max(size, 2), 150))
    else:
        b = list(range(4096, size, 4096)) + [min(size, hs + 1)]
    b = [0] + sorted(set(x for x in b if 0 < x < size)) + [size]
    return [y - x for x, y in zip(b, b[1:])]


class Proc:
    """A process whose standard input is fed by hand and whose output is logged as it appears."""
    def __init__(self, cmd, **kw):
        env = dict(BASE_ENV)
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, bufsize=0, **kw)
        for f in (self.p.stdin, self.p.stdout):
            fcntl.fcntl(f, fcntl.F_SETFL, fcntl.fcntl(f, fcntl.F_GETFL) | os.O_NONBLOCK)
        self.out = bytearray()
        self.eof = False

    def drain(self, upto=None, timeout=0.0):
        """Read what is there; wait until 'upto' bytes have come in all."""
        end = time.time() + timeout
        while not self.eof:
            need = upto is not None and len(self.out) < upto
            rl, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()) if need else 0)
            if not rl:
                if not need or time.time() >= end:
                    return
                continue
            b = self.p.stdout.read(65536)
            if b == b'':
                self.eof = True
            elif b:
                self.out += b

    def feed(self, b):
        fd = self.p.stdin.fileno()
        try:
            while b:
                try:
                    b = b[os.write(fd, b):]
                except BlockingIOError:              # make room at the other end
                    select.select([] if self.eof else [self.p.stdout], [fd], [], 1)
                    self.drain()
            return True
        except BrokenPipeError:
            return False

    def close(self, timeout=60):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        end = time.time() + timeout
        while not self.eof and time.time() < end:
            self.drain(len(self.out) + 1, min(1, end - time.time()))
        if not self.eof:
            self.p.kill()
            self.p.wait()
            return None
        return self.p.wait()


CMDS = [('noop', []), ('transform', ['--add-x=0']), ('transform', ['--set=i,9', '--rotate-z=30']), ('transform', ['--uniform-noise=1', '-a', '3']),
        ('transform', ['--replace=c,2,3', '--copy-field=c,p']), ('transform', ['--gaussian-noise-z=1']), ('transform', ['--quantize-xyz=.5', '-v'])]


def feed(item):
    res = Res()
    r = M.rng_for(SEED, 14, item)
    for rep in range(4):
        n, ne = M.pick(r, [0, 1, 2, 5, 20, 60, 400]), M.pick(r, [0, 0, 1, 4, 100])
        if rep == 0 and M.many(item, 15):
            n, ne = M.many(item, 15), ne % 4
        c = M.gen_cloud(r, n, ne, compressed=False)
        data = M.encode(c)
        hs = 18 + len(c.wkt)
        rs = 40 + 8 * c.ne
        app, opts = M.pick(r, CMDS)
        v = M.pick(r, ['rel', 'rel', 'rel', 'dbg', 'san'])
        exe = ck.bin['%s.%s' % (app, v)]
        whole = run([exe] + opts, data)
        fr = cuts(r, len(data), hs, rs)
        pr = Proc([exe] + opts)
        sent, ok, log = 0, True, []
        pause = r.random() < .1
        for k, m in enumerate(fr):
            if not pr.feed(data[sent:sent + m]):
                break
            sent += m
            if pause and k < 20:
                time.sleep(0.01)
            # every record whose input is complete must come out while the next one is withheld
            due = 0 if sent < hs else hs + (sent - hs) // rs * rs
            if sent < len(data):
                pr.drain(due, 40)
                res.count('withheld_points')
                log.append('%d bytes in, %d due, %d out' % (sent, due, len(pr.out)))
                if len(pr.out) < due:
                    res.violation('late', '%s %s: %s while the input is withheld (header %d, record %d bytes)' % (app, opts, log[-1], hs, rs),
                                  {'in.spoc': data, 'log.txt': '\n'.join(log)}, shq([exe] + opts))
                    ok = False
                    break
                if len(pr.out) > due:
                    res.violation('early', '%s %s: %s' % (app, opts, log[-1]), {'in.spoc': data, 'log.txt': '\n'.join(log)}, shq([exe] + opts))
                    ok = False
                    break
        rc = pr.close()
        res.case((item, rep) if len(fr) > 1 else None)
        res.count('fragments', len(fr))
        desc = '%s %s on %d points in %d fragments' % (app, ' '.join(opts), n, len(fr))
        if not ok:
            continue
        if rc != whole.rc or rc != 0 or bytes(pr.out) != whole.out:
            res.violation('fragments', '%s: exit status %s and %d bytes; from one delivery %s and %d bytes' % (desc, rc, len(pr.out), whole.rc, len(whole.out)),
                          {'in.spoc': data, 'whole': whole.out, 'fragmented': bytes(pr.out)}, shq([exe] + opts))
        if app == 'noop' and whole.out != data:
            res.violation('noop', 'noop changed the file (%d points, %d extra fields)' % (n, ne), {'in.spoc': data, 'out': whole.out}, shq([exe]))
        res.sample(desc + ': ' + '; '.join(log[:3]))
    return res


ck.map(feed, range(scale(90, 2500)))

# ------------------------------------------------------------- every tool, from a pipe that delivers in pieces
OPS = O.point_ops() + O.header_ops() + [O.Op('noop', enc='u', io='in', streaming=True)]


def piped(item):
    oi, rep = item
    op = OPS[oi]
    res = Res()
    r = M.rng_for(SEED, 141, oi, rep)
    bx = tk.Box(ck, res, 'p%d-%d' % item)
    for enc in op.enc:
        n = M.pick(r, [1, 3, 10, 100, 1000])
        c = M.gen_cloud(r, n, 1, compressed=enc == 'c', styles=['small', 'half', 'cm'], int_style='small')
        data = M.encode(c)
        good = bx.put('good', M.encode(M.gen_cloud(r, 5, 1, styles=['small'])))
        vals = bx.put('vals', '\n'.join(str(k % 7) for k in range(n)) + '\n')
        exe = ck.bin[op.app + '.rel']
        base = bx.put('in.spoc', data)
        outs = []
        for way in ('file', 'pipe'):
            t = bx.path(way + enc)
            os.makedirs(t)
            sub = {'@GOOD@': good, '@VALS@': vals, '@DIR@': t}
            outp = t + '/out' if op.io == 'srs' else None
            if way == 'file' or op.io in ('two', 'two2', 'srs'):
                inp = base if way == 'file' else '/proc/self/fd/0'
            else:
                inp = None
            argv = op.argv(exe, inp, outp, sub)
            if way == 'file':
                with open(base, 'rb') as f:
                    x = run([exe] if op.app == 'noop' else argv, stdin=f)
                rc, out = x.rc, x.out
            else:
                pr = Proc(argv)
                b = sorted(set(int(x) for x in r.integers(1, len(data), M.pick(r, [3, 20, 100])))) if len(data) > 1 else []
                step = M.pick(r, [0, 0, .001])
                for i, j in zip([0] + b, b + [len(data)]):
                    if not pr.feed(data[i:j]):
                        break
                    pr.drain()
                    time.sleep(step)
                rc, out = pr.close(), bytes(pr.out)
                res.count('fragments', len(b) + 1)
            extra = {os.path.basename(f): bx.get(way + enc + '/' + f) for f in sorted(os.listdir(t))}
            if op.out == 'tiles':
                extra = {os.path.splitext(k)[0]: v for k, v in extra.items()}
            outs.append((rc, out, extra))
        res.case((oi, rep, enc))
        res.count('tool_pairs')
        if op.io == 'in' and op.app == 'info':
            # the file name may be shown
            outs = [(a, b.replace(base.encode(), b''), c_) for a, b, c_ in outs]
        if outs[0] != outs[1]:
            res.violation('pipe', '%s: from a fragmenting pipe exit status %s, %d bytes, files %s; from the file %s, %d bytes, files %s' % (
                op.name, outs[1][0], len(outs[1][1]), {k: len(v) for k, v in outs[1][2].items()},
                outs[0][0], len(outs[0][1]), {k: len(v) for k, v in outs[0][2].items()}),
                {'in.spoc': data, 'file.out': outs[0][1], 'pipe.out': outs[1][1]}, shq(argv))
    bx.close()
    return res


ck.map(piped, [(i, rep) for rep in range(scale(4, 100)) for i in range(len(OPS))])


# ------------------------------------------------------------- the endless source and the averaging sink
def endless(item):
    res = Res()
    g = subprocess.Popen([ck.bin['generate_infinite_points.rel']], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=BASE_ENV)
    want = 18 + 8 + 72 * M.pick(M.rng_for(SEED, 142, item), [1, 10, 5000])
    b = g.stdout.read(want)
    g.stdout.close()
    try:
        rc = g.wait(60)
    except subprocess.TimeoutExpired:
        g.kill()
        rc = None
    res.case(('endless', item))
    res.count('endless_sources')
    wkt, ne, n, comp, off = M.parse_header(b)
    a = np.frombuffer(b, M.rec_dtype(ne), (len(b) - off) // M.rec_dtype(ne).itemsize, off)
    if rc is None or rc == 0:
        res.violation('endless', 'generate_infinite_points does not notice that its reader is gone (exit status %s)' % rc)
    if (ne, comp) != (4, 0) or n < 2 ** 60 or a['e'].any() or a['c'].any() or a['b'].any() or any(
            (np.abs(a[f]) > 500).any() or len(np.unique(a[f])) < len(a) * .99 for f in 'xyz'):
        res.violation('endless', 'generate_infinite_points does not write random points', {'head': b})
    # averages: shown while the input is still open
    r = M.rng_for(SEED, 143, item)
    c = M.gen_cloud(r, 400, 2, compressed=False, styles=['cm'])
    data = M.encode(c)
    hs = 18 + len(c.wkt)
    p = subprocess.Popen([ck.bin['stream_averaging.rel']], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(BASE_ENV, LC_ALL='C', LANG='C'), bufsize=0)
    p.stdin.write(data[:hs + 300 * 56])
    time.sleep(2.2)
    line, sent = b'', 300
    while sent < 330 and not re.search(rb'\n30\d\t[^\n]*\n|\n3[1-9]\d\t[^\n]*\n', line):
        p.stdin.write(data[hs + sent * 56:hs + (sent + 1) * 56])
        sent += 1
        if select.select([p.stderr], [], [], 1)[0]:
            line += p.stderr.read(4096) or b''
    p.stdin.write(data[hs + sent * 56:])
    p.stdin.close()
    rc = p.wait(60)
    m = re.search(rb'\n(3\d\d)\t(\S+)\t(\S+)\t(\S+)\n', line)
    if rc != 0 or not m:
        res.violation('averaging', 'stream_averaging: exit status %s, no averages after %d records and some seconds: %r' % (rc, sent, line))
    elif any(abs(float(v) - c[f][:int(m.group(1))].mean()) > 1e-4 * max(1, abs(c[f]).max()) for v, f in zip(m.groups()[1:], 'xyz')):
        res.violation('averaging', 'stream_averaging: the averages %r are not those of the first records' % (m.groups(),))
    return res


ck.map(endless, range(scale(6, 24)))
ck.finish()
