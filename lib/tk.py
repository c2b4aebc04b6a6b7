"""Running the tools on clouds; shared by the checks that compare a tool with a reference model."""
import os, shutil
from fractions import Fraction
import numpy as np
from vkit import run, shq
import spocmodel as M

HOWS = ('ff', 'fs', 'ss')


def opt(r, short, long, value=None):
    """One option in one of its documented spellings."""
    if value is None:
        return [M.pick(r, ['-' + short] * bool(short) + ['--' + long] * bool(long))]
    value = str(value)
    f = []
    if short:
        f += [['-' + short, value]]
        if value and value[0] != '-':
            f += [['-' + short + value]]
    if long:
        f += [['--%s=%s' % (long, value)], ['--' + long, value]]
    return M.pick(r, f)


class Box:
    """A private directory in which tools are run."""
    def __init__(self, ck, res, name):
        self.ck, self.res = ck, res
        self.d = os.path.join(ck.work, 'box-' + name)
        os.makedirs(self.d)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.d, n)

    def put(self, n, b):
        with open(self.path(n), 'wb') as f:
            f.write(b if isinstance(b, bytes) else b.encode())
        return self.path(n)

    def get(self, n):
        try:
            with open(self.path(n), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def call(self, app, variant, opts, data, how='ss', **kw):
        """A tool of the form [options] [input] [output]. -> (Run, output bytes)"""
        exe = self.ck.bin['%s.%s' % (app, variant)]
        kw.setdefault('cpu', 60)
        if how == 'ss':
            r = run([exe] + opts, data, **kw)
            return r, r.out
        i, o = self.put('in.spoc', data), self.path('out.spoc')
        if os.path.exists(o):
            os.unlink(o)
        old = None
        if how != 'fs' and (len(data) + len(opts)) % 3 == 0:     # over an existing, longer file
            old = b'left over ' * (len(data) // 5 + 10)
            self.put('out.spoc', old)
        if how == 'fs':
            r = run([exe] + opts + [i], b'', **kw)
            return r, r.out
        r = run([exe] + opts + [i, o], b'', **kw)
        out = self.get('out.spoc')
        if out == old:
            out = None
        if r.rc == 0 and r.out and not r.bad:
            r.bad = 'wrote %d bytes to standard output besides the named output file' % len(r.out)
        return r, (out if out is not None else b'')


def expect_cloud(res, key, desc, rr, out, want, files, order=True):
    """The tool must have succeeded and written exactly 'want'. Returns the decoded output or None."""
    files = dict(files)
    files['stderr'] = rr.err
    files['output'] = out
    if rr.bad:
        res.violation(key + '-abnormal', '%s: %s' % (desc, rr.bad), files, shq(rr.cmd))
        return None
    if rr.rc != 0:
        res.violation(key + '-refused', '%s: exit status %d: %s' % (desc, rr.rc, rr.err[-300:].decode('latin1')), files, shq(rr.cmd))
        return None
    try:
        got = M.decode(out)
    except M.FormatError as e:
        res.violation(key + '-badfile', '%s: the output is not a valid file: %s' % (desc, e), files, shq(rr.cmd))
        return None
    if want is not None:
        m = M.diff_clouds(want, got)
        if m:
            files['expected.spoc'] = M.encode(want)
            res.violation(key + '-content', '%s: %s' % (desc, m), files, shq(rr.cmd))
            return None
    return got


def expect_refusal(res, key, desc, rr, out, files):
    files = dict(files)
    files['stderr'] = rr.err
    if rr.bad:
        res.violation(key + '-abnormal', '%s: %s' % (desc, rr.bad), files, shq(rr.cmd))
    elif rr.rc == 0:
        res.violation(key + '-accepted', '%s: was accepted (exit status 0, %d bytes of output)' % (desc, len(out or b'')), files, shq(rr.cmd))
    elif not rr.err.strip():
        res.violation(key + '-silent', '%s: no message' % desc, files, shq(rr.cmd))
    elif out:
        res.violation(key + '-output', '%s: refused, but wrote %d bytes' % (desc, len(out)), files, shq(rr.cmd))


def order_cols(c, canonical_nan=False):
    """Records as sortable rows of raw bytes."""
    a = c.records()
    return [a[k:k + 1].tobytes() for k in range(len(a))]


def cell_options(v, m, ts, tol):
    """Per record the one or two cell indexes along one axis that are acceptable."""
    if ts is None:
        z = np.zeros(len(v), 'i8')
        return z, z
    q = (v - m) / ts
    f = np.floor(q).astype('i8')
    near = np.rint(q)
    amb = np.abs(q - near) <= tol * np.maximum(1, np.abs(q))
    lo, hi = f.copy(), f.copy()
    for k in np.flatnonzero(amb):
        if tol < 1e-8:
            # on an edge: exact arithmetic decides when all quantities involved are exact
            off = Fraction(float(v[k])) - Fraction(m)
            e = off / Fraction(ts)
            if Fraction(float(v[k]) - m) == off and e.denominator == 1:
                lo[k] = hi[k] = int(e)
                continue
        lo[k], hi[k] = int(near[k]) - 1, int(near[k])
    return np.maximum(lo, 0), np.maximum(hi, 0)
