import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
from decimal import Decimal
import numpy as np
import spocmodel as M
import tk

ck = Check('C20', 'exploration',
           'clouds of 0 to 300 points (all finite coordinate styles, infinities without metrics, full and extreme integers, '
           'classes up to 2^32-1, 0 to 5 extra fields, WKTs with quotes and control characters, both encodings) x all subsets of '
           'the toggles, also repeated, in short and long form x one to three files or standard input; every number of the report '
           'is recomputed; random JSON trees printed in both forms and parsed back; non-trivial: a report with at least one section',
           min_events=1500)
ck.build([('c20', VERIF + '/harness/c20.cpp', 'san', [])])
ck.build_apps(['info'], ['rel', 'san', 'dbg'])

LABELS = dict(enumerate('unclassified unknown ground low_veg med_veg high_veg building low_noise reserved water rail road reserved '
                        'wire_guard wire_conductor transmission_tower wire_connector bridge_deck high_noise overhead_structure '
                        'ignored snow exclusion'.split()))
NUM = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?')
ESC = {'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f', '/': '/', '\\': '\\', "'": "'", '"': '"'}


class Bad(Exception):
    pass


class P:
    """A strict parser of what the tool calls JSON: strings may stand in single quotes."""
    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in ' \t\r\n':
            self.i += 1

    def need(self, c):
        if self.s[self.i:self.i + 1] != c:
            raise Bad('%r expected at %d: %r' % (c, self.i, self.s[max(0, self.i - 40):self.i + 40]))
        self.i += 1

    def string(self):
        q = self.s[self.i]
        self.i += 1
        o = []
        while True:
            if self.i >= len(self.s):
                raise Bad('unterminated string')
            c = self.s[self.i]
            self.i += 1
            if c == q:
                return ''.join(o)
            if c == '\\':
                e = self.s[self.i:self.i + 1]
                self.i += 1
                if e == 'u':
                    o.append(chr(int(self.s[self.i:self.i + 4], 16)))
                    self.i += 4
                elif e in ESC and e:
                    o.append(ESC[e])
                else:
                    raise Bad('bad escape \\' + e)
            elif ord(c) < 32:
                raise Bad('control character %r in a string' % c)
            else:
                o.append(c)

    def value(self):
        self.ws()
        c = self.s[self.i:self.i + 1]
        if c == '{':
            self.i += 1
            o = {}
            self.ws()
            if self.s[self.i:self.i + 1] == '}':
                self.i += 1
                return o
            while True:
                self.ws()
                if self.s[self.i:self.i + 1] not in ("'", '"') or self.i >= len(self.s):
                    raise Bad('a key is expected at %d: %r' % (self.i, self.s[max(0, self.i - 40):self.i + 40]))
                k = self.string()
                if k in o:
                    raise Bad('key %r twice' % k)
                self.ws()
                self.need(':')
                o[k] = self.value()
                self.ws()
                if self.s[self.i:self.i + 1] == ',':
                    self.i += 1
                    continue
                self.need('}')
                return o
        if c == '[':
            self.i += 1
            a = []
            self.ws()
            if self.s[self.i:self.i + 1] == ']':
                self.i += 1
                return a
            while True:
                a.append(self.value())
                self.ws()
                if self.s[self.i:self.i + 1] == ',':
                    self.i += 1
                    continue
                self.need(']')
                return a
        if c and c in '\'"':
            return self.string()
        for w, v in (('true', True), ('false', False)):
            if self.s.startswith(w, self.i):
                self.i += len(w)
                return v
        m = NUM.match(self.s, self.i)
        if not m:
            raise Bad('a value is expected at %d: %r' % (self.i, self.s[max(0, self.i - 40):self.i + 40]))
        self.i = m.end()
        return Decimal(m.group())


# ---------------------------------------------------------------- random trees

def trees(shard):
    res = Res()
    n = scale(120, 2500)
    r = run([ck.bin['c20'], 'items=%d' % (n * NPROC), 'shard=%d' % shard, 'shards=%d' % NPROC, 'seed=%d' % SEED])
    if r.bad:
        res.violation('json-abnormal', r.bad, {'stderr': r.err}, shq(r.cmd))
        return res
    for l in r.out.decode().splitlines():
        if not l.startswith('TREE '):
            continue
        d, a, b = l[5:].split(' ', 1)[1].split('|')
        nodes = int(l[5:].split(' ', 1)[0])
        for form, h in (('compact', a), ('pretty', b)):
            t = bytes.fromhex(h).decode('latin1')
            try:
                p = P(t)
                v = p.value()
                p.ws()
                if p.i != len(t):
                    raise Bad('text after the value')
                pos = compare(d, 0, v)
                if d[pos:].strip():
                    raise Bad('something is missing')
            except Bad as e:
                res.violation('json-tree', 'the %s form of a value: %s\nholds: %s\nprinted: %s' % (form, e, d, t), {'printed': t})
            res.case((form, h) if nodes > 1 else None)
    return res


def compare(d, i, v):
    """Compare the dump d from position i with the parsed value v; -> the position after it."""
    c = d[i]
    if c == '{':
        i += 1
        if not isinstance(v, dict):
            raise Bad('an object is expected instead of %r' % (v,))
        n = 0
        while d[i] != '}':
            e = d.index(' ', i)
            k = bytes.fromhex(d[i + 1:e]).decode('latin1')
            if k not in v:
                raise Bad('key %r is missing' % k)
            i = compare(d, e + 1, v[k])
            n += 1
        if n != len(v):
            raise Bad('%d keys instead of %d' % (len(v), n))
        return i + 2
    if c == '[':
        i += 1
        if not isinstance(v, list):
            raise Bad('an array is expected instead of %r' % (v,))
        n = 0
        while d[i] != ']':
            if n >= len(v):
                raise Bad('the array is too short')
            i = compare(d, i, v[n])
            n += 1
        if n != len(v):
            raise Bad('the array is too long')
        return i + 2
    e = d.index(' ', i)
    w = d[i:e]
    if w in ('true', 'false'):
        ok = v is (w == 'true')
    elif w[0] == 's':
        ok = isinstance(v, str) and v == bytes.fromhex(w[1:]).decode('latin1')
    else:
        ok = isinstance(v, Decimal) and v == Decimal(w[1:])
    if not ok:
        raise Bad('%r instead of %s' % (v, w))
    return e + 1


# ---------------------------------------------------------------- reports

def stats(v, quart):
    """The values of one field's report, in Python numbers."""
    isf = v.dtype.kind == 'f'
    c = (lambda a: float(a)) if isf else (lambda a: int(a))
    with np.errstate(all='ignore'):
        if quart:
            s = np.sort(v)
            n = len(s)
            q = [c(s[0]), c(s[n // 4]), c(s[n // 2]), c(s[3 * n // 4]), c(s[-1])]
            return {'range': q[4] - q[0], **{'q%d' % k: q[k] for k in range(5)}}
        a, b = c(v.min()), c(v.max())
        return {'range': b - a, 'min': a, 'max': b}


def dec(v, digits):
    """What is printed for v: a Decimal, or the text of a non-finite number."""
    if isinstance(v, int):
        return Decimal(v)
    if v != v or v in (float('inf'), float('-inf')):
        return 'nan' if v != v else 'inf' if v > 0 else '-inf'
    return Decimal('%.*f' % (digits, v))


def tok(t):
    if t.lstrip('-') in ('inf', 'nan'):
        return t.lstrip('-') if 'nan' in t else t
    if not re.fullmatch(r'-?[0-9]+(\.[0-9]+)?', t):
        raise Bad('%r is not a number' % t)
    return Decimal(t)


def metrics(c):
    x, y, z = c['x'], c['y'], c['z']
    n = c.n
    with np.errstate(all='ignore'):
        area = float((x.max() - x.min()) * (y.max() - y.min()))
        ext = n / area if area else float('inf')
        i, j, k = ((v - v.min()).astype('u8') for v in (x, y, z))
    g = len(set(zip(i.tolist(), j.tolist())))
    vv = len(set(zip(i.tolist(), j.tolist(), k.tolist())))
    return {'extent_point_density': ext, 'grid_point_density': n / g, 'voxel_point_density': n / vv}


UNITS = {'extent_point_density': 'pts/unit^2', 'grid_point_density': 'pts/unit^2', 'voxel_point_density': 'pts/unit^3'}


def classes(c):
    v, k = np.unique(c['c'], return_counts=True)
    return {int(a): int(b) for a, b in zip(v, k)}


def same(got, want, what):
    if got != want:
        raise Bad('%s is %s instead of %s' % (what, got, want))


def check_json(v, c, on):
    want = set(k for k in ('header', 'summary', 'classifications', 'metrics') if on[k[0]])
    if not isinstance(v, dict):
        raise Bad('not an object')
    same(set(v), want, 'the set of sections')
    if on['h']:
        h = v['header']
        same({k: x for k, x in h.items() if k != 'wkt'},
             {'major_version': 0, 'minor_version': 1, 'total_points': c.n, 'compressed': c.compressed}, 'the header')
        for k in ('major_version', 'minor_version', 'total_points'):
            if h[k] is True or h[k] is False:
                raise Bad(k + ' is a boolean')
        same(h['wkt'], c.wkt.decode('latin1'), 'the WKT')
    if on['s']:
        s = v['summary']
        same(set(s), set(M.FIELDS) | {'extra'}, 'the set of fields')
        same(len(s['extra']), c.ne if c.n else 0, 'the number of extra fields')
        for f in list(M.FIELDS) + ['e%d' % k for k in range(c.ne if c.n else 0)]:
            o = s[f] if f[0] != 'e' else s['extra'][int(f[1:])]
            if c.n == 0:
                same(o, {'size': 0, 'min': 0, 'max': 0}, f)
                continue
            w = stats(c[f], on['q'])
            same(set(o), set(w), 'the set of values of ' + f)
            for k in w:
                same(o[k] if isinstance(o[k], Decimal) else tok(str(o[k])), dec(w[k], 15), '%s of %s' % (k, f))
    if on['c']:
        same(v['classifications'], {'%03d' % k: n for k, n in classes(c).items()}, 'classifications')
    if on['m'] and c.n:
        w = metrics(c)
        same(set(v['metrics']), set(w), 'the set of metrics')
        for k in w:
            o = v['metrics'][k]
            same(o if isinstance(o, Decimal) else tok(str(o)), dec(w[k], 15), k)


def check_text(t, c, on):
    """Consume the report on c from t; return the rest."""
    def line():
        nonlocal t
        if '\n' not in t:
            raise Bad('the report ends early')
        l, t = t.split('\n', 1)
        return l
    if on['h']:
        same(line(), 'major_version\t0', 'a line')
        same(line(), 'minor_version\t1', 'a line')
        w = "ogc_wkt\t'" + c.wkt.decode('latin1') + "'\n"
        if not t.startswith(w):
            raise Bad('the WKT line is wrong: ' + repr(t[:len(w) + 20]))
        t = t[len(w):]
        same(line(), 'total_points\t%d' % c.n, 'a line')
        same(line(), 'compressed\t%s' % ('true' if c.compressed else 'false'), 'a line')
    if on['s']:
        for f in list(M.FIELDS) + ['e%d' % k for k in range(c.ne if c.n else 0)]:
            label = f if f[0] != 'e' else 'extra_' + f[1:]
            if c.n == 0:
                if not on['t']:
                    for w in (label + '\t0', 'size\t0', 'min\t0', 'max\t0'):
                        same(line(), w, 'a line')
                continue
            w = stats(c[f], on['q'])
            D = lambda k: dec(w[k], 3)
            if not on['t']:
                same(line(), '%s\t%d' % (label, c.n), 'a line')
                for k in w:
                    a = line().split('\t')
                    same(a[0], k, 'a label')
                    same(tok(a[1]) if len(a) == 2 else a, D(k), '%s of %s' % (k, label))
                continue
            l = line()
            if not on['q']:
                m = re.fullmatch(r'(\w+)\trange=(\S+), min=(\S+), max=(\S+)', l)
                if not m:
                    raise Bad('unexpected line %r' % l)
                same(m.group(1), label, 'a label')
                for k, v in zip(('range', 'min', 'max'), m.groups()[1:]):
                    same(tok(v), D(k), '%s of %s' % (k, label))
            else:
                m = re.fullmatch(r'(\w+)\trange=(\S+), (\S+) \+ (\S+) \+ (\S+) \+ (\S+) \+ (\S+) = (\S+)', l)
                if not m:
                    raise Bad('unexpected line %r' % l)
                same(m.group(1), label, 'a label')
                q = [w['q%d' % k] for k in range(5)]
                e = [w['range'], q[0], q[1] - q[0], q[2] - q[1], q[3] - q[2], q[4] - q[3], q[4]]
                for k, v in enumerate(m.groups()[1:]):
                    same(tok(v), dec(e[k], 3), 'value %d of %s' % (k, label))
    if on['c']:
        got = {}
        while t.startswith('cls_') and len(got) < len(classes(c)):
            m = re.fullmatch(r'cls_(\d{3,})\t(\d+)\t(\S+)', line())
            if not m:
                raise Bad('a bad class line')
            k = int(m.group(1))
            if k in got or m.group(1) != '%03d' % k:
                raise Bad('class %s' % m.group(1))
            got[k] = (int(m.group(2)), m.group(3))
        same(got, {k: (n, LABELS.get(k, 'reserved' if k < 64 else 'user_defined' if k < 256 else 'undefined'))
                   for k, n in classes(c).items()}, 'the classification list')
    if on['m']:
        w = metrics(c) if c.n else None
        for k in sorted(UNITS):
            a = line().split('\t')
            if len(a) != 3:
                raise Bad('a bad metric line %r' % a)
            same((a[0], a[2]), (k, UNITS[k]), 'a metric')
            if w:
                same(tok(a[1]), dec(w[k], 15), k)
    return t


LONG = {'a': 'header-info', 's': 'summary-info', 'l': 'classification-info', 'm': 'metric-info', 'c': 'compact', 'q': 'quartiles', 'j': 'json'}
WKTS = [b'', b"it's", b'a\\b', b'two\nlines\tand tabs', b"'", b'"quoted"', b'PROJCS["NAD83 / UTM 14N",GEOGCS["NAD83"]]', b"x' , 'y' : 1 , 'z' : '"]


def one(item):
    res = Res()
    r = M.rng_for(SEED, 20, item)
    for rep in range(12):
        bx = tk.Box(ck, res, '%d-%d' % (item, rep))
        nf = M.pick(r, [1, 1, 1, 1, 2, 3])
        cl = []
        inf = r.random() < .08
        for k in range(nf):
            n = (rep == k == 0 and M.many(item, 16)) or M.pick(r, [0, 1, 2, 3, 4, 5, 7, 20, 100, 300])
            c = M.gen_cloud(r, n, M.pick(r, [0, 0, 1, 2, 5]), M.pick(r, WKTS) if r.random() < .6 else None)
            if r.random() < .5 and n:
                c.cols['c'] = np.asarray([M.pick(r, list(range(0, 30)) + [63, 64, 65, 255, 256, 1000, 2**31 - 1, 2**31, 2**32 - 1])
                                          for _ in range(n)], '<u4')
            if r.random() < .3 and n:        # a scale at which voxels matter
                for f in 'xyz':
                    c.cols[f] = np.round(r.uniform(0, 6, n), 1)
            if inf and n:
                c.cols[M.pick(r, ['x', 'y', 'z'])][int(r.integers(n))] = M.pick(r, [float('inf'), float('-inf')])
            cl.append(c)
        on = {'h': True, 's': True, 'c': True, 'm': True, 't': True, 'q': False, 'j': False}
        key = {'a': 'h', 's': 's', 'l': 'c', 'm': 'm', 'c': 't', 'q': 'q', 'j': 'j'}
        opts = []
        for _ in range(M.pick(r, [0, 1, 2, 3, 5, 8])):
            k = M.pick(r, list('aslmcqj'))
            on[key[k]] = not on[key[k]]
            opts.append('-' + k if r.random() < .6 else '--' + LONG[k])
        if inf and on['m']:
            on['m'] = False
            opts.append('-m')
        if r.random() < .2:
            opts.append(M.pick(r, ['-v', '--verbose']))
        v = M.pick(r, ['rel', 'rel', 'rel', 'dbg', 'san'])
        exe = ck.bin['info.' + v]
        data = [M.encode(c) for c in cl]
        fns = [bx.put('f%d' % k, d) for k, d in enumerate(data)]
        if nf == 1 and r.random() < .5:
            rr = run([exe] + opts, data[0])
        else:
            rr = run([exe] + opts + fns)
        desc = 'spoc_info %s on %s' % (' '.join(opts), ', '.join('%d points +%d' % (c.n, c.ne) for c in cl))
        files = {'f%d.spoc' % k: d for k, d in enumerate(data)}
        files['stdout'] = rr.out
        res.case((tuple(opts), [(c.n, c.ne, c.compressed, c.wkt[:20]) for c in cl], data[0][-40:])
                 if on['h'] or ((on['s'] or on['c'] or on['m']) and cl[0].n) else None)
        res.count('reports_json' if on['j'] else 'reports_text')
        if rr.bad or rr.rc:
            res.violation('info-fails', '%s: %s %s' % (desc, rr.bad or 'exit status %d' % rr.rc, rr.err[-300:]), files, shq(rr.cmd))
            bx.close()
            continue
        t = rr.out.decode('latin1')
        try:
            if on['j']:
                p = P(t)
                for c in cl:
                    check_json(p.value(), c, on)
                    p.ws()
                if p.i != len(t):
                    raise Bad('text after the last report: %r' % t[p.i:p.i + 60])
            else:
                for c in cl:
                    t = check_text(t, c, on)
                if t:
                    raise Bad('text after the last report: %r' % t[:60])
        except (Bad, KeyError, TypeError, AttributeError) as e:
            res.violation('info-report', '%s: %s: %s' % (desc, type(e).__name__, e), files, shq(rr.cmd))
        bx.close()
    return res


ck.map(trees, range(NPROC))
ck.map(one, range(scale(160, 2500)))
ck.assumptions.append('numbers are compared to the digits printed; the metrics of an empty cloud and the class of a number\'s sign of zero are not judged')
ck.finish()
