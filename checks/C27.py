import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import numpy as np
import spocmodel as M

ck = Check('C27', 'exploration',
           'every option found in the manual pages x every spelling x position x builds: acceptance, equal results of all '
           'spellings, the documented effect, its entry in the help text; help and version requests with a watch on the input; '
           'random argument vectors (documented, unknown, abbreviated, incomplete, repeated options, good and malformed values, '
           'missing and surplus operands, binary and overlong arguments) judged by a model of the command line; non-trivial: a '
           'vector the model can judge', min_events=3000)
APPS_ = list(APPS)
ck.build_apps(APPS_, ['rel', 'dbg', 'san'])


def documented(app):
    """-> {long: (short or None, takes an argument)} according to the manual page"""
    out = {}
    for l in open('%s/apps/%s/%s.1.md' % (REPO, app, app)):
        m = re.match(r'\\-\\-([a-z0-9-]+)(=.*?)?(?:,\s*-(\w)(\s+\S+)?)?\s*$', l)
        if m:
            # the heading of an option does not always show that it takes an argument
            out[m.group(1)] = (m.group(3), bool(m.group(2) or m.group(4)) or m.group(1) in VALUES[app])
    return out


# good and bad values of the options
INT_BAD = ['', 'x', '1x', '1.5', '99999999999999999999', '--', '1,2']
NUM_BAD = ['', 'x', '1x', '1e999', '--', '1..5']      # without '1,2': the operations with parameters ignore surplus ones
U = ['0', '1', '2', '5', '4294967295']
NUMS = ['0.5', '1', '2.25', '1e3', '.75', '10']
FIELD_BAD = ['', 'q', 'e', 'xx', 'e-1', 'x,', 'ex', 'X']
VALUES = {
    'filter': {'keep-class': (U, INT_BAD + ['-1', '4294967296']), 'random-seed': (['0', '1', '-5', '12345'], INT_BAD),
               'remove-class': (U, INT_BAD + ['-1', '4294967296']), 'subsample': (NUMS, NUM_BAD + ['0', '-1', 'nan']),
               'remove-coords': (['x > 3', 'y < 1', 'z < -3'], ['', 'x', 'x >', 'w > 1', 'nonsense'])},
    'merge': {'point-id': (['0', '7', '4294967295'], INT_BAD)},
    'diff': {'field': (['x', 'y', 'z', 'c', 'p', 'i', 'r', 'g', 'b', 'xx', 'ygc'], ['', 'q', 'xq'])},
    'srs': {'srs': (['WKT', 'a b', '\xe9', '--help'], [])},
    'tile': {'tiles': (['1', '2', '5', '9'], INT_BAD + ['0', '-1']), 'digits': (['0', '3', '10'], INT_BAD + ['-1', '256']),
             'tile-size': (['3', '20', '1e6'], NUM_BAD), 'tile-size-x': (['3', '20'], NUM_BAD), 'tile-size-y': (['4', '50'], NUM_BAD),
             'prefix': (['@DIR@/t', '@DIR@/long-prefix'], [])},
    'tool': {'get-field': (['x', 'y', 'z', 'c', 'p', 'i', 'r', 'g', 'b', 'e0', 'e1'], FIELD_BAD + ['e2', 'e99999999999']),
             'resize-extra': (['0', '1', '3', '255'], INT_BAD + ['-1', '256']), 'set-field': (['x', 'c', 'i', 'e1'], FIELD_BAD + ['e2']),
             'field-filename': (['@DIR@/vals'], ['@DIR@/missing', '']), 'resolution': (['1', '0.5'], NUM_BAD + ['0', '-1']),
             'upsample-classifications': (['@DIR@/in.spoc'], ['@DIR@/missing', '', '@DIR@'])},
    'transform': dict([(k + '-' + a, (['1', '-2.5', '0', '1e-3'], NUM_BAD)) for k in ('add', 'rotate', 'scale', 'gaussian-noise', 'uniform-noise') for a in 'xyz']
                      + [(k, (['1', '.01'], NUM_BAD)) for k in ('gaussian-noise', 'uniform-noise')]
                      + [('quantize-xyz', (['1', '.01'], NUM_BAD)), ('random-seed', (['0', '1', '12345'], INT_BAD)),
                         ('copy-field', (['c,p', 'i,c', 'r,e0', 'e0,e1'], ['', 'c', 'c,', 'q,c', 'c,q', 'e2,c', 'x,y'])),
                         ('replace', (['c,2,3', 'i,0,1', 'e0,1,2'], ['', 'c', 'c,1', 'q,1,2', 'c,x,1', 'c,1,x', 'c,1,-1', 'e2,1,2'])),
                         ('replace-not', (['c,2,3', 'c,2,3,4', 'e1,0,5'], ['', 'c', 'c,1', 'q,1,2', 'c,x,1', 'e2,1,2'])),
                         ('set', (['c,2', 'i,0', 'x,2.5', 'e0,77'], ['', 'c', 'q,1', 'c,x', 'c,-1', 'i,65536', 'e2,1']))]),
    'compress': {}, 'decompress': {}, 'info': {},
}
DOC = {a: documented(a) for a in APPS_}
for a in APPS_:
    if not {'help', 'version', 'verbose'} <= set(DOC[a]):
        die('the manual page of spoc_%s cannot be read' % a)

# operands: (fewest, most)
OPERANDS = {'compress': (0, 2), 'decompress': (0, 2), 'filter': (0, 2), 'tool': (0, 2), 'transform': (0, 2), 'tile': (0, 1),
            'diff': (2, 2), 'merge': (2, None), 'info': (0, None), 'srs': (0, None)}
COMMANDS = ('get-field', 'recenter-xy', 'recenter-xyz', 'resize-extra', 'set-field', 'subtract-min-xy', 'subtract-min-xyz',
            'upsample-classifications')


class World:
    """A directory with the files that the command lines mention."""
    def __init__(self, name, r):
        self.d = d = ck.work + '/w-' + name
        os.makedirs(d)
        n = 40
        c = M.gen_cloud(r, n, 2, wkt=b'SRS 1', compressed=False, styles=['cm'], int_style='small')
        c.cols['x'][:] = np.round(r.uniform(0, 10, n), 2)
        c.cols['y'][:] = np.round(r.uniform(0, 10, n), 2)
        c.cols['z'][:] = np.round(r.uniform(-5, 5, n), 2)
        for k in ('x', 'y', 'z'):
            c.cols[k][n - 4:] = c.cols[k][:4]              # some equal points
        c.cols['c'][:] = np.arange(n) % 5
        c.cols['i'][:] = np.arange(n) % 7
        self.c = c
        z = c.copy()
        z.compressed = True
        f = c.copy()
        f.cols['x'][:] += 1e6
        dy = c.copy()
        dy.cols['y'][3] += 1
        wk = c.copy()
        wk.wkt = b'SRS 2'
        self.files = {'in.spoc': M.encode(c), 'in.zpoc': M.encode(z), 'far.spoc': M.encode(f), 'dy.spoc': M.encode(dy), 'wkt.spoc': M.encode(wk),
                      'vals': b''.join(b'%d\n' % (3 * v) for v in range(n)), 'cut.spoc': M.encode(c)[:-9], 'junk': b'some text\n'}
        self.reset()

    def reset(self):
        shutil.rmtree(self.d)
        os.makedirs(self.d)
        for k, v in self.files.items():
            open(self.d + '/' + k, 'wb').write(v)

    def sub(self, a):
        return [x.replace('@DIR@', self.d) if isinstance(x, str) else x for x in a]

    def new_files(self):
        return {k: open(self.d + '/' + k, 'rb').read() for k in sorted(os.listdir(self.d)) if k not in self.files and os.path.isfile(self.d + '/' + k)}

    def call(self, app, variant, args, stdin_name=None, **kw):
        """-> Run, new files, how far standard input was read"""
        for k in os.listdir(self.d):
            if k not in self.files:
                os.unlink(self.d + '/' + k)
        inp = self.d + '/' + (stdin_name or ('in.zpoc' if app == 'decompress' else 'in.spoc'))
        fd = os.open(inp, os.O_RDONLY)
        try:
            a = [x.encode('utf8', 'surrogateescape') if isinstance(x, str) else x for x in self.sub(args)]
            rr = run([ck.bin['%s.%s' % (app, variant)]] + a, stdin=fd, cpu=20, cwd=self.d, **kw)
            pos = os.lseek(fd, 0, os.SEEK_CUR)
        finally:
            os.close(fd)
        new = self.new_files()
        for k, v in self.files.items():
            try:
                if open(self.d + '/' + k, 'rb').read() != v:
                    self.reset()
                    break
            except OSError:
                self.reset()
                break
        return rr, new, pos


def spellings(app, name, value):
    short, arg = DOC[app][name]
    L = []
    if not arg:
        L.append(['--' + name])
        if short:
            L += [['-' + short], ['-v' + short], ['-' + short + 'v']] if name not in ('verbose',) else [['-' + short]]
    else:
        L += [['--%s=%s' % (name, value)], ['--' + name, value]]
        if short:
            L += [['-' + short, value]]
            if value:
                L += [['-' + short + value], ['-v' + short, value]]
    return L


def base_of(app):
    return {'compress': [], 'decompress': [], 'filter': [], 'info': [], 'transform': [], 'tool': ['--recenter-xy'], 'srs': [],
            'tile': ['--prefix=@DIR@/t'], 'merge': [], 'diff': []}[app]


def operands_of(app):
    return {'decompress': ['@DIR@/in.zpoc'], 'merge': ['@DIR@/in.spoc', '@DIR@/far.spoc'], 'diff': ['@DIR@/in.spoc', '@DIR@/in.spoc'],
            }.get(app, ['@DIR@/in.spoc'])


# what an option needs beside it, and what shows that it was obeyed: (value, other options, operands, test of the results with and
# without the option). Each result is (exit status, stdout, stderr, new files).
def cloud(r):
    return M.decode(r[1])


def effect(app, name, w):
    c = w.c
    mask = lambda m: [int(k) for k in np.flatnonzero(m)]
    same_as = lambda idx: (lambda a, b: M.diff_clouds(c.take(np.array(idx, 'i8')), cloud(a)) is None and a[1] != b[1])
    T = {
        ('filter', 'keep-class'): ('2', [], None, same_as(mask(c['c'] == 2))),
        ('filter', 'remove-class'): ('2', [], None, same_as(mask(c['c'] != 2))),
        ('filter', 'random-seed'): ('9', ['--subsample=1'], None, lambda a, b: a[1] != b[1] and cloud(a).n > 5),
        ('filter', 'subsample'): ('2', [], None, lambda a, b: 0 < cloud(a).n < c.n),
        ('filter', 'unique-xyz'): (None, [], None, lambda a, b: cloud(a).n == c.n - 4),
        ('filter', 'remove-coords'): ('x > 3', [], None, same_as(mask(~(c['x'] > 3)))),
        ('info', 'json'): (None, [], None, lambda a, b: a[1] != b[1]),
        ('merge', 'quiet'): (None, [], None, lambda a, b: not a[2].strip() and b[2].strip() and a[1] == b[1]),
        ('merge', 'point-id'): ('7', [], None, lambda a, b: set(cloud(a)['p']) == {7} and set(cloud(b)['p']) == {0, 1}),
        ('srs', 'srs'): ('SRS new', [], ['@DIR@/in.spoc', '@DIR@/out'], lambda a, b: M.decode(a[3]['out']).wkt == b'SRS new'),
        ('diff', 'header-only'): (None, [], ['@DIR@/in.spoc', '@DIR@/dy.spoc'], lambda a, b: a[0] == 0 and b[0] != 0),
        ('diff', 'data-only'): (None, [], ['@DIR@/in.spoc', '@DIR@/wkt.spoc'], lambda a, b: a[0] == 0 and b[0] != 0),
        ('diff', 'field'): ('x', [], ['@DIR@/in.spoc', '@DIR@/dy.spoc'], lambda a, b: a[0] == 0 and b[0] != 0),
        ('diff', 'reverse'): (None, [], ['@DIR@/in.spoc', '@DIR@/dy.spoc'], lambda a, b: a[0] == 0 and b[0] != 0),
        ('tile', 'force'): (None, [], None, lambda a, b: a[3] == b[3] and a[0] == 0),
        ('tile', 'tiles'): ('9', [], None, lambda a, b: len(a[3]) > len(b[3])),
        ('tile', 'digits'): ('6', [], None, lambda a, b: all(re.fullmatch(r't\d{6}\.spoc', k) for k in a[3]) and sorted(a[3].values()) == sorted(b[3].values())),
        ('tile', 'tile-size'): ('1', [], None, lambda a, b: len(a[3]) > len(b[3])),
        ('tile', 'tile-size-x'): ('1', ['--tile-size-y=100'], None, lambda a, b: len(a[3]) > 5),
        ('tile', 'tile-size-y'): ('1', ['--tile-size-x=100'], None, lambda a, b: len(a[3]) > 5),
        ('tile', 'prefix'): ('@DIR@/other', None, None, lambda a, b: all(k.startswith('other') for k in a[3])),
        ('tool', 'resolution'): ('100', ['--upsample-classifications=@DIR@/in.spoc'], ['@DIR@/in.spoc'], lambda a, b: a[0] == 0 and b[0] != 0),
        ('tool', 'field-filename'): ('@DIR@/vals', ['--set-field=c'], None, lambda a, b: list(cloud(a)['c']) == [3 * k for k in range(c.n)] and b[0] != 0),
        ('tool', 'get-field'): ('c', None, None, lambda a, b: a[1].split() == [b'%d' % v for v in c['c']]),
        ('tool', 'recenter-xy'): (None, None, None, lambda a, b: abs(cloud(a)['x'].mean()) < 1e-9 and (cloud(a)['z'] == c['z']).all()),
        ('tool', 'recenter-xyz'): (None, None, None, lambda a, b: abs(cloud(a)['z'].mean()) < 1e-9 and abs(cloud(a)['x'].mean()) < 1e-9),
        ('tool', 'resize-extra'): ('5', None, None, lambda a, b: cloud(a).ne == 5),
        ('tool', 'set-field'): ('i', ['--field-filename=@DIR@/vals'], None, lambda a, b: list(cloud(a)['i']) == [3 * k for k in range(c.n)]),
        ('tool', 'subtract-min-xy'): (None, None, None, lambda a, b: cloud(a)['x'].min() == 0 and (cloud(a)['z'] == c['z']).all()),
        ('tool', 'subtract-min-xyz'): (None, None, None, lambda a, b: cloud(a)['x'].min() == 0 == cloud(a)['z'].min()),
        ('tool', 'upsample-classifications'): ('@DIR@/in.spoc', ['--resolution=100'], ['@DIR@/in.spoc'], lambda a, b: cloud(a).n == c.n),
        ('transform', 'random-seed'): ('9', ['--uniform-noise=1'], None, lambda a, b: a[1] != b[1]),
        ('transform', 'copy-field'): ('c,p', [], None, lambda a, b: M.diff_clouds(c, cloud(a)) is not None and ((cloud(a)['p'] == c['c']).all() or (cloud(a)['c'] == c['p']).all())),
        ('transform', 'quantize-xyz'): ('1', [], None, lambda a, b: (np.trunc(c['x']) == cloud(a)['x']).all()),
        ('transform', 'replace'): ('c,2,9', [], None, lambda a, b: (cloud(a)['c'] == np.where(c['c'] == 2, 9, c['c'])).all()),
        ('transform', 'replace-not'): ('c,2,3,9', [], None, lambda a, b: (cloud(a)['c'] == np.where((c['c'] == 2) | (c['c'] == 3), c['c'], 9)).all()),
        ('transform', 'set'): ('c,9', [], None, lambda a, b: set(cloud(a)['c']) == {9}),
    }
    if (app, name) in T:
        return T[app, name]
    m = re.fullmatch(r'(add|scale|rotate|gaussian-noise|uniform-noise)(?:-([xyz]))?', name)
    if app == 'transform' and m:
        def t(a, b):
            g = cloud(a)
            axes = m.group(2) or 'xyz'
            if m.group(1) == 'rotate':
                return (g[axes] == c[axes]).all() and all((g[k] != c[k]).any() for k in 'xyz' if k != axes)
            if m.group(1) == 'add' and not np.allclose(g[axes], c[axes] + 2.5):
                return False
            if m.group(1) == 'scale' and not np.allclose(g[axes], c[axes] * 2.5):
                return False
            return all((g[k] != c[k]).any() == (k in axes) for k in 'xyz')
        return ('2.5', [], None, t)
    if app == 'info' and name != 'verbose':
        return (None, [], None, lambda a, b: a[1] != b[1])
    return None


def doc_item(item):
    _, app, name, rep = item
    res = Res()
    r = M.rng_for(SEED, 27, APPS_.index(app), sorted(DOC[app]).index(name), rep)
    w = World('d-%s-%s-%d' % (app, name, rep), r)
    short, arg = DOC[app][name]
    variant = ['rel', 'dbg', 'san'][rep % 3]

    def done(x):
        rr, new, pos = x
        return (rr.rc, rr.out, rr.err, new)

    def note(key, text, rr=None):
        res.violation(key, 'spoc_%s --%s: %s' % (app, name, text), {'stderr': rr.err if rr else b''}, shq(rr.cmd) if rr else None)

    # the help text
    rr, _, pos = w.call(app, variant, ['--help'])
    text = (rr.out + rr.err).decode('latin1')
    m = re.search(r'--%s(=[^\s,]+)?(?:,\s*-(\w))?(?![\w-])' % re.escape(name), text)
    res.case()
    if rr.bad or rr.rc != 0:
        note('help', 'the help request fails: %s %s' % (rr.bad, rr.rc), rr)
    elif not m or short and m.group(2) != short or bool(m.group(1)) != arg:
        note('help-text', 'documented as --%s%s, short form %s, but the help text has %r' % (name, '=...' if arg else '', short, m and m.group(0)), rr)
    if name in ('help', 'version'):
        for sp in spellings(app, name, None)[:2] + [['--verbose', '--' + name]]:
            for ops in ([], ['@DIR@/missing'], operands_of(app)):
                if name == 'version' and app in ('merge', 'diff') and len(ops) != 2:
                    continue
                rr, new, pos = w.call(app, variant, sp + ops)
                res.case((app, name, tuple(sp), len(ops), variant))
                res.count('requests')
                if rr.bad or rr.rc != 0 or pos or new or not (rr.out + rr.err).strip():
                    note('request', '%s: %s exit status %d, %d bytes of standard input read, new files %s, %d bytes of text' % (
                        sp + ops, rr.bad, rr.rc, pos, list(new), len(rr.out + rr.err)), rr)
                if name == 'version' and not re.search(rb'\d+\.\d+', rr.out):
                    note('version', 'no version number in %r' % rr.out, rr)
        shutil.rmtree(w.d)
        return res
    e = effect(app, name, w)
    value, others, ops, test = e if e else (None if not arg else '1', [], None, None)
    base = base_of(app) if others == [] else (others or [])
    if app == 'tool' and name in ('resolution', 'field-filename', 'set-field', 'upsample-classifications'):
        base = others
    ops = ops or operands_of(app)
    if e is None and name != 'verbose':
        # an option documented since: only that it is accepted
        res.count('options_without_model')
    sps = spellings(app, name, value)
    want = None
    for sp in sps:
        for k, args in enumerate((base + sp + ops, sp + base + ops, ops + base + sp, base + sp + ['--'] + ops)):
            if k and not THOROUGH and r.random() < .5:
                continue
            x = w.call(app, variant, args)
            rr = x[0]
            res.case((app, name, tuple(sp)[:1], k, variant))
            res.count('spellings')
            if rr.bad or (rr.rc != 0 and e is not None and app != 'diff') or (app == 'diff' and rr.rc != 0 and rr.err.strip() and name != 'verbose'):
                note('refused', '%s: %s exit status %d: %s' % (args, rr.bad, rr.rc, rr.err[-200:].decode('latin1')), rr)
                continue
            y = done(x)
            if want is None:
                want = y
            elif (y[0], y[1], y[3]) != (want[0], want[1], want[3]):
                note('spelling', '%s gives another result than %s' % (args, base + sps[0] + ops), rr)
    if want is not None and test:
        b = done(w.call(app, variant, base + ops))
        if app == 'tile' and name == 'force':
            b2 = w.call(app, variant, base + sps[0] + ops)
            # a second run into the same files
            rr = run([ck.bin['tile.' + variant]] + w.sub(base + ops), b'', cpu=20, cwd=w.d)
            r2 = run([ck.bin['tile.' + variant]] + w.sub(base + sps[-1] + ops), b'', cpu=20, cwd=w.d)
            if rr.rc == 0 or r2.rc != 0:
                note('effect', 'existing tiles: exit status %d without and %d with the option' % (rr.rc, r2.rc), rr)
        try:
            ok = test(want, b)
        except Exception as x:
            ok = False
            note('effect', 'the result cannot be evaluated: %r' % x)
        else:
            if not ok:
                note('effect', '%s does not have the documented effect' % (base + sps[0] + ops))
        res.count('effects')
        if app == 'info':
            # a toggle, so twice is never
            t = done(w.call(app, variant, sps[0] + sps[-1] + base + ops if 'v' not in sps[-1][0] else sps[0] * 2 + base + ops))
            if t[1] != b[1]:
                note('toggle', 'given twice, it still changes the output')
    if name == 'verbose' and want is not None:
        b = done(w.call(app, variant, base + ops))
        if (b[0], b[1], b[3]) != (want[0], want[1], want[3]):
            note('verbose', 'changes the result')
        if app in ('filter', 'tool', 'merge', 'tile', 'diff', 'info', 'srs') and len(want[2]) <= len(b[2]):
            note('verbose', 'prints nothing')
    res.sample('spoc_%s --%s: %d spellings' % (app, name, len(sps)))
    shutil.rmtree(w.d)
    return res


def judge(app, args):
    """What the documentation says about an argument vector: 'refuse', 'help', 'version', ('run', options, operands) or None."""
    doc = DOC[app]
    shorts = {s: l for l, (s, a) in doc.items() if s}
    opts, operands, bad = [], [], None
    k = 0
    fuzzy = False
    while k < len(args):
        a = args[k]
        k += 1
        if not isinstance(a, str):
            return None
        if a == '--':
            operands += args[k:]
            break
        if a.startswith('--'):
            n, eq, v = a[2:].partition('=')
            if n not in doc:
                c = [x for x in doc if x.startswith(n)]
                if c:
                    fuzzy = True                 # an abbreviation: not documented
                    if len(c) > 1:
                        return None
                    n = c[0]
                else:
                    bad = bad or 'unknown option ' + a
                    continue
            if doc[n][1]:
                if not eq:
                    if k >= len(args):
                        bad = bad or 'no argument of ' + a
                        continue
                    v = args[k]
                    k += 1
                opts.append((n, v))
            elif eq:
                bad = bad or 'argument of ' + a
            else:
                opts.append((n, None))
        elif a.startswith('-') and a != '-':
            j = 1
            while j < len(a):
                n = shorts.get(a[j])
                j += 1
                if n is None:
                    bad = bad or 'unknown option -%s' % a[j - 1]
                    continue
                if doc[n][1]:
                    v = a[j:]
                    if not v:
                        if k >= len(args):
                            bad = bad or 'no argument of -%s' % a[j - 1]
                            break
                        v = args[k]
                        k += 1
                    opts.append((n, v))
                    break
                opts.append((n, None))
        else:
            operands.append(a)
    names = [n for n, v in opts]
    if any(not isinstance(v, (str, type(None))) for n, v in opts) or any(not isinstance(x, str) for x in operands):
        return None
    few, most = OPERANDS[app]
    if bad is None:
        for n, v in opts:
            if v is not None and n in VALUES[app]:
                if v in VALUES[app][n][1] and (n, v) != [x for x in opts if x[0] == n][-1]:
                    fuzzy = True            # overridden by a later one
                elif v in VALUES[app][n][1]:
                    bad = bad or 'value %r of --%s' % (v, n)
                elif v not in VALUES[app][n][0]:
                    fuzzy = True
    deferred = bad and app == 'tool' and any(k in bad for k in ('field-filename', 'upsample', 'get-field', 'set-field', 'resize-extra', 'resolution'))
    if app == 'tool' and sum(n in COMMANDS for n in names) > 1 and {'help', 'version'} & set(names):
        return None             # refused while the options are read, which may be before the request
    if 'help' in names:
        return 'help' if bad is None and not fuzzy else None
    if most is not None and len(operands) > most and bad is None:
        bad = 'surplus operand'
    if 'version' in names:
        return 'version' if bad is None and not fuzzy and len(operands) >= few else None
    if bad is None and len(operands) < few:
        bad = 'missing operand'
    if deferred:
        # values that only matter for the command that uses them
        cmds = [n for n in names if n in COMMANDS]
        return None if len(cmds) != 1 or fuzzy else ('maybe', bad)
    if bad:
        return None if fuzzy else 'refuse: ' + bad
    if fuzzy or '' in operands or '-' in operands:
        return None
    # combinations
    if app == 'tool':
        cmds = [n for n in names if n in COMMANDS]
        if len(cmds) != 1:
            return 'refuse: %d commands' % len(cmds)
        if 'set-field' in cmds and 'field-filename' not in names:
            return 'refuse: no value file'
        if 'upsample-classifications' in cmds:
            return None
    if app == 'tile':
        if 'tile-size' in names and ('tile-size-x' in names or 'tile-size-y' in names):
            return 'refuse: sizes'
        if ('tile-size-x' in names) != ('tile-size-y' in names):
            return None
        if not operands and 'prefix' not in names:
            return 'refuse: no prefix'
        if 'prefix' not in names:
            return None
        if 'digits' in names and [v for n, v in opts if n == 'digits'][-1] not in ('3', '10'):
            return None
    if app == 'transform' and not set(names) - {'verbose', 'random-seed'}:
        return None
    if app == 'diff' and ('header-only' in names) + ('data-only' in names) + ('field' in names) > 1:
        return 'refuse: exclusive options'
    if app == 'srs' and 'srs' in names and len(operands) not in (0, 2):
        return 'refuse: operands'
    return ('run', opts, operands)


def fuzz_item(item):
    _, rep = item
    res = Res()
    r = M.rng_for(SEED, 270, rep)
    w = World('f-%d' % rep, r)
    for _ in range(scale(60, 400)):
        app = M.pick(r, APPS_ + ['filter', 'tool', 'transform', 'tile'])
        doc = DOC[app]
        args, asked = [], []
        wild = r.random() < .35
        for _ in range(int(r.integers(0, 5))):
            n = M.pick(r, sorted(doc) if r.random() < .8 else ['verbose'])
            if n in ('help', 'version') and r.random() < .7:
                n = 'verbose'
            v = None
            if doc[n][1]:
                good, bad = VALUES[app].get(n, (['1'], ['']))
                v = M.pick(r, bad if bad and r.random() < .12 else good)
                if wild and r.random() < .2:
                    v = M.pick(r, ['nan', 'inf', '-0', '1e308', ' 1', '0x10', 'x' * 5000, '%s%n', '\xff', '1e-320', '-1e308', ',,,,', 'c,,', '9' * 400])
            args.append(M.pick(r, spellings(app, n, v)))
            asked.append(n)
        if r.random() < .12:
            args.append(M.pick(r, [['--bogus'], ['-Z'], ['--bogus=3'], ['-vZ'], ['--no-such', 'x'], ['--verbose=1'], ['---'], ['-?'], ['--=']]))
        if wild and r.random() < .3:
            args.append(M.pick(r, [['-'], [''], ['--verb'], ['--ver'], [b'\xff\xfe'], ['-' * 300], ['x' * 5000], ['--' + 'y' * 3000], ['-\xe9'],
                                   ['--random-seed=' + '1' * 400], ['-:'], ['-W', 'foo']]))
        few, most = OPERANDS[app]
        k = int(r.integers(0, 3)) if most != 0 else 0
        if app in ('diff', 'merge') and r.random() < .85:
            k = 2
        if app == 'tile':
            k = min(k, 1) if r.random() < .9 else k
        if r.random() < .05:
            k += 1
        good_in = {'decompress': ['@DIR@/in.zpoc'], 'compress': ['@DIR@/in.spoc'], 'transform': ['@DIR@/in.spoc']}.get(app, ['@DIR@/in.spoc', '@DIR@/in.zpoc'])
        ops = []
        broken = False
        for j in range(k):
            if app in ('compress', 'decompress', 'filter', 'tool', 'transform', 'srs') and j > 0:
                ops.append('@DIR@/out%d' % j if app != 'srs' or j == 1 else '@DIR@/in.spoc')
            elif r.random() < .08:
                ops.append(M.pick(r, ['@DIR@/missing', '@DIR@', '@DIR@/cut.spoc', '@DIR@/junk', '/dev/null']))
                broken = True
            else:
                ops.append(M.pick(r, good_in))
        if app == 'srs' and '@DIR@/out1' in ops and not any(n == 'srs' for n in asked):
            ops[1] = '@DIR@/in.spoc'
        vec = [y for x in args for y in x]
        style = r.random()
        if style < .6:
            vec = vec + ops
        elif style < .8:
            vec = ops + vec
        elif style < .9 and not wild:
            vec = vec + ['--'] + ops
        else:
            parts = args + [[o] for o in ops]
            parts = [parts[k] for k in r.permutation(len(parts))]
            vec = [y for x in parts for y in x]
            broken = True if set(o for o in ops) and len(ops) > 1 else broken   # the operands may have changed places
        j = judge(app, vec)
        variant = M.pick(r, ['rel', 'dbg', 'san'])
        rr, new, pos = w.call(app, variant, vec)
        desc = 'spoc_%s.%s %s' % (app, variant, ' '.join(repr(x)[:100] for x in vec))
        files = {'stderr': rr.err, 'stdout': rr.out[:1 << 20]}
        res.count('vectors')
        kind = j if isinstance(j, str) else j[0] if j else 'open'
        res.count('judged_' + kind.split(':')[0])
        res.case((app, variant, tuple(map(str, vec))) if j else None)
        if rr.bad:
            res.violation('abnormal', desc + ': ' + rr.bad, files, shq(rr.cmd))
            continue
        if rr.rc != 0 and not rr.err.strip() and not (app == 'diff' and kind not in ('help', 'version') and not kind.startswith('refuse')):
            res.violation('silent', desc + ': exit status %d without a message' % rr.rc, files, shq(rr.cmd))
        if j is None:
            continue
        if kind.startswith('refuse') or kind == 'maybe':
            if kind == 'maybe':
                # decided by the command: either refused, or the value did not matter
                continue
            if rr.rc == 0 or not rr.err.strip():
                res.violation('accepted', desc + ': should be refused (%s), exit status %d, %d bytes of messages' % (kind, rr.rc, len(rr.err)), files, shq(rr.cmd))
        elif kind in ('help', 'version'):
            if rr.rc != 0 or pos or new:
                res.violation('request', desc + ': exit status %d, %d bytes of standard input read, new files %s' % (rr.rc, pos, list(new)), files, shq(rr.cmd))
        elif not broken and set(j[2]) <= set(ops):
            if app == 'diff':
                if rr.rc != 0 and rr.err.strip() and not any(n == 'verbose' for n, v in j[1]):
                    res.violation('refused', desc + ': exit status %d: %s' % (rr.rc, rr.err[-200:].decode('latin1')), files, shq(rr.cmd))
            elif rr.rc != 0:
                res.violation('refused', desc + ': exit status %d: %s' % (rr.rc, rr.err[-200:].decode('latin1')), files, shq(rr.cmd))
        res.sample(desc)
    shutil.rmtree(w.d)
    return res


ck.map(doc_item, [('d', a, n, rep) for rep in range(3) for a in APPS_ for n in sorted(DOC[a])])
ck.map(fuzz_item, [('f', k) for k in range(scale(96, 1200))])
ck.finish()
