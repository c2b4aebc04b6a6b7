"""One entry per thing the tools can do to a SPOC file; shared by the checks of tool-wide properties."""


class Op:
    def __init__(self, app, opts=(), enc='uc', out='spoc', io='inout', name=None, streaming=False, header_only=False,
                 needs=()):
        self.app, self.opts, self.enc, self.out, self.io = app, list(opts), enc, out, io
        self.streaming, self.header_only, self.needs = streaming, header_only, needs
        self.name = name or ' '.join([app] + self.opts)

    def argv(self, exe, inp=None, outp=None, sub={}):
        """inp/outp None: standard streams."""
        o = [sub.get(x, x) if not any(k in x for k in sub) else _sub(x, sub) for x in self.opts]
        a = [exe] + o
        if self.io == 'inout':
            assert inp is not None or outp is None
            return a + ([inp] if inp is not None else []) + ([outp] if outp is not None else [])
        if self.io == 'srs':
            return a + ([inp, outp] if inp is not None and outp is not None else [])
        if self.io == 'in':
            return a + ([inp] if inp is not None else [])
        if self.io == 'two':            # two input files: the second is a fixed good one
            return a + [inp, sub['@GOOD@']]
        if self.io == 'two2':
            return a + [sub['@GOOD@'], inp]
        raise KeyError(self.io)


def _sub(x, sub):
    for k, v in sub.items():
        x = x.replace(k, v)
    return x


def point_ops(extra=1):
    """Every tool command that needs the points of its input."""
    t = lambda *o: Op('transform', o, enc='u', streaming=True)
    L = [Op('compress', enc='u'), Op('decompress', enc='c'),
         Op('filter', ['-k', '2', '-k', '0']), Op('filter', ['-r', '1']), Op('filter', ['-u']),
         Op('filter', ['-s', '0.75']), Op('filter', ['-s', '1.5', '-a', '5']), Op('filter', ['-c', 'x > 0.5']),
         Op('filter', []),
         Op('info', out='text', io='in'), Op('info', ['-j'], out='text', io='in'),
         Op('merge', ['-q'], io='two'), Op('merge', ['-q', '-p', '7'], io='two2'),
         Op('diff', ['-r'], out='none', io='two', name='diff -r (first)'),
         Op('diff', out='none', io='two2', name='diff (second)'),
         Op('diff', ['-a'], out='none', io='two', name='diff -a (first)'),
         Op('diff', ['-f', 'xe'.replace('e', '')], out='none', io='two', name='diff -f x (first)'),
         Op('tile', ['-p', '@DIR@/t'], out='tiles', io='in'),
         Op('tool', ['-g', 'x'], out='text', io='in'), Op('tool', ['-g', 'c'], out='text', io='in'),
         Op('tool', ['--recenter-xy']), Op('tool', ['--recenter-xyz']), Op('tool', ['--subtract-min-xy']),
         Op('tool', ['--subtract-min-xyz']), Op('tool', ['--resize-extra=3']), Op('tool', ['--resize-extra=0']),
         Op('tool', ['-s', 'i', '-f', '@VALS@']),
         Op('tool', ['--upsample-classifications=@GOOD@', '--resolution=1'], name='upsample (low)'),
         Op('srs', ['-s', 'NEW SRS'], io='srs'),
         t('--add-x=1.5'), t('--rotate-z=30'), t('--replace=c,2,3'), t('--set=i,9'), t('--quantize-xyz=0.25'),
         t('--uniform-noise=1', '-a', '3'), t('--gaussian-noise=1', '-a', '3'), t('--copy-field=c,p'),
         t('--scale-y=2', '--add-z=1'), t('--replace-not=c,1,2,5')]
    if extra:
        L += [Op('tool', ['-g', 'e0'], out='text', io='in'), Op('tool', ['-s', 'e0', '-f', '@VALS@']),
              t('--set=e0,77')]
    return L


def header_ops():
    return [Op('srs', out='text', io='in', header_only=True)]
