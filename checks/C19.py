import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vkit import *
import spocmodel as M
import ops as O
import tk

ck = Check('C19', 'exploration',
           'every parallel part of the library x cloud sizes (0 to several hundred points, fewer and more than threads) x 2 to 33 '
           'threads x three kinds of schedule (free, random delays, one member after the other in a random order) under '
           'ThreadSanitizer with a run time it can see through; results compared with one thread; failing allocations in the '
           'parallel parts; the tools under ThreadSanitizer and with libgomp and 1 to 33 threads, output bytes compared; '
           'non-trivial: a region that ran with several threads and points, or an allocation that failed',
           min_events=4000)
TSAN_APPS = ('compress', 'decompress', 'filter', 'info', 'merge', 'tile', 'tool')
T = ['g++', '-O1', '-g1', '-DNDEBUG', '-fsanitize=thread']
H = VERIF + '/harness/'
jobs = [('shim.o', H + 'gomp_shim.cpp', ['g++', '-O2'], ['-c']),
        ('c19t.o', H + 'c19.cpp', T, ['-fopenmp', '-c']),
        ('c19m.o', H + 'c19.cpp', ['g++', '-O2', '-DNDEBUG'], ['-fopenmp', '-c', '-DC19_MALLOC'])]
for a in TSAN_APPS:
    jobs.append((a + '.t.o', '%s/apps/%s/%s.cpp' % (REPO, a, a), T, ['-fopenmp', '-c', '-I%s/apps/%s' % (REPO, a)]))
    jobs.append((a + '.rel', '%s/apps/%s/%s.cpp' % (REPO, a, a), 'rel', ['-I%s/apps/%s' % (REPO, a)]))
ck.build(jobs)


def link(name, obj, flags):
    """Link with the stand-in; if the code uses a part of OpenMP that it doesn't have, return False."""
    out = ck.bin['shim.o'][:-6] + name
    p = subprocess.run(['g++'] + flags + [ck.bin[obj], ck.bin['shim.o'], '-o', out, '-lz', '-lpthread'], capture_output=True, text=True)
    ck.bin[name] = out
    if p.returncode:
        if 'GOMP_' in p.stderr or 'omp_' in p.stderr:
            ck.count('not_linkable_with_the_stand_in')
            return False
        die('linking failed:\n' + p.stderr[-2000:])
    return True


have_t = link('c19t', 'c19t.o', ['-fsanitize=thread'])
have_m = link('c19m', 'c19m.o', [])
tapps = [a for a in TSAN_APPS if link(a + '.tsan', a + '.t.o', ['-fsanitize=thread'])]
if have_t:
    run_harness(ck, 'c19t', ['items=%d' % scale(64, 900), 'top=%d' % scale(300, 1500)], NPROC)
    run_harness(ck, 'c19t', ['items=%d' % scale(16, 200), 'faults=6', 'top=100'], NPROC)
if have_m:
    run_harness(ck, 'c19m', ['items=%d' % scale(80, 1000), 'faults=%d' % scale(40, 120)], NPROC)

OPS = [o for o in O.point_ops() if o.app in TSAN_APPS]
VALS = {'VALS': b''}


def everything(bx, op, exe, inp, sub, env):
    out = bx.path('out')
    os.makedirs(bx.path('d'), exist_ok=True)
    for f in os.listdir(bx.path('d')):
        os.unlink(bx.path('d/' + f))
    r = run(op.argv(exe, inp, out if op.io == 'inout' and op.out == 'spoc' else None, sub), env=env, cpu=120)
    files = {f: bx.get('d/' + f) for f in sorted(os.listdir(bx.path('d')))}
    files['out'] = bx.get('out')
    if os.path.exists(out):
        os.unlink(out)
    return r, (r.rc, r.out, files)


def one(item):
    res = Res()
    r = M.rng_for(SEED, 19, item)
    op = OPS[item % len(OPS)]
    bx = tk.Box(ck, res, str(item))
    n = M.pick(r, [1, 3, 20, 100, 400])
    z = {'u': False, 'c': True, 'uc': bool(r.integers(4))}[op.enc]
    ne = M.pick(r, [1, 2, 6])
    c = M.gen_cloud(r, n, ne, None, z)
    g = M.gen_cloud(r, M.pick(r, [5, 50]), ne, c.wkt, True)
    if op.out == 'tiles' or 'upsample' in op.name or op.app == 'info':   # bounded coordinates: these count cells
        c = M.gen_cloud(r, n, ne, None, z, xyz='cm')
        g = M.gen_cloud(r, 40, ne, c.wkt, True, xyz='cm')
    inp = bx.put('in.spoc', M.encode(c))
    sub = {'@GOOD@': bx.put('good.spoc', M.encode(g)), '@VALS@': bx.put('vals', '\n'.join(str(k % 7) for k in range(n)) + '\n'),
           '@DIR@': bx.path('d')}
    r1, want = everything(bx, op, ck.bin[op.app + '.rel'], inp, sub, {'OMP_NUM_THREADS': '1'})
    desc = '%s on %d points, %d extra fields' % (op.name, n, ne)
    files = {'in.spoc': M.encode(c), 'good.spoc': M.encode(g)}
    trials = [('rel', {'OMP_NUM_THREADS': str(t), 'OMP_SCHEDULE': s, 'OMP_DYNAMIC': d})
              for t, s, d in ((2, 'static', 'false'), (int(r.integers(3, 9)), 'dynamic,1', 'false'), (33, 'guided', 'false'), (8, 'static', 'true'))]
    if op.app in tapps:
        log = bx.path('log')
        trials += [('tsan', {'SHIM_THREADS': str(M.pick(r, [2, 3, 5, 8, 16])), 'SHIM_MODE': str(m), 'SHIM_SEED': str(int(r.integers(1 << 30))),
                             'SHIM_LOG': log}) for m in (0, 1, 2)]
    for v, env in trials:
        rr, got = everything(bx, op, ck.bin['%s.%s' % (op.app, v)], inp, sub, env)
        k = ' '.join('%s=%s' % x for x in env.items() if x[0] != 'SHIM_LOG')
        if rr.bad:
            res.violation('tool-abnormal %s %s' % (op.app, v), '%s with %s: %s' % (desc, k, rr.bad), dict(files, stderr=rr.err), shq(rr.cmd))
        elif got != want:
            res.violation('tool-differs ' + op.app, '%s with %s: exit status or output differ from those with one thread' % (desc, k),
                          dict(files, stdout1=want[1], stdout2=got[1]), shq(rr.cmd))
        res.case((op.name, v, n, ne, k) if n > 1 else None)
        res.count('tool_runs_' + v)
    try:
        for l in bx.get('log').split(b'\n'):
            w = l.split()
            if w:
                res.count('tool_parallel_regions', int(w[0]))
                res.count('tool_team_members', int(w[1]))
    except AttributeError:
        pass
    bx.close()
    return res


ck.map(one, range(scale(3, 40) * len(OPS)))
ck.assumptions.append('the stand-in for the OpenMP run time implements what gcc documents for the entry points it provides')
ck.finish()
