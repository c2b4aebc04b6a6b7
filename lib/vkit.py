"""Common driver of all checks: builds, workers, limits, verdicts, evidence."""
import atexit, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time
import multiprocessing as mp
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPOC_REPO', '/repo')          # overridden only while developing the checks
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_JOBS', '0')) or max(2, min(8, os.cpu_count() or 8))
THOROUGH = TIER == 'thorough'
APPS = ('compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform')
T0 = time.time()
LIMIT = float('inf') if THOROUGH else 800            # seconds after which a quick run gives up on programs that do not end
HANGS = mp.Value('i', 0)                             # programs found not to end, in all workers
EXAMPLES = ('noop', 'stream_averaging', 'generate_infinite_points')


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def die(msg):
    """The check itself could not do its work: neither held nor violated."""
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- builds

VARIANTS = {
    # release semantics under AddressSanitizer and UndefinedBehaviorSanitizer
    'san': ['g++', '-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
            '-fno-omit-frame-pointer', '-fopenmp'],
    # debug semantics: the assertions and contracts of the code are active
    'dbg': ['g++', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fopenmp'],
    # what a user installs
    'rel': ['g++', '-O2', '-DNDEBUG', '-fopenmp'],
    # debug semantics plus sanitizers
    'dsan': ['g++', '-O1', '-g1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
             '-fno-omit-frame-pointer', '-fopenmp'],
}
COMMON = ['-std=c++20', '-w', '-I' + REPO, '-I' + os.path.join(VERIF, 'harness')]

BASE_ENV = {
    'PATH': os.environ.get('PATH', '/usr/local/bin:/usr/bin:/bin'), 'HOME': '/nonexistent', 'LANG': 'C.UTF-8',
    'TMPDIR': '/tmp', 'OMP_NUM_THREADS': '1', 'OMP_WAIT_POLICY': 'passive',
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=16:allocator_release_to_os_interval_ms=-1',
    'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=98:print_stacktrace=0',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4',
}
SAN_MARK = re.compile(rb'(ERROR: AddressSanitizer|runtime error: |WARNING: ThreadSanitizer|LeakSanitizer|'
                      rb"Assertion `|Assertion '|terminate called|pure virtual|stack smashing|double free|"
                      rb'free\(\): |malloc\(\): |corrupted size|munmap_chunk|UndefinedBehaviorSanitizer|'
                      rb'AddressSanitizer:)')


class Check:
    def __init__(self, pid, level, rule, min_events=1, max_viol=6):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.min_events, self.max_viol = min_events, max_viol
        self.evaluations = 0
        self.keys = set()
        self.counters = {}
        self.samples = []
        self.assumptions = []
        self.nviol = 0
        self.known_hit = {}
        self.known = load_known(pid)
        self.extra = {}
        self.exhaustive = None
        self.work = os.path.join(VERIF, '.work', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.pidmain = os.getpid()
        atexit.register(self._cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
        self.replay_root = os.path.join(VERIF, 'replay', pid)
        shutil.rmtree(self.replay_root, ignore_errors=True)
        self.bin = {}

    def _cleanup(self):
        if os.getpid() == self.pidmain:
            shutil.rmtree(self.work, ignore_errors=True)

    # -------------------------------------------------------- building
    def build(self, jobs):
        """jobs: list of (name, source, variant, extra flags). Binaries appear as self.bin[name]."""
        procs, todo = [], []
        bindir = os.path.join(self.work, 'bin')
        os.makedirs(bindir, exist_ok=True)
        for name, src, variant, extra in jobs:
            out = os.path.join(bindir, name)
            srcs = src if isinstance(src, (list, tuple)) else [src]
            base = VARIANTS[variant] if isinstance(variant, str) else list(variant)
            cmd = base + COMMON + list(extra) + list(srcs) + ['-o', out]
            if '-c' not in cmd:
                cmd += ['-lz']
            todo.append((name, out, cmd))
        t = time.time()
        running = []
        failed = []
        for item in todo:
            while len([p for p in running if p[1].poll() is None]) >= NPROC:
                time.sleep(0.02)
            log = open(os.path.join(bindir, item[0] + '.log'), 'w+b')
            running.append((item, subprocess.Popen(item[2], stdout=log, stderr=subprocess.STDOUT, cwd=self.work), log))
        for (name, out, cmd), p, log in running:
            if p.wait() != 0:
                log.seek(0)
                failed.append('%s\n%s' % (' '.join(cmd), log.read()[-3000:].decode('utf8', 'replace')))
            log.close()
            self.bin[name] = out
        if failed:
            die('the build failed:\n' + '\n'.join(failed[:2]))
        self.counters['binaries_built'] = self.counters.get('binaries_built', 0) + len(todo)
        self.extra['build_s'] = round(self.extra.get('build_s', 0) + time.time() - t, 1)
        return self.bin

    def build_apps(self, apps, variants=('san',)):
        jobs = []
        for v in variants:
            for a in apps:
                if a in EXAMPLES:
                    jobs.append(('%s.%s' % (a, v), '%s/examples/%s.cpp' % (REPO, a), v, []))
                else:
                    jobs.append(('%s.%s' % (a, v), '%s/apps/%s/%s.cpp' % (REPO, a, a), v,
                                 ['-I%s/apps/%s' % (REPO, a)]))
        return self.build(jobs)

    def py_job(self, variant='rel', extra=()):
        """A build job of the Python extension; use self.py_env(variant) and /usr/bin/python3 afterwards."""
        d = os.path.join(self.work, 'py-' + variant, 'spocpy')
        os.makedirs(d)
        for f in os.listdir(REPO + '/spocpy/spocpy'):
            if f.endswith('.py'):
                shutil.copy(REPO + '/spocpy/spocpy/' + f, d)
        inc = subprocess.check_output(['/usr/bin/python3', '-m', 'pybind11', '--includes'], text=True).split()
        suf = subprocess.check_output(['/usr/bin/python3', '-c',
                                       'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).strip()
        out = os.path.join(d, 'spocpy_cpp' + suf)
        os.makedirs(os.path.join(self.work, 'bin'), exist_ok=True)
        link = os.path.join(self.work, 'bin', 'py.' + variant)
        os.symlink(out, link)
        return ('py.' + variant, REPO + '/spocpy/spocpy/spocpy.cpp', variant,
                ['-shared', '-fPIC', '-fvisibility=hidden'] + inc + list(extra))

    def py_env(self, variant='rel'):
        return {'PYTHONPATH': os.path.join(self.work, 'py-' + variant), 'PYTHONDONTWRITEBYTECODE': '1'}

    # -------------------------------------------------------- verdicts
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, n=1):
        self.evaluations += n
        if key is not None:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, key, desc, files=None, cmd=None):
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = self.known[key]
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]), flush=True)
            return
        self.nviol += 1
        d = os.path.join(self.replay_root, '%03d' % self.nviol)
        os.makedirs(d, exist_ok=True)
        for n, b in (files or {}).items():
            if isinstance(b, str):
                b = b.encode()
            with open(os.path.join(d, n), 'wb') as f:
                f.write(b[:64 << 20])
        with open(os.path.join(d, 'README.txt'), 'w') as f:
            f.write('property %s, seed %d, tier %s\nkey: %s\n\n%s\n' % (self.pid, SEED, TIER, key, desc))
            if cmd:
                f.write('\ncommand (paths as at run time; the files are beside this one):\n%s\n' %
                        (cmd if isinstance(cmd, str) else ' '.join(map(str, cmd))))
        print('VIOLATION property=%s replay=%s' % (self.pid, d), flush=True)
        print('  [%s] %s' % (key, desc[:1500].replace('\n', '\n  ')), flush=True)

    # -------------------------------------------------------- workers
    def map(self, func, items):
        """Run func(item) -> Res in forked workers, in order, until done or too many violations."""
        items = list(items)
        if not items:
            return
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(NPROC, len(items)), initializer=_worker_init)
        try:
            it = pool.imap(_Guard(func), items)
            while True:
                try:
                    # (a healthy run is never cut off)
                    res = it.next(max(1, T0 + LIMIT + 40 - time.time()) if HANGS.value or self.nviol else 5)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    if time.time() - T0 > LIMIT + 30 and (HANGS.value or self.nviol):
                        if not self.nviol:
                            self.violation('hang', '%d programs do not terminate' % HANGS.value)
                        print('stopping early', flush=True)
                        break
                    continue
                if isinstance(res, str):
                    pool.terminate()
                    die('a worker failed:\n' + res)
                self.absorb(res)
                if self.nviol >= self.max_viol:
                    print('stopping early after %d violations' % self.nviol, flush=True)
                    break
        finally:
            pool.terminate()
            pool.join()

    def absorb(self, res):
        self.evaluations += res.evals
        self.keys |= res.keys
        for k, v in res.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in res.samples:
            self.sample(s)
        for v in res.viol:
            if self.nviol < self.max_viol:
                self.violation(*v)

    def finish(self):
        wall = time.time() - self.t0
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level,
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule,
                                samples=self.samples or ['none'], events=self.counters, **self.extra),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=self.nviol)
        if self.exhaustive is not None:
            ev['coverage']['exhaustive'] = self.exhaustive
        if self.known_hit:
            ev['coverage']['known_findings'] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
        print('%s: %d evaluations, %d distinct, %d violations, %.1f s, %s' %
              (self.pid, self.evaluations, len(self.keys), self.nviol, wall, json.dumps(self.counters)), flush=True)
        if self.nviol:
            sys.exit(1)
        if self.evaluations < self.min_events:
            die('only %d of at least %d expected events were observed' % (self.evaluations, self.min_events))
        sys.exit(0)


class Res:
    """What one worker call observed."""
    def __init__(self):
        self.evals, self.keys, self.counters, self.samples, self.viol = 0, set(), {}, [], []

    def case(self, key=None, n=1):
        self.evals += n
        if key is not None:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def violation(self, key, desc, files=None, cmd=None):
        if len(self.viol) < 3:
            self.viol.append((key, desc, files, cmd))


class _Guard:
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        try:
            return self.f(x)
        except BaseException:
            return 'item %r\n%s' % (x, traceback.format_exc())


def _worker_init():
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    atexit.unregister(Check._cleanup)


def load_known(pid):
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------- running programs

class Run:
    __slots__ = ('rc', 'out', 'err', 'hang', 'bad', 'cmd', 'wall')

    def ok(self):
        return self.rc == 0


def _limits(cpu, as_mb, fsize, pre):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if as_mb:
            resource.setrlimit(resource.RLIMIT_AS, (as_mb << 20, as_mb << 20))
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if pre:
            pre()
    return f


def run(cmd, inp=b'', stdin=None, cpu=30, wall=None, as_mb=None, fsize=None, cwd=None, env=None, stdout=None,
        pre=None, retry=True):
    """Run a program. bad: what is wrong with the way it ended (crash, sanitizer report, hang), or None."""
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    r = Run()
    r.cmd = cmd
    r.hang = False
    t = time.time()
    wall = wall or max(60, 2 * (cpu or 0))
    if HANGS.value >= 2:         # the verdict is known: do not wait as long for every further one
        cpu, wall, retry = cpu and min(cpu, 10), min(wall, 20), False
    wall = min(wall, max(10, T0 + LIMIT - t))
    p = subprocess.Popen([str(c) if not isinstance(c, bytes) else c for c in cmd],
                         stdin=subprocess.PIPE if stdin is None else stdin,
                         stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE,
                         cwd=cwd, env=e, preexec_fn=_limits(cpu, as_mb, fsize, pre), start_new_session=True)
    try:
        r.out, r.err = p.communicate(inp if stdin is None else None, timeout=wall)
    except subprocess.TimeoutExpired:
        r.hang = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        r.out, r.err = p.communicate()
    r.rc = p.returncode
    r.wall = time.time() - t
    r.out = r.out or b''
    if r.rc in (-signal.SIGXCPU,) or (cpu and r.rc == -signal.SIGKILL and not r.hang and r.wall >= cpu):
        r.hang = True
    if r.hang and retry:
        return run(cmd, inp, stdin, cpu and cpu * 2, wall * 2, as_mb, fsize, cwd, env, stdout, pre, False)
    r.bad = None
    if r.hang:
        HANGS.value += 1
        r.bad = 'does not terminate (%d s of CPU time)' % (cpu or 0)
    else:
        m = SAN_MARK.search(r.err)
        if r.rc < 0:
            r.bad = 'killed by signal %d (%s)' % (-r.rc, signal.Signals(-r.rc).name)
        if m or r.rc in (98, 99):
            s = r.err[max(0, m.start() - 300 if m else 0):][:1200].decode('utf8', 'replace')
            r.bad = (r.bad + ': ' if r.bad else '') + 'instrumentation report: ' + s
    return r


def shq(cmd):
    import shlex
    return ' '.join(shlex.quote(c if isinstance(c, str) else os.fsdecode(c) if isinstance(c, bytes) else str(c))
                    for c in cmd)


def run_harness(ck, name, args, shards, key=None, cpu=600, wall=840, env=None, absorb=True):
    """Run an in-process monitor in `shards` processes. Its stdout protocol, one line each:
       CASE n | KEY text | COUNT name n | SAMPLE text | VIOLATION key | text      (see harness/hk.h)"""
    items = [(name, ck.bin[name], list(args), s, shards, cpu, wall, env) for s in range(shards)]
    ck.map(_harness_shard, items)


def _harness_shard(item):
    name, path, args, s, shards, cpu, wall, env = item
    res = Res()
    d = None
    r = run([path] + [str(a) for a in args] + ['shard=%d' % s, 'shards=%d' % shards, 'seed=%d' % SEED,
                                              'tier=%d' % (1 if THOROUGH else 0)],
            cpu=cpu, wall=wall, env=env, retry=False)
    done = False
    for l in r.out.decode('utf8', 'replace').splitlines():
        w = l.split(' ', 1)
        if w[0] == 'CASE':
            res.evals += int(w[1])
        elif w[0] == 'KEY':
            res.keys.add(w[1])
        elif w[0] == 'COUNT':
            a, b = w[1].rsplit(' ', 1)
            res.count(a, int(b))
        elif w[0] == 'SAMPLE':
            res.sample(w[1])
        elif w[0] == 'VIOLATION':
            k, t = w[1].split(' | ', 1)
            res.violation(k, t, {'stdout.txt': r.out[-20000:], 'stderr.txt': r.err[-20000:]}, shq(r.cmd))
        elif w[0] == 'DONE':
            done = True
    if r.bad:
        last = [l for l in r.out.decode('utf8', 'replace').splitlines() if l.startswith('AT ')][-1:]
        res.violation('%s-abnormal' % name, '%s %s\n%s' % (name, r.bad, ' '.join(last)),
                      {'stdout.txt': r.out[-20000:], 'stderr.txt': r.err[-20000:]}, shq(r.cmd))
    elif not done and not res.viol:
        raise RuntimeError('%s did not finish: rc=%s\n%s\n%s' % (shq(r.cmd), r.rc, r.out[-1000:], r.err[-2000:]))
    return res
