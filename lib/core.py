"""Common machinery of the checks: building the code under test, running sharded drivers, verdicts, evidence."""
import concurrent.futures as cf, hashlib, json, os, re, resource, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ECV_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)
GUARD = 'ECCLAB_VERIF'
PART = float(os.environ.get('ECV_PART', '1'))  # for experiments: part of the cases to run, counts are not required then
TARGET = {'dtrm0': 'dtrm0_bg', 'dtrm1': 'dtrm1_bg', 'glp': 'dtrm_glp_bg', 'polar': 'ca_polar_scl_bg'}
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_odr_violation=0:abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=6000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'LSAN_OPTIONS': 'exitcode=66:print_suppressions=0', 'MSAN_OPTIONS': 'exitcode=66:halt_on_error=1',
}


class Harness(Exception):
    """The check itself could not do its work (exit code 2)."""


class Violation:
    def __init__(self, key, msg, replay=None):
        self.key, self.msg, self.replay = key, msg, replay or {}


class Ctx:
    def __init__(self, pid, seed, tier, replay=None):
        self.pid, self.seed, self.tier, self.replay = pid, seed, tier, replay
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='ecv_%s_' % pid)
        self.violations, self.counts, self.maxima, self.hashes, self.samples = [], {}, {}, set(), []
        self.extra, self._cmds, self.built = {}, None, {}
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.stop = threading.Event()      # A confirmed hang or crash: the remaining work is cut short.
        self.stall = self.scale(100, 600)  # Seconds in one case that count as no progress.

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def dir(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(p, exist_ok=True)
        return p

    def count(self, n, v=1):
        self.counts[n] = self.counts.get(n, 0) + v

    def maxi(self, n, v):
        self.maxima[n] = max(self.maxima.get(n, v), v)

    def nontrivial(self, what):
        self.hashes.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s[:600])

    def violation(self, key, msg, replay=None):
        self.violations.append(Violation(key, msg, replay))

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.scratch, ignore_errors=True)


def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    kw.setdefault('stdin', subprocess.DEVNULL)
    return subprocess.run(cmd, **kw)


def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'LDFLAGS', 'CPPFLAGS', 'MAKEFLAGS', 'LD_PRELOAD')}
    e['LC_ALL'] = 'C.UTF-8'
    e.update(SAN_ENV)
    e.update({k: str(v) for k, v in kw.items()})
    return e


# ----- Building.

def repo_commands(ctx, repo=None):
    """target -> [(source, [flags])] as the project's own build files say."""
    repo = repo or REPO
    d = ctx.dir('cmake_' + hashlib.sha1(repo.encode()).hexdigest()[:6])
    env = clean_env(CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    r = run(['cmake', '-S', repo, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
             '-DCMAKE_C_STANDARD_LIBRARIES=-lm'], env=env)
    if r.returncode:
        raise Harness('cmake failed: ' + r.stdout.decode(errors='replace')[-2000:])
    out = {}
    for e in json.load(open(os.path.join(d, 'compile_commands.json'))):
        a, flags, i, obj = shlex.split(e['command']), [], 1, None
        while i < len(a):
            if a[i] == '-o':
                obj = a[i + 1]; i += 2; continue
            if a[i] in ('-c', e['file']):
                i += 1; continue
            if re.match(r'-(O|g)', a[i]) or a[i] == '-DNDEBUG':
                i += 1; continue
            flags.append(a[i]); i += 1
        t = re.search(r'CMakeFiles/(.*?)\.dir/', obj).group(1)
        out.setdefault(t, []).append((e['file'], flags))
    return out


VARIANTS = {
    'opt': ('gcc', ['-O2', '-g', '-DNDEBUG', '-fPIC'], []),
    'asan': ('gcc', ['-O1', '-g', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D' + GUARD], []),
    'msan': ('clang', ['-O1', '-g', '-fPIE', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all'], []),
    'tsan': ('gcc', ['-O1', '-g', '-fPIC', '-fsanitize=thread'], []),
}


def commands(ctx, repo=None):
    if repo:
        return repo_commands(ctx, repo)
    if ctx._cmds is None:
        ctx._cmds = repo_commands(ctx)
    return ctx._cmds


def sources(ctx, name, repo=None, sim=True):
    c = commands(ctx, repo).get(TARGET[name])
    if not c:
        raise Harness('target %s is not in the build files' % TARGET[name])
    root = repo or REPO
    return [(s, f) for s, f in c if s.endswith('.c') and (sim or not os.path.relpath(s, root).startswith('simulators/'))]


def objects(ctx, name, variant, repo=None, sim=True, extra=(), drop=()):
    """Compile the target's sources; returns object files."""
    cc, cf_, _ = VARIANTS[variant]
    tag = '%s_%s_%s' % (name, variant, hashlib.sha1(repr((repo, sim, tuple(extra))).encode()).hexdigest()[:6])
    jobs, objs = [], []
    for s, f in sources(ctx, name, repo, sim):
        if os.path.basename(s) in drop:
            continue
        o = ctx.path('obj', tag, os.path.relpath(s, repo or REPO).replace('/', '_') + '.o')
        objs.append(o)
        if os.path.exists(o):
            continue
        jobs.append([cc] + f + cf_ + ['-w', '-Dmain=ecclab_main'] + list(extra) + ['-c', s, '-o', o])
    compile_all(ctx, jobs)
    return objs


def compile_all(ctx, jobs):
    def one(j):
        r = run(j, env=clean_env())
        if r.returncode:
            raise Harness('compilation failed: %s\n%s' % (' '.join(j), r.stdout.decode(errors='replace')[-3000:]))
    list(ctx.pool.map(one, jobs))


def shared(ctx, name, variant, out, repo=None, extra=()):
    """Codec (no simulator) as a shared library."""
    cc, cf_, _ = VARIANTS[variant]
    o = objects(ctx, name, variant, repo, sim=False, extra=extra)
    compile_all(ctx, [[cc] + cf_ + ['-shared', '-Wl,-Bsymbolic', '-o', out] + o + ['-lm']])
    return out


def cached_tool(ctx, srcs, cmd_tail, name):
    """Compile a driver of ours (does not depend on the code under test); kept in /verif/build."""
    h = hashlib.sha1()
    for s in sorted(f for f in os.listdir(os.path.join(VERIF, 'drv')) if os.path.isfile(os.path.join(VERIF, 'drv', f))):
        h.update(open(os.path.join(VERIF, 'drv', s), 'rb').read())
    h.update(repr(cmd_tail).encode())
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + '-' + h.hexdigest()[:12])
    if not os.path.exists(p):
        t = '%s.%d.o' % (p, os.getpid()) if '-c' in cmd_tail else '%s.%d' % (p, os.getpid())
        r = run(cmd_tail[:1] + ['-o', t] + [os.path.join(VERIF, 'drv', s) for s in srcs] + cmd_tail[1:], env=clean_env())
        if r.returncode:
            raise Harness('driver compilation failed: ' + r.stdout.decode(errors='replace')[-3000:])
        os.replace(t, p)
    return p


def drv_tool(ctx, san):
    if san:
        return cached_tool(ctx, ['drv.cpp'], ['g++', '-O1', '-g', '-std=c++17', '-w', '-fsanitize=address', '-ldl'], 'drv.asan')
    return cached_tool(ctx, ['drv.cpp'], ['g++', '-O2', '-std=c++17', '-w', '-ldl'], 'drv.opt')


# ----- Sharded driver runs.

def tail(p, n=2500):
    try:
        with open(p, 'rb') as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - 400000))
            s = f.read().decode(errors='replace')
    except OSError:
        return ''
    m = re.search(r'(ERROR: \w+Sanitizer|runtime error|WARNING: \w+Sanitizer|HARNESS)', s)
    return s[max(0, m.start() - 200):m.start() + n] if m else s[-n:]


def summarize(err):
    m = re.search(r'(SUMMARY: .*|[^\n]*runtime error: .*)', err)
    return m.group(1).strip() if m else err.strip().split('\n')[-1][-300:]


def cur_case(cp, beat=False):
    try:
        b = open(cp, 'rb').read(16)
        return b if beat else int.from_bytes(b[:8], 'little')
    except OSError:
        return None


def wait_progress(ctx, p, cp, timeout, stop):
    """The exit code, None when the time is up or the case number stands still, 'stop' when the check is being cut short."""
    t0 = moved = time.time()
    last, pause = None, 0.02
    while True:
        try:
            return p.wait(pause)
        except subprocess.TimeoutExpired:
            pass
        pause = min(pause * 1.5, 0.5)
        now, c = time.time(), cur_case(cp, True)
        if c != last:
            last, moved = c, now
        if stop and ctx.stop.is_set():
            return 'stop'
        if now - t0 > timeout or now - moved > ctx.stall:
            return None


def drv_shard(ctx, argv0, lo, hi, tag, timeout, limit_as, stop=True):
    rp, cp, op, ep = (ctx.path('sh', tag + s) for s in ('.rep', '.cur', '.out', '.err'))
    for p in (rp, cp):
        if os.path.exists(p):
            os.unlink(p)

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    with open(op, 'wb') as o, open(ep, 'wb') as e:
        p = subprocess.Popen(argv0 + [str(lo), str(hi), rp, cp, ctx.tier], stdout=o, stderr=e, stdin=subprocess.DEVNULL,
                             env=clean_env(), preexec_fn=pre, cwd=ctx.dir('cwd_' + tag))
        rc = wait_progress(ctx, p, cp, timeout, stop)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    cur = cur_case(cp)
    rep = {'V': [], 'C': {}, 'M': {}, 'H': [], 'S': [], 'E': False}
    try:
        for l in open(rp, errors='replace'):
            f = l.rstrip('\n').split('\t')
            if f[0] == 'V':
                rep['V'].append((int(f[1]), f[2], '\t'.join(f[3:])))
            elif f[0] in 'CM' and len(f) == 3:
                rep[f[0]][f[1]] = int(f[2])
            elif f[0] == 'H':
                rep['H'].append(f[1])
            elif f[0] == 'S':
                rep['S'].append(f[1])
            elif f[0] == 'E':
                rep['E'] = True
    except OSError:
        pass
    return rc, cur, rep, tail(ep), tail(op, 300)


def drv_run(ctx, tool, check, libdir, ncases, first=0, timeout=400, limit_as=None, shards=None, seed=None):
    """Run cases [first, first + ncases) in parallel processes and merge their reports."""
    argv0 = [tool, check, libdir, str(ctx.seed if seed is None else seed)]
    if PART < 1:
        ncases = max(1, int(ncases * PART))
    if ctx.replay and ctx.replay.get('case') is not None:
        rng = [(ctx.replay['case'], ctx.replay.get('last', ctx.replay['case']) + 1)]
    else:
        k = min(shards or NCPU * 3, ncases)
        b = [first + ncases * i // k for i in range(k + 1)]
        rng = [(b[i], b[i + 1]) for i in range(k)]

    def one(a):
        lo, hi = a
        tag = '%s_%d' % (check, lo)
        if ctx.stop.is_set():
            return None, []
        r = drv_shard(ctx, argv0, lo, hi, tag, timeout, limit_as)
        rc, cur, rep, err, out = r
        rep['err'] = err
        if rc == 0 and rep['E'] or rep['V']:
            return rep, []
        if rc == 'stop':
            return rep, []
        if rc in (97, 98):
            raise Harness('driver: ' + err)
        if cur is None:
            raise Harness('driver did not start: rc=%s %s' % (rc, err))
        key = 'hang' if rc is None else 'crash'
        # Confirm with the one case, then with the whole range.
        r1 = drv_shard(ctx, argv0, cur, cur + 1, tag + '_c', ctx.stall, limit_as, stop=False)
        if r1[2]['V']:
            return r1[2], []
        if (r1[0] is None) if key == 'hang' else (r1[0] not in (0, 97, 98)):
            k2 = 'hang' if r1[0] is None else 'crash'
            ctx.stop.set()
            return rep, [Violation(k2, 'case %d: %s' % (cur, 'no termination' if k2 == 'hang' else 'rc=%s %s' % (r1[0], summarize(r1[3]))), {'case': cur, 'stderr': r1[3]})]
        r2 = drv_shard(ctx, argv0, lo, hi, tag + '_r', max(60, min(timeout * 2, ctx.scale(800, 10 ** 6) - (time.time() - ctx.t0))), limit_as)
        if r2[0] == 'stop':
            return rep, []
        if r2[0] == 0 and r2[2]['E'] or r2[2]['V']:
            return r2[2], []
        if r2[0] is None or key == 'hang':
            raise Harness('no answer in time (cases %d..%d)' % (lo, hi))
        return rep, [Violation('crash', 'cases %d..%d: rc=%s %s' % (lo, r2[1], r2[0], summarize(r2[3])), {'case': lo, 'last': r2[1], 'stderr': r2[3]})]

    harness = None
    for f in [ctx.pool.submit(one, a) for a in rng]:
        try:
            rep, vs = f.result()
        except Harness as e:
            harness = e
            continue
        if rep is None:
            continue
        for n, v in rep['C'].items():
            ctx.count(n, v)
        for n, v in rep['M'].items():
            ctx.maxi(n, v)
        ctx.hashes.update(check + h for h in rep['H'])
        for s in rep['S']:
            ctx.sample(s)
        for idx, key, msg in rep['V']:
            ctx.violation(key, 'case %d: %s' % (idx, msg), {'case': idx, 'last': idx} if key != 'leak' else {'case': rng[0][0], 'last': idx, 'stderr': rep.get('err', '')})
        ctx.violations += vs
    if harness and not ctx.violations:
        raise harness


# ----- Verdict.

def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)', l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def finish(ctx, spec, error=None):
    """spec: dict(level, rule, evaluations (counter name or number), need {counter: min}, assumptions). Returns the exit code."""
    known, new = {}, []
    kf = [k for k in known_findings() if k[0] == ctx.pid]
    for v in ctx.violations:
        for k in kf:
            if k[1] == v.key and re.search(k[2], v.msg):
                known[k[3]] = 1
                break
        else:
            new.append(v)
    ev = spec.get('evaluations', 'cases')
    cov = {'evaluations': ctx.counts.get(ev, 0) if isinstance(ev, str) else ev, 'distinct_nontrivial': len(ctx.hashes), 'rule': spec['rule'],
           'samples': ctx.samples or ['(none)'], 'observed': dict(sorted(ctx.counts.items()))}
    if ctx.maxima:
        cov['maxima'] = ctx.maxima
    cov.update(ctx.extra)
    missing = {n: (ctx.counts.get(n, 0), m) for n, m in spec.get('need', {}).items() if PART >= 1 and ctx.counts.get(n, 0) < m}
    e = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': spec.get('level', 'exploration'), 'coverage': cov,
         'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
    if error:
        cov['error'] = str(error)[:2000]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not ctx.replay:
        p = os.path.join(VERIF, 'evidence', ctx.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(e, f, indent=1)
        os.replace(p + '.tmp', p)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k))
    if new:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        v = new[0]
        rp = os.path.join(d, '%s-%s-%d.json' % (ctx.pid, ctx.tier, ctx.seed))
        r = dict(property=ctx.pid, seed=ctx.seed, tier=ctx.tier, key=v.key, msg=v.msg)
        r.update(v.replay)
        with open(rp, 'w') as f:
            json.dump(r, f, indent=1)
        for v in new[:3]:
            print('  [%s] %s' % (v.key, v.msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    if error:
        print('%s: no answer: %s' % (ctx.pid, error))
        return 2
    if missing and not ctx.replay:
        print('%s: inconclusive, too little observed: %s' % (ctx.pid, missing))
        return 2
    print('%s: held; %d evaluations, %d distinct non-trivial cases, %.1f s' % (ctx.pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - ctx.t0))
    return 0
