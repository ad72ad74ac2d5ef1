"""C31, C32, C35: the real programs: theory, progress and saving in long runs, builds."""
import hashlib, math, os, random, re, shutil, subprocess, time
import cli, core


# ----- C32.

def clocked(ctx, name):
    out = ctx.path('prog', core.TARGET[name] + '_clk')
    o = core.objects(ctx, name, 'opt', extra=('-Umain',))
    w = ctx.path('prog', 'clockwrap_%s.o' % name)
    core.compile_all(ctx, [['gcc', '-O1', '-w', '-c', os.path.join(core.VERIF, 'drv', 'clockwrap.c'), '-o', w]])
    core.compile_all(ctx, [['gcc', '-o', out] + o + [w, '-lm'] + ['-Wl,--wrap=' + f for f in ('dec_bpsk', 'time', 'clock_gettime', 'gettimeofday')]])
    return out


def clock_case(ctx, exes, seed):
    R = random.Random(seed)
    name = R.choice(list(exes))
    d, c = cli.new_work(ctx, R), cli.Conf(R, name)
    c.p = [x for x in c.p if x[0] not in ('SNR_val_trn', 'EbNo_values', 'min_trials_per_snr', 'min_errors_per_snr', 'res_file', 'list_size', 'border_node_lsize')]
    L = {'glp': [('border_node_lsize', '2')], 'polar': [('list_size', '2')]}.get(name, [])
    nt = R.choice([5, 50, 400, 1500])
    c.snr = ['%d' % v for v in R.sample(range(-9, -2), R.randint(1, 4))]
    c.trn, c.min_trn, c.min_en, c.res = [R.randint(1, nt) for _ in c.snr], 1, 1, R.choice(['r.srf', './x.srf', 'results/y'])
    c.p += L + [('SNR_val_trn', '{ %s }' % ' '.join('%s %d' % x for x in zip(c.snr, c.trn))), ('res_file', c.res)]
    open(os.path.join(d, 'p.spf'), 'w').write(c.text())
    # Options; the last value counts.
    ri, si, o = 10, 600, []
    if R.random() < 0.8:
        ri = R.choice([-1, 0, 1, 2, 5, 10, 30, 100, 1000])
        o.append(['-ri', str(ri)])
    if R.random() < 0.8:
        si = R.choice([-1, 0, 1, 5, 7, 30, 60, 300, 600, 3600, 1000000])
        o.append(['-si', str(si)])
    if R.random() < 0.5:
        o.append(['-nr'])
    R.shuffle(o)
    if R.random() < 0.3:
        for q in list(o):
            if q[0] != '-nr':
                o.insert(0, [q[0], R.choice(['0', '3', '100000'])])
    o = [x for q in o for x in q]
    # Durations of decodings, from instantaneous to longer than the intervals.
    base = max(1, R.choice([1, 1, 3, ri, si if si < 10000 else 600]))
    lo, hi = R.choice([(0, 0), (0, 1), (0, 2), (1, 1), (0, max(1, base // 4)), (base, base + 1), (0, base * 2)])
    big = R.choice([0, 0, base * 3 + 2, 5000])
    frac = int(R.random() < 0.3)
    log, out = os.path.join(d, 'log'), os.path.join(d, 'out')
    env = core.clean_env(CLK='%d %d %d %d %d %d %s %s' % (seed, lo, hi, big, frac, R.randint(0, 999) if frac else 0, log, os.path.join(d, c.res)))
    # Saving is impossible for some time.
    tot, off = sum(c.trn), None
    if c.res == 'results/y' and tot > 3 and R.random() < 0.7:
        a = R.randint(0, tot - 2)
        off = (a, min(tot - 1, a + 1 + int(R.random() ** 2 * (tot - a))))
        env['CLK_AWAY'] = '%d %d %s' % (off + (os.path.join(d, 'results'),))
    what = 'seed %d, %s, options %s, decodings of %d..%d s, at times %d s: %s' % (seed, name, ' '.join(o), lo, hi, big, c.text().replace('\n', '; '))
    ctx.count('cases')
    with open(out, 'wb') as f:
        p = subprocess.Popen([exes[name], 'p.spf'] + o, cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        try:
            rc = p.wait(120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            ctx.stop.set()
            return ctx.violation('hang', what + ': does not complete')
    txt = open(out, 'rb').read().decode('latin-1')
    if rc != 0:
        return ctx.violation('status', '%s: exit status %s: %s' % (what, rc, txt[-500:]))
    ev = [l.split() for l in open(log)]
    D = [(int(a[1]), int(a[2]) / 1000.0, int(a[3]), int(a[4]), int(a[5]), int(a[6])) for a in ev if a[0] == 'D']
    if not D or len([a for a in ev if a[0] == 'E']) != 1:
        raise core.Harness('no log of ' + what)
    total = int(ev[-1][1])
    tol = 1.0 if frac else 0.0
    T0 = D[0][1]
    failed = 0
    can = -1e18  # Saving has been possible since then.
    status = save = T0
    unsaved = 0  # The number of decodings at the last save.
    for j in range(1, len(D)):
        n, t, sz, ch, tr, ok = D[j]
        shown, es, ev_ = sz > D[j - 1][2], t - status, t - save
        if off and off[0] < n <= off[1]:  # The results file of after trial n has been missing.
            can = t
            failed += shown and ev_ > si - tol
            if shown and ev_ > si + tol:
                ctx.count('status updates while saving is impossible')
        at = '%s: after trial %d, %g s' % (what, n, t - T0)
        ctx.count('trials observed')
        if shown and es < ri - tol:
            return ctx.violation('status-early', '%s: output %g s after the last status' % (at, es))
        if not shown and es > ri + tol:
            return ctx.violation('status-late', '%s: no status shown, the last one was %g s ago' % (at, es))
        if ch and not ok:
            return ctx.violation('file', '%s: results file is not complete' % at)
        if ch and not shown:
            return ctx.violation('save-alone', '%s: saved without a return of the simulation' % at)
        if ch and ev_ < si - tol:
            return ctx.violation('save-early', '%s: saved %g s after the last save' % (at, ev_))
        if not ch and shown and can != t and t - max(save, can) > si + tol:
            return ctx.violation('save-late', '%s: status shown, but the results of the last %g s are not saved' % (at, ev_))
        if ch and tr != n:
            return ctx.violation('saved', '%s: %d trials are in the results file' % (at, tr))
        if shown:
            ctx.count('status updates')
            status = t
            line = txt[D[j - 1][2]:sz]
            if '\r' not in line or 'SNR' not in line:
                return ctx.violation('status', '%s: output is not a status: %r' % (at, line))
            e = bad_status(line, c.snr, n)
            if e:
                return ctx.violation('status', '%s: %s: %r' % (at, e, line))
        if ch:
            ctx.count('intermediate saves')
            save, unsaved = t, n
        # What a crash now would lose.
        ctx.maxi('unsaved trials', n - unsaved)
    if int(ev[-1][4]) != 1 or int(ev[-1][5]) != total:
        return ctx.violation('final', '%s: at the end %s of %d trials are saved' % (what, ev[-1][5], total))
    if 'Simulation is over' not in txt[D[-1][2]:]:
        return ctx.violation('final', '%s: the end is not reported: %r' % (what, txt[-300:]))
    if failed:  # Failures to save may be reported.
        txt = re.sub(r'(?m)^Error:.*$', '', txt)
    run = type('X', (), dict(timeout=False, crashed=lambda s: False, rc=rc, out=txt, tell=lambda s: txt[-300:]))()
    cli.judge(ctx, c, run, d, what)
    if D[-1][1] - T0 > max(ri, 1) * 2:
        ctx.nontrivial((what,))
    if ri == 10 and '-ri' not in o and si == 600 and '-si' not in o and D[-1][1] - T0 > 1300:
        ctx.count('runs longer than both default intervals')
    if seed % 100 == 0:
        ctx.sample(what)
    shutil.rmtree(d, ignore_errors=True)


STATUS = re.compile(r'\r ?SNR: (-?\d+\.\d\d) \((\d+) / (\d+)\), trn: (\d+) / (\d+), en: (\d+)(?:, ML en: (\d+))?\. *(?:\n|\r|$)')


def bad_status(line, snr, n=None):
    """What is wrong with a status shown after n trials."""
    m = STATUS.search(line)
    if not m:
        return 'incomplete status'
    i, t = int(m[2]), int(m[4])
    if not 1 <= i <= len(snr) or int(m[3]) != len(snr) or abs(float(m[1]) - float(snr[i - 1])) > 0.00501:
        return 'wrong SNR value or number'
    if n is not None and (t > n if i > 1 else t != n):
        return 'wrong number of trials'
    if int(m[6]) > t or int(m[7] or 0) > t:
        return 'more errors than trials'


def long_status_case(ctx, exes, seed):
    """Statuses of the greatest length, which need many trials; by the real clock."""
    R = random.Random(seed)
    name = R.choice(['dtrm0', 'dtrm1'])
    d = cli.new_work(ctx, R)
    snr = ['%.2f' % -(250.99 + i) for i in range(50)]
    snr[-1] = '-299.99'
    open(os.path.join(d, 'p.spf'), 'w').write('RM_m 1 RM_r 1 res_file r.srf ml_lb on random_codeword on SNR_val_trn { %s }\n' % ' '.join('%s %d' % (v, 1 if v != snr[-1] else 2000000000) for v in snr))
    out = os.path.join(d, 'out')
    ctx.count('cases')
    with open(out, 'wb') as f:
        p = subprocess.Popen([exes[name], 'p.spf', '-ri', '0'], cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=core.clean_env(), start_new_session=True)
    try:
        end = time.time() + 60
        while time.time() < end and p.poll() is None:
            time.sleep(0.3)
            t = re.findall(r'trn: (\d+) / 2000000000', open(out, 'rb').read().decode('latin-1'))
            if len(t) > 2 and int(t[-2]) > 1500000:
                break
    finally:
        rc = p.poll()
        p.kill()
        p.wait()
    txt = open(out, 'rb').read().decode('latin-1')
    what = '%s with 50 SNR values, options -ri 0' % name
    if rc is not None:
        return ctx.violation('status', '%s: ended with status %s: %s' % (what, rc, txt[-500:]))
    q = ['\r' + x for x in txt.split('\r')[1:]]
    for i, line in enumerate(q[:-1]):
        e = bad_status(line, snr)
        if e:
            return ctx.violation('status', '%s: %s: %r' % (what, e, line))
        ctx.count('statuses of long runs')
        ctx.maxi('length of status', len(line.strip()))
    ctx.nontrivial((what, seed))
    shutil.rmtree(d, ignore_errors=True)


def check_clock(ctx):
    core.commands(ctx)
    for n in core.TARGET:
        core.objects(ctx, n, 'opt', extra=('-Umain',))
    exes = {n: clocked(ctx, n) for n in core.TARGET}
    real = {n: cli.executable(ctx, n, 'opt') for n in core.TARGET}
    cli.run_jobs(ctx, [('l%d' % i, long_status_case, (real, ctx.seed * 10 ** 7 + 9 * 10 ** 6 + i)) for i in range(1)] + [('c%d' % i, clock_case, (exes, ctx.seed * 10 ** 7 + i)) for i in range(ctx.scale(1200, 20000))])


# ----- C31.

def Q(x):
    return 0.5 * math.erfc(x / math.sqrt(2))


def phi(x):
    return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)


def simpson(f, a, b, n=4000):
    h = (b - a) / n
    return h / 3 * (f(a) + f(b) + 4 * sum(f(a + h * i) for i in range(1, n, 2)) + 2 * sum(f(a + h * i) for i in range(2, n, 2)))


def uncoded(m, sg):
    """(WER, mean and mean square of the number of information bit errors) of hard decisions of all symbols."""
    n, p = 2 ** m, Q(1 / sg)
    w, m1, m2 = [p ** i * (1 - p) ** (n - i) for i in range(n + 1)], 0.0, 0.0
    for e in range(1, 2 ** n):
        x, s = e, 1
        while s < n:  # The transform of (u + v, u) is its own inverse, up to the order of symbols.
            mask = sum(((1 << s) - 1) << i for i in range(0, n, 2 * s))
            x ^= (x >> s) & mask
            s *= 2
        c, q = bin(x).count('1'), w[bin(e).count('1')]
        m1 += q * c
        m2 += q * c * c
    return 1 - (1 - p) ** n, m1, m2


def single(n, w, sg):
    q = Q(math.sqrt(w) / sg)
    return q, q, q


def biorthogonal(m, sg):
    n = 2 ** m
    a = math.sqrt(n) / sg
    g = lambda t: (1 - 2 * Q(t)) ** (n - 1)
    pc = simpson(lambda t: g(t) * phi(t - a), 0, a + 12)
    pa = simpson(lambda t: g(t) * phi(t + a), 0, 12)
    po = max(0.0, (1 - pc - pa) / (2 * (n - 1)))  # Each of the other words.
    m1, m2 = pa, pa
    for f in range(1, n):
        for c in (0, 1):
            k = bin(f).count('1') + c
            m1 += po * k
            m2 += po * k * k
    return 1 - pc, m1, m2


def parity(m, sg):
    n, p = 2 ** m, Q(1 / sg)
    pc = (1 - p) ** n + n * simpson(lambda a: phi((a + 1) / sg) / sg * Q((a - 1) / sg) ** (n - 1), 0, 1 + 12 * sg)
    return 1 - pc, None, None


def rm_mask(m, r):
    return ''.join('01'[bin(i).count('1') >= m - r] for i in range(2 ** m))


def theory_conf(R):
    """name, parameters, n, k, function of sigma, maximum likelihood?, list size (for the speed)."""
    kind = R.choice(['uncoded', 'single', 'single', 'first', 'first', 'parity'])
    if kind == 'uncoded':
        m, name = R.randint(1, 3 if R.random() < 0.8 else 4), R.choice(['dtrm0', 'dtrm1', 'glp', 'polar'])
        L = R.choice([1, 2, 4])
        p = {'glp': [('border_node_mask', '1'), ('border_node_lsize', L)], 'polar': [('c_m', m), ('info_bits_mask', '1' * 2 ** m), ('list_size', L)]}.get(name, [])
        return kind, name, (p if name == 'polar' else [('RM_m', m), ('RM_r', m)] + p), 2 ** m, 2 ** m, lambda s: uncoded(m, s), True, L
    if kind == 'single':
        name = R.choice(['glp', 'polar'])
        if name == 'polar':
            m = R.randint(1, 6)
            i = R.choice([2 ** m - 1, R.randrange(2 ** m)])
            L, w = 2, 2 ** bin(i).count('1')
            # Information symbol i of the transform: its word has 2^(number of ones in i) ones.
            return kind, name, [('c_m', m), ('info_bits_mask', '0' * i + '1' + '0' * (2 ** m - 1 - i)), ('list_size', L)], 2 ** m, 1, lambda s: single(2 ** m, w, s), True, L
        m = R.randint(2, 6)
        r = R.randint(1, m - 1)
        nodes = []
        def walk(a, b):
            if b == 0 or a == b:
                nodes.append((a, b))
            else:
                walk(a - 1, b - 1)
                walk(a - 1, b)
        walk(m, r)
        i = R.choice([j for j, q in enumerate(nodes) if q[1] == 0])
        # The word of a (0, a) node has 2^a ones in its block, repeated by every u step.
        path = []
        def steps(a, b, u):
            if b == 0 or a == b:
                path.append(u)
            else:
                steps(a - 1, b - 1, u)
                steps(a - 1, b, u + 1)
        steps(m, r, 0)
        w = 2 ** (nodes[i][0] + path[i])
        return kind, name, [('RM_m', m), ('RM_r', r), ('border_node_mask', ''.join('01'[j == i] for j in range(len(nodes)))), ('border_node_lsize', 2)], 2 ** m, 1, lambda s: single(2 ** m, w, s), True, 2
    if kind == 'first':
        name = R.choice(['dtrm1', 'dtrm1', 'glp', 'polar'])
        m = R.randint(2, 6 if name == 'dtrm1' else 4)
        L = 2 ** (m + 1)
        p = {'dtrm1': [('RM_m', m), ('RM_r', 1)], 'glp': [('RM_m', m), ('RM_r', 1), ('border_node_mask', '1' * m), ('border_node_lsize', L)],
             'polar': [('c_m', m), ('info_bits_mask', rm_mask(m, 1)), ('list_size', L)]}[name]
        return kind, name, p, 2 ** m, m + 1, lambda s: biorthogonal(m, s), True, 1 if name == 'dtrm1' else L
    name, m = R.choice(['glp', 'polar']), R.choice([2, 2, 3])
    L = 2 ** (2 ** m - 1)
    p = {'glp': [('RM_m', m), ('RM_r', m - 1), ('border_node_mask', '1' * m), ('border_node_lsize', L)], 'polar': [('c_m', m), ('info_bits_mask', rm_mask(m, m - 1)), ('list_size', L)]}[name]
    return kind, name, p, 2 ** m, 2 ** m - 1, lambda s: parity(m, s), True, L


def theory_case(ctx, exes, seed):
    R = random.Random(seed)
    kind, name, par, n, k, f, ml, L = theory_conf(R)
    rate, p = k / n, list(par)
    if R.random() < 0.25:
        rate = R.choice([0.5, 1, 0.25, 0.9])
        p.append(('fixed_R', rate))
    sg_of = lambda db: 1 / math.sqrt(2 * rate * 10 ** (db / 10))
    want, cand = [], [round(R.uniform(-12, 9), R.randint(0, 2)) for _ in range(400)]
    for db in cand:
        if len(want) == 3:
            break
        t = f(sg_of(db))
        if 0.004 < t[0] < 0.9 and '%.2f' % db not in ['%.2f' % q[0] for q in want]:
            want.append((db, t))
    want.sort(key=lambda q: R.random())
    trn = max(4000, min(150000, ctx.scale(1, 10) * 16000000 // (n * 3 + n * L)))
    d = cli.new_work(ctx, R)
    rnd = R.random() < 0.6
    p += [('EbNo_values', '{ %s }' % ' '.join('%g' % q[0] for q in want)), ('min_trials_per_snr', trn), ('res_file', 'r.srf'), ('random_codeword', 'on' if rnd else 'off'), ('ml_lb', 'on')]
    text = '\n'.join('%s %s' % q for q in p) + '\n'
    open(os.path.join(d, 'p.spf'), 'w').write(text)
    r = cli.Run(ctx, exes[name], ['p.spf', '-nr'], d, timeout=400)
    what = 'seed %d, %s, %s: %s' % (seed, kind, name, text.replace('\n', '; '))
    ctx.count('cases')
    if r.rc != 0 or r.timeout:
        return ctx.violation('status', '%s: %s' % (what, r.tell()))
    q = cli.parse_srf(open(os.path.join(d, 'r.srf')).read())
    at = {float(v): i for i, v in enumerate(q['SNR'])}
    for db, (wer, b1, b2) in want:
        i = at.get(db)
        if i is None:
            return ctx.violation('file', '%s: no results at %g dB' % (what, db))
        g = lambda x: int(float(q[x][i]))
        N = g('tr_num')
        z = (g('en_bl') - N * wer) / math.sqrt(N * wer * (1 - wer))
        ctx.count('trials', N)
        ctx.count('error rates compared')
        ctx.count('error rates compared: ' + kind + ', ' + name)
        ctx.maxi('largest deviation, hundredths of a standard deviation', int(abs(z) * 100))
        ctx.nontrivial((text, db))
        if abs(z) > 6.5:
            return ctx.violation('wer', '%s: at %g dB (sigma %g) %d of %d words in error, rate %g, theory %g (%.1f standard deviations)' % (what, db, sg_of(db), g('en_bl'), N, g('en_bl') / N, wer, z))
        if b1 is not None:
            z = (g('en_bit') - N * b1) / math.sqrt(N * (b2 - b1 * b1))
            ctx.count('error rates compared')
            ctx.maxi('largest deviation, hundredths of a standard deviation', int(abs(z) * 100))
            if abs(z) > 6.5:
                return ctx.violation('ber', '%s: at %g dB (sigma %g) %d bit errors in %d words of %d bits, rate %g, theory %g (%.1f standard deviations)' % (what, db, sg_of(db), g('en_bit'), N, k, g('en_bit') / N / k, b1 / k, z))
        if g('erasures_num') or g('ml_tr_num') != N:
            return ctx.violation('ml', '%s: at %g dB %d erasures, %d trials of the bound, %d trials' % (what, db, g('erasures_num'), g('ml_tr_num'), N))
        ctx.count('bounds of ML decoders compared')
        ctx.maxi('errors of ML decoders not counted in the bound', g('en_bl') - g('enml_bl'))
        if not g('en_bl') * 0.998 - 3 <= g('enml_bl') <= g('en_bl'):
            return ctx.violation('ml', '%s: at %g dB the decoder is an ML decoder and has %d errors, the bound has %d' % (what, db, g('en_bl'), g('enml_bl')))
    if seed % 20 == 0:
        ctx.sample(what)
    shutil.rmtree(d, ignore_errors=True)


def check_theory(ctx):
    core.commands(ctx)
    for n in core.TARGET:
        core.objects(ctx, n, 'opt', extra=('-Umain',))
    exes = {n: cli.executable(ctx, n, 'opt') for n in core.TARGET}
    cli.run_jobs(ctx, [('t%d' % i, theory_case, (exes, ctx.seed * 10 ** 7 + i)) for i in range(ctx.scale(150, 2000))])


# ----- C35.

LIBM = r"undefined reference to .(?:a?(?:log|log1p|log2|log10|exp|expm1|exp2|sqrt|cbrt|tanh|sinh|cosh|sin|cos|tan|atan2?|fabs|pow|fmod|floor|ceil|round|lround|rint|lrint|trunc|hypot|erfc?|fmin|fmax|ldexp|frexp|copysign)f?)'"
COMPILERS = [('gcc -O0', 'gcc', ['-O0']), ('gcc -O1, locals preset with a pattern', 'gcc', ['-O1', '-ftrivial-auto-var-init=pattern']), ('gcc -O2 -DNDEBUG', 'gcc', ['-O2', '-DNDEBUG']),
             ('gcc -Os, unsigned char', 'gcc', ['-Os', '-funsigned-char']), ('clang -O0', 'clang', ['-O0', '-ffp-contract=off']), ('clang -O2, locals preset with zeros', 'clang', ['-O2', '-ffp-contract=off', '-ftrivial-auto-var-init=zero']),
             ('clang -O3 -DNDEBUG', 'clang', ['-O3', '-DNDEBUG', '-ffp-contract=off'])]


def documented(ctx):
    """Builds as the README says; {how: {name: program}}."""
    out = {}

    def tree(nm):
        d = ctx.path('tree', nm)
        shutil.copytree(core.REPO, d, symlinks=True, ignore=lambda p, f: [x for x in f if os.path.join(p, x) in (os.path.join(core.REPO, '_build'), os.path.join(core.REPO, '.git')) or x.endswith('_bg')])
        return d

    def built(nm, cmds, cmds_libm):
        d = tree(nm)
        env = core.clean_env()
        for e in ('CC', 'CXX'):
            env.pop(e, None)
        for q in (cmds, cmds_libm):
            txt, ok = '', True
            for c, sub in q:
                os.makedirs(os.path.join(d, sub), exist_ok=True)
                r = core.run(c, cwd=os.path.join(d, sub), env=env)
                txt += r.stdout.decode(errors='replace')
                if r.returncode:
                    ok = False
                    break
            if ok:
                break
            bad = [l for l in txt.split('\n') if re.search(r'error:|undefined reference|fatal', l)]
            libm = bad and all(re.search(LIBM, l) or re.search(r'(ld returned 1|linker command failed)', l) for l in bad)
            if q is cmds and libm:
                ctx.violation('libm', '%s: documented build fails, the mathematical library is not linked: %s' % (nm, bad[0][-200:]), {'job': 'build'})
                shutil.rmtree(d)
                d = tree(nm)
                continue
            ctx.violation('build', '%s: documented build fails: %s' % (nm, txt[-1500:]), {'job': 'build'})
            return
        p = {n: os.path.join(d, 'work', core.TARGET[n]) for n in core.TARGET}
        for n, x in p.items():
            if not os.access(x, os.X_OK):
                return ctx.violation('build', '%s: no program %s' % (nm, os.path.basename(x)), {'job': 'build'})
        ctx.count('documented builds')
        out[nm] = p

    cm = lambda *a: [(['cmake', '-DCMAKE_BUILD_TYPE=Release', *a, '..'], 'build'), (['cmake', '--build', '.', '--target', 'install', '--config', 'Release'], 'build')]
    fs = [ctx.pool.submit(built, 'make', [(['make'], '.')], [(['make', 'CC=gcc -O3 -Wl,--no-as-needed -lm'], '.')]),
          ctx.pool.submit(built, 'cmake', cm(), cm('-DCMAKE_C_STANDARD_LIBRARIES=-lm'))]
    for f in fs:
        f.result()
    return out


def compiled(ctx, label, cc, flags):
    res = {}
    tag = hashlib.sha1(label.encode()).hexdigest()[:6]
    jobs, link = [], []
    for n in core.TARGET:
        objs = []
        for s, f in core.sources(ctx, n):
            o = ctx.path('obj', tag, n, os.path.relpath(s, core.REPO).replace('/', '_') + '.o')
            objs.append(o)
            jobs.append([cc] + f + flags + ['-w', '-c', s, '-o', o])
        res[n] = ctx.path('prog', tag, core.TARGET[n])
        link.append([cc, '-o', res[n]] + objs + ['-lm'])
    core.compile_all(ctx, jobs)
    core.compile_all(ctx, link)
    return res


def build_case(ctx, builds, seed, example=None):
    R = random.Random('%s %s' % (seed, example))
    if example:
        name = cli.program_of(example)
        text = open(os.path.join(core.REPO, 'work', example)).read()
        n, k = cli.code_of(text, os.path.join(core.REPO, 'work'), name)
        c = cli.Shipped(text, R, n, k)
        t = re.sub(r'(min_trials_per_snr\s+)\d+', r'\g<1>20', c.txt)
    else:
        name = R.choice(list(core.TARGET))
        c = cli.Conf(R, name)
        c.p = [x for x in c.p if x[0] not in ('min_trials_per_snr', 'SNR_val_trn', 'EbNo_values')]
        snr = ['%.1f' % v for v in R.sample([x / 10 for x in range(-60, 40)], R.randint(1, 4))]
        c.p += [('min_trials_per_snr', str(R.choice([50, 300, 1500]))), ('EbNo_values', '{ %s }' % ' '.join(snr))]
        R.shuffle(c.p)
        c.p.sort(key=lambda x: x[0] == 'permutations')
        t = c.text()
    seen, opts = {}, ['-nr'] + R.choice([[], ['-si', '1000'], ['-ri', '5000']])
    big = ['-ri', '100000']
    for label, ex in builds.items():
        d = cli.new_work(ctx, R)
        if example:
            shutil.rmtree(d)
            shutil.copytree(os.path.join(core.REPO, 'work'), d, ignore=lambda p, f: [x for x in f if x.endswith('_bg')])
        open(os.path.join(d, 'p.spf'), 'w').write(t)
        for it in range(2 if not example else 1):
            r = cli.Run(ctx, ex[name], ['p.spf'] + opts + big, d)
            fn = os.path.join(d, c.res)
            f = open(fn, 'rb').read() if os.path.exists(fn) else None
            ctx.count('runs')
            res = (r.rc, r.out, f)
            what = 'seed %s, %s, run %d: %s' % (seed, example or name, it + 1, t.replace('\n', '; ')[:1500])
            if r.timeout or r.rc != 0 or f is None:
                return ctx.violation('status', '%s: built by %s: %s' % (what, label, r.tell()))
            if it not in seen:
                seen[it] = (label, res)
            elif seen[it][1] != res:
                a = seen[it]
                return ctx.violation('differ', '%s: %s and %s give different %s: %r and %r' % (what, a[0], label, 'results files' if a[1][2] != f else 'output', (a[1][2] if a[1][2] != f else a[1][1])[-900:], (f if a[1][2] != f else r.out)[-900:]))
            else:
                ctx.count('runs compared')
        shutil.rmtree(d, ignore_errors=True)
    ctx.count('cases')
    ctx.nontrivial((name, t))
    if not example and seed % 40 == 0:
        ctx.sample(t.replace('\n', '; '))


def check_builds(ctx):
    core.commands(ctx)
    builds = documented(ctx)
    for label, cc, flags in COMPILERS:
        builds[label] = compiled(ctx, label, cc, flags)
        ctx.count('builds')
    todo = [('x ' + f, build_case, (builds, ctx.seed, f)) for f in sorted(os.listdir(os.path.join(core.REPO, 'work'))) if f.endswith('.spf')]
    todo += [('r%d' % i, build_case, (builds, ctx.seed * 10 ** 7 + i)) for i in range(ctx.scale(240, 5000))]
    cli.run_jobs(ctx, todo)
