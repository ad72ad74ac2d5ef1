"""C26: the real programs, run from the command line in scratch copies of the work directory."""
import math, os, random, re, shutil, signal, subprocess, threading, time
import core

PROG = {'dtrm0': 'dtrm0', 'dtrm1': 'dtrm1', 'dtrm_glp': 'glp', 'polar': 'polar'}
ML_COLS = 4


def program_of(spf):
    return next(n for w, n in (('polar', 'polar'), ('dtrm_glp', 'glp'), ('dtrm1', 'dtrm1'), ('dtrm0', 'dtrm0')) if w in spf)


def executable(ctx, name, variant):
    out = ctx.path('prog', '%s_%s' % (core.TARGET[name], variant))
    o = core.objects(ctx, name, variant, extra=('-Umain',))
    fl = [f for f in core.VARIANTS[variant][1] if f.startswith('-fsanitize')]
    core.compile_all(ctx, [[core.VARIANTS[variant][0]] + fl + ['-o', out] + o + ['-lm']])
    return out


def dims(r, m):
    """Dimensions of the border nodes of RM(r, m) in decoding order."""
    if r == 0:
        return [1]
    if r == m:
        return [2 ** m]
    return dims(r - 1, m - 1) + dims(r, m - 1)


def num(R):
    return R.choice(['%d' % R.randint(-8, 2), '%.1f' % R.uniform(-8, 1), '%.2f' % R.uniform(-8, 1), '%.4g' % R.uniform(-9, 1)])


class Job:
    """The context, with violations marked with the job they belong to."""

    def __init__(s, ctx, tag):
        s.ctx, s.tag = ctx, tag

    def __getattr__(s, n):
        return getattr(s.ctx, n)

    def violation(s, key, msg):
        s.ctx.violation(key, msg, {'job': s.tag})


class Conf:
    """A random valid parameter file, as a list of (key, value text)."""

    def __init__(s, R, name):
        s.name, s.p = name, []
        if name == 'polar':
            m = R.randint(2, 6)
            mask = [R.random() < 0.5 for _ in range(2 ** m)]
            mask[-1] = True
            s.k, crc = sum(mask), ''
            if s.k > 2 and R.random() < 0.6:
                crc = ''.join(R.choice('01') for _ in range(R.randint(1, min(8, s.k // 2))))
                s.k -= len(crc)
            s.p += [('c_m', str(m)), ('info_bits_mask', ''.join('01'[b] for b in mask)), ('list_size', str(R.randint(1, 9)))] + ([('ca_polar_crc', crc)] if crc else [])
        else:
            m = R.randint(2, 6)
            r = R.randint(1, m - 1)
            d = dims(r, m)
            s.k = sum(d)
            s.p += [('RM_m', str(m)), ('RM_r', str(r))]
            if name == 'glp':
                mask = [True] * len(d)
                if R.random() < 0.5:
                    mask = [R.random() < 0.6 for _ in d]
                    mask[-1] = True
                s.k = sum(x for x, b in zip(d, mask) if b)
                s.p += [('border_node_mask', ''.join('01'[b] for b in mask)), ('border_node_lsize', str(R.randint(1, 9)))]
                if all(mask) and R.random() < 0.5:
                    perms = [R.sample(range(m), m) for _ in range(R.randint(1, 6))]
                    s.p.append(('permutations', '{\n' + '\n'.join(' '.join(map(str, q)) for q in perms) + '\n}'))
        s.n = 2 ** m
        s.res = R.choice(['out.srf', 'results/out.srf', './a_b.srf', 'r'])
        s.long = R.random() < 0.06  # a long but valid name
        if s.long:
            n = R.choice([R.randint(900, 999), 999, 998])
            s.res = 'r' if n % 2 else 'qr'
            s.res = './' * ((n - len(s.res)) // 2) + s.res
            assert len(s.res) == n
        snr, q = [], set()
        wide = R.random() < 0.12  # long lines in the results
        for _ in range(50 if wide or R.random() < 0.1 else R.randint(1, 6)):
            v = '%.2f' % R.uniform(-299, -100) if wide else num(R)
            if round(float(v), 2) not in q:
                q.add(round(float(v), 2))
                snr.append(v)
        s.snr = snr
        s.min_trn, s.min_en = 1, 1
        if R.random() < 0.5:
            s.trn = [R.randint(1, 20) for _ in snr]
            s.p.append(('SNR_val_trn', '{\n' + '\n'.join('%s %d' % x for x in zip(snr, s.trn)) + '\n}'))
        else:
            s.trn = None
            s.p.append(('EbNo_values', '{ ' + ' '.join(snr) + ' }'))
        if R.random() < 0.5:
            s.min_trn = R.randint(1, 30)
            s.p.append(('min_trials_per_snr', str(s.min_trn)))
        if R.random() < 0.5:
            s.min_en = R.randint(1, 5)
            s.p.append(('min_errors_per_snr', str(s.min_en)))
        s.ml = R.random() < (0.8 if wide else 0.5)
        s.p += [('res_file', s.res), ('ml_lb', 'on' if s.ml else 'off'), ('random_codeword', R.choice(['on', 'off']))]
        if R.random() < 0.3:
            s.p.append(('zz', 'unknown'))

    def req(s, i):
        return s.trn[i] if s.trn else s.min_trn

    def text(s):
        return '\n'.join('%s %s' % x for x in s.p) + '\n'


def parse_srf(txt):
    body = re.sub(r'%[^\n]*', ' ', txt)
    t, d, i = body.split(), {}, 0
    while i + 1 < len(t):
        if t[i + 1] == '{':
            j = t.index('}', i)
            d[t[i]] = t[i + 2:j]
            i = j + 1
        else:
            d[t[i]] = t[i + 1]
            i += 2
    return d


class Cut(Exception):
    """Another run did not end; the remaining work is cut short."""


class Run:
    def __init__(s, ctx, exe, args, cwd, timeout=200, argv0=None):
        s.cmd = [argv0 or exe] + args
        env = core.clean_env()
        env['ASAN_OPTIONS'] += ':detect_leaks=0'
        s.timeout = False
        p = subprocess.Popen(s.cmd, executable=exe, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        buf = []

        def read():
            size = 0
            while True:
                b = os.read(p.stdout.fileno(), 1 << 16)
                if not b:
                    break
                size += len(b)
                if size < 50 << 20:
                    buf.append(b)
        t = threading.Thread(target=read, daemon=True)
        t.start()
        end, pause = time.time() + timeout, 0.005
        while True:
            try:
                p.wait(pause)
                break
            except subprocess.TimeoutExpired:
                pause = min(0.5, pause * 1.5)
            s.timeout = time.time() > end
            if s.timeout or ctx.stop.is_set():
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        t.join()
        p.stdout.close()
        if ctx.stop.is_set() and p.returncode == -signal.SIGKILL:
            raise Cut()
        if s.timeout:
            ctx.stop.set()
        s.out, s.rc = b''.join(buf).decode(errors='replace'), p.returncode

    def crashed(s):
        return s.rc < 0 or s.rc == 66 or 'Sanitizer' in s.out or 'runtime error:' in s.out

    def tell(s):
        return '%s -> %s%s: %s' % (' '.join([os.path.basename(s.cmd[0])] + s.cmd[1:]), s.rc, ' (no end)' if s.timeout else '', s.out[-700:])


def options(R, nr=None):
    o = []
    if nr if nr is not None else R.random() < 0.5:
        o.append(['-nr'])
    for k in ('-si', '-ri'):
        for _ in range(R.choice([0, 1, 1, 2])):
            o.append([k, R.choice(['0', '1', '-1', '5', '600', '100000', '007'])])
    R.shuffle(o)
    return [x for q in o for x in q]


def table(out):
    """Rows of the printed results."""
    i = out.rfind('Simulation is over.')
    rows = []
    for l in out[i:].split('\n')[1:] if i >= 0 else []:
        w = l.split()
        try:
            v = [float(x) for x in w]
        except ValueError:
            continue
        if len(v) >= 3:
            rows.append(v)
    return rows


def near(a, b):
    return a == b if b == 0 else abs(a - b) <= 6e-4 * abs(b)


def judge(ctx, c, run, cwd, what, old=None):
    """A run that has to succeed.  c: .snr, .req(i), .min_en, .res, .n, .k, .ml; old: counts that were in the file."""
    def bad(key, msg):
        ctx.violation(key, '%s: %s; %s' % (what, msg, run.tell()))
        return None
    if run.timeout:
        return bad('hang', 'does not complete')
    if run.crashed():
        return bad('crash', 'crashed')
    if run.rc != 0:
        return bad('status', 'exit status %d' % run.rc)
    if re.search(r'\berror\s*:', run.out, re.I):
        return bad('status', 'an error is printed although the exit status is 0')
    p = os.path.join(cwd, c.res)
    if not os.path.exists(p):
        return bad('file', 'no results file')
    for s in ('.bsy', '.tmp'):
        if os.path.exists(p + s):
            return bad('file', 'file %s left' % s)
    try:
        d = parse_srf(open(p).read())
        L = {q: [float(x) for x in d[q]] for q in ('SNR', 'tr_num', 'en_bit', 'en_bl', 'erasures_num', 'ml_tr_num', 'enml_bl')}
        nk = int(d['code_n']), int(d['code_k'])
    except (KeyError, ValueError, IndexError) as e:
        return bad('file', 'results file is not complete: %r' % e)
    if nk != (c.n, c.k):
        return bad('file', 'code_n, code_k: %s instead of %s' % (nk, (c.n, c.k)))
    at = {v: i for i, v in enumerate(L['SNR'])}
    rows = table(run.out)
    ctx.count('printed rows', len(rows))
    if len(rows) != len(c.snr):
        return bad('printed', '%d rows of results printed for %d SNR values' % (len(rows), len(c.snr)))
    for j, t in enumerate(c.snr):
        i = at.get(float(t))
        if i is None:
            return bad('file', 'no results at SNR %s' % t)
        o = (old or {}).get(float(t), (0,) * 6)
        q = [L[x][i] - o[y] for y, x in enumerate(('tr_num', 'en_bit', 'en_bl', 'erasures_num', 'ml_tr_num', 'enml_bl'))]
        if q[0] < c.req(j) or q[2] < c.min_en or q[2] > q[0] or q[1] < q[2]:
            return bad('counts', 'SNR %s: %d trials (required %d), %d block errors (required %d), %d bit errors' % (t, q[0], c.req(j), q[2], c.min_en, q[1]))
        exp = [q[1] / (q[0] * c.k), q[2] / q[0]] + ([q[5] / q[4] if q[4] else 0] if c.ml else [])
        r = rows[j]
        if len(r) != 1 + len(exp) or abs(r[0] - float(t)) > 0.00501 or not all(near(a, b) for a, b in zip(r[1:], exp)):
            return bad('printed', 'printed %s for SNR %s, saved %s' % (r, t, exp))
        ctx.count('trials', int(q[0]))
    return {v: tuple(L[x][i] for x in ('tr_num', 'en_bit', 'en_bl', 'erasures_num', 'ml_tr_num', 'enml_bl')) for v, i in at.items()}


class Shipped:
    """A shipped example, shortened."""

    def __init__(s, text, R, n, k):
        s.n, s.k, s.min_en = n, k, 1
        s.res = re.search(r'^\s*res_file\s+(\S+)', text, re.M).group(1)
        s.ml = bool(re.search(r'^\s*ml_lb(_hard)?\s+on\b', text, re.M))
        m = re.search(r'(SNR_val_trn|EbNo_values)\s*\{([^}]*)\}', text)
        w = m.group(2).split()
        vals = w[::2] if m.group(1) == 'SNR_val_trn' else w
        pick = sorted(R.sample(range(len(vals)), min(len(vals), R.randint(1, 3))))
        s.snr = ['%g' % (float(vals[i]) - 6) for i in pick]
        s.trn = [R.randint(1, 4) for _ in pick]
        s.min_trn = R.randint(1, 4)
        if m.group(1) == 'SNR_val_trn':
            g = 'SNR_val_trn {\n' + '\n'.join('   %s      %d' % x for x in zip(s.snr, s.trn)) + '\n}'
        else:
            s.trn = None
            g = 'EbNo_values { %s }' % ' '.join(s.snr)
        text = text[:m.start()] + g + text[m.end():]
        text = re.sub(r'(min_trials_per_snr\s+)\d+', lambda q: q.group(1) + str(s.min_trn), text)
        if not re.search(r'min_trials_per_snr', text):
            s.min_trn = 1
        s.txt = re.sub(r'(min_errors_per_snr\s+)\d+', r'\g<1>1', text)

    def req(s, i):
        return s.trn[i] if s.trn else s.min_trn


def code_of(text, cwd, name):
    """n, k of a shipped example, from its parameters."""
    def expand(t):
        t = re.sub(r'%[^\n]*', '', t)
        return re.sub(r'\binclude\s+(\S+)', lambda m: '\n' + expand(open(os.path.join(cwd, m.group(1))).read()) + '\n', t)
    t = expand(text)
    g = lambda k: re.search(r'\b%s\s+(\S+)' % k, t).group(1)
    if name == 'polar':
        crc = re.search(r'\bca_polar_crc\s+([01]+)', t)
        return 2 ** int(g('c_m')), g('info_bits_mask').count('1') - (len(crc.group(1)) if crc else 0)
    d = dims(int(g('RM_r')), int(g('RM_m')))
    m = re.search(r'\bborder_node_mask\s+([01]+)', t)
    return 2 ** int(g('RM_m')), sum(x for x, b in zip(d, m.group(1) if m and name == 'glp' else '1' * len(d)) if b == '1')


def start_original(ctx, exe, spf, cwd):
    """The unchanged example starts to simulate."""
    p = subprocess.Popen([exe, spf, '-ri', '-1'], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=core.clean_env(), start_new_session=True)
    buf, t0 = b'', time.time()
    os.set_blocking(p.stdout.fileno(), False)
    while time.time() - t0 < 120 and buf.count(b'\r') < 3:
        b = p.stdout.read()
        if b:
            buf += b
        elif p.poll() is not None:
            break
        else:
            time.sleep(0.01)
    rc = p.poll()
    if rc is None:
        os.killpg(p.pid, signal.SIGKILL)
    p.wait()
    p.stdout.close()
    out = buf.decode(errors='replace')
    if rc is not None or 'SNR' not in out or re.search(r'\berror\s*:', out, re.I):
        ctx.violation('example', '%s: does not start to simulate: status %s: %s' % (spf, rc, out[:600]))
    ctx.count('examples started unchanged')


def new_work(ctx, R):
    d = ctx.path('w', '%016x' % R.getrandbits(64), 'x')
    d = os.path.dirname(d)
    os.makedirs(os.path.join(d, 'results'), exist_ok=True)
    return d


def good_case(ctx, exes, seed):
    R = random.Random(seed)
    name = R.choice(list(exes))
    exe, d, c = exes[name], new_work(ctx, R), Conf(R, name)
    spf = R.choice(['p.spf', './q', 'results/x.spf', os.path.join(d, 'abs.spf')])
    open(os.path.join(d, spf), 'w').write(c.text())
    old, what = None, 'seed %s, %s' % (seed, c.text().replace('\n', '; '))
    if R.random() < 0.3:
        open(os.path.join(d, c.res), 'w').close()
        ctx.count('runs into an empty file')
    # Fresh run, accumulation, and independence of the options.
    first = None
    for it in range(R.choice([1, 2, 3])):
        nr = R.random() < 0.5
        o = options(R, nr)
        r = Run(ctx, exe, [spf] + o, d)
        ctx.count('completed runs')
        new = judge(ctx, c, r, d, what + ' options ' + ' '.join(o), old)
        if new is None:
            break
        if old:
            ctx.count('runs into a results file')
        if nr:
            diff = {v: tuple(a - b for a, b in zip(q, (old or {}).get(v, (0,) * 6))) for v, q in new.items()}
            if first is not None and diff != first:
                ctx.violation('repeat', '%s: repeated run without randomization gives other counts: %s and %s' % (what, first, diff))
                break
            if first is not None:
                ctx.count('runs repeated with other options')
            first = diff
        old = new
    ctx.count('long names of results files', int(c.long))
    ctx.nontrivial(what)
    if seed % 50 == 0:
        ctx.sample(what)
    shutil.rmtree(d, ignore_errors=True)


def example_case(ctx, exes, src, spf, seed):
    R = random.Random('%s %s' % (spf, seed))
    d = ctx.path('w', '%016x' % R.getrandbits(64))
    shutil.copytree(src, d)
    text = open(os.path.join(d, spf)).read()
    name = program_of(spf)
    n, k = code_of(text, d, name)
    start_original(ctx, exes[name], spf, d)
    for it in range(2):
        s = Shipped(text, R, n, k)
        open(os.path.join(d, spf), 'w').write(s.txt)
        o = options(R)
        r = Run(ctx, exes[name], [spf] + o, d)
        ctx.count('completed runs')
        ctx.count('examples completed')
        if judge(ctx, s, r, d, spf + ' shortened, ' + ' '.join(o)) is None:
            break
        ctx.nontrivial((spf, s.txt))
        os.unlink(os.path.join(d, s.res))
    shutil.rmtree(d, ignore_errors=True)


def bad_inputs(R, c, d):
    """[(what, arguments)] that have to fail; prepares d."""
    def drop(*keys):
        return '\n'.join('%s %s' % x for x in c.p if x[0] not in keys) + '\n'

    def repl(key, v):
        return '\n'.join('%s %s' % ((x[0], v) if x[0] == key else x) for x in c.p) + '\n'
    snr_key = 'SNR_val_trn' if c.trn else 'EbNo_values'
    many = ' '.join('%d' % i for i in range(51))
    code = {'polar': ['c_m', 'info_bits_mask', 'list_size'], 'glp': ['RM_m', 'RM_r', 'border_node_mask', 'border_node_lsize']}.get(c.name, ['RM_m', 'RM_r'])
    kind = R.randint(0, 19)
    t, args = None, None
    if kind == 0:
        return 'no arguments', []
    if kind == 1:
        return 'no such file', ['none.spf'] + options(R)
    if kind == 2:
        return 'a directory', ['results'] + options(R)
    if kind == 3:
        t, what = R.choice(['', '\n', '% nothing\n', ' ']), 'empty file'
    elif kind == 4:
        k = R.choice(code)
        t, what = drop(k), 'no ' + k
    elif kind == 5:
        k = R.choice(code)
        v = {'c_m': ['-1', '0', '25', '99999999999', 'x'], 'RM_m': ['-1', '0', '99', '99999999999', 'x'], 'RM_r': ['-1', '99', '77777777777'], 'list_size': ['0', '-3', 'x', '99999999999999'],
             'border_node_lsize': ['0', '-3', 'x'], 'info_bits_mask': ['0', '01', '2222', c_mask(c) + '1', c_mask(c)[:-1], '0' * len(c_mask(c))], 'border_node_mask': ['x', c_mask(c) + '1', c_mask(c)[:-1], '0' * len(c_mask(c))]}[k]
        v = R.choice(v)
        t, what = repl(k, v), '%s %s' % (k, v)
    elif kind == 6:
        t, what = drop('res_file'), 'no res_file'
    elif kind == 7:
        t, what = drop(snr_key), 'no SNR values'
    elif kind == 8:
        t, what = drop(snr_key) + 'EbNo_values { %s }\n' % many, '51 SNR values'
    elif kind == 9:
        t, what = drop(snr_key) + 'SNR_val_trn { %s }\n' % ' '.join('%d 5' % i for i in range(R.choice([51, 60, 500]))), 'too many SNR values with trials'
    elif kind == 10:
        t, what = drop(snr_key) + R.choice(['EbNo_values { }\n', 'SNR_val_trn { }\n', 'SNR_val_trn {\n}\n']), 'empty SNR group'
    elif kind == 11:
        t, what = drop(snr_key) + 'include ' + R.choice(['none.txt', 'results', 'p.spf']) + '\n' + snr_key + ' { 1 1 }\n', 'bad include'
    elif kind == 12:
        t, what = drop('res_file') + 'res_file %s\n' % R.choice(['no/such/dir/x.srf', 'p.spf/x.srf']), 'results file cannot be created'
    elif kind == 13:
        t, what = drop('res_file') + 'res_file results\n', 'results file is a directory'
    elif kind == 14:
        t, what = drop('res_file') + 'res_file %s\n' % ('x' * R.choice([253, 256, 995, 1000, 1001, 1100, 5000, 100000]) if R.random() < 0.5 else './' * R.choice([499, 500, 501, 505, 600]) + 'xyz'), 'name of the results file is too long'
    elif kind == 15:
        t, what = c.text(), 'malformed old results'
        open(os.path.join(d, c.res), 'w').write(R.choice(['code_n 4\ncode_k 3\nSNR { 1 2 3\n', 'SNR { 1 2 }\ntr_num { 1 }\nen_bit { 1 1 }\nen_bl { 1 1 }\nerasures_num { 0 0 }\nml_tr_num { 0 0 }\nenml_bl { 0 0 }\n', 'SNR { 1 }\n']))
    elif kind == 16:
        t, what = c.text() + 'x ' + ' ' * 140001 + 'y\n', 'file too large'
    elif kind == 17:
        v = R.choice(['nan', '-nan', 'inf', '-inf', '301', '-1000', '1e300'])
        i, q = R.randint(0, len(c.snr) - 1), list(c.snr)
        q.insert(i, v)
        g = 'SNR_val_trn { %s }\n' % ' '.join('%s 3' % x for x in q) if R.random() < 0.5 else 'EbNo_values { %s }\n' % ' '.join(q)
        t, what = drop(snr_key) + g, 'SNR value out of range'
        if len(q) > 50:
            what = 'too many SNR values'
    elif kind == 18:
        t, what = c.text() + 'fixed_R %s\n' % R.choice(['nan', '-1', '-0.5', '-inf']), 'rate out of range'
    else:
        t, what = 'permutations { 0 }\n' + c.text() if c.name == 'glp' else drop(*code), 'permutations without RM_m' if c.name == 'glp' else 'no code'
    open(os.path.join(d, 'p.spf'), 'w').write(t)
    return what, ['p.spf'] + options(R)


def c_mask(c):
    return next((v for k, v in c.p if k in ('info_bits_mask', 'border_node_mask')), '1111')


def bad_case(ctx, exes, seed):
    R = random.Random(seed)
    name = R.choice(list(exes))
    d, c = new_work(ctx, R), Conf(R, name)
    what, args = bad_inputs(R, c, d)
    before = snapshot(d)
    long = R.choice(['/' + 'very_long_name/' * n + 'x_bg' for n in (1, 130, 200, 270)]) if not args or R.random() < 0.2 else None
    r = Run(ctx, exes[name], args, d, argv0=long)
    ctx.count('runs that have to fail')
    ctx.count('failed: ' + re.sub(r'^(RM_|c_m|list|info|border|no RM_|no c_m|no list|no info|no border).*', 'code parameter', what))
    full = 'seed %s, %s: %s: %s' % (seed, name, what, c.text().replace('\n', '; ')[:400])
    if r.timeout:
        ctx.violation('hang', '%s: does not end: %s' % (full, r.tell()))
    elif r.crashed():
        ctx.violation('crash', '%s: crashed: %s' % (full, r.tell()))
    elif r.rc == 0:
        ctx.violation('status', '%s: exit status 0: %s' % (full, r.tell()))
    elif not re.search(r'error|usage', r.out, re.I):
        ctx.violation('message', '%s: no error is printed: %s' % (full, r.tell()))
    elif snapshot(d) != before:
        ctx.violation('files', '%s: files changed: %s, before %s' % (full, snapshot(d), before))
    ctx.nontrivial((what, args, name))
    shutil.rmtree(d, ignore_errors=True)


def loose_case(ctx, exes, seed):
    """Arguments whose treatment is not documented: no crash."""
    R = random.Random(seed)
    name = R.choice(list(exes))
    d, c = new_work(ctx, R), Conf(R, name)
    open(os.path.join(d, 'p.spf'), 'w').write(c.text())
    o = options(R) + R.choice([['-si'], ['-ri'], ['-nr', '-si'], ['-x'], ['-si', 'abc'], ['-ri', '99999999999999'], [''], ['--help'], ['-nr', 'p.spf'], ['a' * 20000]])
    r = Run(ctx, exes[name], ['p.spf'] + o, d)
    ctx.count('runs with odd options')
    if r.crashed() or r.timeout:
        ctx.violation('crash', 'seed %s, options %s: %s' % (seed, o, r.tell()))
    shutil.rmtree(d, ignore_errors=True)


def snapshot(d):
    out = []
    for r, ds, fs in os.walk(d):
        for f in sorted(fs):
            p = os.path.join(r, f)
            out.append((os.path.relpath(p, d)[:300], open(p, 'rb').read()))
    return sorted(out)


def busy_case(ctx, exes, seed):
    """The results file stays busy: waits, then fails (about half a minute of real waiting)."""
    R = random.Random(seed)
    name = R.choice(list(exes))
    d, c = new_work(ctx, R), Conf(R, name)
    open(os.path.join(d, 'p.spf'), 'w').write(c.text())
    open(os.path.join(d, c.res + '.bsy'), 'w').write('Busy')
    before = snapshot(d)
    r = Run(ctx, exes[name], ['p.spf', '-nr'], d, timeout=400)
    ctx.count('runs with a busy results file')
    if r.timeout or r.crashed() or r.rc == 0 or snapshot(d) != before:
        ctx.violation('busy', 'seed %s: results file busy: %s' % (seed, r.tell()))
    shutil.rmtree(d, ignore_errors=True)


def option_case(ctx, exes, seed):
    """What the options are documented to do."""
    R = random.Random(seed)
    name = R.choice(list(exes))
    d, c = new_work(ctx, R), Conf(R, name)
    c.p = [x for x in c.p if x[0] not in ('SNR_val_trn', 'EbNo_values', 'min_trials_per_snr', 'min_errors_per_snr', 'res_file', 'random_codeword')]
    c.snr, c.trn, c.min_trn, c.min_en, c.res = ['-9', '-8', '-7', '-6'], None, 250, 1, 'r.srf'
    rest = [('EbNo_values', '{ %s }' % ' '.join(c.snr)), ('min_trials_per_snr', '250'), ('res_file', 'r.srf'), ('random_codeword', 'on')]
    R.shuffle(rest)
    c.p += rest
    open(os.path.join(d, 'p.spf'), 'w').write(c.text())
    what, got = 'seed %s, %s' % (seed, c.text().replace('\n', '; ')), []
    for o in (['-nr'], options(R, True), [], [], [], []):
        if got:
            time.sleep(1.1)  # (one of another second)
        r = Run(ctx, exes[name], ['p.spf'] + o, d)
        q = judge(ctx, c, r, d, what)
        if q is None:
            return
        got.append(q)
        os.unlink(os.path.join(d, 'r.srf'))
        if '-ri' in o and o[len(o) - 1 - o[::-1].index('-ri') + 1] == '-1':
            ctx.count('runs with status after every trial')
            if r.out.count('\r') < sum(int(x[0]) for x in q.values()) - 1:
                ctx.violation('interval', '%s: -ri -1, but %d status updates for %d trials: %s' % (what, r.out.count('\r'), sum(int(x[0]) for x in q.values()), r.cmd))
    if got[0] != got[1]:
        ctx.violation('repeat', '%s: runs with -nr differ' % what)
    if all(x in (got[0], got[3]) for x in got[2:]):
        ctx.violation('random', '%s: runs without -nr do not differ%s' % (what, ' from runs with it' if got[2] == got[0] else ''))
    ctx.count('randomized runs compared', 4)
    # Saving intervals: a long run is saved (or not) before it is over.
    open(os.path.join(d, 'p.spf'), 'w').write(c.text().replace('min_trials_per_snr 250', 'min_trials_per_snr 1000000000'))
    for si, saved in ((R.choice(['-1', '0']), True), ('1000000', False)):
        p = subprocess.Popen([exes[name], 'p.spf', '-si', si, '-ri', '-1'], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT, env=core.clean_env(), start_new_session=True)
        t0 = time.time()
        while time.time() - t0 < (60 if saved else 2) and p.poll() is None and not os.path.exists(os.path.join(d, 'r.srf')):
            time.sleep(0.01)
        ended, there = p.poll(), os.path.exists(os.path.join(d, 'r.srf'))
        os.killpg(p.pid, signal.SIGKILL) if ended is None else None
        p.wait()
        ctx.count('saving intervals observed')
        if ended is not None or there != saved:
            ctx.violation('interval', '%s: -si %s: long run %s, results file %s' % (what, si, 'goes on' if ended is None else 'ended with status %s' % ended, 'exists' if there else 'does not exist'))
        for f in ('r.srf', 'r.srf.bsy', 'r.srf.tmp'):
            if os.path.exists(os.path.join(d, f)):
                os.unlink(os.path.join(d, f))
    shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    core.commands(ctx)
    jobs = [(n, v) for v in ('opt', 'asan') for n in core.TARGET]
    for n, v in jobs:
        core.objects(ctx, n, v, extra=('-Umain',))
    ex = {v: {n: executable(ctx, n, v) for n in core.TARGET} for v in ('opt', 'asan')}
    src = os.path.join(core.REPO, 'work')
    todo = []
    for f in sorted(os.listdir(src)):
        if f.endswith('.spf'):
            todo.append((f, example_case, (ex['opt'], src, f, ctx.seed)))
            todo.append((f + ' asan', example_case, (ex['asan'], src, f, ctx.seed + 1)))
    b = ctx.seed * 10 ** 7
    for i in range(ctx.scale(160, 4000)):
        todo.append(('g%d' % i, good_case, (ex['asan' if i % 3 == 0 else 'opt'], b + i)))
    for i in range(ctx.scale(500, 8000)):
        todo.append(('b%d' % i, bad_case, (ex['asan' if i % 2 == 0 else 'opt'], b + 10 ** 6 + i)))
    for i in range(ctx.scale(16, 120)):
        todo.append(('o%d' % i, option_case, (ex['opt'], b + 4 * 10 ** 6 + i)))
    for i in range(ctx.scale(60, 600)):
        todo.append(('l%d' % i, loose_case, (ex['asan'], b + 2 * 10 ** 6 + i)))
    for i in range(ctx.scale(1, 4)):
        todo.insert(0, ('y%d' % i, busy_case, (ex['opt'], b + 3 * 10 ** 6 + i)))
    run_jobs(ctx, todo, 'cases')


def check_msan(ctx):
    """Complete runs of the programs built with MemorySanitizer."""
    core.commands(ctx)
    for n in core.TARGET:
        core.objects(ctx, n, 'msan', extra=('-Umain',))
    ex = {n: executable(ctx, n, 'msan') for n in core.TARGET}
    todo, b = [], ctx.seed * 10 ** 7
    for i in range(ctx.scale(160, 4000)):
        todo.append(('mg%d' % i, good_case, (ex, b + 6 * 10 ** 6 + i)))
    for i in range(ctx.scale(160, 3000)):
        todo.append(('mb%d' % i, bad_case, (ex, b + 7 * 10 ** 6 + i)))
    run_jobs(ctx, todo, 'runs with MemorySanitizer')


def run_jobs(ctx, todo, what=None):
    if ctx.replay:
        todo = [t for t in todo if t[0] == ctx.replay.get('job')]

    def one(tag, f, a):
        if ctx.stop.is_set():
            return
        if what:
            ctx.count(what)
        try:
            f(Job(ctx, tag), *a)
        except Cut:
            pass
    for f in [ctx.pool.submit(one, *t) for t in todo]:
        f.result()
