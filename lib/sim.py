"""Simulator checks: drv/simdrv.cpp linked with the objects of each simulator program."""
import math, os, concurrent.futures as cf
import core

WRAP = ['fopen', 'fclose', 'rename', 'remove', 'unlink', 'malloc', 'calloc', 'realloc', 'free', 'rand', 'srand', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'nanosleep', 'usleep', 'sleep', 'open', 'access', 'link', 'mkdir',
        'cdc_init', 'cdc_close', 'cdc_set_sg', 'enc_bpsk', 'dec_bpsk']
#        variant, quick and thorough numbers of cases of all four programs together
CASES = {'C15': ('opt', 3200, 60000), 'C16': ('asan', 9000, 200000), 'C17': ('opt', 2400, 50000), 'C18': ('opt', 3200, 60000), 'C19': ('opt', 480, 4000), 'C20': ('opt', 2400, 50000),
         'C21': ('opt', 1600, 30000), 'C22': ('opt', 4000, 80000), 'C23': ('opt', 160, 3000), 'C23K': ('opt', 64, 1000), 'C24': ('asan', 800, 16000), 'C25': ('opt', 2400, 50000), 'C27': ('opt', 1200, 40000), 'C37': ('asan', 1600, 40000), 'C38': ('asan', 1600, 40000)}
MEX = ('C16', 'C25')
STEP = 10 ** 6
LCG = {'C19': 6, 'C21': 6}  # one case of how many is run with the simulator's own random numbers generator instead of rand()


def compile_obj(ctx, san):
    tail = ['-c', '-std=c++17', '-w'] + (['-O1', '-g', '-fsanitize=address'] if san else ['-O2', '-g'])
    return core.cached_tool(ctx, ['simdrv.cpp'], ['g++'] + tail, 'simdrv.asan' if san else 'simdrv.opt')


def tool(ctx, name, variant, drv, extra=()):
    out = ctx.path('simtools', '%s_%s%s' % (name, variant, '_lcg' if extra else ''))
    if os.path.exists(out):
        return out
    o = core.objects(ctx, name, variant, extra=extra)
    core.compile_all(ctx, [['g++'] + [f for f in core.VARIANTS[variant][1] if f.startswith('-fsanitize')] + ['-o', out, '-no-pie', '-Wl,' + ','.join('--wrap=' + w for w in WRAP)] + ['-x', 'none', drv] + o + ['-lm', '-ldl', '-rdynamic']])
    return out


def mex(ctx, variant):
    out = ctx.path('simtools', 'loadsrf_%s.so' % variant)
    cc, fl, _ = core.VARIANTS[variant]
    inc = os.path.join(core.VERIF, 'drv', 'mex')
    src = [os.path.join(core.REPO, *p) for p in (('Octave', 'loadsrf.c'), ('Octave', 'ui_octave_txt.c'), ('common', 'spf_par.c'))] + [os.path.join(inc, 'mock.c')]
    core.compile_all(ctx, [[cc] + fl + ['-w', '-shared', '-Wl,-Bsymbolic', '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=fopen,--wrap=fclose', '-I' + inc, '-o', out] + src + ['-lm']])
    return out


def stats(ctx):
    """Sums over all simulations, by statistic."""
    tot = {}
    d = os.path.join(ctx.scratch, 'sh')
    for f in os.listdir(d):
        if f.endswith('.rep'):
            for l in open(os.path.join(d, f), errors='replace'):
                p = l.rstrip('\n').split('\t')
                if p[0] == 'A':
                    n, s, v = tot.get(p[1], (0, 0.0, 1.0))
                    tot[p[1]] = (n + int(p[2]), s + float(p[3]), float(p[4]))
    out = {}
    for k, (n, s, v) in sorted(tot.items()):
        if n < 2000 or n * v < 5:
            continue
        z = s / math.sqrt(n * v)
        out[k] = [n, round(s / n, 8), round(z, 2)]
        ctx.count('pooled statistics')
        if abs(z) > 7 and (not k.startswith('real generators: ') or abs(s / n) > 0.01 * math.sqrt(v)):
            ctx.violation('statistics', '%s: off by %.1f standard deviations (mean %g over %d values)' % (k, z, s / n, n))
    if out:
        ctx.extra['statistics (values, mean deviation, in standard deviations)'] = out


def check(ctx):
    for ck in ([ctx.replay.get('mode', ctx.pid)] if ctx.replay else [ctx.pid, 'C23K'] if ctx.pid == 'C24' else [ctx.pid]):
        run_mode(ctx, ck)
        if ctx.violations:
            for v in ctx.violations:
                v.replay['mode'] = ck
            return


def check_memory(ctx):
    """C37: sanitizers and allocation monitors on simulations, MemorySanitizer on complete programs."""
    import cli
    if not (ctx.replay and 'job' in ctx.replay):
        check(ctx)
    if not ctx.violations and not (ctx.replay and 'case' in ctx.replay):
        cli.check_msan(ctx)


def run_mode(ctx, ck):
    variant, q, t = CASES[ck]
    all_names = list(core.TARGET)
    runs = [(k, n, ()) for k, n in enumerate(all_names)]
    if ck in LCG:
        runs += [(k + len(all_names), n, ('-UUSE_STDLIB_RND',)) for k, n in enumerate(all_names)]
    per = ctx.scale(q, t) // len(all_names)
    drv = ctx.pool.submit(compile_obj, ctx, variant == 'asan')
    case = ctx.replay.get('case') if ctx.replay else None
    if case is not None:
        runs = [r for r in runs if r[0] == case // STEP]
    core.commands(ctx)
    with cf.ThreadPoolExecutor(8) as p:
        so = p.submit(mex, ctx, variant) if ck in MEX else None
        drv = drv.result()
        tools = list(p.map(lambda r: tool(ctx, r[1], variant, drv, r[2]), runs))
        arg = ':' + so.result() if so else ''
        fs = []
        for (k, n, extra), tl in zip(runs, tools):
            cnt = max(1, per // LCG[ck]) if extra else per
            fs.append(p.submit(core.drv_run, ctx, tl, ck, n + arg, cnt, first=k * STEP, timeout=ctx.scale(500, 7000), limit_as=None if variant == 'asan' else 8 << 30, shards=ctx.scale(6, 16)))
            if extra:
                ctx.count('cases with the own generator', cnt)
        err = None
        for f in fs:
            try:
                f.result()
            except core.Harness as e:
                err = e
    if err and not ctx.violations:
        raise err
    if not ctx.replay:
        stats(ctx)
