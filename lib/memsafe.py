"""C13: codecs under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and MemorySanitizer."""
import os, re, shutil
import core, codec


def defs(ctx, name):
    f = core.sources(ctx, name, sim=False)[0][1]
    return (['-DHAVE_SG'] if '-DDEC_NEEDS_SIGMA' in f else []) + (['-DHAVE_CSNRN'] if '-DDEC_NEEDS_CSNRN' in f else [])


def msan_tool(ctx, name):
    out = ctx.path('msan', name)
    o = core.objects(ctx, name, 'msan', sim=False)
    core.compile_all(ctx, [['clang'] + core.VARIANTS['msan'][1] + ['-pie', '-w'] + defs(ctx, name) + ['-o', out, os.path.join(core.VERIF, 'drv', 'memdrv.c')] + o + ['-lm']])
    return out


def msan_lines(ctx):
    """Code descriptions from the driver's generator, per codec."""
    out = {n: [] for n in core.TARGET}
    for f in sorted(os.listdir(os.path.join(ctx.scratch, 'sh'))):
        if f.startswith('C13_') and f.endswith('.rep'):
            for l in open(os.path.join(ctx.scratch, 'sh', f), errors='replace'):
                p = l.rstrip('\n').split('\t')
                if p[0] == 'G':
                    out[p[1]].append((int(p[2]), p[3]))
    return {n: sorted(set(v)) for n, v in out.items()}


def run_msan(ctx, tools, lines):
    jobs = []
    for n, v in lines.items():
        k = 4
        for i in range(k):
            if v[i::k]:
                jobs.append((n, i, v[i::k]))

    def one(j):
        n, i, v = j
        inp, cur = ctx.path('msan', '%s_%d.in' % (n, i)), ctx.path('msan', '%s_%d.cur' % (n, i))
        with open(inp, 'w') as f:
            for s, p in v:
                f.write('%d\t%s\n' % (s, p))
        try:
            r = core.run([tools[n], inp, cur], env=core.clean_env(), timeout=ctx.scale(300, 3000))
        except core.subprocess.TimeoutExpired:
            raise core.Harness('msan driver: no answer in time')
        return n, v, cur, r.returncode, r.stdout.decode(errors='replace')
    for f in [ctx.pool.submit(one, j) for j in jobs]:
        n, v, cur, rc, out = f.result()
        m = re.search(r'DONE (\d+) (\d+)', out)
        if rc == 0 and m:
            ctx.count('msan codecs', int(m.group(1)))
            ctx.count('msan decodings', int(m.group(2)))
            continue
        if rc == 97:
            raise core.Harness('msan driver: ' + out[-500:])
        i = int(open(cur).read().split()[0])
        ctx.violation('msan', '%s %s: rc=%d %s' % (n, v[i][1].replace('\1', ' ')[:400], rc, core.summarize(out)), {'msan': [n, v[i][0], v[i][1]], 'stderr': out[-6000:]})


def check(ctx):
    tools = {}
    if ctx.replay and 'msan' in ctx.replay:
        n, s, p = ctx.replay['msan']
        return run_msan(ctx, {n: msan_tool(ctx, n)}, {n: [(s, p)]})
    tool = core.drv_tool(ctx, True)
    d = codec.libs(ctx, 'asan', **({'extra': ('-U' + core.GUARD,)} if ctx.replay and ctx.replay['case'] >= 10 ** 6 else {}))
    core.drv_run(ctx, tool, 'C13', d, ctx.scale(*codec.CASES['C13']), timeout=ctx.scale(400, 6000))
    if ctx.violations or ctx.replay:
        return
    # Without the gaps the end of each allocation is where the code under test puts it.
    d0 = ctx.dir('libs0')
    for n in core.TARGET:
        core.shared(ctx, n, 'asan', os.path.join(d0, n + '.asan.so'), extra=('-U' + core.GUARD,))
    lines = msan_lines(ctx)
    core.drv_run(ctx, tool, 'C13', d0, ctx.scale(1200, 20000), timeout=ctx.scale(400, 6000), first=10 ** 6)
    for n in core.TARGET:
        tools[n] = msan_tool(ctx, n)
    run_msan(ctx, tools, {n: v[:ctx.scale(120, 3000)] for n, v in lines.items()})
