"""Codec checks run by drv/drv.cpp."""
import os, re, shutil
import core

#        quick, thorough numbers of cases
CASES = {'C01': (40000, 600000), 'C02': (200000, 3000000), 'C03': (400000, 6000000), 'C04': (300000, 4500000), 'C05': (100000, 1500000), 'C06': (100000, 1500000),
         'C07': (100000, 1500000), 'C08': (60000, 900000), 'C09': (120000, 1800000), 'C10': (120000, 1800000), 'C11': (36000, 540000), 'C12': (20000, 300000),
         'C13': (15000, 225000), 'C14': (60000, 900000), 'C28': (150000, 2250000), 'C29': (120000, 1800000), 'C30': (30000, 500000),
         'C33': (150000, 2250000), 'C34': (80000, 1200000), 'C36': (60000, 900000),
         'C39': (60000, 900000)}
ASAN = ('C13', 'C14', 'C30', 'C36')


def libs(ctx, variant, suffix=None, names=core.TARGET, **kw):
    d = ctx.dir('libs')
    for n in names:
        core.shared(ctx, n, variant, os.path.join(d, '%s.%s.so' % (n, suffix or variant)), **kw)
    return d


def rho_copy(ctx, fmt='format_rho1.h'):
    """A copy of the sources with another format selected."""
    dst = ctx.path('rho_src', fmt, 'repo')
    shutil.copytree(core.REPO, dst, ignore=shutil.ignore_patterns('.git', '_build', '*.o'))
    n = 0
    for root, _, fs in os.walk(dst):
        for f in fs:
            if f.endswith(('.h', '.c')):
                p = os.path.join(root, f)
                s = open(p, 'rb').read()
                t = re.sub(rb'^([ \t]*#[ \t]*include[ \t]*")((?:[^"]*/)?)format_eps5\.h"', rb'\1\2' + fmt.encode() + b'"', s, flags=re.M)
                if t != s:
                    n += 1
                    open(p, 'wb').write(t)
    if not n:
        raise core.Harness('cannot select another format')
    return dst


def check(ctx):
    pid = ctx.pid
    v = 'asan' if pid in ASAN else 'opt'
    tool = ctx.pool.submit(core.drv_tool, ctx, v == 'asan')
    d = libs(ctx, v)
    if pid == 'C12':
        for n in core.TARGET:
            shutil.copy(os.path.join(d, n + '.opt.so'), os.path.join(d, n + '.clean.so'))
    if pid == 'C28':
        libs(ctx, 'opt', 'rho', ('dtrm0', 'glp', 'polar'), repo=rho_copy(ctx))
    if pid == 'C33':
        libs(ctx, 'opt', 'ms', ('dtrm0', 'glp', 'polar'), repo=rho_copy(ctx, 'format_rho5.h'))
    if pid == 'C39':
        libs(ctx, 'opt', 'hd', extra=('-DHARD_INPUT',))
        libs(ctx, 'opt', 'hr', ('dtrm0', 'glp', 'polar'), repo=rho_copy(ctx), extra=('-DHARD_INPUT',))
        libs(ctx, 'opt', 'hm', ('dtrm0', 'glp', 'polar'), repo=rho_copy(ctx, 'format_rho5.h'), extra=('-DHARD_INPUT',))
    core.drv_run(ctx, tool.result(), pid, d, ctx.scale(*CASES[pid]), timeout=ctx.scale(400, 3000), limit_as=None if v == 'asan' else 8 << 30)
