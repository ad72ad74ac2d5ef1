"""Builds the drivers that do not depend on the code under test."""
import core, sim
ctx = core.Ctx('setup', 1, 'quick')
try:
    for f in [ctx.pool.submit(core.drv_tool, ctx, s) for s in (False, True)] + [ctx.pool.submit(sim.compile_obj, ctx, s) for s in (False, True)]:
        f.result()
finally:
    ctx.close()
