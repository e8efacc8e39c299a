"""Boundary and initial conditions (spec/EqMap.tla)."""
import random
from props import bc


def run(ctx):
    for k in ctx.pick(['3'], ['3', '4']):
        ctx.model('EqMapMC', 'EqMapMC%s.cfg' % k)
    rng = random.Random(ctx.seed + 7)
    scns = [bc.make(rng, h, False)
            for h in ctx.behaviours('EqOps', 'EqOpsSim.cfg',
                                    num=ctx.pick(500, 6000), depth=20,
                                    seed=ctx.seed + 7)]
    traces = ctx.drive('bc', scns)
    ctx.info['mappings'] = sum(e['op'] == 'map' for t in traces for e in t.get('ev', []))
    ctx.validate('EqMapTrace', traces, scns, driver='bc')
