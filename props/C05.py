"""DOF numbering (spec/EqMap.tla)."""
import random
from props import bc


def run(ctx):
    for k in ctx.pick(['2', '3', '4'], ['', '2', '3', '4']):
        ctx.model('EqMapMC', 'EqMapMC%s.cfg' % k)
    rng = random.Random(ctx.seed + 5)
    scns = [bc.make(rng, h, True)
            for h in ctx.behaviours('EqOps', 'EqOpsSim.cfg',
                                    num=ctx.pick(500, 6000), depth=20,
                                    seed=ctx.seed + 5)]
    traces = ctx.drive('bc', scns)
    ctx.info['mappings'] = sum(e['op'] == 'map' for t in traces for e in t.get('ev', []))
    ctx.validate('EqMapTrace', traces, scns, driver='bc')
