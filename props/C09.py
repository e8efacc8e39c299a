"""History of variables (spec/VarHist.tla)."""
import random
from props import varhist


def run(ctx):
    ctx.model('VarHistMC', 'VarHistMC.cfg')
    rng = random.Random(ctx.seed + 9)
    scns = [varhist.make(rng, h[:rng.randint(8, len(h))], False)
            for h in ctx.behaviours('VarOps', 'VarOpsSim.cfg',
                                    num=ctx.pick(700, 9000), depth=32)]
    traces = ctx.drive('var', scns)
    ctx.info['events'] = sum(len(t.get('ev', [])) for t in traces)
    ctx.validate('VarHistTrace', traces, scns, driver='var')
