"""Evaluation of variables (spec/VarHist.tla, VarCacheMC.tla)."""
import random
from props import varhist


def run(ctx):
    ctx.model('VarCacheMC', 'VarCacheMC.cfg')
    ctx.model('VarCacheMC', 'VarCacheMC2.cfg')
    rng = random.Random(ctx.seed + 10)
    scns = [varhist.make(rng, h[:rng.randint(8, len(h))], True)
            for h in ctx.behaviours('VarOps', 'VarOpsSim.cfg',
                                    num=ctx.pick(500, 6000), depth=32)]
    traces = ctx.drive('var', scns)
    ctx.info['evaluations'] = sum(e['op'] == 'eval' for t in traces for e in t.get('ev', []))
    ctx.validate('VarHistTrace', traces, scns, driver='var')
