"""Results and restart files (spec/TsRun.tla, spec/Results.tla)."""
import random
from props.C23 import make, scripts


def run(ctx):
    ctx.model('TsRunMC', 'TsRunMC.cfg' if ctx.quick else 'TsRunMC2.cfg')
    rng = random.Random(ctx.seed + 12)
    sc = scripts(ctx, ctx.pick(300, 3000), 12)
    scns = [make(rng, sc, restart=True) for _ in range(ctx.pick(400, 5000))]
    traces = ctx.drive('tsrun', scns)
    ctx.info['restarted_runs'] = sum(bool(e['load']) and e['found'] for t in traces for e in t.get('ev', []))
    ctx.validate('TsRunTrace', traces, scns, driver='tsrun')
    results(ctx, rng)


KEYS = ['u', 'p', 'u x', 'u_x', 'stress']


def results(ctx, rng):
    ctx.model('ResultsMC', 'ResultsMC.cfg' if ctx.quick else 'ResultsMC2.cfg')
    scns = [make_results(rng, h) for h in ctx.behaviours('ResultsMC', 'ResultsSim.cfg', depth=30,
                                                         num=ctx.pick(300, 4000), seed=ctx.seed + 112)]
    traces = ctx.drive('results', scns)
    ctx.info['file_operations'] = sum(len(t.get('ev', [])) for t in traces)
    ctx.validate('ResultsTrace', traces, scns, driver='results')


def make_results(rng, h):
    uid = [0]
    plain = rng.random() < 0.6
    keys = rng.sample(KEYS, rng.randint(1, 4))
    kind = {k: (rng.choice(['vertex', 'vertex', 'cell']), rng.choice([1, 1, 2, 3])) for k in keys}
    start = rng.choice([0, 0, 0, 3])
    nxt, tick = start, 8 * start
    ops = []

    def items():
        res = []
        for k in keys:
            if rng.random() < 0.1 and len(keys) > 1: continue
            mode, dim = kind[k]
            dt = rng.choice('fFi')
            if not plain:
                r = rng.random()
                if r < 0.15: mode = 'custom'
                elif r < 0.25: mode, dim = rng.choice(['full', 'cell', 'vertex']), rng.randint(1, 3)
                elif r < 0.35: dt = 'c'
            uid[0] += 1
            res.append(dict(key=k, mode=mode, id=uid[0], dim=dim, dofs=rng.random() < 0.5, dt=dt))
        if not res: return items()
        rng.shuffle(res)
        return res

    def idx(n):
        return rng.sample(range(n), rng.randint(1, 2))
    last = 0
    for x in h:
        a, b = max(x['a'], 0), max(x['b'], 0)
        k = x['op']
        if k.startswith('write') or k in ('fail', 'mesh'):
            step = nxt
            if a == 0: step = 0
            elif a == 1: step = last
            elif a == 2: step = nxt + b
            elif a == 3: step = max(1, nxt - 2)
            op = dict(op='mesh' if k == 'mesh' else 'write', step=step, t=tick, items=items(), fail=0,
                      via=rng.choice(['mesh', 'io']), status=3)
            if k == 'fail':
                op['fail'] = 1 + b % len(op['items'])
            elif k == 'mesh':
                if b % 2: continue
                op['items'] = []
            ops.append(op)
            last = step
            if not op['fail']: nxt = max(nxt, step) + 1
            if step == 0 and k != 'fail': nxt = 1
            tick += rng.choice([1, 4, 8, 16])
        elif k == 'hist':
            key = rng.choice(keys + ['none'] * (b == 0))
            ops.append(dict(op='hist', key=key, idx=idx({'cell': 2}.get(kind.get(key, 'c')[0], 6)),
                            step=-1 if a < 6 else rng.randint(0, nxt)))
        elif k.startswith('extract'):
            ks = rng.sample(keys, rng.randint(1, len(keys)))
            ks = [q for q in ks if ' ' not in q] or ['zz']
            desc = []
            for q in ks:
                mode = rng.choice('ne') if b else rng.choice('nex')
                desc.append(dict(key=q, mode=mode, idx=idx({'e': 2}.get(mode, 6) + (b == 1))))
            ops.append(dict(op='extract', desc=desc))
        elif k == 'vhist':
            ops.append(dict(op='vhist', keys=rng.sample(keys, rng.randint(1, len(keys))),
                            n_step=nxt if b < 8 else nxt + 1))
        elif k == 'dump':
            ops.append(dict(op='dump', step0=rng.choice([0, 0, 1, 2, 5]),
                            steps=[] if b < 5 else sorted(rng.sample(range(start, max(nxt, start + 1)), rng.randint(1, max(1, nxt - start))))))
    if rng.random() < 0.4:
        its = items()
        ops.append(dict(op='write', step=nxt, t=tick, items=its, fail=-rng.randint(1, len(its)), via='mesh', status=0))
    return dict(ops=ops, missing=77)
