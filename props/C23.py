"""Transient problem runs (spec/TsRun.tla)."""
import random


def config(rng, restart=False):
    ts = rng.choice(['simple', 'simple', 'adaptive', 'adaptive', 'stationary'])
    n = rng.randint(2, 6)
    c = dict(ts=ts, t0=rng.choice([0, 0, 16, 48]), n_step=n, quasi=ts != 'stationary' and rng.random() < 0.3,
             f=[rng.randint(-3, 4) for _ in range(rng.randint(1, 4))],
             g=[rng.randint(-3, 4) for _ in range(rng.randint(1, 4))],
             u0=rng.randint(-3, 5) * 64, redmax=rng.choice([1, 2, 4, 8]), easy=rng.choice([1, 2, 4]),
             wait=rng.choice([0, 0, 1, 2, 99]), active_only=rng.random() < 0.6,
             format=rng.choice(['h5', 'h5', 'vtk']), restart=rng.choice([1, 1, 1, -1]) if restart else 0)
    c['t1'] = c['t0'] + (n - 1) * rng.choice([16, 16, 32, 64])
    if ts == 'stationary':
        c.update(t0=0, t1=64, n_step=1)
    c['imax'] = rng.choice([1, 3]) if not c['quasi'] and ts != 'stationary' else 3
    c['linear'] = rng.random() < 0.4 and ts == 'simple' and not c['quasi']
    kind = rng.choice(['all', 'all', 'int', 'list', 'fun'])
    span = c['t1'] - c['t0']
    c['save'] = dict(kind=kind, n=0, times=[])
    if kind == 'int': c['save']['n'] = rng.randint(1, n + 2)
    elif kind == 'list':
        c['save']['times'] = sorted({c['t0'] + rng.randint(0, span // 4) * 4 for _ in range(rng.randint(1, 6))})
    elif kind == 'fun':
        c['save']['times'] = sorted(rng.sample(range(n + 2), rng.randint(1, n)))
    return c


def make(rng, scripts, restart=False):
    c = config(rng, restart)
    ops = []
    n_op = rng.randint(2, 4) if restart else rng.randint(1, 3)
    for k in range(n_op):
        script = rng.choice(scripts)
        script = [list(x) for x in script[:rng.randint(0, len(script))]]
        op = 'run' if k == 0 else rng.choice(['run', 'again'] if not restart else ['run', 'run', 'run', 'again'])
        if op == 'again' and ops[-1]['load'] and c['ts'] == 'adaptive' and c['wait'] not in (0, 99):
            op = 'run' # The waiting counter is not a part of the restart state.
        o = dict(op=op, load='', script=script, state0=rng.random() < 0.15,
                 saving=restart or rng.random() < 0.9)
        if restart and op == 'run' and k > 0:
            o['load'] = '%d:%d' % (rng.randrange(k), rng.randrange(c['n_step'] + 1))
            o['state0'] = False
        ops.append(o)
    return dict(c=c, ops=ops)


def scripts(ctx, num, off):
    return list(ctx.behaviours('TsRunMC', 'TsRunSim.cfg', depth=20, num=num, seed=ctx.seed + off))


def run(ctx):
    ctx.model('TsRunMC', 'TsRunMC.cfg' if ctx.quick else 'TsRunMC2.cfg')
    rng = random.Random(ctx.seed + 23)
    sc = scripts(ctx, ctx.pick(300, 3000), 23)
    scns = [make(rng, sc) for _ in range(ctx.pick(400, 5000))]
    traces = ctx.drive('tsrun', scns)
    ctx.info['runs'] = sum(len(t.get('ev', [])) for t in traces)
    ctx.info['solutions'] = sum(r['e'] == 'nls' for t in traces for e in t.get('ev', []) for r in e['log'])
    ctx.validate('TsRunTrace', traces, scns, driver='tsrun')
