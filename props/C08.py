"""Time stepping (spec/TimeStep.tla)."""
import random

T = [(0.0, 1.0), (0.0, 0.3), (-1.0, 1.0), (2.0, 12.0), (0.1, 0.7), (0.0, 1e-6),
     (100.0, 100.1), (0.0, 3.0)]


def ops_scn(rng, h):
    kind = rng.choice(['fixed', 'var'])
    n = rng.choice([1, 2, 3, 5, 5, 6, 7, 8, 11, 14, 23])
    hh = 1000 if kind == 'fixed' else 1000000
    t0, t1 = rng.choice(T)
    ops, nsv = [], 0
    step = 0
    for o in h:
        o = dict(o)
        op = o['op']
        if op == 'set':
            if kind == 'fixed':
                o['k'] = rng.randint(-n - 1, n + 1)
            else:
                o['k'] = rng.choice([0, step, step, step + 1, 1, 2])
        elif op == 'dt':
            if kind == 'fixed' or step == 0: continue
            o['dt'] = int(rng.choice([0.5, 0.25, 2, 1, 0.3, 1.5]) * hh)
        elif op == 'sub':
            # Without other calls between.
            ops.append(dict(op='sub', dt=rng.choice([hh // 2, hh // 4, hh]))
                       if kind == 'fixed' else dict(op='save'))
            if kind == 'fixed': ops.append(dict(op='restore'))
            else: nsv += 1; sv = locals().setdefault('svs', {}); sv[nsv] = step
            continue
        elif op == 'save':
            nsv += 1
            if kind == 'var': locals().setdefault('svs', {})[nsv] = step
        elif op == 'load':
            if not nsv: continue
            o['k'] = rng.randint(1, nsv)
        ops.append(o)
        if op == 'advance': step += 1
        if kind == 'var' and op == 'set' and o['k'] == 0: step = 0
        if op == 'load': step = 10**6 # Recomputed below.
    # Valid arguments for the variable stepper: track steps exactly.
    if kind == 'var':
        step, svs, out = 0, [], []
        for o in ops:
            op = o['op']
            if op == 'set': o['k'] = rng.choice([0, step, step, step + 1, step + 2])
            if op == 'dt' and step == 0: continue
            out.append(o)
            if op == 'advance': step += 1
            elif op == 'set' and o['k'] == 0: step = 0
            elif op == 'save': svs.append(step)
            elif op == 'load': step = svs[o['k'] - 1]
        ops = out
    k = rng.randint(0, n - 1) if kind == 'fixed' else rng.choice([0, 0, 1])
    if kind == 'var' and k == 0: ops.append(dict(op='set', k=0))
    ops.append(dict(op='iter', k=k))
    t2, n2 = rng.choice([(t0, t1), (t0, t1 + 1.0), (t0 - 0.5, t1)]), rng.choice([n, n, n + 1])
    ops.append(dict(op='eq', k=0, a=['%r' % x for x in (t0, t1, n)],
                    b=['%r' % x for x in (t2[0], t2[1], n2)]))
    c = dict(what='ops', kind=kind, n=n, h=hh, t1=max(n - 1, 1) * hh)
    return dict(c=c, t0=t0, t1=t1, ops=ops, pickled=rng.random() < 0.4,
                form=rng.choice(['n_step', 'dt', 'conf', 'copy']))


def run_scn(rng, h):
    solver = rng.choice(['simple', 'adaptive', 'adaptive', 'adaptive', 'ed',
                         'ed', 'dg', 'stationary'])
    t0, t1 = rng.choice(T)
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 11, 12])
    quasi = rng.random() < 0.4
    c = dict(what='run', v0=1)
    kind = 'fixed'
    hh = 1000
    if solver == 'adaptive':
        kind, hh = 'adaptive', 100000
        rn, rd = rng.choice([(1, 2), (1, 2), (1, 5), (1, 4), (3, 10)])
        mn, md = rng.choice([(1, 8), (1, 1000), (3, 100), (1, 16), (3, 10)])
        inn, ind = rng.choice([(5, 4), (2, 1), (3, 2), (5, 1), (4, 1)])
        c.update(rn=rn, rd=rd, mn=mn, md=md, inn=inn, ind=ind,
                 wait=rng.choice([0, 1, 2, 3, 5]), dt0=hh)
    elif solver == 'ed':
        kind = rng.choice(['fixed', 'ctrl', 'ctrl', 'seq'])
        if kind == 'ctrl':
            hh = 100000
            c.update(ctrl=rng.choice(['basic', 'pid', 'linear']),
                     fs=rng.choice([80, 90]), fmin=rng.choice([30, 20]),
                     fmax=rng.choice([250, 150]), wait=rng.choice([0, 1, 2]),
                     fred=rng.choice([100, 50]), minf=rng.choice([140, 110]))
            n = max(n, 2)
        elif kind == 'seq':
            hh = 100000
            n = max(n, 2)
            m = rng.randint(1, 6)
            sq = sorted(rng.sample(range(2000, (n - 1) * hh - 2000), m))
            sq = [x for k, x in enumerate(sq) if k == 0 or x - sq[k - 1] > 2000]
            c['seq'] = sq + [(n - 1) * hh]
    if solver == 'stationary':
        n, t0, t1 = 1, 0.0, 1.0
    if solver in ('ed', 'stationary', 'dg'): quasi = quasi and solver != 'ed'
    c.update(kind=kind, n=n, h=hh, t1=max(n - 1, 1) * hh,
             start={'ed': 'none', 'dg': 'fun', 'stationary': 'sol'}.get(
                 solver, 'sol' if quasi else 'fun'))
    mode = rng.choice(['all', 'int', 'list', 'list', 'call', 'none'])
    ntot = max(n - 1, 1)
    sched = dict(mode=mode)
    c['sched'] = dict(all='all', int='times', list='times', call='steps', none='none')[mode]
    c['times'] = []
    if mode == 'int':
        k = rng.choice([1, 2, 3, n, max(1, (n - 1) // 2 + 1), 5])
        sched['n'] = k
        c['times'] = [int(round(j * ntot * hh / (k - 1))) for j in range(k)] if k > 1 else [0]
        if any(abs(x * (k - 1) - j * ntot * hh) not in (0,) and min(x % hh, -x % hh) < 9
               for j, x in enumerate(c['times'])):
            sched['n'], c['times'] = 2, [0, ntot * hh]
    elif mode == 'list':
        m = rng.randint(0, 7)
        tt = set()
        for _ in range(m):
            tt.add(rng.choice([rng.randint(0, ntot) * hh,
                               rng.randint(0, ntot) * hh + rng.choice([1, -1]) * rng.randint(hh // 50, hh // 2),
                               rng.randint(0, ntot) * hh + hh // 2]))
        c['times'] = sorted(tt)
    elif mode == 'call':
        c['times'] = sorted(rng.sample(range(n + 8), rng.randint(0, 4)))
    easy = rng.choice([1, 2, 4])
    outs = []
    for o in h:
        en, ed = {'easy': rng.choice([(1, 2), (2, 5), (1, 4), (4, 5), (1, 1), (9, 10), (1, 100)]),
                  'hard': rng.choice([(4, 5), (1, 1)]),
                  'fail': rng.choice([(2, 1), (5, 4), (20, 1), (4, 1)])}[o]
        if kind != 'adaptive' and o == 'fail' and kind != 'ctrl': o = 'hard'
        outs.append(dict(out=o, en=en, ed=ed, cond=rng.choice([1, 1, 2]),
                         less=rng.choice([0, 0, 1])))
    # Keep the steps of the controllers above the tick resolution.
    if kind == 'ctrl':
        nf = 0
        for o in outs:
            if o['en'] > o['ed']:
                nf += 1
                if nf > 2: o['en'], o['ed'] = 4, 5
            elif (o['en'], o['ed']) in ((1, 1), (9, 10)):
                nf += 0.4
    loads = []
    if mode in ('none', 'all') and (kind in ('fixed', 'adaptive')) and solver != 'stationary' and rng.random() < 0.6:
        loads = [rng.randrange(50) for _ in range(rng.randint(1, 2))]
    return dict(c=c, t0=t0, t1=t1, solver=solver, kind='ts.' + solver,
                quasi=quasi, sched=sched, outs=outs, easy=easy, loads=loads,
                stats=rng.random() < 0.5, form=rng.choice(['n_step', 'dt']))


def run(ctx):
    ctx.model('TimeStepMC', 'TimeStepMC.cfg')
    ctx.model('TimeStepMC', 'TimeStepMC2.cfg')
    ctx.model('TimeStepOps', 'TimeStepOps.cfg')
    rng = random.Random(ctx.seed + 8)
    scns = []
    for h in ctx.behaviours('TimeStepOps', 'TimeStepOpsSim.cfg',
                            num=ctx.pick(400, 4000), depth=16):
        scns.append(ops_scn(rng, h[:rng.randint(1, len(h))]))
    beh = ctx.behaviours('TimeStepMC', 'TimeStepSim.cfg',
                         num=ctx.pick(900, 9000), depth=18)
    for h in beh:
        scns.append(run_scn(rng, h))
    traces = ctx.drive('ts', scns)
    n = {}
    for s, t in zip(scns, traces):
        k = s.get('solver', 'stepper') + ' ' + s['c']['kind']
        n[k] = n.get(k, 0) + 1
    ctx.info['runs'] = n
    ctx.validate('TimeStepTrace', traces, scns, driver='ts',
                 cfg='TimeStepTrace.cfg')
