"""Logs reproduce exactly what was logged (spec/LogFile.tla)."""
import random

LABELS = ['x', 'time [s]', '', '@none', '$\\sigma, \\tau$', 'a: b', 'x, "y"', 'a, ylabel: b', 'iteration', '#']
NAMES = ['x', 'u x', '$||r||$', 'a: b', 'e_1', '#z', 'x^2', '0', 'names', '-----']
KINDS = {'{:.3e}': ['float', 'np', 'int', 'complex', 'npc', 'arr', 'arr0', 'nan', 'inf'], '%.8e': ['float', 'np', 'int', 'arr', 'nan', 'inf'],
         '%d': ['int'], '{:.16e}': ['float', 'npc', 'np'], '%s': ['float', 'complex', 'int', 'nan'], '{}': ['float', 'int', 'complex', 'np'], '%.2f': ['float', 'np', 'int']}
KW = [{}, {'color': 'b', 'ls': ':', 'marker': 'o'}, {'lw': 2}, {'label': 'a, b: "c"'}, {'dashes': [2, 1]}]
SPECIAL = {'nan': 10 ** 6, 'inf': 10 ** 6 + 1}


def group(rng):
    n = rng.choice([1, 1, 2, 3])
    fm = [rng.choice(list(KINDS)) for _ in range(n)]
    kwlist = rng.random() < 0.5
    kw = [rng.choice(KW) for _ in range(n)] if kwlist else [rng.choice(KW)]
    g = dict(names=rng.sample(NAMES, n), formats=fm if rng.random() < 0.8 else None, xlabel=rng.choice(LABELS), ylabel=rng.choice(LABELS),
             yscale=rng.choice(['linear', 'log']), kw=kw, kwlist=kwlist)
    if g['formats'] is None: fm = ['{:.3e}'] * n
    g['kinds'] = [KINDS[f] for f in fm]
    lab = lambda v: '' if v == '@none' else v
    g['info'] = dict(xlabel=lab(g['xlabel']), ylabel=lab(g['ylabel']), yscale=g['yscale'], names=g['names'],
                     kw=[repr(sorted(k.items())) for k in (kw if kwlist else kw * n)])
    return g


def val(rng, kinds):
    k = rng.choice(kinds)
    if k in ('nan', 'inf') and rng.random() < 0.6: k = kinds[0]
    v = [rng.randint(-99, 99), rng.randint(-99, 99)]
    if k == 'int': v = [v[0] - v[0] % 4, 0]
    if k not in ('complex', 'npc'): v[1] = 0
    code = v if k not in SPECIAL else [SPECIAL[k] * (-1 if k == 'inf' and v[0] < 0 else 1), 0]
    return [v, k], code


def scenario(h, rng):
    gs = [group(rng) for _ in range(6)]
    late = rng.choice([1, 1, 2, 3])
    n, ops = late, []
    xmode = rng.choice(['inc', 'rep', 'any'])
    for e in h:
        op, w = e['op'], e['w']
        if op in ('log', 'logx', 'some'):
            full = op != 'some'
            igs = list(range(1, n + 1)) if full else sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
            vals = [val(rng, kd) for g in igs for kd in gs[g - 1]['kinds']]
            xs = [[] if rng.random() < 0.3 else [rng.choice([0, 4, 8]) if xmode == 'rep' else rng.randint(-40, 40) if xmode == 'any' else 2 * len(ops)] for _ in range(n)]
            usex = op == 'logx' or (op == 'some' and w % 3 == 0)
            ops.append(dict(op='log', full=full, igs=igs if w % 2 else igs[::-1], usex=usex, x=xs, ys=[v[0] for v in vals], codes=[v[1] for v in vals]))
        elif op in ('vline', 'vsome'):
            full = op == 'vline'
            ops.append(dict(op='vline', full=full, igs=rng.sample(range(1, n + 1), rng.randint(1, n))))
        elif op == 'add':
            if n < len(gs) and w % 2:
                n += 1
                ops.append(dict(op='add'))
        elif op == 'bad':
            vals = [val(rng, kd) for g in gs[:n] for kd in g['kinds']]
            ops.append(dict(op='bad', ys=[v[0] for v in vals], how=['array', 'less', 'more'][w % 3]))
        elif op == 'close':
            if w % 4 == 0: ops.append(dict(op='close'))
        else: ops.append(dict(op=['read', 'save', 'read'][w % 3]))
    s = dict(groups=gs, late=late, ops=ops, conf=rng.random() < 0.3, quiet=rng.random() < 0.2, npx=rng.random() < 0.5, stale=rng.random() < 0.2, crash=-1)
    if rng.random() < 0.15:
        s['crash'] = rng.randint(0, len(ops))
    return s


def run(ctx):
    ctx.model('LogFileMC', ctx.pick('LogFileMC.cfg', 'LogFileMC2.cfg'))
    rng = random.Random(ctx.seed + 21)
    hs = ctx.behaviours('LogFileMC', 'LogFileSim.cfg', depth=16, num=ctx.pick(700, 10000), seed=ctx.seed + 21)
    scns = [scenario(h, rng) for h in hs]
    traces = ctx.drive('log', scns)
    for s, t in zip(scns, traces):
        ops = s['ops']
        if s['crash'] >= 0: ops = [o for o in ops[:s['crash']] if o['op'] != 'read']
        t['scn'] = dict(late=s['late'], groups=[dict(names=g['names'], info=g['info']) for g in s['groups']],
                        ops=[{k: v for k, v in o.items() if k != 'ys'} for o in ops] + [dict(op='read')])
    ctx.info['crashed writers'] = sum(s['crash'] >= 0 for s in scns)
    ctx.validate('LogFileTrace', traces, scns, driver='log')
