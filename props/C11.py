"""Materials (spec/Mats.tla)."""
import random

REGS = ['Omega', 'L', 'R', 'M', 'B', 'C']


def make(rng, h):
    n_mat = rng.randint(1, 3)
    mats = []
    for _ in range(n_mat):
        typ = rng.choice(['fn', 'fn', 'const', 'reg'])
        num = lambda: [rng.randint(-4, 6), rng.choice([0, 0, 2, -1])]
        mats.append(dict(kind=rng.choice(['td', 'td', 'st']), typ=typ, val=num(), conf=rng.random() < 0.5,
                         kw=rng.random() < 0.5, sconst=typ == 'const' and rng.random() < 0.5,
                         reg=[[r, num()] for r in rng.sample(['Omega', 'L', 'R', 'M'], rng.randint(1, 3))]))
    eqs = []
    for _ in range(rng.randint(1, 3)):
        eqs.append([[rng.randrange(n_mat), rng.choice(REGS), rng.choice([1, 1, 2, 3])]
                    for _ in range(rng.randint(1, 4))])
    keys = sorted({'%s:%d' % (r, o) for q in eqs for _, r, o in q})
    keys += [k for k in ['Omega:1', 'B:2'] if k not in keys]
    ops, uid, fid = [], 500, 2
    for x in h:
        a, b = max(x['a'], 0), max(x['b'], 0)
        m = a % n_mat
        if x['op'] == 'upd':
            ops.append(dict(op='upd', m=-1 if b % 3 == 0 else m, mode={'normal1': 'normal'}.get(x['mode'], x['mode']),
                            fail=0, eqs=(a + b) % (len(eqs) + 1) if b % 4 else 1))
            if ops[-1]['m'] >= 0 and rng.random() < 0.2: ops[-1]['fail'] = rng.randint(1, 3)
        elif x['op'] == 'reset':
            ops.append(dict(op='reset', m=-1 if b % 3 == 0 else m))
        elif x['op'] == 'setfn':
            if mats[m]['sconst']: continue
            ops.append(dict(op='setfn', m=m, fn=1 + b % 4))
        elif x['op'] == 'user':
            n = 1 + b % min(3, len(keys))
            ops.append(dict(op='user', m=m, keys=[keys[(b + j) % len(keys)] for j in range(n)], id=uid))
            uid += 10
        elif x['op'] in ('extra', 'fextra'):
            ops.append(dict(op=x['op'], m=m, x=b % 5 + (x['op'] == 'fextra')))
        elif x['op'] == 'get':
            ops.append(dict(op='get', m=m, key=keys[b % len(keys)], form=a % 2,
                            name=rng.choice(['val', 'val', 'val', 'two', 'flag', 'const'])))
        elif x['op'] == 'eval':
            q = a % len(eqs)
            ops.append(dict(op='eval', m=0, eqs=q + 1, term=b % len(eqs[q])))
        else:
            ops.append(dict(op='tick', m=0))
        if x['op'] == 'upd':
            q = max(ops[-1]['eqs'], 1) - 1
            ops.append(dict(op='eval', m=0, eqs=q + 1, term=b % len(eqs[q])))
            ops.append(dict(op='get', m=m, key=keys[b % len(keys)], form=a % 2,
                            name=rng.choice(['val', 'val', 'two', 'flag', 'const'])))
    return dict(c=dict(mats=mats, eqs=eqs, style=[rng.randrange(4) for _ in range(4)]), ops=ops)


def run(ctx):
    ctx.model('MatsMC', 'MatsMC.cfg' if ctx.quick else 'MatsMC2.cfg')
    rng = random.Random(ctx.seed + 11)
    scns = [make(rng, h) for h in ctx.behaviours('MatsMC', 'MatsSim.cfg', depth=40,
                                                 num=ctx.pick(800, 10000), seed=ctx.seed + 11)]
    traces = ctx.drive('mats', scns)
    ctx.info['updates'] = sum(e['op'] == 'upd' for t in traces for e in t.get('ev', []))
    ctx.info['function_calls'] = sum(len(e['calls']) for t in traces for e in t.get('ev', []))
    ctx.validate('MatsTrace', traces, scns, driver='mats')
