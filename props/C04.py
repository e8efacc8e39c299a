"""Equation text and term arithmetic (spec/EqText.tla)."""
import random

VARS = ['u', 'd', 'du', 'tr', 'dt', 'p1', 'E', 'j']
REG = ['Omega', 'Y_1', 'i', 'a', 'Bottom', 'i1']
BAD = ['noclose', 'open', 'opennum', 'closenum', 'twoeq', 'trail', 'trailminus', 'eq', 'lead',
       'nonum', 'number', 'twodots', 'empty', 'junk', 'mul', 'nocomma', 'history', 'unkterm',
       'unkreg', 'unkvar', 'unkmat', 'unkint', 'nomat', 'fewargs', 'manyargs']


def make(rng, pres):
    names = rng.sample(VARS, rng.randint(2, 4))
    if 'u' not in names: names[0] = 'u'
    unknown = [rng.random() < 0.5 for _ in names]
    mats = {n: {p: rng.randint(1, 3) for p in ['c', 'd_t', 'k2']} for n in ['m', 'dm', 'tr_1']}
    values = {n: [rng.randint(-3, 3) for _ in range(3)] for n in names}
    unk = [n for n, x in zip(names, unknown) if x]
    pres = list(pres)

    def var(hist=True, tr=False):
        a = dict(k='var', n=rng.choice(names), step=0, der=False, tr=False, treg='', showstep=False)
        if hist and rng.random() < 0.4:
            a['step'], a['showstep'] = rng.choice([(-1, True), (-2, True), (-1, True), (0, True)])
        if hist and rng.random() < 0.3 and a['step'] > -2:
            a['der'] = True
            if a['step'] == 0 and a['showstep']: a['showstep'] = False
        if tr and rng.random() < 0.5 and not a['der']:
            a['tr'], a['treg'] = True, rng.choice(['', 'Bottom', 'i1', 'Y_1'])
        return a

    def mat():
        return dict(k='mat', n=rng.choice(sorted(mats)), par=rng.choice(['c', 'd_t', 'k2']),
                    step=0, der=False, tr=False, treg='', showstep=False)

    def term(kind):
        if kind == 'weak' and unk:
            n = rng.choice(['dw_dot', 'dw_laplace', 'dw_integrate'])
            v = dict(k='var', n='v' + rng.choice(unk), step=0, der=False, tr=False, treg='', showstep=False)
            args = [v] + ([] if n == 'dw_integrate' else [var()])
            if rng.random() < 0.5: args.insert(0, mat())
            reg = rng.choice(REG[:4])
        elif kind == 'trace':
            n, args, reg = 'dw_dot', [var(), var(True, True)], rng.choice(REG)
        else:
            n = rng.choice(['ev_integrate', 'dw_dot', 'ev_integrate', 'dw_dot', 'ev_volume'])
            args = [var()] + ([var()] if n == 'dw_dot' else [])
            if n == 'ev_volume': args[0].update(step=0, der=False, showstep=False)
            elif rng.random() < 0.5: args.insert(0, mat())
            reg = rng.choice(REG)
        return dict(name=n, args=args, region=reg, integral=rng.choice(['i', 'i1', 'i2b', 'ix', '1', '3', '2']),
                    flag=rng.choice(['', '', '.a']))

    def terms(kind, n):
        out = []
        side = 'l'
        for k in range(n):
            t = term(kind)
            if k and side == 'l' and rng.random() < 0.4: side = 'r'
            t['side'] = side
            t['pre'] = pres.pop(0) if pres and rng.random() < 0.6 else []
            t['sign'] = rng.choice(['+', '-', '', '-']) if not t['pre'] else ''
            out.append(t)
        # Prefactors of not the first terms begin with a sign, unless after '='.
        for k in range(1, n):
            t, s = out[k], out[k - 1]
            if s['side'] == t['side']:
                if t['pre'] and t['pre'][0]['s'][0] not in '+-':
                    sg = rng.choice('+-')
                    t['pre'] = [dict(k=sg, s=sg)] + t['pre']
                elif not t['pre'] and not t['sign']:
                    t['sign'] = rng.choice('+-')
        return out

    ops = []
    for _ in range(rng.randint(2, 3)):
        kind = rng.choice(['eval', 'eval', 'weak', 'trace'])
        if kind == 'weak' and not unk: kind = 'eval'
        tt = terms(kind, rng.randint(1, 4))
        ops.append(dict(op='text', terms=tt, zero=tt[-1]['side'] == 'l' and rng.random() < 0.3,
                        evaluate={'eval': 2, 'weak': 1, 'trace': 0}[kind]))
    for _ in range(2):
        ops.append(dict(op='bad', terms=terms('eval', 1), how=rng.choice(BAD), k=rng.randrange(100)))
    n, ids = 0, 0
    for _ in range(rng.randint(4, 9)):
        if n < 2 or rng.random() < 0.2:
            t = term('eval')
            while len({a['n'] for a in t['args'] if a['k'] == 'var'}) < sum(a['k'] == 'var' for a in t['args']):
                t = term('eval')
            ops.append(dict(op='new', id='t%d' % ids, term=t))
            ids += 1
        else:
            k = rng.choice(['add', 'add', 'sub', 'neg', 'pos', 'mul', 'rmul', 'eqn'])
            o = dict(op=k, a=rng.randrange(n), b=rng.randrange(n))
            if k in ('mul', 'rmul'):
                o['x'] = rng.choice([[40, 0], [-20, 0], [0, 20], [60, 0], [20, 20], [-40, 0]])
                o['form'] = rng.randrange(2)
            ops.append(o)
            if k == 'eqn': continue
        n += 1
    ops.append(dict(op='eqn', a=n - 1, b=0))
    return dict(c=dict(vars=names, unknown=unknown, mats=mats, values=values,
                       seed=rng.randrange(10**6)), ops=ops)


def run(ctx):
    ctx.model('EqTextMC', 'EqTextMC.cfg')
    if not ctx.quick: ctx.model('EqTextMC', 'EqTextMC2.cfg')
    rng = random.Random(ctx.seed + 4)
    scns = [make(rng, h) for h in ctx.behaviours('EqTextMC', 'EqTextSim.cfg', depth=120,
                                                 num=ctx.pick(900, 12000), seed=ctx.seed + 4)]
    traces = ctx.drive('eqtext', scns)
    ctx.info['equations'] = sum(e['op'] == 'text' for t in traces for e in t.get('ev', []))
    ctx.validate('EqTextTrace', traces, scns, driver='eqtext')
