"""Homogenization requirements (spec/Homog.tla)."""
import random

REQS = ['a', 'b', 'ab', 'a1', 'pis', 'corrs', 'corrs_rs']
COEFS = ['A', 'A1', 'AB', 'B', 'D']


def make(rng, h):
    """A random graph and calls from numbers in the generated history."""
    reqs = REQS[:]
    rng.shuffle(reqs)
    reqs = reqs[:h[0][0] % 6]
    coefs = COEFS[:]
    rng.shuffle(coefs)
    coefs = coefs[:1 + h[0][1] % 4]
    # A common order: requirements and coefficients can depend on each other.
    order = ['r' + n for n in reqs] + ['c' + n for n in coefs]
    rng.shuffle(order)
    if h[0][2] % 3: order.sort(key=lambda q: q[0] == 'c')
    full = lambda q: q[1:] if q[0] == 'r' else 'c.' + q[1:]
    requires = {}
    kinds = {n: rng.choice(['fake', 'fake', 'eval']) for n in coefs}
    for j, q in enumerate(order):
        cands = order[:j]
        if q[0] == 'c' and kinds[q[1:]] == 'eval':
            cands = [x for x in cands if x[0] == 'c'] if rng.random() < 0.7 else cands
        k = min(len(cands), rng.choice([0, 1, 1, 2, 2, 3]))
        requires[q] = [full(x) for x in rng.sample(cands, k)]
    r = h[0][3]
    if r == 0 and len(order) > 1:
        a, b = rng.sample(order, 2)
        requires[a].append(full(b)); requires[b].append(full(a))
    elif r == 1:
        requires[rng.choice(order)].append('missing')
    elif r == 2:
        q = rng.choice(order)
        requires[q].append(full(q))
    n_micro = rng.choice([0, 0, 1, 2, 3, 5])
    c = dict(reqs=[[n, requires['r' + n]] for n in reqs],
             coefs=[[n, requires['c' + n], kinds[n], rng.choice(['none', 'none', 'main', 'auxiliary'])] for n in coefs],
             only=rng.sample(coefs, rng.randint(1, len(coefs))) if rng.random() < 0.3 else [],
             volumes=[['total', 2]] + ([['fluid', 3]] if rng.random() < 0.3 else []),
             save=[n for n in reqs if rng.random() < 0.5], filenames=rng.random() < 0.5,
             explicit=rng.random() < 0.5, chunk=rng.choice([1, 1, 2, 3, 4]), per_worker=rng.choice([0, 0, 0, 1, 2]),
             store=sorted(rng.sample(range(n_micro), rng.randint(0, n_micro))) if n_micro else [])
    ops = []
    names = [full(q) for q in order if q[0] == 'r' or kinds[q[1:]] == 'fake']
    for x in h[1:1 + rng.choice([1, 2, 2, 3])]:
        fail = [rng.choice(names), rng.choice([-1, rng.randrange(n_micro)]) if n_micro else -1] \
            if x[0] % 5 == 0 and names else []
        ops.append(dict(multi=int(x[1] % 3 > 0), workers=1 + x[2] % 4, seed=x[3] * 24 + x[4], new=x[5] % 4 == 0,
                        n_micro=n_micro, base=10 * (1 + x[6] % 3), tag=rng.choice(['', '_t%03d' % x[7]]), fail=fail))
    return dict(c=c, ops=ops)


def run(ctx):
    ctx.model('HomogMC', 'HomogMC.cfg' if ctx.quick else 'HomogMC2.cfg')
    rng = random.Random(ctx.seed + 16)
    scns = [make(rng, h) for h in ctx.behaviours('HomogMC', 'HomogSim.cfg', depth=14,
                                                 num=ctx.pick(500, 8000), seed=ctx.seed + 16)]
    traces = ctx.drive('homog', scns)
    ctx.info['calls'] = sum(len(t.get('ev', [])) for t in traces)
    ctx.info['items_computed'] = sum(len(e['log']) for t in traces for e in t.get('ev', []))
    ctx.validate('HomogTrace', traces, scns, driver='homog')
