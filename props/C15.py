"""Field DOFs are shared exactly where mesh entities are shared (spec/FieldDofs.tla)."""
import random
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')

BASES = {'1_2': ['lagrange', 'sem', 'lobatto', 'bernstein'], '2_3': ['lagrange', 'lagrange', 'bernstein'], '2_4': ['lagrange', 'lagrange', 'lobatto', 'serendipity', 'sem', 'bernstein'],
         '3_4': ['lagrange', 'lagrange', 'bernstein'], '3_8': ['lagrange', 'lagrange', 'lobatto', 'lobatto', 'serendipity', 'sem', 'bernstein']}


def scenario(h, rng):
    import meshes
    desc = rng.choice(['1_2', '2_3', '2_3', '2_4', '2_4', '3_4', '3_4', '3_8', '3_8', '3_8', '3_8'])
    basis = rng.choice(BASES[desc])
    face = desc == '3_8' and rng.random() < 0.5
    dim = int(desc[0])
    top = {'1_2': 6, '2_3': 6, '2_4': 5, '3_4': 5, '3_8': 4}[desc]
    order = rng.randint(1, top)
    if face: basis, order = rng.choice(['lagrange', 'lobatto']), rng.choice([3, 3, 4]) # All the orientations of faces.
    if basis == 'serendipity': order = rng.randint(1, 3)
    if basis == 'lagrange' and not face and rng.random() < 0.2: order = rng.choice([0, '1B', '2B', '1d', '2d'] if desc in ('2_3', '3_4') else [0, '1d', '2d'])
    big = order if isinstance(order, int) else 2
    if dim == 1: shape = [rng.randint(1, 5)]
    elif dim == 2: shape = [rng.randint(1, 3), rng.randint(1, 2 if big > 3 else 3)]
    elif desc == '3_4': shape = [1, 1, 1] if big > 3 else [rng.choice([1, 1, 2]), 1, 1]
    else:
        shape = [2, 1, 1] if big > 3 else [2, 2, 1] if big > 2 else [2, rng.choice([1, 2]), rng.choice([1, 1, 2])]
        rng.shuffle(shape)
    d = meshes.grid(desc, shape, rng, drop=rng.choice([0, 0, 0.2]))
    affine = True
    # Reversed numbers of vertices test other orientations; sheared cells stay affine.
    if dim > 1 and rng.random() < 0.6:
        s = [rng.randint(-1, 1) for _ in range(dim)]
        d['coors'] = [[3 * c[0] + s[1] * c[-1]] + [3 * v + s[0] * (c[0] if a == 0 else 0) for a, v in enumerate(c[1:])] for c in d['coors']]
    if dim > 1 and rng.random() < 0.3:
        d['coors'] = [[4 * v + rng.randint(0, 1) for v in c] for c in d['coors']]
        affine = desc in ('2_3', '3_4')
    n = len(d['cells'])
    cells = None if rng.random() < 0.65 or n < 2 else sorted(rng.sample(range(n), rng.randint(1, n - 1)))
    return dict(mesh=d, basis=basis, order=order, cells=cells, shape=rng.choice([1, 1, dim if dim > 1 else 1]), cplx=rng.random() < 0.1, affine=affine, seed=rng.randint(0, 9999), hist=h)


def hanging(rng):
    import meshes
    desc = rng.choice(['2_4', '3_8'])
    dim = int(desc[0])
    shape = [rng.randint(1, 3) for _ in range(2)] if dim == 2 else rng.choice([[2, 1, 1], [2, 2, 1], [2, 2, 2]])
    d = meshes.grid(desc, shape, rng, scale=4)
    n = len(d['cells'])
    return dict(mesh=d, basis='lagrange', order=rng.randint(1, 4 if dim == 2 else 3), cells=None, shape=1, cplx=False, affine=True, seed=rng.randint(0, 9999), hist=[], hang=sorted(rng.sample(range(n), rng.randint(1, max(1, n // 2)))))


def run(ctx):
    for m in ctx.pick(['tet', 'hex'], ['line', 'tri', 'quad', 'tet', 'hex']): ctx.model('FieldDofsMC', 'FieldDofsMC_%s.cfg' % m)
    rng = random.Random(ctx.seed + 15)
    hs = ctx.behaviours('FieldDofsMC', 'FieldDofsSim.cfg', depth=11, num=ctx.pick(600, 4000), seed=ctx.seed + 15)
    scns = [hanging(rng) if n % 8 == 7 else scenario(h, rng) for n, h in enumerate(hs)]
    traces = ctx.drive('field', scns)
    evs = [e for t in traces for e in t.get('ev', [])]
    ctx.info['events'] = {op: sum(e['op'] == op for e in evs) for op in ('field', 'region', 'setdofs', 'poly', 'surf', 'sub', 'cont', 'hang', 'none')}
    ctx.info['bases'] = {b: sum(s['basis'] == b for s in scns) for b in ('lagrange', 'lobatto', 'serendipity', 'sem', 'bernstein')}
    ctx.validate('FieldDofsTrace', traces, scns, driver='field')
