"""Mesh connectivity (spec/MeshTopo.tla)."""
import random


def shear(rng, md):
    """Random integer affine map of determinant +-1 or 2, keeping the
    orientation."""
    n = md['dim']
    A = [[int(i == j) for j in range(n)] for i in range(n)]
    if n > 1:
        for _ in range(rng.randint(0, 2)):
            i, j = rng.sample(range(n), 2)
            s = rng.choice([-1, 1])
            A[i] = [a + s * b for a, b in zip(A[i], A[j])]
        if rng.random() < 0.3:
            A[0] = [2 * a for a in A[0]]
    md['coors'] = [[sum(A[i][j] * c[j] for j in range(n)) for i in range(n)]
                   for c in md['coors']]
    return md


def counts(md):
    import meshes
    D = md['dim']
    es = [set(), set()]
    for d, _, c in md['cells']:
        for k, key in enumerate(('edges', 'faces')):
            for e in meshes.REF[d][key]:
                es[k].add(frozenset(c[i] for i in e))
    n = [len(md['coors'])]
    if D > 1: n.append(len(es[0]))
    if D > 2: n.append(len(es[1]))
    return n + [len(md['cells'])]


def random_mesh(rng):
    import meshes
    md = shear(rng, meshes.random_mesh(rng))
    # Random numbers of the vertices stay; flip some cells.
    return md


def queries(rng, md, n):
    D = md['dim']
    num = counts(md)
    pairs = [(a, b) for a in range(D + 1) for b in range(D + 1)]
    ev = []

    def ids(d, lo=0):
        k = rng.randint(lo, num[d])
        if rng.random() < 0.4: k = min(k, 4)
        s = rng.sample(range(num[d]), k)
        return s if rng.random() < 0.5 else sorted(s)
    for _ in range(n):
        op = rng.choice(['setup'] * 4 + ['free'] * 3 + ['graph', 'inc', 'inc', 'inc',
                        'complete', 'surf', 'geom', 'ori', 'normals', 'new'])
        a, b = rng.choice(pairs)
        if op in ('setup', 'graph'):
            ev.append(dict(op=op, a=a, b=b))
        elif op == 'free':
            if (a, b) != (D, 0):
                ev.append(dict(op=op, a=a, b=b))
        elif op == 'inc':
            ev.append(dict(op=op, a=a, b=b, ids=ids(b)))
        elif op == 'complete' and a != b:
            ev.append(dict(op=op, a=a, b=b, ids=ids(b)))
        elif op == 'surf':
            ev.append(dict(op=op))
        elif op == 'geom':
            d = rng.randint(0, D)
            ev.append(dict(op=op, d=d))
        elif op == 'ori' and D > 1:
            ev.append(dict(op=op, d=rng.randint(1, D - 1)))
        elif op == 'normals' and D > 1:
            ev.append(dict(op=op, which=rng.choice([-1, 0, 1])))
        elif op == 'new':
            if rng.random() < 0.2:
                ev.append(dict(op=op, d=-1))
            else:
                d = rng.randint(1, D)
                ev.append(dict(op=op, d=d, ids=sorted(ids(d, 1)),
                               localize=rng.random() < 0.6))
    return ev


def run(ctx):
    import meshes
    ctx.model('MeshTopoMC', 'MeshTopoMC.cfg')
    beh = ctx.behaviours('MeshTopoMC', 'MeshTopoSim.cfg',
                         num=ctx.pick(80, 800), depth=11)
    rng = random.Random(ctx.seed + 3)
    scns = []
    dims = {1: (1,), 2: (2,), 3: (3,)}
    for h in beh:
        md = shear(rng, meshes.random_mesh(rng, dims=dims[h['D']]))
        scns.append(dict(mesh=md, ev=[dict(op=x['o'], a=x['a'], b=x['b'])
                                      for x in h['h']]))
    for k in range(ctx.pick(160, 2500)):
        md = random_mesh(rng)
        s = dict(mesh=md)
        if rng.random() < 0.3: # Wrongly oriented cells to be fixed up.
            s['oriented'] = False
            for c in md['cells']:
                if rng.random() < 0.5: flip(c)
        s['ev'] = queries(rng, md, 8)
        scns.append(s)
    traces = ctx.drive('cmesh', scns)
    ctx.validate('MeshTopoTrace', traces, scns, driver='cmesh')


def flip(c):
    v = c[2]
    if c[0] == '1_2': c[2] = v[::-1]
    elif c[0] in ('2_3', '2_4'): c[2] = [v[0]] + v[:0:-1]
    elif c[0] == '3_4': c[2] = [v[0], v[2], v[1], v[3]]
    else:
        h = len(v) // 2
        c[2] = v[h:] + v[:h]
