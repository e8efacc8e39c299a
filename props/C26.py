"""Evaluation in points and probes (spec/Locate.tla)."""
import random
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')


def poly(rng, dim, order, simplex):
    es = [[0] * dim]
    for d in range(dim): es.append([int(k == d) for k in range(dim)])
    if order == 2:
        for d in range(dim):
            for c in range(d, dim): es.append([int(k == d) + int(k == c) for k in range(dim)])
    return [dict(c=rng.choice([-3, -2, -1, 1, 2, 4]), e=e) for e in es if rng.random() < 0.8] or [dict(c=1, e=es[0])]


def scenario(h, rng):
    import meshes
    desc = rng.choice(['1_2', '2_3', '2_3', '2_4', '2_4', '3_4', '3_4', '3_8', '3_8'])
    dim = int(desc[0])
    shape = [rng.randint(1, 5)] if dim == 1 else [rng.randint(1, 3), rng.randint(1, 2)] if dim == 2 else [rng.randint(1, 2), 1, 1]
    convex = rng.random() < 0.6
    d = meshes.grid(desc, shape, rng, drop=0 if convex else 0.25)
    d['dim'] = dim
    # Graded coordinates and an affine image.
    if rng.random() < 0.5:
        grade = []
        for j in range(dim):
            g = [0]
            for _ in range(max(x[j] for x in d['coors'])): g.append(g[-1] + rng.choice([1, 1, 2]))
            grade.append(g)
        d['coors'] = [[grade[j][int(x[j])] for j in range(dim)] for x in d['coors']]
    A = [[int(i == j) for j in range(dim)] for i in range(dim)]
    if dim > 1 and rng.random() < 0.6:
        i, j = rng.sample(range(dim), 2)
        A[i][j] = rng.choice([-1, 1])
    off = [rng.randint(-2, 2) for _ in range(dim)]
    d['coors'] = [[off[i] + sum(A[i][j] * x[j] for j in range(dim)) for i in range(dim)] for x in d['coors']]
    n = len(d['cells'])
    part = sorted(rng.sample(range(n), rng.randint(1, n - 1))) if n > 1 and rng.random() < 0.5 else []
    fields = []
    for k in range(rng.randint(1, 3)):
        order = rng.choice([0, 1, 1, 2])
        nc = 1 if order == 0 else rng.choice([1, dim])
        fields.append(dict(order=order, nc=nc, region='Part' if part and rng.random() < 0.5 else 'Omega', cplx=rng.random() < 0.15, poly=[poly(rng, dim, order, 1) for _ in range(nc)]))
    if not any(f['region'] == 'Omega' for f in fields): fields[0]['region'] = 'Omega'
    lo = [min(x[k] for x in d['coors']) for k in range(dim)]
    hi = [max(x[k] for x in d['coors']) for k in range(dim)]

    def point():
        m = rng.choice([0, 0, 0, 1, 3, 6])
        p = [rng.randint(2 * lo[k] - m, 2 * hi[k] + m) for k in range(dim)]
        if rng.random() < 0.2: p = [2 * x for x in rng.choice(d['coors'])]
        return p
    points = [[point() for _ in range(rng.choice([1, 4, 10]))] for _ in range(3)]
    probes = []
    for _ in range(rng.randint(0, 3) if dim > 1 else 0):
        k = rng.choice(['points', 'line', 'line', 'ray', 'circle'])
        p = dict(k=k, share=rng.random() < 0.5)
        if k == 'points':
            p['pts'] = [point() for _ in range(rng.choice([1, 3, 6]))]
            p['total'] = len(p['pts'])
        else:
            a = [rng.randint(lo[k] - 1, hi[k] + 1) for k in range(dim)]
            v, ln = rng.choice([([1, 0, 0], 1), ([0, 2, 0], 2), ([3, 4, 0], 5), ([-4, 0, 0], 4), ([4, -3, 0], 5)] + ([([1, 2, 2], 3), ([0, 0, -2], 2), ([2, -1, 2], 3)] if dim == 3 else []))
            if k == 'line': p.update(p0=a, p1=[x + y for x, y in zip(a, v)], len=ln, n=rng.choice([2, 4, 5, 7, -3, None, 10]))
            elif k == 'ray':
                both = rng.random() < 0.5
                m = rng.randint(2, 6)
                p.update(p0=a, dir=v[:dim], len=ln, n=m, both=both, total=2 * m if both else m)
            else: p.update(c=a, r=rng.randint(1, 2), nrm=rng.choice([[0, 0, 1], [1, 0, 0], [1, 2, -2], [0, 0, -1], [1, 0, 12], [0, -1, 1], [1, 0, -15]]) if dim == 3 else [0, 0, 1], n=rng.choice([4, 5, 8, -6, None]))
        probes.append(p)
    c = dict(mesh=d, part=part, convex=convex, fields=fields, points=points, probes=probes)
    return dict(c=c, hist=h)


def geo(c, cells):
    d = c['mesh']
    desc = d['cells'][0][0]
    return dict(dim=d['dim'], simplex=desc in ('1_2', '2_3', '3_4'), coors=d['coors'], cells=[[v + 1 for v in x[2]] for k, x in enumerate(d['cells']) if k in cells])


def run(ctx):
    ctx.model('LocateMC', 'LocateMC.cfg')
    rng = random.Random(ctx.seed + 26)
    hs = ctx.behaviours('LocateMC', 'LocateSim.cfg', depth=11, num=ctx.pick(300, 2500), seed=ctx.seed + 26)
    scns = [scenario(h, rng) for h in hs]
    traces = ctx.drive('locate', scns)
    evs = [e for t in traces for e in t.get('ev', [])]
    ctx.info['events'] = {op: sum(e['op'] == op for e in evs) for op in ('at', 'plain', 'probe')}
    ctx.info['points'] = sum(len(e['pts']) for e in evs if e['op'] != 'probe')
    ctx.info['status'] = {s: sum(e['status'].count(s) for e in evs if e['op'] == 'at') for s in range(6)}
    for t, s in zip(traces, scns):
        c = s['c']
        n = len(c['mesh']['cells'])
        t['c'] = dict(fields=[dict(f) for f in c['fields']], probes=[{k: v for k, v in p.items() if v is not None} for p in c['probes']], geo=dict(Omega=geo(c, range(n)), Part=geo(c, c['part'] or range(n))))
    ctx.validate('LocateTrace', traces, scns, driver='locate')
