"""Meshes as conforming covers (spec/Cover.tla)."""
import random
import sys
sys.path.insert(0, 'harness')
import meshes


def warp(d, rng, perturb):
    """An affine map, graded steps, and moved vertices (where any position is fine)."""
    dim = d['dim']
    steps = [[0], [0], [0]]
    for ax in range(3):
        for _ in range(8): steps[ax].append(steps[ax][-1] + (2 if dim == 2 else 1) * rng.choice([64, 64, 96]))
    sh = [[rng.choice([0, 0, 1]) if j > i else int(i == j) for j in range(dim)] for i in range(dim)]
    out = []
    for x in d['coors']:
        y = [steps[ax][v // 64] for ax, v in enumerate(x)]
        if perturb: y = [v + rng.choice([-perturb, 0, perturb]) for v in y]
        out.append([sum(sh[i][j] * y[j] for j in range(dim)) for i in range(dim)])
    d['coors'] = out
    return d


def base(kind, shape, rng, drop=0):
    return meshes.grid(kind, shape, rng, scale=64, drop=drop)


def shape_of(kind, rng, small=False):
    if kind[0] == '1': return [rng.randint(1, 5)]
    if kind in ('2_3', '2_4', 'mixed2'): return [rng.randint(1, 2 if small else 3), rng.randint(1, 2 if small else 3)]
    if kind == '3_4': return [rng.randint(1, 2), 1, 1]
    s = [1, rng.randint(1, 2), rng.randint(1, 2)]
    rng.shuffle(s)
    return s


def span(d):
    return [max(x[k] for x in d['coors']) - min(x[k] for x in d['coors']) for k in range(d['dim'])]


def chain(rng, h, thorough):
    r = h[0][0] % 8
    if r < 4: # Uniform refinement.
        kind = rng.choice(['1_2', '2_3', '2_3', '2_4', '2_4', '3_4', '3_8', 'mixed2', '3_6'])
        levels = {'1_2': 3, '2_3': 2, '2_4': 2}.get(kind, 1)
        d = base(kind, shape_of(kind, rng, levels > 1), rng, drop=rng.choice([0, 0.3]))
        d = warp(d, rng, {'2_3': 16, '2_4': 16, '3_4': 8}.get(kind))
        if kind == '1_2' and rng.random() < 0.6: # The refinement wants the vertices sorted.
            order = sorted(range(len(d['coors'])), key=lambda k: d['coors'][k])
            mp = {v: k for k, v in enumerate(order)}
            d['coors'] = [d['coors'][k] for k in order]
            d['cells'] = [[a, b, [mp[v] for v in c]] for a, b, c in d['cells']]
        ops = [dict(op='refine') for _ in range(rng.randint(1, levels))]
        if kind in ('3_4', '3_8') and len(d['cells']) == 1: ops.append(dict(op='refine'))
    else:
        kind = ['2_4', '3_8'][r % 2]
        shape = [rng.randint(1, 3), rng.randint(1, 3)] if kind == '2_4' else rng.choice([[2, 1, 1], [2, 2, 1], [2, 2, 1], [2, 2, 2], [3, 1, 1]])
        nops = rng.randint(1, 3 if kind == '2_4' else 2)
        d = warp(base(kind, shape, rng, drop=rng.choice([0, 0, 0.2])), rng, 16 if kind == '2_4' and nops < 3 else 0)
        ops = []
        for n in range(nops):
            bits = rng.choice([rng.randrange(2**20), 1 << rng.randrange(6), 1 << rng.randrange(12), 0, 2**20 - 1 if n == 0 else 2])
            if kind == '3_8' and n > 0: bits = 1 << rng.randrange(20)
            ops.append(dict(op='hang', bits=bits, wild=rng.random() < 0.25))
    return dict(mesh=d, ops=ops)


def other(rng, h):
    kind = rng.choice(['1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6', 'mixed3'])
    d = base(kind, shape_of(kind, rng), rng)
    dim = d['dim']
    steps = [rng.choice([16, 32, 48]) for _ in range(3)]
    if rng.random() < 0.5: d['coors'] = [[v // 64 * steps[k] + 16 * k for k, v in enumerate(x)] for x in d['coors']]
    if rng.random() < 0.3: d['coors'] = [[v - 96 for v in x] for x in d['coors']]
    ops = []
    for x in h:
        k = x[0] % 12
        if k == 0:
            ax = rng.randrange(dim)
            sh = [0] * dim
            sh[ax] = rng.choice([-1, 1]) * span(d)[ax]
            if rng.random() < 0.2: sh[rng.randrange(dim)] += 1000
            ops.append(dict(op='add', shift=sh, mirror=rng.random() < 0.6))
        elif k == 1:
            g = [rng.randint(1, 3) for _ in range(dim)]
            if dim == 3: g = rng.choice([[2, 1, 1], [1, 2, 1], [1, 1, 2], [2, 2, 1], [2, 1, 2], [3, 1, 1]])
            ops.append(dict(op='tile', grid=g))
        elif k in (2, 3, 4) and dim == 2:
            wtt = rng.random() < 0.6
            if kind == 'mixed2' and rng.random() < 0.7: wtt = False
            w = rng.randrange(3)
            if w == 0: ops.append(dict(op='extrude', dz=rng.choice([16, 40]), nz=rng.randint(1, 3), wtt=wtt))
            elif w == 1: ops.append(dict(op='bend', cline=[[0, 0, 0], [0, 0, 100], [20, 0, 250], [20, 10, 400]][:rng.randint(2, 4)],
                                         twist=rng.choice([None, 0.1]), wtt=wtt))
            else:
                phi = rng.choice([None, 90., 200.])
                ops.append(dict(op='revolve', nphi=rng.choice([5, 6, 8]), v=[0, rng.choice([1., 2.]), 0], phi=phi, wtt=wtt))
        elif k in (5, 6) and dim == 3:
            ops.append(dict(op='mirror', axis=rng.randrange(3), side=rng.randrange(2), len=rng.choice([1, 3])))
        elif k in (7, 8) or (k in (5, 6)):
            how = rng.choice(['one', 'list', 'range'])
            v = rng.randrange(3) if how == 'one' else sorted(rng.sample(range(4), 2))
            ops.append(dict(op=['cgroup', 'ngroup'][k % 2], value=v, how=how, only=rng.random() < 0.6))
        elif k in (9, 10):
            ops.append(dict(op='merge', how=['merge', 'fix'][k % 2], keep=rng.choice([[5, 0], [5, 2], [3, 1], [4, 3]])))
        else:
            ops.append(dict(op='tri'))
    if kind in ('3_8', 'mixed3', '3_6'):
        ops = [o for o in ops if o['op'] != 'tri']
        if kind == '3_8' and rng.random() < 0.3:
            return dict(mesh=plain_hexes(rng), ops=[dict(op='tri')])
    if kind in ('mixed2',): ops = [o for o in ops if o['op'] != 'tri']
    if rng.random() < 0.3: d['vg'] = [rng.choice([0, 1]) for _ in d['vg']]
    return dict(mesh=d, ops=ops)


def plain_hexes(rng):
    s = [rng.randint(1, 2) for _ in range(3)]
    n = lambda i, j, k: (i * (s[1] + 1) + j) * (s[2] + 1) + k
    coors = [[32 * i, 48 * j + 16 * i, 64 * k] for i in range(s[0] + 1) for j in range(s[1] + 1) for k in range(s[2] + 1)]
    cells = [['3_8', rng.randrange(3), [n(i, j, k), n(i + 1, j, k), n(i + 1, j + 1, k), n(i, j + 1, k),
                                        n(i, j, k + 1), n(i + 1, j, k + 1), n(i + 1, j + 1, k + 1), n(i, j + 1, k + 1)]]
             for i in range(s[0]) for j in range(s[1]) for k in range(s[2])]
    return dict(dim=3, coors=coors, vg=[rng.randrange(3) for _ in coors], cells=cells)


def gen(rng):
    k = rng.choice(['block', 'block', 'cyl', 'cyl', 'cyl', 'ext', 'vox', 'vox'])
    if k == 'block':
        dim = rng.choice([1, 2, 2, 3])
        shape = [rng.randint(2, 5) for _ in range(dim)] if dim < 3 else [rng.randint(2, 3) for _ in range(dim)]
        return dict(kind=k, dims=[(n - 1) * rng.choice([6, 8, 20]) for n in shape], shape=shape,
                    centre=[rng.randint(-30, 30) for _ in shape], mat=rng.randrange(5), scale=1.0)
    if k == 'cyl':
        is_open = rng.random() < 0.5
        a1, b1 = rng.choice([(50., 50.), (40., 60.), (70., 30.)])
        a2, b2 = rng.choice([(100., 100.), (120., 90.), (130., 100.)])
        return dict(kind=k, dims=[a1, b1, a2, b2, rng.choice([200., 200., 0.])], shape=[rng.randint(2, 3), rng.randint(4, 7), rng.randint(2, 3)],
                    centre=[float(rng.randint(-20, 20)) for _ in range(3)], axis=rng.choice('xyz'), hollow=rng.random() < 0.5,
                    open=is_open, angle=0.3 if is_open else 0.0, nonu=rng.random() < 0.4, make2d=rng.random() < 0.3, scale=1.01)
    if k == 'ext':
        b = [rng.choice([1., 2.]) for _ in range(3)]
        return dict(kind=k, b_dims=b, b_shape=[rng.randint(2, 3) for _ in range(3)], e_dims=[v + rng.choice([6., 8.]) for v in b],
                    e_shape=rng.choice([3, 4]), centre=[rng.choice([0., 0.5, -1.]) for _ in range(3)],
                    fun=rng.choice(['none', 'lin', 'quad']), scale=100.0)
    dim = rng.choice([2, 3])
    shape = [rng.randint(1, 4), rng.randint(1, 4)] if dim == 2 else [rng.randint(1, 3) for _ in range(3)]
    def arr(sh): return [arr(sh[1:]) for _ in range(sh[0])] if sh else int(rng.random() < 0.6)
    v = arr(shape)
    w = v
    for _ in range(dim - 1): w = w[0]
    w[0] = 1
    return dict(kind=k, vox=v, dims=[rng.choice([4, 10]) for _ in range(dim)], etype=rng.choice('qt'), scale=1.0)


def run(ctx):
    for k in ['tri', 'quad', 'tet', 'hex']:
        ctx.model('CoverMC', 'CoverMC_%s%s.cfg' % (k, '' if ctx.quick else '2'))
    rng = random.Random(ctx.seed + 14)
    scns = []
    for h in ctx.behaviours('CoverMC', 'CoverSim.cfg', depth=6, num=ctx.pick(420, 4200), seed=ctx.seed + 14):
        r = h[0][1] % 7
        if r == 0: s = dict(gen=gen(rng))
        elif r < 4: s = chain(rng, h, not ctx.quick)
        else: s = other(rng, h)
        if not s.get('gen') and (not s['ops']): continue
        scns.append(s)
    traces = ctx.drive('cover', scns)
    evs = [e for t in traces for e in t.get('ev', [])]
    ctx.info['operations'] = {o: sum(e['op'] == o for e in evs) for o in sorted({e['op'] for e in evs})}
    ctx.info['refused'] = sum(not e['ok'] for e in evs)
    ctx.validate('CoverTrace', traces, scns, driver='cover')
