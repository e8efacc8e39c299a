"""Periodic and mirror matching pairs each entity with its image (spec/Matching.tla)."""
import random
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')


def points(h, rng):
    dim = rng.choice([1, 2, 2, 3, 3])
    side = rng.choice([2, 3, 5])
    def new():
        n = rng.choice([1, 2, 3, 4, 6, 9])
        out = []
        for _ in range(50):
            p = [rng.randint(0, side) for _ in range(dim)]
            if p not in out: out.append(p)
            if len(out) == n: break
        return out
    axis = rng.randint(1, dim)
    def flat(P): # Points in a plane, each once.
        out = []
        for p in P:
            p = [0 if k == axis - 1 else v for k, v in enumerate(p)]
            if p not in out: out.append(p)
        return out
    P = flat(new()) if rng.random() < 0.6 else new()
    d = [rng.randint(-2, 2) for _ in range(dim)]
    if not any(d): d[0] = 1
    m = rng.choice([-2, 1, 1, 3])
    Q = [[a + m * b for a, b in zip(p, d)] for p in P]
    out = []
    for e in h:
        w, op = e['w'], e['op']
        if op == 'perm1': rng.shuffle(P)
        elif op == 'perm2': rng.shuffle(Q)
        elif op == 'permboth':
            z = list(range(len(P)))
            rng.shuffle(z)
            if len(Q) == len(P): Q = [Q[k] for k in z]
            P = [P[k] for k in z]
        elif op == 'move':
            k = w % len(Q)
            Q[k] = list(Q[k])
            Q[k][w % dim] += 1 if w % 2 else -1
        elif op == 'drop' and len(Q) > 1: Q.pop(w % len(Q))
        elif op == 'double' and len(Q) > 1 and w % 3 == 0: Q[w % len(Q)] = list(Q[(w + 1) % len(Q)])
        elif op == 'new': P = flat(new())
        if op in ('shift', 'new', 'permboth') and w % 2:
            kind = e['kind']
            d = [rng.randint(-2, 2) for _ in range(dim)]
            if not any(d): d[0] = 1
            if kind == 'axis': d = [int(k == axis - 1) for k in range(dim)]
            m = rng.choice([-2, 1, 1, 3, 0])
            Q = [[a + m * b for a, b in zip(p, d)] for p in P]
            if w % 3: rng.shuffle(Q)
        if op != 'ask' and w % 4: continue
        kind = e['kind']
        q = dict(op='match', kind=kind, P=[list(p) for p in P], Q=[list(p) for p in Q], d=list(d), d3=list(d) + [0] * (3 - dim), axis=axis, dtype=w % 4, noise=w % 3 == 0, fresh=w % 5 == 0)
        if kind in ('dir', 'axis') and dim == 1: kind = q['kind'] = 'coors'
        if kind == 'perm':
            z = [list(p) for p in P]
            rng.shuffle(z)
            if w % 4 == 0: z[0] = [v + 1 for v in z[0]]
            if dim < 2: continue
            q.update(op='perm', Q=z)
        if kind == 'axis':
            q['kind'] = rng.choice(['axis', 'axis2'])
            q['d'] = [int(k == axis - 1) for k in range(dim)]
        if kind == 'coors': q['d'] = [0] * dim
        if kind == 'line': # Lines with different values of the coordinate.
            ax = rng.randint(1, dim)
            if len({p[ax - 1] for p in P}) != len(P) or len({p[ax - 1] for p in Q}) != len(Q): continue
            q.update(d=ax, axis=ax)
        out.append(q)
    return dict(kind='points', queries=out, unit=rng.choice([1.0, 1.0, 0.1, 10.0]), seed=rng.randint(0, 999))


def mesh_case(h, rng, kind):
    import meshes
    cells = rng.choice({'epbc': ['1_2', '2_3', '2_4', '2_3', '2_4', '3_4', '3_8'], 'mirror': ['2_3', '2_4', '3_4', '3_8'], 'dg': ['1_2', '2_4', '2_4', '2_4']}[kind])
    dim = int(cells[0])
    shape = [rng.choice([1, 2, 3] if dim < 3 else [1, 2]) for _ in range(dim)]
    d = meshes.grid(cells, shape, rng)
    axis = rng.randint(1, dim)
    a = axis - 1
    top = max(c[a] for c in d['coors'])
    sides = [[k for k, c in enumerate(d['coors']) if c[a] == v] for v in (0, top)]
    # Shear along the other axes and waves of the sides.
    dirv = [top if k == a else 0 for k in range(dim)]
    wavy = dim > 1 and rng.random() < 0.6
    waves = {}
    slope = [rng.choice([0, 0, 1]) if (k != a and dim > 1) else 0 for k in range(dim)]
    for c in d['coors']:
        key = tuple(v for k, v in enumerate(c) if k != a)
        w = waves.setdefault(key, rng.choice([-1, 0, 0, 1]) if wavy else 0)
        x = c[a]
        c[a] = 2 * x + w
        for k in range(dim):
            if k != a: c[k] = 2 * c[k] + slope[k] * x
    dirv = [2 * top if k == a else slope[k] * top for k in range(dim)]
    exact = not any(slope)
    scn = dict(kind=kind, mesh=d, sides=sides, dir=dirv, dir3=[float(v) for v in dirv] + [0.0] * (3 - dim), axis=axis, match='dir')
    if dim == 1: scn.update(match='line', line=1) if 0 else scn.update(match='dir', dir3=[1.0, 0.0, 0.0])
    elif exact and rng.random() < 0.5: scn['match'] = 'axis'
    elif exact and dim == 2 and rng.random() < 0.7 and not wavy: scn.update(match='line', line=3 - axis)
    r = rng.random()
    if r < 0.12 and len(sides[1]) > 1 and not (kind == 'dg'):
        scn['sides'][1] = sides[1][:-1] # Another number of entities.
    elif r < 0.3 and dim > 1:
        # A moved vertex.
        k = rng.choice(sides[1])
        b = rng.choice([j for j in range(dim) if j != a])
        d['coors'][k][b] += 1
        if scn['match'] == 'line': scn['match'] = 'dir'
    if rng.random() < 0.3: scn['sides'] = scn['sides'][::-1]
    return scn


def run(ctx):
    ctx.model('MatchingMC', ctx.pick('MatchingMC.cfg', 'MatchingMC2.cfg'))
    rng = random.Random(ctx.seed + 25)
    hs = ctx.behaviours('MatchingMC', 'MatchingSim.cfg', depth=16, num=ctx.pick(450, 6000), seed=ctx.seed + 25)
    scns = []
    for n, h in enumerate(hs):
        kind = ['points', 'points', 'epbc', 'mirror', 'dg', 'points', 'mirror', 'epbc'][n % 8]
        if kind == 'points': s = points(h, rng)
        else:
            s = mesh_case(h, rng, kind)
            if kind == 'epbc':
                dim = s['mesh']['dim']
                s.update(nc=rng.choice([1, 1, 2, 3]), order=rng.choice([1, 1, 2, 3] if dim < 3 else [1, 2]), basis='lagrange', shiftc=0)
                if s['nc'] > 1 and rng.random() < 0.3: s['shiftc'] = 1
                if s['order'] == 3: s['order'] = 2
            elif kind == 'mirror': s.update(order=rng.choice([1, 1, 2]) if s['mesh']['dim'] == 2 else 1, both=rng.random() < 0.4, values=[rng.randint(-3, 3) for _ in range(60)])
            else: s.update(order=rng.choice([0, 1, 2]))
        scns.append(s)
    traces = ctx.drive('match', scns)
    evs = [e for t in traces for e in t.get('ev', [])]
    for op in ('match', 'perm', 'epbc', 'mirror', 'dg'):
        ctx.info['%s accepted, refused' % op] = [sum(e['op'] == op and (e['raised'] == '') == ok for e in evs) for ok in (True, False)]
    ctx.validate('MatchingTrace', traces, scns, driver='match')
