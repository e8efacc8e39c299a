"""Linear combination boundary conditions (spec/Lcbc.tla)."""
import itertools
import random
import sys
sys.path.insert(0, 'harness')
import meshes

FACETS = ('no_penetration', 'normal_direction')


def make(rng, h):
    dim = 2 + h[0][0] % 2
    shape = [rng.randint(1, 3) if dim == 2 else rng.choice([1, 2, 2]) for _ in range(dim)]
    kind = rng.choice(['2_4', '2_4', '2_3']) if dim == 2 else '3_8'
    mesh = meshes.grid(kind, shape, rng)
    coors = [tuple(x) for x in mesh['coors']]
    where = {x: k for k, x in enumerate(coors)}
    hi = [2 * n for n in shape]
    rot = {2: 1, 3: 3}[dim]
    fields = [dict(name='fu', nc=dim, order=rng.choice([1, 1, 2])), dict(name='fp', nc=1, order=1),
              dict(name='fw', nc=dim + rot, order=1), dict(name='fz', nc=dim, order=1)]
    vs = [dict(name='u', field='fu')]
    for n, f in rng.sample([('p', 'fp'), ('w', 'fw'), ('z', 'fz')], rng.choice([0, 1, 1, 2])):
        vs.append(dict(name=n, field=f))
    if rng.random() < 0.3: vs.reverse()
    nc = {'u': dim, 'p': 1, 'w': dim + rot, 'z': dim}
    sides, regions = {}, []

    def side_verts(ax, end):
        return [k for k, x in enumerate(coors) if x[ax] == (hi[ax] if end else 0)]

    def facets(ax, end):
        out = []
        d = [0] * dim
        d[ax] = 1 if end else -1
        for lo in itertools.product(*[range(n) for k, n in enumerate(shape) if k != ax]):
            rngs, j = [], 0
            for k in range(dim):
                if k == ax: rngs.append([hi[ax] if end else 0])
                else:
                    rngs.append([2 * lo[j], 2 * lo[j] + 1, 2 * lo[j] + 2])
                    j += 1
            out.append([d, [list(p) for p in itertools.product(*rngs)]])
        return out

    used = {v['name']: set() for v in vs}
    strict = set() # DOF nodes that must not have EBCs.

    def add_region(verts, rk):
        name = 'R%d' % len(regions)
        regions.append([name, sorted(verts), rk])
        return name

    def pick(vn, what, extra=()):
        """Vertices and a kind of a region for the variable."""
        for _ in range(12):
            info = {}
            if what in FACETS:
                ss = rng.sample([(a, e) for a in range(dim) for e in (0, 1)], rng.choice([1, 1, 2]))
                if len(ss) == 2 and ss[0][0] == ss[1][0] and min(shape) == 1: ss = ss[:1]
                verts = set(sum((side_verts(*s) for s in ss), []))
                key = ';'.join('%d%d' % s for s in ss)
                sides[key] = sum((facets(*s) for s in ss), [])
                info, rk = dict(fkey=key), 'facet'
                # Other facets can have all the vertices in the region.
                for a in range(dim):
                    for e in (0, 1):
                        if (a, e) not in ss and any(all(where[tuple(p)] in verts for p in f[1] if tuple(p) in where)
                                                    for f in facets(a, e)):
                            info = None
                inner = [c for c in mesh['cells'] if all(v in verts for v in c[2])]
                if info is None or (inner and dim == 3) or (dim == 2 and len(ss) == 2 and min(shape) == 1): continue
                if kind == '2_3' and inner: continue
            elif what == 'edge':
                ax = rng.randrange(dim)
                x0 = [rng.choice([0, hi[k]]) for k in range(dim)]
                path = []
                for q in range(shape[ax] + 1):
                    x = list(x0); x[ax] = 2 * q
                    path.append(x)
                if rng.random() < 0.5 and dim > 1: # A corner.
                    a2 = rng.choice([a for a in range(dim) if a != ax])
                    sg = 1 if x0[a2] == 0 else -1
                    for q in range(1, shape[a2] + 1):
                        x = list(path[shape[ax]]); x[a2] += 2 * q * sg
                        path.append(x)
                verts = {where[tuple(x)] for x in path}
                info, rk = dict(edges=[[a, b] for a, b in zip(path[:-1], path[1:])]), 'edge'
                if kind == '2_3' or min(shape) == 1: continue
            elif what == 'side':
                verts, rk = set(side_verts(rng.randrange(dim), rng.choice([0, 1]))), rng.choice(['facet', 'vertex'])
            elif what == 'one':
                verts, rk = {rng.randrange(len(coors))}, 'vertex'
            elif isinstance(what, int):
                if what > len(coors): continue
                verts, rk = set(rng.sample(range(len(coors)), what)), 'vertex'
            elif what == 'layers':
                k = [q for q in range(len(coors)) if coors[q][extra[0]] in extra[1]]
                verts, rk = set(k), 'vertex'
            else:
                verts, rk = set(rng.sample(range(len(coors)), rng.randint(1, min(8, len(coors))))), 'vertex'
            if verts & used[vn] and rng.random() > 0.04: continue
            used[vn] |= verts
            return verts, rk, info
        return None

    ops = []
    for x in h[1:1 + rng.choice([1, 2, 2, 3])]:
        vn = rng.choice([v['name'] for v in vs])
        vec = nc[vn] == dim
        kinds = ['integral_mean_value', 'nodal_combination', 'shifted_periodic', 'match_dofs', 'multi_node_combination']
        if vec: kinds += ['rigid', 'no_penetration', 'normal_direction', 'edge_direction', 'rigid2', 'average_force', 'rigid', 'rigid2']
        if vec and dim == 3: kinds += ['rigid_twist', 'rigid_twist']
        k = kinds[(x[0] + rng.randrange(len(kinds))) % len(kinds)]
        comps = list(range(nc[vn]))
        order = [f['order'] for f in fields if f['name'] == [v['field'] for v in vs if v['name'] == vn][0]][0]
        if k == 'edge_direction' and order == 2: continue
        o = dict(kind=k, var=vn, perm=rng.randrange(10**6), part=rng.choice([0, 0, 1]), form=rng.choice([0, 1]),
                 times=rng.choice([[], [], [], [[0, 1]], [[1, 3]], [[0, 1], [2, 3]]]))
        what = {'no_penetration': k, 'normal_direction': k, 'edge_direction': 'edge'}.get(k, rng.choice(['side', 'any', 'any']))
        if k == 'rigid_twist':
            ax = rng.randrange(3)
            lv = list(range(0, hi[ax] + 1, 2))
            cut = rng.randint(1, len(lv) - 1)
            r1 = pick(vn, 'layers', (ax, lv[:cut]))
            r2 = r1 and pick(vn, 'layers', (ax, lv[cut:]))
            if not r2: continue
            o.update(region2=add_region(*r2[:2]), anchor=[rng.randint(-2, 3) for _ in range(3)],
                     axis=[int(q == ax) for q in range(3)], thread=rng.choice([0, 1, 2, -1, -3]))
            if rng.random() < 0.5: r1, o['region2'] = r2, add_region(*r1[:2])
        elif k in ('shifted_periodic', 'match_dofs', 'multi_node_combination', 'rigid2', 'average_force'):
            if k == 'multi_node_combination': sn = vn
            elif k in ('rigid2', 'average_force'):
                sn = rng.choice([v['name'] for v in vs if v['name'] in ('w', vn, 'u', 'z')])
            else: sn = rng.choice([v['name'] for v in vs])
            if k in ('rigid2', 'average_force'):
                o['wform'] = rng.choice([0, 1, 1, 2])
                r1 = pick(vn, rng.choice(['any', 'any', 'side', 'one']))
                r2 = r1 and pick(sn, 'one' if rng.random() < 0.95 else 2)
                if not r2: continue
                sc = list(range(nc[sn]))
            else:
                n = rng.randint(1, 4)
                o1 = [f['order'] for f in fields if f['name'] == [v['field'] for v in vs if v['name'] == sn][0]][0]
                r1 = pick(vn, n)
                r2 = r1 and pick(sn, n if rng.random() < 0.95 and k != 'multi_node_combination' else rng.randint(1, 3))
                if not r2: continue
                if k == 'multi_node_combination':
                    comps = sc = sorted(rng.sample(comps, rng.randint(1, len(comps)))) if rng.random() < 0.5 else comps
                    o['nw'] = rng.randint(1, 3)
                else:
                    m = rng.randint(1, min(nc[vn], nc[sn]))
                    comps = rng.sample(range(nc[vn]), m)
                    sc = rng.sample(range(nc[sn]), m)
                    o['shift'] = rng.choice([0, 1, -4])
            o.update(svar=sn, scomps=sc, sregion=add_region(*r2[:2]))
            if k in ('rigid2', 'average_force'): strict |= r1[0] | r2[0]
            if k == 'multi_node_combination': strict |= r1[0] | r2[0]
        else:
            r1 = pick(vn, what)
            if not r1: continue
            o.update(r1[2])
            if k in ('rigid', 'integral_mean_value', 'nodal_combination') and rng.random() < 0.3 and len(comps) > 1:
                comps = sorted(rng.sample(comps, rng.randint(1, len(comps))))
                if k == 'nodal_combination' and rng.random() < 0.5: rng.shuffle(comps)
            if k == 'nodal_combination':
                nq = rng.randint(1, len(comps))
                import numpy as np
                while 1:
                    A = [[rng.choice([0, 0, 1, 1, -1, 2]) for _ in comps] for _ in range(nq)]
                    if np.linalg.matrix_rank(np.array(A)) == nq: break
                o.update(A=A, b=[rng.choice([0, 0, 1, -2]) for _ in range(nq)])
            strict |= r1[0]
        if k == 'rigid_twist': strict |= r1[0] | set(regions[int(o['region2'][1:])][1])
        o.update(region=add_region(*r1[:2]), comps=comps)
        ops.append(o)
    ebcs = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        vn = rng.choice([v['name'] for v in vs])
        pool = [q for q in range(len(coors)) if q not in strict or rng.random() < 0.01]
        if vn in [e[0] for e in ebcs]: continue
        if not pool: continue
        verts = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        ebcs.append([vn, add_region(verts, 'vertex'), sorted(rng.sample(range(nc[vn]), rng.randint(1, nc[vn]))), rng.randint(-3, 3)])
    steps = [0] + [rng.randint(0, 2) for _ in range(rng.choice([0, 1, 2]))]
    return dict(c=dict(mesh=mesh, fields=fields, vars=vs, regions=regions, sides=sides, ebcs=ebcs, ops=ops,
                       seed=rng.randrange(10**6)), steps=steps)


def run(ctx):
    ctx.model('LcbcMC', 'LcbcMC.cfg' if ctx.quick else 'LcbcMC2.cfg')
    rng = random.Random(ctx.seed + 6)
    scns = []
    for h in ctx.behaviours('LcbcMC', 'LcbcSim.cfg', depth=12, num=ctx.pick(500, 6000), seed=ctx.seed + 6):
        s = make(rng, h)
        if s['c']['ops']: scns.append(s)
    traces = ctx.drive('lcbc', scns)
    ctx.info['conditions'] = sum(len(t['c']['ops']) for t in traces if t.get('ev'))
    ctx.info['expansions'] = sum(len(e['cols']) + len(e['vecs']) for t in traces for e in t.get('ev', []))
    ctx.validate('LcbcTrace', traces, scns, driver='lcbc')
