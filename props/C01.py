"""Region selectors: set algebra (spec/Region.tla)."""
import random, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'harness'))

MC_MESH = dict(dim=2, coors=[[0, 0], [2, 0], [4, 0], [0, 2], [2, 2], [4, 2],
                             [0, 4]], vg=[0, 1, 0, 1, 0, 1, 0],
               cells=[['2_3', 1, [3, 4, 6]], ['2_4', 1, [0, 1, 4, 3]],
                      ['2_4', 2, [1, 2, 5, 4]]])


def rand_rel(rng, dim, lo, hi):
    def atom():
        return dict(op=rng.choice(['<', '>', '<=', '>=', '==', '!=']),
                    ax=rng.randint(1, dim), val=rng.randint(lo, hi))
    rpn = [atom()]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        rpn += [atom(), dict(op=rng.choice('&|'))]
    if rng.random() < 0.2:
        rpn += [atom(), atom(), dict(op=rng.choice('&|')),
                dict(op=rng.choice('&|'))]
    return rpn


def gen(rng, nev=12):
    import meshes
    md = meshes.random_mesh(rng, max3=rng.choice([2, 2, 3]))
    nv, nc, dim = len(md['coors']), len(md['cells']), md['dim']
    hi = max(max(c) for c in md['coors'])
    sets = {'s%d' % k: sorted(rng.sample(range(nv), rng.randint(1, nv)))
            for k in range(2)}
    names = ['Omega', 'r_1', 'Left-Top', 'a.b', 'Gamma2', 'x', 'r1.v', 'c']
    defined = []
    facets = {1: 'vertex', 2: 'edge', 3: 'face'}[dim]
    ops = ['v', 'c', 's'] + (['e'] if dim > 1 else []) + (['f'] if dim > 2 else [])
    kinds = ['cell'] * 6 + ['facet'] * 4 + ['vertex'] * 3 + [facets] * 2 + \
        ['cell_only', 'vertex_only', 'facet_only'] + \
        (['edge', 'edge_only'] if dim > 1 else []) + (['face_only'] if dim > 2 else [])
    nfun = [0]

    def cluster():
        # Vertices of several facets, edges or cells.
        ids = set()
        for _ in range(rng.choice([1, 2, 2, 3])):
            desc, _, conn = rng.choice(md['cells'])
            ref = meshes.REF[desc]
            loc = rng.choice(([list(range(len(conn)))] if dim < 3 else [])
                             + ref['edges'] + 2 * ref['faces'] or [[0], [1]])
            ids.update(int(conn[i]) for i in loc)
        ids = list(ids)
        rng.shuffle(ids)
        return ids

    def leaf(cells=0.4):
        ks = ['all', 'surf', 'vgroup', 'cgroup', 'vset', 'vids', 'vids', 'cids', 'vin',
              'vin', 'vby', 'cby']
        if defined:
            ks += ['ref'] * 8 + ['vof']
        k = rng.choice(ks)
        l = dict(k=k)
        if k in ('vgroup', 'cgroup'): l['n'] = rng.randint(0, 3)
        elif k == 'vset': l['name'] = rng.choice(['s0', 's1', 's0', 's1', 'nope'])
        elif k == 'vids':
            l['ids'] = (cluster() if rng.random() < 0.6 else
                        rng.sample(range(nv), rng.randint(1, min(6, nv))))
        elif k == 'cids': l['ids'] = rng.sample(range(nc), rng.randint(1, min(4, nc)))
        elif k == 'vin': l['rpn'] = rand_rel(rng, dim, 0, hi)
        elif k == 'vby':
            nfun[0] += 1
            l.update(rpn=rand_rel(rng, dim, 0, hi), fname='fun_%d' % nfun[0])
        elif k == 'cby':
            nfun[0] += 1
            l.update(rpn=rand_rel(rng, dim, 0, hi * 24), fname='cfun_%d' % nfun[0])
        elif k in ('ref', 'vof'): l['name'] = rng.choice(defined)
        return dict(t='leaf', l=l)

    def expr(depth):
        out = atom(depth)
        while depth > 0 and rng.random() < 0.6:
            out = out + [dict(t=rng.choice('+-*') + rng.choice(ops))] + atom(depth - 1)
        return out

    def atom(depth):
        if depth > 0 and rng.random() < 0.4:
            return [dict(t='(')] + expr(depth - 1) + [dict(t=')')]
        return [leaf()]

    ev = []
    for k in range(nev):
        name = '%s%d' % (rng.choice(names), k)
        if k == 0:
            toks = [dict(t='leaf', l=dict(k='all'))]
            e = dict(op='create', name=name, toks=toks, kind='cell')
        elif dim > 1 and rng.random() < (0.3 if dim == 3 else 0.1):
            # Entities of a dimension between those of several others.
            e = dict(op='create', name=name, toks=[dict(
                t='leaf', l=dict(k='vids', ids=cluster()))],
                kind=rng.choice(['facet', 'facet', 'edge', 'cell', 'facet_only']),
                allow=True)
        elif rng.random() < 0.08:
            d = rng.choice([0, 3] + ([2] if dim > 1 else []))
            kind = {0: rng.choice(['cell', 'facet', 'vertex']),
                    2: 'facet', 3: rng.choice(['cell', 'cell_only'])}[d]
            n = {0: nv, 3: nc, 2: nc}[d] # There are at least nc facets.
            ids = sorted(rng.sample(range(n), rng.randint(1, n)))
            e = dict(op='make', name=name, d=d, kind=kind, ids=ids)
            if d == 0 and kind != 'vertex': # May have no cells/facets.
                e['kind'] = 'vertex'
        else:
            while True:
                toks = expr(rng.choice([0, 1, 1, 2, 2, 3]))
                nvof = sum(t.get('l', {}).get('k') == 'vof' for t in toks)
                lf = [t['l']['k'] for t in toks if t['t'] == 'leaf']
                if len(toks) > 1 and lf == ['ref']: # An alias in parentheses.
                    continue
                if len(toks) <= 16 and nvof <= 1:
                    break
            e = dict(op='create', name=name, toks=toks, kind=rng.choice(kinds),
                     allow=rng.random() < 0.3)
            if len(toks) == 1 and toks[0]['l']['k'] == 'ref':
                e['copy'] = True
            if rng.random() < 0.3:
                pars = [d['name'] for d in ev if d['kind'] == 'cell']
                if pars:
                    e['parent'] = rng.choice(pars)
        e['maydef'] = True
        ev.append(e)
        defined.append(name)
    return dict(mesh=md, sets=sets, ev=ev)


def fix_refs(scn):
    return scn


def run(ctx):
    ctx.model('RegionMC', 'RegionMC.cfg' if ctx.quick else 'RegionMC3.cfg')
    beh = ctx.behaviours('RegionMC', 'RegionSim.cfg',
                         num=ctx.pick(150, 1500), depth=6)
    scns = []
    for h in beh:
        ev = []
        for d in h:
            e = dict(op='create', name=d['name'], kind=d['kind'],
                     allow=d['allow'],
                     toks=[x if x['t'] == 'leaf' else dict(t=x['t'])
                           for x in d['toks']])
            if len(e['toks']) == 1 and e['toks'][0]['l']['k'] == 'ref':
                e['copy'] = True
            ev.append(e)
        scns.append(dict(mesh=MC_MESH, sets={'s': [0, 4]}, ev=ev))
    rng = random.Random(ctx.seed)
    for k in range(ctx.pick(160, 2500)):
        scns.append(gen(rng))
    traces = ctx.drive('region', scns)
    refused = sum(not e['ok'] for t in traces for e in t.get('ev', []))
    ctx.info['refused_definitions'] = refused
    ctx.validate('RegionTrace', traces, scns, driver='region')
