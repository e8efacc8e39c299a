"""Assembly is a loss-free scatter of element contributions (spec/Assembly.tla)."""
import random
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')


def scenario(h, rng, wide=False):
    import meshes
    desc = rng.choice(['1_2', '2_3', '2_3', '2_4', '2_4', '3_4', '3_8'])
    if wide: desc = rng.choice(['2_3', '2_4'])
    dim = int(desc[0])
    shape = [rng.randint(1, 4)] if dim == 1 else [rng.randint(1, 3), rng.randint(1, 2)] if dim == 2 else [rng.randint(1, 2), 1, 1]
    if wide: shape = [rng.randint(1, 2), 1]
    d = meshes.grid(desc, shape, rng, drop=0)
    n = len(d['cells'])
    xs = [x[0] for x in d['coors']]
    regions = [['S%d' % k, 'cell ' + ', '.join(str(x) for x in sorted(rng.sample(range(n), rng.randint(1, n)))), 'cell'] for k in range(2)]
    regions += [['L', 'vertices in x < %r' % (min(xs) + 0.1), 'vertex'], ['R', 'vertices in x > %r' % (max(xs) - 0.1), 'vertex'], ['E', 'vertices in x > %r' % (max(xs) + 1), 'cell']]
    if dim > 1: regions += [['G', 'vertices of surface', 'facet'], ['GL', 'vertices in x < %r' % (min(xs) + 0.1), 'facet']]
    nf = rng.choice([1, 2])
    cap = 2 if desc == '3_8' else 3
    fields = [dict(nc=rng.choice([1, 1, 2, dim] if dim > 1 else [1, 1, 2]), order=rng.choice([1, 1, 2]) if dim < 3 else rng.choice([0, 1, 1])) for _ in range(nf)]
    if wide: fields = [dict(nc=rng.randint(26, 40), order=1)] + [dict(nc=1, order=1)]
    for f in fields: f['nc'] = f['nc'] if wide else min(f['nc'], cap)
    nv = rng.choice([1, 2, 2, 3]) if not wide else 2
    names = rng.sample(['u', 'p', 'w', 'a'], nv)
    vv = [dict(name=names[k], field=k % len(fields) if wide else rng.randrange(len(fields)), order=o) for k, o in enumerate(rng.sample(range(nv), nv))]
    regs = ['Omega', 'Omega', 'S0', 'S1'] + (['E'] if rng.random() < 0.15 else [])

    def term(v, ss, eq):
        f = [x for x in regs]
        # A facet term needs nodes on facets.
        if dim > 1 and all(fields[vv[s]['field']]['order'] > 0 for s in [v] + ss) and rng.random() < 0.35: f = ['G', 'GL']
        return dict(tm=rng.randrange(4), v=v, ss=ss, region=rng.choice(f), coef=rng.choice([1, 1, -1, 2, -3]), dyn=rng.random() < 0.12)
    eqs = []
    for v in range(nv):
        ts = [dict(term(v, [v], 0), region='Omega')]
        for _ in range(rng.randint(0, 3) if not wide else 1):
            k = rng.choice([0, 1, 1, 1, 2])
            ss = rng.sample(range(nv), min(k, nv)) # One unknown in several slots of a term is left unspecified.
            ts.append(term(v, ss, 0))
        rng.shuffle(ts)
        if rng.random() < 0.3 and len(ts) > 1:
            eqs.append(dict(terms=ts[:1])); eqs.append(dict(terms=ts[1:]))
        else: eqs.append(dict(terms=ts))
    rng.shuffle(eqs)
    bcs = []
    for v in range(nv):
        f = fields[vv[v]['field']]
        if f['order'] < 1: continue
        comps = ['all'] + [str([c]) for c in range(f['nc'])]
        bcs.append(dict(k='ebc', v=v, region=rng.choice(['L', 'R']), comp=rng.choice(comps)))
        if f['order'] == 1 and rng.random() < 0.6: bcs.append(dict(k='epbc', v=v, comp='all', n=sum(x == min(xs) for x in xs)))
    rng.shuffle(bcs)
    hist = h
    if wide: hist = [o for o in h if o['op'] in ('mtx', 'bc', 'res', 'mtxsel')][:4] + [dict(op='mtx', w=1)]
    return dict(c=dict(mesh=d, regions=regions, fields=fields, vars=vv, eqs=eqs, bcs=bcs[:4], cplx=rng.random() < 0.25, active=rng.random() < 0.85), w0=rng.choice([0, 1, 3, 7, 15, rng.randint(0, 15)]), hist=hist)


def run(ctx):
    for cfg in ctx.pick(['AssemblyMC.cfg'], ['AssemblyMC.cfg', 'AssemblyMC2.cfg']): ctx.model('AssemblyMC', cfg)
    rng = random.Random(ctx.seed + 24)
    hs = ctx.behaviours('AssemblyMC', 'AssemblySim.cfg', depth=11, num=ctx.pick(240, 1600), seed=ctx.seed + 24)
    scns = [scenario(h, rng, wide=n % 30 == 29) for n, h in enumerate(hs)]
    traces = ctx.drive('asm', scns)
    evs = [e for t in traces for e in t.get('ev', [])]
    ctx.info['events'] = {op: sum(e['op'] == op for e in evs) for op in ('res', 'mtx', 'graph')}
    ctx.info['dynamic'] = sum(any(t['dyn'] for q in s['c']['eqs'] for t in q['terms']) for s in scns)
    ctx.info['wide'] = sum(e['op'] == 'mtx' and e['m'] > 99 for e in evs)
    ctx.info['complex'] = sum(s['c']['cplx'] for s in scns)
    for t, s in zip(traces, scns): t['cplx'] = s['c']['cplx']
    ctx.validate('AssemblyTrace', traces, scns, driver='asm')
