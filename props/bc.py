"""Scenarios of boundary and initial conditions, common to C05 and C07."""
import random
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import meshes

# Keys of conditions; they are sorted as strings.
KEYS = [['ebc_a', 'ebc_b', 'ebc_10', 'ebc_9', ''], ['epbc_1', 'epbc_10', 'epbc_2', 'epbc_b', ''],
        ['ic_a', 'ic_b', 'ic_10', 'ic_9', '']]


def make(rng, h, periodic):
    conds = [x for x in h if 'r' in x]
    opk = [x['k'] for x in h if 'r' not in x]
    conds = conds[:rng.randint(1, len(conds))]
    dim = rng.choice([2, 2, 2, 3])
    if dim == 2:
        kind = rng.choice(['2_3', '2_4'])
        shape = [rng.randint(1, 3), rng.randint(1, 2)]
    else:
        kind, shape = '3_8', rng.choice([[1, 1, 1], [2, 1, 1], [1, 2, 1]])
    mesh = meshes.grid(kind, shape, rng)
    L = [2 * n for n in shape]
    ax = 'xyz'[:dim]
    rk = rng.choice(['facet', 'facet', 'vertex'])
    regions = []
    for k, a in enumerate(ax):
        regions.append(['Lo' + a, 'vertices in (%s < 0.1)' % a, rk])
        regions.append(['Hi' + a, 'vertices in (%s > %g)' % (a, L[k] - 0.1), rk])
    regions.append(['Corner', 'vertices in (x < 0.1) & (y < 0.1)', 'vertex'])
    regions.append(['Corner2', 'vertices in (x > %g) & (y > %g)' % (L[0] - 0.1, L[1] - 0.1), 'vertex'])
    regions.append(['Surf', 'vertices of surface', 'facet'])
    regions.append(['Half', 'vertices in (x < %g)' % (2.1 if shape[0] > 1 else 9), 'cell'])
    regions.append(['Sub', 'vertices in (x < %g)' % 2.1, 'cell'])
    regions.append(['Sub2', 'vertices in (y < %g)' % 2.1, 'cell'])
    regions.append(['None', 'vertices in (x < -5)', 'vertex'])
    fields = [dict(name='f0', nc=rng.choice(['scalar', 'vector', 'vector']),
                   region='Omega', order=rng.choice([1, 1, 2])),
              dict(name='f1', nc=rng.choice(['scalar', 'vector']),
                   region=rng.choice(['Omega', 'Half']), order=rng.choice([1, 2]))]
    if dim == 3: fields[0]['order'] = fields[1]['order'] = 1
    vs = [dict(name='u', field='f0'), dict(name='p', field='f1')]
    if rng.random() < 0.4: vs.append(dict(name='w', field=rng.choice(['f0', 'f1'])))
    for v, o in zip(vs, rng.sample(range(5), len(vs))): v['order'] = o
    if rng.random() < 0.3 and fields[0]['order'] == 1: vs[0]['treg'] = 'Sub'
    nc = {v['name']: {'scalar': 1, 'vector': dim}[[f for f in fields if f['name'] == v['field']][0]['nc']]
          for v in vs}
    sub = {v['name']: [f for f in fields if f['name'] == v['field']][0]['region'] == 'Half'
           and shape[0] > 1 for v in vs}

    def comps(x, c):
        n = nc[x]
        if n == 1: return rng.choice(['all', '0'])
        if c % 3 == 0: return 'all'
        if c % 3 == 1: return str(c % n)
        p = rng.sample(range(n), rng.randint(1, n))
        return '[%s]' % rng.choice([',', ', ']).join(map(str, p))

    def ncomp(x, dd):
        return nc[x] if dd == 'all' else dd.count(',') + 1

    def value(x, dd, v, ic=False):
        n = ncomp(x, dd)
        k = ['int', 'float', 'list', 'array', 'fun', 'flat'][v]
        if k == 'flat' and (n > 1 or ic): k = 'fun'
        return dict(k=k, v=[rng.randint(-20, 20) for _ in range(n)], a=rng.randint(-9, 9),
                    b=[rng.randint(-5, 5) for _ in range(dim)], g=rng.randint(-7, 7),
                    h=0 if ic else rng.randint(-3, 3), byname=rng.random() < 0.5)

    def times(t):
        if t <= 2: return []
        if t == 3:
            a = rng.randint(0, 6)
            return [[a, a + rng.randint(0, 5)]] + ([[a + 6, a + 7]] if rng.random() < 0.4 else [])
        return [-1 if t == 4 else -2] + rng.sample(range(6), rng.randint(0, 4))

    out, used = [], []
    for n, q in enumerate(conds):
        k = q['k']
        if not periodic and k == 'epbc' and rng.random() < 0.6: k = 'ebc'
        if k == 'epbc':
            x = rng.choice([v['name'] for v in vs])
            axes = [a for a in range(dim) if not (sub[x] and a == 0)]
            a = axes[q['r'] % len(axes)]
            lo, hi = 'Lo' + ax[a], 'Hi' + ax[a]
            if q['v'] % 2: lo, hi = hi, lo
            dd = comps(x, q['c'])
            d2 = dd
            if periodic and nc[x] > 1 and rng.random() < 0.15: # Rotated.
                cc = list(range(nc[x])) if dd == 'all' else [int(y) for y in dd.strip('[]').split(',')]
                rng.shuffle(cc)
                d2 = '[%s]' % ','.join(map(str, cc))
            dofs = [['%s.%s' % (x, dd), '%s.%s' % (x, d2)]]
            if rng.random() < 0.2 and nc[x] > 1 and dd.isdigit():
                o = str((int(dd) + 1) % nc[x])
                dofs.append(['%s.%s' % (x, o), '%s.%s' % (x, o)])
            if (x, lo, hi) in used and rng.random() < 0.7: continue
            used.append((x, lo, hi))
            c = dict(k='epbc', region=lo, region2=hi, axis=a, perm=rng.randrange(1000),
                     form=rng.randrange(3), dofs=dofs)
            c['key'] = KEYS[1][q['key']]
        else:
            names = [r[0] for r in regions if r[0] not in ('Sub', 'Sub2')] + ['Omega']
            if k == 'ebc': names = [x for x in names if x not in ('Omega', 'Surf', 'Half')] + rng.choice([['Surf'], ['Half'], []])
            reg = names[(q['r'] * 7 + n) % len(names)]
            dofs = []
            for x in rng.sample([v['name'] for v in vs], rng.choice([1, 1, 2])):
                for _ in range(rng.choice([1, 1, 2])):
                    dd = comps(x, q['c'] + _)
                    if any(y[0] == '%s.%s' % (x, dd) for y in dofs): continue
                    dofs.append(['%s.%s' % (x, dd), value(x, dd, q['v'], k == 'ic')])
            c = dict(k=k, region=reg, dofs=dofs)
            c['key'] = KEYS[0 if k == 'ebc' else 2][q['key']]
        c.update(name='c%d' % n if rng.random() < 0.8 else 'c', times=[] if k == 'ic' else times(q['t']))
        if periodic and rng.random() < 0.5: c['times'] = []
        out.append(c)
    keys = sorted({c['key'] for c in out})
    for c in out: c['krank'] = keys.index(c['key'])
    ops, step, tm = [], 0, 0
    mode = rng.random() < 0.85
    empty = rng.random() < 0.5
    first = True
    for k in ['map'] + opk:
        if k == 'map':
            o = dict(op='map', time=tm, step=step, active_only=mode, empty=empty)
            if not first and vs[0].get('treg') and rng.random() < 0.5:
                o['chreg'], o['chform'] = rng.choice(['Sub2', 'Omega', 'Half']), rng.randrange(2)
            ops.append(o)
            step += 1
            tm += rng.choice([0, 1, 1, 2, 3])
            first = False
        elif k in ('full', 'follow'):
            if mode: ops.append(dict(op=k, form=rng.randrange(4)))
        elif k == 'apply':
            ops.append(dict(op=k, form=rng.randrange(4), spoil=rng.randrange(1000)))
        else:
            ops.append(dict(op='ic', form=rng.randrange(2)))
    return dict(c=dict(mesh=mesh, regions=regions, fields=fields, vars=vs, conds=out), ops=ops,
                kind='bc')
