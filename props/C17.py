"""Partitioning of domains and DOFs to tasks (spec/Partition.tla)."""
import random
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/harness')


def scenario(h, rng):
    import meshes
    desc = rng.choice(['2_3', '2_3', '2_4', '2_4', '3_4', '3_8', '3_8'])
    shape = {'2_3': [rng.randint(1, 3), rng.randint(1, 2)], '2_4': [rng.randint(1, 3), rng.randint(1, 3)], '3_4': [rng.randint(1, 2), 1, 1], '3_8': [rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2)]}[desc]
    d = meshes.grid(desc, shape, rng, drop=rng.choice([0, 0, 0.3]))
    d['dim'] = int(desc[0])
    hi = {'2_3': 3, '2_4': 3, '3_4': 3, '3_8': 2}[desc]
    fields = [dict(order=rng.randint(1, 2 if k else hi) if desc != '3_8' or len(d['cells']) < 5 else 1, nc=1) for k in range(rng.randint(1, 2))]
    for f in fields: f['nc'] = rng.choice([1, d['dim']]) if f['order'] == 1 or desc[0] == '2' and f['order'] == 2 else 1
    return dict(c=dict(mesh=d, fields=fields), hist=h)


def run(ctx):
    import meshes
    for k in ctx.pick(['fan', 'bow'], ['fan', 'bow', 'quad', 'quad4']): ctx.model('PartitionMC', 'PartitionMC_%s.cfg' % k)
    rng = random.Random(ctx.seed + 17)
    hs = ctx.behaviours('PartitionMC', 'PartitionSim.cfg', depth=8, num=ctx.pick(250, 2000), seed=ctx.seed + 17)
    scns = [scenario(h, rng) for h in hs]
    traces = ctx.drive('part', scns)
    evs = [e for t in traces for e in t.get('ev', [])]
    ctx.info['events'] = {op: sum(e['op'] == op for e in evs) for op in ('part', 'facets', 'maps', 'asm')}
    ctx.info['tasks'] = {n: sum(e['op'] == 'asm' and e['size'] == n for e in evs) for n in range(1, 6)}
    for t, s in zip(traces, scns):
        c = s['c']
        cells = c['mesh']['cells']
        fs = [[sorted(x[2][k] for k in f) for f in meshes.REF[x[0]]['edges' if x[0][0] == '2' else 'faces']] for x in cells]
        t['c'] = dict(facets=fs, fields=[dict(f, conn=t['conn'][k], n=t['nn'][k]) if 'conn' in t else f for k, f in enumerate(c['fields'])])
    ctx.validate('PartitionTrace', traces, scns, driver='part')
