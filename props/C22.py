"""Object files restore the stored values and their sharing (spec/ObjFile.tla)."""
import random

VALS = ['array', 'array', 'array', 'int', 'float', 'complex', 'str', 'str', 'bool', 'none', 'bytes', 'set', 'np_scalar', 'masked', 'matrix', 'unicode',
        'record', 'object', 'date', 'range', 'coo', 'slice', 'func', 'dtype', 'frozen']
EXOTIC = ['lam', 'opaque', 'intkey', 'slash', 'empty_key', 'reserved', 'dot', 'tuplekey', 'big']
KEYS = ['a', 'b', 'type', 'data', 'cache', 'len', 'x y', '0', '10', 'é', 'name', 'self', '__a', 'A', 'items']
SKEYS = ['a', 'b', 'type', 'data', 'cache', 'name', 'x1', 'A', 'dtype']


def objects(h, rng):
    heap = []
    for e in h:
        n, kind, w = len(heap), e['kind'], e['w']
        o = dict(kind=kind, what='', w=w % 100, kids=[], path=[], temp=False)
        if n == 0 and kind not in ('leaf', 'val'): kind = o['kind'] = 'leaf'
        if kind == 'leaf': o['what'] = rng.choice(['mesh', 'mesh', 'sparse', 'sparse', 'sparse', 'iga' if w % 20 == 0 else 'sparse'])
        elif kind == 'val': o['what'] = rng.choice(VALS)
        elif kind == 'list':
            o['what'] = rng.choice(['list', 'list', 'dict', 'dict', 'tuple', 'struct'])
            m = rng.choice([0, 1, 2, 2, 3, 4] if o['what'] not in ('list', 'tuple') or rng.random() < 0.9 else [11, 13])
            ks = [rng.randint(1, n) for _ in range(m)]
            names = [str(k) for k in range(m)] if o['what'] in ('list', 'tuple') else sorted(rng.sample(KEYS if o['what'] == 'dict' else SKEYS, m))
            o['kids'] = [[a, b] for a, b in zip(names, ks)]
        else: o['kids'] = [['x', rng.randint(1, n)]]
        heap.append(o)
    n = len(heap)
    writes = []
    lists = [k for k in range(1, n + 1) if heap[k - 1]['kind'] == 'list']
    for k in range(rng.choice([1, 2, 2, 3])):
        writes.append(dict(name='ABC'[k], node=rng.choice(lists if lists and rng.random() < 0.7 else range(1, n + 1)), shared=rng.random() < 0.6, unpack=False,
                           temps=[], reopen=rng.random() < 0.2, exotic=False))
    mode = rng.random()
    if mode < 0.25: # Temporary objects, one after another.
        what = rng.choice(['mesh', 'sparse'])
        writes = []
        for k in range(3):
            heap.append(dict(kind='leaf', what=what, w=rng.randrange(100), kids=[], path=[], temp=True))
            writes.append(dict(name='ABC'[k], node=len(heap), shared=rng.random() < 0.8, unpack=False, temps=[len(heap)], reopen=False, exotic=False))
    elif mode < 0.4 and len(writes) > 1: # A link to the first value or its member.
        top = heap[writes[0]['node'] - 1]
        path = ['A']
        if top['kind'] == 'list' and top['kids'] and rng.random() < 0.7: path.append(rng.choice(top['kids'])[0])
        heap.append(dict(kind='link', what='', w=0, kids=[], path=path, temp=False))
        heap.append(dict(kind='list', what=rng.choice(['list', 'dict']), w=0, kids=[['0', len(heap)], ['1', rng.randint(1, n)]], path=[], temp=False))
        writes[-1]['node'] = len(heap)
    elif mode < 0.5: # Not supported.
        heap.append(dict(kind='val', what=rng.choice(EXOTIC), w=rng.randrange(100), kids=[], path=[], temp=False))
        heap.append(dict(kind='list', what='list', w=0, kids=[['0', rng.randint(1, n)], ['1', len(heap)]], path=[], temp=False))
        writes[-1].update(node=len(heap), exotic=True)
    if mode >= 0.25 and rng.random() < 0.3: writes[-1]['unpack'] = True
    return dict(kind='objects', heap=heap, writes=writes, rshared=rng.random() < 0.6, reverse=rng.random() < 0.3)


def dicts(h, rng, depth=0):
    ks = rng.sample(['a', 'b', '_c', '__d', 'x y', 'é', '1', 'type', '_'], rng.choice([0, 1, 2, 3, 4]) if depth else rng.choice([1, 2, 3, 5]))
    out = []
    for k in ks:
        if depth < 3 and rng.random() < 0.35: out.append([k, dicts(h, rng, depth + 1)])
        else:
            what = rng.choice(['int', 'float', 'complex', 'str', 'narray', 'flist'])
            w = rng.randrange(1, 8)
            if what == 'narray': what, w = 'array', rng.choice([0, 1, 2, 3, 6, 8, 11, 12, 13, 14])
            if what == 'str': w = rng.choice([1, 2, 3, 6, 7, 8])
            out.append([k, dict(what=what, w=w)])
    return out


def run(ctx):
    ctx.model('ObjFileMC', 'ObjFileMC.cfg')
    rng = random.Random(ctx.seed + 22)
    hs = ctx.behaviours('ObjFileMC', 'ObjFileSim.cfg', depth=16, num=ctx.pick(600, 8000), seed=ctx.seed + 22)
    scns = [objects(h[:rng.choice([2, 4, 6, 8, 10, 12])], rng) for h in hs]
    scns += [dict(kind='dict', d=dicts(h, rng)) for h in hs[:ctx.pick(80, 800)]]
    scns += [dict(kind='sparse', w=w, format=rng.choice(['csr', 'csc'])) for w in range(ctx.pick(22, 66))]
    traces = ctx.drive('objfile', scns)
    for s, t in zip(scns, traces):
        t['scn'] = {k: v for k, v in s.items() if k not in ('d', 'w')} | dict(kind=s['kind'])
    ctx.info['restored objects'] = sum(len(e['occ']) for t in traces for e in t.get('ev', []) if e['op'] == 'read')
    ctx.info['refused'] = sum(e.get('raised', '') != '' for t in traces for e in t.get('ev', []))
    ctx.validate('ObjFileTrace', traces, scns, driver='objfile')
