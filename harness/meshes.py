"""Small meshes built independently of the generators under test.

A mesh description is plain JSON: dict(dim, coors (integers), vg (vertex
groups), cells: list of [desc, mat_id, vertices]).  The cells come ordered by
desc, as sfepy stores them."""
import random
import numpy as np

REF = {
    '1_2': dict(edges=[], faces=[]),
    '2_3': dict(edges=[[0, 1], [1, 2], [2, 0]], faces=[]),
    '2_4': dict(edges=[[0, 1], [1, 2], [2, 3], [3, 0]], faces=[]),
    '3_4': dict(edges=[[0, 1], [1, 2], [2, 0], [0, 3], [1, 3], [2, 3]],
                faces=[[0, 2, 1], [0, 3, 2], [0, 1, 3], [1, 2, 3]]),
    '3_6': dict(edges=[[0, 1], [1, 2], [2, 0], [0, 3], [1, 4], [2, 5],
                       [3, 4], [4, 5], [5, 3]],
                faces=[[0, 2, 1], [0, 3, 5, 2], [0, 1, 4, 3], [1, 2, 5, 4],
                       [3, 4, 5]]),
    '3_8': dict(edges=[[0, 1], [1, 2], [2, 3], [3, 0], [4, 5], [5, 6], [6, 7],
                       [7, 4], [0, 4], [1, 5], [2, 6], [3, 7]],
                faces=[[0, 3, 2, 1], [0, 4, 7, 3], [0, 1, 5, 4], [4, 5, 6, 7],
                       [1, 2, 6, 5], [3, 7, 6, 2]]),
}
DESCS = ['1_2', '2_3', '2_4', '3_4', '3_6', '3_8']


def grid(kind, shape, rng=None, scale=2, drop=0, mixed=0.5):
    """A structured mesh of `shape` boxes; kind: a desc or 'mixed2' (2_3+2_4),
    'mixed3' (3_6+3_8)."""
    rng = rng or random.Random(0)
    dim = len(shape)
    idx = np.arange(np.prod([n + 1 for n in shape])).reshape(
        [n + 1 for n in shape])
    coors = [[int(c) * scale for c in np.unravel_index(i, idx.shape)]
             for i in range(idx.size)]
    cells = []
    if dim == 1:
        for i in range(shape[0]):
            cells.append(['1_2', [idx[i], idx[i + 1]]])
    elif dim == 2:
        for i in range(shape[0]):
            for j in range(shape[1]):
                q = [idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]]
                tri = (kind == '2_3') or (kind == 'mixed2'
                                          and rng.random() < mixed)
                if not tri:
                    cells.append(['2_4', q])
                elif rng.random() < 0.5:
                    cells.append(['2_3', [q[0], q[1], q[2]]])
                    cells.append(['2_3', [q[0], q[2], q[3]]])
                else:
                    cells.append(['2_3', [q[0], q[1], q[3]]])
                    cells.append(['2_3', [q[1], q[2], q[3]]])
    else:
        split = {}
        for i in range(shape[0]):
            for j in range(shape[1]):
                split[i, j] = (kind == '3_6') or (kind == 'mixed3'
                                                  and rng.random() < mixed)
        for i in range(shape[0]):
            for j in range(shape[1]):
                for k in range(shape[2]):
                    q = [idx[i, j, k], idx[i + 1, j, k], idx[i + 1, j + 1, k],
                         idx[i, j + 1, k], idx[i, j, k + 1],
                         idx[i + 1, j, k + 1], idx[i + 1, j + 1, k + 1],
                         idx[i, j + 1, k + 1]]
                    if kind == '3_4':
                        # Kuhn subdivision along the 0-6 diagonal.
                        for a, b in [(1, 2), (1, 5), (3, 2), (3, 7), (4, 5),
                                     (4, 7)]:
                            cells.append(['3_4', [q[0], q[a], q[b], q[6]]])
                    elif split[i, j]:
                        cells.append(['3_6', [q[0], q[1], q[2],
                                              q[4], q[5], q[6]]])
                        cells.append(['3_6', [q[0], q[2], q[3],
                                              q[4], q[6], q[7]]])
                    else:
                        cells.append(['3_8', q])
    if drop:
        keep = [c for c in cells if rng.random() >= drop]
        cells = keep or cells[:1]
    cells = [[d, [int(v) for v in c]] for d, c in cells]
    return finish(dim, coors, cells, rng)


def orient(coors, desc, conn):
    """Positive orientation by the reference element convention."""
    c = [np.array(coors[v], dtype=float) for v in conn]
    if desc == '1_2':
        return conn if c[1][0] > c[0][0] else conn[::-1]
    if desc[0] == '2':
        a, b = c[1] - c[0], c[-1] - c[0]
        if a[0] * b[1] - a[1] * b[0] < 0:
            return [conn[0]] + conn[:0:-1]
        return conn
    if desc == '3_4':
        if np.linalg.det([c[1] - c[0], c[2] - c[0], c[3] - c[0]]) < 0:
            return [conn[0], conn[2], conn[1], conn[3]]
        return conn
    h = len(conn) // 2
    if np.linalg.det([c[1] - c[0], c[h - 1] - c[0], c[h] - c[0]]) < 0:
        return conn[h:] + conn[:h]
    return conn


ROT = {
    '1_2': [[0, 1]],
    '2_3': [[0, 1, 2], [1, 2, 0], [2, 0, 1]],
    '2_4': [[0, 1, 2, 3], [1, 2, 3, 0], [2, 3, 0, 1], [3, 0, 1, 2]],
    '3_4': [[0, 1, 2, 3], [1, 2, 0, 3], [2, 0, 1, 3], [1, 0, 3, 2],
            [0, 3, 1, 2], [3, 1, 0, 2], [1, 3, 2, 0], [0, 2, 3, 1],
            [2, 3, 0, 1], [3, 0, 2, 1], [3, 2, 1, 0], [2, 1, 3, 0]],
    '3_6': [[0, 1, 2, 3, 4, 5], [1, 2, 0, 4, 5, 3], [2, 0, 1, 5, 3, 4]],
    '3_8': None,
}


def _hex_rots():
    """The 24 rotations of the reference hexahedron."""
    import itertools
    ref = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0],
                    [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]) * 2 - 1
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([-1, 1], repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = s[i]
            if round(np.linalg.det(m)) == 1:
                new = ref @ m.T
                out.append([int(np.where((ref == n).all(1))[0][0])
                            for n in new])
    return out


ROT['3_8'] = _hex_rots()


def finish(dim, coors, cells, rng, renumber=True, rotate=True, keep_unused=False):
    used = sorted(set(v for _, c in cells for v in c))
    if keep_unused:
        used = list(range(len(coors)))
    perm = list(range(len(used)))
    if renumber:
        rng.shuffle(perm)
    mp = {v: perm[i] for i, v in enumerate(used)}
    nc = [None] * len(used)
    for v in used:
        nc[mp[v]] = list(coors[v])
    out = []
    for d, c in cells:
        c = orient(coors, d, list(c))
        if rotate:
            r = rng.choice(ROT[d])
            c = [c[i] for i in r]
        out.append([d, int(rng.randrange(3)), [mp[v] for v in c]])
    if renumber:
        rng.shuffle(out)
    out.sort(key=lambda c: DESCS.index(c[0]))
    return dict(dim=dim, coors=nc, vg=[rng.randrange(3) for _ in nc],
                cells=out)


def random_mesh(rng, dims=(1, 2, 3), max3=2, kinds=None):
    if kinds is None:
        kinds = [k for k in ['1_2', '2_3', '2_4', 'mixed2', '3_4', '3_8', '3_6',
                             'mixed3']
                 if {'1': 1, '2': 2, '3': 3, 'm': int(k[-1])}[k[0]] in dims]
    kind = rng.choice(kinds)
    dim = int(kind[-1]) if kind[0] == 'm' else int(kind[0])
    if dim == 1:
        shape = [rng.randint(1, 6)]
    elif dim == 2:
        shape = [rng.randint(1, 3), rng.randint(1, 3)]
    else:
        shape = [rng.randint(1, max3) for _ in range(3)]
        if kind == '3_4':
            shape[rng.randrange(3)] = 1
    drop = rng.choice([0, 0, 0.2])
    return grid(kind, shape, rng, drop=drop)


def make_mesh(d, scale=1.0, name='m', nodal_bcs=None):
    from sfepy.discrete.fem import Mesh
    coors = np.array(d['coors'], dtype=np.float64).reshape(-1, d['dim']) * scale
    conns, mats, descs = [], [], []
    for c in d['cells']:
        if not descs or descs[-1] != c[0]:
            descs.append(c[0]); conns.append([]); mats.append([])
        conns[-1].append(c[2]); mats[-1].append(c[1])
    return Mesh.from_data(name, coors, np.array(d['vg'], dtype=np.int32),
                          [np.array(c, dtype=np.int32) for c in conns],
                          [np.array(m, dtype=np.int32) for m in mats], descs,
                          nodal_bcs=nodal_bcs)
