"""Mesh files, copies and restrictions (spec/MeshFile.tla)."""
import itertools
import random
import sys
sys.path.insert(0, 'harness')
import meshes

FORMATS = ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu', 'medit', 'abaqus', 'hdf5', 'hdf5-xdmf', 'nastran', 'gmsh', 'gmsh-dg',
           'xyz', 'su2', 'netgen']
GOOD = ['vtk', 'vtk-ascii', 'vtu', 'medit', 'abaqus', 'hdf5']
FACES = {'2_3': [('1_2', [0, 1]), ('1_2', [1, 2])], '2_4': [('1_2', [0, 1]), ('1_2', [2, 3])],
         '3_4': [('2_3', [0, 2, 1]), ('2_3', [1, 2, 3]), ('1_2', [0, 3])],
         '3_6': [('2_3', [0, 2, 1]), ('2_4', [0, 1, 4, 3]), ('1_2', [0, 3])],
         '3_8': [('2_4', [0, 3, 2, 1]), ('2_4', [4, 5, 6, 7]), ('1_2', [0, 4])]}


def make(rng, h):
    dim = [1, 2, 2, 3, 3, 3][h[0][0] % 6]
    d = meshes.random_mesh(rng, dims=(dim,))
    gs = rng.choice([[0, 1, 2], [1], [0], [3, 10, 200], [2, 10, 9]])
    cells = [[k, rng.choice(gs), v] for k, _, v in d['cells']]
    vgs = rng.choice([[0, 1, 2], [0], [5, 11, 100]])
    d['vg'] = [rng.choice(vgs) for _ in d['coors']]
    d['cells'] = None
    r = h[0][1] % 8
    if r == 0 and dim < 3: # A surface or a line in space, in a general or an axial plane.
        ax = rng.randrange(dim + 1)
        x0 = rng.choice([0, 3])
        bend = rng.random() < 0.4
        d['coors'] = [list(x[:ax]) + [x0 + (abs(x[0]) if bend else 0)] + list(x[ax:]) for x in d['coors']]
        d['dim'] = dim = dim + 1
    elif r in (1, 2, 3) and dim > 1: # Facets and edges.
        low = []
        for k, _, v in cells:
            for fk, loc in FACES[k]:
                if rng.random() < 0.4: low.append([fk, rng.choice(gs + [7]), [v[j] for j in loc]])
        cells = low + cells if rng.random() < 0.5 else cells + low
    # Blocks of cells, also several of one kind.
    blocks = []
    if h[0][2] % 3 == 0:
        for kind, grp in itertools.groupby(sorted(cells, key=lambda c: (c[0][0], rng.random())), key=lambda c: c[0]):
            blocks.append([kind, [[c[1], c[2]] for c in grp]])
    else:
        for kind, grp in itertools.groupby(cells, key=lambda c: c[0]):
            blocks.append([kind, [[c[1], c[2]] for c in grp]])
    if h[0][3] % 3 == 0: rng.shuffle(blocks)
    bc = []
    for n in range(rng.choice([0, 0, 1, 2])):
        bc.append(['b%d' % n, sorted(rng.sample(range(len(d['coors'])), rng.randint(1, len(d['coors']))))])
    ops = []
    for x in h[1:]:
        k = x[0] % 12
        if k == 0: ops.append(dict(op='copy'))
        elif k == 1: ops.append(dict(op='pickle'))
        elif k == 2: ops.append(dict(op='sub', bits=rng.randrange(1, 2**20), loc=x[1] % 3 > 0))
        else:
            f = FORMATS[(x[1] + rng.randrange(3)) % len(FORMATS)] if x[2] % 3 else rng.choice(GOOD)
            ops.append(dict(op='file', f=f, omit=x[3] % 5 == 0, data=x[2] % 2 == 0, auto=x[3] % 2 == 0))
    del d['cells']
    return dict(c=dict(mesh=d, blocks=blocks, bc=bc, scale=rng.choice([1.0, 0.5, 0.1, 1 / 3.])), ops=ops)


def run(ctx):
    ctx.model('MeshFileMC', 'MeshFileMC.cfg' if ctx.quick else 'MeshFileMC2.cfg')
    rng = random.Random(ctx.seed + 13)
    scns = [make(rng, h) for h in ctx.behaviours('MeshFileMC', 'MeshFileSim.cfg', depth=8, num=ctx.pick(600, 8000), seed=ctx.seed + 13)]
    traces = ctx.drive('meshfile', scns)
    ctx.info['written_and_read'] = sum(e['ok'] for t in traces for e in t.get('ev', []) if e['op'] == 'file')
    ctx.info['refused'] = sum(not e['ok'] for t in traces for e in t.get('ev', []) if e['op'] == 'file')
    ctx.validate('MeshFileTrace', traces, scns, driver='meshfile')
