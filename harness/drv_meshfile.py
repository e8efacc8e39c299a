"""Mesh files, copies and restrictions (spec/MeshFile.tla)."""
import contextlib
import io
import os
import pickle
import tempfile
import numpy as nm
from sfepy.base.base import Struct
from sfepy.discrete.fem import FEDomain, Mesh
from sfepy.discrete.fem.meshio import MeshIO

EXT = {'vtk': '.vtk', 'vtk-ascii': '.vtk', 'vtk-binary': '.vtk', 'vtu': '.vtu', 'medit': '.mesh', 'abaqus': '.inp',
       'hdf5': '.h5', 'hdf5-xdmf': '.h5x', 'nastran': '.bdf', 'gmsh': '.msh', 'gmsh-dg': '.msh', 'xyz': '.xyz',
       'su2': '.su2', 'netgen': '.vol'}
READ = {'vtk-ascii': 'vtk', 'vtk-binary': 'vtk'}


def ints(x):
    return [int(v) for v in nm.asarray(x).ravel()]


def content(m, scale):
    cells = []
    for desc in m.descs:
        cm = m.get_cmesh(desc)
        conn, ids = m.get_conn(desc, ret_cells=True, tdim=cm.tdim)
        cells += [[desc, int(cm.cell_groups[k]), ints(c)] for k, c in zip(ids, conn)]
    x = m.coors / scale
    r = nm.round(x)
    r = nm.where(nm.abs(x - r) < 1e-5, nm.clip(r, -10**6, 10**6), 10**7)
    return dict(dim=int(m.dim), x=[ints(v) for v in r], vg=ints(m.cmesh.vertex_groups), cells=cells,
                bc=[[k, ints(m.nodal_bcs[k])] for k in sorted(m.nodal_bcs)])


def numbering(m):
    cm = m.cmesh
    kinds = {v: k for k, v in cm.key_to_index.items()}
    return [[kinds[int(cm.cell_types[k])], int(cm.cell_groups[k]), ints(cm.get_incident(0, nm.array([k], nm.uint32), cm.tdim))]
            for k in range(cm.n_el)]


def build(c):
    d = c['mesh']
    conns, mats, descs = [], [], []
    for kind, cells in c['blocks']:
        descs.append(kind)
        conns.append(nm.array([x[1] for x in cells], dtype=nm.int32))
        mats.append(nm.array([x[0] for x in cells], dtype=nm.int32))
    coors = nm.array(d['coors'], dtype=nm.float64).reshape(-1, d['dim']) * c['scale']
    return Mesh.from_data('m', coors, nm.array(d['vg'], dtype=nm.int32), conns, mats, descs,
                          nodal_bcs={k: nm.array(v, dtype=nm.int32) for k, v in c['bc']})


def run(scn):
    c = scn['c']
    m = build(c)
    sc = c['scale']
    out = dict(m=content(m, sc), ev=[])
    with tempfile.TemporaryDirectory() as tmp:
        for n, o in enumerate(scn['ops']):
            e = dict(op=o['op'], f=o.get('f', ''), omit=o.get('omit', False), sel=[], loc=o.get('loc', False), ok=True,
                     num=[], dc=[], dv=[], err='')
            e['num'] = numbering(m)
            m2 = m
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    if o['op'] == 'copy':
                        m2 = m.copy()
                        m2.cmesh.cell_groups[:] += 1 # A deep copy.
                        m2.coors[:] += 1.0
                        for v in m2.nodal_bcs.values(): v += 1
                        same = content(m, sc) == (out['ev'][-1]['q'] if out['ev'] else out['m'])
                        m2.cmesh.cell_groups[:] -= 1
                        m2.coors[:] -= 1.0
                        for v in m2.nodal_bcs.values(): v -= 1
                        if not same: raise RuntimeError('not a deep copy')
                    elif o['op'] == 'pickle':
                        m2 = pickle.loads(pickle.dumps(m))
                    elif o['op'] == 'sub':
                        sel = [k for k in range(m.cmesh.n_el) if (o['bits'] >> (k % 20)) & 1] or [m.cmesh.n_el - 1]
                        e['sel'] = sel
                        dom = FEDomain('d', m)
                        reg = dom.create_region('R', 'cell ' + ', '.join(map(str, sel)), 'cell')
                        m2 = Mesh.from_region(reg, m, localize=o['loc'])
                    else:
                        f = o['f']
                        fn = os.path.join(tmp, 'm%d%s' % (n, EXT[f]))
                        kw = {}
                        if o.get('data') and f in ('vtk', 'vtk-ascii', 'vtk-binary', 'vtu') and len(set(m.dims)) == 1:
                            kw['out'] = {
                                's': Struct(name='s', mode='cell', data=nm.arange(m.n_el, dtype=nm.float64).reshape(-1, 1, 1, 1)),
                                'w': Struct(name='w', mode='vertex', data=nm.arange(m.n_nod, dtype=nm.float64).reshape(-1, 1))}
                        m.write(fn, io='auto', file_format=f if not o.get('auto') or f not in ('vtu', 'medit', 'hdf5', 'xyz') else None, **kw)
                        fr = READ.get(f, f)
                        m2 = Mesh.from_file(fn, file_format=None if o.get('auto') and f in ('vtk', 'vtu', 'medit', 'hdf5', 'xyz') else fr,
                                            omit_facets=o.get('omit', False))
                        if kw:
                            res = MeshIO.any_from_filename(fn, file_format=fr).read_data(0)
                            e['dc'], e['dv'] = ints(nm.round(res['s'].data)), ints(nm.round(res['w'].data))
            except (Exception, SystemExit) as exc:
                e.update(ok=False, err='%s: %s' % (type(exc).__name__, str(exc)[:80]))
                m2 = m
            e['q'] = content(m2, sc)
            m = m2
            out['ev'].append(e)
    return out
