"""Generated, refined and merged meshes (spec/Cover.tla)."""
import contextlib
import io
import numpy as nm
import meshes
from sfepy.discrete.fem import FEDomain, Mesh
from sfepy.discrete.fem.mesh import fix_double_nodes
from sfepy.discrete.fem.refine_hanging import refine
from sfepy.mesh import mesh_generators as mg
from sfepy.mesh import mesh_tools as mt


def ints(x):
    return [int(v) for v in nm.asarray(x).ravel()]


def content(m, scale=1.0):
    cells = []
    for desc in m.descs:
        conn, ids = m.get_conn(desc, ret_cells=True)
        cells += [[desc, int(m.cmesh.cell_groups[k]), ints(c), int(k)] for k, c in zip(ids, conn)]
    cells = [c[:3] for c in sorted(cells, key=lambda c: c[3])]
    x = m.coors * scale
    r = nm.round(x)
    if scale == 1.0 and not (nm.abs(x - r) < 1e-6).all(): r = r + 10**7
    return dict(dim=int(m.dim), x=[ints(v) for v in nm.clip(r, -10**7, 10**7)], vg=ints(m.cmesh.vertex_groups), cells=cells)


def groups(domain):
    out = []
    for g in sorted(set(ints(domain.cmesh.cell_groups))):
        r = domain.create_region('r%d' % g, 'cells of group %d' % g, add_to_regions=False)
        out.append([g, ints(r.cells)])
    return out


def subsets(domain, subs):
    """Facets and edges given by vertices."""
    if subs is None: return [], []
    gel = list(domain.geom_els.values())[0]
    conn = domain.get_conn()
    def conv(sub, ents):
        if sub is None: return []
        return [[ints(conn[s[0]][ents[s[1]]]),
                 [ints(conn[s[k]][ents[s[k + 1]]]) for k in range(2, len(s), 2)],
                 [int(s[k]) for k in range(2, len(s), 2)]] for s in nm.asarray(sub, dtype=int)]
    if domain.mesh.descs[0] == '2_4':
        return conv(subs, gel.edges), []
    return conv(subs[0], gel.faces), conv(subs[1], gel.edges)


def explode(m, keep):
    """Cells not sharing the vertices (except of cells kept together)."""
    conns, coors, vg, mats = [], [], [], []
    n = 0
    cache = {}
    for desc in m.descs:
        conn, ids = m.get_conn(desc, ret_cells=True)
        out = []
        for c, k in zip(conn, ids):
            row = []
            for v in c:
                if (v in cache) and ((v * 7 + k * 3) % keep[0] < keep[1]):
                    row.append(cache[v])
                else:
                    row.append(n)
                    cache[v] = n
                    coors.append(m.coors[v])
                    vg.append(m.cmesh.vertex_groups[v])
                    n += 1
            out.append(row)
        conns.append(nm.array(out, dtype=nm.int32))
        mats.append(m.cmesh.cell_groups[ids])
    return nm.array(coors), nm.array(vg, dtype=nm.int32), conns, mats


def domain_of(m):
    return FEDomain('d', m)


def make(o):
    k = o['kind']
    if k == 'block':
        return mg.gen_block_mesh(o['dims'], o['shape'], o['centre'], mat_id=o['mat'], verbose=False)
    if k == 'cyl':
        return mg.gen_cylinder_mesh(o['dims'], o['shape'], o['centre'], axis=o['axis'], force_hollow=o['hollow'], is_open=o['open'],
                                    open_angle=o['angle'], non_uniform=o['nonu'], make_2d=o['make2d'], verbose=False)
    if k == 'ext':
        f = {'none': None, 'lin': (lambda x: x), 'quad': (lambda x: 0.5 * (x + x**2))}[o['fun']]
        return mg.gen_extended_block_mesh(o['b_dims'], o['b_shape'], o['e_dims'], o['e_shape'], o['centre'], grading_fun=f)
    if k == 'vox':
        return mg.gen_mesh_from_voxels(nm.array(o['vox']), o['dims'], etype=o['etype'])


def run(scn):
    with contextlib.redirect_stdout(io.StringIO()):
        return run_(scn)


def run_(scn):
    if scn.get('gen'):
        o = scn['gen']
        m = make(o)
        m = domain_of(m).mesh
        e = dict(o, op='gen', ok=True, q=content(m, o['scale']))
        if o['kind'] == 'cyl':
            a1, b1, a2, b2, length = o['dims']
            nr = o['shape'][0]
            s = nm.linspace(0, 1, nr)
            if o['nonu']: ax = [nm.sqrt(p * p + s * (q * q - p * p)) for p, q in ((a1, a2), (b1, b2))]
            else: ax = [p + s * (q - p) for p, q in ((a1, a2), (b1, b2))]
            x = m.coors - nm.array(o['centre'])[:m.dim]
            perm = {'x': [0, 1, 2], 'z': [2, 0, 1], 'y': [1, 2, 0]}[o['axis']]
            x = x[:, perm] if m.dim == 3 else nm.c_[x[:, :1] * 0, x]
            h = 0.0 if o['make2d'] else 0.5 * length
            on = (nm.abs((x[:, 1:2] / ax[0])**2 + (x[:, 2:] / ax[1])**2 - 1) < 1e-9).sum(1) == 1
            on &= (nm.abs(x[:, 0]) <= h + 1e-9)
            e['rad'] = [int(not v) for v in on]
            for k in ('dims', 'centre', 'angle'): e[k] = [int(round(v)) for v in nm.ravel(e[k])]
        if o['kind'] == 'ext':
            e['slo'] = ints(nm.round((nm.array(o['centre']) - 0.5 * nm.array(o['e_dims'])) * o['scale']))
            e['shi'] = ints(nm.round((nm.array(o['centre']) + 0.5 * nm.array(o['e_dims'])) * o['scale']))
            for k in ('b_dims', 'e_dims', 'centre'): e[k] = [int(round(v)) for v in nm.ravel(e[k])]
        if o['kind'] == 'vox':
            vox = nm.array(o['vox'])
            e['boxes'], e['nbf'] = [], 0
            for idx in zip(*nm.nonzero(vox)):
                p = [idx[1], idx[0]] + list(idx[2:])
                e['boxes'].append([ints((nm.array(p) + c) * o['dims']) for c in nm.ndindex(*([2] * len(p)))])
                for ax in range(len(p)):
                    for d in (-1, 1):
                        q = list(idx)
                        q[ax] += d
                        e['nbf'] += int(not (0 <= q[ax] < vox.shape[ax] and vox[tuple(q)]))
        e.pop('scale'); e.pop('vox', None)
        return dict(m=dict(dim=0), ev=[e])
    m = meshes.make_mesh(scn['mesh'])
    dom = domain_of(m)
    subs = None
    out = dict(m=content(dom.mesh), ev=[])
    pre, pre_subs = 0, [[], []]
    for n, o in enumerate(scn['ops']):
        e = dict(op=o['op'], pre=pre, ok=True, s0=pre_subs[0])
        keep = None
        try:
            if o['op'] == 'refine':
                keep = dom.refine()
                e['q'] = content(keep.mesh)
                e['rg'] = groups(keep)
                nsubs = None
            elif o['op'] == 'hang':
                flags = nm.zeros(dom.shape.n_el, dtype=bool)
                busy = set()
                for s in (subs if isinstance(subs, tuple) else (subs,)):
                    if s is not None: busy |= set(ints(s[:, ::2]))
                e['ref'] = [k for k in range(len(flags)) if (o['bits'] >> (k % 20)) & 1 and (o['wild'] or k not in busy)]
                e['bad'] = bool(busy & set(e['ref']))
                flags[e['ref']] = True
                ret = refine(dom, flags, subs=subs, ret_sub_cells=True)
                keep, nsubs, sc = ret
                e['q'] = content(keep.mesh)
                e['rg'] = groups(keep)
                ch = list(range(dom.shape.n_el)) + [-1] * (keep.shape.n_el - dom.shape.n_el)
                for row in nm.asarray(sc, dtype=int):
                    for k in row[1:]: ch[k] = int(row[0])
                e['ch'] = ch
                e['s1'], e['es1'] = subsets(keep, nsubs)
            elif o['op'] == 'add':
                m2 = dom.mesh.copy()
                m2.coors[:] += nm.array(o['shift'])
                if o['mirror'] and len(m2.descs) == 1: # Another numbering of vertices and cells.
                    conn = m2.get_conn(m2.descs[0])
                    perm = nm.arange(m2.n_nod)[::-1]
                    coors, vg = m2.coors[perm], m2.cmesh.vertex_groups[perm]
                    m2 = Mesh.from_data('n', coors, vg, [(m2.n_nod - 1 - conn)[::-1]], [m2.cmesh.cell_groups[::-1] + 5], m2.descs)
                e['o'] = content(m2)
                e['q'] = content(dom.mesh + m2)
            elif o['op'] == 'tile':
                q, ndmap = mg.gen_tiled_mesh(dom.mesh, o['grid'], 1.0, ret_ndmap=True)
                q2 = mg.gen_tiled_mesh(dom.mesh, o['grid'], 1.0)
                e['grid'], e['ndmap'], e['q'] = o['grid'], ints(ndmap), content(q)
                e['same'] = content(q2) == e['q']
            elif o['op'] == 'extrude':
                e['dz'], e['nz'] = o['dz'], o['nz']
                e['wtt'] = o['wtt']
                e['q'] = content(mt.extrude(dom.mesh, nm.array([[0, 0, o['dz'] * k] for k in range(o['nz'] + 1)], dtype=float) * 1.0
                                            + nm.r_[dom.mesh.coors.mean(0), 0], wedge_to_tetra=o['wtt']))
            elif o['op'] == 'bend':
                q = mt.extrude(dom.mesh, o['cline'], twist=o['twist'], wedge_to_tetra=o['wtt'])
                e['q'] = content(domain_of(q).mesh, 1.01)
                e['nz'], e['wtt'] = len(o['cline']) - 1, o['wtt']
            elif o['op'] == 'revolve':
                lo, hi = dom.mesh.get_bounding_box()
                q = mt.revolve(dom.mesh, o['nphi'], [lo[0] - 50, 0, 0], v=o['v'], phi_max=o['phi'], wedge_to_tetra=o['wtt'])
                e['q'] = content(domain_of(q).mesh, 1.01)
                e['nz'], e['wtt'], e['closed'] = o['nphi'], o['wtt'], o['phi'] is None
            elif o['op'] == 'mirror':
                e['axis'] = o['axis']
                lo, hi = dom.mesh.get_bounding_box()
                p = [0, 0, 0]
                p[o['axis']] = e['p'] = int(hi[o['axis']] if o['side'] else lo[o['axis']])
                v = [0, 0, 0]
                v[o['axis']] = o['len']
                e['q'] = content(mt.mirror(dom.mesh, p, v))
            elif o['op'] == 'tri':
                e['q'] = content(mt.triangulate(dom.mesh))
            elif o['op'] in ('cgroup', 'ngroup'):
                f = dict(cgroup=mt.get_mesh_by_cgroup, ngroup=mt.get_mesh_by_ngroup)[o['op']]
                v = o['value']
                e['sel'] = [v] if isinstance(v, int) else list(v) if o['how'] == 'list' else list(range(v[0], v[1] + 1))
                e['only'] = o['only']
                e['q'] = content(f(dom.mesh, tuple(v) if (o['how'] == 'range') else v, cell_vertices_only=o['only']))
            elif o['op'] == 'merge':
                coors, vg, conns, mats = explode(dom.mesh, o['keep'])
                if o['how'] == 'merge':
                    q = mt.merge_nodes(Mesh.from_data('e', coors, vg, conns, mats, dom.mesh.descs))
                else:
                    coors, vg, conns = fix_double_nodes(coors, vg, conns)
                    q = Mesh.from_data('e', coors, vg, conns, mats, dom.mesh.descs)
                e['q'] = content(q)
        except (ValueError, NotImplementedError, KeyError) as exc:
            e['ok'] = False
            e.pop('q', None)
            e['error'] = str(exc)[:100]
        e.pop('bad', None)
        out['ev'].append(e)
        if e['ok'] and keep is not None:
            dom, subs, pre = keep, nsubs, n + 1
            pre_subs = [e.get('s1', []), e.get('es1', [])]
    return out
