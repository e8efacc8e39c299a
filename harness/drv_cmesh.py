"""Connectivity requests on CMesh."""
import numpy as np
import meshes


def conn_lists(cn):
    return [cn.indices[cn.offsets[i]:cn.offsets[i + 1]].tolist()
            for i in range(cn.num)]


def fresh(cm0, gels):
    cm = cm0.create_new()
    cm.set_local_entities(gels)
    return cm


def u32(x):
    return np.ascontiguousarray(x, dtype=np.uint32)


def near(x, s):
    """Scaled value rounded to an integer; -777777 if it is not near one."""
    x = np.asarray(x, dtype=np.float64) * s
    r = np.round(x)
    return np.where(np.abs(x - r) < 1e-6 * (1 + np.abs(x)), r,
                    -777777).astype(np.int64).tolist()


def run(scn):
    from sfepy.discrete.fem import FEDomain
    md = scn['mesh']
    mesh = meshes.make_mesh(md)
    domain = FEDomain('d', mesh)
    gels = domain.geom_els
    tdim = md['dim']
    cm = fresh(domain.cmesh, gels)
    # The numbering of entities: the first request on a fresh mesh.
    ref = fresh(domain.cmesh, gels)
    ent = []
    for d in range(1, tdim):
        ref.setup_connectivity(d, 0)
        ent.append(conn_lists(ref.get_conn(d, 0)))
    cells = conn_lists(cm.get_conn(tdim, 0))
    trm = dict(tdim=tdim, nv=len(md['coors']), desc=[c[0] for c in md['cells']],
               cells=cells, ent=ent, crd=md['coors'], vg=md['vg'],
               cg=[c[1] for c in md['cells']],
               orig=[c[2] for c in md['cells']])
    evs = [dict(op='mesh', oriented=bool(scn.get('oriented', True)))]
    for e in scn['ev']:
        o = dict(e)
        op = e['op']
        if op == 'setup':
            cm.setup_connectivity(e['a'], e['b'])
        elif op == 'free':
            cm.free_connectivity(e['a'], e['b'])
        elif op == 'graph':
            g = cm.get_conn_as_graph(e['a'], e['b'])
            o['ind'] = g.indices.tolist()
            o['ptr'] = g.indptr.tolist()
            o['ones'] = bool((g.data == 1).all())
            o['shape'] = list(g.shape)
        elif op == 'inc':
            ids = u32(e['ids'])
            if e['a'] != e['b']:
                cm.setup_connectivity(e['b'], e['a'])
            else:
                cm.setup_connectivity(e['a'], e['a'])
            ii, off = cm.get_incident(e['a'], ids, e['b'], ret_offsets=True)
            o['ind'], o['off'] = ii.tolist(), off.tolist()
            o['same'] = cm.get_incident(e['a'], ids, e['b']).tolist() == o['ind']
            if e['b'] < e['a'] and e['b'] > 0 and len(ids):
                # Local ids of `ids` in their incident entities.
                cm.setup_connectivity(e['a'], e['b'])
                o['loc'] = cm.get_local_ids(ids, e['b'], ii, off, e['a']).tolist()
        elif op == 'complete':
            cm.setup_connectivity(e['a'], e['b'])
            cm.setup_connectivity(e['b'], e['a'])
            o['out'] = cm.get_complete(e['a'], u32(e['ids']), e['b']).tolist()
        elif op == 'surf':
            o['out'] = cm.get_surface_facets().tolist()
        elif op == 'geom':
            d = e['d']
            cm.setup_connectivity(d, 0)
            if d == 0:
                o['cen'] = near(cm.get_centroids(0), 12)
            else:
                o['cen'] = near(cm.get_centroids(d), 12)
                v = cm.get_volumes(d)
                sc = 1 if d == 1 else (2 if d == 2 else 6)
                if d == tdim:
                    o['vol'] = near(v, sc)
                else:
                    # Squared (double) measure.
                    o['vol'] = near(np.asarray(v) ** 2, sc * sc)
        elif op == 'ori':
            cm.setup_entities()
            o['out'] = cm.get_orientations(e['d']).tolist()
        elif op == 'normals':
            n = cm.get_facet_normals(e['which'])
            o['out'] = np.round(n * 1000).astype(int).tolist()
        elif op == 'new':
            if e['d'] == -1:
                s = cm.create_new()
                o['d'] = tdim
                o['ids'] = list(range(len(cells)))
                o['localize'] = False
            else:
                cm.setup_connectivity(e['d'], 0)
                s = cm.create_new(u32(e['ids']), e['d'], localize=e['localize'])
            o['scells'] = conn_lists(s.get_conn(o['d'], 0))
            o['scrd'] = np.round(s.coors).astype(int).tolist()
            o['svg'] = s.vertex_groups.tolist()
            o['scg'] = s.cell_groups.tolist()
            o['snum'] = [int(s.num[0]), int(s.num[o['d']])]
            if o['d'] > 1:
                s.set_local_entities(gels)
                if not all(k in gels for k in ['2_3', '2_4']):
                    from sfepy.discrete.fem.geometry_element import GeometryElement
                    g2 = dict(gels)
                    for k in ('2_3', '2_4'):
                        g2.setdefault(k, GeometryElement(k))
                    s.set_local_entities(g2)
                s.setup_connectivity(o['d'] - 1, o['d'])
                o['sfac'] = conn_lists(s.get_conn(o['d'] - 1, o['d']))
        else:
            raise ValueError(op)
        o['av'] = []
        for a in range(tdim + 1):
            for b in range(tdim + 1):
                cn = cm.get_conn(a, b)
                if cn is not None:
                    o['av'].append(dict(a=a, b=b, l=conn_lists(cn)))
        o['num'] = [int(x) for x in cm.num[:tdim + 1]]
        evs.append(o)
    return dict(mesh=trm, ev=evs)
