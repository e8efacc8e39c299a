"""Region construction driver."""
import numpy as np
import meshes


def tok_str(t):
    if t['t'] != 'leaf':
        return t['t']
    lf = t['l']
    k = lf['k']
    if k == 'all': return 'all'
    if k == 'surf': return 'vertices of surface'
    if k == 'vgroup': return 'vertices of group %d' % lf['n']
    if k == 'cgroup': return 'cells of group %d' % lf['n']
    if k == 'vset': return 'vertices of set %s' % lf['name']
    if k == 'vids': return 'vertex ' + ', '.join(map(str, lf['ids']))
    if k == 'cids': return 'cell ' + ', '.join(map(str, lf['ids']))
    if k == 'vof': return 'vertex in r.%s' % lf['name']
    if k == 'ref': return 'r.%s' % lf['name']
    if k == 'vin': return 'vertices in ' + rel_str(lf['rpn'])
    if k == 'vby': return 'vertices by %s' % lf['fname']
    if k == 'cby': return 'cells by %s' % lf['fname']
    raise ValueError(k)


def rel_str(rpn):
    st = []
    for r in rpn:
        if r['op'] in '&|':
            b, a = st.pop(), st.pop()
            st.append('%s %s %s' % (a, r['op'], b) if len(st) == 0 and
                      r is rpn[-1] else '(%s %s %s)' % (a, r['op'], b))
        else:
            s = '%s %s %s' % ('xyz'[r['ax'] - 1], r['op'], fnum(r['val']))
            st.append('(' + s + ')' if len(rpn) > 1 else s)
    assert len(st) == 1
    return st[0]


def fnum(v):
    # Coordinates are integers; thresholds may be given with a fraction.
    return '%.1f' % v if v >= 0 else '%d' % v


def eval_rpn(rpn, c):
    st = []
    ops = {'<': np.less, '>': np.greater, '<=': np.less_equal,
           '>=': np.greater_equal, '==': np.equal, '!=': np.not_equal}
    for r in rpn:
        if r['op'] == '&':
            b, a = st.pop(), st.pop(); st.append(a & b)
        elif r['op'] == '|':
            b, a = st.pop(), st.pop(); st.append(a | b)
        else:
            st.append(ops[r['op']](c[:, r['ax'] - 1], r['val']))
    return st[0]


def sel_str(toks):
    return ' '.join(tok_str(t) for t in toks)


def snap(regions, tdim):
    return {r.name + '#%d' % id(r): (r.kind, r.parent,
                     [r.get_entities(d).tolist() for d in range(tdim + 1)])
            for r in regions}


def mesh_snap(mesh):
    cm = mesh.cmesh
    return [mesh.coors.tolist(), cm.vertex_groups.tolist(),
            cm.cell_groups.tolist(), cm.get_cell_conn().indices.tolist()]


def run(scn):
    from sfepy.discrete.fem import FEDomain
    from sfepy.discrete import Functions, Function
    from sfepy.discrete.common.region import Region

    md = scn['mesh']
    mesh = meshes.make_mesh(md, nodal_bcs=scn.get('sets') or {})
    domain = FEDomain('d', mesh)
    cm = domain.cmesh
    tdim = cm.tdim
    ent = []
    for d in range(1, tdim + 1):
        cn = cm.get_conn(d, 0)
        ent.append([cn.indices[cn.offsets[i]:cn.offsets[i + 1]].tolist()
                    for i in range(cn.num)])
    icoors = np.array(md['coors']).reshape(-1, md['dim'])
    # Scaled centroids: sums of the vertex coordinates times 12 / n_vertex.
    ccen = [(icoors[c].sum(0) * (24 // len(c))).tolist() for c in ent[-1]]
    descs = [c[0] for c in md['cells']]
    cm.setup_connectivity(tdim - 1, tdim)
    cn = cm.get_conn(tdim - 1, tdim)
    surf = [i for i in range(cn.num) if cn.offsets[i + 1] - cn.offsets[i] == 1]
    trm = dict(tdim=tdim, nv=len(md['coors']), ent=ent, desc=descs,
               crd=icoors.tolist(), ccen=ccen, vg=md['vg'],
               cg=[c[1] for c in md['cells']], surf=surf,
               sets=scn.get('sets') or {'none__': []})

    evs = []
    for e in scn['ev']:
        before = snap(domain.regions, tdim)
        mbefore = mesh_snap(mesh)
        funs = []
        for t in e.get('toks', []):
            lf = t.get('l', {})
            if lf.get('k') == 'vby':
                funs.append(Function(lf['fname'],
                    lambda coors, domain=None, r=lf['rpn']:
                        np.where(eval_rpn(r, coors))[0]))
            elif lf.get('k') == 'cby':
                # Thresholds refer to 24 x centroid.
                funs.append(Function(lf['fname'],
                    lambda coors, domain=None, r=lf['rpn']:
                        np.where(eval_rpn(r, np.round(coors * 24)))[0]))
        o = dict(op=e['op'], name=e['name'], kind=e['kind'],
                 parent=e.get('parent', ''), allow=e.get('allow', False),
                 add=e.get('add', True))
        reg = None
        try:
            if e['op'] == 'make':
                o.update(d=e['d'], ids=e['ids'])
                f = {0: Region.from_vertices, 2: Region.from_facets,
                     3: Region.from_cells}[e['d']]
                kw = {} if e['d'] == 0 else {'parent': None}
                reg = f(np.array(e['ids'], dtype=np.uint32), domain,
                        name=e['name'], kind=e['kind'], **kw)
                reg.update_shape()
                if o['add']:
                    domain.regions.append(reg)
            else:
                toks = [dict(t) for t in e['toks']]
                for t in toks:
                    t.setdefault('l', {'k': 'none'})
                    if t['l']['k'] == 'vof':
                        t['l'] = dict(t['l'], pick=-1)
                o['toks'] = toks
                s = sel_str(e['toks'])
                if e.get('copy'):
                    s = 'copy ' + s
                o['sel'] = s
                reg = domain.create_region(
                    e['name'], s, kind=e['kind'],
                    parent=e.get('parent') or None,
                    functions=Functions(funs), allow_empty=o['allow'],
                    add_to_regions=o['add'])
            o['ok'] = True
        except RecursionError:
            o.update(ok=False, exc='RecursionError')
        except Exception as exc:
            o.update(ok=False, exc=type(exc).__name__)
        after = snap([r for r in domain.regions if r is not reg], tdim)
        chg = [k.split('#')[0] for k in before if after.get(k) != before[k]]
        if mesh_snap(mesh) != mbefore:
            chg.append('<mesh>')
        o['chg'] = chg
        if o['ok']:
            o['r'] = dict(kind=reg.kind,
                          ent=[reg.get_entities(d) for d in range(tdim + 1)])
            o['rawids'] = (e['op'] == 'make'
                           or any(t.get('l', {}).get('k') in ('vids', 'cids', 'vset', 'ref')
                                  for t in e['toks']))
            sh = reg.shape
            o['shape'] = ([sh.n_vertex]
                          + ([sh.n_edge] if tdim > 1 else [])
                          + ([sh.n_face] if tdim > 2 else []) + [sh.n_cell])
            nv, nc = trm['nv'], len(ent[-1])
            o['chv'] = [int(v) for v in reg.get_charfun()]
            o['chc'] = [int(v) for v in reg.get_charfun(by_cell=True)]
            fd = tdim - 1
            if (e['op'] != 'make') and tdim > 1 and len(reg.get_entities(fd)):
                try:
                    o['fi'] = [[int(a), int(b)]
                               for a, b in reg.get_facet_indices()]
                except Exception as exc:
                    o['fiexc'] = type(exc).__name__
                if reg.kind != 'cell':
                    o['fc'] = reg.get_cells(true_cells_only=False)
            if e['op'] != 'make' and not reg.is_empty:
                cp = reg.copy()
                o['cp'] = [cp.get_entities(d) for d in range(tdim + 1)]
            if tdim > 1 and len(reg.get_entities(1)) and len(reg.get_entities(0)):
                g = reg.get_edge_graph().tocoo()
                o['eg'] = [[int(a), int(b), int(v)] for a, b, v
                           in zip(g.row, g.col, g.data)]
        evs.append(o)
    return dict(mesh=trm, ev=evs)
