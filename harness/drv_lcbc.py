"""Linear combination boundary conditions (spec/Lcbc.tla)."""
import numpy as nm
from sfepy.base.base import Struct
from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Function, Functions
from sfepy.discrete.conditions import Conditions, EssentialBC, LinearCombinationBC
from sfepy.discrete.fem import FEDomain, Field
from sfepy.terms import Term
import meshes

S = 1000


def ints(x):
    return [int(v) for v in nm.asarray(x).ravel()]


def scaled(x):
    return [int(round(v * S)) if abs(v) < 1e5 else 2**31 - 1 for v in nm.asarray(x).ravel()]


def make_domain(c):
    dom = FEDomain('d', meshes.make_mesh(c['mesh']))
    dom.create_region('Omega', 'all')
    for name, verts, kind in c['regions']:
        dom.create_region(name, 'vertex ' + ', '.join(map(str, verts)), kind)
    fields = {f['name']: Field.from_args(f['name'], nm.float64, (f['nc'],), dom.regions['Omega'],
                                         approx_order=f['order']) for f in c['fields']}
    return dom, fields


def run(scn):
    c = scn['c']
    dim = c['mesh']['dim']
    try:
        dom, fields = make_domain(c)
    except ValueError as exc: # An empty region...
        return dict(skip=str(exc), ev=[])
    odom, ofields = make_domain(c)
    nodes_of = lambda fname, reg: ints(nm.unique(ofields[fname].get_dofs_in_region(odom.regions[reg])))
    coors_of = lambda fname, nodes: [ints(nm.round(x)) for x in ofields[fname].get_coor()[nodes]]
    vv, terms, eqs = {}, {}, []
    off, n = {}, 0
    nc_of, f_of = {}, {}
    for k, v in enumerate(c['vars']):
        f = fields[v['field']]
        nc_of[v['name']], f_of[v['name']] = f.n_components, v['field']
        vv[v['name']] = FieldVariable(v['name'], 'unknown', f, order=k)
        tv = FieldVariable('t' + v['name'], 'test', f, primary_var_name=v['name'])
        t = Term.new('dw_dot(t%s, %s)' % (v['name'], v['name']), Integral('i', order=1), dom.regions['Omega'],
                     **{v['name']: vv[v['name']], 't' + v['name']: tv})
        eqs.append(Equation('e' + v['name'], t))
        off[v['name']] = n
        n += f.n_nod * f.n_components
    eqs = Equations(eqs)
    vs = eqs.variables
    vs.init_state()
    flat = lambda vn, node, comp: off[vn] + node * nc_of[vn] + comp
    names = lambda vn, comps: ('%s.all' % vn if len(comps) == nc_of[vn] and comps == sorted(comps)
                               else '%s.[%s]' % (vn, ','.join(map(str, comps))) if len(comps) > 1
                               else '%s.%d' % (vn, comps[0]))
    ebcs, elist = [], []
    for j, (vn, reg, comps, val) in enumerate(c['ebcs']):
        ebcs.append(EssentialBC('e%d' % j, dom.regions[reg], {names(vn, comps): float(val)}, key='e%02d' % j))
        elist += [[flat(vn, nd, cc), val * S] for nd in nodes_of(f_of[vn], reg) for cc in comps]
    edofs = set(d for d, _ in elist)
    lcbcs, ops = [], []
    for j, o in enumerate(c['ops']):
        kind = o['kind']
        vn, reg, comps = o['var'], o['region'], o['comps']
        nds = nodes_of(f_of[vn], reg)
        xs = coors_of(f_of[vn], nds)
        op = dict(kind=kind, n=[[x, [flat(vn, nd, cc) for cc in comps]] for nd, x in zip(nds, xs)], dim=dim,
                  comps=comps, v=vn, verts=odom.regions[reg].vertices.tolist(), sv='', sverts=[], times=o['times'])
        args, fun = None, None
        regs, dofs = [dom.regions[reg], None], {names(vn, comps): None}
        pos = {tuple(x): k for k, x in enumerate(xs)}
        if 'svar' in o:
            sn, scomps, sreg = o['svar'], o['scomps'], o['sregion']
            snds = nodes_of(f_of[sn], sreg)
            sxs = coors_of(f_of[sn], snds)
            regs[1], dofs = dom.regions[sreg], {names(vn, comps): names(sn, scomps)}
            op['sv'], op['sverts'] = sn, odom.regions[sreg].vertices.tolist()
        if kind in ('no_penetration', 'normal_direction'):
            args = (None,)
            # Outward normals of the facets of the grid: a facet on a side.
            side = {tuple(x): nd for nd, x in zip(nds, xs)}
            op['facets'] = [[d, [pos[tuple(p)] + 1 for p in pts if tuple(p) in pos]] for d, pts in c['sides'][o['fkey']]]
        elif kind == 'edge_direction':
            args = (None,)
            op['edges'] = [[pos[tuple(a)] + 1, pos[tuple(b)] + 1] for a, b in o['edges']]
        elif kind == 'nodal_combination':
            if o['form'] == 0:
                args = ([nm.array(o['A'], dtype=nm.float64), nm.array(o['b'], dtype=nm.float64)],)
            else:
                args = (Function('nf%d' % j, lambda ts, coors, region=None, o=o: (
                    nm.tile(nm.array(o['A'], dtype=nm.float64), (len(coors), 1, 1)),
                    nm.tile(nm.array(o['b'], dtype=nm.float64), (len(coors), 1)))),)
            op.update(A=o['A'], b=o['b'])
        elif kind == 'rigid_twist':
            args = (o['region2'], o['anchor'], o['axis'], o['thread'])
            nds2 = nodes_of(f_of[vn], o['region2'])
            op.update(n2=[[x, [flat(vn, nd, cc) for cc in comps]] for nd, x in
                          zip(nds2, coors_of(f_of[vn], nds2))],
                      anchor=o['anchor'], axis=o['axis'], thread=o['thread'], sv=vn,
                      sverts=odom.regions[o['region2']].vertices.tolist())
        elif kind in ('shifted_periodic', 'match_dofs'):
            m = min(len(nds), len(snds))
            rs = nm.random.RandomState(o['perm'])
            i1, i2 = rs.permutation(len(nds))[:m], rs.permutation(len(snds))[:m]
            if o['part'] and m > 1: i1, i2 = i1[:m // 2], i2[:m // 2]
            fun = Function('mf%d' % j, lambda a, b, i1=i1, i2=i2: (i1, i2))
            shift = lambda x: [o['shift'] + k + x[0] for k in range(len(comps))]
            op['same'] = len(nds) == len(snds)
            op['pairs'] = [[flat(vn, nds[a], cc), flat(sn, snds[b], sc),
                            (S * shift(sxs[b])[k]) if kind == 'shifted_periodic' and o['shift'] else 0]
                           for a, b in zip(i1, i2) for k, (cc, sc) in enumerate(zip(comps, scomps))]
            if kind == 'shifted_periodic':
                args = (None if not o['shift'] else Function('sf%d' % j, lambda ts, coors, region=None, o=o, nc=len(comps):
                        nm.array([[o['shift'] + k + x[0] for k in range(nc)] for x in coors])),)
        elif kind == 'multi_node_combination':
            rs = nm.random.RandomState(o['perm'])
            midx = rs.permutation(len(nds))[:max(1, len(nds) - o['part'])]
            w = [int(x) for x in rs.randint(-3, 4, o['nw'])]
            sidx = rs.randint(0, len(snds), (len(midx), o['nw']))
            if o['form'] == 0:
                args, cons = (w,), [w] * len(midx)
                fun = Function('mf%d' % j, lambda a, b, m=midx, q=sidx: (m, q.ravel()))
            else:
                cons = [[int(x) for x in row] for row in rs.randint(-3, 4, (len(midx), o['nw']))]
                args = (None,)
                fun = Function('mf%d' % j, lambda a, b, m=midx, q=sidx, w=cons: (m, q.ravel(), nm.array(w, dtype=nm.float64)))
            op['comb'] = [[flat(vn, nds[a], cc), [[flat(sn, snds[b], sc), wt] for b, wt in zip(sidx[k], cons[k])]]
                          for k, a in enumerate(midx) for cc, sc in zip(comps, scomps)]
        elif kind == 'rigid2':
            op.update(ref=[[x, [flat(sn, nd, cc) for cc in scomps]] for nd, x in zip(snds, sxs)])
        elif kind == 'average_force':
            # The couples are given as (independent, dependent).
            op.update(ref=[[x, [flat(sn, nd, cc) for cc in scomps]] for nd, x in zip(snds, sxs)])
            regs, dofs = [regs[0], regs[1]], {names(vn, comps): names(sn, scomps)}
            nd_, rot = len(scomps), len(scomps) > dim
            ns = dim + {2: 1, 3: 3}[dim] if rot or o['wform'] == 2 else dim
            rs = nm.random.RandomState(o['perm'])
            wts = rs.randint(1, 4, (len(nds), ns)) if o['wform'] else nm.ones((len(nds), ns), dtype=int)
            if o['wform']:
                fun = Function('wf%d' % j, lambda a, b, w=wts: nm.array(w, dtype=nm.float64))
            op['w'] = [ints(x[:(dim + {2: 1, 3: 3}[dim]) if rot else dim]) for x in wts]
            ls = [sum((a - b)**2 for a, b in zip(x, sxs[0])) for x in xs] if len(sxs) else [0]
            length = nm.mean(nm.sqrt(ls)) or 1.0
            op['l2'] = int(round(length**2)) if abs(length**2 - round(length**2)) < 1e-12 else -1
        lcbcs.append(LinearCombinationBC('l%d' % j, regs, dofs, fun, kind, key='l%02d' % j,
                                         times=[tuple(t) for t in o['times']] or None, arguments=args))
        ops.append(op)
    ebcs, lcbcs = Conditions(ebcs), Conditions(lcbcs)
    ev = []
    rs = nm.random.RandomState(c['seed'])
    for step in scn['steps']:
        e = dict(step=step, raised='', vecs=[], rows=[], nred=0, cols=[], trip=True, stale=True)
        ev.append(e)
        try:
            ts = Struct(time=float(step), step=step, dt=1.0, is_quasistatic=False, n_step=10, nt=0.0)
            eqs.time_update(ts, ebcs=ebcs, epbcs=Conditions([]), lcbcs=lcbcs, functions=Functions([]), verbose=False)
            nred = (vs.lcdi if vs.has_lcbc else vs.adi).get_n_dof_total()
            e['nred'] = int(nred)
            full = lambda r: nm.array(vs.make_full_vec(r))
            base = full(nm.zeros(nred))
            L = nm.array([full(nm.eye(nred)[k]) - base for k in range(nred)]).T
            rows = []
            for row in L:
                nz = nm.nonzero(nm.abs(row) > 1e-12)[0]
                rows.append([] if not len(nz) else [int(nz[0]) + 1] if len(nz) == 1 and abs(row[nz[0]] - 1) < 1e-12
                            else [-1])
            e['rows'] = rows
            e['cols'] = [int(x) for x in (nm.abs(L) > 1e-12).sum(0)]
            for _ in range(2):
                r = rs.randint(-5, 6, nred).astype(float)
                e['vecs'].append(scaled(full(r)))
                vs.set_state(r, reduced=True)
                e['trip'] = bool(nm.allclose(vs.get_state(reduced=True), r) and nm.allclose(vs(), full(r)))
            if vs.has_lcbc:
                vn = c['vars'][0]['name']
                vs.set_state_parts({vn: 0 * vs.get_vec_part(vs(), vn) + 7.0}, force=True)
                try:
                    r = vs.get_state(reduced=True)
                    e['stale'] = bool(nm.allclose(full(r), vs()))
                except ValueError:
                    pass
        except Exception as exc:
            e['raised'] = type(exc).__name__
            import traceback
            e['tb'] = traceback.format_exc(limit=-2)[-500:]
    cc = dict(vars=[[v['name'], off[v['name']], nc_of[v['name']]] for v in c['vars']], ndof=n, ebc=elist, ops=ops)
    return dict(c=cc, ev=ev)
