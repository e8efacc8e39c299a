"""Matching of points, boundary DOFs and facets (spec/Matching.tla)."""
import contextlib
import io
import warnings
import numpy as nm
from sfepy.base.base import output
from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Function, Functions, Problem
from sfepy.discrete.conditions import Conditions, PeriodicBC, DGPeriodicBC
from sfepy.discrete.fem import FEDomain, Field
from sfepy.discrete.dg.fields import DGField
import sfepy.discrete.fem.periodic as per
from sfepy.linalg.utils import map_permutations
from sfepy.terms import Term
import meshes

warnings.simplefilter('ignore')
output.set_output(quiet=True)
ERRORS = (ValueError, AssertionError)


def ints(x): return [int(v) for v in nm.asarray(x).ravel()]
def rint(x): return [ints(nm.rint(r)) for r in nm.atleast_2d(x)]


def matcher(kind, d):
    """The matching function of the given kind."""
    if kind == 'dir': return lambda a, b, **kw: per.match_plane_by_dir(a, b, d, **kw)
    if kind == 'axis': return [per.match_x_plane, per.match_y_plane, per.match_z_plane][d - 1]
    if kind == 'axis2': return lambda a, b, **kw: per.match_grid_plane(a, b, d - 1, **kw)
    if kind == 'coors': return per.match_coors
    if kind == 'line': return [per.match_x_line, per.match_y_line, per.match_z_line][d - 1]


def run_points(scn):
    ev = []
    rng = nm.random.RandomState(scn['seed'])
    for q in scn['queries']:
        P, Q = nm.array(q['P'], dtype=nm.float64) * scn['unit'], nm.array(q['Q'], dtype=nm.float64) * scn['unit']
        e = dict(op=q['op'], kind=q['kind'], P=q['P'], Q=q['Q'], d=q['d'], raised='', pairs=[], kept=True)
        if q['op'] == 'perm':
            P, Q = nm.array(q['P']), nm.array(q['Q'])
            try:
                imap = map_permutations(P, Q, check_same_items=True)
                e['pairs'] = [[int(v) + 1, j + 1] for j, v in enumerate(imap)]
            except ERRORS as exc: e['raised'] = type(exc).__name__
            ev.append(e)
            continue
        if q['noise']:
            P += rng.uniform(-1e-11, 1e-11, P.shape)
            Q += rng.uniform(-1e-11, 1e-11, Q.shape)
        d = nm.array(q['d3'], dtype=[nm.float64, nm.int64, nm.float32][q['dtype']]) if q['dtype'] < 3 else tuple(q['d3'])
        before = P.copy(), Q.copy(), nm.array(d, copy=True)
        kw = {'get_saved': False} if q['fresh'] else {}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                i1, i2 = matcher(q['kind'], d if q['kind'] == 'dir' else q['axis'])(P, Q, **kw)
            e['pairs'] = [[int(a) + 1, int(b) + 1] for a, b in zip(i1, i2)]
            e['kept'] = len(i1) == len(i2)
        except ERRORS as exc:
            e['raised'] = type(exc).__name__
        e['kept'] = bool(e['kept'] and (P == before[0]).all() and (Q == before[1]).all() and (nm.array(d) == before[2]).all())
        ev.append(e)
    return dict(ev=ev)


def make(scn):
    dom = FEDomain('d', meshes.make_mesh(scn['mesh']))
    om = dom.create_region('Omega', 'all')
    sides = []
    for k, name in enumerate(['L', 'R']):
        sides.append(dom.create_region(name, 'vertex ' + ', '.join(map(str, scn['sides'][k])), 'facet'))
    return dom, om, sides


def nodes_of(field, reg):
    return [int(v) for v in nm.unique(field.get_dofs_in_region(reg))]


def match_function(scn):
    if scn['match'] == 'dir': fun = lambda a, b: per.match_plane_by_dir(a, b, scn['dir3'])
    elif scn['match'] == 'axis': fun = [per.match_x_plane, per.match_y_plane, per.match_z_plane][scn['axis'] - 1]
    else: fun = [per.match_x_line, per.match_y_line, per.match_z_line][scn['line'] - 1]
    return Functions([Function('match', fun)])


def run_epbc(scn):
    dom, om, (L, R) = make(scn)
    nc = scn['nc']
    field = Field.from_args('f', nm.float64, nc, om, approx_order=scn['order'], poly_space_basis=scn['basis'])
    u = FieldVariable('u', 'unknown', field)
    v = FieldVariable('v', 'test', field, primary_var_name='u')
    e = dict(op='epbc', raised='', pairs=[], P=[], Q=[], d=scn['dir'])
    X = rint(field.get_coor() * 4)
    lx, rx = nodes_of(field, L), nodes_of(field, R)
    e['P'], e['Q'] = [X[k] for k in lx], [X[k] for k in rx]
    eqs = Equations([Equation('eq', Term.new('dw_dot(v, u)', Integral('i', order=1), om, v=v, u=u))])
    dofs = {'u.all': 'u.all'} if scn['shiftc'] == 0 else {'u.%d' % k: 'u.%d' % ((k + scn['shiftc']) % nc) for k in range(nc)}
    bcs = []
    for k, (a, b) in enumerate(dofs.items()):
        bcs.append(PeriodicBC('p%d' % k, [L, R], {a: b}, 'match'))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            eqs.variables.equation_mapping(None, Conditions(bcs), None, match_function(scn))
        em = u.eq_map
        for m, s in zip(em.master, em.slave):
            mi, si = int(m) // nc, int(s) // nc
            if mi in lx and si in rx: e['pairs'].append([lx.index(mi) + 1, rx.index(si) + 1, int(m) % nc, int(s) % nc])
            elif mi in rx and si in lx: e['pairs'].append([lx.index(si) + 1, rx.index(mi) + 1, int(s) % nc, int(m) % nc])
            else: e['pairs'].append([0, 0, 0, 0])
    except ERRORS as exc:
        e['raised'] = type(exc).__name__
        e['message'] = str(exc)[:100]
    e['nc'], e['shiftc'] = nc, scn['shiftc']
    return dict(ev=[e])


def run_mirror(scn):
    dom, om, (L, R) = make(scn)
    order = scn['order']
    i = Integral('i', order=2 * order)
    f1 = Field.from_args('f1', nm.float64, 1, om, approx_order=order)
    f2 = Field.from_args('f2', nm.float64, 1, om, approx_order=order)
    var = {}
    for k, f in (('1', f1), ('2', f2)):
        var['u' + k] = FieldVariable('u' + k, 'unknown', f, order=int(k) - 1)
        var['v' + k] = FieldVariable('v' + k, 'test', f, primary_var_name='u' + k)
    e = dict(op='mirror', raised='', P=[], Q=[], M=[], T=[], V=[], rest=True, d=scn['dir'])
    X = rint(f1.get_coor() * 4)
    lx, rx = nodes_of(f1, L), nodes_of(f1, R)
    e['P'], e['Q'] = [X[k] for k in lx], [X[k] for k in rx]
    def term(src): return Term.new(src, i, L, **{k: q for k, q in var.items() if k in src})
    t1, t2 = term('dw_dot(v1, u1)'), term('dw_dot(v1, tr(R, u2))')
    t3 = Term.new('dw_dot(v2, u2)', i, R if scn['both'] else om, v2=var['v2'], u2=var['u2'])
    eqs = [t1 + t2, t3]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            es = Equations([Equation('a', eqs[0]), Equation('b', eqs[1])])
            pb = Problem('p', equations=es)
            pb.time_update()
            state = pb.get_initial_state()
            pb.update_materials()
            m = es.eval_tangent_matrices(state(), pb.mtx_a).toarray()
            n = f1.n_nod
            # Residual with a random integer function on the other side.
            vec = nm.zeros(2 * n)
            vec[n:][rx] = scn['values'][:len(rx)]
            state.set_state(vec)
            r = es.eval_residuals(vec)[:n]
    except ERRORS as exc:
        e['raised'] = type(exc).__name__
        e['message'] = str(exc)[:100]
        return dict(ev=[e])
    big = lambda q: rint(q * 1e5)
    e['M'], e['T'] = big(m[:n, :n][nm.ix_(lx, lx)]), big(m[:n, n:][nm.ix_(lx, rx)])
    e['V'] = ints(nm.rint(r[lx] * 1e5))
    e['vals'] = [int(q) for q in scn['values'][:len(rx)]]
    out = m[:n, n:].copy()
    out[nm.ix_(lx, rx)] = 0
    e['rest'] = not out.any()
    return dict(ev=[e])


def run_dg(scn):
    dom, om, (L, R) = make(scn)
    field = DGField('f', nm.float64, 'scalar', om, approx_order=scn['order'])
    u = FieldVariable('u', 'unknown', field)
    v = FieldVariable('v', 'test', field, primary_var_name='u')
    e = dict(op='dg', raised='', P=[], Q=[], pairs=[], back=[], d=scn['dir'], inner=True)
    cx = dom.cmesh.get_centroids(dom.cmesh.tdim - 1)
    e['P'], e['Q'] = rint(cx[L.facets] * 4), rint(cx[R.facets] * 4)
    eqs = Equations([Equation('eq', Term.new('dw_dot(v, u)', Integral('i', order=1), om, v=v, u=u))])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            eqs.variables.equation_mapping(None, Conditions([DGPeriodicBC('p', [L, R], {'u.all': 'u.all'}, 'match')]), None, match_function(scn))
            nb = field.get_facet_neighbor_idx(om, u.eq_map)
    except ERRORS as exc:
        e['raised'] = type(exc).__name__
        e['message'] = str(exc)[:100]
        return dict(ev=[e])
    fl, fr = [tuple(ints(q)) for q in L.get_facet_indices()], [tuple(ints(q)) for q in R.get_facet_indices()]
    find = lambda fs, q: fs.index(q) + 1 if q in fs else 0
    e['pairs'] = [[k + 1, find(fr, tuple(ints(nb[c, f])))] for k, (c, f) in enumerate(fl)]
    e['back'] = [[find(fl, tuple(ints(nb[c, f]))), k + 1] for k, (c, f) in enumerate(fr)]
    # The other facets: the neighbours are mutual.
    for c in range(nb.shape[0]):
        for f in range(nb.shape[1]):
            c2, f2 = ints(nb[c, f])
            if (c, f) in fl or (c, f) in fr: continue
            if c2 >= 0 and ints(nb[c2, f2]) != [c, f]: e['inner'] = False
    return dict(ev=[e])


def run(scn):
    if scn['kind'] != 'points':
        try: make(scn)
        except ValueError: return dict(ev=[]) # Sides without facets.
    return dict(points=run_points, epbc=run_epbc, mirror=run_mirror, dg=run_dg)[scn['kind']](scn)
