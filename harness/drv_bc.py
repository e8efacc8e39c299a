"""DOF numbering, essential and periodic conditions, initial conditions
(spec/EqMap.tla)."""
import numpy as nm
from sfepy.base.base import Struct
from sfepy.discrete import FieldVariable, Integral, Equation, Equations, Function, Functions
from sfepy.discrete.conditions import (Conditions, EssentialBC, PeriodicBC,
                                       InitialCondition)
from sfepy.discrete.fem import FEDomain, Field
from sfepy.terms import Term
import meshes

Q = 4 # Coordinates are multiples of 1 / Q.


class System(object):
    def __init__(self, c):
        self.domain = dom = FEDomain('d', meshes.make_mesh(c['mesh']))
        dom.create_region('Omega', 'all')
        for name, sel, kind in c['regions']:
            dom.create_region(name, sel, kind, allow_empty=True)
        self.fields = {}
        for f in c['fields']:
            self.fields[f['name']] = Field.from_args(
                f['name'], nm.float64, f['nc'], dom.regions[f['region']],
                approx_order=f['order'])


def values(val, ctx):
    """Value function: a + sum b_i x_i + g * component + h * step."""
    nc = ctx['nc']
    def fun(coors, step):
        out = nm.full((len(coors), nc), float(val['a']))
        for k in range(coors.shape[1]):
            out += val['b'][k] * coors[:, k:k+1]
        out += val['g'] * nm.arange(nc) + val['h'] * step
        return out
    return fun


def make_value(val, nc, funs, ic=False):
    k = val['k']
    if k == 'int': return int(val['v'][0])
    if k == 'float': return float(val['v'][0])
    if k == 'list': return [float(x) for x in val['v']]
    if k == 'array': return nm.array(val['v'], dtype=nm.float64)
    vf = values(val, dict(nc=nc))
    if ic:
        fun = Function('vf%d' % len(funs), lambda coors, ic=None: vf(coors, 0))
    elif k == 'flat': # One component, returned as 1D array.
        fun = Function('vf%d' % len(funs), lambda ts, coors, bc=None, problem=None:
                       vf(coors, ts.step)[:, 0])
    else:
        fun = Function('vf%d' % len(funs), lambda ts, coors, bc=None, problem=None:
                       vf(coors, ts.step))
    funs.append(fun)
    return fun.name if val['byname'] else fun


def ints(x):
    return [int(v) for v in nm.asarray(x).ravel()]


def toks(x):
    x = nm.asarray(x, dtype=nm.float64).ravel() * Q
    return [int(round(v)) if abs(v - round(v)) < 1e-6 else 10**8 for v in x]


def run(scn):
    c = scn['c']
    system = System(c)
    other = System(c) # Nodes of regions etc. are computed independently.
    dom = system.domain
    dim = c['mesh']['dim']
    vv, tests, terms = {}, {}, []
    field_of = {}
    for v in c['vars']:
        f = system.fields[v['field']]
        field_of[v['name']] = f
        vv[v['name']] = FieldVariable(v['name'], 'unknown', f, order=v['order'])
        tests[v['name']] = FieldVariable('t' + v['name'], 'test', f,
                                         primary_var_name=v['name'])
    integ = Integral('i', order=1)
    eqs = []
    for v in c['vars']:
        r = f.region
        f = field_of[v['name']]
        reg = dom.regions[v.get('treg') or f.region.name]
        t = Term.new('dw_dot(t%s, %s)' % (v['name'], v['name']), integ, reg,
                     **{v['name']: vv[v['name']], 't' + v['name']: tests[v['name']]})
        eqs.append(Equation('eq' + v['name'], t))
    eqs = Equations(eqs)
    vs = eqs.variables
    vs.init_state()
    funs = []
    nodes, coors = {}, {}
    for f in c['fields']:
        of = other.fields[f['name']]
        coors[f['name']] = [ints(nm.round(x * Q)) for x in of.get_coor()]
        nodes[f['name']] = {'none': []}
        for name, _, _ in c['regions'] + [['Omega', '', '']]:
            nodes[f['name']][name] = ints(nm.unique(of.get_dofs_in_region(
                other.domain.regions[name])))

    def matching(c, cond, fname):
        """Pairs of nodes matching except along the axis, as two index lists."""
        n1 = nodes[fname][cond['region']]
        n2 = nodes[fname][cond['region2']]
        def key(n):
            return tuple(x for k, x in enumerate(coors[fname][n]) if k != cond['axis'])
        where = {key(n): k for k, n in enumerate(n2)}
        i2 = [where[key(n)] for n in n1]
        i1 = list(range(len(n1)))
        # Any order of pairs is possible.
        perm = nm.random.RandomState(cond['perm']).permutation(len(i1))
        return [i1[k] for k in perm], [i2[k] for k in perm]

    nc_of = {v['name']: [f['nc'] for f in c['fields'] if f['name'] == v['field']][0]
             for v in c['vars']}
    nc_of = {k: 1 if n == 'scalar' else (dim if n == 'vector' else n) for k, n in nc_of.items()}
    ebcs, epbcs, ics, tfuns = [], [], [], []

    def times(cond):
        tt = cond['times']
        if tt == []: return None
        if isinstance(tt[0], list):
            return [(a / 10.0, b / 10.0) for a, b in tt]
        # A predicate: active in the given steps.
        fun = Function('tf%d' % len(tfuns), lambda ts, s=tuple(tt[1:]): ts.step in s)
        tfuns.append(fun)
        return fun.name if tt[0] == -1 else fun

    singles = []
    for cond in c['conds']:
        region = dom.regions[cond['region']]
        if cond['k'] in ('ebc', 'ic'):
            dofs = {}
            for name, val in cond['dofs']:
                vn, dd = name.split('.')
                nc = nc_of[vn]
                comps = (list(range(nc)) if dd == 'all' else
                         [int(x) for x in dd.strip('[]').split(',')])
                dofs[name] = make_value(val, len(comps), funs, cond['k'] == 'ic')
                singles.append(dict(k=cond['k'], v=vn, key=cond['krank'], comps=comps,
                                    region=cond['region'], val=val, times=cond['times']))
            if cond['k'] == 'ebc':
                ebcs.append(EssentialBC(cond['name'], region, dofs, key=cond['key'],
                                        times=times(cond)))
            else:
                ics.append(InitialCondition(cond['name'], region, dofs, key=cond['key']))
        else:
            dofs = {}
            for n1, n2 in cond['dofs']:
                dofs[n1] = n2
                vn = n1.split('.')[0]
                fname = [v['field'] for v in c['vars'] if v['name'] == vn][0]
                cc = [(list(range(nc_of[vn])) if x.endswith('.all') else
                       [int(y) for y in x.split('.')[1].strip('[]').split(',')])
                      for x in (n1, n2)]
                i1, i2 = matching(c, cond, fname)
                m1 = nodes[fname][cond['region']]
                m2 = nodes[fname][cond['region2']]
                singles.append(dict(k='epbc', v=vn, key=cond['krank'], comps=cc[0], comps2=cc[1],
                                    p=[[m1[a], m2[b]] for a, b in zip(i1, i2)],
                                    times=cond['times']))
            if cond['form'] == 0:
                match = nm.array([i1, i2])
            else:
                match = Function('mf%d' % len(funs), lambda a, b, o=(i1, i2): o)
                if cond['form'] == 2:
                    funs.append(match)
                    match = match.name
            epbcs.append(PeriodicBC(cond['name'], [region, dom.regions[cond['region2']]],
                                    dofs, match, key=cond['key'], times=times(cond)))
    functions = Functions(funs + tfuns)
    ev = []
    ebcs, epbcs = Conditions(ebcs), Conditions(epbcs)
    order = [v['name'] for v in sorted(c['vars'], key=lambda v: v['order'])]
    extra = {}
    for o in scn['ops']:
        e = dict(o)
        op = o['op']
        if op == 'map':
            ts = Struct(time=o['time'] / 10.0, step=o['step'], dt=1.0,
                        is_quasistatic=False, n_step=10, nt=0.0)
            kw = {}
            if o.get('chreg'):
                r = dom.regions['Sub']
                other_r = dom.regions[o['chreg']]
                r.entities = [None if x is None else x.copy() for x in other_r.entities]
                kw['regions_changed'] = 'Sub' if o['chform'] == 0 else ['Sub', 'Nope']
            changed = eqs.time_update(ts, ebcs=ebcs if len(ebcs) or o['empty'] else None,
                                      epbcs=epbcs if len(epbcs) else None,
                                      functions=functions, active_only=o['active_only'],
                                      verbose=False, **kw)
            e['changed'] = bool(changed)
            e['maps'] = {}
            for n in order:
                m = vv[n].eq_map
                R = m.get_operator()
                e['maps'][n] = dict(eq=ints(m.eq), ebc=ints(m.eq_ebc), val=toks(m.val_ebc),
                                    master=ints(m.master), slave=ints(m.slave),
                                    eqi=ints(m.eqi), n=int(m.n_eq), nad=int(vv[n].n_adof),
                                    R=sorted(map(list, zip(ints(R.row), ints(R.col)))),
                                    Rs=ints(R.shape),
                                    ones=bool((R.data == 1).all()))
            e['di'] = {n: [int(vs.di.indx[n].start), int(vs.di.indx[n].stop)] for n in order}
            e['adi'] = {n: [int(vs.adi.indx[n].start), int(vs.adi.indx[n].stop)] for n in order}
            e['names'] = list(vs.di.var_names)
            e['tot'] = [int(vs.di.n_dof_total), int(vs.adi.n_dof_total)]
            e['shape'] = ints(vs.get_matrix_shape())
            e['conns'] = {}
            for n in order:
                v = [x for x in c['vars'] if x['name'] == n][0]
                reg = v.get('treg') or field_of[n].region.name
                key = (n, reg, ('cell', dom.regions[reg].tdim), None)
                adc = vs.adof_conns[key]
                e['conns'][n] = [ints(x) for x in adc]
            e['cells'] = {}
            for n in order:
                v = [x for x in c['vars'] if x['name'] == n][0]
                of = other.fields[v['field']]
                cells = dom.regions[v.get('treg') or field_of[n].region.name].cells
                allc = of.region.cells
                e['cells'][n] = [ints(of.econn[list(allc).index(ic)]) for ic in cells]
        elif op == 'full':
            r = 1000.0 + nm.arange(vs.adi.n_dof_total)
            if o['form'] == 0:
                full = vs.make_full_vec(r)
            elif o['form'] == 1:
                full = vs.make_full_vec(r, force_value=7.0)
            elif o['form'] == 2:
                full = vs.make_full_vec(r, vec=nm.full(vs.di.n_dof_total, 5555.0))
            else:
                vs.set_state(r, reduced=True)
                full = vs().copy()
            e['full'] = toks(full)
            e['red'] = toks(vs.reduce_vec(full))
            if o['form'] == 3:
                e['red'] = toks(vs.get_state(reduced=True))
        elif op == 'follow':
            x = nm.array([1.0 + (k * k) % 97 for k in range(vs.di.n_dof_total)])
            e['x'] = toks(x)
            e['red'] = toks(vs.reduce_vec(x, follow_epbc=True))
        elif op == 'apply':
            x = 2000.0 + nm.arange(vs.di.n_dof_total)
            e['before'] = bool(vs.has_ebc(x))
            if o['form'] == 1:
                vs.apply_ebc(x, force_values=7.0)
                e['has'] = bool(vs.has_ebc(x, force_values=7.0))
            elif o['form'] == 2:
                force = {n: float(3 + k) for k, n in enumerate(order)}
                vs.apply_ebc(x, force_values=force)
                e['has'] = bool(vs.has_ebc(x, force_values=force))
            elif o['form'] == 3:
                vs.set_state(x, apply_ebc=True)
                x = vs().copy()
                e['has'] = bool(vs.has_ebc())
            else:
                vs.apply_ebc(x)
                e['has'] = bool(vs.has_ebc(x))
            e['x'] = toks(x)
            # Spoil one DOF.
            k = o['spoil'] % len(x)
            y = x.copy()
            y[k] += 1
            e['k'] = k
            e['spoiled'] = not bool(vs.has_ebc(y, force_values={1: 7.0}.get(
                o['form'], force if o['form'] == 2 else None)))
        elif op == 'ic':
            vs.setup_initial_conditions(Conditions(ics), functions)
            x = 3000.0 + nm.arange(vs.di.n_dof_total)
            if o['form'] == 0:
                vs.apply_ic(x)
            elif o['form'] == 1:
                x = vs().copy()
                vs.apply_ic()
                x = vs().copy()
            e['x'] = toks(x)
        ev.append(e)
    for z in singles:
        tt = z['times']
        z['tk'] = ('always' if tt == [] else 'i' if isinstance(tt[0], list) else 'p')
    return dict(c=dict(order=order, nc=nc_of,
                       field={v['name']: v['field'] for v in c['vars']}),
                singles=singles + [dict(k='none')], nodes=nodes, coors=coors,
                nn={f: len(coors[f]) for f in coors}, ev=ev)
