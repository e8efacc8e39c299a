"""DOF history and evaluation of variables (spec/VarHist.tla)."""
import numpy as nm
from sfepy.base.base import Struct
from sfepy.discrete import FieldVariable, Integral
from sfepy.discrete.fem import Mesh, FEDomain, Field
from sfepy.discrete.variables import Variables
from sfepy.terms import Term

SC = 100  # Scale of rounded values.


def mesh(c):
    if c['mesh'] == 'tri1':
        coors, conn, d = [[0, 0], [4, 0], [0, 4]], [[0, 1, 2]], '2_3'
    elif c['mesh'] == 'tri2':
        coors, conn, d = [[0, 0], [4, 0], [4, 4], [0, 4], [8, 2]], [[0, 1, 2], [0, 2, 3], [1, 4, 2]], '2_3'
    else:
        coors, conn, d = ([[0, 0], [4, 0], [8, 0], [0, 4], [4, 4], [8, 4]],
                          [[0, 1, 4, 3], [1, 2, 5, 4]], '2_4')
    coors = nm.array(coors, dtype=nm.float64)
    conn = nm.array(conn, dtype=nm.int32)
    return Mesh.from_data('m', coors, None, [conn],
                          [nm.zeros(len(conn), nm.int32)], [d])


INTEGRALS = {
    'i1': lambda: Integral('i1', order=1),
    'i2': lambda: Integral('i2', order=2),
    'i2x': lambda: Integral('i2x', order=2), # The same quadrature, other name.
    'i2f': lambda: Integral('i2f', order=2, full_order=True),
    'i3': lambda: Integral('i3', order=3),
    # Custom points, the same order and the same number of points.
    'ca': lambda: Integral('ca', coors=nm.array([[0.2, 0.3], [0.5, 0.25]]),
                           weights=nm.array([0.25, 0.25]), order=2),
    'cb': lambda: Integral('cb', coors=nm.array([[0.1, 0.1], [0.25, 0.6]]),
                           weights=nm.array([0.25, 0.25]), order=2),
}


class System(object):
    def __init__(self, c):
        self.c = c
        self.domain = FEDomain('d', mesh(c))
        dd = self.domain
        dd.create_region('Omega', 'all')
        dd.create_region('Left', 'vertices in (x < 4.1)', 'cell')
        dd.create_region('Gamma', 'vertices of surface', 'facet')
        dd.create_region('Bottom', 'vertices in (y < 0.1)', 'facet')
        dd.create_region('Vl', 'vertices in (x < 0.1)', 'vertex', allow_empty=True)
        self.integrals = {k: f() for k, f in INTEGRALS.items()}


def poly(system, cv):
    """The function of the affine coefficients."""
    def fun(coors):
        coors = coors.reshape((-1, 2))
        return nm.stack([cv[3*k] + cv[3*k+1] * coors[:, 0]
                         + cv[3*k+2] * coors[:, 1]
                         for k in range(len(cv) // 3)], axis=-1)
    return fun


def prepare(system, f):
    for name in ('Gamma', 'Bottom'):
        r = system.domain.regions[name]
        system.domain.create_surface_group(r)
        f.setup_surface_data(r)


def geometry(c, pairs):
    """Quadrature points, found on an independent copy of the domain."""
    out = {}
    for reg, integ in sorted(pairs):
        system = System(c)
        f = Field.from_args('g', nm.float64, 'scalar',
                            system.domain.regions['Omega'], approx_order=1)
        prepare(system, f)
        v = FieldVariable('g', 'parameter', f, primary_var_name='(set-to-None)')
        r = system.domain.regions[reg]
        xy = []
        for k in range(2):
            v.set_from_mesh_vertices(system.domain.mesh.coors[:, k])
            xy.append(v.evaluate('val', region=r,
                                 integral=system.integrals[integ],
                                 integration=r.kind).ravel())
            v.clear_evaluate_cache()
        out['%s_%s' % (reg, integ)] = [[int(round(x * SC)) for x in p]
                                       for p in zip(*xy)]
    return out


def run(scn):
    c = scn['c']
    system = System(c)
    dom = system.domain
    omega = dom.regions['Omega']
    fields = {}
    vv = {}
    for name in sorted(c['vars']):
        d = c['vars'][name]
        fk = (d['nc'], d['order'])
        if fk not in fields:
            fields[fk] = Field.from_args('f%d%d' % fk, nm.float64, d['nc'], omega,
                                         approx_order=d['order'])
            prepare(system, fields[fk])
        kw = {} if d['h'] < 0 else dict(history=d['h'])
        if d['state']:
            vv[name] = FieldVariable(name, 'unknown', fields[fk], **kw)
        else:
            vv[name] = FieldVariable(name, 'parameter', fields[fk],
                                     primary_var_name='(set-to-None)', **kw)
    tests = {}
    for name, v in list(vv.items()):
        if v.is_state():
            tests[name] = FieldVariable('t' + name, 'test', v.field,
                                        primary_var_name=name)
    vs = Variables(list(vv.values()) + list(tests.values()))
    vs.setup_dof_info()
    vs.equation_mapping(None, None, None, None)
    users = []   # Arrays of the user.
    terms = {}
    ev = []
    aff = c['aff']
    reads = [n for n in sorted(vv)]

    def dofs(name, val):
        v = vv[name]
        if not aff: return nm.array(val, dtype=nm.float64)
        return nm.array(v.field.set_dofs(poly(system, val), omega,
                                         v.n_components)[1],
                        dtype=nm.float64).ravel()

    def token(name, x):
        """Affine coefficients from DOFs (or the DOFs themselves)."""
        return [int(z) if z == int(z) else 10**6 + int(z) for z in x]

    def attempt(fun):
        try:
            return True, fun()
        except (ValueError, IndexError, KeyError):
            return False, None

    def form(x, kind):
        if kind == '2d': return x.reshape((-1, 1)).copy()
        if kind == 'strided':
            y = nm.empty(2 * len(x)); y[::2] = x
            return y[::2]
        if kind == 'int': return x.astype(nm.int64) if not aff else x.copy()
        return x.copy()

    for o in scn['ops']:
        e = dict(o, ok=True)
        op = o['op']
        v = vv.get(o.get('v'))
        if e.get('val') == {}: e['val'] = {'none': []}
        if op == 'init_state':
            if o['val']:
                vec = vs.create_vec()
                for n in o['val']:
                    vec[vs.di.indx[n]] = dofs(n, o['val'][n])
                users.append((None, vec))
                vs.init_state(vec)
            else:
                vs.init_state()
        elif op in ('set_state', 'rset'):
            vec = vs.create_vec()
            for n in o['val']:
                vec[vs.di.indx[n]] = dofs(n, o['val'][n])
            if op == 'rset':
                vs.set_state(vs.reduce_vec(vec), reduced=True, apply_ebc=o['form'])
            else:
                vs.set_state(vec, apply_ebc=o['form'])
            vec[:] = -77  # It must have been copied.
        elif op == 'fill':
            vs.fill_state(o['x'])
        elif op == 'part':
            vs.set_state_parts({n: dofs(n, x) for n, x in o['val'].items()})
        elif op == 'pokevec':
            vs.vec[vs.di.indx[o['v']]][o['j']] = o['x']
        elif op == 'data':
            x = form(dofs(o['v'], o['x']), o['form'])
            if o['short']: x = x[:-1]
            e['ok'], _ = attempt(lambda: v.set_data(x, step=o['s']))
            if e['ok'] and o['s'] < 0:
                x[...] = -77 # It must have been copied.
            elif e['ok'] and not aff:
                users.append((o['v'], x))
        elif op == 'dict':
            x = {o['v']: dofs(o['v'], o['x'])}
            e['ok'], _ = attempt(lambda: vs.set_data(
                x, step=o['s'], ignore_unknown=o['form']))
        elif op == 'fun':
            e['ok'], _ = attempt(lambda: v.set_from_function(
                poly(system, o['x']), step=o['s']))
        elif op == 'verts':
            e['ok'], _ = attempt(lambda: v.set_from_mesh_vertices(
                poly(system, o['x'])(dom.mesh.coors)))
        elif op == 'qp':
            n_qp = len(system.integrals['i2'].get_qp(dom.mesh.descs[0])[0])
            x = nm.zeros((dom.mesh.n_el, n_qp, v.n_components, 1))
            x[:] = nm.array(o['x'][::3]).reshape((-1, 1))
            e['ok'], _ = attempt(lambda: v.set_from_qp(
                x, system.integrals['i2'], step=o['s']))
        elif op == 'const':
            e['ok'], _ = attempt(lambda: v.set_constant(o['y'], step=o['s']))
        elif op == 'initdata':
            e['ok'], _ = attempt(lambda: v.init_data(step=o['s']))
        elif op == 'poke':
            v()[o['j']] = o['x']
        elif op == 'pokeuser':
            # User arrays that are not the current data of any variable.
            for n, x in users:
                if n is None:
                    if x is not vs.vec: x[...] = -99
                elif vv[n].data[0] is None or not nm.shares_memory(vv[n].data[0], x):
                    x[...] = -99
        elif op == 'init_history':
            v.init_history()
        elif op == 'advance':
            ts = Struct(step=o['ts'])
            if v is None: vs.advance(ts)
            else: v.advance(ts)
        elif op == 'dt':
            ts = Struct(dt=o['dn'] / o['dd'], step=0)
            if v is None: vs.time_update(ts, None, verbose=False)
            else: v.time_update(ts, None)
        elif op == 'clear':
            if o['form'] == 0: v.clear_evaluate_cache()
            elif o['form'] == 1: v.invalidate_evaluate_cache(step=o['s'])
            else: vs.invalidate_evaluate_caches(step=0)
        elif op == 'eval':
            r = dom.regions[o['reg']]
            integ = system.integrals[o['integ']]
            kw = {} if not o['der'] else dict(time_derivative='dt')
            if o['der'] and o['dd'] > 0: kw['dt'] = o['dn'] / o['dd']
            if o['how'] == 'direct':
                reg = None if (o['reg'] == 'Omega' and o['form']) else r
                val = v.evaluate(o['mode'], region=reg, integral=integ,
                                 integration=o['integration'] or None,
                                 step=o['s'], **kw)
                # The result is owned by the caller only as a view: copy.
                val = val.copy()
            else:
                arg = o['v']
                if o['der']: arg = 'd%s/dt' % arg
                elif o['s']: arg = '%s[%d]' % (arg, o['s'])
                if o['how'] == 'term':
                    tname = {'val': 'ev_integrate', 'grad': 'ev_grad',
                             'div': 'ev_div', 'cauchy_strain': 'ev_cauchy_strain'}[o['mode']]
                    key = (tname, arg, o['reg'], o['integ'])
                    if key not in terms:
                        t = Term.new('%s(%s)' % (tname, arg), integ, r, **{o['v']: v})
                        t.setup()
                        terms[key] = t
                    val = terms[key].evaluate(mode='qp')
                else: # The multi-linear terms: the sum of the weak form vector.
                    key = ('de_dot', arg, o['reg'], o['integ'], o['layout'])
                    if key not in terms:
                        tv = tests[o['v']]
                        t = Term.new('de_dot(t%s, %s)' % (o['v'], arg), integ, r,
                                     **{o['v']: v, 't' + o['v']: tv})
                        t.setup()
                        t.set_backend(backend='numpy', optimize=True,
                                      layout=o['layout'] or None)
                        terms[key] = t
                    val = terms[key].evaluate(mode='weak', dw_mode='vector')[0]
                    nc = v.n_components
                    val = val.reshape((val.shape[0], nc, -1)).sum(axis=2)
            e['val'] = [int(round(x * SC)) for x in val.ravel()]
        else:
            raise ValueError(op)
        if c['reads']:
            rd, dr, gs = {}, {}, {}
            for n in reads:
                w = vv[n]
                rd[n], dr[n], gs[n] = [], [], []
                for k in range(len(w.data) + 1):
                    ok, x = attempt(lambda: w(step=-k))
                    rd[n].append(dict(ok=ok, x=token(n, x) if ok else []))
                    ok, x = attempt(lambda: w.get_state_in_region(
                        dom.regions['Vl'], step=-k))
                    gs[n].append(dict(ok=ok, x=token(n, x.ravel()) if ok else []))
                    try:
                        ok, x = attempt(lambda: w(step=-k, derivative='dt'))
                    except TypeError:
                        ok = False
                    dr[n].append(dict(ok=ok, x=token(n, 2 * x) if ok else []))
            e.update(rd=rd, dr=dr, gs=gs,
                     vec=token(None, vs.vec) if vs.vec is not None else [])
        ev.append(e)
    out = dict(c=dict(c), ev=ev)
    out['nod'] = [int(x) for x in dom.regions['Vl'].vertices]
    if c['aff']:
        out['geo'] = geometry(c, {(o['reg'], o['integ']) for o in scn['ops']
                                  if o['op'] == 'eval'} | {('Omega', 'i1')})
        mm = mesh(c)
        conn = mm.get_conn(mm.descs[0])
        cells = mm.coors[conn]
        left = set(int(x) for x in dom.regions['Left'].cells)
        # (area, centroid) of cells: all of them have parallel sides.
        out['cells'] = []
        for k, q in enumerate(cells):
            a = q[1] - q[0]
            b = q[-1] - q[0]
            area = abs(a[0] * b[1] - a[1] * b[0]) * (0.5 if len(q) == 3 else 1)
            out['cells'].append(dict(a=int(round(area)), x=int(round(q[:, 0].mean() * SC)),
                                     y=int(round(q[:, 1].mean() * SC))))
        out['reg'] = dict(Omega=list(range(1, len(cells) + 1)),
                          Left=[k + 1 for k in sorted(left)])
    return out
