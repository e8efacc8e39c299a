"""Materials: update/get histories (spec/Mats.tla)."""
import numpy as nm
from sfepy.base.base import Struct
from sfepy.mesh.mesh_generators import gen_block_mesh
from sfepy.discrete import (FieldVariable, Integral, Equation, Equations, Material,
                            Function, Functions)
from sfepy.discrete.materials import Materials
from sfepy.discrete.fem import FEDomain, Field
from sfepy.solvers.ts import TimeStepper
from sfepy.terms import Term

REGIONS = [('Omega', 'all', 'cell'), ('L', 'vertices in (x < 2.1)', 'cell'),
           ('R', 'vertices in (x > 1.9)', 'cell'),
           ('M', 'vertices in ((x > 0.9) & (x < 3.1))', 'cell'),
           ('B', 'vertices in (y < 0.1)', 'facet'),
           ('C', 'vertices in ((x < 0.1) | (y < 0.1))', 'facet')]


def as_int(x):
    r = int(round(float(x)))
    return r if abs(x - r) < 1e-9 else 10**8


def pair(z):
    return [as_int(nm.real(z)), as_int(nm.imag(z))]


def run(scn):
    c = scn['c']
    mesh = gen_block_mesh([4, 2], [5, 3], [2, 1], verbose=False)
    domain = FEDomain('domain', mesh)
    for n, s, k in REGIONS:
        domain.create_region(n, s, k)
    problem = Struct(domain=domain)
    field = Field.from_args('f', nm.complex128, 1, domain.regions['Omega'], 1)
    u = FieldVariable('u', 'parameter', field, primary_var_name='(set-to-None)')
    u.set_data(nm.ones(field.n_nod, dtype=nm.complex128))

    calls, store = [], {}
    state = dict(eqs=None, fail=0)

    def key_of(term):
        return term.region.name + ':' + str(term.integral.order)

    def make_fun(imat, fn):
        style = c['style'][fn - 1]

        def fun(ts, coors, mode=None, equations=None, term=None, problem=None, **kwargs):
            cid = len(store) + 1
            rec = dict(id=cid, mat=imat, fn=fn, mode=mode, time=ts.step if ts is not None else -1,
                       extra=kwargs.get('ex', 0), key='', n=0,
                       ctx=equations is state['eqs'] and problem is state['problem'])
            calls.append(rec)
            store[cid] = None
            if mode == 'qp':
                rec.update(key=key_of(term), n=coors.shape[0])
            rec['ok'] = len(calls) != state['fail']
            if not rec['ok']: raise ArithmeticError('fault')
            if mode == 'qp':
                if style % 2:
                    out = nm.full((1, 1, 1), cid, dtype=float)
                else:
                    out = cid + coors[:, :1, None]
                store[cid] = out
                return {'val': out, 'two': nm.tile(2 * out, (1, 2, 1))}
            if style >= 2:
                return {'flag': cid}
        return Function('f%d' % fn, fun)

    mats = []
    for im, mc in enumerate(c['mats']):
        kind = {'td': 'time-dependent', 'st': 'stationary'}[mc['kind']]
        kw = dict(kind=kind)
        if mc['typ'] == 'fn':
            kw['function'] = make_fun(im, 1)
        elif mc['typ'] == 'const':
            v = complex(*mc['val']) if mc['val'][1] else mc['val'][0]
            kw['values'] = {'val': v, 'two': [[2 * v], [2 * v]], '.flag': 77}
            if mc['sconst']: kw['flags'] = {'special_constant': True}
        else:
            vals = [(r, complex(*v) if v[1] else v[0]) for r, v in mc['reg']]
            kw['values'] = {'val': dict(vals), 'two': {r: [[2 * v], [2 * v]] for r, v in vals}}
        if mc['conf']:
            cf = Struct(name='m%d' % im, **kw)
            if mc['typ'] == 'fn':
                cf.function = 'f1'
                mats.append(Material.from_conf(cf, {'f1': kw['function']}))
            else:
                mats.append(Material.from_conf(cf, Functions([])))
        else:
            if mc['typ'] != 'fn' and mc['kw'] and not mc['sconst']:
                vals = kw.pop('values')
                kw.update({k: v for k, v in vals.items() if k[0] != '.'},
                          values={k: v for k, v in vals.items() if k[0] == '.'})
            mats.append(Material('m%d' % im, **kw))
    materials = Materials(mats)

    def make_eqs(terms):
        eqs = []
        for k, (im, reg, order) in enumerate(terms):
            t = Term.new('ev_integrate(m%d.val, u)' % im, Integral('i', order),
                         domain.regions[reg], **{'m%d' % im: mats[im], 'u': u})
            t.setup()
            eqs.append(Equation('e%d' % k, t))
        return Equations(eqs)
    eqsets = [make_eqs(t) for t in c['eqs']]

    ts = TimeStepper(0.0, 100.0, n_step=101)
    ev = []
    for op in scn['ops']:
        k = op['op']
        e = dict(op)
        del calls[:]
        state['fail'] = op.get('fail', 0)
        try:
            if k == 'upd':
                state['eqs'] = eqsets[op['eqs'] - 1] if op['eqs'] else None
                state['problem'] = problem
                if op['m'] < 0:
                    materials.time_update(ts, state['eqs'], mode=op['mode'], problem=problem,
                                          verbose=False)
                else:
                    mats[op['m']].time_update(ts, state['eqs'], mode=op['mode'], problem=problem)
            elif k == 'tick':
                ts.set_step(ts.step + 1)
            elif k == 'reset':
                if op['m'] < 0: materials.reset()
                else: mats[op['m']].reset()
            elif k == 'setfn':
                mats[op['m']].set_function(make_fun(op['m'], op['fn']))
            elif k == 'user':
                datas = {}
                for key, i in zip(op['keys'], range(100)):
                    reg, order = key.split(':')
                    datas[(reg, int(order))] = {'val': nm.full((1, 1, 1, 1), op['id'] + i, dtype=float)}
                mats[op['m']].set_all_data(datas)
            elif k == 'extra':
                mats[op['m']].set_extra_args(**({'ex': op['x']} if op['x'] else {}))
            elif k == 'fextra':
                mats[op['m']].function.set_extra_args(ex=op['x'])
            elif k == 'get':
                mat = mats[op['m']]
                reg, order = op['key'].split(':')
                if op['name'] == 'const':
                    val = mat.get_constant_data('val')
                elif op['form']:
                    val = mat.get_data((reg, int(order)), {'x': op['name']}).x
                else:
                    val = mat.get_data((reg, int(order)), op['name'])
                e['got'] = []
                if op['name'] in ('flag', 'const'):
                    e['got'] = [pair(val)]
                elif val is None:
                    raise KeyError('no data')
                else:
                    # The first quadrature point of elements, constants: one item.
                    val = val if op['name'] == 'val' else val[..., 1:2, :] / 2
                    t = Term.new('ev_integrate(u)', Integral('i', int(order)),
                                 domain.regions[reg], u=u)
                    t.setup()
                    qps = t.get_physical_qps()
                    x = qps.values[:, 0].reshape(qps.shape[:2])
                    e['full'] = val.shape[0] == qps.shape[0]
                    e['spread'] = bool(nm.allclose(val[..., 0, 0] - val[:1, :1, 0, 0],
                                                   x - x[0, 0] if e['full'] else 0.0))
                    if e['full']:
                        e['x0'] = as_int(nm.mean(x[0] - x[0, 0]))
                    # Per element: value at qp 0, minus x there; center.
                    e['xc'] = [as_int(10 * nm.mean(r)) for r in x]
                    n = qps.shape[0] if e['full'] else 1
                    e['minus'] = [pair(val[j, 0, 0, 0] - x[j, 0]) for j in range(n)]
                    e['plain'] = [pair(val[j, 0, 0, 0]) for j in range(n)]
                    e['qpconst'] = bool((val == val[:, :1]).all())
            elif k == 'eval':
                t = next(iter(eqsets[op['eqs'] - 1]._objs if 0 else
                              [q for q in eqsets[op['eqs'] - 1]][op['term']].terms))
                e['value'] = pair(2 * t.evaluate(standalone=False))
            e['raised'] = ''
        except Exception as exc:
            e['raised'] = type(exc).__name__
        e['calls'] = [dict(r) for r in calls]
        e['time'] = int(ts.step)
        ev.append(e)
    return dict(c=c, ev=ev)
