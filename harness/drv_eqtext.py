"""Equation text and term arithmetic (spec/EqText.tla)."""
import numpy as nm
from sfepy.base.base import Struct
from sfepy.discrete import (FieldVariable, Integral, Integrals, Equation, Equations,
                            Material)
from sfepy.discrete.equations import parse_definition, get_expression_arg_names
from sfepy.discrete.materials import Materials
from sfepy.discrete.variables import Variables
from sfepy.discrete.fem import Mesh, FEDomain, Field
from sfepy.solvers.ts import TimeStepper
from sfepy.terms import Term
from sfepy.terms.terms import Terms

REGIONS = [('Omega', 'all', 'cell'), ('Y_1', 'vertices in (x < 4.1)', 'cell'),
           ('i', 'vertices in (x > 3.9)', 'cell'), ('a', 'all', 'cell'),
           ('Bottom', 'vertices in (y < 0.1)', 'facet'),
           ('i1', 'vertices in (y > 3.9)', 'facet')]
INTEGRALS = dict(i=2, i1=1, i2b=3, ix=4)


def text(terms, sep):
    """Terms -> text; sep: iterator of separators."""
    out = []
    side = 'l'
    for t in terms:
        if t['side'] == 'r' and side == 'l':
            out.append('=' + next(sep))
            side = 'r'
        if t['pre']:
            for tok in t['pre']:
                out.append(tok['s'] + next(sep))
            out.append('*' + next(sep))
        elif t['sign']:
            out.append(t['sign'] + next(sep))
        args = []
        for a in t['args']:
            if a['k'] == 'mat':
                s = a['n'] + '.' + a['par']
            else:
                s = a['n'] + ('[%d]' % a['step'] if a['showstep'] else '')
                if a['der']: s = 'd' + s + '/dt'
                if a['tr']:
                    s = ('tr(' + next(sep) + (a['treg'] + next(sep) + ',' + next(sep)
                                              if a['treg'] else '') + s + next(sep) + ')')
            args.append(s + next(sep))
        out.append(t['name'] + ('.' + t['integral'] if t['integral'] else '') + '.' + t['region']
                   + t['flag'] + next(sep) + '(' + next(sep) + (',' + next(sep)).join(args)
                   + ')' + next(sep))
    return ''.join(out)


def mult(x):
    x = complex(x) * 20
    r = [int(round(x.real)), int(round(x.imag))]
    return r if abs(complex(*r) - x) < 1e-6 else [10**8, 10**8]


def intval(x):
    x = complex(nm.asarray(x).ravel()[0]) * 20
    r = [int(round(x.real)), int(round(x.imag))]
    return r if abs(complex(*r) - x) < 1e-5 * max(abs(x), 1) else [10**9, 10**9]


class System(object):
    def __init__(self, c):
        coors = nm.array([[0, 0], [4, 0], [8, 0], [0, 4], [4, 4], [8, 4]], dtype=nm.float64)
        conn = nm.array([[0, 1, 4, 3], [1, 2, 5, 4]], dtype=nm.int32)
        mesh = Mesh.from_data('m', coors, None, [conn], [nm.zeros(2, nm.int32)], ['2_4'])
        self.domain = FEDomain('d', mesh)
        for name, sel, kind in REGIONS:
            self.domain.create_region(name, sel, kind)
        self.omega = self.domain.regions['Omega']
        self.field = Field.from_args('f', nm.float64, 'scalar', self.omega, approx_order=1)
        self.integrals = Integrals([Integral(k, order=v) for k, v in INTEGRALS.items()])
        self.vars = {}
        for k, name in enumerate(c['vars']):
            if c['unknown'][k]:
                v = FieldVariable(name, 'unknown', self.field, history=2)
            else:
                v = FieldVariable(name, 'parameter', self.field,
                                  primary_var_name='(set-to-None)', history=2)
            self.vars[name] = v
            if c['unknown'][k]:
                self.vars['v' + name] = FieldVariable('v' + name, 'test', self.field,
                                                      primary_var_name=name)
        self.mats = {k: Material(k, values=dict(v)) for k, v in c['mats'].items()}
        self.variables = Variables(list(self.vars.values()))
        ts = TimeStepper(0.0, 5.0, dt=0.5)
        ts.set_step(2)
        self.ts = ts
        n = self.field.n_nod
        if any(c['unknown']):
            self.variables.setup_dof_info()
        for name in c['vars']:
            self.vars[name].init_history()
        vals = c['values']
        for lag in (2, 1, 0):
            for name in c['vars']:
                v = self.vars[name]
                v.set_data(nm.full(n, float(vals[name][lag])))
                if lag: v.advance(ts)
        self.variables.time_update(ts, functions=None, verbose=False)

    def eval(self, eqs):
        eqs.time_update_materials(self.ts, mode='force', verbose=False)
        for eq in eqs:
            for term in eq.terms:
                term.time_update(self.ts)
        return eqs.evaluate(mode='eval')


def describe(term):
    args = []
    for n in term.arg_names:
        if n == (None, None): continue
        if isinstance(n, tuple):
            a = dict(k='mat', n=n[0], par=n[1])
        else:
            a = dict(k='var', n=n)
        a.update(step=int(term.arg_steps[n]), der=term.arg_derivatives[n] == 'dt',
                 tr=bool(term.arg_traces[n]), treg=term.arg_trace_regions[n] or '')
        args.append(a)
    return dict(name=term.name, mult=mult(term.sign), integral=term.integral.name,
                order=int(term.integral.order), region=term.region.name, args=args)


def brief(terms):
    terms = [terms] if isinstance(terms, Term) else list(terms)
    return [dict(id=t.tid, mult=mult(t.sign)) for t in terms]


def run(scn):
    c = scn['c']
    system = System(c)
    rnd = nm.random.RandomState(c['seed'])
    def seps():
        while True:
            yield ['', ' ', '  ', '\n', '\n   '][rnd.choice(5, p=[.4, .3, .1, .1, .1])]
    sep = seps()
    ev = []
    pool = []
    for o in scn['ops']:
        e = dict(o)
        if o['op'] == 'text':
            s = text(o['terms'], sep)
            if o['zero']: s += '=' + next(sep) + '0' + next(sep)
            e['text'] = s
            try:
                descs = parse_definition(s)
                terms = Terms.from_desc(descs, system.domain.regions, system.integrals)
                terms.setup()
                e['got'] = [describe(t) for t in terms]
                e['argn'] = sorted(get_expression_arg_names(s))
                e['raised'] = ''
            except Exception as exc:
                e['raised'] = type(exc).__name__ + ': ' + str(exc)[:80]
            e['value'], e['reject'] = [], ''
            if o['evaluate'] and not e['raised']:
                try:
                    eq = Equation.from_desc('eq', s, system.variables, system.domain.regions,
                                            Materials(list(system.mats.values())), system.integrals)
                    e['got2'] = [describe(t) for t in eq.terms]
                    if o['evaluate'] == 2:
                        e['value'] = intval(system.eval(Equations([eq])))
                except Exception as exc:
                    if not isinstance(exc, ValueError): raise
                    e['reject'] = type(exc).__name__ + ': ' + str(exc)[:80]
        elif o['op'] == 'bad':
            s = text(o['terms'], sep)
            how, k = o['how'], o['k']
            if how == 'noclose': s = s.rstrip()[:-1]
            elif how == 'open': s = '(' + s
            elif how == 'opennum': s = '(2 * ' + s
            elif how == 'closenum': s = '2) * ' + s
            elif how == 'twoeq': s = s + ' = 0 = 0'
            elif how == 'trail': s = s + ' +'
            elif how == 'trailminus': s = s + ' = -'
            elif how == 'eq': s = s + ' = '
            elif how == 'lead': s = '* ' + s
            elif how == 'nonum': s = '- * ' + s
            elif how == 'number': s = s + ' + 5'
            elif how == 'twodots': s = s.replace('.', '..', 1)
            elif how == 'empty': s = ''
            elif how == 'junk': s = s + ' ;'
            elif how == 'mul': s = s + ' * 2'
            elif how == 'nocomma': s = s.replace('(', '(u u ', 1) if '(' in s else ''
            elif how == 'history': s = s + ' + ev_integrate.i.Omega(u[1.5])'
            elif how == 'unkterm': s = s + ' + ev_no_such_term.i.Omega(u)'
            elif how == 'unkreg': s = s + ' + ev_integrate.i.Nowhere(u)'
            elif how == 'unkvar': s = s + ' + ev_integrate.i.Omega(nobody)'
            elif how == 'unkmat': s = s + ' + ev_integrate.i.Omega(nobody.c, u)'
            elif how == 'unkint': s = s + ' + ev_integrate.inone.Omega(u)'
            elif how == 'nomat': s = s + ' + ev_integrate_mat.i.Omega(m, u)'
            elif how == 'fewargs': s = s + ' + dw_dot.i.Omega(u)'
            elif how == 'manyargs': s = s + ' + dw_dot.i.Omega(m.c, u, u, u)'
            e['text'] = s
            try:
                Equation.from_desc('eq', s, system.variables, system.domain.regions,
                                   Materials(list(system.mats.values())), system.integrals)
                e['raised'] = ''
            except Exception as exc:
                e['raised'] = type(exc).__name__
        elif o['op'] == 'new':
            t = o['term']
            kw = {}
            ts = []
            for a in t['args']:
                if a['k'] == 'mat':
                    kw[a['n']] = system.mats[a['n']]
                else:
                    kw[a['n']] = system.vars[a['n']]
            s = text([dict(t, pre=[], sign='', side='l')], iter(str, None))
            s = s[:s.index('.')] + s[s.index('('):s.rindex(')') + 1]
            term = Term.new(s, system.integrals.get(t['integral']), system.domain.regions[t['region']], **kw)
            term.tid = o['id']
            pool.append(term)
        else:
            a = pool[o['a']]
            if o['op'] in ('add', 'sub', 'iadd', 'isub'):
                b = pool[o['b']]
                if o['op'] == 'add': r = a + b
                elif o['op'] == 'sub': r = a - b
                elif o['op'] == 'iadd':
                    r = a
                    r += b
                else:
                    r = a
                    r -= b
            elif o['op'] == 'neg': r = -a
            elif o['op'] == 'pos': r = +a
            elif o['op'] in ('mul', 'rmul'):
                x = o['x'][0] / 20.0 + (1j * o['x'][1] / 20.0 if o['x'][1] else 0)
                if o['x'][1] == 0 and o['x'][0] % 20 == 0 and o['form']: x = int(x.real)
                elif o['form'] and o['op'] == 'mul': x = nm.array(x)[()]
                r = a * x if o['op'] == 'mul' else x * a
            elif o['op'] == 'append':
                r = a + pool[o['b']]
            elif o['op'] == 'eqn':
                eq = Equation('e', a)
                e['got'] = brief(eq.terms)
                e['value'] = intval(system.eval(Equations([eq])))
                r = None
            if r is not None: pool.append(r)
        if o['op'] not in ('text', 'bad'):
            e['pool'] = [brief(x) for x in pool]
        ev.append(e)
    return dict(c=c, ev=ev)
