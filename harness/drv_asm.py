"""Assembling of known element contributions (spec/Assembly.tla)."""
import warnings
import numpy as nm
from sfepy.base.base import output, Struct
from sfepy.discrete import FieldVariable, Integral, Equation, Equations
from sfepy.discrete.conditions import Conditions, EssentialBC, PeriodicBC
from sfepy.discrete.fem import FEDomain, Field
from sfepy.terms import Term, Terms
from sfepy.terms.terms import terms as _terms  # noqa: F401
import sfepy.terms as T
import meshes

warnings.simplefilter('ignore')
output.set_output(quiet=True)


def ints(x): return [int(v) for v in nm.clip(nm.rint(nm.asarray(x, dtype=float)), -2e9, 2e9).ravel()]


# The contributions, see Assembly.tla.
def F(tm, c, r): return (7 * tm + 5 * c + 3 * r + c * r) % 11 - 5
def FI(tm, c, r): return (tm + 2 * c + 5 * r) % 7 - 3
def K(tm, s, c, r, k): return (3 * tm + 2 * s + 5 * c + 7 * r + 11 * k + r * k + c * k) % 13 - 6
def KI(tm, s, c, r, k): return (tm + s + 3 * c + r + 4 * k + c * r) % 5 - 2


class AsmBase(Term):
    arg_shapes = {}
    integration = ('cell', 'facet')
    order = {} # Numbers of variables.

    @staticmethod
    def function(out, arr):
        assert out.shape == arr.shape, (out.shape, arr.shape)
        out[...] = arr
        return 0

    def check_shapes(self, *args, **kwargs): pass

    def get_fargs(self, *args, **kwargs):
        diff_var = args[-1]
        v = self.get_virtual_variable()
        tm = int(self.name[6:].split('_')[0])
        n, _, _, ne, nc = self.get_data_shape(v)
        c, r = nm.arange(n)[:, None, None, None], nm.arange(ne * nc)[None, None, :, None]
        cplx = v.dtype == nm.complex128
        if diff_var is None:
            arr = F(tm, c, r) + (1j * FI(tm, c, r) if cplx else 0.0)
        else:
            var = [x for x in self.get_state_variables() if x.name == diff_var][0]
            _, _, _, me, mc = self.get_data_shape(var)
            k = nm.arange(me * mc)[None, None, None, :]
            s = self.order[diff_var]
            arr = K(tm, s, c, r, k) + (1j * KI(tm, s, c, r, k) if cplx else 0.0)
        arr = nm.ascontiguousarray(arr)
        if not self.name.endswith('d'): return (arr,)
        # Dynamic connectivity: global DOFs with values.
        dofs = self.dofs(v)
        if diff_var is None: # Each DOF once.
            rows, inv = nm.unique(dofs, return_inverse=True)
            vals = nm.zeros(len(rows), dtype=arr.dtype)
            nm.add.at(vals, inv.ravel(), arr.ravel())
            return ((vals, rows.astype(nm.int32), v.get_primary()),)
        cols = self.dofs(var)
        sh = arr[:, 0].shape
        rows, cols = nm.broadcast_to(dofs[:, :, None], sh), nm.broadcast_to(cols[:, None, :], sh)
        return ((arr.ravel(), rows.ravel().astype(nm.int32), cols.ravel().astype(nm.int32), v.get_primary(), var),)

    def dofs(self, v):
        conn = v.field.get_econn((self.region.kind, self.region.tdim), self.region)
        return nm.concatenate([conn * v.n_components + k for k in range(v.n_components)], axis=1)

    def eval_real(self, shape, fargs, *args, **kwargs):
        if isinstance(fargs[0], tuple): return fargs[0], 0
        return Term.eval_real(self, shape, fargs, *args, **kwargs)

    def eval_complex(self, shape, fargs, *args, **kwargs):
        if isinstance(fargs[0], tuple): return fargs[0], 0
        return Term.eval_complex(self, shape, fargs, *args, **kwargs)


from sfepy.terms.terms import Term as _T
table = T.term_table
for _k in range(4):
    for _n, _args in enumerate([('virtual',), ('virtual', 'state'), ('virtual', 'state_1', 'state_2')]):
        for _d in ('', 'd'):
            _name = 'dw_asm%d_%d%s' % (_k, _n, _d)
            table[_name] = type('Asm%d%d%s' % (_k, _n, _d), (AsmBase,), dict(name=_name, arg_types=_args))


class Fields(object):
    def __init__(self, c):
        self.dom = dom = FEDomain('d', meshes.make_mesh(c['mesh']))
        dom.create_region('Omega', 'all')
        for name, sel, kind in c['regions']: dom.create_region(name, sel, kind, allow_empty=True)
        dt = nm.complex128 if c['cplx'] else nm.float64
        self.fields = [Field.from_args('f%d' % k, dt, (f['nc'],), dom.regions['Omega'], approx_order=f['order']) for k, f in enumerate(c['fields'])]


def run(scn):
    c = scn['c']
    sys_, other = Fields(c), Fields(c)
    dom = sys_.dom
    names = [v['name'] for v in c['vars']]
    uv = {v['name']: FieldVariable(v['name'], 'unknown', sys_.fields[v['field']], order=v['order']) for v in c['vars']}
    tv = {n: FieldVariable('t' + n, 'test', sys_.fields[v['field']], primary_var_name=n) for n, v in zip(names, c['vars'])}
    AsmBase.order = {n: k + 1 for k, n in enumerate(names)}
    integ = Integral('i', order=1)
    eqs, tlist, conns = [], [], []
    dead = [] # Terms on empty regions.
    for ne, e in enumerate(c['eqs']):
        ts = []
        for t in e['terms']:
            v, ss = names[t['v']], [names[s] for s in t['ss']]
            reg = dom.regions[t['region']]
            args = {'t' + v: tv[v]}
            args.update({s: uv[s] for s in ss})
            term = Term.new('dw_asm%d_%d%s(%s)' % (t['tm'], len(ss), 'd' * t['dyn'], ', '.join(['t' + v] + ss)), integ, reg, **args)
            ts.append(term if t['coef'] == 1 else t['coef'] * term)
            oreg = other.dom.regions[t['region']]
            kind = reg.kind
            td = dict(tm=t['tm'], v=t['v'] + 1, ss=[s + 1 for s in dict.fromkeys(t['ss'])], coef=t['coef'], eq=ne + 1, conn=[])
            for kv, vv in enumerate(c['vars']):
                if kv not in [t['v']] + t['ss']:
                    td['conn'].append([])
                    continue
                td['conn'].append([ints(r) for r in other.fields[vv['field']].get_econn((kind, oreg.tdim), oreg)])
            tlist.append(td)
        rn = e['terms'][0]
        eqs.append(Equation('b%d, t%s, %s' % (ne, names[rn['v']], names[(rn['ss'] or [rn['v']])[0]]), Terms(ts)))
    eqs = Equations(eqs)
    vs = eqs.variables
    vs.init_state()
    ev, st = [], dict(mtx=None)
    first = {}
    for k, t in enumerate(tlist): first.setdefault(t['eq'], k + 1)

    def full(m): # The rows of DOFs.
        if c['active']: return ints(m.eq)
        return [int(m.eqi[e]) if e >= 0 else -1 for e in m.eq]

    def system():
        out = []
        for n, v in zip(names, c['vars']):
            if n not in vs.adi.indx:
                out.append(dict(nc=c['fields'][v['field']]['nc'], off=0, n=0, eq=[-1]))
                continue
            out.append(dict(nc=c['fields'][v['field']]['nc'], off=int(vs.adi.indx[n].start), n=int(vs.adi.indx[n].stop - vs.adi.indx[n].start), eq=full(uv[n].eq_map)))
        return out

    def vec(x, sel, rv): # rv: the variable of the rows, 0 for all.
        x = nm.asarray(x)
        ev.append(dict(op='res', sys=st['sys'], sel=sel, rv=rv, n=len(x), re=ints(x.real), im=ints(x.imag), noise=noise(x)))

    def noise(x): return int(min(nm.abs(x.real - nm.rint(x.real)).max(initial=0) * 1e6 + nm.abs(x.imag - nm.rint(x.imag)).max(initial=0) * 1e6, 1e9))

    def mat(A, sel, rv, cv):
        A = A.tocsr()
        n, m = A.shape
        k = nm.arange(m)
        w = [(k * k * 7 + 3 * k + 1) % 101, (k * 5 + 2) % 17]
        B = A.copy()
        B.data = nm.abs(B.data)
        ev.append(dict(op='mtx', sys=st['sys'], sel=sel, rv=rv, cv=cv, n=n, m=m, re=[ints((A @ x).real) for x in w], im=[ints((A @ x).imag) for x in w], noise=noise(A.data),
                       nz=[int((nm.abs(A[[r], :].toarray()) > 1e-9).sum()) for r in range(n)] if m < 60 else []))

    def bcs(w):
        eb, pb = [], []
        for k, b in enumerate(c['bcs']):
            if not (w >> k) & 1: continue
            n = names[b['v']]
            if b['k'] == 'ebc': eb.append(EssentialBC('e%d' % k, dom.regions[b['region']], {n + '.' + b['comp']: 0.0}))
            else:
                idx = nm.arange(b['n'])
                pb.append(PeriodicBC('p%d' % k, [dom.regions['L'], dom.regions['R']], {n + '.' + b['comp']: n + '.' + b['comp']}, nm.array([idx, idx])))
        ts = Struct(time=0.0, step=len(ev), dt=1.0, is_quasistatic=False, n_step=10, nt=0.0)
        eqs.time_update(ts, ebcs=Conditions(eb), epbcs=Conditions(pb), active_only=c['active'], verbose=False)
        st['sys'] = system()
        graph(w)

    def graph(w):
        st['mtx'] = eqs.create_matrix_graph(chunk_size=[200000, 1, 2, 3][w % 4], active_only=c['active'], verbose=False)
        if st['mtx'] is None: return
        A = st['mtx']
        ev.append(dict(op='graph', n=int(A.shape[0]), m=int(A.shape[1]), dup=not bool(A.has_canonical_format), zero=bool((A.data == 0).all()), tot=sum(v['n'] for v in st['sys'])))

    seen = []

    def asm(eq, it, term, *args, **kwargs):
        seen.append(0 <= it < len(eq.terms) and eq.terms[it] is term)
        return term.assemble_to(*args, **kwargs)

    def state(w):
        return nm.random.RandomState(w).randint(-5, 6, vs.di.n_dof_total).astype(vs.dtype)

    everything = list(range(1, len(tlist) + 1))
    bcs(scn['w0'])
    for o in scn['hist']:
        op, w = o['op'], o['w']
        if op == 'bc': bcs(w)
        elif op == 'graph': graph(w)
        elif op in ('res', 'resblk', 'resterm', 'ressel'):
            if op == 'res': vec(eqs.eval_residuals(state(w), assemble=asm if w % 2 else None), everything, 0)
            elif op == 'resblk':
                for key, x in eqs.eval_residuals(state(w), by_blocks=True).items():
                    q = int(key[1:]) + 1
                    vec(x, [k for k in everything if tlist[k - 1]['eq'] == q], tlist[first[q] - 1]['v'])
            elif op == 'resterm':
                for (en, it), x in eqs.eval_residuals(state(w), by_terms=True).items():
                    q = int(en.split(',')[0][1:]) + 1
                    k = first[q] + it
                    vec(x, [k], tlist[k - 1]['v'])
            else:
                tm = w % 4
                vec(eqs.eval_residuals(state(w), select_term=lambda t: t.name.startswith('dw_asm%d' % tm), assemble=asm if w % 2 else None), [k for k in everything if tlist[k - 1]['tm'] == tm], 0)
        elif st['mtx'] is not None:
            A = st['mtx']
            if op == 'mtx': mat(eqs.eval_tangent_matrices(state(w), A, assemble=asm if w % 2 else None), everything, 0, 0)
            elif op == 'mtxblk':
                for key, x in eqs.eval_tangent_matrices(state(w), A, by_blocks=True).items():
                    q = int(key[1:]) + 1
                    t = tlist[first[q] - 1]
                    mat(x, [k for k in everything if tlist[k - 1]['eq'] == q], t['v'], (t['ss'] or [t['v']])[0])
            elif op == 'mtxterm':
                for (en, it), x in eqs.eval_tangent_matrices(state(w), A, by_terms=True).items():
                    q = int(en.split(',')[0][1:]) + 1
                    k = first[q] + it
                    mat(x, [k], tlist[k - 1]['v'], 0)
            else:
                tm = w % 4
                mat(eqs.eval_tangent_matrices(state(w), A, select_term=lambda t: t.name.startswith('dw_asm%d' % tm), assemble=asm if w % 2 else None), [k for k in everything if tlist[k - 1]['tm'] == tm], 0, 0)
    ev.append(dict(op='order', ok=all(seen), n=len(seen)))
    return dict(ev=ev, terms=tlist)
