"""DOFs of finite element fields (spec/FieldDofs.tla)."""
import itertools
import warnings
import numpy as nm
from sfepy.base.base import output, Struct
from sfepy.discrete import FieldVariable, Integral
from sfepy.discrete.common.mappings import get_physical_qps
from sfepy.discrete.fem import FEDomain, Field
from sfepy.discrete.fem import refine_hanging as rh
import meshes

warnings.simplefilter('ignore')
output.set_output(quiet=True)


def ints(x): return [int(v) for v in nm.clip(nm.rint(nm.asarray(x, dtype=float)), -2e9, 2e9).ravel()]
def rows(x): return [ints(r) for r in nm.asarray(x)]


def lattice(f, scn):
    """Lattice positions of the local nodes (empty: a bubble node of an enriched order)."""
    ps, k, basis = f.poly_space, f.approx_order, f.poly_space_basis
    nc = ps.node_coors
    if basis == 'sem':
        vals = sorted({round(float(v), 9) for v in nc.ravel()})
        return [[vals.index(round(float(v), 9)) for v in x] for x in nc]
    out = []
    for x in nc * max(k, 1): out.append(ints(x) if nm.abs(x - nm.rint(x)).max() < 1e-9 else [])
    return out


def entities(f):
    """Local vertices and the rank of each local node of a hierarchical basis."""
    nd, gel = f.node_desc, f.gel
    out = [None] * f.econn.shape[1]
    for v, n in enumerate(nd.vertex): out[int(n)] = [[v], 0]
    for kind, ents in (('edge', gel.edges), ('face', gel.faces)):
        d = getattr(nd, kind)
        if d is not None:
            for e, ns in enumerate(d):
                for m, n in enumerate(ns): out[int(n)] = [[int(v) for v in ents[e]], m]
    if nd.bubble is not None:
        for m, n in enumerate(nd.bubble): out[int(n)] = [list(range(gel.n_vertex)), m]
    return out


def basis_at(f, pts, name):
    """Basis values in reference points for all cells: (n_cell, n_point, n_ep)."""
    pts = nm.array(pts, dtype=nm.float64)
    integral = Integral(name, coors=pts, weights=nm.ones(len(pts)))
    bf = f.eval_basis('v', 0, integral)
    if bf.ndim == 3: bf = nm.repeat(bf[None], f.econn.shape[0], axis=0)
    return bf[:, :, 0, :]


def values_of(econn, bf):
    d = {}
    for n, b in zip(econn, bf): d[int(n)] = d.get(int(n), 0.0) + float(b)
    return [[n, int(round(v * 1e6))] for n, v in sorted(d.items()) if abs(v) > 1e-7]


FACETS = {'1_2': [[0], [1]], '2_3': [[0, 1], [1, 2], [2, 0]], '2_4': [[0, 1], [1, 2], [2, 3], [3, 0]]}
def facets_of(desc): return FACETS.get(desc) or meshes.REF[desc]['faces']


class Run(object):
    def __init__(self, scn):
        self.scn, self.ev, self.rng = scn, [], nm.random.RandomState(scn['seed'])
        self.mesh = meshes.make_mesh(scn['mesh'])
        self.dom = FEDomain('d', self.mesh)
        self.desc = scn['mesh']['cells'][0][0]
        self.om = self.dom.create_region('Omega', 'all')
        cells = scn['cells']
        self.reg = self.om if cells is None else self.dom.create_region('Sub', 'cell ' + ','.join(map(str, cells)))
        self.dim = self.mesh.dim
        self.n = 0

    def make_field(self):
        s = self.scn
        dtype = nm.complex128 if s['cplx'] else nm.float64
        self.f = Field.from_args('f', dtype, s['shape'], self.reg, approx_order=s['order'], space='H1', poly_space_basis=s['basis'])
        self.k = self.f.approx_order
        self.conn = self.dom.get_conn(tdim=self.reg.tdim, cells=self.reg.cells)

    def field(self):
        f, s = self.f, self.scn
        e = dict(op='field', desc=self.desc, k=int(max(self.k, 1)), disc='d' in str(s['order']) or s['order'] == 0, cells=rows(self.conn), econn=rows(f.econn), nnod=int(f.n_nod),
                 nv=int(f.n_vertex_dof), verts=ints(self.reg.vertices), hier=s['basis'] == 'lobatto', seren=s['basis'] == 'serendipity', zero=s['order'] == 0, bubble=bool(f.force_bubble))
        scale = e['k'] if self.desc in ('1_2', '2_3', '3_4') else e['k']**self.dim
        e['coors'] = []
        if e['hier']:
            e['ents'] = entities(f)
            e['nc'] = [[0]] * f.econn.shape[1]
        else:
            e['nc'] = lattice(f, s)
            e['ents'] = []
        e['mesh'] = s['mesh']['coors']
        co = f.get_coor()
        if not e['zero'] and s['basis'] not in ('sem',):
            e['coors'] = rows(co * scale * (1 if not f.force_bubble else 60))
        e['fscale'] = 60 if f.force_bubble else 1
        self.ev.append(e)

    def make_region(self, w):
        m = self.mesh
        c = m.coors
        k = w % 8
        ax = 'xyz'[(w // 8) % self.dim]
        x = sorted(set(c[:, 'xyz'.index(ax)]))
        mid = 0.5 * (x[0] + x[-1])
        kind = ['vertex', 'facet', 'cell', 'edge' if self.dim == 3 else 'vertex'][(w // 24) % 4]
        cells = self.reg.cells
        sel = {0: 'vertices in (%s < %f)' % (ax, x[0] + 0.1), 1: 'vertices in (%s > %f)' % (ax, mid - 0.1), 2: 'all', 3: 'vertices of surface',
               4: 'cell ' + ','.join(str(v) for v in sorted(set(cells[::2]))), 5: 'vertex %d, %d' % (w % m.n_nod, (w // 3) % m.n_nod),
               6: 'vertices in (%s > %f)' % (ax, x[-1] - 0.1), 7: 'cells of group 1'}[k]
        self.n += 1
        try:
            r = self.dom.create_region('R%d' % self.n, sel, kind)
            [r.entities[d] if r.can[d] else None for d in range(self.dim)]
            self.ents(r)
            return r
        except (ValueError, IndexError, RecursionError): return None # Refused region, see C01.

    def ents(self, r):
        cm = self.dom.cmesh
        out = []
        for d in range(self.dim):
            ents = r.entities[d]
            if d == 0: out.append([[int(v)] for v in ents])
            elif ents is not None and len(ents):
                inc, off = cm.get_incident(0, nm.asarray(ents, dtype=nm.uint32), d, ret_offsets=True)
                out.append([sorted(int(v) for v in inc[off[i]:off[i + 1]]) for i in range(len(ents))])
            else: out.append([])
        cells = []
        if r.has_cells():
            pos = {int(c): i + 1 for i, c in enumerate(self.reg.cells)}
            cells = [pos[int(c)] for c in r.cells if int(c) in pos]
        return out, cells

    def region(self, w):
        r = self.make_region(w)
        if r is None or (self.f.n_vertex_dof == 0 and self.f.approx_order > 0): return
        e = dict(op='region', ents=[], cells=[], dofs=[], parts=True)
        e['ents'], e['cells'] = self.ents(r)
        e['ents'] = [x for part in e['ents'] for x in part]
        e['dofs'] = ints(self.f.get_dofs_in_region(r))
        e['parts'] = ints(nm.concatenate(self.f.get_dofs_in_region(r, merge=False))) == e['dofs']
        self.ev.append(e)

    def setdofs(self, w):
        r = self.make_region(w)
        f, basis = self.f, self.scn['basis']
        if r is None or (f.n_vertex_dof == 0 and f.approx_order > 0) or basis == 'bernstein': return
        if not len(f.get_dofs_in_region(r)): return
        nc = f.n_components
        cf = [[(w // (3 + i) + 2 * i * j + j) % 5 - 2 for j in range(self.dim + 1)] for i in range(nc)]
        def fun(coors): return nm.stack([a[0] + coors @ nm.array(a[1:], dtype=float) for a in cf], axis=1)
        how = w % 4
        e = dict(op='setdofs', nods=[], vals=[], want=[], dofs=sorted(set(ints(f.get_dofs_in_region(r)))), err='', const=how != 0)
        consts = [a[0] for a in cf]
        val = [fun, float(consts[0]), nm.array(consts, dtype=float), fun][how]
        if how == 2 and basis == 'lobatto': val, how = float(consts[0]), 1
        if how == 3: # Point-by-point raveled.
            val = (lambda c: fun(c).ravel())
        nods, vals = f.set_dofs(val, r, nc if w % 3 else None)
        e['nods'] = ints(nods)
        e['vals'] = rows(nm.asarray(vals).reshape(len(nods), -1) * 1e4)
        co = f.get_coor()[nods]
        want = fun(co) if how in (0, 3) else nm.tile(nm.array(consts if how == 2 else [consts[0]] * nc, dtype=float), (len(nods), 1))
        if basis == 'lobatto': want[nods >= f.n_vertex_dof] = 0.0
        e['want'] = rows(want.reshape(len(nods), -1) * 1e4)
        self.ev.append(e)

    def var(self, r=None):
        v = FieldVariable('u%d' % self.n, 'parameter', self.f, primary_var_name='(set-to-None)')
        self.n += 1
        return v

    def poly(self, w, region=None, surf=False):
        """Polynomials of the approximation order are reproduced by values and gradients."""
        f, basis = self.f, self.scn['basis']
        if self.k < 1 or basis == 'bernstein': return
        deg = 1 if basis == 'lobatto' else self.k
        if not self.scn['affine'] or f.force_bubble: deg = 1 # 2B: not nodal in the centroid.
        pw = [0] * self.dim
        for j in range(deg): pw[(w // (2 + j)) % self.dim] += 1 if (w // 5 + j) % 4 else 0
        top = max(1.0, float(nm.abs(self.mesh.coors).max()))
        def p(c): return nm.prod((c / top)**nm.array(pw), axis=-1)
        def g(c):
            out = []
            for a in range(self.dim):
                if pw[a] == 0: out.append(nm.zeros(c.shape[:-1])); continue
                q = list(pw); q[a] -= 1
                out.append(pw[a] / top * nm.prod((c / top)**nm.array(q), axis=-1))
            return nm.stack(out, axis=-1)
        nc = f.n_components
        co = f.get_coor()
        vals = nm.zeros((f.n_nod, nc), dtype=f.dtype)
        for i in range(nc): vals[:, i] = (i + 1) * p(co)
        if f.dtype == nm.complex128: vals = vals * (1 + 2j)
        if basis == 'lobatto': vals[f.n_vertex_dof:] = 0.0
        v = self.var()
        v.set_data(vals.ravel())
        r = region or self.reg
        integral = Integral('p%d' % self.n, order=(w % 3) + 1)
        e = dict(op='poly', got=[], want=[], ggot=[], gwant=[], surf=bool(surf))
        got = v.evaluate('val', r, integral, 'facet' if surf else None)
        q = get_physical_qps(r, integral)
        x = q.values.reshape(got.shape[:2] + (self.dim,))
        want = nm.stack([(i + 1) * p(x) for i in range(nc)], axis=-1)
        mult = 1 + 2j if f.dtype == nm.complex128 else 1
        def flat(a): return ints(nm.concatenate([nm.ravel(a.real), nm.ravel(a.imag)])[:400] * 1e4)
        got = got.reshape(want.shape)
        e['got'], e['want'] = flat(got * 1.0), flat(want * mult)
        if not surf:
            gg = v.evaluate('grad', r, integral) # (cell, qp, dim, nc)
            gw = nm.swapaxes(nm.stack([(i + 1) * g(x) for i in range(nc)], axis=-2), -1, -2)
            e['ggot'], e['gwant'] = flat(nm.asarray(gg) * 1.0), flat(gw * mult)
        self.ev.append(e)

    def surf(self, w):
        f = self.f
        if self.dim == 1 or self.scn['basis'] in ('lobatto', 'bernstein') or self.k < 1 or (f.n_vertex_dof == 0) or self.reg is not self.om: return
        w = (w // 8) * 8 + [0, 3, 6][w % 3]
        self.n += 1
        sel = {0: 'vertices of surface', 3: 'vertices in (x < 0.1)', 6: 'vertices of surface'}[w % 8]
        try: r = self.dom.create_region('S%d' % self.n, sel, 'facet')
        except (ValueError, IndexError): return
        if not len(r.get_facet_indices()): return
        fi = r.get_facet_indices()
        econn = f.get_econn('facet', r)
        e = dict(op='surf', rows=rows(econn), facets=[[int(self.conn[c][v]) for v in facets_of(self.desc)[l]] for c, l in fi])
        self.ev.append(e)
        self.poly(w // 3, r, surf=True)

    def sub(self, w):
        """Mappings and connectivity on a part of the cells."""
        f = self.f
        cells = [int(c) for c in self.reg.cells]
        part = sorted(set(cells[(w + i * (1 + w % 3)) % len(cells)] for i in range(1 + w % len(cells))))
        self.n += 1
        r = self.dom.create_region('P%d' % self.n, 'cell ' + ','.join(map(str, part)))
        if self.k < 1: return
        integral = Integral('s%d' % self.n, order=1 + w % 2)
        g0, g1 = f.get_mapping(self.reg, integral, 'cell')[0], f.get_mapping(r, integral, 'cell')[0]
        pos = [cells.index(c) for c in part]
        def rws(a, idx):
            a = nm.asarray(a)
            if a.shape[0] == 1 and idx is not None: a = nm.repeat(a, len(cells), axis=0)
            if a.shape[0] == 1 and idx is None: a = nm.repeat(a, len(part), axis=0)
            return a[idx] if idx is not None else a
        e = dict(op='sub', got=[], want=[], cgot=rows(f.get_econn('cell', r)), cwant=rows(f.econn[pos]))
        for name in ('bf', 'bfg', 'det'):
            a, b = rws(getattr(g1, name), None), rws(getattr(g0, name), pos)
            q = 1e4 / max(1.0, float(nm.abs(b).max()))
            e['got'] += ints(nm.clip(a * q, -1e6, 1e6))[:300]
            e['want'] += ints(b * q)[:300]
        self.ev.append(e)

    def cont(self, w):
        """The basis in points of shared facets and edges seen from all cells."""
        f, desc = self.f, self.desc
        if self.k < 1 or f.n_vertex_dof == 0: return
        if self.scn.get('hang'): return self.cont_hang(w)
        gc = f.gel.coors
        where = {}
        for c, conn in enumerate(self.conn):
            for lf in facets_of(desc): where.setdefault(frozenset(int(conn[v]) for v in lf), []).append((c, [int(conn[v]) for v in lf]))
            for le in meshes.REF[desc]['edges'] if self.dim == 3 else []: where.setdefault(frozenset(int(conn[v]) for v in le), []).append((c, [int(conn[v]) for v in le]))
        K = 5
        pts, idx = [], []
        shared = [v for v in where.values() if len(v) > 1]
        self.rng.shuffle(shared)
        for group in shared[:6]:
            verts = group[0][1]
            for _ in range(2):
                if len(verts) == 4:
                    a, b = self.rng.randint(0, K + 1, 2)
                    wt = [(K - a) * (K - b), a * (K - b), a * b, (K - a) * b]
                    tot = K * K
                else:
                    cut = sorted(self.rng.randint(0, K + 1, len(verts) - 1))
                    wt = [b - a for a, b in zip([0] + cut, cut + [K])]
                    tot = K
                for c, _v in group:
                    loc = [list(map(int, self.conn[c])).index(v) for v in verts]
                    pts.append(sum(wi * gc[l] for wi, l in zip(wt, loc)) / tot)
                    idx.append((c, sorted([int(v), int(wi)] for v, wi in zip(verts, wt) if wi)))
        # Some points inside for the unity.
        for c in range(min(len(self.conn), 3)):
            r = self.rng.dirichlet(nm.ones(len(gc)))
            pts.append(r @ gc)
            idx.append((c, [[-1 - c, 0]]))
        self.n += 1
        bf = basis_at(f, pts, 'c%d' % self.n)
        e = dict(op='cont', unity=self.scn['basis'] != 'lobatto' and not f.force_bubble, pts=[dict(id=i, vals=values_of(f.econn[c], bf[c, n])) for n, (c, i) in enumerate(idx)])
        self.ev.append(e)

    def cont_hang(self, w):
        f = self.f
        co = self.mesh.coors
        lo, hi = co[self.conn].min(1), co[self.conn].max(1)
        span = hi - lo
        h = span.min() / 4.0
        out, pts, owner = [], [], []
        tries = [p for c in range(len(self.conn)) for p in lo[c] + span[c] * self.rng.randint(0, 5, (6, self.dim)) / 4.0]
        self.rng.shuffle(tries)
        uniq = {tuple(ints(p / h * 2)): p for p in tries}
        for key, p in list(uniq.items())[:25]:
            cells = [c for c in range(len(self.conn)) if (p >= lo[c] - 1e-9).all() and (p <= hi[c] + 1e-9).all()]
            if len(cells) < 2: continue
            for c in cells:
                # Axis-parallel boxes: reference coordinates by vertices.
                X = co[self.conn[c]]
                A = nm.array([(X[[1, 3, 4][a]] - X[0]) for a in range(self.dim)])
                xi = nm.array([(p - X[0]) @ A[a] / (A[a] @ A[a]) for a in range(self.dim)])
                pts.append(xi)
                owner.append((c, [[k + 1, v] for k, v in enumerate(key)]))
        if not pts: return
        self.n += 1
        bf = basis_at(f, pts, 'h%d' % self.n)
        e = dict(op='cont', unity=True, pts=[dict(id=i, vals=values_of(f.econn[c], bf[c, n])) for n, (c, i) in enumerate(owner)])
        self.ev.append(e)

    def refresh(self, w):
        """Move the mesh, fields follow."""
        if self.scn.get('hang') or w % 2: return
        from sfepy.discrete.fem.fields_base import set_mesh_coors
        a = 1 + w % 3
        self.scn['mesh']['coors'] = [[a * v + (w // 3) % 3 for v in c] for c in self.scn['mesh']['coors']]
        set_mesh_coors(self.dom, {'f': self.f}, nm.array(self.scn['mesh']['coors'], dtype=float), update_fields=True)
        self.field()

    def hang(self):
        """Refine some cells, possibly repeatedly."""
        ev = dict(op='hang', refused=False, unused=[], used=[])
        dom, subs = self.dom, None
        flag = nm.zeros(dom.mesh.n_el, dtype=bool)
        flag[[c % dom.mesh.n_el for c in self.scn['hang']]] = True
        dom, subs = rh.refine(dom, flag, subs=subs)
        self.dom, self.mesh = dom, dom.mesh
        self.om = self.reg = dom.create_region('Omega', 'all')
        self.make_field()
        n0 = nm.unique(self.f.econn)
        if subs is not None:
            self.f.substitute_dofs(subs)
        used = nm.unique(self.f.econn)
        ev['used'] = ints(used)
        ev['unused'] = ints(self.f.unused_dofs) if self.f.unused_dofs is not None else []
        ev['all'] = ints(n0)
        self.ev.append(ev)


def run(scn):
    r = Run(scn)
    if scn.get('hang'):
        r.hang()
        r.cont(1)
        r.poly(scn['seed'])
        r.cont(2)
        if r.f.econn0 is not None:
            r.f.restore_dofs(store=True)
            r.f.substitute_dofs(None, restore=True)
            r.f.clear_qp_basis()
            r.cont(3)
        return dict(ev=r.ev)
    try:
        r.make_field()
    except (KeyError, ValueError, NotImplementedError) as exc: # Not available.
        return dict(ev=[dict(op='none', what=type(exc).__name__)])
    r.field()
    for e in scn['hist']: getattr(r, e['op'])(e['w'])
    return dict(ev=r.ev)
