"""Evaluation in points and probes (spec/Locate.tla)."""
import warnings
import numpy as nm
from sfepy.base.base import output, Struct
from sfepy.discrete import FieldVariable
from sfepy.discrete.fem import FEDomain, Field
from sfepy.discrete.probes import Probe, PointsProbe, LineProbe, RayProbe, CircleProbe
import meshes

warnings.simplefilter('ignore')
output.set_output(quiet=True)
BIG = 2 * 10**9


def q(x, s):
    x = nm.asarray(x, dtype=float)
    return nm.where(nm.isfinite(x), nm.clip(nm.rint(nm.where(nm.isfinite(x), x, 0) * s), -BIG, BIG), BIG).astype(int).tolist()


def noise(x, s):
    x = nm.asarray(x, dtype=float)
    x = x[nm.isfinite(x)] * s
    return int(nm.clip((nm.abs(x - nm.rint(x)) / nm.maximum(1, nm.abs(x))).max(initial=0) * 1e9, 0, BIG))


def poly(P, x): return sum(t['c'] * nm.prod(x ** nm.array(t['e']), axis=1) for t in P)


class Run(object):
    def __init__(self, c):
        self.c = c
        self.dom = dom = FEDomain('d', meshes.make_mesh(c['mesh']))
        dom.create_region('Omega', 'all')
        if c['part']: dom.create_region('Part', 'cell ' + ', '.join(map(str, c['part'])), 'cell')
        self.vars = []
        for k, f in enumerate(c['fields']):
            fld = Field.from_args('f%d' % k, nm.complex128 if f['cplx'] else nm.float64, (f['nc'],), dom.regions[f['region']], approx_order=f['order'])
            v = FieldVariable('u%d' % k, 'parameter', fld, primary_var_name='(set-to-None)')
            if f['order'] == 0:
                data = nm.zeros((fld.n_nod, 1))
                data[fld.econn[:, 0], 0] = 3 * nm.arange(len(fld.econn)) + 1
            else:
                data = nm.stack([poly(P, fld.coors) for P in f['poly']], axis=1).astype(float)
            if f['cplx']: data = data * (1 + 2j)
            v.set_data(data.ravel())
            self.vars.append(v)
        self.caches = {}
        Probe.cache = Struct(name='probe_shared_evaluate_cache')
        self.probes = [self.new_probe(p) for p in c['probes']]
        self.ev = []

    def new_probe(self, p):
        sh = p['share']
        if p['k'] == 'points': return PointsProbe(nm.array(p['pts']) / 2, share_geometry=sh)
        if p['k'] == 'line': return LineProbe(p['p0'], p['p1'], p['n'], share_geometry=sh)
        if p['k'] == 'ray':
            def fun(x): return 0.5 * x
            return RayProbe(p['p0'], p['dir'], fun, p['n'], p['both'], share_geometry=sh)
        return CircleProbe(p['c'], p['nrm'], p['r'], p['n'], share_geometry=sh)

    def at(self, w):
        c = self.c
        rng = nm.random.RandomState(w)
        k = rng.randint(len(self.vars))
        v, f = self.vars[k], c['fields'][k]
        pts = c['points'][rng.randint(len(c['points']))]
        pts = [pts[i] for i in rng.permutation(len(pts))]
        mode = 'val' if f['order'] == 0 else ['val', 'val', 'grad', 'div', 'cauchy_strain'][rng.randint(5)]
        dim = c['mesh']['dim']
        if mode in ('div', 'cauchy_strain') and (f['nc'] != dim or dim == 1): mode = 'grad'
        ln, ld = [(0, 1), (1, 10), (1, 2), (2, 1), (100, 1)][rng.randint(5)]
        strategy = 'convex' if c['convex'] and f['region'] == 'Omega' and dim > 1 and rng.rand() < 0.3 else 'general'
        cc = rng.randint(4)
        cache = None
        if cc == 1: cache = v.field.get_evaluate_cache()
        elif cc == 2: # Fields on the same region share geometry.
            old = self.caches.get(f['region'])
            cache = self.caches[f['region']] = v.field.get_evaluate_cache(cache=old, share_geometry=True)
        elif cc == 3: # One cache for everything.
            cache = self.caches['x'] = v.field.get_evaluate_cache(cache=self.caches.get('x'), share_geometry=False)
        x = nm.array(pts, dtype=float) / 2
        plain = rng.rand() < 0.2
        out = v.evaluate_at(x, mode=mode, strategy=strategy, close_limit=ln / ld, cache=cache, ret_ref_coors=not plain, ret_status=not plain, ret_cells=not plain)
        e = dict(op='plain' if plain else 'at', f=k + 1, mode=mode, pts=pts, ln=ln, ld=ld, strategy=strategy)
        if plain: vals = out
        else:
            vals, xi, cells, status = out
            e.update(cells=[int(i) + 1 for i in cells], status=[int(s) for s in status], xi=q(xi, 1e4))
        vals = nm.asarray(vals).reshape(len(pts), -1)
        rat = f['cplx'] and bool(nm.allclose(vals.imag[~nm.isnan(vals)], 2 * vals.real[~nm.isnan(vals)]))
        e.update(vals=q(vals.real, 4), nan=[bool(nm.isnan(r).all()) for r in vals], noise=noise(vals.real, 4), imag=bool(rat) if f['cplx'] else not nm.iscomplexobj(vals))
        self.ev.append(e)

    def probe(self, w):
        rng = nm.random.RandomState(w)
        c = self.c
        if not self.probes: return
        ip = rng.randint(len(self.probes))
        p, pc = self.probes[ip], c['probes'][ip]
        ks = [k for k, f in enumerate(c['fields']) if not pc['share'] or f['region'] == 'Omega']
        k = ks[rng.randint(len(ks))]
        v = self.vars[k]
        mode = 'val' if c['fields'][k]['order'] == 0 else ['val', 'grad'][rng.randint(2)]
        pars, pts, vals = p(v, mode=mode, ret_points=True)
        limit = p.options.close_limit
        ref, cells, status = v.evaluate_at(nm.array(pts), mode=mode, close_limit=limit, ret_status=True, cache=None)
        vals, ref = nm.asarray(vals), nm.asarray(ref)
        fixed = p.n_point_required != -1
        e = dict(op='probe', p=ip + 1, k=pc['k'], n=len(pars), npts=len(pts), nv=len(vals), same=vals.shape == ref.shape and bool(nm.allclose(vals, ref, rtol=1e-9, atol=1e-9)),
                 inc=bool((nm.diff(pars) >= 0).all() if pc['k'] == 'ray' else (nm.diff(pars) > 0).all()), fixed=fixed, want=int(p.n_point_required) if fixed else int(p.n_point0), pars=q(pars, 1e4), pts=q(pts, 1e4))
        if not fixed:
            pts = nm.asarray(pts)
            d = nm.linalg.norm(pts[1:] - pts[:-1], axis=1)
            if pc['k'] == 'circle': d = nm.append(d, nm.linalg.norm(pts[0] - pts[-1]))
            hint = p.options.size_hint
            if hint is None:
                cm = self.dom.mesh
                cc = cm.coors[cm.get_conn(cm.descs[0])]
                lim = max(nm.linalg.norm(a[i] - a[j]) for a in cc for i in range(len(a)) for j in range(i))
            else: lim = hint
            e['fine'] = bool((d <= lim + 1e-9).all())
        else: e['fine'] = True
        self.ev.append(e)

    def run(self, hist):
        for o in hist:
            op, a = o['op'], o['a']
            if op == 'at': self.at(a)
            elif op == 'probe': self.probe(a)
            elif self.probes:
                p, pc = self.probes[a % len(self.probes)], self.c['probes'][a % len(self.probes)]
                if op == 'npoint' and pc['k'] in ('line', 'circle'): p.set_n_point([5, 3, -4, None, 9][a % 5])
                elif op == 'limit':
                    p.set_options(close_limit=[0.0, 0.1, 0.5, 2.0][a % 4], size_hint=0.75 if a % 3 == 0 else None)
                elif op == 'move' and pc['k'] == 'points': p.points += [0.5, -0.5, 1.0][a % 3]
        return self.ev


def run(scn):
    return dict(ev=Run(scn['c']).run(scn['hist']))
