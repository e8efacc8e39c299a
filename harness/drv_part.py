"""Partitioning and distribution of DOFs to tasks (spec/Partition.tla)."""
import copy
import warnings
import numpy as nm
import scipy.sparse as sps
from sfepy.base.base import output, Struct
from sfepy.discrete import FieldVariable, Variables
from sfepy.discrete.common.region import Region
from sfepy.discrete.fem import FEDomain, Field, Mesh
import sfepy.parallel.parallel as pl
import meshes

warnings.simplefilter('ignore')
output.set_output(quiet=True)


class Mpi(object):
    """Point to point messages from rank 0; buffers are passed as bytes."""

    def __init__(self, rank, queues): self.rank, self.queues = rank, queues

    def send(self, obj, dest): self.queues[dest].append(('o', copy.deepcopy(obj)))

    def Send(self, buf, dest): self.queues[dest].append(('b', nm.ascontiguousarray(buf[0]).tobytes()))

    def recv(self, source):
        kind, obj = self.queues[self.rank].pop(0)
        assert kind == 'o'
        return obj

    def Recv(self, buf, source):
        kind, data = self.queues[self.rank].pop(0)
        assert kind == 'b'
        if len(data) > buf[0].nbytes: raise ValueError('message truncated')
        flat = nm.frombuffer(data, dtype=buf[0].dtype)
        buf[0].reshape(-1)[:len(flat)] = flat


class Comm(object):
    def __init__(self, rank, size, queues): self.rank, self.size, self.mpi = rank, size, Mpi(rank, queues)

    def tompi4py(self): return self.mpi


class LGMap(object):
    def create(self, pdofs, comm=None):
        self.pdofs = nm.array(pdofs)
        return self


class Vec(object):
    Option = Struct(IGNORE_NEGATIVE_INDICES=1)

    def __init__(self, n):
        self.data, self.ignore = nm.zeros(n), False

    def setOption(self, opt, val): self.ignore = val

    def setValues(self, rows, vals, mode):
        for r, v in zip(rows, vals):
            if r < 0:
                assert self.ignore
                continue
            if mode == 'ins': self.data[r] = v
            else: self.data[r] += v

    def assemble(self): pass


class Mat(object):
    def __init__(self, n): self.data, self.rank, self.writers = nm.zeros((n, n)), 0, []

    def setLGMap(self, a, b): self.a, self.b = a.pdofs, b.pdofs

    def setValuesLocalCSR(self, indptr, indices, data, mode):
        for r in range(len(indptr) - 1):
            for k in range(indptr[r], indptr[r + 1]):
                i, j = self.a[r], self.b[indices[k]]
                self.writers.append((int(i), int(j), self.rank))
                if mode == 'ins': self.data[i, j] = data[k]
                else: self.data[i, j] += data[k]

    def assemble(self): pass


pl.MPI = Struct(INTEGER4=4)
pl.PETSc = Struct(InsertMode=Struct(INSERT_VALUES='ins', ADD_VALUES='add'), LGMap=LGMap)


def ints(x): return [int(v) for v in nm.ravel(x)]


def vecw(f, c, k): return ((c * 7 + k * 3 + f * 5) % 11) - 5


def matw(f, g, c, k, l): return ((c * 5 + k * 3 + l * 7 + f + 2 * g) % 7) - 3


class Run(object):
    def __init__(self, c):
        self.c = c
        self.mesh = meshes.make_mesh(c['mesh'])
        self.dom = FEDomain('d', self.mesh)
        self.omega = self.dom.create_region('Omega', 'all')
        self.fields = [self.field('f%d' % k, f, self.omega) for k, f in enumerate(c['fields'])]
        self.ev = []

    def field(self, name, f, region): return Field.from_args(name, nm.float64, (f['nc'],), region, approx_order=f['order'])

    def assign(self, n, a):
        rng = nm.random.RandomState(a)
        nel = self.mesh.n_el
        n = min(n, nel)
        if rng.rand() < 0.4: asg = nm.sort(rng.randint(n, size=nel))
        elif rng.rand() < 0.5: # Compact parts.
            cc = self.dom.cmesh.get_centroids(self.dom.cmesh.tdim)
            seeds = cc[rng.permutation(nel)[:n]]
            asg = nm.argmin(((cc[:, None] - seeds[None]) ** 2).sum(axis=2), axis=1)
        else: asg = rng.randint(n, size=nel)
        for t in range(n): # No empty task.
            if not (asg == t).any():
                counts = nm.bincount(asg, minlength=n)
                asg[nm.where(asg == counts.argmax())[0][0]] = t
        return asg.astype([nm.int32, nm.int64][rng.randint(2)]), n

    def part(self, n, a):
        n = min(n, self.mesh.n_el)
        metis = bool(a % 2)
        asg = pl.partition_mesh(self.mesh, n, use_metis=metis)
        self.ev.append(dict(op='part', n=n, metis=metis, asg=ints(asg)))

    def facets(self, n, a):
        asg, n = self.assign(n, a)
        out = pl.get_inter_facets(self.dom, asg)
        cm = self.dom.cmesh
        cm.setup_connectivity(cm.tdim - 1, 0)
        cc = cm.get_conn(cm.tdim - 1, 0)
        vs = lambda f: ints(cc.indices[cc.offsets[f]:cc.offsets[f + 1]]) if cm.tdim > 1 else [int(f)]
        self.ev.append(dict(op='facets', asg=ints(asg), pairs=[[int(i), int(j), [vs(f) for f in fs]] for i, d in out.items() for j, fs in d.items()]))

    def maps(self, n, a):
        asg, n = self.assign(n, a)
        rng = nm.random.RandomState(a + 1)
        k = rng.randint(len(self.fields))
        expand, overlap = bool(rng.randint(2)), bool(rng.rand() < 0.7)
        dm, ids, parts, over = pl.create_task_dof_maps(self.fields[k], asg, pl.get_inter_facets(self.dom, asg), is_overlap=overlap, use_expand_dofs=expand)
        tasks = sorted(dm)
        e = dict(op='maps', asg=ints(asg), f=k + 1, expand=expand, overlap=overlap, tasks=ints(tasks), parts=[ints(x) for x in parts], over=[ints(x) for x in over], ids=ints(ids),
                 owned=[ints(dm[t][0]) + [d for x in dm[t][1] for d in ints(x)] for t in tasks], n=[int(dm[t][3]) for t in tasks], off=[int(dm[t][4]) for t in tasks])
        e['vec'] = ints(pl.verify_task_dof_maps(dm, ids, self.fields[k], use_expand_dofs=expand))
        self.ev.append(e)

    def asm(self, n, a):
        asg, n = self.assign(n, a)
        rng = nm.random.RandomState(a + 2)
        composite = bool(rng.rand() < 0.6)
        ks = [int(k) for k in rng.permutation(len(self.fields))]
        if not composite: ks = ks[:1]
        overlap = bool(rng.rand() < 0.7)
        fields = [self.fields[k] for k in ks]
        queues = [[] for _ in range(n)]
        out = []
        for r in range(n):
            comm = Comm(r, n, queues)
            lfds, gs = pl.distribute_fields_dofs(fields, asg if r == 0 else None, is_overlap=overlap, use_expand_dofs=composite, comm=comm)
            if r == 0: gfds = gs
            out.append((comm, lfds))
        assert not any(queues)
        nd = [f.n_nod * (f.n_components if composite else 1) for f in fields]
        tot = sum(nd)
        rhs, mtx = Vec(tot), Mat(tot)
        e = dict(op='asm', asg=ints(asg), size=n, fields=[k + 1 for k in ks], expand=composite, overlap=overlap, ids=[ints(g.id_map) for g in gfds], sizes=[], drange=[], cells=[], range=[], conn=[], alloc=True)
        for r, (comm, lfds) in enumerate(out):
            e['cells'].append([ints(x.cells) for x in lfds])
            e['range'].append([ints(x.petsc_dofs_range) for x in lfds])
            e['conn'].append([[ints(row) for row in x.petsc_dofs_conn] for x in lfds])
            # Local domains have cells of the first field, as in the examples.
            cells = lfds[0].cells
            reg = Region.from_cells(cells, self.dom, name='loc')
            reg.finalize()
            reg.update_shape()
            m = Mesh.from_region(reg, self.mesh, localize=True)
            dom = FEDomain('l', m)
            om = dom.create_region('Omega', 'all')
            fis = [self.field('l%d' % k, self.c['fields'][k], om) for k in ks]
            if composite:
                vs = Variables([FieldVariable('u%d' % q, 'unknown', fi, q) for q, fi in enumerate(fis)])
                sizes, drange, pdofs = pl.setup_composite_dofs(lfds, fields, vs)
            else:
                sizes, drange = pl.get_sizes(lfds[0].petsc_dofs_range, fields[0].n_nod, 1)
                pdofs = pl.get_local_ordering(fis[0], lfds[0].petsc_dofs_conn)
            e['sizes'].append(ints(sizes))
            e['drange'].append(ints(drange))
            conns, off = [], 0
            for fi in fis:
                cn = fi.econn
                if composite: cn = (cn[:, :, None] * fi.n_components + nm.arange(fi.n_components)).reshape(len(cn), -1)
                conns.append(cn + off)
                off += fi.n_nod * (fi.n_components if composite else 1)
            v, A, P = nm.zeros(off), nm.zeros((off, off)), nm.zeros((off, off))
            for ic, cell in enumerate(cells):
                for p, f in enumerate(conns):
                    for k, row in enumerate(f[ic]):
                        v[row] += vecw(p + 1, int(cell), k)
                        for q, g in enumerate(conns):
                            for l, col in enumerate(g[ic]):
                                A[row, col] += matw(p + 1, q + 1, int(cell), k, l)
                                P[row, col] = 1
            mp = sps.csr_matrix(P)
            mi = mp.copy()
            mi.data[:] = A[mp.nonzero()]
            mtx.rank = r
            if overlap:
                pre = pl.create_prealloc_data(mi, pdofs, drange)
                own = set()
                ok = len(pre.indptr) == drange[1] - drange[0] + 1
                for k in range(len(pre.indptr) - 1): own |= {(drange[0] + k, int(j)) for j in pre.indices[pre.indptr[k]:pre.indptr[k + 1]]}
                e['alloc'] = bool(e['alloc'] and ok and own == {(int(pdofs[x]), int(pdofs[y])) for x, y in zip(*mp.nonzero()) if drange[0] <= pdofs[x] < drange[1]})
            pl.assemble_rhs_to_petsc(rhs, v, pdofs, drange, is_overlap=overlap, comm=comm)
            pl.assemble_mtx_to_petsc(mtx, mi, pdofs, drange, is_overlap=overlap, comm=comm)
        rows = [d for d in e['drange']]
        e['foreign'] = sum(not (rows[w][0] <= x < rows[w][1]) for x, y, w in mtx.writers) if overlap else 0
        j = nm.arange(tot)
        e.update(rhs=ints(nm.rint(rhs.data)), m1=ints(nm.rint(mtx.data @ ((j * j * 7 + 3 * j + 1) % 101))), m2=ints(nm.rint(mtx.data @ ((j * 5 + 2) % 17))))
        self.ev.append(e)


def run(scn):
    r = Run(scn['c'])
    for o in scn['hist']: getattr(r, o['op'])(o['n'], o['a'])
    return dict(ev=r.ev, conn=[[[int(v) for v in row] for row in f.econn] for f in r.fields], nn=[int(f.n_nod) for f in r.fields])
