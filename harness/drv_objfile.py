"""Objects in HDF5 files (spec/ObjFile.tla)."""
import collections
import gc
import os
import tempfile
import warnings
import numpy as nm
import scipy.sparse as sps
import tables as pt
from sfepy import data_dir
from sfepy.base.base import Struct
from sfepy.base.ioutils import (Cached, Uncached, SoftLink, read_from_hdf5, write_to_hdf5, read_dict_hdf5, write_dict_hdf5,
                                read_sparse_matrix_hdf5, write_sparse_matrix_hdf5)
from sfepy.discrete.fem import Mesh
from sfepy.discrete.iga.domain import IGDomain

warnings.simplefilter('ignore')


class Opaque(object):
    def __reduce__(self): raise TypeError('not to be stored')


def mesh(w):
    n = 3 + w % 3
    coors = nm.c_[nm.arange(n) / 4.0, nm.arange(n)[::-1] ** 2 % (w % 7 + 2), nm.arange(n) % 2][:, :2 + w % 2]
    conn = nm.array([[i, i + 1, (i + 2) % n] for i in range(n - 1)], dtype=nm.int32)
    bcs = {'left': nm.array([0, 1]), 'x y': nm.array([2])} if w % 3 == 0 else {}
    return Mesh.from_data('m%d' % w, coors, nm.arange(n, dtype=nm.int32) % (1 + w % 4), [conn], [nm.arange(n - 1, dtype=nm.int32) % 3],
                          ['%d_3' % 2], nodal_bcs=bcs)


def array(w):
    dt = ['f8', 'i4', 'c16', 'b1', 'u1', '>f8', 'f4', 'S3', 'i8', '>i4', 'f2'][w % 11]
    shape = [(3,), (2, 3), (), (0,), (2, 0), (1, 2, 2)][w // 11 % 6]
    a = nm.arange(int(nm.prod(shape))).reshape(shape) + w % 5
    a = a.astype(dt)
    if w % 5 == 0 and a.ndim == 2: a = nm.asfortranarray(a)
    if w % 7 == 0 and a.dtype.kind == 'f' and a.size: a.ravel()[0] = nm.nan
    return a


def sparse(w):
    a = nm.zeros((3, 4), dtype=['f8', 'c16', 'i4'][w % 3])
    a[w % 3, w % 4], a[(w + 1) % 3, 0] = w % 5, 2
    m = (sps.csr_array if w % 2 else sps.csc_array)(a)
    if w % 11 == 0: m = sps.csr_array((2, 3))
    if w % 5 == 0: m.data[:] = m.data[::-1] if m.nnz else m.data
    return m


LEAF = dict(mesh=mesh, sparse=sparse, iga=lambda w: IGDomain.from_file(os.path.join(data_dir, 'meshes/iga', ['patch2d.iga', 'block3d.iga'][w % 2])))
Point = collections.namedtuple('Point', 'x y')
VAL = dict(
    array=array, int=lambda w: w - 50, float=lambda w: [w / 8.0, nm.inf, -0.0, 1e-300, nm.nan][w % 5], complex=lambda w: complex(w, -w / 2),
    str=lambda w: ['', 'a', 'příliš\n', 'x' * w, 'a\x00', '\x00b', ' a ', 'True', 'a/b'][w % 9], bool=lambda w: w % 2 == 0, none=lambda w: None,
    bytes=lambda w: [b'', b'ab\x00', b'\x00\xff'][w % 3], set=lambda w: {w, 'a'}, np_scalar=lambda w: [nm.float64(w), nm.complex128(w), nm.int64(w), nm.bool_(w % 2), nm.float32(w)][w % 5],
    masked=lambda w: nm.ma.array([1, 2, 3], mask=[w % 2, 0, 1]), matrix=lambda w: nm.matrix([[w, 2]]), unicode=lambda w: nm.array(['a', 'é%d' % w]),
    record=lambda w: nm.array([(w, 2.0)], dtype=[('a', 'i4'), ('b', 'f8')]), object=lambda w: nm.array([w, 'a', None], dtype=object),
    date=lambda w: nm.array(['2020-01-01'], dtype='M8[D]') + w, range=lambda w: range(w), coo=lambda w: sps.coo_array(nm.eye(2) * w), slice=lambda w: slice(1, w),
    big=lambda w: 2 ** 70 + w, func=lambda w: nm.linspace, dtype=lambda w: nm.dtype('f4'), frozen=lambda w: frozenset([w]),
)
EXOTIC = dict(lam=lambda w: (lambda x: x), opaque=lambda w: Opaque(), intkey=lambda w: {1: 2}, slash=lambda w: {'a/b': w}, empty_key=lambda w: {'': 1},
              reserved=lambda w: {'_v_x': 1}, dot=lambda w: {'.': 1}, tuplekey=lambda w: {('a', 1): 2})


def arr(a):
    a = nm.asarray(a)
    if a.dtype.kind not in 'OV': a = a.astype(a.dtype.newbyteorder('='))
    return '%s%s%s' % (a.dtype, a.shape, a.tolist())


def describe(v):
    n = type(v).__name__
    if isinstance(v, Mesh):
        v.cmesh
        return 'mesh %s %s %s %s %s %s' % (v.name, arr(v.coors), arr(v.cmesh.vertex_groups), [arr(v.get_conn(d)) for d in v.descs],
                                           arr(v.cmesh.cell_groups), sorted((k, [int(i) for i in q]) for k, q in v.nodal_bcs.items()))
    if isinstance(v, IGDomain):
        nb = v.nurbs
        return 'iga %s %s %s' % (v.name, [arr(q) for q in list(nb.knots) + [nb.degrees, nb.cps, nb.weights, nb.conn]] + [arr(q) for q in nb.cs],
                                 sorted((k, arr(q)) for k, q in v.vertex_set_bcs.items()))
    if sps.issparse(v): return '%s %s %s' % (n, v.dtype, [v.shape] + [arr(q) for q in ((v.data, v.indices, v.indptr) if hasattr(v, 'indptr') else (v.row, v.col, v.data))])
    if isinstance(v, nm.ma.MaskedArray): return 'masked %s %s' % (arr(v.data), arr(v.mask))
    if isinstance(v, nm.ndarray): return '%s %s' % (n, arr(v))
    if isinstance(v, nm.generic): return '%s %r' % (n, v)
    if isinstance(v, (set, frozenset)): return '%s %s' % (n, sorted(map(repr, v)))
    if isinstance(v, (list, tuple)): return '%s %d' % (n, len(v))
    if isinstance(v, dict): return 'dict %s' % sorted(v, key=str)
    if type(v) is Struct: return 'Struct %s' % sorted(v.__dict__)
    if isinstance(v, (Cached, Uncached)): return n
    if isinstance(v, SoftLink): return 'SoftLink'
    return '%s %r' % (n, v)


def kids_of(v):
    if isinstance(v, (list, tuple)): return [(str(k), q) for k, q in enumerate(v)]
    if isinstance(v, dict): return sorted(v.items())
    if type(v) is Struct: return sorted(v.__dict__.items())
    return []


def identity(v):
    if type(v) is tuple and not v: return False
    return isinstance(v, (list, dict, Struct, nm.ndarray, tuple, set)) or sps.issparse(v) or isinstance(v, Mesh)


def build(o, objs):
    kind, kids = o['kind'], [(k, objs[n - 1]) for k, n in o['kids']]
    if kind == 'leaf': return LEAF[o['what']](o['w'])
    if kind == 'val': return (EXOTIC if o['what'] in EXOTIC else VAL)[o['what']](o['w'])
    if kind == 'cached': return Cached(kids[0][1])
    if kind == 'uncached': return Uncached(kids[0][1])
    if kind == 'link': return SoftLink('/' + '/data/'.join(o['path']))
    if o['what'] == 'list': return [q for k, q in kids]
    if o['what'] == 'tuple': return tuple(q for k, q in kids)
    d = dict(kids)
    return d if o['what'] == 'dict' else Struct(**d)


def run_objects(scn):
    heap = scn['heap']
    objs = []
    for o in heap: objs.append(None if o['temp'] else build(o, objs))
    # The same value made twice (None, small integers, ...).
    canon = {}
    canon = [0 if o['temp'] else canon.setdefault(id(v), k + 1) for k, (o, v) in enumerate(zip(heap, objs))]
    ev = [dict(op='objs', canon=canon, descr=['' if o['temp'] else describe(v) for o, v in zip(heap, objs)])]
    fd0, fn = tempfile.mkstemp(suffix='.h5', prefix='vobj')
    os.close(fd0)
    try:
        shared, rshared = {}, {}
        written = []
        fd = pt.open_file(fn, 'w')
        for w in scn['writes']:
            e = dict(op='write', raised='', descr='')
            for k in w['temps']:
                objs[k - 1] = build(heap[k - 1], objs)
                e['descr'] = describe(objs[k - 1])
            kw = dict(cache=shared) if w['shared'] else {}
            try:
                write_to_hdf5(fd, fd.root, w['name'], objs[w['node'] - 1], unpack_markers=w['unpack'], **kw)
                written.append(w)
            except Exception as exc:
                e['raised'] = type(exc).__name__
            # What the containers refer to now.
            idx = {}
            for k, v in enumerate(objs): idx.setdefault(id(v), k + 1)
            e['after'] = [[idx.get(id(q), 0) for k, q in kids_of(v)] if o['kind'] == 'list' else [] for o, v in zip(heap, objs)]
            e['marks'] = [idx.get(id(v.data), 0) if isinstance(v, (Cached, Uncached)) else 0 for v in objs]
            for k in w['temps']:
                objs[k - 1] = None
            ev.append(e)
            if w['reopen']:
                fd.close()
                fd = pt.open_file(fn, 'r+')
        ev.append(dict(op='objs_after', descr=['' if o['temp'] else describe(v) for o, v in zip(heap, objs)]))
        fd.close()
        del objs
        toks, keep, occ = {}, [], []
        with pt.open_file(fn, 'r') as fd:
            order = written if not scn['reverse'] else written[::-1]
            for w in order:
                raised = ''
                try:
                    v = read_from_hdf5(fd, fd.get_node('/' + w['name']), **(dict(cache=rshared) if scn['rshared'] else {}))
                except Exception as exc:
                    occ.append(dict(path=[w['name']], descr='raised %s' % type(exc).__name__, tok=0))
                    continue
                def walk(path, v):
                    keep.append(v)
                    if len(occ) > 120: return
                    occ.append(dict(path=path, descr=describe(v), tok=toks.setdefault(id(v), len(toks) + 1) if identity(v) else 0))
                    for k, q in kids_of(v): walk(path + [k], q)
                walk([w['name']], v)
        ev.append(dict(op='read', occ=occ))
        return dict(ev=ev)
    finally:
        os.remove(fn)


def plain(d):
    return {k: plain(v) if isinstance(v, dict) else '%s %s' % (type(v).__name__, arr(v) if isinstance(v, nm.ndarray) else repr(v)) for k, v in d.items()}


def run_dict(scn):
    def build_d(d):
        out = {}
        for k, v in d:
            out[k] = build_d(v) if isinstance(v, list) else VAL[v['what']](v['w']) if v['what'] in VAL else [1.5 * q for q in range(v['w'])]
        return out
    d = build_d(scn['d'])
    fd0, fn = tempfile.mkstemp(suffix='.h5', prefix='vobj')
    os.close(fd0)
    e = dict(op='dict', raised='', same=False, kept=False)
    try:
        p = plain(d)
        try:
            write_dict_hdf5(fn, d)
            r = read_dict_hdf5(fn)
            e['same'] = plain(r) == p
            e['debug'] = '' if e['same'] else str((plain(r), p))[:300]
        except Exception as exc:
            e['raised'] = type(exc).__name__
        e['kept'] = plain(d) == p
    finally:
        pt.file._open_files.close_all()
        os.remove(fn)
    return dict(ev=[e])


def run_sparse(scn):
    m = sparse(scn['w'])
    fd0, fn = tempfile.mkstemp(suffix='.h5', prefix='vobj')
    os.close(fd0)
    try:
        write_sparse_matrix_hdf5(fn, m)
        r = read_sparse_matrix_hdf5(fn)
        other = read_sparse_matrix_hdf5(fn, output_format=scn['format'])
    finally:
        os.remove(fn)
    return dict(ev=[dict(op='sparse', same=describe(r) == describe(m), format=other.format, value=bool(other.shape == m.shape and (other.toarray() == m.toarray()).all() and other.dtype == m.dtype))])


def run(scn):
    return dict(objects=run_objects, dict=run_dict, sparse=run_sparse)[scn['kind']](scn)
