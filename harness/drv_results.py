"""Multi-step results files (spec/Results.tla)."""
import os
import shutil
import tempfile
import numpy as nm
from sfepy.base.base import Struct
from sfepy.mesh.mesh_generators import gen_block_mesh
from sfepy.discrete.fem.meshio import MeshIO
from sfepy.discrete.fem import Mesh
from sfepy.solvers.ts import TimeStepper
from sfepy.postprocess import time_history as th

ROWS = {'vertex': 6, 'cell': 2}
TICK = 64


class Broken(Exception):
    pass


class BadStr(str):
    """A data mode whose use fails."""


def ints(x):
    x = nm.asarray(x)
    if nm.iscomplexobj(x):
        if not ((x.imag == 0) | (x.imag == -x.real)).all(): return [-1]
        x = x.real
    r = nm.rint(x)
    if not nm.array_equal(r, x): return [-2]
    return [int(v) for v in r.ravel()]


def values(it):
    n = ROWS.get(it['mode'], it['id'] + 1)
    v = 1000 * it['id'] + nm.arange(n * it['dim'])
    if it['dt'] == 'c': v = v - 1j * v
    elif it['dt'] == 'f': v = v.astype(float)
    elif it['dt'] == 'F': v = nm.asfortranarray(v.astype(float).reshape(n, it['dim']))
    return v.reshape((n, 1, it['dim'], 1) if it['mode'] == 'cell' else (n, it['dim']))


def make_out(items, fail):
    out = {}
    for j, it in enumerate(items):
        if it['mode'] == 'custom':
            s = Struct(name='obj', mode='custom', data={'id': it['id'], 'l': [it['id'], 'x', 1.5]})
        else:
            s = Struct(name='n%d' % it['id'], mode=it['mode'], data=values(it),
                       var_name='v%d' % it['id'], field_name='f%d' % it['id'])
            if it['dofs']: s.dofs = tuple('%s.%d' % (it['key'], k) for k in range(it['dim']))
            if it['mode'] == 'full': s.shape = s.data.shape
        if fail and abs(fail) == j + 1:
            class Bad(list):
                def __iter__(self):
                    if fail < 0: os._exit(3)
                    raise Broken()
            s = Struct(name='bad', mode='vertex', data=nm.ones((6, 2)), dofs=Bad('ab'))
        out[it['key']] = s
    return out


def item_of(key, val):
    if isinstance(val, dict):
        ok = val.get('l') == [val.get('id'), 'x', 1.5]
        return dict(key=key, mode='custom', id=int(val['id']) if ok else -1, vals=[], shape=[], dofs=[], name='')
    dofs = list(val.dofs) if val.dofs is not None else []
    return dict(key=key, mode=val.mode, id=0, vals=ints(val.data), shape=[int(k) for k in val.data.shape],
                dofs=dofs if any(dofs) else [], name=val.name)


def snapshot(fn, missing):
    if not os.path.exists(fn):
        return dict(exists=False)
    io = MeshIO.any_from_filename(fn)
    steps, times, nts = io.read_times()
    res = []
    for s, t, nt in zip(steps, times, nts):
        out = io.read_data(int(s))
        res.append(dict(step=int(s), t=ints([t * TICK])[0], nt=ints([nt * TICK])[0],
                        items=sorted((item_of(k, v) for k, v in out.items()), key=lambda q: q['key'])))
    esteps, etimes, ents, dts = th.extract_times(fn)
    same = nm.array_equal(steps, esteps) and nm.array_equal(times, etimes) and nm.array_equal(nts, ents)
    return dict(exists=True, steps=res, last=int(io.read_last_step()), same=bool(same),
                dts=ints(nm.asarray(dts) * TICK), none=io.read_data(missing) is None,
                mesh=int(Mesh.from_file(fn).n_nod))


def run(scn):
    base = tempfile.mkdtemp(prefix='vres')
    fn = os.path.join(base, 'res.h5')
    mesh = gen_block_mesh([1, 1], [3, 2], [0.5, 0.5], name='m', verbose=False)
    ev = []
    ts = TimeStepper(0.0, 1.0, n_step=65)
    try:
        for op in scn['ops']:
            e = dict(op, raised='')
            ev.append(e)
            k = op['op']
            if k not in ('write', 'mesh') and not os.path.exists(fn):
                e['op'] = 'none'
            try:
                if k in ('write', 'mesh'):
                    ts.step, ts.time, ts.nt = op['step'], op['t'] / TICK, (op['t'] % 65) / TICK
                    out = make_out(op['items'], op['fail']) if k == 'write' else None
                    if op['fail'] < 0:
                        pid = os.fork()
                        if pid == 0:
                            try:
                                mesh.write(fn, io='auto', out=out, ts=ts)
                            finally:
                                os._exit(4)
                        e['status'] = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                    elif op['via'] == 'io':
                        io = MeshIO.any_from_filename(fn, mode='w')
                        io.write(fn, mesh, out=out, ts=ts)
                    else:
                        mesh.write(fn, io='auto', out=out, ts=ts)
                elif k == 'hist':
                    io = MeshIO.any_from_filename(fn)
                    e['mode'], name = io.read_data_header(op['key'], step=op['step'] if op['step'] >= 0 else None)
                    res = io.read_time_history(name, op['idx'])
                    e['res'] = [[ints(v) for v in res[i]] for i in op['idx']]
                elif k == 'extract':
                    desc = ', '.join('%s %s %s' % (d['key'], d['mode'], ' '.join(map(str, d['idx']))) for d in op['desc'])
                    res, rts = th.extract_time_history(fn, desc, verbose=False)
                    def conv(r):
                        return [[[[ints(v) for v in x] for x in r[i].values()] if isinstance(r[i], dict)
                                 else [[ints(v) for v in r[i]]] for i in d['idx']]
                                for d in op['desc'] for r in [r_all[d['key']]]]
                    r_all = res
                    e['res'] = conv(res)
                    e['order'] = [list(map(int, res[d['key']][i].keys())) if isinstance(res[d['key']][i], dict) else []
                                  for d in op['desc'] for i in d['idx']]
                    e['times'] = ints(rts.times * TICK)
                    avg = th.average_vertex_var_in_cells(res)
                    e['kept'] = conv(res) == e['res']
                    e['avg'] = [[[ints(4 * v) if isinstance(res[d['key']][i], dict) else ints(v)
                                  for v in avg[d['key']][i]] for i in d['idx']] for d in op['desc']]
                elif k == 'vhist':
                    io = MeshIO.any_from_filename(fn)
                    vts = Struct(n_step=op['n_step'])
                    res = io.read_variables_time_history(op['keys'], vts)
                    e['res'] = [[ints(v) for v in res[key]] for key in op['keys']]
                elif k == 'dump':
                    odir = os.path.join(base, 'd')
                    os.makedirs(odir)
                    try:
                        th.dump_to_vtk(fn, output_filename_trunk=os.path.join(odir, 'x'),
                                       step0=op['step0'], steps=op['steps'] if op['steps'] else None)
                        res = []
                        for name in os.listdir(odir):
                            out = MeshIO.any_from_filename(os.path.join(odir, name)).read_data(0)
                            res.append(dict(step=int(name.split('.')[1]),
                                            items=sorted((dict(key=kk, vals=ints(v.data)) for kk, v in out.items()
                                                          if kk not in ('mat_id', 'node_groups')),
                                                         key=lambda q: q['key'])))
                        e['res'] = sorted(res, key=lambda q: q['step'])
                    finally:
                        shutil.rmtree(odir)
            except Exception as exc:
                e['raised'] = type(exc).__name__
                import traceback
                e['tb'] = traceback.format_exc(limit=-3)[-600:]
            try:
                e['snap'] = snapshot(fn, scn['missing'])
            except Exception as exc:
                import traceback
                e['snap'] = dict(exists=True, error=traceback.format_exc(limit=-3)[-600:])
        return dict(ev=ev)
    finally:
        shutil.rmtree(base, ignore_errors=True)
