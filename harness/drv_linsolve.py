"""One linear solver instance used again and again (spec/LinSolve.tla)."""
import contextlib
import gc
import io
import sys
import types
import numpy as nm
import scipy.sparse as sps
import scipy.sparse.linalg as spla
from sfepy.base.base import Struct
from sfepy.solvers import Solver, use_first_available
from sfepy.solvers import ls as mls


# A stand-in for a MUMPS wrapper (not installed here): a symmetric system uses
# one triangle only.
def _sym(mtx, symmetric):
    a = mtx.toarray()
    return nm.triu(a) + nm.triu(a, 1).T if symmetric else a


class Context(object):
    def __init__(self, verbose=False): self.lu = None
    def set_matrix(self, a, overwrite_a=False, symmetric=False): self.a, self.lu = _sym(a, symmetric), None
    def factor(self): self.lu = spla.splu(sps.csc_array(self.a))
    def solve(self, b):
        dt = nm.result_type(self.a, b)
        if self.lu is None: raise RuntimeError('not factored')
        return spla.splu(sps.csc_array(self.a.astype(dt))).solve(b.astype(dt))


KINDS = {
    'auto': 'ls.scipy_direct', 'superlu': 'ls.scipy_superlu', 'umfpack': 'ls.scipy_umfpack', 'cholesky': 'ls.cholesky',
    'mumps': 'ls.mumps', 'mumpspy': 'ls.mumps', 'it': 'ls.scipy_iterative', 'amg': 'ls.pyamg', 'amgk': 'ls.pyamg_krylov',
}
CLASSES = {
    'auto': mls.ScipyDirect, 'superlu': mls.ScipySuperLU, 'umfpack': mls.ScipyUmfpack, 'cholesky': mls.CholeskySolver,
    'mumps': mls.MUMPSSolver, 'mumpspy': mls.MUMPSSolver, 'it': mls.ScipyIterative, 'amg': mls.PyAMGSolver,
    'amgk': mls.PyAMGKrylovSolver,
}


def dense(m):
    a = nm.array(m, dtype=nm.float64)
    return a[..., 0] + 1j * a[..., 1] if a[..., 1].any() else a[..., 0]


def build(fmt, a, pad=0):
    if pad: # A large matrix, with the interesting part at the end.
        return sps.block_diag((sps.eye_array(pad, dtype=a.dtype), sps.csr_array(a)), format=fmt)
    m = {'csr': sps.csr_array, 'csc': sps.csc_array, 'coo': sps.coo_array, 'csr_matrix': sps.csr_matrix,
         'unsorted': sps.csr_array, 'zeros': sps.csr_array}[fmt](a)
    if fmt == 'zeros': # Explicit zeros: a common pattern of all contents.
        m = sps.csr_array(nm.ones(a.shape))
        m.data = a.ravel().copy()
    if fmt == 'unsorted':
        for k in range(a.shape[0]):
            s = slice(m.indptr[k], m.indptr[k + 1])
            m.indices[s], m.data[s] = m.indices[s][::-1].copy(), m.data[s][::-1].copy()
        m.has_sorted_indices = False
    return m


def change(obj, fmt, a, pad=0):
    """Change a matrix object in place."""
    new = build(fmt, a, pad)
    if fmt == 'coo':
        obj.coords, obj.data = new.coords, new.data
        return
    same = obj.indices.shape == new.indices.shape and (obj.indices == new.indices).all() and (obj.indptr == new.indptr).all()
    if same and obj.data.dtype == new.data.dtype: obj.data[:] = new.data
    else: obj.indptr, obj.indices, obj.data = new.indptr, new.indices, new.data
    obj.has_sorted_indices = fmt != 'unsorted'


def pairs(x, scale=1):
    x = nm.asarray(x, dtype=complex) * scale
    y = nm.nan_to_num(nm.stack([x.real, x.imag], axis=-1), nan=9e5, posinf=9e5, neginf=9e5)
    return [[int(v) for v in nm.clip(nm.round(w), -10**6, 10**6)] for w in y]


def run(scn):
    for name in ('mumps', 'mumpspy'): sys.modules.pop(name, None)
    if scn['kind'] == 'mumps':
        sys.modules.update(mumpspy=None, mumps=types.ModuleType('mumps'))
        sys.modules['mumps'].Context = Context
    kind, pool, pad = scn['kind'], [dense(m) for m in scn['pool']], scn['pad']
    ctx = dict(name='the context')
    calls = []

    def setup_precond(mtx, context):
        a = nm.asarray(mtx.todense())
        calls.append((a, context is ctx))
        return sps.diags_array(1.0 / a.diagonal()).tocsr() if scn['jacobi'] else None

    cb = {'own': 0, 'arg': 0}
    iters = []
    its = kind in ('it', 'amgk')

    def callback(x):
        cb['own'] += 1
        if kind == 'it' and scn['method'] == 'cg': iters.append(nm.array(x))

    def arg_callback(x):
        cb['arg'] += 1
        if kind == 'it' and scn['method'] == 'cg': iters.append(nm.array(x))

    conf = dict(scn['conf'])
    if its or kind == 'amg': conf.update(method=scn['method'], callback=callback)
    if its: conf['setup_precond'] = setup_precond
    conf0 = Struct(name='ls', kind=KINDS[kind], **conf)
    before = {k: v for k, v in conf0.__dict__.items()}
    objs, fmts, conts = [], [], []
    for f, c in zip(scn['fmts'], scn['start']):
        objs.append(build(f, pool[c - 1], pad))
        fmts.append(f)
        conts.append(c)
    ev = []
    with contextlib.redirect_stdout(io.StringIO()):
        kw = dict(mtx=objs[scn['default'] - 1]) if scn['default'] else {}
        status0 = {}
        kw['status'] = status0
        if scn['make'] == 'class': solver = CLASSES[kind](conf0, context=ctx, **kw)
        elif scn['make'] == 'any': solver = Solver.any_from_conf(conf0, context=ctx, **kw)
        elif scn['make'] == 'first': solver = use_first_available([('ls.petsc', Struct(name='p', kind='ls.petsc')), (KINDS[kind], conf0)], context=ctx, **kw)
        else: solver = use_first_available([(CLASSES[kind], conf0)], context=ctx, **kw)
        for op in scn['ops']:
            e = dict(op=op['op'])
            ev.append(e)
            o = op.get('obj')
            if 'c' in op: conts[o - 1] = op['c']
            if op['op'] == 'change':
                change(objs[o - 1], fmts[o - 1], pool[op['c'] - 1], pad)
            elif op['op'] == 'replace':
                if scn['default'] == o: solver.mtx = None
                objs[o - 1] = None
                gc.collect()
                objs[o - 1], fmts[o - 1] = build(op['fmt'], pool[op['c'] - 1], pad), op['fmt']
                if scn['default'] == o: solver.mtx = objs[o - 1]
            elif op['op'] == 'clear':
                solver.clear()
            elif op['op'] == 'presolve':
                e['raised'] = ''
                try: solver.presolve(objs[o - 1], **op.get('kw', {}))
                except Exception as exc: e['raised'] = type(exc).__name__ + ': ' + str(exc)[:80]
            else:
                a0, old = pool[conts[o - 1] - 1], objs[o - 1].copy()
                b = dense([op['b']])[0]
                b = nm.concatenate([nm.zeros(pad, b.dtype), b])
                b0 = b.copy()
                kw = dict(op['args'])
                if not op['nomtx']: kw['mtx'] = objs[o - 1]
                if op['call']:
                    c = solver.conf.copy()
                    for k, v in op['call'].items(): setattr(c, k, v)
                    kw['conf'] = c
                if op['arg_cb']: kw['callback'] = arg_callback
                x0 = None
                if op['x0']:
                    x0 = dense([op['x0']])[0].astype(nm.result_type(a0, b))
                    kw['x0'] = nm.concatenate([nm.zeros(pad, x0.dtype), x0])
                    x0 = kw['x0'][pad:]
                status = {}
                if op['status']: kw['status'] = status
                else: status = status0
                del calls[:], iters[:]
                cb.update(own=0, arg=0)
                e['raised'] = ''
                try: x = solver(b, **kw)
                except Exception as exc:
                    e['raised'] = type(exc).__name__ + ': ' + str(exc)[:80]
                    continue
                y = nm.asarray(x)
                padded = bool((y[:pad] == 0).all())
                y = y[pad:]
                e['x'] = pairs(y)
                e['exact'] = bool(padded and nm.isfinite(y).all() and (nm.abs(y - nm.round(y.real) - 1j * nm.round(y.imag)) < 1e-3).all())
                e['n_iter'] = int(status.get('n_iter', -100))
                e['own'], e['arg'] = cb['own'], cb['arg']
                bn = float(nm.linalg.norm(b))
                bb = b[pad:]
                e['bnorm'] = int(1000 * bn)
                e['res'] = [int(min(1e6, 1000 * nm.linalg.norm(bb - a0 @ v))) for v in iters]
                e['res0'] = int(min(1e6, 1000 * nm.linalg.norm(bb - a0 @ (x0 if x0 is not None else 0 * bb))))
                e['resx'] = int(min(1e6, nm.ceil(1000 * nm.linalg.norm(bb - a0 @ nm.nan_to_num(y)) - 1e-3)))
                e['last'] = [int(v) for v in ([1] if iters and nm.allclose(iters[-1], y, rtol=0, atol=1e-9) else [])]
                e['pc'] = [bool(v[0].shape == a0.shape and (v[0] == a0).all() and v[1]) for v in calls]
                e['kept'] = bool((b == b0).all() and abs(objs[o - 1] - old).max() == 0
                                 and (x0 is None or pairs(x0) == pairs(dense([op['x0']])[0])))
    after = conf0.__dict__
    ev.append(dict(op='end', conf=bool(set(after) == set(before) and all(after[k] is before[k] for k in before))))
    for name in ('mumps', 'mumpspy'): sys.modules.pop(name, None)
    return dict(ev=ev)
