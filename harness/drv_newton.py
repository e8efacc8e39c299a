"""Nonlinear solvers with scripted outcomes (spec/Newton.tla)."""
import contextlib
import io
import numpy as nm
import scipy.sparse as sps
from sfepy.base.base import Struct
from sfepy.solvers import Solver
from sfepy.solvers.nls import Newton, ScipyRoot
from sfepy.solvers.semismooth_newton import SemismoothNewton

UNIT = 4096
FAILED, NONFINITE = -1, -2
BIG = 2 ** 30


def units(x):
    v = nm.asarray(x) * UNIT
    if not (v == nm.round(v)).all(): return [BIG, BIG]
    return [int(q) for q in v]


def num(v):
    if isinstance(v, (int, float, nm.number)) and nm.isfinite(v) and v == round(v) and abs(v) < BIG: return int(v)
    return BIG


def ints(v):
    return [num(q) for q in nm.asarray(v).ravel()]


class Lin(object):
    """A linear solver with the given answers."""
    def __init__(self, env, tol):
        self.env, self.tol, self.mtx = env, tol, None
    def get_tolerance(self):
        return tuple(None if t < 0 else t / 1024.0 for t in self.tol)
    def __call__(self, rhs, x0=None, conf=None, eps_a=None, eps_r=None, i_max=None, mtx=None, status=None, **kwargs):
        env = self.env
        d, n = env.next('lin')
        m = self.mtx if mtx is None else mtx
        env.ev.append(dict(op='lin' if mtx is not None else 'resolve', rhs=ints(rhs), x0=units(x0), D=[env.ss * q for q in d],
                           dn=abs(env.ss) * num(nm.linalg.norm(d)), n=n, eps_a=num(eps_a * 1024), eps_r=num(eps_r * 1024),
                           mtx=-1 if m is None else num(m[0, 0])))
        if status is not None: status['n_iter'] = n
        return nm.array(d, dtype=nm.float64)


class Env(object):
    def __init__(self, scn):
        self.scn, self.ev, self.pos, self.ntok = scn, [], dict(fun=0, lin=0, new=0), 0
        self.ss = 2 if scn['scale'] else 1

    def next(self, key):
        s = self.scn['script'][key]
        v = s[self.pos[key] % len(s)]
        self.pos[key] += 1
        return v

    def fun(self, x):
        out = self.next('fun')
        e = dict(op='fun', x=units(x), out=out[0], r=[0, 0])
        self.ev.append(e)
        if out[0] == FAILED: raise ValueError('scripted failure')
        if out[0] == NONFINITE:
            return nm.array([0.0, [nm.nan, nm.inf, -nm.inf][out[1] % 3]])
        e['r'] = out[1:]
        e['out'] = num(nm.linalg.norm(out[1:]))
        return nm.array(out[1:], dtype=nm.float64)

    def grad(self, x):
        self.ntok += 1
        lin = isinstance(x, str)
        self.ev.append(dict(op='grad', lin=lin and x == 'linear', x=[0, 0] if lin else units(x), tok=self.ntok))
        return self.ntok * nm.eye(2)

    def isnew(self, it, it_jac, rhs1, rhs0, x1, x0, context=None):
        ret = self.next('new')
        self.ev.append(dict(op='isnew', it=it, it_jac=it_jac, r=ints(rhs1), x=units(x1), x0=units(x0), ret=ret,
                            ctx=context == 'ctx'))
        return ret

    def hook(self, context, nls, x, it, err, err0):
        self.ev.append(dict(op='hook', x=units(x), it=it, err=num(err), err0=num(err0), ctx=context == 'ctx'))


def bad(*args, **kwargs):
    raise AssertionError('a decoy was called')


def run_script(scn):
    env = Env(scn)
    c = scn['c']
    q = lambda v: v[0] / v[1]
    conf = dict(name='n', kind='nls.newton', i_max=c['i_max'], eps_a=float(c['eps_a']), eps_r=q(c['eps_r']),
                ls_on=q(c['ls_on']), ls_red=1 / c['ls_red'], ls_red_warp=1 / c['ls_red_warp'], ls_min=1 / c['ls_min'],
                step_red=1 / c['step_red'], give_up_warp=c['give_up'], ls_mode=c['mode'], is_linear=c['linear'],
                lin_red=None if scn['lin_red'] < 0 else float(scn['lin_red']), report_status=scn['report'],
                lin_precision=None if scn['prec'] < 0 else scn['prec'] / 1024.0)
    if c['any'] or scn['mode_given']: conf['eps_mode'] = 'or' if c['any'] else 'and'
    if c['usejac']: conf['is_new_jacobian_fun'] = env.isnew
    if scn['scale']:
        conf['scale_system_fun'] = lambda mtx, rhs, x0, context: (None if mtx is None else 2 * mtx, 2 * rhs, x0)
        conf['scale_solution_fun'] = lambda x, context: 2 * x
        conf['scaled_error'] = scn['scaled_error']
    lin = Lin(env, scn['tol'])
    st0, st1 = {}, {}
    mine = dict(fun=env.fun, fun_grad=env.grad, lin_solver=lin, status=st0, iter_hook=env.hook if c['hook'] else None)
    init = {k: (bad if k in scn['late'] and k not in ('status', 'iter_hook') else v) for k, v in mine.items()
            if not (k in scn['late'] and k in ('status', 'iter_hook'))}
    nls = Solver.any_from_conf(Struct(**conf), context='ctx', **init)
    for k in range(scn['calls']):
        args = {q: mine[q] for q in scn['late']}
        st = st0
        if 'status' in scn['late']: args['status'] = st = {}
        x0 = nm.array(scn['x0'][k], dtype=nm.float64)
        keep = x0.copy()
        st.clear()
        env.ntok = 0
        env.ev.append(dict(op='start', k=k + 1))
        e = dict(op='end', raised='', x=[0, 0], cond=-1, n_iter=-1, err=-1, err0=-1, lsn=-1, kept=False, time=False)
        try:
            x = nls(x0, **args)
        except ValueError:
            e['raised'] = 'ValueError'
        else:
            e.update(x=units(x), cond=num(st.get('condition')), n_iter=num(st.get('n_iter')), err=num(st.get('err')),
                     err0=num(st.get('err0')), lsn=num(st.get('ls_n_iter')), time='time_stats' in st and 'time' in st)
        e['kept'] = bool((x0 == keep).all())
        env.ev.append(e)
    return dict(ev=env.ev)


def micro(v):
    return int(min(round(v * 1e6), BIG)) if nm.isfinite(v) else BIG


def run_linear(scn):
    a, b = nm.array(scn['a'], dtype=nm.float64), nm.array(scn['b'], dtype=nm.float64)
    ng = [0, 0]
    def grad(x):
        ng[0] += 1
        return sps.csr_array(a)
    ls = Solver.any_from_conf(Struct(name='l', kind='ls.scipy_direct'), mtx=sps.csr_array(a))
    def count(rhs, *args, **kwargs):
        ng[1] += 1
        return ls(rhs, *args, **kwargs)
    lin = Struct(get_tolerance=ls.get_tolerance)
    class L(object):
        mtx = None
        get_tolerance = staticmethod(ls.get_tolerance)
        def __call__(self, *args, **kwargs): return count(*args, **kwargs)
    st = {}
    nls = Newton(Struct(name='n', kind='nls.newton', i_max=scn['i_max'], eps_a=1e-7, eps_r=1.0, is_linear=scn['linear'],
                        ls_mode=scn['mode']),
                 fun=lambda x: a @ x - b, fun_grad=grad, lin_solver=L(), status=st)
    x = nls(nm.array(scn['x0'], dtype=nm.float64))
    r = nm.linalg.norm(a @ x - b)
    r0 = nm.linalg.norm(a @ nm.array(scn['x0']) - b)
    return dict(ev=[dict(op='linear', cond=st['condition'], n_iter=st['n_iter'], solves=ng[1], grads=ng[0],
                         x=[int(v) for v in nm.round(x)], res=micro(r), err=micro(st['err']), err0=micro(st['err0']), res0=micro(r0))])


def problem(scn):
    """F(x) = A x + q x^2 - b (componentwise squares)."""
    a, b, q = (nm.array(scn[k], dtype=nm.float64) for k in ('a', 'b', 'q'))
    return (lambda x: a @ x + q * x ** 2 - b), (lambda x: a + 2 * nm.diag(q * x))


def run_root(scn):
    from scipy.optimize import root
    f, g = problem(scn)
    conf = Struct(name='n', kind='nls.scipy_root', method=scn['method'], use_jacobian=scn['jac'], report_status=scn['report'],
                  options=scn['options'] or None, tol=1e-8 if scn['tol'] else None)
    st = {} if scn['status'] else None
    nls = Solver.any_from_conf(conf, fun=f, fun_grad=g, status=st)
    x0 = nm.array(scn['x0'], dtype=nm.float64)
    x, raised = None, ''
    with nm.errstate(all='ignore'):
        try:
            x = nls(x0.copy(), status=st)
        except Exception as exc:
            raised = type(exc).__name__
        opts = dict(scn['options'], disp=False)
        try:
            sol = root(f, x0.copy(), method=scn['method'], jac=g if scn['jac'] else None, tol=conf.tol, options=opts)
        except Exception as exc:
            return dict(ev=[dict(op='root_refused', raised=raised != '')])
    e = dict(op='root', raised=raised != '', success=bool(sol.success), same=False, has=st is not None, cond=-1, err=-1, res=-1, n_iter=-1, nit=-1)
    if x is not None:
        e['same'] = bool((x == sol.x).all())
        e['res'] = micro(nm.linalg.norm(f(sol.x)))
        if st is not None:
            e.update(cond=int(st['condition']), err=micro(st['err']), n_iter=int(st['n_iter']), nit=int(sol.get('nit', -1)))
    return dict(ev=[e])


def run_semi(scn):
    """F(y) = 0, A(y) >= 0, B(y) >= 0, A B = 0, with failing evaluations."""
    f, g = problem(scn)
    n, ns = len(scn['b']), scn['ns']
    a, b = nm.array(scn['ma'], dtype=nm.float64), nm.array(scn['mb'], dtype=nm.float64)
    ca, cb = nm.array(scn['ca'], dtype=nm.float64), nm.array(scn['cb'], dtype=nm.float64)
    seen, count, nlin = [], [0], [0]
    def fs(x):
        count[0] += 1
        if count[0] in scn['fail']: raise ValueError('scripted failure')
        seen.append(x.copy())
        return f(x)[:n - ns]
    fa = lambda x: a @ x - ca
    fb = lambda x: b @ x - cb
    def err(x):
        va, vb = fa(x), fb(x)
        v = nm.sqrt(va ** 2 + vb ** 2) - (va + vb) if scn['semi'] else nm.minimum(va, vb)
        return nm.linalg.norm(nm.r_[f(x)[:n - ns], v])
    ls0 = Solver.any_from_conf(Struct(name='l', kind='ls.scipy_direct'))
    def ls(r, mtx=None):
        nlin[0] += 1
        try:
            x = nm.linalg.solve(mtx.toarray(), r)
        except nm.linalg.LinAlgError:
            x = nm.zeros_like(r)
        return x
    st = {}
    conf = Struct(name='n', kind='nls.semismooth_newton', semismooth=scn['semi'], i_max=scn['i_max'], eps_a=1e-3, eps_r=scn['eps_r'] / 1024.0,
                  ls_on=0.5 if scn['half'] else 0.99999, ls_min=scn['ls_min'] / 1024.0,
                  ls_red=dict(regular=0.5, steepest_descent=0.25))
    nls = Solver.any_from_conf(conf, fun_smooth=fs, fun_smooth_grad=lambda x: sps.csr_array(g(x)[:n - ns]), fun_a=fa,
                               fun_a_grad=lambda x: sps.csr_array(a), fun_b=fb, fun_b_grad=lambda x: sps.csr_array(b),
                               lin_solver=ls, status=st)
    x0 = nm.array(scn['x0'], dtype=nm.float64)
    keep = x0.copy()
    e = dict(op='semi', raised='', found=False, cond=-1, n_iter=-1, err=-1, res=-1, err0=-1, res0=-1, solves=0, kept=False, evals=0, finite=True)
    with nm.errstate(all='ignore'):
        try:
            x = nls(x0)
        except ValueError:
            e['raised'] = 'ValueError'
            x = None
        if x is not None:
            e.update(found=any(nm.array_equal(x, s, equal_nan=True) for s in seen), cond=int(st['condition']), n_iter=int(st['n_iter']), err=micro(st['err']),
                     res=micro(err(x)), err0=micro(st['err0']), res0=micro(err(x0)), finite=bool(nm.isfinite(err(x)) and nm.isfinite(err(x0))))
    e.update(solves=nlin[0], evals=count[0], kept=bool((x0 == keep).all()))
    return dict(ev=[e])


RUN = dict(script=run_script, linear=run_linear, root=run_root, semi=run_semi)


def run(scn):
    with contextlib.redirect_stdout(io.StringIO()), nm.errstate(invalid='ignore'):
        return RUN[scn['kind']](scn)
