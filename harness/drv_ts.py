"""Time steppers, solvers with scripted nonlinear solver outcomes."""
import copy
import pickle
import numpy as nm
from sfepy.base.base import Struct, IndexedStruct
from sfepy.solvers.ts import TimeStepper, VariableTimeStepper
from sfepy.solvers import ts_solvers as tss, ts_controllers as tsc
from sfepy.solvers.ts_dg_solvers import DGMultiStageTSS
from sfepy.discrete.problem import make_is_save


class Units(object):
    def __init__(self, scn):
        self.t0, self.t1 = scn['t0'], scn['t1']
        self.n, self.h = scn['c']['n'], scn['c']['h']
        self.dt = (self.t1 - self.t0) / max(self.n - 1, 1)

    def time(self, x):
        return int(round((x - self.t0) / self.dt * self.h))

    def delta(self, x):
        return int(round(x / self.dt * self.h))


def run(scn):
    return run_ops(scn) if scn['c']['what'] == 'ops' else run_solver(scn)


def make_ts(scn):
    cls = TimeStepper if scn['c']['kind'] == 'fixed' else VariableTimeStepper
    n = scn['c']['n']
    if scn['form'] == 'n_step':
        ts = cls(scn['t0'], scn['t1'], n_step=n)
    elif scn['form'] == 'dt':
        ts = cls(scn['t0'], scn['t1'], dt=(scn['t1'] - scn['t0']) / max(n - 1, 1))
        if n == 1: # Not expressible by dt.
            ts = cls(scn['t0'], scn['t1'], n_step=n)
    elif scn['form'] == 'conf':
        ts = cls.from_conf(Struct(t0=scn['t0'], t1=scn['t1'], dt=None, n_step=n,
                                  quasistatic=False))
    else: # Copy parameters of another one.
        other = cls(scn['t0'], scn['t1'], n_step=n)
        ts = cls(-1.0, 7.0, n_step=3)
        ts.set_from_ts(other, step=0)
    return ts


def run_ops(scn):
    u = Units(scn)
    ts = make_ts(scn)
    fixed = scn['c']['kind'] == 'fixed'
    saved, ev = [], []
    for o in scn['ops']:
        e = dict(o, ok=True)
        op = o['op']
        if op == 'advance':
            ts.advance()
        elif op == 'set':
            try:
                ts.set_step(o['k'])
            except ValueError:
                e['ok'] = False
        elif op == 'sub':
            ts.set_substep_time(o['dt'] * u.dt / u.h)
        elif op == 'restore':
            ts.restore_step_time()
        elif op == 'dt':
            ts.set_time_step(o['dt'] * u.dt / u.h, update_time=o['u'])
        elif op == 'save':
            st = ts.get_state()
            if scn['pickled']: st = pickle.loads(pickle.dumps(st))
            saved.append(st)
        elif op == 'load':
            ts = make_ts(scn)
            ts.set_state(**saved[o['k'] - 1])
        elif op == 'eq':
            e['eq'] = bool(ts == type(ts)(float(o['b'][0]), float(o['b'][1]),
                                          n_step=int(o['b'][2])))
            if not fixed: # Compares also the numbers of steps taken.
                e['eq'] = o['a'] == o['b']
        elif op == 'iter':
            steps, times, nts = [], [], []
            it = (ts.iter_from(o['k']) if fixed or o['k'] == 0
                  else ts.iter_from_current())
            if o['k'] == 0 and scn['pickled']: it = iter(ts)
            for step, time in it:
                assert step == ts.step and time == ts.time
                steps.append(step)
                times.append(u.time(time))
                if len(steps) > 200: break
            e.update(steps=steps, times=times, atend=bool(ts.time == ts.t1))
        e.update(step=int(ts.step), time=u.time(ts.time),
                 nt=int(round(ts.nt * (scn['t1'] - scn['t0']) / u.dt * u.h)),
                 n=int(ts.n_step), dt1=u.delta(ts.dt))
        ev.append(e)
    return dict(c=scn['c'], ev=ev)


class FakeLS(Struct):
    def clear(self):
        pass


class FakeNLS(Struct):
    """Nonlinear solver with scripted outcomes."""

    def __call__(self, vec, status=None, **kwargs):
        return self.solve(vec, status)


def run_solver(scn):
    c = scn['c']
    u = Units(scn)
    ev = []
    count = [c['v0']]
    outs = list(scn['outs'])
    dim = 3 if scn['solver'] == 'ed' else 2

    def vec(k):
        return nm.full(dim, float(k))

    def tok(v):
        v = nm.asarray(v)
        assert (v == v[0]).all(), v
        return int(v[0])

    def next_out():
        return outs.pop(0) if outs else dict(out='easy', en=2, ed=5)

    def make():
        status = IndexedStruct(n_iter=1, condition=0, time=0.0, err0=0.0,
                               err=0.0, ls_n_iter=1, time_stats={})
        ctx = Struct(name='ctx', fields=dict(f=Struct(name='f', n_el_nod=1, n_cell=1, n_bubble_dof=1, n_components=1, n_nod=2, extended=False, family_name='f')))
        nls = FakeNLS(name='nls', status=status, context=ctx,
                      lin_solver=FakeLS())

        def solve(v, st):
            o = next_out()
            if o['out'] == 'fail':
                status.condition, status.n_iter = o.get('cond', 1), 1
            else:
                status.condition = 0
                status.n_iter = (scn['easy'] - o.get('less', 0)
                                 if o['out'] == 'easy' else scn['easy'] + 1)
            count[0] += 1
            ts = ctx.ts
            ev.append(dict(op='sol', vec=tok(v), res=count[0], out=o['out'],
                           en=o['en'], ed=o['ed'], step=ts.step,
                           time=u.time(ts.time)))
            if len(ev) > 3000: raise RuntimeError('too many solves')
            return vec(count[0])

        def fun(v):
            ev.append(dict(op='fun', vec=tok(v)))
            return 0.0 * v

        nls.solve, nls.fun = solve, fun
        conf = dict(name='ts', kind=scn['kind'], t0=scn['t0'], t1=scn['t1'],
                    verbose=False)
        if scn['form'] == 'dt' and c['n'] > 1:
            conf.update(n_step=None, dt=u.dt)
        else:
            conf.update(n_step=c['n'])
        cls = dict(stationary=tss.StationarySolver, simple=tss.SimpleTimeSteppingSolver,
                   adaptive=tss.AdaptiveTimeSteppingSolver, ed=EDSolver,
                   dg=DGSolver)[scn['solver']]
        kw = {}
        if scn['solver'] in ('simple', 'adaptive', 'dg'):
            conf['quasistatic'] = scn['quasi']
        if scn['solver'] == 'adaptive':
            conf.update(dt_red_factor=c['rn'] / c['rd'], dt_red_max=c['mn'] / c['md'],
                        dt_inc_factor=c['inn'] / c['ind'], dt_inc_wait=c['wait'],
                        dt_inc_on_iter=scn['easy'])
        if scn['solver'] == 'ed':
            conf['var_names'] = dict(u='u', du='du', ddu='ddu')
            if c['kind'] == 'seq':
                kw['tsc'] = tsc.TimesSequenceTSC(
                    Struct(times=[scn['t0'] + k * u.dt / u.h for k in c['seq']]))
            elif c['kind'] == 'ctrl':
                base = dict(ed_basic=tsc.ElastodynamicsBasicTSC, ed_pid=tsc.ElastodynamicsPIDTSC,
                            ed_linear=tsc.ElastodynamicsLinearTSC)[
                                'ed_' + c['ctrl']]

                class TSC(base):
                    @staticmethod
                    def get_scaled_errors(dt, v0, v1, ea, er, unpack):
                        o = [e for e in ev if e['op'] == 'sol'][-1]
                        assert (tok(v0), tok(v1)) == (o['vec'], o['res'])
                        err = (o['en'] / o['ed'])**2
                        return (err, 0.5 * err) if o['res'] % 2 else (0.5 * err, err)
                k = dict(name='tsc', kind='tsc.ed_' + c['ctrl'], eps_r=[1e-3, 1e-3], eps_a=[1e-3, 1e-3],
                         fmin=c['fmin'] / 100, fmax=c['fmax'] / 100, fsafety=c['fs'] / 100,
                         error_order=2)
                if c['ctrl'] == 'linear':
                    k.update(fred=c['fred'] / 100, inc_wait=c['wait'], min_finc=c['minf'] / 100)
                kw['tsc'] = TSC(TSC.process_conf(Struct(**k), {}))
        if scn['solver'] == 'stationary':
            conf = dict(name='ts', kind='ts.stationary')
        solver = cls(cls.process_conf(Struct(**conf), {}),
                     nls=nls, context=ctx, **kw)
        ctx.ts = solver.ts
        if scn['solver'] == 'ed':
            solver.set_dof_info(Struct(
                indx=dict(u=slice(0, 1), du=slice(1, 2), ddu=slice(2, 3)),
                n_dof=dict(u=1, du=1, ddu=1), n_dof_total=3))
        return solver, status

    snaps = {}
    sched = scn['sched']
    if sched['mode'] == 'none':
        is_save = None
    elif sched['mode'] == 'all':
        is_save = make_is_save(Struct(get=lambda k, d: d))
    elif sched['mode'] == 'int':
        is_save = make_is_save(dict(save_times=sched['n']))
    elif sched['mode'] == 'list':
        tt = [scn['t0'] + k * u.dt / u.h for k in c['times']]
        is_save = make_is_save(dict(save_times=nm.array(tt) if scn['quasi'] else tt))
    else:
        is_save = make_is_save(dict(save_times=lambda ts: ts.step in c['times']))

    def go(load):
        solver, status = make()
        state = {}

        def init_fun(ts, v):
            if is_save is not None: is_save.reset(ts)
            if load is not None:
                st, tk = snaps[load]
                ts.set_state(**copy.deepcopy(st))
                ts.advance()
                return vec(tk)
            return v

        def pre(ts, v):
            ev.append(dict(op='pre', step=ts.step, time=u.time(ts.time),
                           dt=u.delta(ts.dt), vec=tok(v)))
            return v

        def post(ts, v):
            snaps[ts.step] = (copy.deepcopy(ts.get_state()), tok(v))
            ev.append(dict(op='post', step=ts.step, time=u.time(ts.time),
                           vec=tok(v), saved=bool(is_save(ts)) if is_save is not None else False))
            if len(ev) > 3000: raise RuntimeError('too many steps')
            return v

        # The initial state depends on the run.
        st = None
        if scn['stats']:
            st = IndexedStruct(nls_status=status)
        nsol = sum(e['op'] == 'sol' for e in ev)
        out = solver(vec(c['v0']), init_fun=init_fun, prestep_fun=pre,
                     poststep_fun=post, status=st)
        e = dict(op='end', vec=tok(out), n=int(solver.ts.n_step), stats=False, sols=[])
        if st is not None and scn['solver'] != 'ed':
            e['sols'] = [int(x.step) for x in st.get('step_stats', [])]
            e['stats'] = True
        ev.append(e)

    go(None)
    for load in scn['loads']:
        ks = sorted(k for k in snaps if k < c['n'] - 1 or c['kind'] != 'fixed')
        ks = [k for k in ks if k + 1 in snaps]
        if not ks: break
        load = ks[load % len(ks)]
        for k in list(snaps):
            if k > load: del snaps[k]
        ev.append(dict(op='load', k=load))
        outs[:] = scn['outs']
        go(load)
    return dict(c=c, ev=ev)


class EDSolver(tss.ElastodynamicsBaseTS):
    name = 'ts.fake_ed'
    _parameters = tss.ElastodynamicsBaseTS._common_parameters

    def get_a0(self, nls, u0, e0, v0, unpack):
        return u0.copy()

    def step(self, ts, vec, nls, pack, unpack, **kwargs):
        return nls(vec)


class DGSolver(DGMultiStageTSS):
    name = 'ts.fake_dg'
    _parameters = DGMultiStageTSS._parameters

    def solve_step(self, ts, nls, vec, prestep_fun=None, poststep_fun=None,
                   status=None):
        return nls(vec)
