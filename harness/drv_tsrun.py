"""Transient problem runs, restarts (spec/TsRun.tla)."""
import glob
import os
import shutil
import tempfile
import numpy as nm
from sfepy.base.base import Struct
from sfepy.mesh.mesh_generators import gen_block_mesh
from sfepy.discrete.fem.meshio import UserMeshIO, MeshIO
from sfepy.base.conf import ProblemConf
from sfepy.discrete import Problem
from sfepy.solvers.nls import Newton

TICK = 64


def as_int(x, scale=1):
    r = int(round(float(x) * scale))
    return r if abs(x * scale - r) < 1e-6 * max(1, abs(r)) else 10**8


def one(vec):
    """Integer of a constant vector."""
    vec = nm.asarray(vec)
    if vec.size == 0 or not nm.isfinite(vec).all() or nm.ptp(vec) > 1e-7 * (1 + abs(vec).max()):
        return 10**8 + 1
    return as_int(vec.flat[0], TICK)


def hist(var):
    out = []
    for step in (-1, -2):
        try:
            out.append(one(var(step=step)))
        except ValueError:
            out.append(-12345)
    return out


def make_conf(c, log, outdir, load):
    def mesh_hook(mesh, mode):
        if mode == 'read':
            return gen_block_mesh([1, 1], [2, 2], [0.5, 0.5], name='tsm', verbose=False)

    def tab(vals, ts):
        # Piecewise constant in time, changes every quarter.
        return vals[int(nm.floor(ts.time * 4 + 1e-9)) % len(vals)]

    def get_load(ts, coors, mode=None, **kwargs):
        if mode == 'qp':
            log.append(dict(e='mat', t=as_int(ts.time, TICK), step=int(ts.step)))
            return {'f': nm.full((coors.shape[0], 1, 1), tab(c['f'], ts), dtype=float)}

    def get_ebc(ts, coors, bc=None, problem=None, **kwargs):
        log.append(dict(e='ebc', t=as_int(ts.time, TICK), step=int(ts.step)))
        return nm.full(coors.shape[0], tab(c['g'], ts), dtype=float)

    def get_ic(coors, ic=None, **kwargs):
        log.append(dict(e='ic', t=0, step=0))
        return nm.full(coors.shape[0], c['u0'] / TICK)

    sv = c['save']
    if sv['kind'] == 'all': save_times = 'all'
    elif sv['kind'] == 'int': save_times = sv['n']
    elif sv['kind'] == 'list': save_times = [t / TICK for t in sv['times']]
    else:
        save_times = lambda ts: ts.step in sv['times']
    options = dict(nls='newton', ls='ls', output_dir=outdir, output_format=c['format'],
                   save_times=save_times, active_only=c['active_only'])
    if c['ts'] != 'stationary': options['ts'] = 'ts'
    if c['restart']: options['save_restart'] = c['restart']
    if load: options['load_restart'] = load
    solvers = {
        'ls': ('ls.scipy_direct', {}),
        'newton': ('nls.newton', dict(i_max=c['imax'], eps_a=1e-9, eps_r=1e-12,
                                      is_linear=c['linear'], macheps=1e-16)),
    }
    tsp = dict(t0=c['t0'] / TICK, t1=c['t1'] / TICK, n_step=c['n_step'], quasistatic=c['quasi'],
               verbose=False)
    if c['ts'] == 'simple':
        solvers['ts'] = ('ts.simple', tsp)
    elif c['ts'] == 'adaptive':
        solvers['ts'] = ('ts.adaptive', dict(tsp, dt_red_factor=0.5, dt_red_max=c['redmax'] / 16.0,
                                             dt_inc_factor=2.0, dt_inc_on_iter=c['easy'],
                                             dt_inc_wait=c['wait']))
    deriv = 'u' if c['ts'] == 'stationary' or c['quasi'] else 'du/dt'
    conf = dict(
        filename_mesh=UserMeshIO(mesh_hook),
        regions={'Omega': 'all'},
        fields={'fs': ('real', 1, 'Omega', 1)},
        variables={'u': ('unknown field', 'fs', 0, 2), 'vu': ('test field', 'fs', 'u'),
                   'w': ('unknown field', 'fs', 1), 'vw': ('test field', 'fs', 'w'),
                   'z': ('unknown field', 'fs', 2), 'vz': ('test field', 'fs', 'z')},
        functions={'get_load': (get_load,), 'get_ebc': (get_ebc,), 'get_ic': (get_ic,)},
        materials={'load': 'get_load'},
        ebcs={'zf': ('Omega', {'z.all': 'get_ebc'})},
        ics={'uf': ('Omega', {'u.all': 'get_ic'})},
        integrals={'i': 2},
        equations={
            'eu': 'dw_dot.i.Omega(vu, %s) - dw_dot.i.Omega(vu, z) = dw_integrate.i.Omega(load.f, vu)' % deriv,
            'ew': ('dw_dot.i.Omega(vw, w) - dw_dot.i.Omega(vw, u[-1]) = 0'
                   if c['ts'] != 'stationary' else 'dw_dot.i.Omega(vw, w) - dw_dot.i.Omega(vw, u) = 0'),
            'ez': 'dw_dot.i.Omega(vz, z) = 0',
        },
        solvers=solvers,
        options=options,
    )
    return conf


def c_ts(tr):
    return tr['ts'] != 'stationary'


class Scripted(Newton):
    """Newton's method with prescribed exit status."""

    def __call__(self, vec_x0, *args, **kwargs):
        tr = self._tr
        variables = tr['pb'].equations.variables
        ts = self.context.ts
        parts = variables.make_full_vec(vec_x0) if tr['active'] else vec_x0
        get = lambda n: one(variables.get_vec_part(parts, n))
        ev = dict(e='nls', step=int(ts.step), t=as_int(ts.time, TICK), u=get('u'), w=get('w'),
                  z=as_int(ts.dt, TICK))
        u = variables['u']
        ev['hist'] = hist(u) if c_ts(tr) else []
        out = Newton.__call__(self, vec_x0, *args, **kwargs)
        status = kwargs.get('status')
        if status is None: status = self.status
        script = tr['script'].pop(0) if tr['script'] else [0, 1]
        ev['cond'], ev['iter'] = script
        if script[0]:
            out = out + tr['junk']
        status['condition'], status['n_iter'] = script
        tr['log'].append(ev)
        return out


def read_back(pb, c, outdir):
    """All the saved steps."""
    res = []
    names = sorted(n for n in os.listdir(outdir) if n.endswith('.' + c['format']) and '.restart' not in n)
    for n in names:
        fn = os.path.join(outdir, n)
        io = MeshIO.any_from_filename(fn)
        if c['format'] == 'h5':
            steps, times, nts = io.read_times()
            assert len(steps) == len(times)
            pairs = [(int(s), as_int(t, TICK)) for s, t in zip(steps, times)]
        else:
            ss = n.split('.')
            pairs = [(int(ss[1]) if len(ss) > 2 else -1, -1)]
        for s, t in pairs:
            out = io.read_data(max(s, 0))
            # The extra (cell) data hold the number of step hook calls.
            res.append(dict(step=s, t=t, u=one(out['u'].data), w=one(out['w'].data),
                            z=one(out['z'].data), tag=as_int(nm.max(out['tag'].data)) if 'tag' in out else -1))
    return res


def run(scn):
    c = scn['c']
    base = tempfile.mkdtemp(prefix='vtsrun')
    ev = []
    try:
        pb = None
        kept = {}
        for irun, op in enumerate(scn['ops']):
            log = []
            e = dict(op, irun=irun)
            ev.append(e)
            e['raised'] = ''
            e['found'] = True
            e['dir'] = ''
            try:
                if op['op'] == 'again':
                    if pb is None:
                        e['found'] = False
                        continue
                    log = tr['log']
                    e['dir'] = os.path.basename(outdir)
                    e['load'] = last_load
                    del log[:]
                    for fn in os.listdir(outdir): os.remove(os.path.join(outdir, fn))
                    kept = {k: v for k, v in kept.items() if os.path.dirname(v) != outdir}
                else:
                    outdir = os.path.join(base, 'r%d' % irun)
                    load, pb = None, None
                    last_load = op['load']
                    e['dir'] = os.path.basename(outdir)
                    if op['load']:
                        load = kept.get(op['load'])
                        e['found'] = load is not None
                        if load is None: continue
                    conf = make_conf(c, log, outdir, load)
                    pc = ProblemConf.from_dict(conf, Struct(__file__='none'), verbose=False)
                    pb = Problem.from_conf(pc)
                    pb.setup_default_output(pc)
                    pb.conf.verbose = False
                    pb.init_solvers()
                    tss = pb.get_solver()
                    tr = dict(log=log, pb=pb, active=c['active_only'], junk=1000 / TICK,
                              ts=c['ts'])
                    tss.nls.__class__ = Scripted
                    tss.nls._tr = tr
                tr['script'] = [list(x) for x in op['script']]
                hooks = [0]

                def state_of(variables):
                    u = variables['u']
                    out = dict(u=one(u()), w=one(variables['w']()), z=one(variables['z']()))
                    out['hist'] = (hist(u)
                                   if c['ts'] != 'stationary' else [])
                    return out

                def step_hook(pb, ts, variables):
                    hooks[0] += 1
                    log.append(dict(e='hook', step=int(ts.step), t=as_int(ts.time, TICK), **state_of(variables)))

                def post_process(out, pb, state, extend=False):
                    ts = pb.ts
                    log.append(dict(e='save', step=int(ts.step), t=as_int(ts.time, TICK), **state_of(state)))
                    out['tag'] = Struct(name='output_data', mode='cell', data=nm.full((1, 1, 1, 1), float(hooks[0])),
                                        dofs=None, var_name='tag')
                    return out

                kw = {}
                if op['state0']:
                    vec = nm.zeros(pb.get_variables().di.n_dof_total)
                    pb.get_variables().set_vec_part(vec, 'u', nm.full(4, (c['u0'] + 640) / TICK))
                    kw['state0'] = vec
                fin = [0]

                def final(pb, variables):
                    fin[0] += 1
                variables = pb.solve(step_hook=step_hook, post_process_hook=post_process,
                                     post_process_hook_final=final,
                                     save_results=op['saving'], verbose=False, **kw)
                e['final'] = dict(state_of(variables), n=fin[0])
            except Exception as exc:
                import traceback
                e['raised'] = type(exc).__name__
                e['tb'] = traceback.format_exc(limit=-4)[-900:]
            e['log'] = list(log)
            e['files'] = []
            if os.path.isdir(outdir):
                try:
                    e['files'] = read_back(pb, c, outdir)
                except Exception as exc:
                    e['raised'] = e['raised'] or 'read back ' + type(exc).__name__
                e['restarts'] = []
                for fn in sorted(os.listdir(outdir)):
                    if '.restart-' in fn:
                        s = int(fn.split('.restart-')[1].split('.')[0])
                        e['restarts'].append(s)
                        kept['%d:%d' % (irun, s)] = os.path.join(outdir, fn)
            else:
                e['restarts'] = []
        return dict(c=c, ev=ev)
    finally:
        shutil.rmtree(base, ignore_errors=True)
