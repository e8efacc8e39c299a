"""Homogenization engine (spec/Homog.tla)."""
import os
import pickle
import random
import threading
import tempfile
import shutil
from concurrent.futures import Executor, Future
import numpy as nm
from sfepy.base.base import Struct
import sfepy.homogenization.multiproc as multiproc
from sfepy.homogenization.engine import HomogenizationEngine
from sfepy.homogenization.coefs_base import CorrMiniApp, MiniAppBase, CoefEval

STATE = {'log': [], 'uid': 0, 'fail': None}


class Planned(Exception):
    pass


def record(app, data, volume):
    problem = app.problem
    ms = getattr(problem, 'micro_state', None)
    if ms is None: micro, coor = -1, -1
    else: micro, coor = int(ms[0]['id'][ms[1]]), int(problem.coor)
    name = app.name.split('|')[0]
    if app.kind == 'c': name = 'c.' + name
    if STATE['fail'] == [name, micro] or STATE['fail'] == [name, -1]:
        raise Planned(name)
    STATE['uid'] += 1
    STATE['log'].append(dict(name=name, micro=micro, coor=coor, uid=STATE['uid'],
                             data=[[k, int(v)] for k, v in sorted(data.items())],
                             volume=[[k, int(v)] for k, v in sorted((volume or {}).items())]))
    return Val(STATE['uid'])


class Val(int):
    """A value with the attributes of solutions."""
    name = 'val'


class Req(CorrMiniApp):
    kind = 'r'

    def __call__(self, problem=None, data=None):
        val = record(self, data, None)
        if self.save_name is not None:
            STATE['saved'].append([self.name.split('|')[0], os.path.basename(self.get_save_name_base())])
        return val


class Coef(MiniAppBase):
    kind = 'c'

    def __call__(self, volume, problem=None, data=None):
        return record(self, data, volume)


class Shuffled(Executor):
    """Workers in one process, tasks are picked up and finished in a random order."""

    def __init__(self, n, seed):
        self.rng = random.Random(seed)
        self.n, self.todo, self.busy, self.cond = n, [], [], threading.Condition()
        self.stop = False
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def submit(self, fn, *args, **kwargs):
        fut = Future()
        task = pickle.dumps((fn, args, kwargs))
        with self.cond:
            self.todo.append((fut, task))
            self.cond.notify()
        return fut

    def loop(self):
        while True:
            with self.cond:
                while not (self.todo or self.busy or self.stop):
                    self.cond.wait(0.5)
                if self.stop: return
                self.cond.wait(0.0005) # More tasks to choose from.
                can = len(self.busy) < self.n and self.todo
                pick = can and (not self.busy or self.rng.random() < 0.6)
                item = self.todo.pop(self.rng.randrange(len(self.todo))) if pick else None
            if item is not None:
                fut, task = item
                try:
                    fn, args, kwargs = pickle.loads(task)
                    res = ('ok', fn(*args, **kwargs))
                except BaseException as exc:
                    res = ('bad', exc)
                self.busy.append((fut, res))
            elif self.busy:
                fut, (kind, val) = self.busy.pop(self.rng.randrange(len(self.busy)))
                if kind == 'ok': fut.set_result(pickle.loads(pickle.dumps(val)))
                else: fut.set_exception(val)


class StubProblem(Struct):
    """What the engine uses of a problem."""

    def clear_equations(self):
        pass

    def set_mesh_coors(self, coors, **kwargs):
        self.coor = int(nm.asarray(coors).flat[0])

    def get_variables(self, **kwargs):
        return None


class Options(Struct):
    pass


class Conf(Struct):
    def get_function(self, name):
        return None


def make_engine(c, outdir, first):
    reqs = {}
    for n, r in c['reqs']:
        reqs[n] = {'class': Req}
        if r or c['explicit']: reqs[n]['requires'] = list(r)
        if n in c['save']: reqs[n]['save_name'] = 's_' + n
    coefs = {}
    for n, r, kind, status in c['coefs']:
        if kind == 'eval':
            coefs[n] = {'class': CoefEval, 'expression': ' + '.join('%d * %s' % (j + 1, q) for j, q in enumerate(r)) or '0'}
        else:
            coefs[n] = {'class': Coef}
        if r or c['explicit']: coefs[n]['requires'] = list(r)
        if status != 'none': coefs[n]['status'] = status
    if c['filenames']: coefs['filenames'] = {}
    opts = Options(coefs='coefs', requirements='requirements', output_dir=outdir,
                   multiprocessing=bool(first['multi']), store_micro_idxs=list(c['store']),
                   chunk_size=c['chunk'], file_format=None)
    if c['only']: opts.compute_only = list(c['only'])
    if c['per_worker']: opts.chunks_per_worker = c['per_worker']
    conf = Conf(options=opts, coefs=coefs, requirements=reqs, _filename='x/none.py', __file__='none')
    problem = StubProblem(conf=conf, output_dir=outdir, fields={}, output_format='vtk', ofn_trunk='x')
    problem.setup_output = lambda **kwargs: None
    del problem.setup_output
    eng = HomogenizationEngine(problem, Struct(output_filename_trunk='x', output_format=None),
                               volumes={k: {'value': v} for k, v in c['volumes']})
    return eng


StubProblem.setup_output = lambda self, *args, **kwargs: None


def ints(v):
    if isinstance(v, (list, tuple)): return [int(x) for x in v]
    return [int(v)]


def run(scn):
    c = scn['c']
    ev = []
    outdir = tempfile.mkdtemp(prefix='vhom')
    use0 = multiproc.use_multiprocessing
    cpu0 = multiproc.cpu_count
    try:
        eng = None
        for op in scn['ops']:
            e = dict(op, raised='')
            ev.append(e)
            STATE.update(log=[], fail=op['fail'] or None, saved=[])
            multiproc.use_multiprocessing = True
            multiproc.cpu_count = lambda: op['workers'] + 1
            pool = None
            try:
                if eng is None or op['new']:
                    eng = make_engine(c, outdir, op)
                eng.app_options.multiprocessing = bool(op['multi'])
                if op['multi']:
                    pool = multiproc.active_workers['pool'] = Shuffled(op['workers'], op['seed'])
                ms = None
                if op['n_micro']:
                    ms = {'coors': nm.arange(op['n_micro'], dtype=float).reshape(-1, 1, 1) + op['base'],
                          'id': list(range(op['n_micro'])), 'none': None}
                elif hasattr(eng.problem, 'micro_state'):
                    del eng.problem.micro_state
                eng.set_micro_states(ms)
                coefs, deps = eng(ret_all=True, time_tag=op['tag'])
                cd = coefs.to_dict()
                names = cd.pop('save_names', None)
                e['saves'] = [] if names is None else sorted(
                    [k, [os.path.basename(x) for x in ([v] if isinstance(v, str) else v)]] for k, v in names.items())
                e['has_saves'] = names is not None
                cd.pop('info', None)
                e['coefs'] = sorted([k, ints(v)] for k, v in cd.items())
                e['deps'] = sorted([k, ints(v)] for k, v in deps.items())
            except BaseException as exc:
                e['raised'] = type(exc).__name__
                import traceback
                e['tb'] = traceback.format_exc(limit=-3)[-700:]
            finally:
                if pool is not None:
                    pool.stop = True
                    pool.thread.join(5)
                    multiproc.active_workers['pool'] = None
            e['log'] = list(STATE['log'])
            e['saved'] = sorted(STATE['saved'])
        return dict(c=c, ev=ev)
    finally:
        multiproc.use_multiprocessing, multiproc.cpu_count = use0, cpu0
        shutil.rmtree(outdir, ignore_errors=True)
