"""Problem descriptions (spec/ProblemConf.tla)."""
import copy
import importlib
import os
import shutil
import pickle
import sys
import tempfile
import types
import warnings
import numpy as nm
import sfepy.base.conf as sbc
from sfepy.base.base import Struct, output
from sfepy.base.conf import ProblemConf, dict_from_options, dict_from_string
from sfepy.discrete import Problem
from sfepy.mesh.mesh_generators import gen_block_mesh

warnings.simplefilter('ignore')
output.set_output(quiet=True)


def fun_a(*args, **kwargs): pass
def fun_b(*args, **kwargs): pass


HEAD = """
import numpy as nm
def fun_a(*args, **kwargs): pass
def fun_b(*args, **kwargs): pass
MESH = %r
"""
NS = dict(nm=nm, fun_a=fun_a, fun_b=fun_b)
MESHES = {}
COUNT = []
USED = []


def mesh_name():
    if 'fn' not in MESHES:
        import atexit, shutil
        d = tempfile.mkdtemp(prefix='vconf')
        MESHES['fn'] = os.path.join(d, 'block.vtk')
        gen_block_mesh((1.0, 1.0), (5, 3), (0.5, 0.5), verbose=False).write(MESHES['fn'], io='auto')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return MESHES['fn']


def value(t):
    if t['k'] == 'd': return {k: value(q) for k, q in zip(t['keys'], t['kids'])}
    if t['k'] == 't': return tuple(value(q) for q in t['kids'])
    return eval(t['v'], dict(NS, MESH=mesh_name()))


def text(t):
    if t['k'] == 'd': return '{%s}' % ', '.join('%r : %s' % (k, text(q)) for k, q in zip(t['keys'], t['kids']))
    if t['k'] == 't': return '(%s)' % ''.join(text(q) + ', ' for q in t['kids'])
    return t['v']


def atom(v):
    if isinstance(v, complex): v = complex(v.real + 0.0, v.imag + 0.0)
    if isinstance(v, type): return 'nm.%s' % v.__name__
    if callable(v): return getattr(v, '__name__', 'fun')
    if isinstance(v, str) and v == MESHES.get('fn'): return 'MESH'
    return repr(v)


def tree(v):
    if isinstance(v, Struct) and type(v) is Struct: v = v.__dict__
    if isinstance(v, dict): return dict(k='d', v='', n=0, keys=[str(k) for k in v], kids=[tree(q) for q in v.values()])
    if isinstance(v, tuple): return dict(k='t', v='', n=0, keys=[], kids=[tree(q) for q in v])
    return dict(k='a', v=atom(v), n=int(v) if isinstance(v, int) and not isinstance(v, bool) else 0, keys=[], kids=[])


SECTIONS = ['regions', 'fields', 'variables', 'ebcs', 'epbcs', 'lcbcs', 'ics', 'integrals', 'materials', 'solvers', 'functions']


def defs_of(sec):
    return [dict(name=d.name, attrs=[[k, tree(q)] for k, q in d.__dict__.items() if k != 'name']) for d in sec.values()]


def observe(conf):
    o = conf.options.__dict__
    return dict(defs={sec: defs_of(getattr(conf, sec)) for sec in SECTIONS}, options=[[k, tree(q)] for k, q in o.items()])


def make(scn, root, over, verbose=True, edit_source=False):
    """A configuration by the given way, with the keys that were reported."""
    left = []
    orig = sbc.output
    sbc.output = lambda *a, **k: left.append(a) if a and a[0] == 'left over:' else None
    required, other = sbc.get_standard_keywords()
    ovr = None
    keep = []
    try:
        kw = dict(required=required, other=other, verbose=verbose)
        if over:
            if scn['cli']:
                opt = Struct(conf=scn['cli_conf'] or None, app_options=scn['cli_app'] or None)
                ovr = dict_from_options(opt)
            else:
                ovr = [value(q) for q in scn['overrides']]
                ovr = ovr[0] if ovr else None
                if scn['struct'] and ovr is not None: ovr = Struct(**ovr)
            kw['override'] = ovr
        before = tree(root), tree(ovr)
        way = scn['way']
        if way == 'dict':
            conf = ProblemConf.from_dict(root, Struct(__file__='none'), **kw)
        elif way == 'module':
            mod = types.ModuleType('vconf_module')
            mod.__dict__.update(root)
            mod.__file__ = 'none'
            sys.modules['vconf_module'] = mod
            mid = {k: tree(q) for k, q in mod.__dict__.items() if k in root}
            conf = ProblemConf.from_module(mod, **kw)
            if {k: tree(q) for k, q in mod.__dict__.items() if k in root} != mid: keep.append(False)
        else:
            tmp = tempfile.mkdtemp(prefix='vconf')
            fn = os.path.join(tmp, 'vconf_%d_%d.py' % (os.getpid(), len(COUNT)))
            COUNT.append(1)
            importlib.invalidate_caches()
            try:
                with open(fn, 'w') as f:
                    f.write(HEAD % mesh_name())
                    if way == 'file':
                        for k, q in zip(scn['root']['keys'], scn['root']['kids']): f.write('%s = %s\n' % (k, text(q)))
                    else:
                        f.write('def define(extra=0, more=None):\n')
                        for k, q in zip(scn['root']['keys'], scn['root']['kids']): f.write('    %s = %s\n' % (k, text(q)))
                        f.write('    return locals()\n')
                        if scn['args'] == 1: kw['define_args'] = {'extra': 2}
                        elif scn['args'] == 2: kw['define_args'] = 'extra: 2, more: {a: 1}'
                        elif scn['args'] == 3: kw['define_args'] = (2, 'x')
                if over and scn['cli']:
                    kw.pop('override')
                    conf = ProblemConf.from_file_and_options(fn, opt, **kw)
                else:
                    conf = ProblemConf.from_file(fn, **kw)
                if way == 'define' and scn['args'] and conf.extra != 2: raise AssertionError('define() arguments')
            finally:
                USED.append((tmp, os.path.splitext(os.path.basename(fn))[0])) # Problem may import the file again.
        kept = (tree(root), tree(ovr)) == before and not keep
        return conf, left, kept
    finally:
        sbc.output = orig


def conf_event(scn, root, over):
    e = dict(op='conf', over=over, raised='', missing=[], kept=True, defs={}, options=[], junk=[], left=[])
    e['defs'] = {sec: [] for sec in SECTIONS}
    try:
        conf, left, e['kept'] = make(scn, root, over)
    except ValueError as exc:
        msg = str(exc)
        e['raised'] = 'missing' if 'required missing' in msg else type(exc).__name__
        if e['raised'] == 'missing': e['missing'] = [r['name'] for r in scn['required'] if r['pattern'] in msg]
        return e, None
    except Exception as exc:
        e['raised'] = type(exc).__name__
        e['message'] = str(exc)[:200]
        return e, None
    e.update(observe(conf))
    e['junk'] = [[k, tree(getattr(conf, k))] if hasattr(conf, k) else [k, tree('lost')] for k in scn['junk']]
    e['left'] = sorted({k for a in left for k in a[1] if k in scn['unknown']})
    return e, conf


def run_conf(scn):
    root = value(scn['root'])
    ev = []
    e, conf = conf_event(scn, root, True)
    ev.append(e)
    if conf is not None:
        e2, _ = conf_event(scn, root, False) # The same data without the override.
        ev.append(e2)
        if scn['way'] == 'dict' and scn['pickle']:
            conf.funmod = None
            e3 = dict(op='pickle', over=True)
            e3.update(observe(pickle.loads(pickle.dumps(conf))))
            ev.append(e3)
        pb = object.__new__(Problem)
        pb.conf = conf
        try:
            Problem.set_conf_solvers(pb, conf.solvers, conf.options)
            ev.append(dict(op='choose', ls=pb.ls_conf.name if pb.ls_conf is not None else '', nls=pb.nls_conf.name if pb.nls_conf is not None else '', ts=pb.ts_conf.name))
        except Exception as exc:
            ev.append(dict(op='choose', ls='raised %s' % type(exc).__name__, nls='', ts=''))
        for sec, q in zip(scn['edit']['keys'], scn['edit']['kids']):
            raw = value(q)
            before = tree(raw)
            conf.edit(sec, raw)
            ev.append(dict(op='edit', sec=sec, defs=defs_of(getattr(conf, sec)), kept=tree(raw) == before))
    return dict(ev=ev)


def run_solve(scn):
    root = value(scn['root'])
    e = dict(op='solve', raised='', values=[], kept=True)
    ovr = [value(q) for q in scn['overrides']]
    before = tree(root), [tree(q) for q in ovr]
    try:
        conf, left, kept = make(scn, root, True, verbose=False)
        pb = Problem.from_conf(conf)
        with tempfile.TemporaryDirectory(prefix='vconf') as d:
            pb.setup_output(output_filename_trunk='x', output_dir=d)
            state = pb.solve(save_results=False)
        u = state()
        x = pb.get_variables()['u'].field.get_coor()[:, 0]
        vals = []
        for k in range(5):
            w = state.get_state_parts()['u'][nm.abs(x - k / 4.0) < 1e-10]
            r = int(round(w[0]))
            vals.append(r if nm.abs(w - r).max() < 1e-6 and len(w) >= 3 else -99999)
        e['values'] = vals
        e['kept'] = kept and (tree(root), [tree(q) for q in ovr]) == before
    except Exception as exc:
        e['raised'] = type(exc).__name__
        e['message'] = str(exc)[:300]
    return dict(ev=[e])


def run_string(scn):
    e = dict(op='string', raised='', tree=tree({}))
    try:
        e['tree'] = tree(dict_from_string(scn['text']))
    except Exception as exc:
        e['raised'] = type(exc).__name__
    return dict(ev=[e])


def run_params(scn):
    from sfepy.solvers import solver_table
    from sfepy.solvers.solvers import Solver
    conf = value(scn['conf'])
    kwargs = value(scn['kwargs'])
    class Demo(Solver):
        name = 'xx.demo'
        _parameters = [(p['name'], 'any', value(p['default']), p['required'], 'doc') for p in scn['params']]
    e = dict(op='params', missing=False, values=[], kept=True)
    given = Struct(**conf) if scn['struct'] else conf
    before = tree(conf), tree(kwargs), tree(given)
    try:
        s = Demo(given, **kwargs)
        e['values'] = [tree(s.conf.get(p['name'], 'lost')) for p in scn['params']]
    except ValueError:
        e['missing'] = True
    e['kept'] = (tree(conf), tree(kwargs), tree(given)) == before
    return dict(ev=[e])


def run(scn):
    try:
        return dict(conf=run_conf, solve=run_solve, string=run_string, params=run_params)[scn['kind']](scn)
    finally:
        while USED:
            tmp, name = USED.pop()
            shutil.rmtree(tmp, ignore_errors=True)
            sys.modules.pop(name, None)
