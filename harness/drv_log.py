"""Logs written and read back (spec/LogFile.tla)."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as nm
from sfepy.base.base import Output, goptions
from sfepy.base.log import Log, read_log, write_log

NAN, INF = 10 ** 6, 10 ** 6 + 1


def value(v, kind):
    """v: (quarters of) the real and imaginary parts."""
    if kind == 'nan': return nm.nan
    if kind == 'inf': return -nm.inf if v[0] < 0 else nm.inf
    if kind == 'int': return v[0] // 4
    x = v[0] / 4
    return {'float': float, 'np': nm.float64, 'complex': lambda q: complex(q, v[1] / 4), 'npc': lambda q: nm.complex128(complex(q, v[1] / 4)),
            'arr': lambda q: nm.array([q]), 'arr0': lambda q: nm.array(q)}[kind](x)


def code(y):
    def one(v):
        if nm.isnan(v): return NAN
        if nm.isinf(v): return INF if v > 0 else -INF
        w = float(v) * 4
        return int(w) if w == round(w) and abs(w) < 10 ** 6 else 7 * 10 ** 6
    return [one(nm.real(y)), one(nm.imag(y))] if not nm.isnan(y) else [NAN, 0]


def contents(log, info):
    n = max(list(log.keys()) + [-1]) + 1
    curves = []
    for k in range(n):
        xs, ys, vs = log.get(k, ([], [], []))
        curves.append(dict(xs=[code(x)[0] for x in xs], ys=[code(y) for y in ys], vs=[code(v)[0] for v in vs]))
    gs = [dict(xlabel=info[g][0], ylabel=info[g][1], yscale=info[g][2], names=list(info[g][3]),
               kw=[repr(sorted(k.items())) for k in info[g][4]] if len(info[g][3]) else []) for g in sorted(info)]
    return dict(curves=curves, groups=gs)


def perform(scn, fn, ops, ev, read):
    quiet = scn['quiet']
    none = lambda v: None if v == '@none' else v
    gs = scn['groups']
    kw = [g['kw'] if g['kwlist'] else (g['kw'][0] if g['kw'] else {}) for g in gs]
    late = scn['late']
    args = dict(plot_kwargs=kw[:late], xlabels=[none(g['xlabel']) for g in gs[:late]], ylabels=[none(g['ylabel']) for g in gs[:late]],
                yscales=[g['yscale'] for g in gs[:late]], formats=[g['formats'] for g in gs[:late]], is_plot=False, log_filename=fn)
    names = [g['names'] for g in gs[:late]]
    log = Log.from_conf(args, names) if scn['conf'] else Log(names, **args)
    nadd = late
    for o in ops:
        e = dict(op=o['op'], raised='')
        with contextlib.redirect_stdout(io.StringIO()):
            old = goptions['verbose']
            goptions['verbose'] = not quiet
            try:
                if o['op'] == 'log':
                    k = {}
                    if o['usex']: k['x'] = [None if not x else (nm.float64(x[0] / 4) if scn['npx'] else x[0] / 4 if x[0] % 4 else x[0] // 4) for x in o['x']]
                    if not o['full']: k['igs'] = [g - 1 for g in o['igs']]
                    log(*[value(v, kd) for v, kd in o['ys']], **k)
                elif o['op'] == 'bad':
                    a = [value(v, kd) for v, kd in o['ys']]
                    if o['how'] == 'array': a[-1] = nm.array([1.0, 2.0])
                    elif o['how'] == 'less': a = a[:-1]
                    else: a = a + [1.0]
                    log(*a)
                elif o['op'] == 'vline':
                    if o['full']: log.plot_vlines(color='r')
                    else: log.plot_vlines([g - 1 for g in o['igs']])
                elif o['op'] == 'add':
                    g = gs[nadd]
                    log.add_group(g['names'], kw[nadd], g['yscale'], none(g['xlabel']), none(g['ylabel']), g['formats'])
                    nadd += 1
                elif o['op'] == 'close': log(finished=True)
                elif o['op'] == 'save': log(save_figure='nothing.png')
            except (IndexError, ValueError) as exc:
                e['raised'] = type(exc).__name__
            finally:
                goptions['verbose'] = old
        if o['op'] == 'read': e['got'] = read()
        ev.append(e)


def run(scn):
    tmp = tempfile.mkdtemp(prefix='vlog')
    try:
        fn = os.path.join(tmp, 'd', 'log.txt')
        if scn['stale']:
            os.makedirs(os.path.dirname(fn))
            with open(fn, 'w') as fd: fd.write('0: 100: 3.0\n')
        def read(): return contents(*read_log(fn))
        ev = []
        if scn['crash'] >= 0:
            # The writer dies after some operations.
            ops = [o for o in scn['ops'][:scn['crash']] if o['op'] != 'read']
            pid = os.fork()
            if pid == 0:
                try:
                    perform(scn, fn, ops, [], None)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            ev = [dict(op=o['op'], raised='?') for o in ops]
        else:
            perform(scn, fn, scn['ops'], ev, read)
        ev.append(dict(op='read', raised='', got=read()))
        # Rewrite what was read.
        log, info = read_log(fn)
        fn2 = os.path.join(tmp, 'log2.txt')
        write_log(Output('', filename=fn2), log, info)
        ev.append(dict(op='rewritten', raised='', got=contents(*read_log(fn2))))
        return dict(ev=ev)
    finally:
        shutil.rmtree(tmp)
