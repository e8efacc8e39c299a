"""Reused linear solvers never answer for an old matrix (spec/LinSolve.tla)."""
import random

METHODS = {'it': ['cg', 'cg', 'gmres', 'bicgstab', 'minres', 'lgmres', 'gcrotmk', 'bicg', 'qmr'],
           'amg': ['smoothed_aggregation_solver', 'ruge_stuben_solver'], 'amgk': ['cg', 'gmres', 'fgmres']}
SPD = {'cholesky', 'it', 'amg', 'amgk'}


def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def contents(rng, n, spd, cplx):
    """Regular integer matrices: positive definite, or with various (also nearly symmetric) patterns."""
    def unit(lo):
        return [[1 if i == j else rng.choice([0, 1, -1]) if (i > j) == lo else 0 for j in range(n)] for i in range(n)]
    def one():
        low = unit(True)
        d = [[rng.choice([1, 2, 3, 5]) if i == j else 0 for j in range(n)] for i in range(n)]
        up = [list(c) for c in zip(*low)] if spd else unit(False)
        return mul(mul(low, d), up)
    a = one()
    k = rng.choice([2, 3])
    out = [a, [[k * v for v in r] for r in a], one()]
    w = rng.randrange(6)
    if w == 0: out.append([[rng.randint(1, 4) * int(i == j) for j in range(n)] for i in range(n)]) # Diagonal.
    elif w == 1 and not spd: # The same off-diagonal data in different places.
        m = [[4 * int(i == j) for j in range(n)] for i in range(n)]
        m[0][1], m[n - 1][0] = 1, 1
        out.append(m)
    elif w in (4, 5) and not spd and n > 3: # The same data, at the same or different places.
        m, q = [[[4 * int(i == j) for j in range(n)] for i in range(n)] for _ in range(2)]
        for i in range(n - 2): m[i][i + 1], q[i][i + 2] = 1, 1
        out[1:2] = [m]
        out.append(q)
    elif w == 2: out.append([[v + (1 if i == j else 0) for j, v in enumerate(r)] for i, r in enumerate(a)])
    elif w in (3, 4): out.append(one())
    else: # A change of one entry.
        k = rng.choice([0, n - 1, n // 2])
        out.append([[v + int(i == j == k) for j, v in enumerate(r)] for i, r in enumerate(a)])
    out.append([[a[n - 1 - i][n - 1 - j] for j in range(n)] for i in range(n)])
    res = [[[[v, 0] for v in r] for r in m] for m in out]
    if cplx:
        for m in res[2:4]:
            for i in range(n):
                if spd: # Hermitian, with a diagonal shift.
                    for j in range(i): m[i][j][1], m[j][i][1] = 1, -1
                    m[i][i][0] += n
                else: m[i][i][1] = 3
    return res


def rhs(m, x):
    return [[sum(a * c - b * d for (a, b), (c, d) in zip(r, x)), sum(a * d + b * c for (a, b), (c, d) in zip(r, x))] for r in m]


EPS_R = {0: 1e-11, 200: 0.2, 20: 0.02}
EPS_A = {0: 1e-11, 3000: 3.0}


def real(d):
    fun = dict(eps_r=EPS_R.get, eps_a=EPS_A.get)
    return {k: fun.get(k, lambda v: v)(v) for k, v in d.items()}


def scenario(h, rng, kinds):
    kind = kinds[h[0]['w'] % len(kinds)]
    direct = kind not in ('it', 'amg', 'amgk')
    cplx = rng.random() < 0.25 and (direct or kind == 'it')
    n = rng.choice([3, 4, 4, 5])
    s = dict(kind=kind, make=rng.choice(['class', 'any', 'first', 'firstc']), jacobi=False)
    spd = kind in SPD
    if kind == 'amg': n = 4
    if not direct:
        s['method'] = rng.choice(METHODS[kind])
        if cplx: s['method'] = 'cg'
        s['jacobi'] = kind != 'amg' and rng.random() < 0.5
    pool = contents(rng, n, spd, cplx)
    if cplx and kind == 'amg': raise ValueError
    if direct: conf = dict(use_presolve=rng.random() < 0.75)
    else: conf = {}
    if direct: conf['use_mtx_digest'] = rng.random() < 0.75
    if not direct:
        loose = rng.random() < 0.3
        conf.update(eps_r=rng.choice([200, 20]) if loose else 0, i_max=rng.choice([1, 2, 60]) if rng.random() < 0.3 else 60)
        if kind == 'it': conf['eps_a'] = 3000 if loose and rng.random() < 0.5 else 0
    if kind == 'amg': conf['force_reuse'] = rng.random() < 0.15
    fmts = ['csr', 'csr', 'csr', 'csc', 'coo', 'csr_matrix', 'zeros', 'unsorted']
    if kind in ('amg', 'amgk'): fmts = ['csr', 'csr', 'csc', 'csr_matrix']
    s['fmts'] = [rng.choice(fmts) for _ in range(3)]
    s['pad'] = 0
    if kind in ('superlu', 'umfpack') and rng.random() < 0.15:
        s['pad'], s['fmts'] = rng.choice([99998, 199997]), [rng.choice(['csr', 'csr', 'csc']) for _ in range(3)]
        fmts = ['csr']
    s['start'] = [rng.randrange(3) + 1, rng.randrange(5) + 1, rng.randrange(5) + 1]
    s['default'] = rng.choice([0, 1])
    focus = direct and rng.random() < 0.5 # One object, with small changes.
    if focus:
        if s['pad']: pool[3] = [[[v[0] + int(i == j == n - 1), v[1]] for j, v in enumerate(r)] for i, r in enumerate(pool[0])]
        pair = [2, 4] if rng.random() < 0.4 and not s['pad'] else [1, 4]
        conf.update(use_presolve=True, use_mtx_digest=True)
        s['start'][0], s['fmts'][0] = pair[0], rng.choice(['csr', 'zeros'] if not s['pad'] else ['csr'])
    cur, ops = list(s['start']), []

    def options():
        if direct: o = dict(use_presolve=rng.random() < 0.7, use_mtx_digest=rng.random() < 0.7)
        elif kind == 'it': o = dict(eps_r=rng.choice([0, 0, 200, 20]), eps_a=rng.choice([0, 0, 3000]), i_max=rng.choice([1, 2, 60, 60]))
        else: o = dict(eps_r=rng.choice([0, 0, 200]), i_max=rng.choice([1, 2, 60, 60]))
        if kind == 'amg': o['force_reuse'] = rng.random() < 0.15
        return {k: v for k, v in o.items() if rng.random() < 0.6}
    for e in h:
        op, o, w = e['op'], e['o'], e['w']
        if focus and w % 4:
            o, e = 1, dict(e, c=pair[e['c'] % 2])
            if op == 12: op = 13
        if op == 12: ops.append(dict(op='clear'))
        elif op in (13, 14, 15, 16): ops.append(dict(op='change', obj=o, c=e['c']))
        elif op == 17: ops.append(dict(op='replace', obj=o, c=e['c'], fmt=rng.choice(fmts)))
        elif op in (10, 11):
            d = dict(op='presolve', obj=o, trust=False)
            if direct and rng.random() < 0.4: d.update(kw=dict(use_mtx_digest=False), trust=True)
            ops.append(d)
        else:
            if w % 2 == 0 and s['default']: o = s['default']
            call = options() if rng.random() < (0.1 if focus else 0.4) else {}
            args = {k: v for k, v in options().items() if k in ('eps_a', 'eps_r', 'i_max')} if not direct and rng.random() < 0.3 else {}
            x = [[rng.randint(-3, 3), rng.randint(-2, 2) if cplx and rng.random() < 0.5 else 0] for _ in range(n)]
            x[rng.randrange(n)][0] = rng.choice([1, 2])
            x0 = [] if rng.random() < 0.6 else [[rng.randint(-3, 3), 0] for _ in range(n)] if rng.random() < 0.7 else [list(v) for v in x]
            b = rhs(pool[cur[o - 1] - 1], x)
            if cplx and kind == 'it' : # The iterative solvers work in the type of the matrix and the right-hand side.
                pass
            ops.append(dict(op='solve', obj=o, b=b, nomtx=bool(s['default'] == o and w % 3 == 0), icall=dict(call, any=0), iargs=dict(args, any=0),
                            call=real(call), args=real(args), arg_cb=not direct and rng.random() < 0.3, x0=x0, status=not (not direct and w % 5 == 0) ))
        if op in (13, 14, 15, 16, 17): cur[o - 1] = e['c']
    if not any(o['op'] == 'solve' for o in ops): return None
    full = dict(use_presolve=False, use_mtx_digest=True) if direct else dict(eps_r=0, eps_a=0, i_max=60)
    s.update(pool=pool, ops=ops, iconf=dict(full, **conf), conf=real(conf))
    return s


def spec_side(s):
    keep = ('op', 'obj', 'c', 'b', 'icall', 'iargs', 'arg_cb', 'trust')
    r = {k: s[k] for k in ('pad', 'kind', 'iconf', 'pool', 'start')}
    r['method'] = s.get('method', '')
    r['ops'] = [{k: o[k] for k in keep if k in o} for o in s['ops']]
    return r


def run(ctx):
    ctx.model('LinSolveMC', 'LinSolveMC.cfg')
    ctx.model('LinSolveMC', 'LinSolveMC3.cfg')
    rng = random.Random(ctx.seed + 19)
    kinds = ['auto', 'superlu', 'umfpack', 'cholesky', 'mumps', 'mumpspy', 'it', 'it', 'it', 'amg', 'amgk', 'auto']
    hs = ctx.behaviours('LinSolveMC', 'LinSolveSim.cfg', depth=11, num=ctx.pick(900, 12000), seed=ctx.seed + 19)
    scns = [s for s in (scenario(h, rng, kinds) for h in hs) if s]
    traces = ctx.drive('linsolve', scns)
    for s, t in zip(scns, traces):
        if 'ev' in t: t['scn'] = spec_side(s)
    evs = [(s, e) for s, t in zip(scns, traces) for e in t.get('ev', []) if e['op'] == 'solve']
    ctx.info['solves'] = {k: sum(s['kind'] == k for s, e in evs) for k in sorted({s['kind'] for s, e in evs})}
    ctx.validate('LinSolveTrace', traces, scns, driver='linsolve')
