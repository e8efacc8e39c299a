"""Nonlinear solvers stop truthfully (spec/Newton.tla)."""
import random

from props.C19 import mul


def script(h, rng):
    c = dict(i_max=h[0] % 6, eps_a=[0, 0, 5, 10, 25][h[1] % 5], eps_r=[[1, 1], [1, 1], [1, 2], [1, 8]][h[2] % 4], any=h[3] % 3 == 0,
             ls_on=[[1, 1], [1, 1], [1, 2], [3, 4], [2, 1]][h[4] % 5], ls_red=[2, 2, 4][h[5] % 3], ls_red_warp=[8, 8, 2][h[6] % 3],
             ls_min=[1, 2, 4, 8, 8][h[7] % 5], step_red=[1, 1, 2][h[8] % 3], give_up=h[9] % 4 == 0,
             mode=['residual', 'residual', 'error'][h[10] % 3], linear=h[11] % 6 == 0, hook=h[12] % 3 == 0, usejac=h[13] % 3 == 0)
    if c['mode'] == 'error': c['step_red'] = 1
    s = dict(kind='script', c=c, calls=1 + h[14] % 2, x0=[[rng.randint(-3, 3) for _ in range(2)] for _ in range(2)],
             report=h[15] % 5 == 0, lin_red=[-1, 0, 1][h[16] % 3], prec=[-1, -1, 256, 64, 1][h[17] % 5],
             tol=[[-1, -1], [1, 1], [4096, 64], [-1, 128], [2048, -1], [-1, 16]][h[18] % 6], scale=h[19] % 5 == 0, scaled_error=h[20] % 2 == 0,
             mode_given=h[21] % 2 == 0, late=rng.sample(['fun', 'fun_grad', 'lin_solver', 'status', 'iter_hook'], rng.choice([0, 0, 1, 2, 5])))
    p_fail = rng.choice([0, 0, 0.15, 0.4])
    p_inf = rng.choice([0, 0, 0, 0.05])
    norms = rng.choice([[0, 1, 2, 4, 8], [1, 2, 3, 4, 5, 6, 8], [1, 2, 4, 8, 16, 32]])
    down = rng.random() < 0.4

    def vec(m):
        a, b = rng.choice([(3, 4), (4, 3), (-3, 4), (4, -3), (0, 5), (-5, 0)])
        return [a * m, b * m]
    funs, m = [], rng.choice(norms) * (4 if down else 1)
    for k in range(40):
        u = rng.random()
        if u < p_fail and (k > 0 or rng.random() < 0.2): funs.append([-1, 0])
        elif u < p_fail + p_inf: funs.append([-2, rng.randrange(3)])
        else:
            if down: m = max(0, m - rng.choice([0, 1, 1, 2, m // 2]))
            else: m = rng.choice(norms)
            funs.append([5 * m] + vec(m))
    s['script'] = dict(fun=funs, lin=[[vec(rng.choice([0, 1, 2, 3, 4, 8])), rng.choice([0, 1, 3, -1] if h[22] % 4 == 0 else [0, 1, 5])] for _ in range(30)],
                       new=[rng.random() < 0.4 for _ in range(20)])
    # The value passed as the first item is for failures only.
    for f in funs:
        if len(f) == 3: f[0] = 0
    return s


def unit(rng, n, lo):
    return [[1 if i == j else rng.choice([0, 1, -1]) if (i > j) == lo else 0 for j in range(n)] for i in range(n)]


def linear(h, rng):
    n = rng.choice([1, 2, 3, 4])
    a = mul(unit(rng, n, True), mul([[rng.choice([1, 2, 3]) if i == j else 0 for j in range(n)] for i in range(n)], unit(rng, n, False)))
    x = [rng.randint(-4, 4) for _ in range(n)]
    b = [sum(p * q for p, q in zip(r, x)) for r in a]
    x0 = x if rng.random() < 0.1 else [rng.randint(-4, 4) for _ in range(n)] if rng.random() < 0.5 else [0] * n
    return dict(kind='linear', a=a, b=b, x=x, x0=x0, i_max=rng.choice([1, 1, 2, 5]), linear=rng.random() < 0.3,
                mode=rng.choice(['residual', 'residual', 'error']))


def nonlinear(h, rng, n):
    a = mul(unit(rng, n, True), mul([[rng.choice([2, 3, 5]) if i == j else 0 for j in range(n)] for i in range(n)], unit(rng, n, False)))
    q = [rng.choice([0, 0, 1, -1, 2]) for _ in range(n)]
    x = [rng.randint(-2, 2) for _ in range(n)]
    b = [sum(u * v for u, v in zip(r, x)) + k * v * v for r, k, v in zip(a, q, x)]
    return dict(a=a, b=b, q=q, x0=[rng.randint(-3, 3) for _ in range(n)])


def root(h, rng):
    s = nonlinear(h, rng, rng.choice([1, 2, 3]))
    method = rng.choice(['hybr', 'lm', 'broyden1', 'broyden2', 'anderson', 'linearmixing', 'diagbroyden', 'krylov', 'df-sane'])
    opts = {}
    if rng.random() < 0.6:
        if method in ('hybr',): opts = dict(maxfev=rng.choice([3, 20]))
        elif method == 'lm': opts = dict(maxiter=rng.choice([3, 30]))
        elif method == 'df-sane': opts = dict(maxfev=rng.choice([5, 200]))
        else: opts = dict(maxiter=rng.choice([1, 5, 20]))
    elif method not in ('hybr', 'lm', 'df-sane'): opts = dict(maxiter=60)
    jac = method in ('hybr', 'lm') and rng.random() < 0.5
    s.update(kind='root', method=method, jac=jac, options=opts, tol=rng.random() < 0.5, report=rng.random() < 0.3, status=rng.random() < 0.8)
    return s


def semi(h, rng):
    n = rng.choice([2, 3, 4])
    ns = rng.randint(1, n - 1)
    s = nonlinear(h, rng, n)
    easy = rng.random() < 0.2
    row = lambda: [rng.choice([0, 1, 1, -1, 2]) for _ in range(n)]
    s.update(kind='semi', ns=ns, semi=rng.random() < 0.6, i_max=rng.choice([0, 1, 3, 8]), eps_r=rng.choice([1024, 1024, 128, 4]), half=rng.random() < 0.3,
             ls_min=rng.choice([1, 64, 512]), ma=[row() for _ in range(ns)], mb=[row() for _ in range(ns)], easy=False,
             ca=[rng.randint(-3, 3) for _ in range(ns)], cb=[rng.randint(-3, 3) for _ in range(ns)],
             fail=sorted(rng.sample(range(2, 14), rng.choice([1, 3]))) if rng.random() < 0.35 else [])
    if easy: # A linear problem with a fixed active set: y_i - c >= 0 against y_i >= -100.
        s['q'] = [0] * n
        s['ma'] = [[int(j == n - ns + i) for j in range(n)] for i in range(ns)]
        s['mb'] = [list(r) for r in s['ma']]
        s['ca'], s['cb'] = [rng.randint(-3, 3) for _ in range(ns)], [-100] * ns
        if rng.random() < 0.5:
            s['ma'], s['mb'], s['ca'], s['cb'] = s['mb'], s['ma'], s['cb'], s['ca']
        for i in range(n - ns): # Nonsingular.
            s['a'][i] = [5 if i == j else rng.choice([0, 1]) if j >= n - ns else 0 for j in range(n)]
        s.update(semi=False, easy=True, i_max=rng.choice([1, 3]), fail=[], eps_r=1024)
    return s


def run(ctx):
    ctx.model('NewtonMC', ctx.pick('NewtonMC.cfg', 'NewtonMC2.cfg'))
    rng = random.Random(ctx.seed + 18)
    hs = ctx.behaviours('NewtonMC', 'NewtonSim.cfg', depth=33, num=ctx.pick(1500, 15000), seed=ctx.seed + 18)
    hs = [h if isinstance(h[0], int) else [int(v) for v in h] for h in hs]
    scns = [script(h, rng) for h in hs]
    for make, num in ((linear, ctx.pick(120, 1000)), (root, ctx.pick(250, 2500)), (semi, ctx.pick(500, 5000))):
        scns += [make(h, rng) for h in hs[:num]]
    traces = ctx.drive('newton', scns)
    for s, t in zip(scns, traces):
        keys = dict(script=('kind', 'c', 'x0', 'scale', 'prec', 'tol'), linear=('kind', 'mode', 'x'), root=('kind',),
                    semi=('kind', 'fail', 'eps_r', 'i_max', 'easy'))[s['kind']]
        t['scn'] = {k: s[k] for k in keys}
    ctx.info['kinds'] = {k: sum(s['kind'] == k for s in scns) for k in ('script', 'linear', 'root', 'semi')}
    ends = [e for t in traces for e in t.get('ev', []) if e['op'] == 'end']
    ctx.info['conditions'] = {str(c): sum(e['cond'] == c and not e['raised'] for e in ends) for c in (0, 1, 2)}
    ctx.info['raised'] = sum(e['raised'] != '' for e in ends)
    ctx.info['semi converged'] = sum(e['cond'] == 0 for t in traces for e in t.get('ev', []) if e['op'] == 'semi')
    ctx.validate('NewtonTrace', traces, scns, driver='newton')
