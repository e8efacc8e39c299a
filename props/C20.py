"""Forms of problem descriptions are equivalent and combine by precedence (spec/ProblemConf.tla)."""
import copy
import random

SECS = ['regions', 'fields', 'variables', 'ebcs', 'epbcs', 'lcbcs', 'ics', 'integrals', 'materials', 'solvers', 'functions']


def A(v):
    if isinstance(v, complex): v = complex(v.real + 0.0, v.imag + 0.0)
    return dict(k='a', v=repr(v), n=v if type(v) is int else 0, keys=[], kids=[])


def S(src): # Source text.
    return dict(k='a', v=src, n=0, keys=[], kids=[])


def D(pairs):
    pairs = list(pairs)
    return dict(k='d', v='', n=0, keys=[k for k, q in pairs], kids=[q for k, q in pairs])


def T(kids): return dict(k='t', v='', n=0, keys=[], kids=list(kids))


def attrs_of(sec, rng):
    """Attributes in the order of the short syntax, optional ones may be left out from the end."""
    c = rng.choice
    reg = lambda: A(c(['Omega', 'Left', 'Right', 'A_1']))
    dofs = lambda: D([(c(['u.all', 'u.0', 'p.0']), c([A(0.0), A(1.5), A('fun_a'), A(3), S('fun_a')]))] + ([('p.[0,1]', A(2))] if rng.random() < 0.3 else []))
    times = lambda: [('times', c([S('[(0.0, 1.0)]'), A('fun_a'), S('fun_b'), S('[(0.5, 1.0), (2.3, 5)]')]))] if rng.random() < 0.4 else []
    if sec == 'regions': return [('select', A(c(['all', 'vertices in (x < 0.1)', 'r.Left +v r.Right']))), ('kind', A(c(['facet', 'cell', 'vertex']))),
                                 ('parent', c([A('Omega'), A(None)])), ('extra_options', D([('mirror_region', A('B'))]))][:c([1, 1, 2, 2, 3, 4])]
    if sec == 'fields': return [('dtype', c([A('real'), A('complex'), S('nm.float64'), S('nm.complex128')])), ('shape', c([A(1), A((2,)) if 0 else S('(2,)') if 0 else A('vector'), A('scalar'), T([A(2)])])),
                                ('region', reg()), ('approx_order', c([A(1), A('1B'), A(2)])), ('space', A(c(['H1', 'L2']))), ('poly_space_basis', A(c(['lagrange', 'lobatto'])))][:c([4, 4, 5, 6])]
    if sec == 'variables':
        kind = c(['unknown', 'test', 'parameter'])
        out = [('kind', A(kind + ' field')), ('field', A(c(['f', 'g'])))]
        if rng.random() < 0.15: return out
        out.append(dict(unknown=('order', A(c([0, 1, 2]))), test=('dual', A(c(['u', 'p']))), parameter=('like', c([A('u'), A(None)])))[kind])
        if kind == 'parameter' and rng.random() < 0.3: out[-1] = ('special', D([('setter', A('fun_a'))]))
        if rng.random() < 0.3: out.append(('history', A(c([0, 1, 2]))))
        return out
    if sec in ('ebcs', 'ics'): return [('region', reg())] + times() + [('dofs', dofs())]
    if sec == 'epbcs': return [('region', T([reg(), reg()]))] + times() + [('dofs', D([('u.all', A('u.all'))])), ('match', A(c(['match_x', 'match_y'])))]
    if sec == 'lcbcs': return [('region', c([reg(), T([reg(), reg()])]))] + times() + [('dofs', D([('u.all', c([A(None), A('u2.all')]))])), ('dof_map_fun', c([A(None), A('match_y')])), ('kind', A(c(['rigid', 'match_dofs']))),
                                ('arguments', T([A('fun_a'), A(3)][:c([0, 0, 1, 2])]))]
    if sec == 'integrals': return [('order', A(c([1, 2, 3])))] if rng.random() < 0.7 else [('order', A('custom')), ('vals', S('[[0.25, 0.5], [0.5, 0.5]]')), ('weights', S('[0.5, 0.5]'))]
    if sec == 'materials':
        vals = D([('c', c([A(1.0), A(2), D([('Omega', A(1.0)), ('Left', A(2.0))]), S('[[1.0, 2.0]]')])), ('.flag', c([A('x'), A(None)]))][:c([1, 2])])
        return [('values', vals), ('function', c([A(None), A('fun_a'), S('fun_a')])), ('kind', A(c(['stationary', 'time-dependent']))), ('flags', D([('special_constant', A(True))]))][:c([1, 1, 2, 3, 4])]
    if sec == 'solvers': return [('kind', A(c(['ls.scipy_direct', 'ls.scipy_iterative', 'nls.newton', 'ts.simple', 'ts.adaptive', 'nls.scipy_root', 'tsc.fixed', 'eig.scipy'])))] + \
            [(k, c([A(1), A(1e-10), A(None), A('x'), D([('a', A(1))]), T([A(1), A(2)])])) for k in rng.sample(['i_max', 'eps_a', 'method', 'is_linear', 't1'], c([0, 1, 2, 3]))]
    if sec == 'functions': return [('function', S(c(['fun_a', 'fun_b'])))]


def short(sec, attrs, rng):
    d = [q for k, q in attrs]
    if sec == 'regions' and len(d) == 1 and rng.random() < 0.7: return d[0]
    if sec == 'integrals': return (d[0] if rng.random() < 0.7 else T([A('v'), d[0]])) if len(d) == 1 else T(d)
    if sec == 'materials' and len(d) == 2 and d[1]['v'] == "'fun_a'" and rng.random() < 0.7: return d[1]
    if sec == 'lcbcs': return T(d[:-1] + d[-1]['kids'])
    if sec == 'solvers': return T([d[0], D(attrs[1:])])
    return T(d)


def long_(sec, name, attrs, rng):
    a = list(attrs)
    if sec == 'fields' and rng.random() < 0.2: a = a[1:]
    if sec == 'lcbcs':
        if not a[-1][1]['kids'] and rng.random() < 0.5: a = a[:-1]
        a = [(k, q) for k, q in a if not (k == 'dof_map_fun' and q['v'] == 'None' and rng.random() < 0.5)]
    a = [('name', A(name))] + a
    if rng.random() < 0.3: rng.shuffle(a)
    return D(a)


NAMES = dict(integrals=['i', 'i1', 'ia'], solvers=['ls', 'nls', 'ts', 'newton', 'direct', 'x1'], functions=['fun_a', 'fun_b', 'h'])


def describe(h, rng):
    """A description, the sections of its long definitions."""
    root, secs = {}, []
    junk, numbers = [], {}
    for e in h:
        sec = (SECS + ['ebcs', 'regions', 'solvers', 'materials', 'solvers'])[e['sec']]
        names = NAMES.get(sec, ['a', 'b', 'u', 'A_1', 'x2', 'Omega'])
        name = rng.choice(names)
        attrs = attrs_of(sec, rng)
        shorts = [d['keys'][0] for d in root.get(sec, [])]
        used = {q[0] for q in root.get(sec, [])} if isinstance(root.get(sec), list) else set()
        if e['long']:
            prefix = sec[:-1]
            key = '%s_%d' % (prefix, rng.choice([0, 1, 2, 3, 10, 21]))
            if key in root or name in {q for s, q in numbers.get(sec, set()) if s == 'short'}: continue
            root[key] = long_(sec, name, attrs, rng)
            numbers.setdefault(sec, set()).add(('long', name))
            secs.append([key, sec])
        else:
            if name in {q for s, q in numbers.get(sec, set())}: continue
            lst = root.setdefault(sec + '*', [])
            numbers.setdefault(sec, set()).add(('short', name))
            lst.append((name, short(sec, attrs, rng) if rng.random() < 0.92 else long_(sec, name, attrs, rng)))
    out = []
    for k, q in root.items(): out.append((k[:-1], D(q)) if k.endswith('*') else (k, q))
    return out, secs


def complete(pairs, rng, drop):
    """Add the required entries, possibly without some."""
    has = {k for k, q in pairs}
    groups = dict(filename=['filename_mesh'], fields=['fields', 'field_'], conds=['ebcs', 'ebc_', 'dgebc', 'dgepbc'], equations=['equations'], regions=['regions', 'region_'], variables=['variables', 'variable_'],
                  materials=['materials', 'material_'], solvers=['solvers', 'solver_'])
    for g, keys in groups.items():
        if any(k == keys[0] or any(k.startswith(p) and k[len(p):].isdigit() for p in keys[1:]) for k in has): continue
        if drop and rng.random() < 0.12: continue
        if g == 'filename': pairs.append(('filename_mesh', S('MESH')))
        elif g == 'equations': pairs.append(('equations', D([('eq', A('dw_laplace.i.Omega(v, u) = 0'))])))
        elif g == 'conds':
            pairs.append(('ebcs', D([('fix', T([A('Left'), D([('u.all', A(0.0))])]))])))
        else:
            sec = g
            pairs.append((sec, D([(NAMES.get(sec, ['z'])[0], short(sec, attrs_of(sec, rng), rng))])))
    return pairs


PATTERNS = [('filename', 'filename_mesh|', ['filename_mesh', 'filename_domain']), ('fields', 'field_', ['fields', 'field']), ('conds', 'ebc_', ['ebcs', 'dgebcs', 'dgepbcs', 'ebc', 'dgebc']), ('equations', "'equations'", ['equations']),
            ('regions', 'region_', ['regions', 'region']), ('variables', 'variable_', ['variables', 'variable']), ('materials', 'material_', ['materials', 'material']), ('solvers', 'solver_', ['solvers', 'solver'])]
KNOWN = [k for p in PATTERNS for k in p[2]] + ['epbcs', 'lcbcs', 'nbcs', 'ics', 'functions', 'options', 'integrals', 'epbc', 'lcbc', 'ic', 'function', 'integral', 'verbose']
JUNK = [('regions_old', D([('Omega', A('all'))])), ('my_ebcs', D([('a', A(1))])), ('dim_2d', A(2)), ('filename_mesh_orig', A('x.vtk')), ('x', A(1)), ('fieldsx', T([A(1)])), ('ebcs_a', D([])), ('solver', A('ls')), ('a_1b', A(3)), ('region_1_old', D([('name', A('Omega'))])),
        ('output', A('x')), ('coefs', D([('a', D([('b', A(1))]))]))]


def strings(tree, out):
    if tree['k'] == 'a':
        if tree['v'][:1] in '\'"': out.add(tree['v'])
    for q in tree['kids']: strings(q, out)


def finish(s):
    out = set()
    for k in ('root', 'edit'): strings(s[k], out)
    for q in s['overrides']: strings(q, out)
    strings(s['app'], out)
    s['strs'] = sorted([v, eval(v)] for v in out) + [['', '']]
    s['words'] = sorted([v, (eval(v).split() or [''])[0]] for v in out) + [['', '']]
    s['kinds'] = sorted([v, eval(v).split('.')[0]] for v in out) + [['', '']]
    keys = set(s['root']['keys']) | {k for q in s['overrides'] for k in q['keys']}
    def match(key, names): return any((key == n and n + 's' not in names) or (n + '_' == key[:len(n) + 1] and key[len(n) + 1:].isdigit() and n + 's' in names) for n in names)
    s['required'] = [dict(name=n, pattern=p, keys=sorted(k for k in keys if match(k, ns))) for n, p, ns in PATTERNS]
    s['unknown'] = sorted(k for k in keys if not match(k, KNOWN))
    s['junk'] = [k for k in s['unknown'] if k in s['root']['keys']]
    return s


def override(pairs, secs, rng, cli=False):
    """Changes of some of the entries."""
    out = []
    def change(t, depth):
        if t['k'] == 'd' and t['keys'] and rng.random() < 0.85:
            ks = rng.sample(range(len(t['keys'])), rng.randint(1, len(t['keys'])))
            new = [(t['keys'][j], change(t['kids'][j], depth + 1)) for j in ks if t['keys'][j] != 'name']
            if rng.random() < 0.2 and depth > 1: new.append(('new', A(rng.choice([1, 'a', None]))))
            return D(new)
        if t['k'] == 't' and t['kids']:
            return T([change(q, depth + 1) if rng.random() < 0.5 else copy.deepcopy(q) for q in t['kids']])
        if t['v'].startswith("'") or cli: return A(rng.choice(['Left', 'Right', 'all', 'fun_a', 'new value'])) if t['v'].startswith("'") else copy.deepcopy(t) if t['v'][:1] in '[nf' else A(rng.choice([0, 1, 2.5]))
        if t['v'][:1].isdigit(): return A(rng.choice([0, 1, 2, 2.5]))
        return copy.deepcopy(t)
    for k, q in pairs:
        if k in ('filename_mesh', 'equations') or rng.random() < 0.6: continue
        sec = k if k in SECS else dict(secs).get(k)
        if sec in ('solvers', 'variables', 'integrals', 'lcbcs', 'epbcs', 'ics', 'fields', 'functions') and q['k'] == 'd' and k in SECS:
            # Keep the kinds valid, change values inside of dictionaries.
            ks = [j for j in range(len(q['keys']))]
            new = []
            for j in ks:
                d = q['kids'][j]
                if rng.random() < 0.5 or d['k'] != 't': continue
                new.append((q['keys'][j], T([change(m, 3) if m['k'] == 'd' else copy.deepcopy(m) for m in d['kids']])))
            if rng.random() < 0.4:
                at = attrs_of(sec, rng)
                name = 'over'
                new.append((name, short(sec, at, rng)))
            if new: out.append((k, D(new)))
        elif sec in ('lcbcs', 'epbcs', 'solvers', 'variables'): continue
        elif sec == 'regions' and k in SECS:
            out.append((k, D([(n, change(d, 2)) for n, d in zip(q['keys'], q['kids']) if d['k'] == 'a' or d['k'] == 't'] + ([('Rnew', A('all'))] if rng.random() < 0.4 else []))))
        else: out.append((k, change(q, 1) if q['k'] == 'd' else copy.deepcopy(q)))
    if rng.random() < 0.3 and 'options' not in dict(out): out.append(('options', D([(k, rng.choice([A(1), A('ls'), D([('a', A(5)), ('c', A(None))])])) for k in rng.sample(['alpha', 'beta', 'gamma', 'delta'], 2)])))
    return out


def options(rng):
    out = [(k, rng.choice([A(1), A('x'), A(None), D([('a', A(1)), ('b', A(2))])])) for k in rng.sample(['alpha', 'beta', 'gamma'], rng.choice([0, 1, 2, 3]))]
    for kind, names in (('ls', ['ls', 'direct', 'x1']), ('nls', ['nls', 'newton', None, 'unknown']), ('ts', ['ts', 'x1', None, 'unknown'])):
        if rng.random() < 0.4: out.append((kind, A(rng.choice(names))))
    rng.shuffle(out)
    return out


def cli_text(t, rng, top=True):
    sp = lambda: rng.choice(['', '', ' '])
    if t['k'] == 'd':
        body = ','.join('%s%s%s%s%s%s' % (sp(), (k if k.isidentifier() and rng.random() < 0.7 and k.lower() not in ('none', 'true', 'false') and not k.startswith('_') and k.isascii() else rng.choice(['"%s"', "'%s'"]) % k), sp(), rng.choice(':='), sp(), cli_text(q, rng, False)) for k, q in zip(t['keys'], t['kids']))
        if t['keys'] and rng.random() < 0.2: body += ','
        return body if top else '{%s%s}' % (body, sp())
    if t['k'] == 't':
        return '(%s%s)' % (','.join(cli_text(q, rng, False) for q in t['kids']), rng.choice(['', ',']) if t['kids'] else '')
    v = eval(t['v'], {'nm': None})
    if isinstance(v, list): return '[%s]' % ', '.join(cli_text(A(q), rng, False) for q in v)
    if isinstance(v, str):
        if v.isidentifier() and v.isascii() and not v.startswith('_') and v.lower() not in ('none', 'true', 'false') and rng.random() < 0.6: return v
        return ("'%s'" if '"' in v else '"%s"') % v
    if v is None or isinstance(v, bool): return rng.choice([str(v), str(v), str(v).lower()])
    if isinstance(v, complex): return '%sj' % v.imag
    if isinstance(v, float) and rng.random() < 0.3 and v == v and abs(v) < 1e300: return '%.17e' % v
    return repr(v)


def rand_tree(rng, depth=0):
    r = rng.random()
    if depth == 0 or (depth < 4 and r < 0.25):
        keys = rng.sample(['a', 'b1', 'c_d', 'u.all', 'x y', 'None_', 'e', 'j', 'Trueish', 'a:b', 'i_max', '0'], rng.choice([0, 1, 2, 3] if depth else [1, 2, 3, 4]))
        return D([(k, rand_tree(rng, depth + 1)) for k in keys])
    if depth < 4 and r < 0.4: return T([rand_tree(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))])
    if r < 0.5: return S(repr([rng.choice([1, -2, 'a', None, 2.5, True]) for _ in range(rng.choice([0, 1, 2, 3]))]))
    return A(rng.choice([0, 1, -5, 12, 1.5, -2.5, 1e-10, 1e5, 0.0, 2.5e-3, True, False, None, 'abc', 'a b', '', 'x,y: {z}', "it's", 'u.0', 'None1', 'e5', 2j, -1.5j, 'true_x', '1', 'a=b', '(1, 2)']))


def physical(h, rng):
    """A problem with the solution a + s x in varied forms."""
    f = [e['long'] for e in h]
    w = [e['w'] for e in h]
    a, b, c, q = 4 * (w[0] % 7 - 3), 4 * (w[1] % 7 - 3), 1 + w[2] % 3, 0
    q = 4 * c * (w[3] % 5 - 2)
    flux = w[4] % 2 == 0
    defs = []
    sel = lambda s: A(s)
    defs.append(('regions', 'Omega', [('select', A('all'))]))
    defs.append(('regions', 'Left', [('select', A('vertices in (x < 0.1)')), ('kind', A('facet'))]))
    defs.append(('regions', 'Right', [('select', A('vertices in (x > 0.9)')), ('kind', A('facet'))]))
    defs.append(('fields', 'f', [('dtype', A('real')), ('shape', rng.choice([A(1), A('scalar'), T([A(1)])])), ('region', A('Omega')), ('approx_order', A(rng.choice([1, 1, 2])))] + ([('space', A('H1')), ('poly_space_basis', A('lagrange'))] if rng.random() < 0.3 else [])))
    defs.append(('variables', 'u', [('kind', A('unknown field')), ('field', A('f')), ('order', A(0))]))
    defs.append(('variables', 'v', [('kind', A('test field')), ('field', A('f')), ('dual', A('u'))]))
    times = lambda on: rng.choice([[], [], [('times', S('[(0.0, 1.0)]'))]]) if on else [('times', S('[(5.0, 6.0)]'))]
    dn = lambda: rng.choice(['u.all', 'u.0'])
    defs.append(('ebcs', 'left', [('region', A('Left'))] + times(True) + [('dofs', D([(dn(), A(a))]))]))
    if not flux: defs.append(('ebcs', 'right', [('region', A('Right'))] + times(True) + [('dofs', D([(dn(), A(b))]))]))
    elif rng.random() < 0.5: defs.append(('ebcs', 'right', [('region', A('Right'))] + times(False) + [('dofs', D([(dn(), A(b))]))]))
    defs.append(('materials', 'm', [('values', D([('c', A(c))]))] + ([('function', A(None)), ('kind', A('stationary'))] if rng.random() < 0.3 else [])))
    defs.append(('materials', 'l', [('values', D([('q', A(q))]))]))
    defs.append(('integrals', 'i', [('order', A(2))]))
    defs.append(('solvers', 'ls', [('kind', A('ls.scipy_direct'))]))
    defs.append(('solvers', 'newton', [('kind', A('nls.newton')), ('i_max', A(2)), ('eps_a', A(1e-8))]))
    root, secs = {}, []
    for n, (sec, name, attrs) in enumerate(defs):
        if f[n % len(f)] != (w[n % len(w)] % 3 == 0):
            key = '%s_%d' % (sec[:-1], n)
            root[key] = long_(sec, name, attrs, rng)
            secs.append([key, sec])
        else: root.setdefault(sec + '*', []).append((name, short(sec, attrs, rng)))
    pairs = [(k[:-1], D(v)) if k.endswith('*') else (k, v) for k, v in root.items()]
    eq = 'dw_laplace.i.Omega(m.c, v, u) = dw_integrate.i.Right(l.q, v)'
    pairs += [('filename_mesh', S('MESH')), ('equations', D([('eq', A(eq))]))]
    if rng.random() < 0.5: pairs.append(('options', D(rng.sample([('nls', A('newton')), ('ls', A('ls')), ('save_times', A('all'))], 2))))
    rng.shuffle(pairs)
    # Changes of the values.
    over = []
    if rng.random() < 0.7:
        for k, d in pairs:
            sec = k if k in SECS else dict(map(tuple, secs)).get(k)
            items = list(zip(d['keys'], d['kids'])) if k in SECS else [(None, d)]
            new = []
            for name, q in items:
                if rng.random() < 0.4: continue
                z = copy.deepcopy(q)
                if sec == 'ebcs':
                    v = A(4 * rng.randint(-4, 4))
                    if z['k'] == 't':
                        z['kids'][-1]['kids'] = [v]
                        new.append((name, z))
                    else: new.append((name, D([('dofs', D([(z['kids'][z['keys'].index('dofs')]['keys'][0], v)]))])))
                elif sec == 'materials':
                    vals = z['kids'][0] if z['k'] == 't' else z['kids'][z['keys'].index('values')]
                    if vals['keys'] != ['q'] : continue
                    cur = [c]
                    v = D([('q', A(4 * c * rng.randint(-3, 3)))])
                    if z['k'] == 't':
                        z['kids'][0] = v
                        new.append((name, z))
                    else: new.append((name, D([('values', v)])))
            if not new: continue
            over.append((k, D(new)) if k in SECS else (k, new[0][1]))
    return pairs, secs, over


def run(ctx):
    ctx.model('ProblemConfMC', ctx.pick('ProblemConfMC.cfg', 'ProblemConfMC2.cfg'))
    rng = random.Random(ctx.seed + 20)
    hs = ctx.behaviours('ProblemConfMC', 'ProblemConfSim.cfg', depth=18, num=ctx.pick(420, 5000), seed=ctx.seed + 20)
    scns = []
    empty = D([])
    for n, h in enumerate(hs):
        way = rng.choice(['dict', 'dict', 'module', 'file', 'define'])
        base = dict(kind='conf', way=way, args=rng.choice([0, 0, 1, 2, 3]), cli=False, cli_conf='', cli_app='', struct=rng.random() < 0.2, pickle=rng.random() < 0.5, overrides=[], app=empty, edit=empty, secs=[['', '']], text='')
        if n % 3 == 0:
            pairs, secs, over = physical(h, rng)
            base.update(kind='solve', root=D(pairs), secs=secs + [['', '']], overrides=[D(over)])
            if rng.random() < 0.4:
                base['cli'] = True
                base['cli_conf'] = cli_text(D(over), rng)
        else:
            pairs, secs = describe(h[:rng.choice([3, 6, 10, 16])], rng)
            if rng.random() < 0.7: pairs.append(('options', D(options(rng))))
            pairs += rng.sample(JUNK, rng.choice([0, 0, 1, 2, 3]))
            pairs = complete(pairs, rng, rng.random() < 0.4)
            rng.shuffle(pairs)
            base.update(root=D(pairs), secs=[list(q) for q in secs] + [['', '']])
            r = rng.random()
            over = override(pairs, secs, rng)
            if r < 0.5: base['overrides'] = [D(over)]
            elif r < 0.75:
                text_ok = lambda t: (t['k'] != 'a' or (t['v'][:1] not in 'nf' and not t['v'].startswith('MESH'))) and all(text_ok(q) for q in t['kids'])
                over = [(k, q) for k, q in over if text_ok(q)]
                base.update(cli=True, overrides=[D(over)], cli_conf=cli_text(D(over), rng))
                if rng.random() < 0.5:
                    base['app'] = D(rng.sample([('alpha', A(7)), ('zeta', A('q')), ('beta', A(None)), ('eta', T([A(1)]))], 2))
                    base['cli_app'] = cli_text(base['app'], rng)
            if rng.random() < 0.3:
                sec = rng.choice(SECS)
                base['edit'] = D([(sec, D([(nm_, short(sec, attrs_of(sec, rng), rng) if rng.random() < 0.7 else long_(sec, nm_, attrs_of(sec, rng), rng)) for nm_ in ['e1', 'e2']]))])
        scns.append(finish(base))
    for _ in range(ctx.pick(250, 4000)):
        root = rand_tree(rng)
        scns.append(dict(kind='string', root=root, text=cli_text(root, rng)))
    for _ in range(ctx.pick(60, 600)):
        names = rng.sample(['aa', 'bb', 'cc', 'dd', 'verbose', 'i_max'], rng.choice([1, 2, 4]))
        vals = lambda: rng.choice([A(1), A(0), A(None), A('x'), A(False), T([]), D([('a', A(1))])])
        params = [dict(name=k, default=vals(), required=rng.random() < 0.25) for k in names]
        part = lambda p: D([(k, vals()) for k in names + ['extra'] if rng.random() < p])
        scns.append(dict(kind='params', params=params, conf=part(0.5), kwargs=part(0.3), struct=rng.random() < 0.5))
    traces = ctx.drive('conf', scns)
    for s, t in zip(scns, traces):
        t['scn'] = {k: v for k, v in s.items() if k not in ('cli_conf', 'cli_app', 'text')}
    ctx.info['solved problems'] = sum(e['op'] == 'solve' for t in traces for e in t.get('ev', []))
    ctx.info['missing reported'] = sum(e.get('raised') == 'missing' for t in traces for e in t.get('ev', []))
    ctx.validate('ProblemConfTrace', traces, scns, driver='conf')
