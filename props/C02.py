"""Order of dependent items (spec/Deps.tla)."""
import random

RNAMES = ['A', 'B', 'AB', 'A_1', 'Omega', 'r', 'rA', 'x.y', 'a-b', 'R2', '_q',
          'outer', 'B.', 'all2', 'cell', 'copy']
CNAMES = ['a', 'b', 'corrs', 'pis', 'A', 'B', 'c', 'c_d', 'cB', 'vol.x', 'D']


def region_event(rng, h):
    names = rng.sample(RNAMES, len(h) + 1)
    items = []
    for d in h:
        it = dict(n=names[d['x'] - 1], d=[names[k - 1] for k in d['d']],
                  own=[d['x']], form=rng.choice(['group', 'group', 'id']),
                  at=rng.randrange(4), op=rng.choice(['+v', '+v', '+vx']),
                  par=rng.random() < 0.3, long=rng.random() < 0.3, leaf=0)
        it['op'] = '+v'
        rng.shuffle(it['d'])
        u = list(it['d'])
        if u and rng.random() < 0.25:
            it['parent'] = u[-1]
            u = u[:-1]
        if u and rng.random() < 0.2 and not it.get('parent'):
            u = u + [rng.choice(u)] # Repeated reference.
        elif len(u) == 1 and rng.random() < 0.3 and not it.get('parent'):
            it.update(form='from', own=[], leaf=rng.randrange(9), long=False)
        elif len(u) > 1 and rng.random() < 0.3:
            it['own'] = []
        it['u'] = u
        items.append(it)
    if rng.random() < 0.06: # A repeated name.
        it = dict(items[0], long=not items[0]['long'])
        if it['form'] != 'from':
            items.insert(rng.randrange(1, len(items) + 1), it)
    return dict(op='regions', items=items)


def req_event(rng, h):
    names = rng.sample(CNAMES, len(h) + 1)
    nm = []
    for k, n in enumerate(names):
        if rng.random() < 0.45: n = 'c.' + n
        nm.append(n)
    if len(h) > 1 and rng.random() < 0.3: # A coefficient and a requirement of the same name.
        i, j = rng.sample(range(len(h)), 2)
        nm[i], nm[j] = names[i], 'c.' + names[i]
    if not any(n.startswith('c.') for n in nm[:-1]):
        nm[0] = 'c.' + names[0]
    items = []
    for d in h:
        dd = [nm[k - 1] for k in d['d']]
        rng.shuffle(dd)
        if dd and rng.random() < 0.1: dd.append(dd[0])
        items.append(dict(n=nm[d['x'] - 1], d=dd, key=rng.random() < 0.5))
    coefs = [it['n'] for it in items if it['n'].startswith('c.')]
    al = rng.random() < 0.5
    need = coefs if al else rng.sample(coefs, rng.randint(1, len(coefs)))
    return dict(op='reqs', items=items, need=need, all=al,
                multi=rng.random() < 0.5)


def block_event(rng, h):
    names = ['u', 'v', 'p', 'T', 'phi', 'q', 'zz']
    rng.shuffle(names)
    items = []
    for d in h:
        dd = sorted(set([names[k - 1] for k in d['d']]
                        + ([names[d['x'] - 1]] if rng.random() < 0.9 else [])))
        items.append(dict(n=names[d['x'] - 1], d=dd))
    return dict(op='blocks', items=items)


def run(ctx):
    ctx.model('DepsMC', 'DepsMC.cfg')
    if not ctx.quick:
        ctx.model('DepsMC', 'DepsMC4.cfg')
    beh = ctx.behaviours('DepsMC', 'DepsSim.cfg', num=ctx.pick(400, 4000),
                         depth=8)
    rng = random.Random(ctx.seed + 2)
    scns = []
    for h in beh:
        h = h[:rng.randint(1, len(h))] if rng.random() < 0.2 else h
        # Names not declared after shortening become undefined references.
        h2 = [dict(x=d['x'], d=list(d['d'])) for d in h]
        ev = []
        for f in (region_event, req_event, block_event):
            hh = pad(h2)
            ev.append(f(rng, hh))
            # The same items declared in other orders.
            e = ev[-1]
            its = list(e['items'])
            rng.shuffle(its)
            ev.append(dict(e, items=its))
        scns.append(dict(ev=ev))
    traces = ctx.drive('deps', scns)
    n = {}
    for t in traces:
        for e in t.get('ev', []):
            k = e['op'] + (' accepted' if e['ok'] else ' refused')
            n[k] = n.get(k, 0) + 1
    ctx.info['outcomes'] = n
    ctx.validate('DepsTrace', traces, scns, driver='deps')


def pad(h):
    """Renumber the items to 1..n, n+1 for undefined ones."""
    mp = {d['x']: k + 1 for k, d in enumerate(h)}
    return [dict(x=mp[d['x']], d=sorted(set(mp.get(y, len(h) + 1)
                                            for y in d['d']))) for d in h]
