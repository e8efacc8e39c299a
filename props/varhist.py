"""Scenarios of operations on variables, common to C09 and C10."""
import random

DTS = [(1, 1), (1, 2), (1, 4), (2, 1)]
LAYOUTS = ['', '', 'cqgvd0', 'qcgvd0', 'gvdcq0', 'dcqgv0', 'c0qgvd', 'vqgdc0']
LAYOUTS = LAYOUTS[:2] + [x for x in LAYOUTS[2:] if x.index('d') > x.index('v')]


class W(object):
    """Which values are set - to generate meaningful operations."""
    def __init__(self, h):
        self.h, self.st, self.d = h, 0, [False]

    def init(self):
        if self.h >= 0: self.st, self.d = 0, [False] * (self.h + 1)

    def advance(self, ts):
        if self.h >= 0:
            self.st = ts + 1
            self.d = [self.d[0]] + [True] * self.h if len(self.d) > 1 else self.d

    def ok(self, s):
        if self.st == 0 and s == -1: s = 0
        return -s < len(self.d) and self.d[-s]

    def der(self, s):
        return self.h >= 0 and self.ok(s) and self.ok(s - 1)


def make(rng, kinds, aff):
    mesh = rng.choice(['tri1', 'tri2', 'tri2', 'quad']) if aff else rng.choice(['tri1', 'tri2'])
    nv = dict(tri1=3, tri2=5, quad=6)[mesh]
    hs = [-1, 0, 1, 1, 2, 2, 3]
    c = dict(mesh=mesh, aff=aff, reads=not aff, vars={})
    names = ['p', 's', 'u'] + (['q'] if rng.random() < 0.5 else [])
    for x in names:
        nc = 1 if x in 'pq' else (2 if x == 's' else rng.choice([1, 2]))
        order = 1 if not aff else rng.choice([1, 1, 2])
        if x == 'q': order = 1
        c['vars'][x] = dict(h=rng.choice(hs), state=x in 'pu', nc=nc, order=order, n=nv * nc)
    # The same approximation of the same components only.
    c['order'] = ['p', 'u']
    w = {x: W(c['vars'][x]['h']) for x in names}
    ops, ready, ts = [], False, 0

    def val(x, small=False):
        d = c['vars'][x]
        n = 3 * d['nc'] if aff else d['n']
        return [rng.randint(-9, 9) for _ in range(n)]

    def add(**kw): ops.append(kw)

    for x in names:
        if x in 'sq' and w[x].h >= 0 and rng.random() < 0.8:
            add(op='init_history', v=x); w[x].init()
    last = []
    for kind in kinds:
        if not ready and kind in ('set_state', 'fill', 'part', 'pokevec', 'advance', 'eval', 'poke'):
            if rng.random() < 0.7: kind = 'init_state'
        any_ = rng.choice(names)
        par = rng.choice([x for x in names if x in 'sq'])
        stv = rng.choice(['p', 'u'])
        if kind == 'init_state':
            vals = {x: val(x) for x in 'pu'} if rng.random() < 0.8 else {}
            add(op=kind, val=vals)
            for x in 'pu': w[x].init(); w[x].d[0] = True
            ready, ts = True, 0
        elif kind == 'set_state' and ready:
            add(op=rng.choice(['set_state', 'set_state', 'rset']), val={x: val(x) for x in 'pu'},
                form=rng.random() < 0.5)
        elif kind == 'fill' and ready:
            add(op='fill', x=rng.randint(-9, 9))
        elif kind == 'part' and ready:
            add(op='part', val={x: val(x) for x in rng.choice(['p', 'u', 'pu'])})
        elif kind == 'pokevec' and ready and not aff:
            add(op=kind, v=stv, j=rng.randrange(c['vars'][stv]['n']), x=rng.randint(-9, 9))
        elif kind in ('data', 'dict', 'const', 'bad'):
            x = par if rng.random() < 0.85 else any_
            if not aff: forms = ['', '2d', 'strided', 'int']
            else: forms = ['', '2d', 'strided']
            s = rng.choice([0, 0, 0, -1, -1, -2, -3])
            if kind == 'bad': s = rng.choice([1, -4, 0, -1])
            o = dict(op='data', v=x, s=s, x=val(x), form=rng.choice(forms),
                     short=kind == 'bad' and s in (0, -1))
            if kind == 'dict':
                o = dict(op='dict', v=x, s=s, x=val(x), form=rng.random() < 0.5)
            elif kind == 'const':
                o = dict(op='const', v=x, s=s, y=rng.randint(-9, 9))
                if rng.random() < 0.2: o = dict(op='initdata', v=x, s=s)
            elif aff and kind == 'data':
                r = rng.random()
                if r < 0.25: o = dict(op='fun', v=x, s=s, x=val(x))
                elif r < 0.4 and c['vars'][x]['order'] == 1:
                    cv = [a if k % 3 == 0 else 0 for k, a in enumerate(val(x))]
                    o = dict(op='qp', v=x, s=s, x=cv)
                elif r < 0.5: o = dict(op='verts', v=x, s=0, x=val(x))
            ops.append(o)
            lock = ready and x in 'pu'
            if not lock and -s < len(w[x].d) and s <= 0 and not o.get('short'):
                w[x].d[-s] = True
        elif kind == 'poke' and not aff and w[any_].d[0]:
            add(op='poke', v=any_, j=rng.randrange(c['vars'][any_]['n']), x=rng.randint(-9, 9))
        elif kind == 'pokeuser' and not aff:
            add(op=kind)
        elif kind == 'init_history':
            if rng.random() < 0.5: add(op=kind, v=par); w[par].init()
        elif kind == 'advance':
            if rng.random() < 0.3:
                if w[par].d[0] and len(w[par].d) == max(w[par].h, 0) + 1:
                    k = w[par].st if rng.random() < 0.8 else rng.randint(0, 9)
                    add(op='advance', v=par, ts=k); w[par].advance(k)
            elif ready:
                add(op='advance', v='*', ts=ts)
                for x in 'pu': w[x].advance(ts)
                ts += 1 if rng.random() < 0.95 else 3
        elif kind == 'dt':
            dn, dd = rng.choice(DTS)
            x = rng.choice(['*', any_])
            add(op='dt', v=x, dn=dn, dd=dd)
        elif kind == 'clear' and aff:
            add(op='clear', v=any_, form=rng.randrange(3), s=rng.choice([0, -1, -2]))
        if not aff: continue
        # Evaluations of everything, often the same as before.
        for _ in range(rng.choice([0, 1, 2, 3]) if kind != 'eval' else 3):
            o = eval_op(rng, c, names, w, last)
            if o:
                ops.append(o)
                last.append(o)
    return dict(c=c, ops=ops, kind='vars')


def eval_op(rng, c, names, w, last):
    if last and rng.random() < 0.6:
        o = dict(rng.choice(last[-12:]))
        r = rng.random()
        if r < 0.15: o['s'] = rng.choice([0, -1, -2])
        elif r < 0.25: o['der'] = not o['der']
        elif r < 0.4: o['integ'] = rng.choice(['i1', 'i2', 'i2x', 'i3', 'i2f'] + (
            ['ca', 'cb'] * 2 if o['reg'] in ('Omega', 'Left') else []))
        elif r < 0.5: o['dn'], o['dd'] = rng.choice(DTS + [(1, 0)])
        elif r < 0.6: o['reg'] = {'Omega': 'Left', 'Left': 'Omega', 'Gamma': 'Bottom',
                                  'Bottom': 'Gamma'}[o['reg']]
        elif r < 0.7 and o['integration'] in ('facet', 'facet_extra'):
            pass
        elif r < 0.8:
            o['how'] = rng.choice(['direct', 'term'])
    else:
        x = rng.choice(names)
        nc = c['vars'][x]['nc']
        o = dict(op='eval', v=x, s=rng.choice([0, 0, -1, -1, -2, -3]), der=rng.random() < 0.35,
                 reg=rng.choice(['Omega', 'Omega', 'Left', 'Gamma', 'Bottom']),
                 mode=rng.choice(['val', 'val', 'grad'] + (['div', 'cauchy_strain'] if nc == 2 else [])),
                 integration='', form=rng.random() < 0.5, layout='')
        o['dn'], o['dd'] = rng.choice(DTS + [(1, 0)])
        o['integ'] = rng.choice(['i1', 'i2', 'i2x', 'i3', 'i2f'] + (
            ['ca', 'cb'] * 2 if o['reg'] in ('Omega', 'Left') else []))
        o['how'] = rng.choice(['direct', 'direct', 'term', 'weak'])
        o['layout'] = rng.choice(LAYOUTS)
    if o['reg'] in ('Gamma', 'Bottom'):
        if o['how'] == 'weak': o['how'] = 'direct'
        if o['mode'] != 'val' and o['how'] != 'direct': o['how'] = 'direct'
        o['integration'] = 'facet' if o['mode'] == 'val' else 'facet_extra'
        if o['integ'] in ('ca', 'cb'): o['integ'] = 'i2'
    else:
        o['integration'] = ''
    if o['how'] == 'weak':
        if o['v'] not in 'pu' or o['integ'] in ('ca', 'cb'): o['how'] = 'direct'
        o['mode'] = 'val'
        if o['integ'] == 'i1' and o['how'] == 'weak': o['integ'] = 'i2'
    if o['how'] in ('term', 'weak'):
        o['dn'], o['dd'] = 1, 0
        if o['der']: o['s'] = 0
    v = w[o['v']]
    if not (v.der(o['s']) if o['der'] else v.ok(o['s'])): return None
    return o
