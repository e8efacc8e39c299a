"""Orderings of regions, requirements and equation blocks."""
import copy
import meshes

DOMAIN = []


def get_domain():
    from sfepy.discrete.fem import FEDomain
    if not DOMAIN:
        md = meshes.grid('2_4', [3, 3])
        md['vg'] = list(range(len(md['coors'])))
        DOMAIN.append(FEDomain('d', meshes.make_mesh(
            md, nodal_bcs={'outer.B': [0], 'r.': [1]})))
    return DOMAIN[0]


def regions(e):
    from sfepy.base.conf import transform_regions
    dom = get_domain()
    conf = {}
    for k, it in enumerate(e['items']):
        own = it['own']
        if it['form'] == 'from':
            sel = 'vertices of group %d' % it['leaf']
            val = (sel, 'vertex', it.get('parent'), {'vertices_from': it['u'][0]})
        else:
            parts = ['r.%s' % u for u in it['u']]
            if own:
                leaf = {'group': 'vertices of group %d', 'id': 'vertex %d'
                        }[it['form']] % own[0]
                parts.insert(it['at'] % (len(parts) + 1), leaf)
            sel = (' %s ' % it['op']).join(parts)
            if it['par'] and len(parts) > 1:
                sel = '(%s) *v all' % sel
            val = (sel, 'vertex', it['parent']) if it.get('parent') \
                else (sel, 'vertex')
        if it['long']:
            conf['region_%d' % (k + 1)] = dict(
                name=it['n'], select=val[0], kind=val[1],
                **({'parent': val[2]} if len(val) > 2 and val[2] else {}),
                **({'extra_options': val[3]} if len(val) > 3 else {}))
        else:
            conf[it['n']] = val
    o = {}
    try:
        regs = dom.create_regions(transform_regions(conf))
        o.update(ok=True, out=[r.name for r in regs],
                 verts=[r.vertices for r in regs])
    except Exception as exc:
        o.update(ok=False, exc=type(exc).__name__, msg=str(exc)[:200])
    return o


def reqs(e):
    from sfepy.homogenization.engine import (HomogenizationWorker,
                                             HomogenizationWorkerMulti)
    req, coef = {}, {}
    for it in e['items']:
        d = {'requires': list(it['d'])} if it['d'] or it['key'] else {}
        if it['n'].startswith('c.'):
            coef[it['n'][2:]] = d
        else:
            req[it['n']] = d
    r0, c0 = copy.deepcopy(req), copy.deepcopy(coef)
    only = None if e['all'] else [n[2:] for n in e['need']]
    w = HomogenizationWorkerMulti if e['multi'] else HomogenizationWorker
    o = {}
    try:
        o.update(out=list(w.get_sorted_dependencies(req, coef, only)), ok=True)
    except RecursionError:
        raise
    except Exception as exc:
        o.update(ok=False, exc=type(exc).__name__, msg=str(exc)[:200])
    o['kept'] = (req == r0) and (coef == c0)
    return o


def blocks(e):
    from sfepy.base.resolve_deps import resolve
    deps = {it['n']: set(it['d']) for it in e['items']}
    d0 = copy.deepcopy(deps)
    o = {}
    try:
        o.update(out=[list(b) for b in resolve(deps)], ok=True)
    except Exception as exc:
        o.update(ok=False, exc=type(exc).__name__, msg=str(exc)[:200])
    o['kept'] = deps == d0
    return o


def run(scn):
    out = []
    for e in scn['ev']:
        o = dict(e)
        for it in o['items']:
            it.pop('parent', None) if it.get('parent', 1) is None else None
        o.update(globals()[e['op']](e))
        out.append(o)
    return dict(ev=out)
