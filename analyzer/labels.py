"""Labelled arrays (specs/xr.py) whose dimensions are known: the same steps taken directly."""
import numpy as np
from .engine import V


def pieces(e, o):
    """(values, dimensions, axes, attributes) of a labelled array."""
    get = lambda name: e.val(e.map_get(o, e.const(name)))
    dims, axes = e.listc(get('dims')), e.mapc(get('axes'))
    if dims is None or axes is None or axes.base is not None or not (dims.n == len(dims.cells)).all():
        return None
    names = [e.val(c).c for c in dims.cells]
    if any(n is None for n in names):
        return None
    at = {}
    for m, k, v in axes.ents:
        if k.c is None or m is not None and not m.all():
            return None
        at[k.c[0]] = v
    return get('data'), [n[0] for n in names], at, get('attrs')


def labelled(e, v):
    c = e.instance(v) if v.ty == 'ref' else None
    return c is not None and c.name == 'DataArray'


def make(e, cls, data, dims, axes, attrs=None):
    r = e.new_map(cls=cls)
    e.map_set(r, e.const('data'), data)
    e.map_set(r, e.const('dims'), e.new_list([e.const(d) for d in dims], kind='tuple'))
    at = e.new_map()
    for k, v in axes.items():
        e.map_set(at, e.const(k), v)
    e.map_set(r, e.const('axes'), at)
    e.map_set(r, e.const('attrs'), e.new_map() if attrs is None else attrs)
    return r


def spread_out(e, data, own, dims):
    if not own:
        return data
    a = e.lib.gr.arr(data, 1)
    if a is None or a.ndim != len(own):
        return None
    a = np.transpose(a, [own.index(d) for d in dims if d in own])
    for i, d in enumerate(dims):
        if d not in own:
            a = np.expand_dims(a, i)
    return e.lib.gr.lift(a)


def spread(e, f, args, kw, node):
    p = pieces(e, args[0])
    dims = e.listc(e.val(args[1]))
    if p is None or dims is None or any(e.val(c).c is None for c in dims.cells):
        return NotImplemented
    r = spread_out(e, p[0], p[1], [e.val(c).c[0] for c in dims.cells])
    return NotImplemented if r is None else r


def over(e, f, args, kw, node):
    given = e.listc(e.val(args[2]))
    if given is None:
        return NotImplemented
    cells = [e.val(c) for c in given.cells]
    dims, axes, parts = [], {}, []
    known = []
    for c in cells:
        if c.ty == 'ite':
            return NotImplemented
        p = pieces(e, c) if labelled(e, c) else None
        if p is None and labelled(e, c):
            return NotImplemented
        known.append(p)
        if p is not None:
            dims += [d for d in p[1] if d not in dims]
            for k, v in p[2].items():
                axes.setdefault(k, v)
    for c, p in zip(cells, known):
        if p is not None:
            c = spread_out(e, p[0], p[1], dims)
            if c is None:
                return NotImplemented
        elif e.instance(c) is not None:
            c = e.map_get(c, e.const('magnitude'))
        parts.append(c)
    return make(e, e.instance(args[0]), e.call(args[1], parts, {}, node), dims, axes)


def at(e, f, args, kw, node):
    p = pieces(e, args[0])
    key = e.val(args[1])
    if p is None or key.ty == 'ite':
        return NotImplemented
    data, dims, axes, attrs = p
    mc = e.mapc(key)
    chosen = {}
    if mc is not None and mc.cls is None:
        if mc.base is not None:
            return NotImplemented
        for m, k, v in mc.ents:
            if k.c is None or m is not None and not m.all():
                return NotImplemented
            chosen[k.c[0]] = v
    else:
        lc = e.listc(key)
        chosen = dict(zip(dims, lc.cells if lc is not None and lc.kind == 'tuple' else [key]))
    index, left, kept = [], {k: v for k, v in axes.items() if k not in dims}, []
    for d in dims:
        k = e.val(chosen[d]) if d in chosen else e.slice_(e.NONE, e.NONE, e.NONE)
        if labelled(e, k):
            k = e.val(e.map_get(k, e.const('data')))
        if k.ty == 'ite':
            return NotImplemented
        index.append(k)
        whole = e.is_slice(k)
        if whole or e.listc(k) is not None:
            kept.append(d)
            if d in axes:
                pair = e.listc(e.val(axes[d]))
                if whole and all(x.c is not None and x.c[0] is None for x in map(e.val, k.node[1:4])):
                    left[d] = axes[d]
                else:
                    left[d] = e.new_list([e.index(pair.cells[0], k), pair.cells[1]], kind='tuple')
    at = e.new_map()
    for k, v in left.items():
        e.map_set(at, e.const(k), v)
    return e.new_list([index[0] if len(index) == 1 else e.new_list(index, kind='tuple'), at, e.new_list([e.const(d) for d in kept])], kind='tuple')


def made(e, f, args, kw, node):
    """A labelled array from values, axes that are known and dimensions."""
    if not labelled(e, args[0]):
        return NotImplemented
    given = dict(zip(['data', 'coords', 'dims', 'name', 'attrs'], args[1:]))
    given.update(kw)
    data, coords, dims, attrs = (e.val(given[k]) if k in given else e.NONE for k in ('data', 'coords', 'dims', 'attrs'))
    if e.instance(coords) is None or e.instance(coords).name != 'Coordinates' or e.instance(data) is not None or data.ty == 'ite':
        return NotImplemented
    lc, ld = e.listc(dims), e.listc(data)
    if lc is None or ld is not None and not ld.arr or any(e.val(c).c is None for c in lc.cells):
        return NotImplemented
    axes = e.mapc(e.val(e.map_get(coords, e.const('axes'))))
    if axes is None or axes.base is not None or not all(k.c is not None and (m is None or m.all()) for m, k, _ in axes.ents):
        return NotImplemented
    r = make(e, None, data, [e.val(c).c[0] for c in lc.cells], {k.c[0]: v for _, k, v in axes.ents}, None if attrs.c == (None,) else e.lib.copy_obj(attrs, False))
    for m, k, v in e.mapc(r).ents:
        e.map_set(args[0], k, v)
    return e.NONE


DIRECT = {'spread': spread, 'over': over, 'at': at, '__init__': made}
