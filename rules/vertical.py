"""C22 vertical interpolation and heights of pressure levels."""
import itertools
from analyzer.pair import build, resolve
from analyzer.labels import DIRECT
from .common import Param

V = 'metcalcpy.vertical_interp.'
S = 'specs.vertical.'
X = 'specs.xr.'

NAN = float('nan')


def made(name):
    return lambda e, args, kw, node: e.call(resolve(e, X + name), args, kw, node)


def cellwise(e, args, kw, node):
    """A function of each element, known only by its name."""
    name = e.val(args[0])
    if name.c is None:
        return None

    def cell(*xs):
        r = e.op(str(name.c[0]), list(xs), 'num', sc=True)
        r.offr, r.offp = 200 + 100 * (r.fp.astype(float) / 2 ** 31), r.fp
        return r
    r = e.lib.gr.map(cell, *args[1:])
    return r if r is not None else cell(*[e.val(a) for a in args[1:]])


def size(name, least, most):
    def value(e):
        x = e.sym(name, 'num')
        x.sc = True
        x.offr, x.offp = least + (most - least) * (x.fp.astype(float) / 2 ** 31), x.fp
        return x
    return value


GRAVITY, GAS = size('gravity', 9.8, 9.9), size('dry air gas constant', 287, 288)


def constant(value):
    def make(e):
        return e.call(resolve(e, X + 'Quantity'), [value(e)], {}, None)
    return make


XR = dict(DIRECT)
XR.update({'xarray.' + k: made(k) for k in ('DataArray', 'where', 'full_like', 'zeros_like', 'ones_like')})
XR['model.cellwise'] = cellwise
PHYSICS = dict(XR)
PHYSICS['pint.UnitRegistry'] = made('UnitRegistry')
PHYSICS['const:metpy.constants.earth_gravity'] = constant(GRAVITY)
PHYSICS['const:metpy.constants.dry_air_gas_constant'] = constant(GAS)
PHYSICS['model.gravity'] = lambda e, args, kw, node: GRAVITY(e)
PHYSICS['model.gas_constant'] = lambda e, args, kw, node: GAS(e)
for _f in ('mixing_ratio_from_relative_humidity', 'virtual_temperature'):
    PHYSICS['metpy.calc.' + _f] = made(_f)


def labelled(name, dims, shape, cell, units, levels=None, level_units=None):
    """A labelled array; cell(e, position) gives its elements, the levels are those of dimension p."""
    def value(e):
        coords = e.new_map()
        for d, n in zip(dims, shape):
            at = list(levels) if d == 'p' and levels else [10.0 * (i + 1) for i in range(n)]
            attrs = e.new_map()
            if d == 'p' and level_units:
                e.map_set(attrs, e.const('units'), e.const(level_units))
            e.map_set(coords, e.const(d), e.new_list([e.const(d), e.new_list([e.const(x) for x in at], arr=True), attrs], kind='tuple'))

        def fill(at):
            if len(at) == len(shape):
                return cell(e, at)
            return e.new_list([fill(at + (i,)) for i in range(shape[len(at)])], arr=True)
        attrs = e.new_map()
        e.map_set(attrs, e.const('units'), e.const(units))
        e.map_set(attrs, e.const('name'), e.sym(name + ' title', 'str'))
        return e.call(resolve(e, X + 'DataArray'), [fill(()), coords, e.new_list([e.const(d) for d in dims], kind='tuple'), e.NONE, attrs], {}, None)
    return Param(name, value=value)


def unknown(name):
    def cell(e, at):
        x = e.sym('%s at %s' % (name, at), 'num')
        x.sc = True
        return x
    return cell


def rising(name, axis, step, missing=()):
    """Surfaces that rise by unknown steps from level to level."""
    def cell(e, at):
        if at[axis] in missing:
            return e.const(NAN)
        rest = at[:axis] + at[axis + 1:]
        x = None
        for k in range(at[axis] + 1):
            y = size('%s step %d of %s' % (name, k, rest), 0, step)(e)
            x = y if x is None else e.arith('add', x, y)
        return x
    return cell


def steps(axis, values):
    """Surfaces at given heights, the same in every column."""
    return lambda e, at: e.const(values[at[axis]])


def settings(**ents):
    def value(e):
        r = e.new_map()
        for k, x in ents.items():
            e.map_set(r, e.const(k), e.new_list([e.const(y) for y in x]) if isinstance(x, (list, tuple)) else e.const(x))
        return r
    return Param('settings', value=value)


GRIDS = [(('p',), (3,)), (('p', 'x'), (3, 2)), (('p', 'x'), (2, 2)), (('p', 'x'), (1, 2)), (('x', 'p'), (2, 3)), (('p', 'y', 'x'), (4, 1, 2)), (('t', 'p', 'x'), (2, 3, 1)),
         (('p', 'y', 'x'), (5, 1, 1)), (('t', 'p', 'y', 'x'), (1, 3, 2, 1))]


def interpolation(ctx):
    def one(dims, shape, cell, targets, units, field=None, level_units='m', construct=''):
        n = shape[dims.index('p')]
        levels = [1000.0, 850.0, 700.0, 500.0, 300.0][:n]
        ctx.pair('interpolation', V + 'vertical_interp', S + 'interpolated',
                 [('T',), settings(vertical_dim_name='p', vertical_levels=targets, vertical_level_units=level_units),
                  labelled('surfaces', dims, shape, cell, units, levels), labelled('field', dims, shape, field or unknown('field'), 'K', levels)],
                 model=PHYSICS, strict=False, construct=construct)
    for dims, shape in GRIDS:
        axis = dims.index('p')
        n = shape[axis]
        one(dims, shape, rising('z', axis, 120), [-5.0, 60.0, 90.0, 150.0, 300.0, 1000.0], 'm', construct='%s of %s' % (dims, shape))
        heights = [0.0, 100.0, 250.0, 450.0, 500.0][:n]
        one(dims, shape, steps(axis, heights), heights + [50.0, 475.0, 510.0], 'm', construct='%s of %s at the levels' % (dims, shape))
    for missing in ((0,), (0, 1)):
        one(('p', 'x'), (4, 2), rising('z', 0, 120, missing), [-5.0, 90.0, 150.0, 300.0, 1000.0], 'm', construct='lowest surfaces %s missing' % (missing,))
    for k in range(3):
        one(('p', 'x'), (3, 1), steps(0, [0.0, 100.0, 250.0]), [0.0, 50.0, 100.0, 150.0, 250.0, 300.0], 'm',
            lambda e, at, k=k: e.const(NAN) if at[0] == k else unknown('field')(e, at), construct='field missing at level %d' % k)
    for units, level_units in (('m', 'km'), ('km', 'm'), ('meter', 'm'), ('gpm', 'm'), ('m', 'gpm'), ('m', 'hPa')):
        one(('p', 'x'), (3, 2), rising('z', 0, 120 if units != 'km' else 0.12), [60.0, 150.0, 300.0] if level_units != 'km' else [0.06, 0.15, 0.3], units, level_units=level_units,
            construct='surfaces in %s, levels in %s' % (units, level_units))
    # the order of the dimensions of the surfaces may differ from that of the field
    ctx.pair('interpolation', V + 'vertical_interp', S + 'interpolated',
             [('T',), settings(vertical_dim_name='p', vertical_levels=[60.0, 150.0, 300.0], vertical_level_units='m'),
              labelled('surfaces', ('x', 'p'), (2, 3), rising('z', 1, 120), 'm', [1000.0, 850.0, 500.0]),
              labelled('field', ('p', 'x'), (3, 2), unknown('field'), 'K', [1000.0, 850.0, 500.0])], model=PHYSICS, strict=False, construct='surfaces in another order')


def heights(ctx):
    for dims, shape in GRIDS:
        n = shape[dims.index('p')]
        levels = [1000.0, 850.0, 700.0, 500.0, 300.0][:n]
        rest = [(d, k) for d, k in zip(dims, shape) if d != 'p']
        if not rest:
            continue
        flat, counts = [d for d, _ in rest], [k for _, k in rest]
        for units, level_units, factor in (('Pa', 'hPa', 100), ('hPa', 'hPa', 1), ('Pa', 'Pa', 1)):
            if units == 'hPa' and len(dims) > 2:
                continue
            low, high = (levels[-1] * 0.9 * factor, levels[0] * 1.1 * factor)
            for fixed in (None, levels[0], levels[n // 2], levels[-1]):
                def pressure(e, at):
                    return size('surface pressure %s' % (at,), low, high)(e) if fixed is None or at and at[-1] else e.const(fixed * factor)
                ctx.pair('heights', V + 'height_from_pressure', S + 'heights',
                         [settings(vertical_dim_name='p'), labelled('geopotential', flat, counts, unknown('geopotential'), 'm2/s2'), labelled('pressure', flat, counts, pressure, units),
                          labelled('temperature', dims, shape, unknown('temperature'), 'K', levels, level_units),
                          labelled('humidity', dims, shape, unknown('humidity'), 'percent', levels, level_units)], model=PHYSICS, strict=False,
                         construct='%s of %s, %s on %s, surface %s' % (dims, shape, units, level_units, fixed))


def reading(ctx):
    for zero in (True, False):
        def ds(e):
            r = e.new_map()
            for k in ('ps', 'phis', 't', 'rh'):
                e.map_set(r, e.const(k), build(e, labelled(k, ('x',), (2,), unknown(k), 'unit of ' + k)))
            return r
        ctx.pair('fields read', V + 'read_required_fields', S + 'required',
                 [settings(surface_pressure_name='ps', surface_geopotential_name='phis', temperature_name='t', relative_humidity_name='rh', zero_surface_geopotential=zero),
                  Param('ds', value=ds)], model=PHYSICS, strict=False, construct='flat' if zero else 'terrain')


def c22(ctx):
    interpolation(ctx)
    heights(ctx)
    reading(ctx)
