"""C06: object-based counts, areas and volumes."""
from .common import stat_hooks, Param
from analyzer.values import hash_fp
from analyzer.engine import MapC

PAIRS = ('fsa_asa osa_asa asm_asa asu_asa fsm_fsa fsu_fsa osm_osa osu_osa fsm_asm osm_asm fsu_asu osu_asu fsa_aaa osa_aaa fsa_faa fca_faa osa_oaa oca_oaa '
         'fca_aca oca_aca fsa_osa osa_fsa aca_asa asa_aca fca_fsa fsa_fca oca_osa osa_oca').split()
OBJ = 'hits misses fas csi pody far'.split()

# module, function prefix, object prefix, dimensionality, measure, ratios that do not exist
FAMILIES = [
    ('mode_ratio_statistics', 'ratio_', 'obj', '', 'count', ()),
    ('mode_arearat_statistics', 'arearat_', 'obja', '', 'area', ('fsu_asu',)),
    ('mode_2d_ratio_statistics', '2d_ratio_', '2d_obj', '2d', 'count', ()),
    ('mode_2d_arearat_statistics', '2d_arearat_', '2d_obja', '2d', 'area', ('fsu_asu',)),
    ('mode_3d_ratio_statistics', '3d_ratio_', '3d_obj', '3d', 'count', ('oca_aca', 'aca_asa')),
    ('mode_3d_volrat_statistics', '3d_volrat_', '3d_objv', '3d', 'volume', ('fsu_asu',)),
]


def _select(e, f, args, kw, node):
    """Row selection by a set of wanted values; successive selections compose and their order does not matter."""
    names = ['input_data', 'columns', 'filters']
    vals = dict(zip(names, args))
    vals.update(kw)
    if 'data' in vals:
        vals['input_data'] = vals['data']
    data, cols, flt = e.val(vals['input_data']), e.val(vals['columns']), e.val(vals['filters'])
    if data.ty == 'ite':
        return e.dist(data, lambda y: _select(e, f, [y, cols, flt], {}, node))
    lc = e.listc(cols)
    if lc is not None and not lc.arr:           # a plain list compares unequal to every name
        return e.op('f:nothing', [data])
    mc = e.mapc(flt)
    if mc is None or mc.base is not None or any(k.c is None or e.val(v).c is None for m, k, v in e.live_entries(mc)):
        r = e.op('f:select', [data, cols, flt])
        return r
    ents = e.live_entries(mc)
    if not all(m.all() for m, k, v in ents):
        return e.op('f:select', [data, cols, flt])
    want = {k.c[0]: e.val(v).c[0] for m, k, v in ents}
    base = data
    n = data.node
    if n is not None and n[0] == 'f:selected' and (e.A(n[2]) == e.A(cols)).all() and not (set(n[3]) & set(want)):
        base = n[1]
        want.update(n[3])
    if not want:
        return data
    items = []
    for k in sorted(want):
        items += [e.const(k), e.const(want[k])]
    r = e.op('f:selected', [base, cols] + items)
    r.node = ('f:selected', base, cols, dict(want))
    return r


def hooks():
    h = stat_hooks()
    h['column_data_by_name_value'] = _select
    return h


def c06(ctx):
    for mod, rp, op, dim, measure, absent in FAMILIES:
        for pr in PAIRS:
            if pr in absent:
                continue
            top, bottom = pr.split('_')
            ctx.pair('object ratio', 'metcalcpy.util.%s.calculate_%s%s' % (mod, rp, pr), 'specs.mode.ratio', ['data', 'cols'],
                     spec_args=['data', 'cols', (dim,), (measure,), (top,), (bottom,)], hooks=hooks(), wrap=True)
        for o in OBJ:
            ctx.pair('object score', 'metcalcpy.util.%s.calculate_%s%s' % (mod, op, o), 'specs.mode.' + o, ['data', 'cols'],
                     spec_args=['data', 'cols', (dim,), (measure,)], hooks=hooks(), wrap=True)
