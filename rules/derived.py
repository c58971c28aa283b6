"""C15 derived curves, C16 sign of significance."""
from .common import Param
from specs import perfect as tables

U = 'metcalcpy.util.utils.'
OPS = ('DIFF', 'RATIO', 'SS', 'DIFF_SIG', 'SINGLE', 'ETB', 'diff', 'SUM', '')


def listed(name, n, kind='unk'):
    return Param(name, value=lambda e: e.new_list([e.sym('%s%d' % (name, i), kind) for i in range(n)]))


def c15(ctx):
    opaque = ('tost_paired', 'corr')
    S = 'specs.derived.'
    ctx.pair('derived value', U + 'calc_derived_curve_value', S + 'calc_derived_curve_value', ['val1', 'val2', Param('operation', kind='str')], opaque=opaque)
    for op in OPS:
        for first, second, what in (('val1', 'val2', ''), ((None,), 'val2', ' without the first series'), ('val1', (None,), ' without the second series')):
            ctx.pair('derived value', U + 'calc_derived_curve_value', S + 'calc_derived_curve_value', [first, second, (op,)], opaque=opaque,
                     construct='calc_derived_curve_value %r%s' % (op, what))
    for op in OPS:
        for n, m in ((1, 1), (3, 3), (3, 2), (2, 3), (0, 2), (2, 0)):
            ctx.pair('derived value', U + 'calc_derived_curve_value', S + 'calc_derived_curve_value', [listed('val1', n), listed('val2', m), (op,)], opaque=opaque,
                     construct='calc_derived_curve_value %r of %d and %d values' % (op, n, m))
    pair = lambda n: Param('names', value=lambda e: e.new_list([e.sym('s%d' % i, 'str') for i in range(n)]))
    for n in (0, 1, 2, 4):
        ctx.pair('derived name', U + 'get_derived_curve_name', S + 'get_derived_curve_name', [pair(n)], construct='get_derived_curve_name of %d parts' % n)
    for op in OPS[:6]:
        for parts in (['AAA', 'BBB', op], ['m1 T RMSE', 'm2 T RMSE', op]):
            ctx.pair('derived name', U + 'get_derived_curve_name', S + 'get_derived_curve_name',
                     [Param('names', value=lambda e, p=parts: e.new_list([e.const(x) for x in p]))], construct='get_derived_curve_name %s of %r' % (op, parts[0]))
        for text in ('%s(a-b)', '%s (a-b)', '%s', 'x%s(', '%s[a]'):
            pt = ['GFS', text % op, 'RMSE']
            for order in (pt, pt[::-1]):
                ctx.pair('derived point', U + 'is_derived_point', S + 'is_derived_point',
                         [Param('point', value=lambda e, p=order: e.new_list([e.const(x) for x in p], kind='tuple'))],
                         construct='is_derived_point %r' % (order,))
    ctx.pair('derived point', U + 'is_derived_point', S + 'is_derived_point', [(None,)], construct='is_derived_point of nothing')
    ctx.pair('derived point', U + 'is_derived_point', S + 'is_derived_point', ['point'])
    me = Param('self', cls=lambda e: None)
    ctx.pair('derived component', U + 'DerivedCurveComponent.__init__', S + 'component', [Param('self'), 'first', 'second', Param('op', kind='str')], check_args=True)


def c16(ctx):
    f = U + 'perfect_score_adjustment'
    s = 'specs.derived.perfect_score_adjustment'
    for name in sorted(set(tables.NO_PERFECT + tables.PERFECT_ZERO + tables.PERFECT_ONE)) + ['UNKNOWN', 'CRPSS', 'FCSI']:
        for text in (name, name.lower()):
            ctx.pair('significance sign', f, s, [Param('first', kind='num'), Param('second', kind='num'), (text,), Param('pval', kind='num')],
                     construct='perfect_score_adjustment of %s' % text)
