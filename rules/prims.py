"""C19: the primitives every statistic is built from."""
from .common import Param

U = 'metcalcpy.util.utils.'
FILTERS = ({'fcst_flag': 1}, {'fcst_flag': 0, 'matched_flag': 1}, {'object_type': '2d'}, {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}, {})


def fixed_map(items):
    def make(e):
        m = e.new_map()
        for k, v in items.items():
            e.map_set(m, e.const(k), e.const(v))
        return m
    return Param('filters', value=make)


def core(ctx):
    """What a statistic's value rests on: rounding, named column sums, row selection, the divisor."""
    num = [Param('num', kind='num'), Param('decimals', kind='num')]
    ctx.pair('primitive', U + 'round_half_up', 'specs.prims.round_half_up', num)
    for d in (0, 1, 5, 7):
        ctx.pair('primitive', U + 'round_half_up', 'specs.prims.round_half_up', [Param('num', kind='scalar'), (d,)], construct='round_half_up to %d decimals' % d)
    ctx.pair('primitive', U + 'round_half_up', 'specs.prims.round_half_up', [Param('num', kind='num')], construct='round_half_up by default')
    for rm in (True, False, None):
        args = ['input_data', 'columns', Param('column_name', kind='str')] + ([] if rm is None else [(rm,)])
        for f in ('column_data_by_name', 'sum_column_data_by_name'):
            ctx.pair('primitive', U + f, 'specs.prims.' + f, args, construct='%s (rm_none %s)' % (f, 'default' if rm is None else rm))
    ctx.pair('primitive', U + 'get_total_values', 'specs.prims.get_total_values', ['input_data', 'columns', Param('aggregation', kind='bool')])
    ctx.pair('primitive', 'metcalcpy.util.met_stats.get_column_index_by_name', 'specs.prims.get_column_index_by_name',
             ['columns', Param('column_name', kind='str')])


def selection(ctx):
    for flt in FILTERS:
        for f in ('column_data_by_name_value', 'nrow_column_data_by_name_value'):
            ctx.pair('row selection', U + f, 'specs.prims.' + f, ['data', 'cols', fixed_map(flt)], construct='%s with filters %s' % (f, sorted(flt)))
    ctx.pair('row selection', U + 'column_data_by_name_value', 'specs.prims.column_data_by_name_value', ['data', 'cols', 'filters'],
             construct='column_data_by_name_value with any filters')


def helpers(ctx):
    for f in ('represents_int', 'is_string_integer', 'is_string_strictly_float'):
        ctx.pair('recognition', U + f, 'specs.prims.' + f, [Param('value', kind='scalar')])
    ctx.pair('recognition', U + 'parse_bool', 'specs.prims.parse_bool', [Param('text', kind='str')])
    for c in ('True', 'False', 'true', 'TRUE', '', None, True, False, 1):
        ctx.pair('recognition', U + 'parse_bool', 'specs.prims.parse_bool', [(c,)], construct='parse_bool of %r' % (c,))
    for c in (None, '1', '-1', '1.5', '-1.5', 'a', '', '.', '-.5', '1.', '1.2.3', '1e5', '--1.0', ' 1.0', '12'):
        for f in ('is_string_integer', 'is_string_strictly_float'):
            ctx.pair('recognition', U + f, 'specs.prims.' + f, [(c,)], construct='%s of %r' % (f, c))
    two = ['first', 'second']
    ctx.pair('lists', U + 'intersection', 'specs.prims.intersection', two)
    ctx.pair('lists', U + 'intersection', 'specs.prims.intersection', [(None,), 'second'], construct='intersection with a missing first list')
    ctx.pair('lists', U + 'intersection', 'specs.prims.intersection', ['first', (None,)], construct='intersection with a missing second list')
    ctx.pair('lists', U + 'unique', 'specs.prims.unique', ['values'])
    ctx.pair('lists', U + 'create_permutations', 'specs.prims.create_permutations', ['values'])


def c19(ctx):
    core(ctx)
    selection(ctx)
    helpers(ctx)
