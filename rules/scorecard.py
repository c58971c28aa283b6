"""C17: scorecard cells."""
from .common import Param
from .drivers import me
from .series import series
from .weight import frame

SC = 'metcalcpy.scorecard.Scorecard'
S = 'specs.scorecard.'


def plain(x):
    """The structure a configuration value is."""
    def make(e):
        if isinstance(x, dict):
            m = e.new_map()
            for k, v in x.items():
                e.map_set(m, e.const(k), plain(v).value(e))
            return m
        if isinstance(x, (list, tuple)):
            return e.new_list([plain(v).value(e) for v in x], kind='list' if isinstance(x, list) else 'tuple')
        if isinstance(x, Param):
            return x.value(e)
        return e.const(x)
    return Param('given', value=make)


STATS = ('ME', 'MAE', 'RMSE', 'RMSVE', 'BIAS', 'BCMSE', 'ANOM_CORR', 'FBIAS', 'CSI', 'MEAN')


def c17(ctx):
    for stat in STATS:
        for n in (3, 4):
            for days in (10, 19, 20, 39, 40, 79, 80, 120):
                who = me(SC, params=plain({'list_stat_1': [stat], 'ndays': days, 'stat_flag': 'EMC'}))
                ctx.pair('significance', SC + '._calculate_diff_sig_emc', S + 'emc', [who, series('.' * n, arr=None), series('.' * n, sym='y')], strict=False,
                         construct='EMC significance of %s, %d days, %d cases' % (stat, days, n))
            who = me(SC, params=plain({'list_stat_1': [stat], 'stat_flag': 'NCAR'}))
            ctx.pair('significance', SC + '._calculate_diff_sig_ncar', S + 'ncar', [who, series('.' * n), series('.' * n, sym='y')], strict=False,
                     construct='NCAR significance of %s, %d cases' % (stat, n))
    for name, columns in COLUMNS:
        for some in (columns, [c for c in columns if c != 'stat_name']):
            ctx.pair('case order', 'metcalcpy.util.utils.sort_data', S + 'in_case_order', [frame(some, 2)], strict=False, check_args=True,
                     construct='case order of %s%s' % (name, '' if some == columns else ' without statistic names'))
    for name, value, indy in CONFIGS:
        who = me(SC, params=plain(dict(value)), derived_name_to_values=plain({}))
        args = [who, plain(value['series_val_1']), plain(indy)]
        ctx.pair('derived points', SC + '._get_derived_points', S + 'derived_points', args, check_args=True, construct='derived points of %s' % name)
    for op in ('DIFF', 'DIFF_SIG', 'SINGLE', 'RATIO'):
        for flag in ('EMC', 'NCAR'):
            for name, columns in COLUMNS:
                for first, second, rest, leads in CELLS:
                    title = '%s(%s)' % (op, '-'.join((' '.join(first), ' '.join(second))))
                    def component(e, first=first, second=second, op=op):
                        m = e.new_map(base=e.sym('component'))
                        for k, v in (('first_component', first), ('second_component', second), ('derived_operation', op)):
                            e.map_set(m, e.const(k), plain(v).value(e))
                        return m
                    who = me(SC, params=plain({'stat_flag': flag, 'series_val_1': {'fcst_lead': leads}, 'list_stat_1': ['RMSE']}),
                             derived_name_to_values=plain({title: Param('c', value=component)}), group_to_value=plain({'G': '12;24'}),
                             column_names=Param('names', value=lambda e, c=columns: e.new_list([e.const(x) for x in c], arr=True)))

                    def table(e, columns=columns):
                        m = e.new_map()
                        for k in TABLE:
                            e.map_set(m, plain(tuple(k.split(' '))).value(e), frame(columns, 2, tag=k).value(e))
                        return m
                    ctx.pair('cell', SC + '._get_stats_for_derived', S + 'derived', [who, plain([title] + rest), Param('table', value=table)],
                             opaque=('_calculate_diff_sig_emc', '_calculate_diff_sig_ncar', 'calc_derived_curve_value', 'sort_data'), strict=False,
                             construct='cell %s of %s by %s, %s' % (op, " ".join(rest), flag, name))
    cells(ctx)


def cells(ctx):
    for name, value, indy in CONFIGS:
        for append in (None, 'True', 'False'):
            params = dict(value, indy_vals=indy, sum_stat_output='out', **({} if append is None else {'append_to_file': append}))
            for fields in (['model', 'fcst_lead', 'stat_name', 'fcst_var', 'vx_mask', 'stat_value'], ['model', 'fcst_lead', 'fcst_var', 'stat_name', 'stat_value']):
                who = me(SC, params=plain(params), derived_name_to_values=plain({}), group_to_value=plain({}), input_data=frame(fields, 2))
                ctx.pair('cells', SC + '.calculate_scorecard_data', S + 'cells', [who],
                         opaque=('_get_stats_for_derived',), soft=None, effects=[], strict=False, construct='all cells of %s, append %s, %d columns' % (name, append, len(fields)))


CONFIGS = (
    ('two models', {'series_val_1': {'model': ['A', 'B'], 'fcst_lead': ['12', '24']}, 'list_stat_1': ['RMSE'], 'indy_var': 'vx_mask',
                    'derived_series_1': [['A 12 RMSE', 'B 12 RMSE', 'DIFF'], ['A 24 RMSE', 'B 24 RMSE', 'DIFF_SIG']]}, ['NHEM', 'SHEM']),
    ('two leads', {'series_val_1': {'model': ['A', 'B'], 'fcst_lead': ['12', '24']}, 'list_stat_1': ['RMSE', 'ME'], 'indy_var': 'vx_mask',
                   'derived_series_1': [['A 12 RMSE', 'A 24 ME', 'DIFF'], ['A 24 RMSE', 'A 24 RMSE', 'SINGLE']]}, []),
    ('groups', {'series_val_1': {'fcst_var': ['TMP'], 'model': ['A;B', 'C:D']}, 'list_stat_1': ['RMSE'], 'indy_var': 'fcst_lead',
                'derived_series_1': [['TMP A;B RMSE', 'TMP C:D RMSE', 'DIFF']]}, ['12', '1.5']),
    ('nothing derived', {'series_val_1': {'model': ['A', 'B']}, 'list_stat_1': ['RMSE'], 'indy_var': 'fcst_lead', 'derived_series_1': []}, ['12']),
)
COLUMNS = (('valid times', ['model', 'fcst_lead', 'fcst_valid_beg', 'fcst_init_beg', 'stat_name', 'stat_value', 'stat_ncl', 'equalize']),
           ('plain times', ['model', 'fcst_lead', 'fcst_valid', 'stat_name', 'stat_value']),
           ('start times', ['fcst_init_beg', 'model', 'fcst_lead', 'stat_name', 'stat_value', 'stat_bcu']),
           ('other times', ['fcst_init', 'stat_name', 'model', 'fcst_lead', 'stat_value']))
TABLE = ('A 12 RMSE NHEM', 'A 12 RMSE SHEM', 'B 12 RMSE NHEM', 'A 24 RMSE NHEM', 'B 24 RMSE NHEM', 'A 12 ME NHEM', 'A 12;24 RMSE NHEM')
CELLS = ((['A', '12', 'RMSE'], ['B', '12', 'RMSE'], ['12', 'RMSE', 'NHEM'], ['12', '24']),
         (['A', '24', 'RMSE'], ['B', '24', 'RMSE'], ['24', 'RMSE', 'NHEM'], ['12', '24']),
         (['A', '24', 'RMSE'], ['A', '12', 'RMSE'], ['A', 'RMSE', 'NHEM'], ['24', '12']),
         (['A', 'G', 'RMSE'], ['A', '24', 'RMSE'], ['A', 'RMSE', 'NHEM'], ['G', '24']))

