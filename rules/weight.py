"""C08: sample-size weights of aggregated rows."""
from analyzer.engine import FrameC
from .common import Param
from .drivers import statistics, me, func, told, AGG, SPEC

A = AGG + '.AggStat'
TABLES = {
    'sl1l2': ('sl1l2', 'total fbar obar fobar ffbar oobar mae'),
    'sal1l2': ('sal1l2', 'total fabar oabar foabar ffabar ooabar mae'),
    'grad': ('grad', 'total fgbar ogbar mgbar egbar'),
    'vl1l2': ('vl1l2', 'total ufbar vfbar uobar vobar uvfobar uvffbar uvoobar f_speed_bar o_speed_bar'),
    'val1l2': ('val1l2', 'total ufabar vfabar uoabar voabar uvfoabar uvffabar uvooabar fa_speed_bar oa_speed_bar'),
    'vcnt': ('vcnt', 'total ufbar vfbar uobar vobar uvfobar uvffbar uvoobar f_speed_bar o_speed_bar uvfoabar uvffabar uvooabar fa_speed_bar oa_speed_bar'),
    'ecnt': ('ecnt', 'total crps crpss ign me rmse spread me_oerr rmse_oerr spread_oerr spread_plus_oerr crpscl crps_emp crpscl_emp crpss_emp crps_emp_fair '
                     'spread_md mae mae_oerr bias_ratio n_ge_obs me_ge_obs n_lt_obs me_lt_obs'),
    'rps': ('rps', 'total rps rps_comp rpss'),
    'nbr_cnt': ('nbrcnt', 'total fbs fss afss ufss f_rate o_rate'),
    'ssvar': ('ssvar', 'total bin_n var_mean fbar obar fobar ffbar oobar'),
    'ctc': ('ctc', 'total fy_oy fy_on fn_oy fn_on ec_value'),
    'nbr_ctc': ('nbrctc', 'total fy_oy fy_on fn_oy fn_on'),
}


def frame(columns, rows, given=(), tag=''):
    """A table with named columns of unknown numbers."""
    given = dict(given)

    def make(e):
        cols = []
        for name in columns:
            cells = []
            for r in range(rows):
                if name in given:
                    cells.append(e.const(given[name]))
                    continue
                v = e.sym('%s%s@%d' % (tag, name, r), 'num')
                v.sc = True
                v.np = 'np'
                cells.append(v)
            cols.append((e.const(name), e.new_list(cells, arr=True)))
        n = e.listc(cols[0][1]).n
        return e.new_ref(FrameC(n, cols, e.lib.fr.ints(n)))
    return Param('frame', value=make)


def c08(ctx):
    for line, (module, columns) in TABLES.items():
        columns = columns.split()
        for name, arity, mod in statistics(ctx, (module,)):
            stat = name[len('calculate_'):]
            if stat in ('roc_ctc',):
                continue
            given = {'ec_value': 0.5}
            who = me(A, statistic=stat, column_names=Param('names', value=lambda e, c=columns: e.new_list([e.const(x) for x in c], arr=True)))
            for rows in (2,):
                args = [who, frame(columns, rows, given), (line,)]
                flag = told((True,) if arity == 3 else ())
                spec = 'specs.%s.%s' % (SPEC.get(module, module), name)
                ctx.pair('weights', 'specs.weight.aggregated', 'specs.weight.weighted', args, impl_args=args + [func(mod + '.' + name), flag],
                         spec_args=args + [func(spec), flag], construct='%s of %d rows' % (stat, rows), strict=False, at=A + '._prepare_%s_data' % line)
    for line in ('ctc', 'cts', 'mctc'):
        ctx.pair('expected-correct threshold', 'specs.weight.prepared', 'specs.weight.same_threshold', [me(A), frame(['total', 'ec_value'], 2), (line,)],
                 strict=False, at=A + '._prepare_%s_data' % line, construct='ec_value of %s rows' % line)
    for line, columns in GROUPED:
        columns = columns.split()
        for name in columns:
            args = [frame(columns, 2), (line,), Param('names', value=lambda e, n=name: e.new_list([e.const(n)]))]
            ctx.pair('grouped rows', 'specs.weight.grouped', 'specs.weight.combined', args, strict=False, at='metcalcpy.util.utils.calc_series_sums',
                     construct='%s of grouped %s rows' % (name, line))


GROUPED = (
    ('ctc', 'total fy_oy fy_on fn_oy fn_on'), ('nbrctc', 'total fy_oy fy_on fn_oy fn_on'), ('sl1l2', 'total fbar obar fobar ffbar oobar'),
    ('sal1l2', 'total fabar oabar foabar ffabar ooabar'), ('sal1l2', 'total fbar obar fobar ffbar oobar'),
    ('vl1l2', 'total ufbar vfbar uobar vobar uvfobar uvffbar uvoobar f_speed_bar o_speed_bar'),
    ('val1l2', 'total ufabar vfabar uoabar voabar uvfoabar uvffabar uvooabar'), ('grad', 'total fgbar ogbar mgbar egbar'),
    ('nbrcnt', 'total fbs fss afss ufss f_rate o_rate'), ('rps', 'total rps rpss rps_comp'),
    ('ecnt', 'total rmse rmse_oerr crps crpss me ign me_oerr spread spread_oerr spread_plus_oerr'),
)


JOINED = [
    ('two areas', {'model': ['GFS'], 'vx_mask': ['EAST;WEST']}, dict(vx_mask=['EAST', 'WEST', 'WEST', 'EAST'], fcst_valid_beg=['a', 'a', 'b', 'b'], fcst_lead=[12, 12, 12, 12])),
    ('two areas, leads of their own', {'model': ['GFS'], 'vx_mask': ['EAST;WEST']}, dict(vx_mask=['EAST', 'WEST', 'WEST', 'EAST'], fcst_valid_beg=['a', 'a', 'b', 'b'], fcst_lead=[12, 12, 24, 24])),
    ('two areas, two leads at one time', {'vx_mask': ['EAST;WEST']}, dict(vx_mask=['EAST', 'WEST', 'WEST', 'EAST'], fcst_valid_beg=['a', 'a', 'a', 'a'], fcst_lead=[12, 24, 12, 24])),
    ('one area left alone', {'vx_mask': ['EAST;WEST', 'NORTH']}, dict(vx_mask=['EAST', 'NORTH', 'WEST', 'NORTH'], fcst_valid_beg=['a', 'a', 'a', 'a'], fcst_lead=[12, 12, 12, 24])),
    ('two leads', {'fcst_lead': ['12;24']}, dict(vx_mask=['EAST', 'EAST', 'EAST', 'EAST'], fcst_valid_beg=['a', 'a', 'b', 'b'], fcst_lead=[12, 24, 24, 36])),
    ('four areas', {'vx_mask': ['EAST;WEST', 'NORTH;SOUTH']}, dict(vx_mask=['NORTH', 'EAST', 'WEST', 'SOUTH'], fcst_valid_beg=['a', 'a', 'a', 'a'], fcst_lead=[12, 12, 12, 12])),
    ('areas and models', {'vx_mask': ['EAST;WEST'], 'model': ['GFS;NAM']}, dict(vx_mask=['EAST', 'WEST', 'WEST', 'EAST'], fcst_valid_beg=['a', 'a', 'b', 'b'], fcst_lead=[12, 12, 12, 12])),
    ('nothing joined', {'vx_mask': ['EAST', 'WEST']}, dict(vx_mask=['EAST', 'WEST', 'WEST', 'EAST'], fcst_valid_beg=['a', 'a', 'b', 'b'], fcst_lead=[12, 12, 12, 12])),
]


def joined_args(line, columns, series, given):
    from .runs import table, mapped
    given = dict({'model': ['GFS'] * 4, 'total': [10, 30, 7, 20]}, **given)
    return [Param('series', value=lambda e: mapped(e, series)), table('data', ['model', 'vx_mask', 'fcst_valid_beg', 'fcst_lead'] + columns.split(), 4, given), (line,)]


def joined(ctx):
    for line, columns in GROUPED[:3]:
        for name, series, given in JOINED:
            ctx.pair('joined values', 'specs.weight.merged', 'specs.weight.merged_rows', joined_args(line, columns, series, given), strict=False,
                     opaque=('sum_column_data_by_name',), at='metcalcpy.util.utils.aggregate_field_values', construct='%s of %s rows' % (name, line))
