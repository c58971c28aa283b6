A, E, B, S = ('metcalcpy/%s.py' % x for x in ('agg_stat', 'agg_eclv', 'agg_stat_bootstrap', 'sum_stat'))
H = '''
import warnings; warnings.simplefilter('ignore')
import os, shutil, tempfile
import numpy as np, pandas as pd
d = tempfile.mkdtemp()
import atexit; atexit.register(shutil.rmtree, d)
def run(cls, rows, **more):
    pd.DataFrame(rows).to_csv(d + '/in', sep='\\t', index=None)
    p = dict(random_seed=1, method='perc', num_iterations=1, num_threads=-1, event_equal='False', agg_stat_input=d + '/in', agg_stat_output=d + '/out', alpha=0.05,
             derived_series_1=[], derived_series_2=[], fcst_var_val_1={'TMP': []}, fcst_var_val_2={}, fixed_vars_vals_input={}, series_val_2={}, list_stat_2=[],
             circular_block_bootstrap='False', indy_var='fcst_lead', indy_vals=['12'], series_val_1={'model': ['GFS', 'NAM']}, list_stat_1=['FBAR'], line_type='sl1l2')
    p.update(more)
    r = cls(p)
    (r.calculate_values if hasattr(r, 'calculate_values') else r.calculate_stats_and_ci)()
    return pd.read_csv(d + '/out', sep='\\t')
def day(i):
    return '2020-01-%02d 00:00:00' % (i + 1)
def sl(model, lead, i, f, var='TMP', stat='FBAR', o=1.0):
    return dict(model=model, fcst_lead=lead, fcst_valid_beg=day(i), fcst_var=var, stat_name=stat, stat_value=0, total=10, fbar=f, obar=o, fobar=f * o, ffbar=f * f + 1, oobar=o * o + 1, mae=0.0)
'''
G = H + 'from metcalcpy.agg_stat import AggStat\n'
SEEDS = [
dict(id='axis-one-variable', prop='C29', file=A, func='_proceed_with_axis',
 old="                        if 'fcst_var' in self.input_data.columns:\n                            all_filters", new="                        if len(self.params['fcst_var_val_' + axis]) > 1 and 'fcst_var' in self.input_data.columns:\n                            all_filters",
 needs='input data with rows of another forecast variable than the one on the axis', what='the estimate of a curve mixes the rows of all forecast variables',
 demo=G + '''
f = run(AggStat, [sl(m, 12, i, v, var) for m in ('GFS', 'NAM') for i in range(3) for v, var in ((2.0, 'TMP'), (8.0, 'HGT'))])
assert list(f.stat_value) == [2.0, 2.0] and list(f.nstats) == [3, 3], f
'''),
dict(id='axis-pct-base-rate-of-point', prop='C29', file=A, func='_proceed_with_axis',
 old="                        if field in series_val.keys():\n", new="                        if field in self.input_data.keys():\n",
 needs='probability bins on the independent axis', what='the sample base rate of a reliability curve is taken from each bin alone instead of from the whole series',
 demo=G + '''
rows = [dict(model='GFS', fcst_lead=12, fcst_valid_beg=day(0), fcst_var='TMP', stat_name='PSTD_BASER', stat_value=0, total=100, thresh_i=t, oy_i=y, on_i=n) for t, y, n in ((0.25, 10, 30), (0.75, 40, 20))]
f = run(AggStat, rows, line_type='pct', indy_var='thresh_i', indy_vals=['0.25', '0.75'], series_val_1={'model': ['GFS']}, list_stat_1=['PSTD_BASER'])
assert np.allclose(f.stat_value, [0.5, 0.5]), f
'''),
dict(id='summary-first-name', prop='C29', file=S, func='process_rows',
 old="            stat = row['stat_name'].lower()\n", new="            stat = self.input_data['stat_name'].iloc[0].lower()\n",
 needs='a summary of rows that name different statistics', what='every row gets the statistic named by the first row',
 demo=H + '''
from metcalcpy.sum_stat import SumStat
pd.DataFrame([sl('GFS', 12, 0, 3.0, stat='FBAR'), sl('GFS', 12, 1, 3.0, stat='OBAR')]).to_csv(d + '/in', sep='\\t', index=None)
s = SumStat(dict(sum_stat_input=d + '/in', sum_stat_output=d + '/out', line_type='sl1l2', event_equal='False', indy_vals=[None], indy_var='fcst_lead', series_val_1={}, series_val_2={}))
s.calculate_stats()
f = pd.read_csv(d + '/out', sep='\\t')
assert list(f.stat_value) == [3.0, 1.0], f
'''),
dict(id='curve-rows-count-all', prop='C29', file=E, func='_proceed_with_axis',
 old="                if field in self.input_data.keys():\n                    all_filters.append((self.input_data[field].isin(filter_list)))", new="                if field in self.input_data.keys() and not all_filters:\n                    all_filters.append((self.input_data[field].isin(filter_list)))",
 needs='an economic-value run with two series variables', what='rows are selected by the first series variable only',
 demo=H + '''
from metcalcpy.agg_eclv import AggEclv
rows = [dict(model='GFS', fcst_lev=l, stat_name='ECLV', total=100, fy_oy=a, fy_on=10, fn_oy=50 - a, fn_on=40) for l, a in (('P500', 30), ('P850', 45))]
f = run(AggEclv, rows, line_type='ctc', cl_step=0.5, series_val_1={'model': ['GFS'], 'fcst_lev': ['P500', 'P850']}, indy_var='', indy_vals=[])
assert np.allclose(f.y_pnt_i, [0.4, 0.7]) and list(f.nstats) == [1, 1], f
'''),
dict(id='derived-halves-swapped', prop='C15', file=A, func='_get_bootstrapped_stats_for_derived',
 old="np.concatenate((ds_1.values, ds_2.values), axis=1)", new="np.concatenate((ds_2.values, ds_1.values), axis=1)",
 needs='a bootstrapped difference of two series', what='with replicates a derived curve is second minus first',
 demo=G + '''
f = run(AggStat, [sl(m, 12, i, v + i * 0.1) for m, v in (('GFS', 2.0), ('NAM', 8.0)) for i in range(6)], num_iterations=50, derived_series_1=[['GFS TMP FBAR', 'NAM TMP FBAR', 'DIFF']])
assert np.isclose(f.stat_value.iloc[2], -6.0), f
'''),
dict(id='derived-significance-signed', prop='C15', file=A, func='_get_bootstrapped_stats_for_derived',
 old="pval = np.mean(np.absolute(distribution_under_h0) <= np.absolute(results.value))", new="pval = np.mean(np.absolute(distribution_under_h0) <= results.value)",
 needs='a significance curve whose first series is below the second', what='the significance of every negative difference is zero',
 demo=G + '''
f = run(AggStat, [sl(m, 12, i, v + (i % 3) * 0.1 * (m == 'NAM'), stat='ME') for m, v in (('GFS', 2.0), ('NAM', 8.0)) for i in range(6)], list_stat_1=['ME'], num_iterations=50,
        derived_series_1=[['GFS TMP ME', 'NAM TMP ME', 'DIFF_SIG']])
assert np.isclose(abs(f.stat_value.iloc[2]), 1.0), f
'''),
dict(id='driver-default-method', prop='C11', file=A, func='_get_bootstrapped_stats',
 old="                    ci_method=self.params['method'],\n                    alpha=self.params.get('alpha', 0.05),\n                    save_data=has_derived_series,", new="                    alpha=self.params.get('alpha', 0.05),\n                    save_data=has_derived_series,",
 needs='a run configured with the pivotal method', what='plain curves get percentile bounds whatever method is configured',
 demo=G + '''
rows = [sl('GFS', 12, i, v) for i, v in enumerate((1.0, 1.0, 1.0, 1.0, 1.0, 10.0))]
a, b = (run(AggStat, rows, num_iterations=200, method=m, series_val_1={'model': ['GFS']}).iloc[0] for m in ('perc', 'pivotal'))
assert np.isclose(2 * a.stat_value - a.stat_btcu, b.stat_btcl) and np.isclose(2 * a.stat_value - a.stat_btcl, b.stat_btcu), (a, b)
'''),
dict(id='driver-blocks-of-columns', prop='C12', file=E, func='_get_bootstrapped_stats',
 old="                    if is_cbb:\n                        block_length = int(math.sqrt(len(data)))", new="                    if not is_cbb:\n                        block_length = int(math.sqrt(len(data)))",
 needs='an economic-value run with block resampling switched off', what='blocks are drawn exactly when independent rows were requested',
 demo=H + '''
from metcalcpy import agg_eclv
from metcalcpy.bootstrap import BootstrapResults
seen = []
def fake(data, **kw):
    seen.append(kw['block_length'])
    return BootstrapResults([0.0], {'cl': [0.5], 'V': [0.1]}, [0.2])
agg_eclv.bootstrap_and_value = fake
rows = [dict(model='GFS', stat_name='ECLV', total=100, fy_oy=30, fy_on=10, fn_oy=20, fn_on=40) for i in range(9)]
for on, want in (('True', 3), ('False', 1)):
    run(agg_eclv.AggEclv, rows, line_type='ctc', cl_step=0.5, series_val_1={'model': ['GFS']}, indy_var='', indy_vals=[], num_iterations=10, circular_block_bootstrap=on)
    assert seen[-1] == want, (on, seen)
'''),
]
