U, Z, V = 'metcalcpy/util/utils.py', 'metcalcpy/agg_stat_eqz.py', 'metcalcpy/util/eclv_statistics.py'
J = '''
import warnings; warnings.simplefilter('ignore')
import pandas as pd
from metcalcpy.util.utils import aggregate_field_values
def row(mask, lead, total, f):
    return dict(vx_mask=mask, fcst_lead=lead, fcst_valid_beg='2020-01-01 00:00:00', total=total, fbar=f, obar=1.0, fobar=f, ffbar=f * f + 1, oobar=2.0, mae=0.0)
'''
SEEDS = [
dict(id='joined-lead-ignored', prop='C08', file=U, func='aggregate_field_values',
 old="                                & (input_data_frame.fcst_lead == lead)\n", new="                                & (input_data_frame.fcst_lead.isin(unique_lead))\n",
 needs='joined regions with more than one lead time at the same valid time', what='the partial sums of all lead times are aggregated into the first one and the others disappear',
 demo=J + '''
f = pd.DataFrame([row(m, l, 10, v) for l, v in ((6, 2.0), (12, 4.0)) for m in ('EAST', 'WEST')])
r = aggregate_field_values({'vx_mask': ['EAST;WEST']}, f, 'sl1l2')
assert sorted(r.fcst_lead) == [6, 12] and sorted(r.fbar) == [2.0, 4.0], r
'''),
dict(id='joined-total-kept', prop='C08', file=U, func='aggregate_field_values',
 old="                                if field in aggregated_result.columns.values:\n", new="                                if field in aggregated_result.columns.values and field != 'total':\n",
 needs='joined regions aggregated and then aggregated or averaged again', what='the aggregated row keeps the number of cases of its first member, so it weighs too little in the next aggregation',
 demo=J + '''
f = pd.DataFrame([row('EAST', 6, 10, 2.0), row('WEST', 6, 30, 4.0)])
r = aggregate_field_values({'vx_mask': ['EAST;WEST']}, f, 'sl1l2')
assert list(r.total) == [40] and list(r.fbar) == [3.5], r
'''),
dict(id='median-error-missing-counted', prop='C26', file=U, func='compute_std_err_from_median_no_variance_inflation_factor',
 old="(1.349 * math.sqrt(len(data) - number_of_none))", new="(1.349 * math.sqrt(len(data)))",
 needs='a series with missing members', what='the standard error of a median counts the missing members as cases',
 demo="""
from metcalcpy.util.utils import compute_std_err_from_median_no_variance_inflation_factor as f
a, b = f([1.0, 2.0, 4.0, 7.0])[0], f([1.0, None, 2.0, 4.0, None, 7.0])[0]
assert abs(a - b) < 1e-9, (a, b)
"""),
dict(id='eclv-threshold-equal', prop='C07', edits=[
 dict(file=V, func='calculate_eclv', old="input_data[:, index_thresh_i] > thresh", new="input_data[:, index_thresh_i] >= thresh"),
 dict(file=V, func='calculate_eclv', old="input_data[:, index_thresh_i] <= thresh", new="input_data[:, index_thresh_i] < thresh")],
 needs='a probability bin equal to the threshold of the curve', what='the cases of the bin at the threshold count as forecast events',
 demo="""
import numpy as np
from metcalcpy.util.eclv_statistics import calculate_eclv
d = np.array([[0.2, 1, 9], [0.5, 4, 6], [0.8, 8, 2]], dtype=float)
r = calculate_eclv(d, np.array(['thresh_i', 'oy_i', 'on_i']), 0.5, 'pct', [0.5])
assert abs(r['H'] - 8 / 13) < 1e-5, r
"""),
dict(id='equalized-series-flattened', prop='C20', file=Z, func='perform_ee_on_axis',
 old="                # filter input data based on fcst_var, statistic and all series variables values\n",
 new="                series_var_vals[:] = series_var_vals_no_group\n\n                # filter input data based on fcst_var, statistic and all series variables values\n",
 needs='a configuration with grouped series values', what='the groups of the configuration are dissolved by the equalization, so a second use of the configuration has other series',
 demo='''
import warnings; warnings.simplefilter('ignore')
import os, tempfile, shutil, atexit, copy
import pandas as pd
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d)
from metcalcpy.agg_stat_eqz import AggStatEventEqz
f = pd.DataFrame([dict(fcst_var='TMP', model=m, stat_name='ME', equalize='a') for m in ('A', 'B')])
f.to_csv(d + '/in', sep='\\t', index=None)
p = dict(agg_stat_input=d + '/in', agg_stat_output=d + '/out', fcst_var_val_1={'TMP': ['ME']}, series_val_1={'model': ['A:B']})
q = copy.deepcopy(p)
AggStatEventEqz(p).perform_ee_on_axis(f)
assert p == q, p
'''),
]
