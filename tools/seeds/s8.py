SEEDS = [
dict(id='bicor-outlier-mask', prop='C26', file='metcalcpy/util/correlation.py', func='bicor',
 old="    w_y = (1 - v ** 2) ** 2 * ((1 - np.abs(v)) > 0)", new="    w_y = (1 - v ** 2) ** 2 * ((1 - np.abs(u)) > 0)",
 needs='an outlier in the second variable only', what='outliers of the second variable are kept (with a large weight) unless the first is one too',
 demo='''
import numpy as np
from metcalcpy.util.correlation import bicor
x = np.array([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])
y = np.array([1.1, 2.3, 2.8, 4.1, 4.9, 400.0])
def w(a):
    m = np.median(a)
    u = (a - m) / (9 * np.median(np.abs(a - m)))
    return (a - m) * np.where(np.abs(u) < 1, (1 - u ** 2) ** 2, 0)
p, q = w(x), w(y)
want = (p * q).sum() / np.sqrt((p ** 2).sum() * (q ** 2).sum())
got = bicor(x, y)[0]
assert abs(got - want) < 1e-9, (got, want)
'''),
dict(id='scorecard-second-unsorted', prop='C17', file='metcalcpy/scorecard.py', func='_get_stats_for_derived',
 old="        ds_2_values = sort_data(ds_2)", new="        ds_2_values = ds_2 if len(ds_2) == len(ds_1) else sort_data(ds_2)",
 needs='input rows of the second series that are not already in time order', what='the second series is not put in case order, so unrelated cases are paired',
 demo='''
import os, tempfile
import numpy as np
import pandas as pd
from metcalcpy.scorecard import Scorecard
d = tempfile.mkdtemp()
rows = []
a = [1.0, 2.0, 4.0, 7.0, 3.0]
b = [1.1, 2.3, 4.2, 7.4, 3.1]
days = ['2019-01-0%d 00:00:00' % (i + 1) for i in range(5)]
for i in range(5):
    rows.append(dict(model='A', fcst_lead=12, fcst_valid_beg=days[i], stat_name='RMSE', vx_mask='N', fcst_var='T', stat_value=a[i]))
for i in (3, 0, 4, 1, 2):
    rows.append(dict(model='B', fcst_lead=12, fcst_valid_beg=days[i], stat_name='RMSE', vx_mask='N', fcst_var='T', stat_value=b[i]))
src, dst = os.path.join(d, 'in.data'), os.path.join(d, 'out.data')
pd.DataFrame(rows).to_csv(src, sep='\\t', index=False)
s = Scorecard({'sum_stat_input': src, 'sum_stat_output': dst, 'series_val_1': {'model': ['A', 'B'], 'fcst_lead': ['12'], 'fcst_var': ['T']},
               'indy_var': 'vx_mask', 'indy_vals': ['N'], 'list_stat_1': ['RMSE'], 'ndays': 5, 'stat_flag': 'EMC',
               'derived_series_1': [['A 12 T RMSE', 'B 12 T RMSE', 'DIFF_SIG']]})
s.calculate_scorecard_data()
got = pd.read_csv(dst, sep='\\t')['stat_value'][0]
d = np.array(b) - np.array(a)
width = round(1.960 * np.sqrt(((d - d.mean()) ** 2).sum() / 5) / 2, 6)
z = (round(np.mean(b), 6) - round(np.mean(a), 6)) / width
level = 1 if z * 2.228 / 4.587 >= 1 else 0.99 if z * 2.228 / 3.169 >= 1 else 0.95 if z >= 1 else 0
assert abs(got - level) < 1e-6, (got, level)
'''),
dict(id='scorecard-bias-sign', prop='C17', file='metcalcpy/scorecard.py', func='_calculate_diff_sig_emc',
 old="            sss = abs(mean2) - abs(mean1)", new="            sss = abs(mean2) - mean1",
 needs='mean error scores where the first series is biased low', what='a low bias of the first series is taken as smaller than any bias of the second',
 demo='''
from metcalcpy.scorecard import Scorecard
s = Scorecard.__new__(Scorecard)
s.params = {'ndays': 5, 'list_stat_1': ['ME'], 'stat_flag': 'EMC'}
got = s._calculate_diff_sig_emc([-3.0, -3.1, -2.9, -3.05, -2.95], [-1.0, -1.2, -0.9, -1.1, -1.0])
assert got == -1, got
'''),
]
