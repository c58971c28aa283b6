SEEDS = [
dict(id='weight-ge-obs-total', prop='C08', file='metcalcpy/agg_stat.py', func='_prepare_ecnt_data',
 old="                        = data_for_prepare[column].values * data_for_prepare['n_lt_obs'].values",
 new="                        = data_for_prepare[column].values * data_for_prepare['n_ge_obs'].values",
 needs='rows with different numbers of members above and below the observation', what='the below-observation error is weighted by the above-observation count',
 demo='''
import numpy as np, pandas as pd
from metcalcpy.agg_stat import AggStat
from metcalcpy.util.ecnt_statistics import calculate_ecnt_me_lt_obs as f
a = AggStat.__new__(AggStat)
a.statistic = 'ecnt_me_lt_obs'
names = 'total rmse rmse_oerr spread spread_oerr spread_plus_oerr n_ge_obs me_ge_obs n_lt_obs me_lt_obs'.split()
d = pd.DataFrame([[5., 1, 1, 1, 1, 1, 4, 2, 1, -3], [5., 1, 1, 1, 1, 1, 2, 2, 3, -1]], columns=names)
a._prepare_ecnt_data(d)
assert abs(f(d.to_numpy(), d.columns.values) - -1.5) < 1e-9
'''),
dict(id='weight-msess-obar', prop='C08', file='metcalcpy/agg_stat.py',
 old="        'msess': ['ffbar', 'oobar', 'fobar', 'obar'],", new="        'msess': ['ffbar', 'oobar', 'fobar'],",
 needs='rows with sample sizes other than one', what='the skill score divides an unweighted observation mean by the total',
 demo='''
import numpy as np, pandas as pd
from metcalcpy.agg_stat import AggStat
from metcalcpy.util.sl1l2_statistics import calculate_msess as f
a = AggStat.__new__(AggStat)
a.statistic = 'msess'
d = pd.DataFrame([[3., 2., 3., 7., 5., 12.], [7., 4., 2., 9., 18., 6.]], columns='total fbar obar fobar ffbar oobar'.split())
o, oo, ff, fo = (9 + 14) / 10, (36 + 42) / 10, (15 + 126) / 10, (21 + 63) / 10
mse = ff + oo - 2 * fo
want = 1 - mse / ((oo - o * o) * 10 / 9)
a._prepare_sl1l2_data(d)
got = f(d.to_numpy(), d.columns.values, True)
assert abs(got - want) < 1e-4, (got, want)
'''),
dict(id='weight-grouped-rate-mean', prop='C08', file='metcalcpy/util/utils.py', func='calc_series_sums',
 old="        dbl_f_rate = np.nansum(input_df['f_rate'] * input_df.total.astype(float)) / total",
 new="        dbl_f_rate = np.nanmean(input_df['f_rate'].astype(float))",
 needs='grouped neighbourhood rows of unequal sample size', what='the forecast rate of a group is a plain mean over rows',
 demo='''
import pandas as pd
from metcalcpy.util.utils import calc_series_sums
d = pd.DataFrame([[1., .1, .5, .5, .5, .2, .4], [3., .2, .5, .5, .5, .6, .4]], columns='total fbs fss afss ufss f_rate o_rate'.split())
assert abs(calc_series_sums(d, 'nbrcnt')['f_rate'][0] - .5) < 1e-9
'''),
]
