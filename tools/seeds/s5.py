SEEDS = [
dict(id='boot-perc-upper-halved', prop='C11', file='metcalcpy/bootstrap.py', func='_get_confidence_interval_and_value',
 old="            high = _np.percentile(bd, 100 * (1 - alpha / 2.), method='linear')", new="            high = _np.percentile(bd, 100 - 100 * alpha, method='linear')",
 needs='percentile bounds of a spread-out distribution', what='the upper percentile bound leaves alpha instead of alpha/2 above it',
 demo='''
import numpy as np
from metcalcpy.bootstrap import _get_confidence_interval_and_value as f
r = f(np.arange(1001.), 500., .1, 'perc')
assert abs(r.lower_bound - 50) < 1e-9 and abs(r.upper_bound - 950) < 1e-9, (r.lower_bound, r.upper_bound)
'''),
dict(id='boot-mode-value-all-cases', prop='C11', file='metcalcpy/bootstrap.py', func='bootstrap_and_value_mode',
 old="    stat_val = stat_func(values_current)[0]", new="    stat_val = stat_func(values.to_numpy())[0]",
 needs='an object bootstrap over some of the cases', what='the reported value is taken over all cases instead of the selected ones',
 demo='''
import numpy as np, pandas as pd
from metcalcpy.bootstrap import bootstrap_and_value_mode
np.random.seed(3)
v = pd.DataFrame({'case': ['a', 'a', 'b', 'c'], 'x': [1., 2., 3., 100.]})
def stat(x):
    return [x[:, 1].mean()] if x.shape[-1] == 2 and x.ndim == 2 else [float(len(r)) for r in x]
r = bootstrap_and_value_mode(v, np.array([['a'], ['b'], ['b']]), stat, num_iterations=20)
assert abs(r.value - 2.) < 1e-9, r.value
'''),
dict(id='boot-draw-skips-last', prop='C12', file='metcalcpy/bootstrap.py', func='_generate_distributions_cbb',
 old="    ids = _np.random.choice(\n        values_shape,", new="    ids = _np.random.choice(\n        max(values_shape - 1, 1),",
 needs='many draws from a sample of two or more rows', what='the last row of the sample is never drawn',
 demo='''
import numpy as np
from metcalcpy.bootstrap import _generate_distributions_cbb as f
np.random.seed(1)
r = f([np.arange(5)], 400)[0]
assert set(r.flatten().tolist()) == {0, 1, 2, 3, 4}
'''),
dict(id='boot-block-clamped', prop='C12', file='metcalcpy/bootstrap.py', func='_generate_distributions_cbb',
 old="                    new_val = new_val - len(row)", new="                    new_val = len(row) - 1",
 needs='a block that starts near the end of the sample', what='blocks stick at the last row instead of wrapping to the first',
 demo='''
import numpy as np
from metcalcpy.bootstrap import _generate_distributions_cbb as f
np.random.seed(1)
for r in f([np.arange(6)], 200, 3)[0]:
    for i in range(0, 6, 3):
        assert (r[i + 1] - r[i]) % 6 == 1 and (r[i + 2] - r[i]) % 6 == 2, r
'''),
dict(id='boot-last-batch-full', prop='C12', file='metcalcpy/bootstrap.py', func='_bootstrap_sim_cbb',
 old="        max_rng = min(iteration_batch_size, num_iterations - rng)", new="        max_rng = min(iteration_batch_size, num_iterations)",
 needs='an iteration count that is not a multiple of the batch size', what='the last batch is a full one, so more replicates are drawn than requested',
 demo='''
import numpy as np
from metcalcpy.bootstrap import _bootstrap_sim_cbb as f
r = f([np.arange(5.)], [lambda v: [x.mean() for x in v]], 10, 4, 1)
assert r.shape[1] == 10, r.shape
'''),
dict(id='derived-ss-second', prop='C15', file='metcalcpy/util/utils.py', func='calc_derived_curve_value',
 old="            result_val = [(a - b) / a for a, b in zip(val1, val2)]", new="            result_val = [(a - b) / abs(a) for a, b in zip(val1, val2)]",
 needs='a skill score of a series with negative values', what='the skill score divides by the magnitude of the first value',
 demo='''
from metcalcpy.util.utils import calc_derived_curve_value as f
assert f([-4., 2.], [-1., 1.], 'SS') == [.75, .5], f([-4., 2.], [-1., 1.], 'SS')
'''),
dict(id='derived-missing-second-only', prop='C15', file='metcalcpy/util/utils.py', func='calc_derived_curve_value',
 old="            or None in val2 or len(val1) != len(val2):", new="            or None in val2 or len(val1) < len(val2):",
 needs='a first series longer than the second', what='series of unequal length are cut to the shorter one instead of being missing',
 demo='''
from metcalcpy.util.utils import calc_derived_curve_value as f
assert f([1., 2., 3.], [1., 1.], 'DIFF') is None
'''),
dict(id='perfect-zero-signed', prop='C16', file='metcalcpy/util/utils.py', func='perfect_score_adjustment',
 old="            and abs(mean_stats_1) > abs(mean_stats_2):", new="            and mean_stats_1 > mean_stats_2:",
 needs='a signed error statistic with a negative value', what='the sign is decided by the signed instead of the absolute error',
 demo='''
from metcalcpy.util.utils import perfect_score_adjustment as f
assert f(-3., 1., 'ME', .9) == -.9
assert f(1., -3., 'ME', .9) == .9
'''),
dict(id='perfect-mbias-group', prop='C16', edits=[
 dict(file='metcalcpy/util/utils.py', func='perfect_score_adjustment', old="'KT_CORR', 'MBIAS', 'ANOM_CORR'", new="'KT_CORR', 'ANOM_CORR'"),
 dict(file='metcalcpy/util/utils.py', func='perfect_score_adjustment', old="'E90', 'EIQR', 'MAD', 'ME2'", new="'E90', 'EIQR', 'MAD', 'MBIAS', 'ME2'")],
 needs='multiplicative biases below one', what='multiplicative bias is judged against a perfect score of zero',
 demo='''
from metcalcpy.util.utils import perfect_score_adjustment as f
assert f(.9, .5, 'MBIAS', .97) == .97
'''),
dict(id='driver-derived-second-name', prop='C30', file='metcalcpy/agg_stat.py',
 old="                    stat_2 = values_2[0, stat_column_index].lower()", new="                    stat_2 = values_1[0, stat_column_index].lower()",
 needs='a bootstrapped derived curve of two different statistics', what='both halves of a bootstrapped derived curve use the statistic of the first',
 demo='''
import numpy as np
from metcalcpy.agg_stat import AggStat
a = AggStat.__new__(AggStat)
a.statistic = 'fbar'
a.column_names = np.array(['stat_name', 'total', 'fbar', 'obar'])
row = ['FBAR', 4., 8., 12., 'OBAR', 4., 8., 12., 'DIFF']
v = np.array([row], dtype=object)
assert a._calc_stats_derived(v) == [-1.], a._calc_stats_derived(v)
assert a._calc_stats_derived(v[None]) == [[-1.]], a._calc_stats_derived(v[None])
'''),
dict(id='driver-sum-aggregating', prop='C30', file='metcalcpy/sum_stat.py', func='calculate_statistic',
 old="        stat = globals()[func_name](values, columns_names, aggregation)", new="        stat = globals()[func_name](values, columns_names, len(values) > 0)",
 needs='a summary row whose statistic divides by its sample size', what='single rows are treated as aggregates',
 demo='''
import numpy as np
from metcalcpy.sum_stat import calculate_statistic
assert calculate_statistic(np.array([[4., 8.]], dtype=object), np.array(['total', 'fbar']), 'fbar') == 8.
'''),
]
