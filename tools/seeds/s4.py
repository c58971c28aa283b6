PRE = '''
import numpy as np
def tab(**c):
    k = list(c); n = max(len(v) for v in c.values())
    return np.array([[c[x][i] for x in k] for i in range(n)], dtype=object), np.array(k)
def near(a, b, tol=1e-5):
    assert a is not None and abs(a - b) < tol, (a, b)
'''
OBJ = PRE + '''
d, k = tab(fcst_flag=[1, 1, 0, 0, 0, 1], simple_flag=[1, 1, 1, 1, 0, 0], matched_flag=[1, 0, 1, 0, 1, 1], area=[10., 7., 5., 3., 2., 1.],
           object_type=['2d'] * 6)
'''
SEEDS = [
dict(id='mode-area-mixed-group', prop='C06', file='metcalcpy/util/mode_arearat_statistics.py', func='calculate_arearat_osm_osa',
 old="denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}", new="denominator_filter = {'fcst_flag': 0, 'matched_flag': 1}",
 needs='an observed simple object that is unmatched, or a matched observed cluster object',
 what='the share of matched observed area is taken of the matched instead of the simple observed objects',
 demo=OBJ + '''
from metcalcpy.util.mode_arearat_statistics import calculate_arearat_osm_osa
near(calculate_arearat_osm_osa(d, k), 5 / 8)
'''),
dict(id='mode-2d-unfiltered', prop='C06', file='metcalcpy/util/mode_2d_ratio_statistics.py', func='calculate_2d_ratio_osu_osa',
 old="return calculate_ratio_osu_osa(filtered_data, columns_names)", new="return calculate_ratio_osu_osa(input_data, columns_names)",
 needs='an object list holding both 2D and 3D objects',
 what='one 2D ratio counts the 3D objects as well',
 demo=PRE + '''
from metcalcpy.util.mode_2d_ratio_statistics import calculate_2d_ratio_osu_osa
d, k = tab(fcst_flag=[0, 0, 0, 0], simple_flag=[1, 1, 1, 1], matched_flag=[0, 1, 1, 1], area=[1., 1., 1., 1.], object_type=['2d', '2d', '3d', '3d'])
near(calculate_2d_ratio_osu_osa(d, k), .5)
'''),
dict(id='edi-value-error-escapes', prop='C09', file='metcalcpy/util/ctc_statistics.py', func='calculate_edi',
 old="    except (TypeError, ZeroDivisionError, Warning, ValueError):", new="    except (TypeError, ZeroDivisionError, Warning):",
 needs='a table without false alarms or without hits',
 what='EDI raises ValueError (log of zero) instead of being missing',
 demo=PRE + '''
from metcalcpy.util.ctc_statistics import calculate_edi
d, k = tab(fy_oy=[20.], fy_on=[0.], fn_oy=[5.], fn_on=[75.], total=[100.])
assert calculate_edi(d, k) is None
'''),
dict(id='mbias-fabricated', prop='C09', file='metcalcpy/util/sl1l2_statistics.py', func='calculate_mbias',
 old="            result = None", new="            result = 0.0", nth=0,
 needs='a sample whose observed mean is exactly zero',
 what='the multiplicative bias of a zero observed mean is reported as 0 instead of missing',
 demo=PRE + '''
from metcalcpy.util.sl1l2_statistics import calculate_mbias
d, k = tab(total=[4.], fbar=[3.], obar=[0.])
assert calculate_mbias(d, k) is None
'''),
dict(id='fss-warnings-left', prop='C10', file='metcalcpy/util/nbrcnt_statistics.py', func='calculate_nbr_fss',
 old="    warnings.filterwarnings('ignore')\n    return result", new="    if result is not None:\n        warnings.filterwarnings('ignore')\n    return result",
 needs='neighbourhood rows without a fractions skill score reference',
 what='a missing fractions skill score leaves warnings escalated to errors',
 demo=PRE + '''
import warnings
warnings.resetwarnings(); warnings.simplefilter('ignore')
from metcalcpy.util.nbrcnt_statistics import calculate_nbr_fss
d, k = tab(total=[4.], fbs=[3.])
assert calculate_nbr_fss(d, k) is None
warnings.warn('harmless', RuntimeWarning)
'''),
dict(id='pody-handler-returns', prop='C10', file='metcalcpy/util/sl1l2_statistics.py', func='calculate_pr_corr',
 old="        pr_corr = None\n    warnings.filterwarnings('ignore')", new="        return None\n    warnings.filterwarnings('ignore')",
 needs='partial sums with a missing column',
 what='a correlation that cannot be computed leaves warnings escalated to errors',
 demo=PRE + '''
import warnings
warnings.resetwarnings(); warnings.simplefilter('ignore')
from metcalcpy.util.sl1l2_statistics import calculate_pr_corr
d, k = tab(total=[4.], fbar=[3.])
assert calculate_pr_corr(d, k) is None
warnings.warn('harmless', RuntimeWarning)
'''),
dict(id='sum-empty-column-zero', prop='C19', file='metcalcpy/util/utils.py', func='sum_column_data_by_name',
 old="    if data_array is None or np.isnan(data_array).all():", new="    if data_array is None or (len(data_array) > 1 and np.isnan(data_array).all()):",
 needs='a single row whose value is missing',
 what='the sum of one missing cell is reported as zero instead of missing',
 demo=PRE + '''
from metcalcpy.util.utils import sum_column_data_by_name
d, k = tab(total=[np.nan], fbar=[3.])
assert sum_column_data_by_name(d, k, 'total') is None
'''),
dict(id='filter-any-condition', prop='C19', file='metcalcpy/util/utils.py', func='column_data_by_name_value',
 old="            filter_ind = input_data_filtered[:, index_array[0]].astype(type(value)) == value\n            input_data_filtered = input_data_filtered[filter_ind]",
 new="            filter_ind = input_data_filtered[:, index_array[0]].astype(type(value)) == value\n            if filter_ind.any():\n                input_data_filtered = input_data_filtered[filter_ind]",
 needs='a condition no row satisfies',
 what='a condition satisfied by no row is skipped instead of giving an empty selection',
 demo=PRE + '''
from metcalcpy.util.utils import column_data_by_name_value
d, k = tab(fcst_flag=[1, 1, 0], simple_flag=[1, 1, 1])
assert len(column_data_by_name_value(d, k, {'fcst_flag': 1, 'simple_flag': 0})) == 0
'''),
dict(id='mcts-row-view', prop='C20', file='metcalcpy/util/mcts_statistics.py', func='calculate_mcts_hss_ec',
 old="row = input_data[0].copy()", new="row = input_data[0]",
 needs='a table of several rows that is used again afterwards',
 what='the first row of the caller\'s table is overwritten by the column sums',
 demo=PRE + '''
from metcalcpy.util.mcts_statistics import calculate_mcts_hss_ec
c = dict(n_cat=[2, 2], ec_value=[.5, .5])
for n, (i, j, f) in enumerate([(1, 1, 3), (1, 2, 4), (2, 1, 5), (2, 2, 6)]):
    c['i_value_%d' % n] = [i, i]; c['j_value_%d' % n] = [j, j]; c['fi_oj_%d' % n] = [f, f]
d, k = tab(**c)
e = d.copy()
calculate_mcts_hss_ec(d, k)
assert (d == e).all()
'''),
dict(id='ssvar-rename-inplace', prop='C20', file='metcalcpy/util/ssvar_statistics.py', func='calculate_ssvar_anom_corr',
 old="sal1l2_columns_names = np.copy(columns_names)", new="sal1l2_columns_names = np.asarray(columns_names)",
 needs='using the column names again after the anomaly correlation',
 what='the caller\'s column names are renamed, so every later statistic of the same data is missing',
 demo=PRE + '''
from metcalcpy.util.ssvar_statistics import calculate_ssvar_anom_corr
d, k = tab(total=[4.], fbar=[3.], obar=[2.], fobar=[7.], ffbar=[10.], oobar=[8.])
e = k.copy()
calculate_ssvar_anom_corr(d, k)
assert (k == e).all()
'''),
]
