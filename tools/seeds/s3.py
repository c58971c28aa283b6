exec(open('/tmp/sd/s1.py').read().split('SEEDS=')[0])
BIN='''
k = np.array(['total','o_bar','thresh_i_0','oy_i_0','on_i_0','thresh_i_1','oy_i_1','on_i_1','thresh_i_2','oy_i_2','on_i_2'])
d = np.array([[100., .3, .1, 5., 45., .5, 10., 15., .9, 20., 5.], [100., .3, .1, 4., 46., .5, 12., 13., .9, 21., 4.]])
'''
SEEDS=[
dict(id='pstd-roc-at-threshold', prop='C05', file='metcalcpy/util/pstd_statistics.py', func='_calc_pct_roc',
 old="is_less = data['thresh_i'] <= thresh", new="is_less = data['thresh_i'] < thresh",
 needs='any table with cases in the bin at the threshold', what='cases in the bin at the threshold are counted neither above nor below it, so the ROC area is wrong',
 demo=PRE+BIN+'''
from metcalcpy.util.pstd_statistics import calculate_pstd_roc_auc
a = calculate_pstd_roc_auc(d, k)
y = np.array([9., 22, 41]); n = np.array([91., 28, 9])
h = [1] + [y[i + 1:].sum() / y.sum() for i in range(3)] + [0]; f = [1] + [n[i + 1:].sum() / n.sum() for i in range(3)] + [0]
near(a, sum(.5 * (h[i] + h[i + 1]) * (f[i] - f[i + 1]) for i in range(4)), 1e-6)
'''),
dict(id='pstd-reliability-sign', prop='C05', file='metcalcpy/util/pstd_statistics.py', func='calc_reliability',
 old="* (row.thresh_i - row.o_bar_i)\n", new="* abs(row.thresh_i - row.o_bar_i) * row.o_bar_i\n",
 needs='bins with observed frequency other than one', what='reliability weights the squared gap by the observed frequency',
 demo=PRE+BIN+'''
from metcalcpy.util.pstd_statistics import calculate_pstd_reliability
y = np.array([9., 22, 41]); n = np.array([100., 50, 50]); p = np.array([.1, .5, .9])
near(calculate_pstd_reliability(d, k), (n * (p - y / n) ** 2).sum() / n.sum(), 1e-6)
'''),
dict(id='mcts-first-row', prop='C05', file='metcalcpy/util/mcts_statistics.py', func='calculate_mcts_hss_ec',
 old="sum_column_data_by_name(input_data, columns_names, column_name)", new="sum_column_data_by_name(input_data[:n_cat], columns_names, column_name)",
 needs='more rows than categories', what='only as many rows as there are categories are aggregated',
 demo=PRE+'''
from metcalcpy.util.mcts_statistics import calculate_mcts_hss_ec
k = np.array(['n_cat', 'ec_value'] + ['%s_%d' % (f, c) for c in range(4) for f in ('i_value', 'j_value', 'fi_oj')])
row = lambda a, b, c, e: [2, .5, 1, 1, a, 1, 2, b, 2, 1, c, 2, 2, e]
d = np.array([row(10, 2, 3, 20), row(5, 5, 5, 5), row(1, 20, 20, 1)], dtype=object)
s = 97.; g = 42.
near(calculate_mcts_hss_ec(d, k), (g - .5 * s) / (s - .5 * s), 1e-6)
'''),
]
