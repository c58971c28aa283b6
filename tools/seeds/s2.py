exec(open('/tmp/sd/s1.py').read().split('SEEDS=')[0])
SEEDS=[
dict(id='eclv-added-point', prop='C07', file='metcalcpy/util/ctc_statistics.py', func='calculate_economic_value',
 old="np.append(cost_lost_ratio, s)", new="np.append(cost_lost_ratio, h)",
 needs='the base-rate point requested', what='the extra curve point is put at the hit rate instead of the base rate',
 demo=PRE+'''
from metcalcpy.util.ctc_statistics import calculate_economic_value
r = calculate_economic_value(np.array([20., 10, 5, 65]), np.array([.1, .5]), True)
assert .25 in list(r['cl']), r['cl']
'''),
dict(id='eclv-pct-below', prop='C07', file='metcalcpy/util/eclv_statistics.py', func='calculate_eclv',
 old="n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less]", new="n01 = np.nansum(input_data[:, index_on_i][thresh_i_less]",
 needs='probability bins', what='misses below the threshold are counted from the non-event column',
 demo=PRE+'''
from metcalcpy.util.eclv_statistics import calculate_eclv
d = np.array([[.1, 5., 60.], [.7, 20., 15.]]); k = np.array(['thresh_i', 'oy_i', 'on_i'])
r = calculate_eclv(d, k, .5, 'pct', np.array([.1, .5]), 0)
near(r['H'], .8); near(r['s'], .25)
'''),
]
