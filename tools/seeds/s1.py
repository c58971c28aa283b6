PRE='''
import numpy as np
def tab(**c):
    k = list(c); n = max(len(v) for v in c.values())
    return np.array([[c[x][i] for x in k] for i in range(n)], dtype=object), np.array(k)
def near(a, b, tol=1e-5):
    assert a is not None and abs(a - b) < tol, (a, b)
'''
SEEDS=[
dict(id='ctc-seds-miss-swap', prop='C01', file='metcalcpy/util/ctc_statistics.py', func='calculate_seds',
 old="math.log((fy_oy + fn_oy) / total)", new="math.log((fy_oy + fy_on) / total)",
 needs='a table whose misses and false alarms differ',
 what='SEDS uses the forecast frequency twice instead of the forecast and the observed frequency',
 demo=PRE+'''
import math
from metcalcpy.util.ctc_statistics import calculate_seds
d, k = tab(fy_oy=[20.], fy_on=[10.], fn_oy=[5.], fn_on=[65.], total=[100.])
near(calculate_seds(d, k), (math.log(.3) + math.log(.25)) / math.log(.2) - 1)
'''),
dict(id='ctc-bagss-no-guard', prop='C01', file='metcalcpy/util/ctc_statistics.py', func='calculate_bagss',
 old="dbl_lf = np.log(dbl_o / fn_oy)", new="dbl_lf = np.log(dbl_o / fy_oy)",
 needs='hits different from misses',
 what='the bias adjustment takes the log of observed over hits, not over misses',
 demo=PRE+'''
from scipy.special import lambertw
from metcalcpy.util.ctc_statistics import calculate_bagss
d, k = tab(fy_oy=[20.], fy_on=[10.], fn_oy=[5.], fn_on=[65.], total=[100.])
o = 25.; lf = np.log(o / 5); ha = o - 10 / lf * lambertw(o / 10 * lf).real
near(calculate_bagss(d, k), (ha - o * o / 100) / (2 * o - ha - o * o / 100))
'''),
dict(id='nbr-odds-wrong-score', prop='C01', file='metcalcpy/util/nbrctc_statistics.py', func='calculate_nbr_podn',
 old="return calculate_podn(", new="return 1 - calculate_pofd(",
 needs='a table without observed non-events, or counts whose rounded rates do not add to one',
 what='the neighbourhood POD(no) raises where the plain score is missing',
 demo=PRE+'''
from metcalcpy.util.nbrctc_statistics import calculate_nbr_podn
d, k = tab(fy_oy=[20.], fy_on=[0.], fn_oy=[5.], fn_on=[0.], total=[25.])
assert calculate_nbr_podn(d, k) is None
'''),
dict(id='sl1l2-estdev-plain', prop='C02', file='metcalcpy/util/sl1l2_statistics.py', func='calculate_bcmse',
 old="me = calculate_me(input_data, columns_names, aggregation)", new="me = calculate_me(input_data, columns_names)",
 needs='aggregated rows with a nonzero bias',
 what='the bias removed from the MSE is the undivided sum when aggregating',
 demo=PRE+'''
from metcalcpy.util.sl1l2_statistics import calculate_bcmse
# forecasts 1,2,3 observations 2,2,5 : weighted columns sum*1
d, k = tab(total=[3.], fbar=[6.], obar=[9.], fobar=[21.], ffbar=[14.], oobar=[33.])
near(calculate_bcmse(d, k, True), 5/3 - 1)
'''),
dict(id='sal1l2-corr-clamp', prop='C02', file='metcalcpy/util/sal1l2_statistics.py', func='calculate_anom_corr',
 old="* (total ** 2 * oobar - total ** 2 * obar ** 2)", new="* (total ** 2 * oobar - total ** 2 * obar * fbar)",
 needs='forecast and observation anomalies with different means',
 what='observation variance of the anomaly correlation mixes in the forecast mean',
 demo=PRE+'''
from metcalcpy.util.sal1l2_statistics import calculate_anom_corr
f = np.array([1., 2, 4, 3]); o = np.array([2., 2, 7, 5])
d, k = tab(total=[4.], fabar=[f.mean()], oabar=[o.mean()], foabar=[(f*o).mean()], ffabar=[(f*f).mean()], ooabar=[(o*o).mean()])
near(calculate_anom_corr(d, k), np.corrcoef(f, o)[0, 1])
'''),
dict(id='vl1l2-ospd-mixed', prop='C03', file='metcalcpy/util/vl1l2_statistics.py', func='calculate_vl1l2_ospd',
 old="columns_names, 'vobar')", new="columns_names, 'vfbar')",
 needs='forecast and observed v components that differ',
 what='the observed mean-vector speed uses the forecast v component',
 demo=PRE+'''
from metcalcpy.util.vl1l2_statistics import calculate_vl1l2_ospd
d, k = tab(total=[4.], ufbar=[1.], vfbar=[2.], uobar=[3.], vobar=[4.])
near(calculate_vl1l2_ospd(d, k), 5)
'''),
dict(id='val1l2-corr-order', prop='C03', file='metcalcpy/util/val1l2_statistics.py', func='calculate_val1l2_anom_corr',
 old="uoabar, voabar, uvfoabar", new="voabar, uoabar, uvfoabar",
 needs='observed u and v anomalies that differ',
 what='observed u and v components are exchanged in the wind correlation',
 demo=PRE+'''
from metcalcpy.util.val1l2_statistics import calculate_val1l2_anom_corr
d, k = tab(total=[9.], ufabar=[1.], vfabar=[.5], uoabar=[.2], voabar=[1.5], uvfoabar=[3.], uvffabar=[5.], uvooabar=[6.])
cov = 3 - 1*.2 - .5*1.5
near(calculate_val1l2_anom_corr(d, k), cov / (np.sqrt(5 - 1 - .25) * np.sqrt(6 - .04 - 2.25)))
'''),
dict(id='nbr-afss-den', prop='C04', file='metcalcpy/util/nbrcnt_statistics.py', func='calculate_nbr_afss',
 old="f_rate * f_rate + o_rate * o_rate", new="f_rate * f_rate + o_rate * f_rate",
 needs='different forecast and observed rates',
 what='asymptotic fractions skill score denominator uses the cross term',
 demo=PRE+'''
from metcalcpy.util.nbrcnt_statistics import calculate_nbr_afss
d, k = tab(total=[4.], f_rate=[.3], o_rate=[.6])
near(calculate_nbr_afss(d, k), 2*.18/(.09+.36))
'''),
dict(id='ecnt-crpss-ref', prop='C04', file='metcalcpy/util/ecnt_statistics.py', func='calculate_ecnt_crpss_emp',
 old="'crpscl_emp'", new="'crpscl'",
 needs='rows where the empirical and normal climatological CRPS differ',
 what='the empirical skill score is taken against the reference of the normal-distribution score',
 demo=PRE+'''
from metcalcpy.util.ecnt_statistics import calculate_ecnt_crpss_emp
d, k = tab(total=[4.], crps=[.3], crpscl=[.6], crps_emp=[.2], crpscl_emp=[.8])
near(calculate_ecnt_crpss_emp(d, k), .75)
'''),
dict(id='eclv-base-rate-side', prop='C07', file='metcalcpy/util/ctc_statistics.py', func='calculate_economic_value',
 old="v_2 = h - (1 - s) / s * cl_local / (1 - cl_local) * f", new="v_2 = h - (1 - s) / s * cl_local / (1 - s) * f",
 needs='a cost/loss ratio above the base rate and nonzero false alarms',
 what='the upper branch of the economic value is scaled with the base rate instead of the ratio',
 demo=PRE+'''
from metcalcpy.util.ctc_statistics import calculate_economic_value
a = .5; H = 20/25; F = 10/75; s = .25
r = calculate_economic_value(np.array([20., 10, 5, 65]), np.array([a]))
near(r['V'][0], (min(a, s) - F*(1-s)*a + H*s*(1-a) - s) / (min(a, s) - s*a))
'''),
dict(id='eclv-args-order', prop='C07', file='metcalcpy/util/eclv_statistics.py', func='calculate_eclv',
 old="np.array([n11, n10, n01, n00])", new="np.array([n11, n01, n10, n00])",
 needs='misses different from false alarms',
 what='misses and false alarms are exchanged on the way into the economic value',
 demo=PRE+'''
from metcalcpy.util.eclv_statistics import calculate_eclv
d, k = tab(fy_oy=[20.], fy_on=[10.], fn_oy=[5.], fn_on=[65.], total=[100.])
r = calculate_eclv(d, k, None, 'ctc', np.array([.1, .5]), 0)
near(r['H'], .8); near(r['s'], .25)
'''),
]
