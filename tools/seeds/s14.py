F = 'metcalcpy/contributed/spacetime/spacetime.py'
W = 'metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py'
U = 'metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py'
B = 'metcalcpy/contributed/blocking_weather_regime/Blocking.py'
I = 'metcalcpy/contributed/rmm_omi/compute_mjo_indices.py'
M = 'metcalcpy/contributed/spacetime/matsuno_plot.py'
STUB = '''
import sys, types, os
from unittest import mock
for n in ('pylab', 'sklearn', 'sklearn.cluster', 'eofs', 'eofs.standard', 'matplotlib', 'matplotlib.pyplot', 'xarray', 'netCDF4', 'eofs.xarray', 'metpy', 'metpy.units', 'pint', 'matplotlib.cm', 'matplotlib.colors'):
    try:
        __import__(n)
    except Exception:
        m = mock.MagicMock()
        m.__all__ = []
        sys.modules[n] = m
os.environ.setdefault('SCRIPT_OUTPUT_BASE', '.')
import numpy as np
'''
SEEDS = [
dict(id='cross-conjugate-side', prop='C28', file=F, func='mjo_cross_segment_realfft',
 old="    PXY = np.conj(Xfft) * Yfft\n    CXY = np.average(np.real(PXY), axis=1)", new="    PXY = np.conj(Yfft) * Xfft\n    CXY = np.average(np.real(PXY), axis=1)",
 needs='two fields that are out of phase', what='the quadrature spectrum of real transforms, and with it every phase, changes sign',
 demo=STUB + '''
from metcalcpy.contributed.spacetime.spacetime import mjo_cross_segment_realfft as f
t, x = np.meshgrid(np.arange(8), np.arange(6), indexing='ij')
a = np.cos(2 * np.pi * (t / 8 - x / 6))[:, None, :]
b = np.cos(2 * np.pi * (t / 8 - x / 6) - 0.5 * np.pi)[:, None, :]
s = f(a, b)
X, Y = np.fft.rfft2(a[:, 0, :].T), np.fft.rfft2(b[:, 0, :].T)
want = (np.conj(X) * Y).imag / 48 ** 2
i = np.unravel_index(np.argmax(np.abs(want)), want.shape)
assert np.sign(s[3][np.unravel_index(np.argmax(np.abs(s[3])), s[3].shape)]) == np.sign(want[i])
'''),
dict(id='symmetric-odd-equator', prop='C28', file=F, func='get_symmasymm',
 old="                for ll in range(NM // 2 + 1):", new="                for ll in range((NM + 1) // 2 - 1 + (NM < 3)):",
 needs='an odd number of latitudes', what='the symmetric part of the last row is left as the northern value instead of the average over the equator',
 demo=STUB + '''
from metcalcpy.contributed.spacetime.spacetime import get_symmasymm as f
lat = np.array([-20., -10, 0, 10, 20])
x = np.random.RandomState(0).randn(2, 5, 3)
got = f(x, lat, 'symm')
want = np.stack([0.5 * (x[:, i] + x[:, 4 - i]) for i in range(3)], axis=1)
assert np.allclose(got, want)
'''),
dict(id='smooth-end-weight', prop='C28', file=F, func='smooth121_1D',
 old="        elif i == (len(temp)-1) or np.isnan(temp[i+1]):", new="        elif i == (len(temp)-1) or np.isnan(temp[i+1]) and i > 1:",
 needs='a gap right after the second value', what='the second value before a gap becomes missing too instead of using 3-1 weights',
 demo=STUB + '''
from metcalcpy.contributed.spacetime.spacetime import smooth121_1D as f
got = f(np.array([1., 5., np.nan, 2., 4., 8.]))
assert got[1] == 4.0, got
'''),
dict(id='segments-rest-dropped', prop='C28', file=F, func='mjo_cross',
 old="        ntStrt = ntLast + segOverLap - 1", new="        ntStrt = ntLast + segOverLap - 1 if segOverLap < 0 else ntLast",
 needs='segments separated by a gap', what='a gap between the segments is not honoured',
 demo=STUB + '''
from metcalcpy.contributed.spacetime.spacetime import mjo_cross
x = np.random.RandomState(1).randn(26, 2, 4)
r = mjo_cross(x, x[::-1].copy(), 8, 3)
assert r['nseg'] == 2, r['nseg']
'''),
dict(id='wave-filter-rossby-mode', prop='C28', file=F, func='kf_filter_mask',
 old="            ftmp = np.sqrt(5 * beta * c + k ** 2 * c ** 2)", new="            ftmp = np.sqrt(5 * beta * c + k ** 2 * c)",
 needs='a filter for the second inertio-gravity mode with wave numbers far from zero', what='the phase speed enters the gravity wave term linearly, so the band of large wave numbers is wrong',
 demo=STUB + '''
from metcalcpy.contributed.spacetime.spacetime import kf_filter_mask as f
z = np.ones((64, 40), dtype=complex)
a = np.asarray(f(z.copy(), 8, 0.3, 60, 1, 15, 12, 90, 'IG2'))
kept = sorted(int(np.max(np.nonzero(r))) for r in a if np.any(r))
assert len(set(kept)) > 3, kept
'''),
dict(id='mrg-root-sign', prop='C28', file=M, func='mrg_mode',
 old="angular_frequency = np.sqrt(g*he)*k*(0.5-0.5*", new="angular_frequency = np.sqrt(g*he)*np.abs(k)*(0.5-0.5*", needs='any wave number', what='the mixed Rossby-gravity curve has the wrong sign',
 demo=STUB + '''
from metcalcpy.contributed.spacetime.matsuno_plot import mrg_mode
d = mrg_mode(25, 0, 10, 4)
v = d.iloc[:, 0].dropna().values
assert len(v) == 2 and (v > 0).all(), v
'''),
dict(id='projection-one-by-one', prop='C28', file=I, func='regress_vector_onto_eofs',
 old="    pc1, pc2 = x[0]\n", new="    pc1, pc2 = [np.dot(e, vector) / np.dot(e, e) for e in (eof1, eof2)] if len(x[0]) == 2 else x[0]\n",
 needs='two patterns that are not orthogonal', what='every pattern is regressed on its own, so shared variance is counted twice',
 demo=STUB + '''
from metcalcpy.contributed.rmm_omi.compute_mjo_indices import regress_vector_onto_eofs as f
a, b = np.array([1., 0, 1]), np.array([1., 1, 0])
assert np.allclose(f(2 * a - 3 * b, a, b), [2, -3])
'''),
dict(id='regime-window-short', prop='C28', file=W, func='compute_wr_freq',
 old="                d1=d1+1;d2=d2+1", new="                d1=d1+1;d2=min(d2+1,len(WR[0,:])-1) if dd else d2+1",
 needs='the last window of a season', what='the last day of the season is never counted',
 demo=STUB + '''
from metcalcpy.contributed.blocking_weather_regime.WeatherRegime import WeatherRegimeCalculation as C
c = C('FCST')
c.wrnum, c.wr_tstep = 2, 2
f = c.compute_wr_freq(np.array([[1, 1, 2, 2, 2]]))[0]
assert (f[:, 0, 3] == [0, 2]).all() and (f.sum(axis=0) == 2).all(), f
'''),
dict(id='regime-reorder-inverse', prop='C28', file=U, func='reorder_fcst_regimes',
 old="        wrc_cur = np.where(wrc_fcst == fcst_order[wrn])\n        wrc_fcst_new[wrc_cur] = wrn + 1", new="        wrc_cur = np.where(wrc_fcst == wrn + 1)\n        wrc_fcst_new[wrc_cur] = fcst_order[wrn]",
 needs='an order of three regimes that is not its own inverse', what='days are relabelled with the inverse of the order used for patterns and frequencies',
 demo=STUB + '''
from metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util import reorder_fcst_regimes as f
k = np.arange(3.).reshape(3, 1, 1)
days = np.array([[1., 2, 3, 3, 3, 2]])
p = np.array([1 / 6, 2 / 6, 3 / 6])
a, b, c = f(k, p, days, 3, [2, 3, 1])
for i in range(3):
    assert np.isclose((c == i + 1).mean(), b[i]), (b, c)
'''),
dict(id='kmeans-pattern-rank', prop='C28', file=W, func='run_K_means',
 old="        input=yf[ii]\n        ii = ii[::-1]", new="        input=yf[np.argsort(ii)]\n        ii = ii[::-1]",
 needs='three clusters whose order of frequency is a cyclic shift', what='patterns are listed in the order of the ranks and no longer belong to their labels and frequencies',
 demo=STUB + '''
import metcalcpy.contributed.blocking_weather_regime.WeatherRegime as W
class K:
    def __init__(self, **k): pass
    def fit(self, a):
        self.cluster_centers_ = np.array([[0.], [10.], [20.]])
        self.labels_ = np.array([0, 0, 0, 1, 2, 2])
        return self
W.KMeans = K
c = W.WeatherRegimeCalculation('FCST')
c.wrnum = 3
pat, n, perc, days = c.run_K_means(np.zeros((6, 1)), None, (1, 6, 1, 1))
assert pat.ravel().tolist() == [0., 20., 10.] and days.ravel().tolist() == [1, 1, 1, 3, 2, 2], (pat.ravel(), days)
'''),
dict(id='blocking-last-shift', prop='C28', file=B, func='run_mod_blocking1d',
 old="                    d0 = dc-l", new="                    d0 = dc-l if l<=0 else dc",
 needs='a latitude shift to the north', what='the northern shift uses the unshifted centre, so its two means share the wrong rows',
 demo=STUB + '''
for n in ('Blocking_WeatherRegime_util',):
    pass
import metcalcpy.contributed.blocking_weather_regime.Blocking as B
c = B.BlockingCalculation.__new__(B.BlockingCalculation)
c.lat_delta, c.n_s_limits = [-1, 0, 1], 2
z = np.random.RandomState(0).randn(20, 9, 2)
cbl = np.array([86., 85.])
flag, index = c.run_mod_blocking1d(z, cbl, np.arange(9), np.arange(2), 'PH')
for t in range(20):
    for j in range(2):
        d = int(90 - cbl[j])
        want = max(z[t, d - 1 - l:d - l + 1, j].mean() - z[t, d - l:d + 1 - l + 1, j].mean() for l in (-1, 0, 1))
        assert np.isclose(want, index[t, j])
'''),
dict(id='mpr-observed-time', prop='C28', file=U, func='write_mpr_file',
 old="time_fcst['valid'][y][dd],time_obs['lead'][y][dd],time_obs['valid'][y][dd],\n                            time_obs['valid'][y][dd],", new="time_fcst['valid'][y][dd],time_obs['lead'][y][dd],time_fcst['valid'][y][dd],\n                            time_obs['valid'][y][dd],",
 needs='observation times that differ from the forecast times', what='the beginning of the observation window is the forecast time',
 demo=STUB + '''
import tempfile, glob, shutil
from metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util import write_mpr_file as f
d = tempfile.mkdtemp()
one = np.array([[[1.5]]])
f(one, one + 1, [40.], [10.], {'lead': [['00']], 'valid': [['20200102_060000']]}, {'lead': [['24']], 'valid': [['20200102_000000']]}, 'M', 'D', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', d + '/o')
text = open(glob.glob(d + '/*')[0]).read().split('\\n')
shutil.rmtree(d)
rec = dict(zip(text[0].split(), text[1].split()))
assert rec['OBS_VALID_BEG'] == rec['OBS_VALID_END'] == '20200102_060000', rec
'''),
]
