SEEDS = [
dict(id='difficulty-threshold-equal', prop='C23', file='metcalcpy/calc_difficulty_index.py', func='_difficulty_index',
 old="np.ma.masked_greater_equal(fieldijn, threshold).count(axis=-1)", new="np.ma.masked_greater(fieldijn, threshold).count(axis=-1)",
 needs='an ensemble member exactly at the threshold', what='members equal to the threshold are counted as being under it',
 demo='''
import numpy as np
from metcalcpy.calc_difficulty_index import forecast_difficulty
from metcalcpy.piecewise_linear import PiecewiseLinear
flat = PiecewiseLinear([0.0, 100.0], [1.0, 1.0], left=1.0, right=1.0)
field = np.array([[[9.0, 8.0, 8.0, 10.0]]])
got = forecast_difficulty(np.array([[1.0]]), np.array([[9.0]]), 9.0, field, flat)
assert abs(got[0, 0] - 0.5 * (1 + 1)) < 1e-9, got
'''),
dict(id='difficulty-reference-ignored', prop='C23', file='metcalcpy/calc_difficulty_index.py', func='_difficulty_index',
 old="    variance_term = sigma_over_mu / sigma_over_mu_ref", new="    variance_term = sigma_over_mu / sigma_over_mu_max",
 needs='a reference spread ratio larger than the largest of the field', what='the spread is normalised with the current field only, never with the given reference',
 demo='''
import numpy as np
from metcalcpy.calc_difficulty_index import forecast_difficulty
from metcalcpy.piecewise_linear import PiecewiseLinear
flat = PiecewiseLinear([0.0, 100.0], [1.0, 1.0], left=1.0, right=1.0)
field = np.array([[[8.0, 8.0, 10.0, 10.0]]])
got = forecast_difficulty(np.array([[1.0]]), np.array([[10.0]]), 9.0, field, flat, 0.4)
assert abs(got[0, 0] - 0.5 * (0.25 + 1)) < 1e-9, got
'''),
dict(id='wave-numbers-from-one', prop='C24', file='metcalcpy/pre_processing/waves.py', func='_zonal_wave_coeffs_scipy',
 old="np.arange(0, nlons//2 + 1)", new="np.arange(1, nlons//2 + 2)",
 needs='a request for selected wavenumbers', what='the zonal mean is labelled wavenumber one, so every selected wave is one too low',
 demo='''
import numpy as np
import xarray as xr
from metcalcpy.pre_processing.waves import zonal_wave_coeffs
lon = np.arange(0, 360, 30.0)
dat = xr.DataArray(3.0 * np.cos(2 * np.deg2rad(lon)), coords={'longitude': lon}, dims=['longitude'])
fc = zonal_wave_coeffs(dat, waves=[1, 2])
assert abs(fc.values[0]) < 1e-9 and abs(fc.values[1] - 18) < 1e-9, fc.values
'''),
dict(id='tangential-wind-sign', prop='C24', file='metcalcpy/process_tcrmw.py', func='compute_wind_components',
 old="    u_tangential = - np.sin(theta) * ds[args.u].values + np.cos(theta) * ds[", new="    u_tangential = np.sin(theta) * ds[args.u].values + np.cos(theta) * ds[",
 needs='a wind with an eastward component', what='the tangential wind is not the projection on the counter-clockwise direction',
 demo='''
from argparse import Namespace
import numpy as np
import xarray as xr
from metcalcpy.process_tcrmw import compute_wind_components
az = np.array([20.0, 110.0, 200.0, 300.0])
dims = ['range', 'azimuth', 'pressure', 'track_point']
rng = np.random.default_rng(3)
u, v = rng.normal(size=(2, 4, 3, 2)), rng.normal(size=(2, 4, 3, 2))
ds = xr.Dataset({'T': (dims, u * 0), 'U': (dims, u), 'V': (dims, v)}, coords={'azimuth': az})
r, t = compute_wind_components(Namespace(T='T', u='U', v='V'), ds)
assert np.allclose(r ** 2 + t ** 2, u ** 2 + v ** 2, atol=1e-5)
'''),
]
