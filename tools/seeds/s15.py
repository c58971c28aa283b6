F = 'metcalcpy/vertical_interp.py'
H = '''
import warnings; warnings.simplefilter('ignore')
import numpy as np, xarray as xr
from metcalcpy import vertical_interp as v
def arr(values, dims, units, **coords):
    return xr.DataArray(np.array(values, dtype=float), dims=dims, coords=coords, attrs={'units': units})
'''
I = H + '''
def interp(z, f, targets, units='m', zu='m'):
    p = [1000., 850., 500.][:len(z)]
    r, _ = v.vertical_interp('t', dict(vertical_dim_name='p', vertical_levels=targets, vertical_level_units=units),
                             arr([[x] for x in z], ('p', 'x'), zu, p=p, x=[0]), arr([[x] for x in f], ('p', 'x'), 'K', p=p, x=[0]))
    return r.values.ravel()
'''
G = H + '''
def heights(ps, levels=(1000., 850., 500.), t=(290., 280., 260.), geo=981.0, units='Pa'):
    n = len(levels)
    c = dict(p=('p', list(levels), {'units': 'hPa'}), x=[0])
    r = v.height_from_pressure(dict(vertical_dim_name='p'), arr([geo], ('x',), 'm2/s2', x=[0]), arr([ps], ('x',), units, x=[0]),
                               arr([[x] for x in t], ('p', 'x'), 'K', **c), arr([[1e-6]] * n, ('p', 'x'), 'percent', **c))
    return r.values.ravel()
K = 287.04749097718457 / 9.80665
'''
SEEDS = [
dict(id='interp-unused-missing', prop='C22', file=F, func='vertical_interp',
 old="            field_slice = xr.where(mask,\n                                   field_slice + weights_k * field_k, field_slice)", new="            field_slice = field_slice + weights_k * field_k",
 needs='a field with a missing value at a level that does not bracket the target', what='one missing level makes every interpolated level of the column missing',
 demo=I + '''
r = interp([0., 100., 200.], [1., 2., np.nan], [50.])
assert np.allclose(r, [1.5]), r
'''),
dict(id='interp-weight-denominator', prop='C22', file=F, func='vertical_interp',
 old="                    - coordinate_surfaces.loc[{lev_dim: vertical_coord[k - 1]}])\n                    * length_convert)", new="                    - coordinate_surfaces.loc[{lev_dim: vertical_coord[k - 1]}]))",
 needs='surfaces and levels in different units of length', what='the weights between two surfaces are scaled by the unit conversion and leave the interval from zero to one',
 demo=I + '''
r = interp([0., 1., 2.], [1., 2., 4.], [500., 1500.], 'm', 'km')
assert np.allclose(r, [1.5, 3.0]), r
'''),
dict(id='interp-counts-from-bottom', prop='C22', file=F, func='vertical_interp',
 old="        for k in vertical_indices:\n            weights_k =", new="        for k in vertical_indices[:-1]:\n            weights_k =",
 needs='a target above the second highest surface', what='the highest surface takes no part in the sum',
 demo=I + '''
r = interp([0., 100., 200.], [1., 2., 4.], [50., 150., 250.])
assert np.allclose(r, [1.5, 3.0, 4.0]), r
'''),
dict(id='height-temperature-below', prop='C22', file=F, func='height_from_pressure',
 old="            * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \\\n            * np.log(np", new="            * virtual_temperature.loc[{lev_dim: pressure_coord[k - 1]}] \\\n            * np.log(np",
 needs='a temperature that changes with height', what='every layer above the lowest has the thickness of the temperature of the level below',
 demo=G + '''
r = heights(101000.)
a = 981.0 / 9.80665 + K * 290 * np.log(1010 / 1000)
assert np.allclose(r, [a, a + K * 280 * np.log(1000 / 850), a + K * 280 * np.log(1000 / 850) + K * 260 * np.log(850 / 500)], rtol=1e-5), r
'''),
dict(id='height-mask-first-level', prop='C22', file=F, func='height_from_pressure',
 old="                   surface_height + layer_thickness.loc[{lev_dim: pressure_coord[0]}],\n                   np.nan)", new="                   surface_height + layer_thickness.loc[{lev_dim: pressure_coord[0]}],\n                   surface_height)",
 needs='a surface above the lowest pressure level', what='levels under the ground get the height of the surface instead of being missing',
 demo=G + '''
r = heights(90000.)
assert np.isnan(r[0]) and np.allclose(r[1], 981.0 / 9.80665 + K * 280 * np.log(900 / 850), rtol=1e-5), r
'''),
]
