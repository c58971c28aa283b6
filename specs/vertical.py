"""Vertical interpolation and heights of pressure levels, column by column."""
import numpy as np
import pint
from specs.xr import DataArray, Coordinates, Quantity, mixing_ratio_from_relative_humidity, virtual_temperature
import model


def column(surfaces, values, target):
    """The value at a target of one column whose surfaces rise."""
    last = len(surfaces) - 1
    found = np.nan
    if surfaces[0] > target:
        found = values[0]
    for k in range(last):
        low = surfaces[k]
        high = surfaces[k + 1]
        if low <= target and target < high:
            if low == target:
                found = values[k]
            else:
                part = (target - low) / (high - low)
                found = (1 - part) * values[k] + part * values[k + 1]
    if surfaces[last] <= target:
        found = values[last]
    return found


def interpolated(fieldname, config, surfaces, field):
    dim = config['vertical_dim_name']
    axis = field.dims.index(dim)
    targets = config['vertical_levels']
    try:
        scale = float(Quantity(1, surfaces.attrs['units']) / Quantity(1, config['vertical_level_units']))
    except pint.errors.UndefinedUnitError:
        scale = 1
    shape = [n for i, n in enumerate(field.shape) if i != axis]
    levels = field.shape[axis]
    if len(field.dims) > 1:
        values = np.moveaxis(field.data, axis, 0).reshape(levels, -1)
        heights = np.moveaxis(surfaces.spread(field.dims), axis, 0).reshape(levels, -1)
        count = values.shape[1]
        out = np.zeros((len(targets), count))
        for t in range(len(targets)):
            for c in range(count):
                out[t, c] = column([heights[k, c] * scale for k in range(levels)], [values[k, c] for k in range(levels)], targets[t])
        out = np.moveaxis(out.reshape([len(targets)] + shape), 0, axis)
    else:
        out = np.array([column([surfaces.data[k] * scale for k in range(levels)], [field.data[k] for k in range(levels)], target) for target in targets])
    dims = ['lev' if d == dim else d for d in field.dims]
    coords = [('lev', np.array(targets)) if d == dim else (d, field.axes[d][0]) for d in field.dims]
    return DataArray(out, coords, dims, attrs=field.attrs), coords


def heights(config, geopotential, surface_pressure, temperature, relative_humidity):
    """Heights of pressure levels above the surface by the hypsometric relation, missing below it."""
    dim = config['vertical_dim_name']
    axis = temperature.dims.index(dim)
    levels, attrs = temperature.axes[dim]
    ratio = model.gas_constant() / model.gravity()
    scale = float(Quantity(1, surface_pressure.attrs['units']) / Quantity(1, attrs['units']))
    pressure = DataArray(levels, {dim: (dim, levels, attrs)}, [dim], attrs={'units': attrs['units']})
    mixing = mixing_ratio_from_relative_humidity(pressure, temperature, relative_humidity)
    warm = virtual_temperature(temperature, mixing)
    n = len(levels)
    rest = [d for d in temperature.dims if d != dim]
    shape = [temperature.shape[temperature.dims.index(d)] for d in rest]
    tv = warm.spread([dim] + rest).reshape(n, -1)
    ps = surface_pressure.spread(rest).reshape(-1)
    z = geopotential.spread(rest).reshape(-1)
    count = tv.shape[1]
    out = np.empty((n, count))
    for c in range(count):
        bottom = ps[c] * scale
        height = np.nan
        under = True
        for k in range(n):
            if levels[k] < bottom:
                if under:
                    height = z[c] / model.gravity() + ratio * tv[k, c] * np.log(bottom / levels[k])
                    under = False
                else:
                    height = height + ratio * tv[k, c] * np.log(levels[k - 1] / levels[k])
            out[k, c] = height
    out = np.moveaxis(out.reshape([n] + shape), 0, axis)
    return DataArray(out, temperature.coords, temperature.dims, attrs={'long_name': 'layer height', 'units': 'meter'})


def required(config, ds):
    if config['zero_surface_geopotential']:
        pressure = ds[config['surface_pressure_name']]
        surface = DataArray(np.zeros(pressure.shape), pressure.coords, pressure.dims, attrs=pressure.attrs)
    else:
        surface = ds[config['surface_geopotential_name']]
    return surface, ds[config['surface_pressure_name']], ds[config['temperature_name']], ds[config['relative_humidity_name']]
