"""Cyclone-relative winds, directional means and zonal waves."""
import numpy as np
import scipy
import xarray as xr
import xrft


def wind_components(args, ds):
    """Outward and counter-clockwise components; angles are counted from north."""
    nr, na, nl, nt = ds[args.T].shape
    angle = np.empty((nr, na, nl, nt), dtype=np.float32)
    for i in range(nr):
        for j in range(na):
            for k in range(nl):
                for t in range(nt):
                    angle[i, j, k, t] = (np.pi / 180) * ds['azimuth'].values[j] + np.pi / 2
    over = angle > 2 * np.pi
    angle[over] = angle[over] - 2 * np.pi
    u = ds[args.u].values
    v = ds[args.v].values
    return np.cos(angle) * u + np.sin(angle) * v, np.cos(angle) * v - np.sin(angle) * u


def zonal_mean(dat, dimvar='longitude'):
    return dat.mean(dimvar)


def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
    """Mean over the band weighted by the cosine of latitude."""
    if lat1 >= lat2:
        raise ValueError()
    band = (dat[dimvar] >= lat1) & (dat[dimvar] <= lat2)
    return dat.where(band, drop=True).weighted(np.cos(np.deg2rad(dat[dimvar].where(band, drop=True)))).mean(dimvar)


def coefficients(dat, dimvar='longitude', *, waves=None, fftpkg='scipy'):
    if fftpkg == 'scipy':
        fc = by_scipy(dat, dimvar)
    elif fftpkg == 'xrft':
        fc = by_xrft(dat, dimvar)
    else:
        raise ValueError()
    fc.attrs['nlons'] = dat[dimvar].size
    fc.attrs['lon0'] = dat[dimvar].values[0]
    return fc if waves is None else fc.sel(lon_wavenum=waves)


def by_scipy(dat, dimvar):
    """Transform along the longitudes; the wave number takes the place of the longitude."""
    axis = dat.get_axis_num(dimvar)
    dims = list(dat.dims)
    dims[axis] = 'lon_wavenum'
    coords = dict(dat.coords)
    coords.pop(dimvar)
    coords['lon_wavenum'] = np.arange(0, dat[dimvar].size // 2 + 1)
    return xr.DataArray(scipy.fft.rfft(dat.values, axis=axis), coords=coords, dims=dims)


def by_xrft(dat, dimvar):
    fc = xrft.fft(dat, dim=dimvar, real_dim=dimvar, true_phase=False, true_amplitude=False).rename({'freq_longitude': 'lon_wavenum'})
    return fc.assign_coords({'lon_wavenum': np.arange(fc.lon_wavenum.size)})


def amplitude_phase(dat, dimvar='longitude', waves=None, phase_deg=False, fftpkg='scipy'):
    """Every wave but the mean stands for two coefficients."""
    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
    both = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
    return (both * np.abs(fc) / fc.nlons).astype(dat.dtype), np.angle(fc, deg=phase_deg).astype(dat.dtype)


def contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'):
    """The inverse transform of each wave's coefficient alone."""
    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
    if waves is None:
        waves = fc.lon_wavenum.values
    dims = list(dat.dims) + ['lon_wavenum']
    coords = dict(dat.coords)
    coords['lon_wavenum'] = waves
    parts = []
    for k in waves:
        one = fc * np.isnan(fc.where(fc.lon_wavenum != k))
        parts.append(scipy.fft.irfft(one.values, n=dat[dimvar].size, axis=fc.get_axis_num('lon_wavenum'))[..., np.newaxis])
    return xr.DataArray(np.concatenate(parts, axis=-1), dims=dims, coords=coords).astype(dat.dtype)


def covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude', waves=None, fftpkg='scipy'):
    n = dat1[dimvar1].size
    a = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
    b = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
    both = np.isfinite(a.where(a.lon_wavenum != 0)) + 1
    return both * np.real(a * b.conj()) / (n ** 2)


from metcalcpy.pre_processing.waves import zonal_wave_coeffs


def told_coefficients(dat, dimvar, waves, fftpkg):
    return zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)


def coefficients_told(dat, dimvar, waves, fftpkg):
    return coefficients(dat, dimvar, waves=waves, fftpkg=fftpkg)
