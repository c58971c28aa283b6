"""Reference definitions for space-time spectra."""
import numpy as np
from scipy import signal

EARTH = 6.371008e6
GRAVITY = 9.80665
BETA = 2. * 7.292e-05 / EARTH


def smooth121_1D(x):
    """1-2-1 weights; 3-1 at an end or next to a missing value; a missing value stays missing."""
    out = np.zeros(len(x))
    for i in range(len(x)):
        if np.isnan(x[i]):
            out[i] = np.nan
        elif i == 0 or np.isnan(x[i - 1]):
            out[i] = (3 * x[i] + x[i + 1]) / 4
        elif i == len(x) - 1 or np.isnan(x[i + 1]):
            out[i] = (3 * x[i] + x[i - 1]) / 4
        else:
            out[i] = (x[i - 1] + 2 * x[i] + x[i + 1]) / 4
    return out


def smooth121(spectra, freq):
    zero = [i for i in range(len(freq)) if freq[i] == 0.][0]
    for entry in range(4):
        for wave in range(spectra.shape[2]):
            spectra[entry, zero + 1:, wave] = smooth121_1D(spectra[entry, zero + 1:, wave])
    return spectra


def window_cosbell(N, pct):
    """Cosine taper over half the fraction at either end."""
    m = max(int((pct * N + 0.5) / 2), 1)
    out = np.ones(N)
    for i in range(m):
        w = 0.5 - 0.5 * np.cos(np.pi / m * (i + 0.5))
        out[i] = out[i] * w
        out[N - 1 - i] = out[N - 1 - i] * w
    return out


def coherence_and_phase(spectra):
    """Entries 4 to 7 from the power, co- and quadrature spectra."""
    for i in range(spectra.shape[1]):
        for j in range(spectra.shape[2]):
            px, py, c, q = spectra[0, i, j], spectra[1, i, j], spectra[2, i, j], spectra[3, i, j]
            if py == 0:
                py = np.nan
                spectra[1, i, j] = py
            spectra[4, i, j] = (c * c + q * q) / (px * py)
            spectra[5, i, j] = np.arctan2(q, c)
            spectra[6, i, j] = -q / np.sqrt(q * q + c * c)
            spectra[7, i, j] = c / np.sqrt(q * q + c * c)
    return spectra


def parts(x, lat, which):
    n = len(lat)
    keep = x[:, lat >= 0, :] if which == 'symm' else x[:, lat > 0, :]
    sign = 1 if which == 'symm' else -1
    for i in range(n // 2 + (n % 2 if which == 'symm' else 0)):
        keep[:, i, :] = 0.5 * (x[:, i, :] + sign * x[:, n - 1 - i, :])
    return keep


def mirrored(power, rows, columns):
    """Waves in ascending order; the extreme wave or frequency the transform gives only once is repeated."""
    nf, nw = rows + (1 - rows % 2), columns + (1 - columns % 2)
    out = np.zeros((8, nf, nw))
    for k in range(4):
        for i in range(rows):
            for j in range(columns):
                out[k, i, j + nw - columns] = power[k][i, columns - 1 - j]
        if nw > columns:
            for i in range(rows):
                out[k, i, 0] = out[k, i, columns]
        if nf > rows:
            for j in range(nw):
                out[k, rows, j] = out[k, 0, j]
    return out


def spectra(fx, fy, count, crossed):
    fx, fy = fx / count, fy / count
    px = np.mean(np.square(np.abs(fx)), axis=1)
    py = np.mean(np.square(np.abs(fy)), axis=1)
    if crossed == 'xy':
        cross = np.mean(np.conj(fy) * fx, axis=1)
        return [px, py, np.real(cross), np.imag(cross)]
    cross = np.conj(fx) * fy
    return [px, py, np.mean(np.real(cross), axis=1), np.mean(np.imag(cross), axis=1)]


def segment(x, y):
    nt, nm, nl = x.shape
    fx = np.fft.fftshift(np.fft.fft2(x, axes=(0, 2)), axes=(0, 2))
    fy = np.fft.fftshift(np.fft.fft2(y, axes=(0, 2)), axes=(0, 2))
    return mirrored(spectra(fx, fy, nt * nl, 'xy'), nt, nl)


def segment_realfft(x, y):
    """Transform with the real axis in time."""
    nt, nm, nl = x.shape
    fx = np.fft.fftshift(np.transpose(np.fft.rfft2(np.transpose(x, (1, 2, 0)), axes=(1, 2)), (2, 0, 1)), axes=2)
    fy = np.fft.fftshift(np.transpose(np.fft.rfft2(np.transpose(y, (1, 2, 0)), axes=(1, 2)), (2, 0, 1)), axes=2)
    return mirrored(spectra(fx, fy, nt * nl, 'yx'), nt // 2 + 1, nl)


def cross(x, y, length, gap):
    """Averages over the segments: detrended, tapered, transformed, smoothed; then coherence and phase."""
    nt, nlat, nlon = x.shape
    x = signal.detrend(x, axis=0)
    y = signal.detrend(y, axis=0)
    taper = window_cosbell(length, 0.1)
    nfreq = length // 2 + 1 if (length / 2 + 1) % 2 == 1 else length // 2 + 2
    nwave = nlon + 1 - nlon % 2
    freq = np.linspace(0, 0.5, nfreq)
    total = np.zeros([8, nfreq, nwave])
    count = 0
    start = 0
    while start + length < nt:
        u = np.zeros([length, nlat, nlon])
        v = np.zeros([length, nlat, nlon])
        for t in range(length):
            for i in range(nlat):
                for j in range(nlon):
                    u[t, i, j] = x[start + t, i, j] * taper[t]
                    v[t, i, j] = y[start + t, i, j] * taper[t]
        part = segment_realfft(u, v)
        for entry in range(8):
            for w in range(nwave):
                part[entry, 0, w] = np.nan
        total = total + smooth121(part, freq)
        count += 1
        start = start + length + gap - 1
    total = coherence_and_phase(total / count)
    levels = [0.80, 0.85, 0.90, 0.925, 0.95, 0.99]
    return {'STC': total, 'freq': freq, 'wave': np.array([float(w - nwave // 2) for w in range(nwave)]), 'nseg': count, 'dof': 2.667 * count, 'p': levels,
            'prob_coh2': np.array([p ** (0.5 * (2.667 * count) - 1) for p in levels])}


def wave_band(name, k, c):
    """Angular frequency of an equatorial wave of one zonal wave number and phase speed."""
    name = name.lower()
    if name == 'kelvin':
        return k * c
    if name == 'er':
        return -BETA * k / (k ** 2 + 3 * BETA / c)
    if name in ('mrg', 'ig0'):
        if k == 0:
            return np.sqrt(BETA * c)
        if k > 0:
            return k * c * (0.5 + 0.5 * np.sqrt(1 + 4 * BETA / (k ** 2 * c)))
        return k * c * (0.5 - 0.5 * np.sqrt(1 + 4 * BETA / (k ** 2 * c)))
    if name == 'ig1':
        return np.sqrt(3 * BETA * c + k ** 2 * c ** 2)
    return np.sqrt(5 * BETA * c + k ** 2 * c ** 2)


def wave_mask(coef, per_day, tmin, tmax, kmin, kmax, hmin, hmax, name):
    """Coefficients outside the periods, wave numbers and dispersion curves are zero; the others are unchanged."""
    nk, nf = coef.shape
    nt = (nf - 1) * 2
    jmin = int(round(nt / (tmax * per_day)))
    jmax = min(int(round(nt / (tmin * per_day))), nf)
    imin = max(int(round(nk + kmin)), nk // 2) if kmin < 0 else min(int(round(kmin)), nk // 2)
    imax = max(int(round(nk + kmax)), nk // 2) if kmax < 0 else min(int(round(kmax)), nk // 2)
    cycle = 24 * 3600. / (2 * np.pi * per_day)
    out = np.copy(coef)
    for i in range(nk):
        k = i / EARTH if i < nk / 2 else -(nk - i) / EARTH
        low = 0
        high = nf
        if hmin != -9999:
            low = min(int(np.floor(wave_band(name, k, np.sqrt(GRAVITY * hmin)) * cycle * nt)), nf)
        if hmax != -9999:
            high = max(int(np.ceil(wave_band(name, k, np.sqrt(GRAVITY * hmax)) * cycle * nt)), 0)
        inside = imin <= i <= imax if imin < imax else i <= imax or i >= imin
        for j in range(nf):
            if not (inside and jmin <= j <= jmax and low <= j <= high):
                out[nk - 1 - i, j] = 0
    return out


def wave_filter(data, per_day, tmin, tmax, kmin, kmax, hmin, hmax, name):
    """Forward transform over longitude and time, masked, and back."""
    return np.fft.irfft2(wave_mask(np.fft.rfft2(data.T), per_day, tmin, tmax, kmin, kmax, hmin, hmax, name)).T
