"""Reference definitions for equatorial wave modes, climate indices and weather regimes."""
import numpy as np
import pandas as pd
from scipy.optimize import fsolve

RADIUS = 6.371008e6
GRAVITY = 9.80665
OMEGA = 7.292e-05


def plane(latitude):
    c = np.cos(abs(latitude) * np.pi / 180)
    return 2. * OMEGA * c / RADIUS, 2. * np.pi * RADIUS * c


def table(name, wn, w):
    """Cycles a day by global wave number."""
    out = pd.DataFrame(data={name: [86400. * x / (2. * np.pi) for x in w]}, index=wn)
    out.index.name = 'Wavenumber'
    return out


def waves(he, latitude, top, count, east):
    """Global wave numbers, and the wave numbers per metre on one side of zero."""
    beta, perimeter = plane(latitude)
    wn = np.linspace(-top, top, count)
    k = []
    for x in wn:
        y = 2. * np.pi * x / perimeter
        k.append(y if (y > 0 if east else y < 0) else np.nan)
    return beta, wn, k, np.sqrt(GRAVITY * he)


def kelvin_mode(he, latitude, top, count):
    beta, wn, k, c = waves(he, latitude, top, count, True)
    return table('Kelvin(he=' + str(he) + 'm)', wn, [c * x for x in k])


def mrg_mode(he, latitude, top, count):
    beta, wn, k, c = waves(he, latitude, top, count, False)
    return table('MRG(he=' + str(he) + 'm)', wn, [c * x * (0.5 - 0.5 * np.sqrt(1. + 4 * beta / (x * x * c))) for x in k])


def eig_n_0(he, latitude, top, count):
    beta, wn, k, c = waves(he, latitude, top, count, True)
    return table('EIG(n=0,he=' + str(he) + 'm)', wn, [c * x * (0.5 + 0.5 * np.sqrt(1. + 4 * beta / (x * x * c))) for x in k])


def dispersion(w, k, n, he, beta):
    return w ** 3 - GRAVITY * he * (k ** 2 + beta * (2. * n + 1.) / np.sqrt(GRAVITY * he)) * w - k * beta * GRAVITY * he


def solved(name, he, n, latitude, top, count, east, start):
    beta, wn, k, c = waves(he, latitude, top, count, east)
    w = []
    for x in k:
        if np.isnan(x):
            w.append(np.nan)
        elif start == 'rossby':
            w.append(fsolve(dispersion, np.array([-beta * x / (x * x + (2. * n + 1.) * (beta / c))]), args=(np.array([x]), n, he, beta))[0])
        else:
            w.append(fsolve(dispersion, np.array([np.sqrt((2. * n + 1.) * beta * c + x ** 2 * GRAVITY * he)]), args=(np.array([x]), n, he, beta))[0])
    return table(name + '(n=' + str(n) + ',he=' + str(he) + 'm)', wn, w)


def er_n(he, n, latitude, top, count):
    return solved('ER', he, n, latitude, top, count, False, 'rossby')


def eig_n(he, n, latitude, top, count):
    return solved('EIG', he, n, latitude, top, count, True, 'gravity')


def wig_n(he, n, latitude, top, count):
    return solved('WIG', he, n, latitude, top, count, False, 'gravity')


def projection(vector, eof1, eof2):
    """Least squares coefficients of both patterns together."""
    found = np.linalg.lstsq(np.column_stack([eof1, eof2]), vector, rcond=None)[0]
    return found[0], found[1]


def zonal_variance(data):
    return np.nanmean(np.array([np.nanvar(data[:, j]) for j in range(data.shape[1])]))


def taper(data, n):
    """Cosine ramps of n values at either end."""
    size = len(data)
    for i in range(n):
        data[i] = data[i] * 0.5 * (1 - np.cos(i * np.pi / n))
    for i in range(n):
        data[size - n + i] = data[size - n + i] * 0.5 * (1 - np.cos((i - n + 1) * np.pi / n))
    return data


def skill(act):
    """Correlation of every forecast line with the first one."""
    out = np.zeros([act.shape[0], act.shape[1] - 1])
    for f in range(act.shape[0]):
        for m in range(act.shape[1] - 1):
            out[f, m] = np.corrcoef(act[f, m + 1, :], act[f, 0, :])[0, 1]
    return out


def fraction(labels, label):
    return len([x for x in labels if x == label]) / len(labels)


def weighted(lats, lons, data):
    """Departures from the mean of every day of the season over the years, weighted by the cosine of latitude."""
    out = np.zeros(data.shape)
    for y in range(data.shape[0]):
        for d in range(data.shape[1]):
            for i in range(len(lats)):
                for j in range(len(lons)):
                    out[y, d, i, j] = (data[y, d, i, j] - np.nanmean(data[:, d, i, j])) * np.cos(lats[i] * np.pi / 180.0)
    return out, np.reshape(out, [data.shape[0] * data.shape[1], len(lats) * len(lons)])


def heights(eof, pc, n):
    return np.matmul(pc, np.reshape(eof, (n, eof.shape[-2] * eof.shape[-1])))


def frequency(regimes, count, step):
    """Days of every regime in every window of the season."""
    years, days = regimes.shape
    out = np.zeros((count, years, days - step + 1))
    for w in range(count):
        for y in range(years):
            for d in range(days - step + 1):
                out[w, y, d] = len([x for x in regimes[y, d:d + step] if x == w + 1])
    return out, days - step + 1, step


def reorder(patterns, fractions, regimes, count, order):
    """Regime i of the result is regime order[i] of the forecast."""
    a = np.zeros(patterns.shape)
    b = np.zeros(len(fractions))
    c = np.empty(regimes.shape, dtype=float)  # every day has one of the regimes
    for i in range(count):
        a[i, :, :] = patterns[order[i] - 1, :, :]
        b[i] = fractions[order[i] - 1]
        for y in range(regimes.shape[0]):
            for d in range(regimes.shape[1]):
                if regimes[y, d] == order[i]:
                    c[y, d] = i + 1
    return a, b, c


def blocked(z, cbl, shifts, width):
    """Difference of the mean heights north and south of the central latitude, the largest over the shifts; blocked where positive."""
    days, lons = z.shape[0], z.shape[2]
    index = np.zeros((days, lons))
    flag = np.zeros((days, lons))
    for t in range(days):
        for j in range(lons):
            diffs = []
            for s in shifts:
                centre = int(90 - cbl[j]) - s
                north = int(int(90 - cbl[j]) - width / 2 - s)
                south = int(int(90 - cbl[j]) + width / 2 - s)
                diffs.append(np.mean(z[t, north:centre + 1, j]) - np.mean(z[t, centre:south + 1, j]))
            index[t, j] = np.max(np.array(diffs))
            if index[t, j] > 0:
                flag[t, j] = 1
    return flag, index


def clusters(centres, labels, count, shape):
    """Clusters from the most to the least frequent."""
    share = [len([x for x in labels if x == i]) / len(labels) for i in range(count)]
    order = []
    while len(order) < count:
        best = None
        for i in range(count):
            if i not in order and (best is None or share[i] > share[best]):
                best = i
        order.append(best)
    patterns = np.zeros((count, shape[-2], shape[-1]))
    for n in range(count):
        for i in range(shape[-2]):
            for j in range(shape[-1]):
                patterns[n, i, j] = centres[order[n], i * shape[-1] + j]
    days = np.zeros((shape[0], shape[1]))
    for y in range(shape[0]):
        for d in range(shape[1]):
            days[y, d] = order.index(labels[y * shape[1] + d]) + 1
    return patterns, count, np.array([share[i] for i in order]), days


def pairs(obs, fcst, lats, lons, told_obs, told_fcst, model, desc, fvar, funit, flev, ovar, ounit, olev, mask, level, out):
    """One file a day, with one matched pair for every place."""
    head = ('VERSION', 'MODEL', 'DESC', 'FCST_LEAD', 'FCST_VALID_BEG', 'FCST_VALID_END', 'OBS_LEAD', 'OBS_VALID_BEG', 'OBS_VALID_END', 'FCST_VAR', 'FCST_UNITS', 'FCST_LEV', 'OBS_VAR',
            'OBS_UNITS', 'OBS_LEV', 'OBTYPE', 'VX_MASK', 'INTERP_MTHD', 'INTERP_PNTS', 'FCST_THRESH', 'OBS_THRESH', 'COV_THRESH', 'ALPHA', 'LINE_TYPE')
    width = [7, max(5, len(model)) + 3, max(4, len(model)) + 1, 12, 18, 18, 12, 17, 17, max(8, len(fvar)) + 3, max(8, len(funit)) + 3, max(8, len(flev)) + 3, max(7, len(ovar)) + 3,
             max(8, len(ounit)) + 3, max(7, len(olev)) + 3, 10, max(7, len(mask)) + 3, 13, 13, 13, 13, 13, 13, 9]
    line = ' '.join(['%-' + str(w) + 's' for w in width])
    for y in range(obs.shape[0]):
        for d in range(obs.shape[1]):
            when, lead = told_fcst['valid'][y][d], told_fcst['lead'][y][d]
            if when:
                with open(out + '_' + lead + 'L_' + when[0:8] + '_' + when[9:15] + 'V.stat', 'w') as file:
                    file.write(line % head + '\n')
                    for p in range(len(lons)):
                        place = ('V9.1', model, desc, lead, when, when, told_obs['lead'][y][d], told_obs['valid'][y][d], told_obs['valid'][y][d], fvar, funit, flev, ovar, ounit, olev, 'ADPUPA', mask,
                                 'NEAREST', '1', 'NA', 'NA', 'NA', 'NA', 'MPR')
                        pair = (str(len(lons)), str(p + 1), 'NA', lats[p], lons[p], level, 'NA', fcst[y, d, p], obs[y, d, p], 'NA', 'NA', 'NA', 'NA')
                        file.write((line + ' %-10s %-10s %-10s %-12.4f %-12.4f %-10s %-10s %-12.4f %-12.4f %-10s %-10s %-10s %-10s') % (place + pair) + '\n')


def reorder_alike(obs, patterns, fractions, regimes, count):
    """Every observed regime is given the forecast regime that correlates best with it."""
    order = []
    for i in range(count):
        best, top = 1, None
        for j in range(count):
            r = np.corrcoef(obs[i].flatten(), patterns[j].flatten())[0, 1]
            if top is None or r > top:
                best, top = j + 1, r
        order.append(best)
    return reorder(patterns, fractions, regimes, count, order)
