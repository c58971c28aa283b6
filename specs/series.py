"""Estimators for time series and dependence."""
import math
import statistics as st
import numpy as np
import pandas as pd
from scipy import stats
from scipy.stats import t, norm, pearsonr, spearmanr, kendalltau
from scipy.integrate import quad
from scipy.optimize import brenth
from scipy.special import gamma, betaln, hyp2f1


def usable(data):
    return [x for x in data if x is not None and not np.isnan(x)]


def remove_none(x):
    return [] if x is None else [e for e in x if e is not None and not pd.isna(e)]


def lag_one(data):
    """Least-squares slope of each usable value on the one before."""
    v = usable(data)
    n = len(v)
    if n < 2:
        return None
    m = st.mean(v)
    x = [a - m for a in v[:-1]]
    y = [b - m for b in v[1:]]
    k = n - 1
    if sum(x) * sum(x) == k * sum([a ** 2 for a in x]):
        return None
    sxy = sum([a * b for a, b in zip(x, y)])
    return (k * sxy - sum(x) * sum(y)) / (k * sum([a ** 2 for a in x]) - sum(x) * sum(x))


def inflation(data):
    """Inflation of the standard error by persistence between 0.3 and 0.99, whether the ratio was unusable, and the persistence."""
    r = lag_one(data)
    if r is None:
        r = 0.0
    ratio = (1 + r) / (1 - r) if r != 1 else 1.0
    flag = 0
    if ratio < 0.0:
        flag = 1
        ratio = 1.0
    factor = math.sqrt(ratio)
    if r < 0.3 or r >= 0.99:
        factor = 1.0
    return factor, flag, r


def of_mean(data):
    v = usable(data)
    s2 = st.variance(v) if len(v) > 2 else 0.0
    if s2 > 0.0:
        factor, flag, r = inflation(data)
        return factor * math.sqrt(s2) / math.sqrt(len(v)), flag, r, len(data)
    return 0.0, 0, 0.0, len(data)


def of_sum(data):
    e = of_mean(data)
    return e[0] * len(usable(data)), e[1], e[2], e[3]


def spread(v):
    return stats.iqr(v, interpolation='linear')


def of_median(data):
    v = usable(data)
    n = len(v)
    q = spread(v)
    if q > 0.0 and n > 2:
        return q * math.sqrt(math.pi / 2.) / (1.349 * math.sqrt(n)), 0, 0, n
    return 0.0, 0, 0, n


def of_median_inflated(data):
    v = usable(data)
    n = len(v)
    q = spread(v)
    if q > 0.0 and n > 2:
        factor, flag, r = inflation(data)
        return factor * (q * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(n)), flag, r, len(data)
    return 0.0, 0, 0, len(data)


def covariance_at(x, size, lag, mean):
    """Products of deviations `lag` apart where both are present; the divisor counts them and the lag."""
    total = 0
    n = 0
    for i in range(size - lag):
        a = x[i]
        b = x[i + lag]
        if a is None or b is None or math.isnan(a) or math.isnan(b):
            continue
        total += (a - mean) * (b - mean)
        n += 1
    return total / (n + lag)


def acf(x, acf_type='correlation', lag_max=None):
    if acf_type not in ('covariance', 'correlation'):
        return None
    if x is None or len(x) == 0:
        return None
    v = usable(x)
    if len(v) == 0:
        return None
    m = st.mean(v)
    size = len(x)
    if lag_max is None:
        lag_max = math.floor(10 * math.log10(size))
    last = min(lag_max, size - 1)
    c0 = covariance_at(x, size, 0, m)
    if acf_type == 'correlation':
        if c0 == 0:
            return None
        return [covariance_at(x, size, k, m) / c0 for k in range(last + 1)]
    return [covariance_at(x, size, k, m) for k in range(last + 1)]


def runs_test(x, alternative='two.sided', threshold='median'):
    none = {'statistic': None, 'p_value': None, 'runs': None, 'mean_value': None, 'variance': None}
    if alternative not in ('two.sided', 'left.sided', 'right.sided'):
        return none
    v = remove_none(x)
    if len(v) == 0:
        return none
    cut = st.median(v) if threshold == 'median' else st.mean(v)
    above = [e > cut for e in v if e != cut]
    n1 = 0
    n2 = 0
    runs = 0
    last = None
    for a in above:
        if a:
            n1 += 1
        else:
            n2 += 1
        if a != last:
            runs += 1
        last = a
    n = n1 + n2
    if n1 == 0 or n2 == 0 or n < 3:
        return none
    mean = 1 + 2 * n1 * n2 / n
    variance = 2 * n1 * n2 * (2 * n1 * n2 - n) / (n * n * (n - 1))
    z = (runs - mean) / math.sqrt(variance)
    p = norm.cdf(z)
    if alternative == 'two.sided':
        p = 2 * min(p, 1 - p)
    elif alternative == 'right.sided':
        p = 1 - p
    return {'statistic': z, 'p_value': p, 'runs': runs, 'mean_value': mean, 'variance': variance}


def known_runs_test(x, alternative='two.sided', threshold='median'):
    """As found: one key of the result is misspelt, and short, constant and empty series fail."""
    if len(x) == 0:
        return {'statistic': None, 'p_value': None, 'runs': None, 'mean_value ': None, 'variance': None}
    v = remove_none(x)
    cut = st.median(v) if threshold == 'median' else st.mean(v)
    above = [e > cut for e in v if e != cut]
    n1 = 0
    n2 = 0
    runs = 0
    last = None
    for a in above:
        if a:
            n1 += 1
        else:
            n2 += 1
        if a != last:
            runs += 1
        last = a
    n = n1 + n2
    mean = 1 + 2 * n1 * n2 / n
    variance = 2 * n1 * n2 * (2 * n1 * n2 - n) / (n * n * (n - 1))
    z = (runs - mean) / math.sqrt(variance)
    p = norm.cdf(z)
    if alternative == 'two.sided':
        p = 2 * min(p, 1 - p)
    elif alternative == 'right.sided':
        p = 1 - p
    return {'statistic': z, 'p_value': p, 'runs': runs, 'mean_value ': None, 'mean_value': mean, 'variance': variance}


def revision(series_data, lag_max=None):
    """Runs test and last autocorrelation of the deviations from the mean, revisions separated by a missing value."""
    none = {'ww_run': None, 'auto_cor_p': None, 'auto_cor_r': None}
    if len(series_data) == 0:
        return none
    if 'stat_value' not in series_data.columns or 'revision_id' not in series_data.columns:
        return none
    joined = []
    for who in series_data.revision_id.unique():
        if len(joined) > 0:
            joined.append(None)
        joined.extend(series_data[series_data['revision_id'] == who]['stat_value'].tolist())
    present = remove_none(joined)
    if len(present) == 0:
        return none
    m = st.mean(present)
    joined = [None if a is None else a - m for a in joined]
    r = acf(joined, 'correlation', lag_max)
    p = runs_test(joined, 'left.sided', 'median')['p_value']
    return {'ww_run': None if p is None else round(p, 2), 'auto_cor_p': round(0.06270678 / math.sqrt(len(joined)), 2),
            'auto_cor_r': None if r is None else round(r[-1], 2)}


def t_of(r, n):
    return 2 * t.sf(abs(r * np.sqrt((n - 2) / (1 - r ** 2))), n - 2)


def bicor(x, y, c=9):
    """Biweight midcorrelation."""
    mx = np.median(x)
    my = np.median(y)
    sx = np.median(np.abs(x - mx))
    sy = np.median(np.abs(y - my))
    if sx == 0 or sy == 0:
        return np.nan, np.nan
    u = (x - mx) / (c * sx)
    v = (y - my) / (c * sy)
    a = (x - mx) * ((1 - u ** 2) ** 2 * (np.abs(u) < 1))
    b = (y - my) * ((1 - v ** 2) ** 2 * (np.abs(v) < 1))
    r = (a * b).sum() / (np.sqrt((a ** 2).sum()) * np.sqrt((b ** 2).sum()))
    return r, t_of(r, x.size)


def shepherd(x, y, n_boot=200):
    """Rank correlation without the points whose bootstrapped distance is at least six."""
    m = bsmahal(np.column_stack((x, y)), np.column_stack((x, y)), n_boot)
    out = m >= 6
    keep = ~out
    r, p = spearmanr(x[keep], y[keep])
    return r, p, out


def bsmahal(a, b, n_boot=200):
    n, m = b.shape
    d = np.zeros((n, n_boot))
    rows = np.random.choice(np.arange(n), size=(n_boot, n), replace=True)
    for i in np.arange(n_boot):
        s = np.column_stack((b[rows[i, :], 0], b[rows[i, :], 1]))
        mu = s.mean(0)
        _, upper = np.linalg.qr(s - mu)
        z = np.linalg.solve(upper.T, (a - mu).T)
        d[:, i] = np.sum(z ** 2, 0) * (n - 1)
    return d.mean(1)


def bayesfactor_pearson(r, n, tail='two-sided', method='ly', kappa=1.):
    if not np.isfinite(r) or n < 2:
        return np.nan
    assert -1 <= r <= 1
    if method.lower() == 'wetzels' and tail.lower() == 'two-sided':
        def fun(g, r, n):
            return math.exp((n - 2) / 2 * math.log(1 + g) - (n - 1) / 2 * math.log(1 + (1 - r ** 2) * g) - 3 / 2 * math.log(g) - n / (2 * g))
        return np.sqrt(n / 2) / gamma(1 / 2) * quad(fun, 0, np.inf, args=(r, n))[0]
    h = math.log(hyp2f1((n - 1) / 2, (n - 1) / 2, (n + 2 / kappa) / 2, r ** 2))
    return math.exp((1 - 2 / kappa) * math.log(2) + 0.5 * math.log(math.pi) - betaln(1 / kappa, 1 / kappa)
                    + math.lgamma((n + 2 / kappa - 1) / 2) - math.lgamma((n + 2 / kappa) / 2) + h)


def esci_r(stat, nx, ny, paired, eftype, confidence=.95, decimals=2):
    z = np.arctanh(stat)
    w = np.abs(norm.ppf((1 - confidence) / 2)) / np.sqrt(nx - 3)
    return np.round(np.tanh(np.array([z - w, z + w])), decimals)


def esci_one(stat, nx, ny, paired, eftype, confidence=.95, decimals=2):
    w = np.abs(t.ppf((1 - confidence) / 2, nx - 1)) * np.sqrt(1 / nx + stat ** 2 / (2 * nx))
    return np.round(np.array([stat - w, stat + w]), decimals)


def esci_two(stat, nx, ny, paired, eftype, confidence=.95, decimals=2):
    if ny == 1:
        return esci_one(stat, nx, ny, paired, eftype, confidence, decimals)
    w = np.abs(t.ppf((1 - confidence) / 2, nx + ny - 2)) * np.sqrt((nx + ny) / (nx * ny) + stat ** 2 / (2 * (nx + ny)))
    return np.round(np.array([stat - w, stat + w]), decimals)


def power_of(r, n, alpha, sides):
    q = t.ppf(1 - alpha / sides, n - 2)
    rc = np.sqrt(q ** 2 / (q ** 2 + n - 2))
    z = np.arctanh(r) + r / (2 * (n - 1))
    p = norm.cdf((z - np.arctanh(rc)) * np.sqrt(n - 3))
    if sides == 2:
        p = p + norm.cdf((-z - np.arctanh(rc)) * np.sqrt(n - 3))
    return p


def power_two(r, n, power, alpha):
    assert -1 <= r <= 1
    if n <= 4:
        return np.nan
    return power_of(abs(r), n, alpha, 2)


def power_one(r, n, power, alpha, tail):
    assert -1 <= r <= 1
    if n <= 4:
        return np.nan
    return power_of(abs(r), n, alpha, 1)


def corr(x, y, tail='two-sided', method='pearson', **kwargs):
    """Correlation of the pairs without a missing member with its variance explained, interval, significance and power."""
    from metcalcpy.util import correlation as c
    x, y = np.asarray(x), np.asarray(y)
    assert x.ndim == y.ndim == 1 and x.size == y.size
    x, y = c.remove_na(x, y, paired=True)
    n = x.size
    if method == 'pearson':
        r, p = pearsonr(x, y)
    elif method == 'spearman':
        r, p = spearmanr(x, y, **kwargs)
    elif method == 'kendall':
        r, p = kendalltau(x, y, **kwargs)
    elif method == 'bicor':
        r, p = c.bicor(x, y, **kwargs)
    elif method == 'percbend':
        r, p = c.percbend(x, y, **kwargs)
    elif method == 'shepherd':
        r, p, _ = c.shepherd(x, y, **kwargs)
    else:
        raise ValueError()
    if np.isnan(r):
        return pd.DataFrame({'n': n, 'r': np.nan, 'CI95%': np.nan, 'r2': np.nan, 'adj_r2': np.nan, 'p-val': np.nan, 'BF10': np.nan, 'power': np.nan}, index=[method])
    found = {'n': n, 'r': r, 'r2': r ** 2, 'adj_r2': 1 - (1 - r ** 2) * (n - 1) / (n - 3), 'CI95%': [c.compute_esci(stat=r, nx=n, ny=n, eftype='r', decimals=6)],
             'p-val': p if tail == 'two-sided' else p / 2, 'power': c.power_corr(r=r, n=n, power=None, alpha=0.05, tail=tail)}
    if method == 'pearson':
        found['BF10'] = c.bayesfactor_pearson(r, n, tail=tail)
    frame = pd.DataFrame.from_records(found, index=[method])
    order = [k for k in ['n', 'outliers', 'r', 'CI95%', 'r2', 'adj_r2', 'p-val', 'BF10', 'power'] if k in frame.keys().tolist()]
    return c._postprocess_dataframe(frame)[order]


def paired(x, y, whole):
    """Pairs without a missing member."""
    x = np.asarray(x)
    y = np.asarray(y)
    keep = np.logical_and(~np.isnan(x), ~np.isnan(y))
    return x[keep], y[keep]
