"""Continuous scores from the scalar partial sums."""
from math import sqrt
from specs.prims import S, R, T


def mean(t, k, agg, name):
    return S(t, k, name) / T(t, k, agg)


def mean_score(t, k, agg, name):
    return R(mean(t, k, agg, name))


def spread_of(total, squares, n):
    """Sample standard deviation from a sum, a sum of squares and a count."""
    if n < 1:
        return None
    v = (squares - total * total / n) / (n - 1)
    if v < 0:
        return None
    return sqrt(v)


def calculate_stddev(total, squares, n):
    return spread_of(total, squares, n)


def calculate_fbar(t, k, agg):
    return mean_score(t, k, agg, 'fbar')


def calculate_obar(t, k, agg):
    return mean_score(t, k, agg, 'obar')


def calculate_fobar(t, k, agg):
    return mean_score(t, k, agg, 'fobar')


def calculate_ffbar(t, k, agg):
    return mean_score(t, k, agg, 'ffbar')


def calculate_oobar(t, k, agg):
    return mean_score(t, k, agg, 'oobar')


def calculate_mae(t, k, agg):
    return mean_score(t, k, agg, 'mae')


def calculate_fstdev(t, k, agg):
    n = S(t, k, 'total')
    return R(spread_of(mean(t, k, agg, 'fbar') * n, mean(t, k, agg, 'ffbar') * n, n))


def calculate_ostdev(t, k, agg):
    n = S(t, k, 'total')
    return R(spread_of(mean(t, k, agg, 'obar') * n, mean(t, k, agg, 'oobar') * n, n))


def calculate_mbias(t, k, agg):
    return R(mean(t, k, agg, 'fbar') / mean(t, k, agg, 'obar'))


def calculate_pr_corr(t, k, agg):
    n = S(t, k, 'total')
    f = mean(t, k, agg, 'fbar')
    o = mean(t, k, agg, 'obar')
    ff = mean(t, k, agg, 'ffbar')
    oo = mean(t, k, agg, 'oobar')
    fo = mean(t, k, agg, 'fobar')
    v = n * n * (ff - f * f) * (n * n * (oo - o * o))
    r = n * n * (fo - f * o) / sqrt(v)
    if v <= 0 or r > 1:
        return None
    return R(r)


def calculate_fe(t, k, agg):
    f = mean(t, k, agg, 'fbar')
    return R((f - mean(t, k, agg, 'obar')) / f)


def calculate_me(t, k, agg):
    return R(mean(t, k, agg, 'fbar') - mean(t, k, agg, 'obar'))


def calculate_me2(t, k, agg):
    e = calculate_me(t, k, agg)
    return R(e * e)


def calculate_mse(t, k, agg):
    return R(mean(t, k, agg, 'ffbar') + mean(t, k, agg, 'oobar') - 2 * mean(t, k, agg, 'fobar'))


def calculate_msess(t, k, agg):
    s = calculate_ostdev(t, k, agg)
    return R(1 - calculate_mse(t, k, agg) / (s * s))


def calculate_rmse(t, k, agg):
    return R(sqrt(calculate_mse(t, k, agg)))


def calculate_si(t, k, agg):
    return R(calculate_rmse(t, k, agg) / calculate_obar(t, k, agg))


def calculate_estdev(t, k, agg):
    n = S(t, k, 'total')
    return R(spread_of(calculate_me(t, k, agg) * n, calculate_mse(t, k, agg) * n, n))


def calculate_bcmse(t, k, agg):
    e = calculate_me(t, k, agg)
    return R(calculate_mse(t, k, agg) - e * e)


def calculate_bcrmse(t, k, agg):
    return R(sqrt(calculate_bcmse(t, k, agg)))


def calculate_sl1l2_total(t, k):
    return R(S(t, k, 'total'))


def calculate_sal1l2_total(t, k):
    return R(S(t, k, 'total'))
