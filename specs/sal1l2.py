"""Anomaly scores from the scalar anomaly partial sums."""
from math import sqrt
from specs.prims import S, R, T
from specs.sl1l2 import mean


def calculate_anom_corr(t, k, agg):
    n = T(t, k, agg)
    f = mean(t, k, agg, 'fabar')
    o = mean(t, k, agg, 'oabar')
    ff = mean(t, k, agg, 'ffabar')
    oo = mean(t, k, agg, 'ooabar')
    fo = mean(t, k, agg, 'foabar')
    v = n * n * (ff - f * f) * (n * n * (oo - o * o))
    if v <= 0:
        return None
    r = n * n * (fo - f * o) / sqrt(v)
    if r > 1:
        return None
    return R(r)


def calculate_anom_corr_raw(t, k, agg):
    r = mean(t, k, agg, 'foabar') / sqrt(mean(t, k, agg, 'ffabar') * mean(t, k, agg, 'ooabar'))
    if r > 1:
        r = 1
    elif r < -1:
        r = -1
    return R(r)


def calculate_rmsfa(t, k, agg):
    return R(sqrt(mean(t, k, agg, 'ffabar')))


def calculate_rmsoa(t, k, agg):
    return R(sqrt(mean(t, k, agg, 'ooabar')))
