"""Spread/skill variance scores: the scalar scores on the binned partial sums."""
from math import sqrt
import numpy as np
from specs.prims import S, R
from specs.sl1l2 import *
from specs.sl1l2 import mean
from specs.sal1l2 import calculate_anom_corr


def calculate_ssvar_fbar(t, k, agg):
    return calculate_fbar(t, k, agg)


def calculate_ssvar_obar(t, k, agg):
    return calculate_obar(t, k, agg)


def calculate_ssvar_fstdev(t, k, agg):
    return calculate_fstdev(t, k, agg)


def calculate_ssvar_ostdev(t, k, agg):
    return calculate_ostdev(t, k, agg)


def calculate_ssvar_pr_corr(t, k, agg):
    return calculate_pr_corr(t, k, agg)


def calculate_ssvar_me(t, k, agg):
    return calculate_me(t, k, agg)


def calculate_ssvar_estdev(t, k, agg):
    return calculate_estdev(t, k, agg)


def calculate_ssvar_mse(t, k, agg):
    return calculate_mse(t, k, agg)


def calculate_ssvar_bcmse(t, k, agg):
    return calculate_bcmse(t, k, agg)


def calculate_ssvar_bcrmse(t, k, agg):
    return calculate_bcrmse(t, k, agg)


def calculate_ssvar_rmse(t, k, agg):
    return calculate_rmse(t, k, agg)


def calculate_ssvar_me2(t, k, agg):
    return calculate_me2(t, k, agg)


def calculate_ssvar_msess(t, k, agg):
    return calculate_msess(t, k, agg)


def calculate_ssvar_spread(t, k, agg):
    return R(sqrt(mean(t, k, agg, 'var_mean')))


def calculate_ssvar_total(t, k):
    return R(S(t, k, 'total_orig'))


def calculate_ssvar_anom_corr(t, k, agg):
    names = np.copy(k)
    for plain, anomaly in (('ffbar', 'ffabar'), ('fbar', 'fabar'), ('oobar', 'ooabar'), ('obar', 'oabar'), ('fobar', 'foabar')):
        names[names == plain] = anomaly
    return calculate_anom_corr(t, names, agg)
