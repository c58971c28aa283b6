"""Ensemble, ranked-probability, neighbourhood and gradient scores."""
from math import sqrt
from specs.prims import S, R, T
from specs.sl1l2 import mean, mean_score


def skill(score, reference):
    return R(1 - score / reference)


def calculate_ecnt_crps(t, k, agg):
    return mean_score(t, k, agg, 'crps')


def calculate_ecnt_crpscl(t, k, agg):
    return mean_score(t, k, agg, 'crpscl')


def calculate_ecnt_crpss(t, k, agg):
    return skill(mean(t, k, agg, 'crps'), mean(t, k, agg, 'crpscl'))


def calculate_ecnt_crps_emp(t, k, agg):
    return mean_score(t, k, agg, 'crps_emp')


def calculate_ecnt_crps_emp_fair(t, k, agg):
    return mean_score(t, k, agg, 'crps_emp_fair')


def calculate_ecnt_spread_md(t, k, agg):
    return mean_score(t, k, agg, 'spread_md')


def calculate_ecnt_crpscl_emp(t, k, agg):
    return mean_score(t, k, agg, 'crpscl_emp')


def calculate_ecnt_crpss_emp(t, k, agg):
    return skill(mean(t, k, agg, 'crps_emp'), mean(t, k, agg, 'crpscl_emp'))


def calculate_ecnt_ign(t, k, agg):
    return mean_score(t, k, agg, 'ign')


def calculate_ecnt_me(t, k, agg):
    return mean_score(t, k, agg, 'me')


def calculate_ecnt_mae(t, k, agg):
    return mean_score(t, k, agg, 'mae')


def calculate_ecnt_mae_oerr(t, k, agg):
    return mean_score(t, k, agg, 'mae_oerr')


def calculate_ecnt_me_oerr(t, k, agg):
    return mean_score(t, k, agg, 'me_oerr')


def root(t, k, agg, name):
    return R(sqrt(mean_score(t, k, agg, name)))


def calculate_ecnt_rmse(t, k, agg):
    return root(t, k, agg, 'mse')


def calculate_ecnt_spread(t, k, agg):
    return root(t, k, agg, 'variance')


def calculate_ecnt_rmse_oerr(t, k, agg):
    return root(t, k, agg, 'mse_oerr')


def calculate_ecnt_spread_oerr(t, k, agg):
    return root(t, k, agg, 'variance_oerr')


def calculate_ecnt_spread_plus_oerr(t, k, agg):
    return root(t, k, agg, 'variance_plus_oerr')


def calculate_ecnt_n_ge_obs(t, k, agg):
    return R(S(t, k, 'n_ge_obs'))


def calculate_ecnt_n_lt_obs(t, k, agg):
    return R(S(t, k, 'n_lt_obs'))


def calculate_ecnt_me_ge_obs(t, k, agg):
    return R(S(t, k, 'me_ge_obs') / S(t, k, 'n_ge_obs'))


def calculate_ecnt_me_lt_obs(t, k, agg):
    return R(S(t, k, 'me_lt_obs') / S(t, k, 'n_lt_obs'))


def calculate_ecnt_bias_ratio(t, k, agg):
    return R(calculate_ecnt_me_ge_obs(t, k, agg) / abs(calculate_ecnt_me_lt_obs(t, k, agg)))


def calculate_ecnt_total(t, k):
    return R(S(t, k, 'total'))


def calculate_rps(t, k, agg):
    return mean_score(t, k, agg, 'rps')


def calculate_rps_comp(t, k, agg):
    return mean_score(t, k, agg, 'rps_comp')


def calculate_rpss(t, k, agg):
    return skill(mean(t, k, agg, 'rps'), mean(t, k, agg, 'rps_climo'))


def calculate_rps_total(t, k):
    return R(S(t, k, 'total'))


def calculate_nbr_fbs(t, k, agg):
    return mean_score(t, k, agg, 'fbs')


def calculate_nbr_fss(t, k, agg):
    return skill(mean(t, k, agg, 'fbs'), mean(t, k, agg, 'fss'))


def calculate_nbr_afss(t, k, agg):
    f = mean(t, k, agg, 'f_rate')
    o = mean(t, k, agg, 'o_rate')
    return R(2 * f * o / (f * f + o * o))


def calculate_nbr_ufss(t, k, agg):
    return R((1 + mean(t, k, agg, 'o_rate')) / 2)


def calculate_nbr_f_rate(t, k, agg):
    return mean_score(t, k, agg, 'f_rate')


def calculate_nbr_o_rate(t, k, agg):
    return mean_score(t, k, agg, 'o_rate')


def calculate_nbr_cnt_total(t, k):
    return R(S(t, k, 'total'))


def calculate_fgbar(t, k, agg):
    return mean_score(t, k, agg, 'fgbar')


def calculate_ogbar(t, k, agg):
    return mean_score(t, k, agg, 'ogbar')


def calculate_mgbar(t, k, agg):
    return mean_score(t, k, agg, 'mgbar')


def calculate_egbar(t, k, agg):
    return mean_score(t, k, agg, 'egbar')


def percent(t, k, agg, a, b):
    return R(100 * mean(t, k, agg, a) / mean(t, k, agg, b))


def calculate_s1(t, k, agg):
    return percent(t, k, agg, 'egbar', 'mgbar')


def calculate_s1_og(t, k, agg):
    return percent(t, k, agg, 'egbar', 'ogbar')


def calculate_fgog_ratio(t, k, agg):
    return percent(t, k, agg, 'fgbar', 'ogbar')


def calculate_grad_total(t, k):
    return R(S(t, k, 'total'))
