"""Probabilistic scores over the summed counts of the probability bins."""
import numpy as np
import pandas as pd
from specs.prims import S, R


def place(k, name):
    """Position of a column, None when there is no such column."""
    at = np.where(k == name)[0]
    if at.size == 0:
        return None
    return at[0]


def column(t, k, name):
    return t[:, place(k, name)]


def bins(t, k):
    """Bin probabilities, event counts, non-event counts; bins without any case are dropped."""
    prob, yes, no = [], [], []
    for name in k:
        if 'oy_i' in name:
            yes.append(S(t, k, name))
        elif 'on_i' in name:
            no.append(S(t, k, name))
        elif 'thresh_i' in name:
            prob.append(t[0, place(k, name)])
    f = pd.DataFrame({'thresh_i': prob, 'oy_i': yes, 'on_i': no})
    f['n_i'] = [r.oy_i + r.on_i for _, r in f.iterrows()]
    f = f[f['n_i'] != 0]
    f['o_bar_i'] = [r.oy_i / r.n_i for _, r in f.iterrows()]
    return f


def total(f):
    return f['n_i'].sum()


def base(f):
    return f['oy_i'].sum() / total(f)


def climate(t, k):
    return t[0, place(k, 'o_bar')]


def reliability(f):
    return sum([r.n_i * (r.thresh_i - r.o_bar_i) * (r.thresh_i - r.o_bar_i) for _, r in f.iterrows()]) / total(f)


def resolution(f, o):
    return sum([r.n_i * (r.o_bar_i - o) ** 2 for _, r in f.iterrows()]) / total(f)


def uncertainty(f):
    return base(f) * (1 - base(f))


def calculate_pstd_brier(t, k):
    f = bins(t, k)
    return R(reliability(f) - resolution(f, climate(t, k)) + uncertainty(f))


def calculate_pstd_bss_smpl(t, k):
    f = bins(t, k)
    return R((resolution(f, climate(t, k)) - reliability(f)) / uncertainty(f))


def calculate_pstd_baser(t, k):
    return R(base(bins(t, k)))


def calculate_pstd_reliability(t, k):
    return R(reliability(bins(t, k)))


def calculate_pstd_resolution(t, k):
    return R(resolution(bins(t, k), climate(t, k)))


def calculate_pstd_uncertainty(t, k):
    return R(uncertainty(bins(t, k)))


def calculate_pstd_ni(t, k):
    return R(sum(column(t, k, 'oy_i')) + sum(column(t, k, 'on_i')))


def calculate_pstd_calibration(t, k):
    return R(sum(column(t, k, 'oy_i')) / calculate_pstd_ni(t, k))


def roc_points(f):
    """Hit rate and false-alarm rate of the forecasts above each bin probability."""
    levels = np.unique(np.sort(f['thresh_i'].to_numpy()))
    roc = pd.DataFrame({'thresh': levels, 'n11': None, 'n10': None, 'n01': None, 'n00': None, 'pody': None, 'pofd': None})
    for x in levels:
        roc.loc[roc.index[roc['thresh'] == x], 'n11'] = sum(f[f['thresh_i'] > x]['oy_i'])
        roc.loc[roc.index[roc['thresh'] == x], 'n10'] = sum(f[f['thresh_i'] > x]['on_i'])
        roc.loc[roc.index[roc['thresh'] == x], 'n01'] = sum(f[f['thresh_i'] <= x]['oy_i'])
        roc.loc[roc.index[roc['thresh'] == x], 'n00'] = sum(f[f['thresh_i'] <= x]['on_i'])
    roc['pody'] = [r.n11 / (r.n11 + r.n01) for _, r in roc.iterrows()]
    roc['pofd'] = [r.n10 / (r.n10 + r.n00) for _, r in roc.iterrows()]
    return roc


def calculate_pstd_roc_auc(t, k):
    roc = roc_points(bins(t, k))
    head = pd.DataFrame({'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1}, index=[0])
    tail = pd.DataFrame({'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0}, index=[0])
    roc = pd.concat([pd.concat([head, roc]), tail])
    roc.reset_index(inplace=True, drop=True)
    area = 0
    for i, r in roc.iterrows():
        if i != 0:
            before = roc.iloc[i - 1]
            area = area + 0.5 * (before['pody'] + r.pody) * (before['pofd'] - r.pofd)
    return R(area)


def calculate_pct_total(t, k):
    return R(S(t, k, 'total'))
