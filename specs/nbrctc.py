"""Neighbourhood contingency scores: the plain scores of the same counts."""
from specs.ctc import *


def calculate_nbr_baser(t, k):
    return calculate_baser(t, k)


def calculate_nbr_acc(t, k):
    return calculate_acc(t, k)


def calculate_nbr_fbias(t, k):
    return calculate_fbias(t, k)


def calculate_nbr_fmean(t, k):
    return calculate_fmean(t, k)


def calculate_nbr_pody(t, k):
    return calculate_pody(t, k)


def calculate_nbr_pofd(t, k):
    return calculate_pofd(t, k)


def calculate_nbr_podn(t, k):
    return calculate_podn(t, k)


def calculate_nbr_far(t, k):
    return calculate_far(t, k)


def calculate_nbr_csi(t, k):
    return calculate_csi(t, k)


def calculate_nbr_gss(t, k):
    return calculate_gss(t, k)


def calculate_nbr_hk(t, k):
    return calculate_hk(t, k)


def calculate_nbr_hss(t, k):
    return calculate_hss(t, k)


def calculate_nbr_odds(t, k):
    return calculate_odds(t, k)


def calculate_nbr_ctc_total(t, k):
    return calculate_ctc_total(t, k)
