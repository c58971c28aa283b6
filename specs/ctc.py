"""Contingency-table scores from the cell counts a (hits), b (false alarms), c (misses), d (correct negatives), n."""
from math import log
from scipy.special import lambertw
from specs.prims import S, R


def A(t, k):
    return S(t, k, 'fy_oy')


def B(t, k):
    return S(t, k, 'fy_on')


def C(t, k):
    return S(t, k, 'fn_oy')


def D(t, k):
    return S(t, k, 'fn_on')


def N(t, k):
    return S(t, k, 'total')


def ratio(x, y):
    return R(x / y)


def calculate_baser(t, k):
    return ratio(A(t, k) + C(t, k), N(t, k))


def calculate_acc(t, k):
    return ratio(A(t, k) + D(t, k), N(t, k))


def calculate_fbias(t, k):
    return ratio(A(t, k) + B(t, k), A(t, k) + C(t, k))


def calculate_fmean(t, k):
    return ratio(A(t, k) + B(t, k), N(t, k))


def calculate_pody(t, k):
    return ratio(A(t, k), A(t, k) + C(t, k))


def calculate_pofd(t, k):
    return ratio(B(t, k), B(t, k) + D(t, k))


def calculate_podn(t, k):
    return ratio(D(t, k), B(t, k) + D(t, k))


def calculate_far(t, k):
    return ratio(B(t, k), A(t, k) + B(t, k))


def calculate_csi(t, k):
    return ratio(A(t, k), A(t, k) + B(t, k) + C(t, k))


def calculate_gss(t, k):
    a, b, c = A(t, k), B(t, k), C(t, k)
    chance = (a + b) * (a + c) / N(t, k)
    return ratio(a - chance, a + b + c - chance)


def calculate_hk(t, k):
    return R(calculate_pody(t, k) - calculate_pofd(t, k))


def calculate_hss(t, k):
    a, b, c, d, n = A(t, k), B(t, k), C(t, k), D(t, k), N(t, k)
    expected = ((a + b) * (a + c) + (c + d) * (b + d)) / n
    return ratio(a + d - expected, n - expected)


def calculate_odds(t, k):
    h, f = calculate_pody(t, k), calculate_pofd(t, k)
    return ratio(h * (1 - f), f * (1 - h))


def calculate_odds1(t, k):
    h, f = calculate_pody(t, k), calculate_pofd(t, k)
    return R((h / (1 - h)) / (f / (1 - f)))


def calculate_lodds(t, k):
    return R(log(A(t, k)) + log(D(t, k)) - log(B(t, k)) - log(C(t, k)))


def calculate_orss(t, k):
    a, b, c, d = A(t, k), B(t, k), C(t, k), D(t, k)
    return ratio(a * d - b * c, a * d + b * c)


def calculate_eds(t, k):
    a, n = A(t, k), N(t, k)
    return R(2 * log((a + C(t, k)) / n) / log(a / n) - 1)


def calculate_seds(t, k):
    a, b, c, n = A(t, k), B(t, k), C(t, k), N(t, k)
    return R((log((a + b) / n) + log((a + c) / n)) / log(a / n) - 1)


def calculate_edi(t, k):
    S(t, k, 'total')
    h = calculate_pody(t, k)
    f = B(t, k) / (B(t, k) + D(t, k))
    return ratio(log(f) - log(h), log(f) + log(h))


def calculate_sedi(t, k):
    h = calculate_pody(t, k)
    f = B(t, k) / (B(t, k) + D(t, k))
    return ratio(log(f) - log(h) - log(1 - f) + log(1 - h), log(f) + log(h) + log(1 - f) + log(1 - h))


def calculate_bagss(t, k):
    a, b, c, n = A(t, k), B(t, k), C(t, k), N(t, k)
    if a == 0 or c == 0 or n == 0:
        return None
    o = a + c
    lf = log(o / c)
    w = lambertw(o / b * lf).real
    ha = o - b / lf * w
    return ratio(ha - o ** 2 / n, 2 * o - ha - o ** 2 / n)


def calculate_ctc_total(t, k):
    return R(N(t, k))


def calculate_cts_total(t, k):
    return R(N(t, k))


def calculate_ctc_fn_on(t, k):
    return R(D(t, k))


def calculate_ctc_fn_oy(t, k):
    return R(C(t, k))


def calculate_ctc_fy_on(t, k):
    return R(B(t, k))


def calculate_ctc_fy_oy(t, k):
    return R(A(t, k))


def calculate_ctc_oy(t, k):
    return R(A(t, k) + C(t, k))


def calculate_ctc_on(t, k):
    return R(B(t, k) + D(t, k))


def calculate_ctc_fy(t, k):
    return R(A(t, k) + B(t, k))


def calculate_ctc_fn(t, k):
    return R(C(t, k) + D(t, k))


def pod_yes(t, k):
    return calculate_pody(t, k)


def pod_no(t, k):
    return calculate_podn(t, k)
