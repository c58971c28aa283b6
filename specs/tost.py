"""Paired equivalence testing: two one-sided tests against bounds in units of the standard deviation of the differences."""
import math
import sys
from scipy.stats import t, nct
from metcalcpy.util.utils import round_half_up, PRECISION


def pt(q, df, ncp=0, lower_tail=True):
    p = t.cdf(q, df) if ncp == 0 else nct.cdf(q, df, ncp)
    return p if lower_tail is not False else 1 - p


def qt(p, df, ncp=0):
    return t.ppf(p, df) if ncp == 0 else nct.ppf(p, df, ncp)


def r(x):
    return round_half_up(x, PRECISION)


def tost(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha=None, certain=False):
    if not alpha:
        alpha = 0.05
    if n < 2 or 1 <= alpha or alpha <= 0 or sd1 <= 0 or sd2 <= 0 or 1 < r12 or r12 < -1:
        sys.exit()
    d = m1 - m2
    s = math.sqrt(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2)
    low = low_eqbound_dz * s
    high = high_eqbound_dz * s
    se = s / math.sqrt(n)
    df = n - 1
    ts = (None, None)
    ps = (None, None)
    both = test = equivalence = 'none'
    if certain or se != 0:
        t_low = (d - low) / se
        t_high = (d - high) / se
        p_low = t.sf(t_low, df)
        p_high = t.cdf(t_high, df)
        p_diff = 2 * t.sf(abs(d / se), df)
        p_equiv = max(p_low, p_high)
        ts = (r(t_low), r(t_high))
        ps = (r(p_low), r(p_high))
        both = ('diff_' if p_diff <= alpha else 'no_diff_') + ('eqv' if p_equiv <= alpha else 'no_eqv')
        test = 'significant' if p_diff < alpha else 'non-significant'
        equivalence = 'significant' if p_equiv < alpha else 'non-significant'
    wide = t.ppf(1 - alpha, df) * se
    wider = t.ppf(1 - alpha / 2, df) * se
    edge = max(2 * wide, high - low) / 10
    return {'dif': r(d), 't': ts, 'p': ps, 'degrees_of_freedom': r(df), 'ci_tost': (r(d - wide), r(d + wide)), 'ci_ttest': (r(d - wider), r(d + wider)),
            'eqbound': (r(low), r(high)), 'xlim': (r(min(d - wide, low) - edge), r(max(d + wide, high) + edge)),
            'combined_outcome': both, 'test_outcome': test, 'tost_outcome': equivalence}


def tost_of_spread(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha=None):
    """The same without an answer for identical differences."""
    return tost(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha, True)
