"""Derived curves and the sign of their significance."""
import statistics as st
from metcalcpy.util.utils import tost_paired
from metcalcpy.util.correlation import corr
from specs.prims import SIGNS
from specs.perfect import NO_PERFECT, PERFECT_ZERO, PERFECT_ONE


def get_derived_curve_name(names):
    """OPERATION(first sign second); a difference unless a third element names the operation."""
    if len(names) < 2:
        return ''
    operation = 'DIFF'
    if len(names) == 3:
        operation = names[2]
    return operation + '(' + names[0] + SIGNS[operation] + names[1] + ')'


def is_derived_point(point):
    if point is None:
        return False
    for part in point:
        for operation in SIGNS:
            if part.startswith((operation + '(', operation + ' (')):
                return True
    return False


def calc_derived_curve_value(first, second, operation):
    """Elementwise over pairs in the given order; missing when anything is missing, lengths differ or a divisor is zero."""
    if first is None or second is None or None in first or None in second:
        return None
    if len(first) != len(second):
        return None
    if operation == 'DIFF' or operation == 'DIFF_SIG':
        return [a - b for a, b in zip(first, second)]
    if operation == 'RATIO':
        if 0 in second:
            return None
        return [a / b for a, b in zip(first, second)]
    if operation == 'SS':
        if 0 in first:
            return None
        return [(a - b) / a for a, b in zip(first, second)]
    if operation == 'SINGLE':
        return first
    if operation == 'ETB':
        r = corr(x=first, y=second)['r'].tolist()[0]
        return tost_paired(len(first), st.mean(first), st.mean(second), st.stdev(first), st.stdev(second), r, -0.001, 0.001)
    return None


def component(self, first_component, second_component, derived_operation):
    self.first_component = first_component
    self.second_component = second_component
    self.derived_operation = derived_operation


def perfect_score_adjustment(first, second, statistic, pval):
    """The significance changes sign when the first series is strictly farther from the statistic's perfect score."""
    name = statistic.upper()
    if name in NO_PERFECT:
        return None
    if name in PERFECT_ZERO:
        if abs(first) > abs(second):
            return -pval
        return pval
    if name in PERFECT_ONE:
        if abs(first - 1) > abs(second - 1):
            return -pval
        return pval
    return pval
