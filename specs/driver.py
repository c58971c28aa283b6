"""What the drivers do with a requested statistic name."""
import numpy as np
from inspect import signature
from metcalcpy.util.utils import calc_derived_curve_value


def calc_stats(self, values, func, told):
    """The statistic's own function on the rows, or on each replicate of the rows."""
    if values is not None and values.ndim == 2:
        return [func(values, self.column_names, *told)]
    if values is not None and values.ndim == 3:
        return [[func(rows, self.column_names, *told)] for rows in values]
    raise KeyError("can't calculate statistic")


def one_statistic(values, columns, name, func, told):
    return func(values, columns, *told)


def run_named(rows, columns, name):
    func = globals()['calculate_' + name]
    if len(signature(func).parameters) == 2:
        return func(rows, columns)
    return func(rows, columns, True)


def derived(self, rows, width):
    """Each half of the columns with the statistic named in that half, combined by the operation in the last column."""
    half = int(width / 2)
    first = rows[:, 0:half]
    second = rows[:, half:width]
    found = np.where(self.column_names == 'stat_name')[0]
    if found.size == 0:
        name_a = name_b = self.statistic
    else:
        name_a, name_b = first[0, found[0]].lower(), second[0, found[0]].lower()
    a = [run_named(first, self.column_names, name_a)]
    b = [run_named(second, self.column_names, name_b)]
    r = calc_derived_curve_value(a, b, rows[0, -1])
    return r if isinstance(r, list) else [r]


def calc_stats_derived(self, values):
    if values is not None and values.ndim == 2:
        return derived(self, values, values.shape[1] - 1)
    if values is not None and values.ndim == 3:
        return [derived(self, rows, values.shape[2] - 1) for rows in values]
    raise KeyError("can't calculate statistic")
