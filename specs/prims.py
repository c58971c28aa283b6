"""Primitives the reference definitions are written over, and the package's other shared helpers."""
import itertools
import math
import numpy as np

SIGNS = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'DIFF_SIG': '-', 'SINGLE': '-', 'ETB': ' and '}


def round_half_up(num, decimals=0):
    """Nearest number with that many decimals, ties towards plus infinity; missing stays missing."""
    if num is None:
        return None
    return math.floor(num * 10 ** decimals + 0.5) / 10 ** decimals


def column_data_by_name(input_data, columns, column_name, rm_none=False):
    """Values of a named column, or missing when there is no such column."""
    found = np.where(columns == column_name)[0]
    if found.size == 0:
        return None
    try:
        values = np.array(input_data[:, found[0]], dtype=np.float64)
    except IndexError:
        return None
    if rm_none:
        return [x for x in values if not np.isnan(x)]
    return values


def sum_column_data_by_name(input_data, columns, column_name, rm_none=True):
    """Sum of the usable values of a column, missing when there is none (or when one is missing and that matters)."""
    values = column_data_by_name(input_data, columns, column_name)
    if values is None or np.isnan(values).all():
        return None
    if rm_none:
        return np.nansum(values.astype(float))
    if np.isnan(values).any():
        return None
    return sum(values.astype(float))


def column_data_by_name_value(input_data, columns, filters):
    """Rows satisfying every condition."""
    rows = np.copy(input_data)
    try:
        for name, wanted in filters.items():
            found = np.where(columns == name)[0]
            if found.size == 0:
                return 0
            rows = rows[rows[:, found[0]].astype(type(wanted)) == wanted]
    except IndexError:
        rows = []
    return rows


def nrow_column_data_by_name_value(input_data, columns, filters):
    return column_data_by_name_value(input_data, columns, filters).shape[0]


def get_total_values(input_data, columns_names, aggregation):
    if aggregation:
        return sum_column_data_by_name(input_data, columns_names, 'total')
    return 1


def get_column_index_by_name(columns, column_name):
    found = np.where(columns == column_name)[0]
    if found.size == 0:
        return None
    return found[0]


def represents_int(value):
    return isinstance(value, int)


def is_string_integer(text):
    try:
        int(text)
    except (ValueError, TypeError):
        return False
    return True


def is_string_strictly_float(text):
    if text is None:
        return False
    if text.startswith('-'):
        text = text[1:]
    return '.' in text and text.replace('.', '', 1).isdecimal()


def parse_bool(text):
    if text == 'True':
        return True
    if text == 'False':
        return False
    return text


def intersection(first, second):
    if first is None or second is None:
        return None
    both = []
    for x in first:
        if x in second:
            both.append(x)
    return both


def unique(values):
    if not values:
        return None
    return list(set(values))


def create_permutations(lists):
    return list(itertools.product(*lists))


def R(x):
    return round_half_up(x, 7)


def S(data, columns, name):
    return sum_column_data_by_name(data, columns, name)


def T(data, columns, aggregation):
    """Divisor in effect."""
    if aggregation:
        return sum_column_data_by_name(data, columns, 'total')
    return 1
