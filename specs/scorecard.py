"""Scorecard cells."""
import itertools
import math
import re
import statistics
import numpy as np
import pandas as pd
from scipy.stats import t
from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
from metcalcpy.util.utils import (intersection, get_derived_curve_name, is_derived_point, is_string_integer, is_string_strictly_float, calc_derived_curve_value,
                                  perfect_score_adjustment, sort_data, PRECISION, DerivedCurveComponent)


def ncar(self, a, b):
    """One minus the two-sided p-value of the mean paired difference, signed by which series is the better one."""
    d = calc_derived_curve_value(a, b, 'DIFF_SIG')
    n = len(d)
    z = statistics.mean(d) / (statistics.stdev(d) / np.sqrt(n))
    return perfect_score_adjustment(statistics.mean(a), statistics.mean(b), self.params['list_stat_1'][0], 1 - 2 * t.sf(abs(z), n - 1))


def limits(days):
    """Critical values at 95, 99 and 99.9 percent."""
    if days >= 80:
        return 1.960, 2.576, 3.291
    if days >= 40:
        return 2.0, 2.66, 3.46
    if days >= 20:
        return 2.042, 2.75, 3.646
    return 2.228, 3.169, 4.587


def emc(self, a, b):
    """The highest level at which the difference of the means exceeds its interval, positive when the second series is better."""
    days = self.params['ndays']
    stat = self.params['list_stat_1'][0]
    d = [y - x for x, y in zip(a, b)]
    m = sum(d) / days
    width = round(1.960 * math.sqrt(sum([(x - m) * (x - m) for x in d]) / days) / math.sqrt(len(a) - 1), 6)
    first = round(statistics.mean(a), 6)
    second = round(statistics.mean(b), 6)
    if stat.startswith('ME') or stat.startswith('BIAS'):
        s = abs(second - first) / width
        if abs(second) < abs(first):
            s = -s
    elif stat.startswith('RMSE') or stat.startswith('RMSVE'):
        s = (second - first) / width
    else:
        s = (first - second) / width
    s = round(s, 3)
    c95, c99, c999 = limits(days)
    s99 = round(s * c95 / c99, 3)
    s999 = round(s * c95 / c999, 3)
    if s999 >= 1:
        return 1
    if s99 >= 1:
        return 0.99
    if s >= 1:
        return 0.95
    if s > -1:
        return 0
    if s99 > -1:
        return -0.95
    if s999 > -1:
        return -0.99
    return -1


def derived_points(self, series_val, indy_vals):
    """Every combination of field values a configured derived curve stands for, and the components it is made of."""
    out = []
    for first, second, operation in self.params['derived_series_1']:
        a = first.split(' ')
        b = second.split(' ')
        differ = [(x, y) for x, y in zip(a, b) if x != y]
        over = list(series_val.keys())[-1]
        if len(differ) > 0:
            for var in series_val.keys():
                if differ[0][0] in series_val[var] and differ[0][1] in series_val[var]:
                    over = var
                    break
        name = get_derived_curve_name([first, second, operation])
        values = {}
        for var in series_val.keys():
            values[var] = [name] if var == over else intersection(series_val[var], a)
        if len(indy_vals) > 0:
            values[self.params['indy_var']] = indy_vals
        values['stat_name'] = [a[-1] if a[-1] == b[-1] else a[-1] + ',' + b[-1]]
        self.derived_name_to_values[name] = DerivedCurveComponent(a, b, operation)
        for p in itertools.product(*values.values()):
            out.append(p)
    return out


def parts(self, component, series):
    """Field values identifying one component's rows; groups stand for their values."""
    names = list(component)
    for s in series[1:]:
        if s not in names:
            names.append(s)
    out = []
    for p in names:
        out.append(self.group_to_value[p] if p in self.group_to_value else p)
    return out


def rows_of(names, table):
    for key in table.keys():
        if all([k in names for k in key]):
            return table[key]
    return None


def derived(self, series, table):
    """One row with the combined value of the two components' paired rows."""
    name = ''
    for op in ('DIFF_SIG', 'DIFF', 'RATIO', 'SS', 'SINGLE', 'ETB'):
        for s in series:
            if s.startswith((op + '(', op + ' (')):
                name = s
    component = self.derived_name_to_values[name]
    a = rows_of(parts(self, component.first_component, series), table)
    b = rows_of(parts(self, component.second_component, series), table)
    if a.values is None or b.values is None or a.values.size == 0 or b.values.size == 0:
        return None
    op = component.derived_operation
    if op != 'SINGLE' and len(a.values) != 0 and len(b.values) != 0:
        when = None
        for c in ('fcst_init', 'fcst_init_beg', 'fcst_valid', 'fcst_valid_beg'):
            if c in self.column_names:
                when = c
        at = [np.where(self.column_names == c)[0][0] for c in (when, 'fcst_lead', 'stat_name')]
        try:
            distinct = len(set(map(tuple, a.values[:, at])))
        except TypeError:
            distinct = []
        if distinct != len(a.values):
            raise NameError()
    x = sort_data(a)['stat_value'].tolist()
    y = sort_data(b)['stat_value'].tolist()
    value = None
    if op == 'DIFF_SIG':
        value = self._calculate_diff_sig_emc(x, y) if self.params['stat_flag'] == 'EMC' else self._calculate_diff_sig_ncar(x, y)
    elif op == 'DIFF':
        value = statistics.mean(calc_derived_curve_value(x, y, 'DIFF'))
    elif op == 'SINGLE':
        value = statistics.mean(x)
    row = a.head(1)
    for c in ['equalize', 'stat_ncl', 'stat_ncu', 'stat_bcl', 'stat_bcu', 'fcst_valid_beg', 'fcst_init_beg']:
        if c in self.column_names:
            row = row.drop(c, axis=1)
    row.reset_index(drop=True, inplace=True)
    row.at[0, 'stat_value'] = value
    row = row.astype({'fcst_lead': str})
    for lead in self.params['series_val_1']['fcst_lead']:
        if lead in component.first_component:
            row.at[0, 'fcst_lead'] = lead
    row.at[0, 'model'] = name
    return row


def selected(self, field, value):
    """Rows having one of the values a field value stands for."""
    if GROUP_SEPARATOR in value:
        wanted = re.findall(DATE_TIME_REGEX, value)
        if len(wanted) == 0:
            wanted = value.split(GROUP_SEPARATOR)
    elif ';' in value:
        wanted = value.split(';')
    else:
        wanted = [value]
    wanted = [int(w) if is_string_integer(w) else float(w) if is_string_strictly_float(w) else w for w in wanted]
    return self.input_data[field].isin(wanted)


def cells(self):
    """Rows of every plain point, then one output row for each derived point with data."""
    if self.input_data.empty:
        return pd.DataFrame()
    fields = self.params['series_val_1'].copy()
    fields['stat_name'] = self.params['list_stat_1']
    if self.params['indy_vals']:
        fields[self.params['indy_var']] = self.params['indy_vals']
    points = list(itertools.product(*fields.values()))
    if self.params['derived_series_1']:
        points = points + self._get_derived_points(self.params['series_val_1'], self.params['indy_vals'])
    rows = {}
    out = None
    for p in points:
        if is_derived_point(p):
            r = self._get_stats_for_derived(p, rows)
            if r is not None:
                out = r if out is None else pd.concat([out, r], axis=0)
        else:
            masks = [selected(self, f, v) for f, v in zip(fields.keys(), p) if f in self.input_data.keys()]
            rows[p] = self.input_data.loc[np.array(masks).all(axis=0)]
    if out is not None:
        more = 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True'
        out.to_csv(self.params['sum_stat_output'], index=None, header=not more, mode='a' if more else 'w', sep='\t', na_rep='NA',
                   float_format='%.' + str(PRECISION) + 'f')


def in_case_order(rows):
    """Rows by time, lead and statistic; valid time comes first where there is one."""
    fields = rows.keys()
    by = []
    for c in ('fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init'):
        if len(by) == 0 and (c in fields or c == 'fcst_init'):
            by = [c, 'fcst_lead']
    if 'stat_name' in fields:
        by = by + ['stat_name']
    return rows.sort_values(by=by)
