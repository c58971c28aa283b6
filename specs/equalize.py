"""Reference definition of event equalization."""
import itertools
import re
import pandas as pd
from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX

TIMES = ["", "fcst_valid_beg", 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD']


def members(value):
    dates = re.findall(DATE_TIME_REGEX, value)
    return dates if len(dates) > 0 else value.split(GROUP_SEPARATOR)


def whole_number(text):
    try:
        int(text)
        return True
    except (ValueError, TypeError):
        return False


def matches(column, value):
    if value == 'NA':
        return column.isnull()
    if whole_number(value):
        return column == int(value)
    return column == value


def equalized(data, indy_var, series, fix_vars, fixed, by_indep, multi):
    if 'equalize' not in data.columns:
        if 'fcst_valid_beg' in data.columns:
            data['equalize'] = data['fcst_valid_beg'].astype(str) + ' ' + data['fcst_lead'].astype(str)
        elif 'fcst_valid' in data.columns:
            data['equalize'] = data['fcst_valid'].astype(str) + ' ' + data['fcst_lead'].astype(str)
    if by_indep and indy_var not in TIMES:
        data['equalize'] = data['equalize'].astype(str) + ' ' + data[indy_var].astype(str)
    wanted = {}
    for name, values in series.items():
        if name not in TIMES:
            wanted[name] = [m for v in ([values] if isinstance(values, str) else values) for m in members(v)]
    for name, values in zip([fix_vars] if isinstance(fix_vars, str) else fix_vars, fixed):
        if name not in TIMES:
            wanted[name] = [values] if isinstance(values, str) else values
    out = data
    for combination in itertools.product(*wanted.values()):
        rows = data
        for name, value in zip(wanted.keys(), combination):
            rows = rows[matches(rows[name], value)]
        out = out[out['equalize'].isin(rows['equalize'])]
    return out


def against(data, cases):
    if 'fcst_valid' not in data.columns:
        return pd.DataFrame()
    data['equalize'] = data['fcst_valid'].astype(str) + ' ' + data['fcst_lead'].astype(str)
    rows = data[data['equalize'].isin(cases)]
    if len(rows) == 0:
        return pd.DataFrame()
    return rows.drop('equalize', axis=1)


def axis(fix_names, fixed, params, data, number):
    variables = {'': ['']}
    if 'fcst_var_val_' + number in params:
        variables = params['fcst_var_val_' + number] or {}
    series = params['series_val_' + number]
    parts = []
    for variable, statistics in variables.items():
        for statistic in statistics:
            rows = data
            for name, values in series.items():
                if name in data.columns:
                    rows = rows[rows[name].isin([m for v in values for m in members(v)])]
                if 'fcst_var' in data.columns:
                    rows = rows[rows['fcst_var'] == variable]
                if 'stat_name' in data.columns:
                    rows = rows[rows['stat_name'] == statistic]
            parts.append(equalized(rows, params['indy_var'], series, fix_names, fixed, True, params['line_type'] == 'ssvar'))
    return pd.concat(parts).drop('equalize', axis=1) if parts else pd.DataFrame()


def whole(params, data):
    fixed = params.get('fixed_vars_vals_input', {})
    values = [[v for p in itertools.product(*x.values()) for v in p] if isinstance(x, dict) else x for x in fixed.values()]
    names = list(fixed.keys())
    first = axis(names, values, params, data, '1')
    if not params.get('series_val_2'):
        return first
    both = pd.concat([first, axis(names, values, params, data, '2')])
    series = dict(params['series_val_1'])
    for name, given in params['series_val_2'].items():
        series[name] = given
    return equalized(both, params['indy_var'], series, names, values, True, params['line_type'] == 'ssvar').drop('equalize', axis=1)


def eqz_axis(self, known, number):
    parts = []
    for variable in self.params['fcst_var_val_' + number].keys():
        for name, values in self.params['series_val_' + number].items():
            plain = [m for v in values for m in v.split(GROUP_SEPARATOR)]
            rows = self.input_data[(self.input_data['fcst_var'] == variable) & self.input_data[name].isin(plain)]
            past = known[(known['fcst_var'] == variable) & known[name].isin(plain)]
            parts.append(against(rows, past['equalize']))
    return pd.concat(parts)


def mode_axis(self, fixed, number):
    parts = []
    for name, values in self.params['series_val_' + number].items():
        rows = self.input_data[self.input_data[name].isin([m for v in values for m in v.split(GROUP_SEPARATOR)])]
        parts.append(equalized(rows, self.params['indy_var'], self.params['series_val_' + number],
                               list(self.params['fixed_vars_vals_input'].keys()), fixed, True, False))
    return pd.concat(parts)
