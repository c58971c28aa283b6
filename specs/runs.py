"""How the drivers estimate a value and its bounds from the rows of a point."""
import itertools
import math
import re
import numpy as np
import pandas as pd
from metcalcpy.bootstrap import BootstrapResults, bootstrap_and_value, bootstrap_and_value_mode
from metcalcpy import DATE_TIME_REGEX
from metcalcpy.util.utils import aggregate_field_values, OPERATION_TO_SIGN, DerivedCurveComponent, calc_derived_curve_value, get_derived_curve_name, is_string_integer, \
    is_derived_point, is_string_strictly_float, parse_bool, perfect_score_adjustment, round_half_up, sort_data
from metcalcpy.sum_stat import calculate_statistic
from metcalcpy.util.eclv_statistics import calculate_eclv


def nothing():
    return BootstrapResults(lower_bound=None, value=None, upper_bound=None)


def block(self, n):
    """Circular blocks as long as the root of the sample size unless switched off."""
    if 'circular_block_bootstrap' in self.params.keys() and not parse_bool(self.params['circular_block_bootstrap']):
        return 1
    return int(math.sqrt(n))


def estimate(self, rows, axis, prepare):
    if rows.empty:
        return nothing()
    keep = True if self.params['derived_series_' + axis] else False
    rows = sort_data(rows)
    rows.reset_index(inplace=True, drop=True)
    if prepare is not None:
        prepare(self, rows)
    data = rows.to_numpy()
    if self.params['num_iterations'] == 1:
        r = BootstrapResults(lower_bound=None, value=self._calc_stats(data)[0], upper_bound=None)
        if keep:
            r.set_original_values(data)
        return r
    try:
        return bootstrap_and_value(data, stat_func=self._calc_stats, alpha=self.params.get('alpha', 0.05), num_iterations=self.params['num_iterations'],
                                   num_threads=self.params['num_threads'], ci_method=self.params['method'], save_data=keep, block_length=block(self, len(data)))
    except KeyError:
        return BootstrapResults(None, None, None)


def estimate_value_curves(self, rows, thresholds):
    """One curve for each threshold."""
    if rows.empty:
        return nothing()
    data = rows[self.column_names].to_numpy()
    out = {}
    for i, threshold in enumerate(thresholds):
        self.current_thresh = threshold
        if self.params['num_iterations'] == 1:
            r = BootstrapResults(lower_bound=None, value=self._calc_stats(data)[0], upper_bound=None)
        else:
            try:
                r = bootstrap_and_value(data, stat_func=self._calc_stats, alpha=self.params.get('alpha', 0.05), num_iterations=self.params['num_iterations'],
                                        num_threads=self.params['num_threads'], ci_method=self.params['method'], save_data=False, block_length=block(self, len(data)), eclv=True)
            except KeyError:
                r = BootstrapResults(None, None, None)
        out[i] = r
    return out


def value_curves(self, values):
    def one(rows):
        return calculate_eclv(rows, self.column_names, self.current_thresh, self.params['line_type'], self.steps, self.add_base_rate)
    if values is not None and values.ndim == 2:
        return [one(values)]
    if values is not None and values.ndim == 3:
        return [[one(rows)] for rows in values]
    raise KeyError("can't calculate statistic")


def estimate_objects(self, rows, cases):
    self.series_data = sort_data(rows)
    if self.params['num_iterations'] == 1:
        return BootstrapResults(lower_bound=None, value=self._calc_stats(cases)[0], upper_bound=None)
    try:
        return bootstrap_and_value_mode(self.series_data, cases, stat_func=self._calc_stats, alpha=self.params.get('alpha', 0.05), num_iterations=self.params['num_iterations'],
                                        num_threads=self.params['num_threads'], ci_method=self.params['method'])
    except KeyError:
        return BootstrapResults(None, None, None)


LINE_TYPE_COLUMNS = {'ctc': ['total', 'fy_oy', 'fy_on', 'fn_oy', 'fn_on'], 'pct': ['thresh_i', 'oy_i', 'on_i']}


def value_curve_setup(self, params):
    """Cost-loss ratios between zero and one by the configured step; the base rate only when asked for by one."""
    self.statistic = None
    self.current_thresh = None
    self.params = params
    self.steps = np.arange(params['cl_step'], 1, params['cl_step'])
    self.column_names = np.array(LINE_TYPE_COLUMNS[params['line_type']])
    wanted = params['add_base_rate'] if 'add_base_rate' in params.keys() else 0
    self.add_base_rate = wanted if wanted == 0 or wanted == 1 else 0
    self.input_data = pd.read_csv(params['agg_stat_input'], header=[0], sep='\t')
    self.group_to_value = {}


def numbered(x):
    if is_string_integer(x):
        return int(x)
    if is_string_strictly_float(x):
        return float(x)
    return x


def value_curve_rows(self):
    """For each combination of series values and each threshold, one row for each ratio of its curve."""
    if self.input_data.empty:
        return pd.DataFrame()
    series = self.params['series_val_1']
    header = list(series.keys()) + ['thresh_i', 'x_pnt_i', 'y_pnt_i', 'stat_btcl', 'stat_btcu', 'nstats']
    out = self._init_out_frame(header, 0)
    size = len(self.steps) + self.add_base_rate
    for point in list(itertools.product(*series.values())):
        local = self._init_out_frame(header, size)
        chosen = []
        for i, field in enumerate(series.keys()):
            local[field] = [point[i]] * size
            if field in self.input_data.keys():
                chosen.append(self.input_data[field].isin([numbered(point[i])]))
        rows = self.input_data.loc[np.array(chosen).all(axis=0)]
        if 'thresh_i' in rows.columns:
            thresholds = rows['thresh_i'].unique().tolist()
            thresholds.sort()
        else:
            thresholds = [0]
        found = self._get_bootstrapped_stats(rows, thresholds)
        for i, threshold in enumerate(thresholds):
            local['thresh_i'] = [threshold] * size
            local['x_pnt_i'] = found[i].value['cl']
            local['y_pnt_i'] = found[i].value['V']
            local['nstats'] = [len(rows)] * size
            if self.params['num_iterations'] > 1:
                local['stat_btcu'] = found[i].upper_bound
                local['stat_btcl'] = found[i].lower_bound
            out = pd.concat([out, local])
    out.reset_index(inplace=True, drop=True)
    return out


def objects(self, cases, func):
    """The rows of the drawn cases given to the statistic's own function."""
    if cases is not None and cases.ndim == 2:
        chosen = np.in1d(np.asarray(self.series_data['case']), cases.flatten())
        return [func(self.series_data[chosen].to_numpy(), self.column_names)]
    if cases is not None and cases.ndim == 3:
        return [[func(self.series_data[self.series_data['case'].isin(row.flatten())], self.column_names)] for row in cases]
    raise KeyError("can't calculate statistic")


def operation_name(point):
    """The part of a point that names a derived curve."""
    for part in point:
        for operation in OPERATION_TO_SIGN:
            if part.startswith(operation + '(') or part.startswith(operation + ' ('):
                return part
    return ''


def components(self, own, rest):
    """The parts of one member of a derived pair: its own, then those of the point it lacks; group names stand for their values."""
    parts = list(own)
    for x in rest:
        if x not in parts:
            parts.append(x)
    return [self.group_to_value[x] if x in self.group_to_value else x for x in parts]


def member(found, parts):
    for key in found.keys():
        if all(x in parts for x in key):
            return found[key]
    return None


def group_size(parts):
    n = 0
    for x in parts:
        k = len(x.split(':'))
        if k > 1:
            n = n + k
    return n if n else 1


def derived_estimate(self, point, found, axis):
    """The two members named by the curve, in order, combined by its operation; significance from the distribution of differences."""
    curve = self.derived_name_to_values[operation_name(point)]
    operation = curve.derived_operation
    first = components(self, curve.first_component, point[1:])
    second = components(self, curve.second_component, point[1:])
    a, b = member(found, first), member(found, second)
    if a.values is None or b.values is None or a.values.size == 0 or b.values.size == 0:
        return nothing()
    if operation != 'SINGLE':
        self._validate_series_cases_for_derived_operation(a.values, axis, group_size(first))
        self._validate_series_cases_for_derived_operation(b.values, axis, group_size(second))
    if self.params['num_iterations'] == 1:
        r = calc_derived_curve_value([a.value], [b.value], operation)
        out = BootstrapResults(lower_bound=None, value=None if r is None else round_half_up(r[0], 5), upper_bound=None)
        out.set_distributions([out.value])
    else:
        rows = np.concatenate((a.values, b.values), axis=1)
        rows = np.concatenate((rows, np.full((len(a.values), 1), operation)), axis=1)
        try:
            out = bootstrap_and_value(rows, stat_func=self._calc_stats_derived, alpha=self.params['alpha'], num_iterations=self.params['num_iterations'],
                                      num_threads=self.params['num_threads'], ci_method=self.params['method'], save_data=False,
                                      save_distributions=operation == 'DIFF_SIG', block_length=block(self, len(rows)))
        except KeyError:
            out = BootstrapResults(None, None, None)
    if operation == 'DIFF_SIG':
        replicates = [x for x in out.distributions if x is not None]
        significance = None
        if replicates and out.value is not None:
            p = np.mean(np.absolute(replicates - np.mean(replicates)) <= np.absolute(out.value))
            significance = perfect_score_adjustment(a.value, b.value, self.statistic, p)
        out.value = significance
    return out


def derived_points(self, series, independent, axis):
    """For each derived curve, its name in place of the series it compares, with every other value of the point."""
    out = []
    for definition in self.params['derived_series_' + axis]:
        first, second = definition[0].split(' '), definition[1].split(' ')
        differ = [(x, second[i]) for i, x in enumerate(first) if x != second[i]]
        variable = list(series.keys())[-1]
        if differ:
            for name in series.keys():
                if differ[0][0] in series[name] and differ[0][1] in series[name]:
                    variable = name
                    break
        values = series.copy()
        for name in series.keys():
            if name != variable:
                values[name] = [x for x in series[name] if x in first]
        title = get_derived_curve_name(definition)
        values[variable] = [title]
        if len(independent) > 0:
            values[self.params['indy_var']] = independent
        self.derived_name_to_values[title] = DerivedCurveComponent(first, second, definition[-1])
        values['stat_name'] = [first[-1]] if first[-1] == second[-1] else [first[-1] + ',' + second[-1]]
        out.extend(itertools.product(*values.values()))
    return out


def members(value):
    """The values a label stands for: members of a group, dates kept whole, numbers as numbers."""
    if ':' in value:
        parts = re.findall(DATE_TIME_REGEX, value)
        if len(parts) == 0:
            parts = value.split(':')
    elif ';' in value:
        parts = value.split(';')
    else:
        parts = [value]
    return [numbered(x) for x in parts]


def template(fields, points):
    out = pd.DataFrame()
    for i, field in enumerate(fields):
        out[field] = [p[i] for p in points]
    for name in ['fcst_var', 'stat_value', 'stat_btcl', 'stat_btcu', 'nstats']:
        out[name] = [None] * len(points)
    return out


def blank_rows(fields, n):
    out = pd.DataFrame()
    for field in fields:
        out[field] = [0 if field == 'nstats' else None] * n
    return out


def init_rows(self, fields, points):
    return template(fields, points)


def init_blank(self, fields, n):
    return blank_rows(fields, n)


def own_rows(data, fields, point):
    """The rows whose columns take one of the values of the point."""
    return [data[field].isin(members(point[i])) for i, field in enumerate(fields) if field in data.keys()]


def axis_rows(self, axis):
    """One row for each combination of series, independent value and statistic, each estimated from its own rows; derived curves last."""
    data = self.input_data
    if data.empty:
        return pd.DataFrame()
    series = self.params['series_val_' + axis]
    variable = self.params['indy_var']
    independent = self.params['indy_vals']
    line = self.params['line_type']
    if variable == 'thresh_i' and line == 'pct':
        values = data['thresh_i'].tolist()
        values.sort()
        independent = list(map(str, np.unique(values).tolist()))
    fields = series.copy()
    if independent:
        fields[variable] = independent
    statistics = self.params['list_stat_' + axis]
    fields['stat_name'] = statistics
    points = list(itertools.product(*fields.values()))
    plain = len(points)
    if self.params['derived_series_' + axis]:
        points.extend(self._get_derived_points(series, independent, axis))
    out = self._init_out_frame(fields.keys(), points)
    found = {}
    fcst_var = None
    for i, point in enumerate(points):
        for part in reversed(point):
            if part in statistics:
                self.statistic = part.lower()
                break
        if not is_derived_point(point):
            chosen = own_rows(data, fields.keys(), point)
            fcst_var = None
            if len(self.params['fcst_var_val_' + axis]) > 0:
                fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
                if 'fcst_var' in data.columns:
                    chosen.append(data['fcst_var'].isin([fcst_var]))
            rows = data.loc[np.array(chosen).all(axis=0)]
            if line == 'pct':
                of_series = [data[field].isin(members(point[k])) for k, field in enumerate(fields.keys()) if field in series.keys()]
                every = data.loc[np.array(of_series).all(axis=0)] if of_series else data
                events = every[[c for c in every if c.startswith('oy_i')]].values.sum()
                total = every[[c for c in every if c.startswith('on_i')]].values.sum() + events
                rate = events / total
                rows.insert(len(rows.columns), 'T', total)
                rows.insert(len(rows.columns), 'oy_total', events)
                rows.insert(len(rows.columns), 'o_bar', rate)
            at = list(fields.keys()).index(variable) if variable in fields.keys() else None
            if any(';' in value for values in series.values() for value in values):
                rows = aggregate_field_values(series, rows, line)
            elif at is not None and ';' in point[at]:
                joined = series.copy()
                joined[variable] = [point[at]]
                rows = aggregate_field_values(joined, rows, line)
            r = self._get_bootstrapped_stats(rows, axis)
            found[point] = r
            n = len(rows)
        else:
            r = self._get_bootstrapped_stats_for_derived(point, found, axis)
            n = 0
        out['fcst_var'][i] = fcst_var
        out['stat_value'][i] = r.value
        out['stat_btcl'][i] = r.lower_bound
        out['stat_btcu'][i] = r.upper_bound
        out['nstats'][i] = n
    return out


def alternatives(value):
    """The values a label stands for, numbers as numbers."""
    return [numbered(x) for x in (value.split(':') if ':' in value else value.split(';'))]


def object_rows(self, axis):
    """One row for each combination; the cases drawn are those of its independent value, over all its series."""
    data = self.input_data
    if data.empty:
        return pd.DataFrame()
    series, variable, independent = self.params['series_val_' + axis], self.params['indy_var'], self.params['indy_vals']
    fields = series.copy()
    fields[variable] = independent
    fields['stat_name'] = self.params['list_stat_' + axis]
    all_points = list(itertools.product(*fields.values()))
    out = self._init_out_frame(fields.keys(), all_points)
    fcst_var = None
    if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in data.columns:
        fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
    points = list(itertools.product(*series.values()))
    for value in independent:
        at = data[data[variable] == numbered(value)]
        selected = []
        cases = []
        for point in points:
            chosen = [at[field].isin(alternatives(point[i])) for i, field in enumerate(series.keys())]
            if fcst_var is not None:
                chosen.append(at['fcst_var'].isin([fcst_var]))
            rows = at.loc[np.array(chosen).all(axis=0)]
            selected.append(rows)
            names = rows.loc[:, 'fcst_valid'].astype(str) + '#' + rows.loc[:, variable].astype(str)
            cases = np.sort(np.unique(np.append(cases, np.unique(names))))
            cases = np.reshape(cases, (cases.shape[0], 1))
        for statistic in self.params['list_stat_' + axis]:
            self.statistic = statistic.lower()
            for point, rows in zip(points, selected):
                r = self._get_bootstrapped_stats(rows, cases)
                k = all_points.index(point + (value, statistic))
                out['fcst_var'][k] = fcst_var
                out['stat_value'][k] = r.value
                out['stat_btcl'][k] = r.lower_bound
                out['stat_btcu'][k] = r.upper_bound
                out['nstats'][k] = len(rows)
    return out


def summary_rows(self):
    """Every row gets the statistic it names, of its own values alone."""
    for index, row in self.input_data.iterrows():
        value = calculate_statistic(np.expand_dims(row.to_numpy(), axis=0), self.column_names, row['stat_name'].lower())
        self.input_data.at[index, 'stat_value'] = value


def settings_after(self, step, *told):
    """The configuration after a step of a run."""
    getattr(self, step)(*told)
    return self.params


def settings_before(self, step, *told):
    return self.params


def one_value_each(self, data, axis='1', members=1):
    """A derived curve needs one value per valid time, lead time and statistic for each member of a group."""
    names = list(self.column_names)
    time = [name for name in ('fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init') if name in names][0]
    try:
        cases = len(set([(row[names.index(time)], row[names.index('fcst_lead')], row[names.index('stat_name')]) for row in data]))
    except TypeError:
        cases = None
    if len(data) / members != cases:
        raise NameError('several values for one case')
