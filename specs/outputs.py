"""Reference definitions of the drivers' entry points: seeding, grouping, equalisation, and what is written where."""
import itertools
import numpy as np
import pandas as pd
from metcalcpy import GROUP_SEPARATOR
from metcalcpy.event_equalize import event_equalize
from metcalcpy.util.utils import PRECISION, parse_bool, perform_event_equalization


def seed(self):
    if self.params['random_seed'] is not None and self.params['random_seed'] != 'None':
        np.random.seed(self.params['random_seed'])


def write(self, table, name, append, digits):
    more = append and 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True'
    table.to_csv(self.params[name], index=False, header=not more, mode='a' if more else 'w', sep='\t', na_rep='NA',
                 float_format='%.' + str(PRECISION) + 'f' if digits else None)


def groups(self, axis):
    n = 0
    for values in self.params['series_val_' + axis].values():
        for v in values:
            if GROUP_SEPARATOR in v:
                n = n + 1
                self.group_to_value['Group_y' + axis + '_' + str(n)] = v


def aggregation(self):
    seed(self)
    if self.params['line_type'] == 'pct':
        for extra in ('T', 'oy_total', 'o_bar'):
            self.column_names = np.append(self.column_names, extra)
    groups(self, '1')
    groups(self, '2')
    if parse_bool(self.params['event_equal']):
        self.input_data = perform_event_equalization(self.params, self.input_data)
    out = self._proceed_with_axis('1')
    if self.params['series_val_2']:
        out = pd.concat([out, self._proceed_with_axis('2')], ignore_index=True)
    write(self, out, 'agg_stat_output', True, True)


def economic_value(self):
    seed(self)
    if parse_bool(self.params['event_equal']):
        fixed = self.params['fixed_vars_vals_input']
        allowed = []
        for key in fixed:
            allowed.append([v for one in itertools.product(*fixed[key].values()) for v in one])
        self.input_data = event_equalize(self.input_data, 'stat_name', self.params['series_val_1'], list(fixed.keys()), allowed,
                                         parse_bool(self.params['equalize_by_indep']), False)
    write(self, self._proceed_with_axis(), 'agg_stat_output', True, True)


def replicates(self):
    if self.input_data.empty:
        out = pd.DataFrame()
    else:
        seed(self)
        if parse_bool(self.params['event_equal']):
            self._perform_event_equalization()
        self.input_data['case'] = self.input_data.loc[:, 'fcst_valid'].astype(str) + '#' + self.input_data.loc[:, self.params['indy_var']].astype(str)
        out = self._proceed_with_axis('1')
        if self.params['series_val_2']:
            out = pd.concat([out, self._proceed_with_axis('2')])
    write(self, out, 'agg_stat_output', False, False)


def against_cases(self):
    out = self.input_data
    if parse_bool(self.params['event_equal']) and not self.input_data.empty:
        cases = pd.read_csv(self.params['agg_stat_input_ee'], header=[0], sep='\t')
        out = self.perform_ee_on_axis(cases, '1')
        if self.params['series_val_2']:
            out = pd.concat([out, self.perform_ee_on_axis(cases, '2')])
    write(self, out, 'agg_stat_output', False, False)


def summary(self):
    fields = []
    try:
        fields = self.STATISTIC_TO_FIELDS[self.params['line_type']]
        if self.params['line_type'] == 'sal1l2':
            self.input_data = self.input_data.rename(columns={'fabar': 'fbar', 'oabar': 'obar', 'foabar': 'fobar', 'ffabar': 'ffbar', 'ooabar': 'oobar'})
            self.column_names = self.input_data.columns.values
        if parse_bool(self.params['event_equal']):
            self.input_data = perform_event_equalization(self.params, self.input_data)
        if not self.input_data.empty:
            self.aggregate_special_fields('1')
            self.aggregate_special_fields('2')
            self.process_rows()
    except KeyError:
        pass
    for column in fields:
        if column in self.column_names:
            self.input_data = self.input_data.drop(column, axis=1)
    if 'equalize' in self.input_data.columns:
        self.input_data = self.input_data.drop(labels=['equalize'], axis=1)
    write(self, self.input_data, 'sum_stat_output', False, False)


def equalization(self):
    out = pd.DataFrame()
    if not self.input_data.empty:
        fixed = []
        if 'fixed_vars_vals_input' in self.params:
            for given in self.params['fixed_vars_vals_input'].values():
                for one in itertools.product(*given.values()):
                    fixed.append(one)
        out = self.run_ee_on_axis(fixed, '1')
        if self.params['series_val_2']:
            second = self.run_ee_on_axis(fixed, '2')
            both = pd.concat([out.drop('equalize', axis=1), second.drop('equalize', axis=1)]).reindex()
            series = {}
            for name, values in self.params['series_val_2'].items():
                series[name] = np.unique(values + values)
            out = event_equalize(both, self.params['indy_var'], series, list(self.params['fixed_vars_vals_input'].keys()), fixed, True, False)
    write(self, out, 'agg_stat_output', False, False)


def summary_input(self, params):
    self.params = params
    try:
        self.input_data = pd.read_csv(params['sum_stat_input'], header=[0], sep='\t')
        if self.input_data.empty:
            self.input_data.to_csv(params['sum_stat_output'], index=False, sep='\t')
            raise ValueError('empty')
    except pd.errors.EmptyDataError:
        raise
    except KeyError:
        raise


def nothing(self, params):
    pass
