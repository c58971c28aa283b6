"""Aggregation: every averaged column is weighted by the sample size of its row before it is summed."""
import warnings
import numpy as np
import pandas as pd
from metcalcpy.util.utils import aggregate_field_values, calc_series_sums, sum_column_data_by_name


def aggregated(driver, frame, line, function, told):
    """What the driver computes from the rows of one series point."""
    getattr(driver, '_prepare_' + line + '_data')(frame)
    return function(frame.to_numpy(), driver.column_names, *told)


def weighted(driver, frame, line, function, told):
    """The same from the definition of the line type's additive quantities."""
    t = {}
    for name in frame.columns:
        t[name] = frame[name].values
    if line == 'ssvar':
        t['total_orig'] = t['total']
        t['total'] = t.pop('bin_n')
    n = t['total']
    counts = ('total', 'total_orig', 'n_ge_obs', 'n_lt_obs')
    if line == 'ecnt':
        for root, square in (('rmse', 'mse'), ('rmse_oerr', 'mse_oerr'), ('spread', 'variance'), ('spread_oerr', 'variance_oerr'),
                             ('spread_plus_oerr', 'variance_plus_oerr')):
            t[square] = t[root] * t[root]
    if line == 'rps':
        t['rps_climo'] = t['rps'] / (1 - t['rpss'])
    if line == 'nbr_cnt':
        t['fss'] = t['fbs'] / (1 - t['fss'])
    if line not in ('ctc', 'nbr_ctc', 'pct', 'mctc'):
        for name in t:
            if name == 'me_ge_obs':
                t[name] = t[name] * t['n_ge_obs']
            elif name == 'me_lt_obs':
                t[name] = t[name] * t['n_lt_obs']
            elif name not in counts:
                t[name] = t[name] * n
    rows = [[t[name][i] for name in t] for i in range(len(n))]
    return missing_if_failed(function, np.array(rows), np.array(list(t)), told)


def missing_if_failed(function, rows, names, told):
    warnings.filterwarnings('error')
    try:
        return function(rows, names, *told)
    except Exception:
        return None


def grouped(frame, line, names):
    """One row standing for several: what the package computes, by column."""
    sums = calc_series_sums(frame, line)
    return [sums[name][0] for name in names]


def combined(frame, line, names):
    """The same from the definition: counts add up, means are weighted, roots and skill scores go through their additive form."""
    t = {}
    for name in frame.columns:
        t[name] = frame[name].values
    n = t['total']
    if line in ('ctc', 'nbrctc'):
        return [sum_column_data_by_name(frame.to_numpy(), frame.columns, name) for name in names]
    total = sum_column_data_by_name(frame.to_numpy(), frame.columns, 'total')

    def average(x):
        return np.nansum(x * n) / total

    out = []
    for name in names:
        if name == 'total':
            out.append(total)
        elif name in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr'):
            out.append(np.sqrt(average(t[name] * t[name])))
        elif name == 'crpss':
            out.append(1 - average(t['crps']) / average(t['crps'] / (1 - t['crpss'])))
        elif name == 'rpss':
            out.append(1 - average(t['rps']) / average(t['rps'] / (1 - t['rpss'])))
        elif name == 'fss':
            out.append(1 - average(t['fbs']) / average(t['fbs'] / (1 - t['fss'])))
        elif name == 'afss':
            f = average(t['f_rate'])
            o = average(t['o_rate'])
            out.append(2 * f * o / (f * f + o * o))
        elif name == 'ufss':
            out.append(0.5 + average(t['o_rate']) / 2)
        else:
            out.append(average(t[name]))
    return out


def prepared(driver, frame, line):
    getattr(driver, '_prepare_' + line + '_data')(frame)
    return [frame[name].values for name in frame.columns]


def same_threshold(driver, frame, line):
    """Rows of different expected-correct thresholds are refused, others are left alone."""
    t = frame['ec_value'].values
    if not (t == t[0]).all():
        raise ValueError(line)
    return [frame[name].values for name in frame.columns]


def merged(series, frame, line):
    """Rows of joined values ('EAST;WEST') as the package leaves them, by column."""
    out = aggregate_field_values(series, frame, line)
    return [list(out[name]) for name in out.columns]


def merged_rows(series, frame, line):
    """One row per valid time (and lead) that has rows of any member: combined columns, everything else from the first of them, the joined name."""
    names = list(frame.columns)
    rows = [[frame[name][i] for name in names] for i in range(len(frame))]
    times = list(dict.fromkeys([row[names.index('fcst_valid_beg')] for row in rows]))
    leads = list(dict.fromkeys([row[names.index('fcst_lead')] for row in rows]))
    for variable, values in series.items():
        for value in values:
            if ';' not in value:
                continue
            members = value.split(';')
            label = value
            if variable == 'fcst_lead':
                members = [int(x) for x in members if x != '']
                label = members[0]
            for time in times:
                for lead in ([None] if variable == 'fcst_lead' else leads):
                    own = [row for row in rows if row[names.index('fcst_valid_beg')] == time and row[names.index(variable)] in members
                           and (lead is None or row[names.index('fcst_lead')] == lead)]
                    if not own:
                        continue
                    rest = [row for row in rows if not (row[names.index('fcst_valid_beg')] == time and row[names.index(variable)] in members
                                                        and (lead is None or row[names.index('fcst_lead')] == lead))]
                    table = pd.DataFrame({name: [row[i] for row in own] for i, name in enumerate(names)})
                    sums = calc_series_sums(table, line)
                    first = [sums[name][0] if name in sums.columns else own[0][i] for i, name in enumerate(names)]
                    first[names.index(variable)] = label
                    rows = rest + [first]
    return [[row[i] for row in rows] for i in range(len(names))]
