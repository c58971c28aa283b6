DATA = '''
import pandas as pd
from metcalcpy.event_equalize import event_equalize
def table(rows, *names):
    return pd.DataFrame([dict(zip(('fcst_valid_beg', 'fcst_lead') + names, r)) for r in rows])
'''
SEEDS = [
dict(id='equalize-missing-as-text', prop='C14', file='metcalcpy/event_equalize.py', func='event_equalize',
 old="                    permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]",
 new="                    permutation_data = permutation_data[permutation_data[var_for_ee].astype(str) == 'NA']",
 needs='a series value given as NA', what='rows with a missing series value never match, so every case is discarded',
 demo=DATA + '''
d = table([('t1', 12, 'x', 1.0), ('t1', 12, None, 2.0), ('t2', 12, 'x', 3.0)], 'fcst_thresh', 'v')
r = event_equalize(d, 'fcst_lead', {'fcst_thresh': ['x', 'NA']}, [], [], True, False)
assert sorted(r['v']) == [1.0, 2.0], r
'''),
dict(id='equalize-last-two-only', prop='C14', file='metcalcpy/event_equalize.py', func='event_equalize',
 old="            equalization_cases = equalization_cases[common_cases_ind]\n            equalization_cases.reset_index(drop=True)",
 new="            equalization_cases = permutation_data['equalize'] if common_cases_ind.all() else equalization_cases[common_cases_ind]",
 needs='three series where the first two share all cases of the first', what='a case the first series lacks comes back when a later series holds all cases found so far',
 demo=DATA + '''
d = table([('t1', 12, 'A', 1.0), ('t1', 12, 'B', 2.0), ('t2', 12, 'B', 3.0), ('t1', 12, 'C', 4.0), ('t2', 12, 'C', 5.0)], 'model', 'v')
r = event_equalize(d, 'fcst_lead', {'model': ['A', 'B', 'C']}, [], [], True, False)
assert sorted(r['v']) == [1.0, 2.0, 4.0], r
'''),
dict(id='equalize-init-keyed', prop='C14', file='metcalcpy/event_equalize.py', func='event_equalize',
 old="""'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD']""", new="""'fcst_init_beg', 'VALID', 'LEAD']""",
 needs='fcst_init as a fixed variable', what='initialisation times count as separate combinations, so cases common to all series are dropped',
 demo=DATA + '''
d = table([('t1', 12, 'A', 'i1', 1.0), ('t1', 12, 'B', 'i1', 2.0), ('t2', 12, 'A', 'i2', 3.0), ('t2', 12, 'B', 'i2', 4.0)], 'model', 'fcst_init', 'v')
r = event_equalize(d, 'fcst_lead', {'model': ['A', 'B']}, ['fcst_init'], [['i1', 'i2']], True, False)
assert len(r) == 4, r
'''),
dict(id='equalize-previous-other-variable', prop='C14', file='metcalcpy/agg_stat_eqz.py', func='perform_ee_on_axis',
 old="                    (prev_cases['fcst_var'] == fcst_var)\n                    & (prev_cases[series_var].isin(series_var_vals_no_group))",
 new="                    prev_cases['fcst_var'].isin(self.params['fcst_var_val_' + axis])\n                    & (prev_cases[series_var].isin(series_var_vals_no_group))",
 needs='two variables on the axis with different earlier cases', what='cases found for one variable let in rows of the other',
 demo='''
import pandas as pd
from metcalcpy.agg_stat_eqz import AggStatEventEqz as E
a = E.__new__(E)
a.params = {'fcst_var_val_1': {'U': ['ME'], 'V': ['ME']}, 'series_val_1': {'model': ['A']}}
a.input_data = pd.DataFrame([dict(fcst_valid=t, fcst_lead=12, model='A', fcst_var=v, n=i) for i, (t, v) in enumerate([('t1', 'U'), ('t2', 'U'), ('t1', 'V'), ('t2', 'V')])])
known = pd.DataFrame({'equalize': ['t1 12', 't2 12'], 'fcst_var': ['U', 'V'], 'model': ['A', 'A']})
import warnings
r = a.perform_ee_on_axis(known, '1')
assert sorted(r['n']) == [0, 3], r
'''),
dict(id='equalize-empty-list', prop='C14', file='metcalcpy/event_equalize_against_values.py', func='event_equalize_against_values',
 old="    if n_row_cases == 0:\n", new="    if n_row_cases == 0 and len(input_unique_cases) > 0:\n",
 edits=[dict(file='metcalcpy/event_equalize_against_values.py', func='event_equalize_against_values',
  old="series_data[(series_data['equalize'].isin(input_unique_cases))]", new="series_data[(series_data['equalize'].isin(input_unique_cases))] \\\n        if len(input_unique_cases) > 0 else series_data")],
 needs='an empty list of cases', what='equalizing against no cases keeps every row',
 demo='''
import pandas as pd
from metcalcpy.event_equalize_against_values import event_equalize_against_values as f
assert f(pd.DataFrame({'fcst_valid': ['t1'], 'fcst_lead': [12], 'v': [1]}), []).empty
'''),
]
