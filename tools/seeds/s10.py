RUN = '''
import os, tempfile
import numpy as np
import pandas as pd
from metcalcpy.%s import %s as Driver
def run(draws=True, **params):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'out')
        if params.pop('before', False):
            open(out, 'w').write('stat\\n1.0\\n')
        a = Driver.__new__(Driver)
        a.params = dict({'random_seed': None, 'event_equal': 'False', 'line_type': 'ctc', 'series_val_1': {}, 'series_val_2': {}, 'agg_stat_output': out}, **params)
        a.input_data, a.column_names, a.group_to_value = pd.DataFrame({'fcst_var': []}), np.array(['fcst_var']), {}
        a._proceed_with_axis = lambda *x: pd.DataFrame({'stat': [np.random.rand() if draws else 0.5]})
        (getattr(a, 'calculate_stats_and_ci', None) or a.calculate_values)()
        return open(out).read() if os.path.exists(out) else None
'''
SEEDS = [
dict(id='seed-zero-ignored', prop='C13', file='metcalcpy/agg_stat.py', func='calculate_stats_and_ci',
 old="        if self.params['random_seed'] is not None and self.params['random_seed'] != 'None':", new="        if self.params['random_seed'] and self.params['random_seed'] != 'None':",
 needs='a configured random seed of zero', what='a seed of zero is taken for no seed, so the run is not reproducible',
 demo=RUN % ('agg_stat', 'AggStat') + '''
assert run(random_seed=0) == run(random_seed=0)
'''),
dict(id='resample-own-generator', prop='C13', file='metcalcpy/bootstrap.py', func='_generate_distributions_cbb',
 old="    ids = _np.random.choice(", new="    ids = _np.random.default_rng(_np.random.randint(2 ** 31) if num_iterations > 1 else None).choice(",
 needs='batches of one replicate', what='single replicates are drawn from a generator of their own that the configured seed does not reach',
 demo='''
import numpy as np
from metcalcpy.bootstrap import _generate_distributions_cbb as f
x = np.arange(40)
def run():
    np.random.seed(5)
    return f([x], 1)[0]
assert (run() == run()).all()
'''),
dict(id='append-second-header', prop='C21', file='metcalcpy/agg_eclv.py', func='calculate_stats_and_ci',
 old="            header = False\n", new="            header = not os.path.exists(self.params['agg_stat_output']) or is_event_equal\n",
 edits=[dict(file='metcalcpy/agg_eclv.py', func='calculate_stats_and_ci', old="            header = False\n", new="            header = is_event_equal\n")],
 needs='an appending run with event equalization', what='a second header line is appended to the result file',
 demo=RUN % ('agg_eclv', 'AggEclv') + '''
from unittest import mock
with mock.patch('metcalcpy.agg_eclv.event_equalize', lambda data, *a: data):
    got = run(before=True, draws=False, append_to_file='True', event_equal='True', fixed_vars_vals_input={}, equalize_by_indep='True')
assert got.split() == ['stat', '1.0', '0.5000000'], got
'''),
dict(id='empty-equalized-not-written', prop='C21', file='metcalcpy/agg_stat_eqz.py', func='calculate_values',
 old="                    'Event equalisation was not performed because the input data is empty.'\n                )\n",
 new="                    'Event equalisation was not performed because the input data is empty.'\n                )\n                return\n",
 needs='input without rows', what='no output file is written when the input has no rows',
 demo=RUN % ('agg_stat_eqz', 'AggStatEventEqz') + '''
assert run(event_equal='True') is not None
'''),
dict(id='summary-missing-blank', prop='C21', file='metcalcpy/sum_stat.py', func='calculate_stats',
 old="                               sep=\"\\t\", na_rep=\"NA\")", new="                               sep=\"\\t\", na_rep=\"NA\" if fields else '')",
 needs='a line type without known columns and missing values', what='missing values are written as empty text for line types that are not in the table of columns',
 demo='''
import os, tempfile
import numpy as np
import pandas as pd
from metcalcpy.sum_stat import SumStat
with tempfile.TemporaryDirectory() as d:
    out = os.path.join(d, 'out')
    a = SumStat.__new__(SumStat)
    a.params = {'line_type': 'mpr', 'event_equal': 'False', 'sum_stat_output': out}
    a.input_data = pd.DataFrame({'fcst_var': ['T', 'U'], 'x': [1.0, None]})
    a.column_names = a.input_data.columns.values
    a.calculate_stats()
    assert open(out).read().split() == ['fcst_var', 'x', 'T', '1.0', 'U', 'NA'], open(out).read()
'''),
]
