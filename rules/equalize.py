"""C14 event equalization."""
from analyzer.engine import FrameC
from analyzer.values import lane_hash, full
import numpy as np
from .common import Param
from . import outputs
from .drivers import me
from .scorecard import plain

S = 'specs.equalize.'


def choice(e, name, options):
    """A value that is any of the given ones."""
    pick = lane_hash('choice', [e.sym(name).fp]) % np.uint64(len(options))
    v = e.const(options[-1])
    for j, x in enumerate(options[:-1]):
        v = e.ite(pick == np.uint64(j), e.const(x), v)
    v.sc = True
    return v


def records(columns, rows):
    """A table whose named columns take any of the given values in each row; columns without values hold unknown numbers."""
    def make(e):
        cols = []
        for name, options in columns.items():
            cells = []
            for r in range(rows):
                if options is None:
                    v = e.sym('%s@%d' % (name, r), 'num')
                    v.sc, v.np = True, 'np'
                else:
                    v = choice(e, '%s@%d' % (name, r), options)
                cells.append(v)
            cols.append((e.const(name), e.new_list(cells, arr=True)))
        n = np.full(len(full(0)), rows, dtype=np.int64)
        return e.new_ref(FrameC(n, cols, e.lib.fr.ints(n)))
    return Param('records', value=make)


TIME = {'fcst_valid_beg': ['t1', 't2'], 'fcst_lead': [12, 24]}
MODELS = dict(TIME, model=['A', 'B', 'C'], stat_value=None)
MASKS = dict(MODELS, vx_mask=['N', 'S'])
CASES = (
    ('two models', dict(TIME, model=['A', 'B'], stat_value=None), 'fcst_lead', {'model': ['A', 'B']}, [], []),
    ('two of three models', MODELS, 'fcst_lead', {'model': ['A', 'B']}, [], []),
    ('three models', dict(MODELS, fcst_lead=[12]), 'fcst_lead', {'model': ['A', 'B', 'C']}, [], []),
    ('a group', MODELS, 'fcst_lead', {'model': ['A:B', 'C']}, [], []),
    ('one text', dict(MODELS, model=['AA', 'B']), 'fcst_lead', {'model': 'AA'}, [], []),
    ('valid time', {'fcst_valid': ['t1', 't2'], 'fcst_lead': [12, 24], 'model': ['A', 'B']}, 'fcst_lead', {'model': ['A', 'B']}, [], []),
    ('both times', dict(MODELS, fcst_valid=['u1', 'u2']), 'fcst_lead', {'model': ['A', 'B']}, [], []),
    ('key given', dict(MODELS, equalize=['k1', 'k2']), 'fcst_lead', {'model': ['A', 'B']}, [], []),
    ('other variable', dict(MODELS, level=['P1', 'P2']), 'level', {'model': ['A', 'B']}, [], []),
    ('key and other variable', dict(MODELS, equalize=['k1', 'k2'], level=['P1', 'P2']), 'level', {'model': ['A', 'B']}, [], []),
    ('time as series', MODELS, 'fcst_lead', {'fcst_lead': ['12', '24'], 'model': ['A', 'B']}, [], []),
    ('no series', MODELS, 'fcst_lead', {}, [], []),
    ('two series', dict(MASKS, fcst_lead=[12]), 'fcst_lead', {'model': ['A', 'B'], 'vx_mask': ['N', 'S']}, [], []),
    ('fixed values', dict(MASKS, fcst_lead=[12]), 'fcst_lead', {'model': ['A', 'B']}, ['vx_mask'], [['N', 'S']]),
    ('fixed text', dict(MASKS, vx_mask=['NH', 'S']), 'fcst_lead', {'model': ['A', 'B']}, 'vx_mask', ['NH']),
    ('fixed time', MASKS, 'fcst_lead', {'model': ['A', 'B']}, ['fcst_init_beg', 'vx_mask'], [['i1'], ['S']]),
    ('whole numbers', dict(MODELS, thresh=[1, 2, 3]), 'fcst_lead', {'thresh': ['1', '2']}, [], []),
    ('missing value', dict(TIME, fcst_thresh=['x', None], stat_value=None), 'fcst_lead', {'fcst_thresh': ['x', 'NA']}, [], []),
    ('dates', dict(TIME, day=['2020-01-01 00:00:00', '2020-01-02 00:00:00'], stat_value=None), 'fcst_lead',
     {'day': ['2020-01-01 00:00:00:2020-01-02 00:00:00']}, [], []),
)
TABLE = dict(TIME, model=['A', 'B', 'C'], fcst_var=['U', 'V'], stat_value=None)
STATED = dict(TABLE, fcst_lead=[12], stat_name=['ME', 'MAE'])
SETTINGS = {'indy_var': 'fcst_lead', 'line_type': 'sl1l2', 'fcst_var_val_1': {'U': ['ME']}, 'series_val_1': {'model': ['A', 'B']},
            'fixed_vars_vals_input': {}}


def configured(**changed):
    return {k: v for k, v in dict(SETTINGS, **changed).items() if v is not False}


TIMES = ('fcst_valid_beg', 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD')


def c14(ctx):
    for t in TIMES:
        table = dict(TIME, **{'model': ['A', 'B'], t: ['t1', 't2'] if t != 'fcst_lead' else [12, 24]})
        for name, indy, series, fix, fixed in (('independent', t, {'model': ['A', 'B']}, [], []), ('series', 'model', {t: ['t1', 't2'], 'model': ['A']}, [], []),
                                               ('fixed', 'model', {'model': ['A']}, [t], [['t1', 't2']])):
            ctx.pair('equalized', 'metcalcpy.event_equalize.event_equalize', S + 'equalized',
                     [records(table, 4), (indy,), plain(series), plain(fix), plain(fixed), (True,), (False,)], strict=False,
                     construct='%s as %s' % (t, name))
    for name, columns, indy, series, fix, fixed in CASES:
        for by in (True, False):
            for rows in (3, 4):
                ctx.pair('equalized', 'metcalcpy.event_equalize.event_equalize', S + 'equalized',
                         [records(columns, rows), (indy,), plain(series), plain(fix), plain(fixed), (by,), (rows == 3,)], strict=False,
                         construct='%d rows, %s%s' % (rows, name, ', independent variable' if by else ''))
    for name, columns in (('listed', {'fcst_valid': ['t1', 't2'], 'fcst_lead': [12, 24], 'stat_value': None}), ('no valid time', TIME)):
        for cases in ([], ['t1 12'], ['t1 12', 't2 24']):
            ctx.pair('against', 'metcalcpy.event_equalize_against_values.event_equalize_against_values', S + 'against',
                     [records(columns, 4), plain(cases)], strict=False, construct='%s, %d cases' % (name, len(cases)))
    for name, columns, changed in (
            ('one variable', TABLE, {}), ('a group', TABLE, {'series_val_1': {'model': ['A:B', 'C']}}),
            ('two statistics', STATED, {'fcst_var_val_1': {'U': ['ME', 'MAE']}}),
            ('two variables', TABLE, {'fcst_var_val_1': {'U': ['ME'], 'V': ['ME']}}),
            ('one statistic', STATED, {}), ('other variable', dict(TABLE, level=['P1', 'P2']), {'indy_var': 'level'}),
            ('dates', {'fcst_valid_beg': ['t1', 't2'], 'fcst_lead': [12], 'fcst_var': ['U'], 'day': ['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-03 00:00:00']},
             {'series_val_1': {'day': ['2020-01-01 00:00:00:2020-01-02 00:00:00']}}),
            ('several events', TABLE, {'line_type': 'ssvar'}),
            ('no series', TABLE, {'series_val_1': {}}),
            ('no variables given', dict(MODELS), {'fcst_var_val_1': False}), ('no variables', TABLE, {'fcst_var_val_1': None})):
        other = {k[:-1] + '2' if k.endswith('_1') else k: v for k, v in configured(**changed).items()}
        ctx.pair('axis', 'metcalcpy.util.utils.equalize_axis_data', S + 'axis',
                 [plain([]), plain([]), plain(other), records(columns, 3), ('2',)], strict=False, construct='second axis: ' + name)
        ctx.pair('axis', 'metcalcpy.util.utils.equalize_axis_data', S + 'axis',
                 [plain([]), plain([]), plain(configured(**changed)), records(columns, 4), ('1',)], strict=False, construct='axis: ' + name)
        ctx.pair('whole', 'metcalcpy.util.utils.perform_event_equalization', S + 'whole',
                 [plain(configured(**changed)), records(columns, 4)], strict=False, construct='equalization: ' + name)
    for name, columns, fixed in (('fixed values', MASKS, {'vx_mask': ['N', 'S']}), ('named fixed values', MASKS, {'vx_mask': {'vx_mask_0': ['N', 'S']}}),
                                 ('two fixed', dict(MASKS, obtype=['O', 'P'], fcst_lead=[12]), {'vx_mask': ['N'], 'obtype': {'obtype_1': ['O', 'P']}}),
                                 ('none', MODELS, False)):
        ctx.pair('whole', 'metcalcpy.util.utils.perform_event_equalization', S + 'whole',
                 [plain(configured(fcst_var_val_1=False, fixed_vars_vals_input=fixed)), records(columns, 4)], strict=False,
                 construct='equalization: ' + name)
    for name, columns, changed in (
            ('same series', TABLE, {'fcst_var_val_2': {'V': ['ME']}, 'series_val_2': {'model': ['B', 'A']}}),
            ('other series', dict(TABLE, vx_mask=['N', 'S'], model=['A', 'B'], fcst_lead=[12]), {'fcst_var_val_2': {'V': ['ME']}, 'series_val_2': {'vx_mask': ['N']}}),
            ('other variable', dict(TABLE, level=['P1', 'P2'], fcst_lead=[12]), {'fcst_var_val_2': {'V': ['ME']}, 'series_val_2': {'model': ['A', 'B']}, 'indy_var': 'level'}),
            ('empty second', TABLE, {'fcst_var_val_2': {'V': ['ME']}, 'series_val_2': {}})):
        ctx.pair('whole', 'metcalcpy.util.utils.perform_event_equalization', S + 'whole',
                 [plain(configured(**changed)), records(columns, 4)], strict=False, construct='two axes: ' + name)
    drive = outputs.drivers(ctx, 'driver', ['m:to_csv'] + ['call:' + h for h in outputs.HELPERS], outputs.SEEDS[:1], outputs.APPEND)
    for equal in ('True', 'False'):
        for second in ({}, outputs.SERIES):
            given = dict(event_equal=equal, series_val_1=outputs.SERIES, series_val_2=second, agg_stat_output=outputs.TEXT('output'))
            name = 'event_equal %s, %s' % (equal, 'two axes' if second else 'one axis')
            drive(outputs.EQZ, 'calculate_values', 'against_cases', 'equalization against cases: ' + name, **given)
            drive(outputs.EQUAL, 'calculate_values', 'equalization', 'equalization: ' + name, indy_var='fcst_lead', fixed_vars_vals_input=outputs.FIXED, **given)
    known = {'equalize': ['t1 12', 't2 24'], 'fcst_var': ['U', 'V'], 'model': ['A', 'B', 'C']}
    valid = dict({k: v for k, v in TABLE.items() if k != 'fcst_valid_beg'}, fcst_valid=['t1', 't2'])
    for name, series, variables in (('one variable', {'model': ['A', 'B']}, {'U': ['ME']}), ('a group', {'model': ['A:B', 'C']}, {'U': ['ME', 'MAE']}),
                                    ('two variables', {'model': ['A']}, {'U': ['ME'], 'V': ['ME']})):
        config = configured(fcst_var_val_1=variables, series_val_1=series)
        ctx.pair('previous', 'metcalcpy.agg_stat_eqz.AggStatEventEqz.perform_ee_on_axis', S + 'eqz_axis',
                 [me(outputs.EQZ, params=plain(config), input_data=records(valid, 3)), records(known, 2), ('1',)], strict=False, construct='previous cases: ' + name)
    for name, columns, changed, fixed in (
            ('one series', MODELS, {}, []), ('a group', MODELS, {'series_val_1': {'model': ['A:B', 'C']}}, []),
            ('fixed', dict(MASKS, fcst_lead=[12]), {'fixed_vars_vals_input': {'vx_mask': {'vx_mask_0': ['N', 'S']}}}, [['N', 'S']]),
            ('two series', dict(MASKS, fcst_lead=[12]), {'series_val_1': {'model': ['A', 'B'], 'vx_mask': ['N']}}, [])):
        ctx.pair('objects', 'metcalcpy.agg_stat_event_equalize.AggStatEventEqualize.run_ee_on_axis', S + 'mode_axis',
                 [me(outputs.EQUAL, params=plain(configured(**changed)), input_data=records(columns, 4)), plain(fixed), ('1',)], strict=False,
                 construct='objects: ' + name)
