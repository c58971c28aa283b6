"""What the drivers ask of the bootstrap and write into each row: parts of C07, C11, C15, and C29."""
from analyzer.engine import FrameC
from .common import Param
from .drivers import me, func
from . import outputs
from .outputs import params, TEXT, AGG, ECLV, BOOT, SUM, EQZ
from .tost import number

S = 'specs.runs.'
LINES = ('ctc', 'sl1l2', 'grad', 'vl1l2', 'ecnt', 'pct', 'nbrcnt', 'rps')


def settings(**given):
    return params(num_threads=number('threads'), method=TEXT('method'), **given)


ITERATIONS = ((1, 'one iteration'), (500, 'replicates'), (number('iterations'), 'any iterations'))
BLOCKS = (({}, 'blocks by default'), ({'circular_block_bootstrap': 'True'}, 'blocks'), ({'circular_block_bootstrap': 'False'}, 'no blocks'), ({'circular_block_bootstrap': False}, 'blocks off'))


def prepared(name):
    def hook(e, f, args, kw, node):
        e.effect(name, list(args), kw, node)
        e.opaque_store(args[1], 'setitem', e.const('prepared'), e.const(name))
        return e.NONE
    return hook


def estimates(ctx):
    HOOKS = {'_prepare_%s_data' % l: prepared('prepare ' + l) for l in LINES}
    for its, named in ITERATIONS:
        for blocks, how in BLOCKS:
            for alpha in ({}, {'alpha': number('alpha')}):
                name = '%s, %s, %s' % (named, how, 'with alpha' if alpha else 'no alpha')
                for derived in ([], [['a', 'b', 'DIFF']]):
                    for line in (LINES if its == 1 or blocks == {} else LINES[:1]) + (None, 'None'):
                        given = settings(num_iterations=its, derived_series_1=derived, derived_series_2=[], line_type=line, **blocks, **alpha)
                        who = me(AGG, params=given)
                        ctx.pair('estimate', AGG + '._get_bootstrapped_stats', S + 'estimate', [], impl_args=[who, 'rows', ('1',)],
                                 spec_args=[who, 'rows', ('1',), func('%s._prepare_%s_data' % (AGG, line)) if line not in (None, 'None') else (None,)],
                                 opaque=('bootstrap_and_value', 'sort_data', '_calc_stats'), model=HOOKS, strict=False,
                                 construct='estimate: %s, %s, %s' % (line, name, 'derived curves' if derived else 'no derived curves'))


def state(*attrs):
    """A call kept as a call, whose result also depends on these attributes of the object it works for."""
    def hook(e, f, args, kw, node):
        who = next((x.pay[1] for x in list(args) + list(kw.values()) if x.ty == 'fn' and isinstance(x.pay, tuple) and x.pay[0] == 'bound'), None)
        who = args[0] if who is None and args else who
        if who is None or e.mapc(who) is None:
            return NotImplemented
        return e.op('at', [e.plain(e.opaque_repo_call(f, args, kw, node))] + [e.plain(e.val(e.map_get(who, e.const(a)))) for a in attrs])
    return hook


def curves(ctx):
    model = {k: state('current_thresh') for k in ('bootstrap_and_value', '_calc_stats')}
    for its, named in ITERATIONS:
        for blocks, how in BLOCKS:
            for alpha in ({}, {'alpha': number('alpha')}):
                who = me(ECLV, params=settings(num_iterations=its, line_type='ctc', **blocks, **alpha))
                for thresholds in ([0], [0.1, 0.5, 0.9]):
                    ctx.pair('estimate', ECLV + '._get_bootstrapped_stats', S + 'estimate_value_curves', [who, 'rows', Param('thresholds', value=lambda e: e.new_list([e.const(x) for x in thresholds]))],
                             opaque=('bootstrap_and_value', '_calc_stats'), model=model, strict=False, check_args=[0],
                             construct='economic value: %s, %s, %s, %d thresholds' % (named, how, 'with alpha' if alpha else 'no alpha', len(thresholds)))


def curve(ctx):
    ctx.pair('value curve', ECLV + '._calc_stats', S + 'value_curves', [me(ECLV), 'values'], opaque=('calculate_eclv',), strict=False)
    for base in (None, 0, 1, 2, 'None', number('base')):
        for line in ('ctc', 'pct'):
            given = dict(cl_step=number('step'), line_type=line)
            if base is not None:
                given['add_base_rate'] = base
            ctx.pair('value curve', ECLV + '.__init__', S + 'value_curve_setup', [me(ECLV), params(**given)], strict=False, check_args=[0], result=False,
                     construct='set-up for %s, base rate %s' % (line, base if not isinstance(base, Param) else 'unknown'))


def curve_rows(ctx):
    for series in ({'model': ['GFS', 'NAM']}, {'model': ['GFS'], 'lead': ['12', '0.5']}):
        for its in (1, 500):
            for base in (0, 1):
                for n in (1, 3):
                    who = me(ECLV, params=settings(num_iterations=its, series_val_1=series), steps=Param('steps', value=lambda e: e.new_list([e.sym('ratio%d' % i) for i in range(n)], arr=True)), add_base_rate=base)
                    ctx.pair('own rows', ECLV + '._proceed_with_axis', S + 'value_curve_rows', [who], opaque=('_get_bootstrapped_stats',), strict=False,
                             construct='rows of %s, %d ratios, base rate %d, %s' % (', '.join(series), n, base, 'replicates' if its > 1 else 'one iteration'))


def objects(ctx):
    model = {k: state('series_data') for k in ('bootstrap_and_value_mode', '_calc_stats')}
    for its, named in ITERATIONS:
        for alpha in ({}, {'alpha': number('alpha')}):
            who = me(BOOT, params=settings(num_iterations=its, **alpha))
            ctx.pair('estimate', BOOT + '._get_bootstrapped_stats', S + 'estimate_objects', [who, 'rows', 'cases'], opaque=('bootstrap_and_value_mode', 'sort_data', '_calc_stats'),
                     model=model, strict=False, check_args=[0], construct='objects: %s, %s' % (named, 'with alpha' if alpha else 'no alpha'))


def c11(ctx):
    estimates(ctx)
    curves(ctx)
    objects(ctx)


def drawn(e, f, args, kw, node):
    """A resampling call, known by its sample, its block length and its number of replicates only."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    given = dict(zip(names[len(names) - len(f.defaults or []):], f.defaults or []))
    given.update(zip(names, args))
    given.update(kw)
    return e.op('drawn', [e.plain(e.val(given[k])) for k in names[:1] + ['num_iterations', 'block_length'] if k in given])


def c12(ctx):
    for its, named in ITERATIONS:
        for blocks, how in BLOCKS:
            who = me(AGG, params=settings(num_iterations=its, derived_series_1=[], derived_series_2=[], line_type=None, alpha=number('alpha'), **blocks))
            ctx.pair('resampling of a run', AGG + '._get_bootstrapped_stats', S + 'estimate', [], impl_args=[who, 'rows', ('1',)], spec_args=[who, 'rows', ('1',), (None,)],
                     opaque=('bootstrap_and_value', 'sort_data', '_calc_stats'), model={'bootstrap_and_value': drawn}, strict=False, construct='run: %s, %s' % (named, how))
            who = me(ECLV, params=settings(num_iterations=its, line_type='ctc', alpha=number('alpha'), **blocks))
            ctx.pair('resampling of a run', ECLV + '._get_bootstrapped_stats', S + 'estimate_value_curves', [who, 'rows', Param('thresholds', value=lambda e: e.new_list([e.const(0)]))],
                     opaque=('bootstrap_and_value', '_calc_stats'), model={'bootstrap_and_value': drawn}, strict=False, construct='economic value: %s, %s' % (named, how))


def c15(ctx):
    points(ctx)
    derived(ctx)


def c29(ctx):
    templates(ctx)
    axes(ctx)
    curve_rows(ctx)
    object_axes(ctx)
    summaries(ctx)
    entries(ctx)


def entries(ctx):
    """What each entry point hands to its steps, and the tables it joins to its result."""
    layout = ('na_rep', 'float_format', 'index', 'header', 'mode', 'sep')
    run = outputs.drivers(ctx, 'run', ['m:to_csv'] + ['call:' + h for h in outputs.HELPERS], outputs.SEEDS[:1], outputs.APPEND[:1], layout)
    for line in ('ctc', 'sal1l2'):
        run(SUM, 'calculate_stats', 'summary', 'summary of %s' % line, line_type=line, event_equal='False', sum_stat_output=TEXT('output'))


OPERATIONS = ('DIFF', 'RATIO', 'SS', 'DIFF_SIG', 'SINGLE')


def texts(e, xs, kind='list'):
    return e.new_list([e.const(x) for x in xs], kind=kind)


def found(*keys):
    """Estimates already made, by point."""
    def value(e):
        r = e.new_map()
        for k in keys:
            who = e.module_frame(e.repo.get('metcalcpy.bootstrap')).env.get('BootstrapResults')
            name = ' '.join(k)
            v = e.sym('estimate of ' + name, 'num')
            v.sc = True
            ents = [(None, e.const('values'), e.sym('rows of ' + name)), (None, e.const('value'), v)]
            e.map_set(r, texts(e, k, 'tuple'), e.new_map(None, tuple(ents), who.pay))
        return r
    return Param('found', value=value)


def curve_of(first, second, operation):
    def value(e):
        who = e.module_frame(e.repo.get('metcalcpy.util.utils')).env.get('DerivedCurveComponent')
        return e.call(who, [texts(e, first), texts(e, second), e.const(operation)], {}, None)
    return Param('curve', value=value)


def point(*parts):
    return Param('point', value=lambda e: texts(e, parts, 'tuple'))


CASES = [
    ('two models', ('GFS', 'TMP', 'RMSE'), ('NAM', 'TMP', 'RMSE'), ('12', 'RMSE'), {}, [('GFS', '12', 'RMSE'), ('NAM', '12', 'RMSE')]),
    ('two models of several', ('NAM', 'TMP', 'RMSE'), ('GFS', 'TMP', 'RMSE'), ('12', 'RMSE'), {},
     [('GFS', '6', 'RMSE'), ('GFS', '12', 'ME'), ('GFS', '12', 'RMSE'), ('NAM', '12', 'RMSE'), ('RAP', '12', 'RMSE')]),
    ('two statistics', ('GFS', 'TMP', 'RMSE'), ('GFS', 'TMP', 'ME'), ('12', 'RMSE,ME'), {}, [('GFS', '12', 'ME'), ('GFS', '12', 'RMSE')]),
    ('a group', ('Group1', 'TMP', 'RMSE'), ('NAM', 'TMP', 'RMSE'), ('12', 'RMSE'), {'Group1': 'GFS:RAP'}, [('GFS:RAP', '12', 'RMSE'), ('NAM', '12', 'RMSE')]),
    ('two groups', ('Group1', 'TMP', 'RMSE'), ('Group2', 'TMP', 'RMSE'), ('12', 'RMSE'), {'Group1': 'GFS:RAP:HRRR', 'Group2': 'NAM:SREF'}, [('GFS:RAP:HRRR', '12', 'RMSE'), ('NAM:SREF', '12', 'RMSE')]),
    ('one empty', ('GFS', 'TMP', 'RMSE'), ('NAM', 'TMP', 'RMSE'), ('12', 'RMSE'), {}, [('NAM', '12', 'RMSE'), ('GFS', '12', 'RMSE')]),
]


def derived(ctx):
    for name, first, second, rest, groups, keys in CASES:
        for operation in OPERATIONS:
            for its in (1, 500):
                title = '%s(%s-%s)' % (operation, ' '.join(first), ' '.join(second))
                curves_ = Param('curves', ents={title: curve_of(first, second, operation)})
                who = me(AGG, params=settings(num_iterations=its, alpha=number('alpha'), circular_block_bootstrap='True' if its > 1 else 'False'), statistic='rmse',
                         derived_name_to_values=curves_, group_to_value=Param('groups', value=lambda e: mapped(e, groups)))
                ctx.pair('derived estimate', AGG + '._get_bootstrapped_stats_for_derived', S + 'derived_estimate', [who, point(title, *rest), found(*keys), ('1',)],
                         opaque=('bootstrap_and_value', '_calc_stats_derived', 'calc_derived_curve_value', 'perfect_score_adjustment', 'round_half_up', '_validate_series_cases_for_derived_operation'),
                         noted={'_validate_series_cases_for_derived_operation': ()}, effects=['call:_validate_series_cases_for_derived_operation'], strict=False,
                         construct='%s of %s, %s' % (operation, name, 'replicates' if its > 1 else 'one iteration'))


def mapped(e, d):
    r = e.new_map()
    for k, v in d.items():
        e.map_set(r, e.const(k), e.const(v) if not isinstance(v, (list, tuple)) else texts(e, v))
    return r


POINTS = [
    ({'model': ['GFS', 'NAM']}, [['GFS TMP RMSE', 'NAM TMP RMSE', 'DIFF']]),
    ({'model': ['GFS', 'NAM', 'RAP'], 'vx_mask': ['EAST', 'WEST']}, [['GFS EAST TMP RMSE', 'NAM EAST TMP RMSE', 'RATIO'], ['NAM WEST TMP RMSE', 'NAM EAST TMP RMSE', 'SS']]),
    ({'vx_mask': ['EAST', 'WEST'], 'model': ['GFS', 'NAM']}, [['EAST GFS TMP RMSE', 'EAST NAM TMP RMSE', 'DIFF_SIG'], ['EAST GFS TMP RMSE', 'EAST GFS TMP ME', 'DIFF']]),
    ({'model': ['GFS']}, [['GFS TMP RMSE', 'GFS TMP RMSE', 'SINGLE']]),
]


def points(ctx):
    for i, (series, definitions) in enumerate(POINTS):
        for independent in ([], ['12', '24']):
            for axis in ('1', '2'):
                who = me(AGG, params=settings(indy_var='fcst_lead', **{'derived_series_' + axis: definitions}), derived_name_to_values=Param('curves', value=lambda e: e.new_map()))
                ctx.pair('derived points', AGG + '._get_derived_points', S + 'derived_points',
                         [who, Param('series', value=lambda e: mapped(e, series)), Param('independent', value=lambda e: texts(e, independent)), (axis,)],
                         strict=False, check_args=[0], construct='points of %s, %d independent values, axis %s' % (definitions[0], len(independent), axis))


def table(name, columns, rows, given=()):
    """Input data with known columns; unknown cells except those given."""
    given = dict(given)

    def value(e):
        cols = []
        for c in columns:
            cells = []
            for r in range(rows):
                if c in given:
                    cells.append(e.const(given[c][r]))
                else:
                    x = e.sym('%s %s %d' % (name, c, r), 'num')
                    x.sc = True
                    x.np = 'np'
                    cells.append(x)
            cols.append((e.const(c), e.new_list(cells, arr=True)))
        n = e.listc(cols[0][1]).n
        return e.new_ref(FrameC(n, cols, e.lib.fr.ints(n)))
    return Param(name, value=value)


AXES = [
    ('two models', {'model': ['GFS', 'NAM']}, 'fcst_lead', ['12', '24'], ['RMSE'], {'TMP': ['RMSE']}, []),
    ('two statistics', {'model': ['GFS', 'NAM']}, 'fcst_lead', ['12', '24'], ['RMSE', 'ME'], {'TMP': ['RMSE', 'ME']}, []),
    ('groups', {'model': ['GFS:RAP', 'NAM'], 'vx_mask': ['EAST']}, 'fcst_lead', ['12'], ['ME'], {}, []),
    ('dates', {'model': ['GFS']}, 'fcst_valid_beg', ['2020-01-01 00:00:00', '2020-01-02 00:00:00:2020-01-02 12:00:00'], ['ME'], {'TMP': ['ME']}, []),
    ('no independent value', {'model': ['GFS', 'NAM']}, 'fcst_lead', [], ['ME'], {'TMP': ['ME']}, []),
    ('joined independent values', {'model': ['GFS', 'NAM']}, 'fcst_lead', ['12;24', '12'], ['ME'], {'TMP': ['ME']}, []),
    ('joined series values', {'model': ['GFS', 'NAM'], 'vx_mask': ['EAST;WEST']}, 'fcst_lead', ['12', '12;24'], ['ME'], {'TMP': ['ME']}, []),
    ('fractions', {'model': ['GFS', 'NAM']}, 'thresh_i', ['0.25', '0.75', '-0.5'], ['ME'], {'TMP': ['ME']}, []),
    ('fractions of the series', {'thresh_i': ['-0.5:0.25', '0.75']}, 'fcst_lead', ['12', '24'], ['ME'], {'TMP': ['ME']}, []),
    ('derived', {'model': ['GFS', 'NAM']}, 'fcst_lead', ['12', '24'], ['RMSE'], {'TMP': ['RMSE']}, [['GFS TMP RMSE', 'NAM TMP RMSE', 'DIFF']]),
]
TABLE = dict(thresh_i=[0.25, 0.25, 0.75, -0.5, 0.75], model=['GFS', 'NAM', 'GFS', 'RAP', 'NAM'], fcst_lead=[12, 12, 24, 12, 24], vx_mask=['EAST', 'EAST', 'WEST', 'EAST', 'EAST'], fcst_var=['TMP', 'TMP', 'TMP', 'TMP', 'HGT'],
             fcst_valid_beg=['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-02 12:00:00', '2020-01-02 00:00:00', '2020-01-01 00:00:00'], stat_name=['RMSE', 'RMSE', 'ME', 'ME', 'RMSE'])


def estimated(name, *names):
    """An estimate depends on its arguments and on the statistic current at that time."""
    def hook(e, f, args, kw, node):
        given = dict(zip(('self',) + names, args), **kw)
        who = e.val(given['self'])
        return e.op('estimate ' + name, [e.plain(e.val(given.get(n, e.const('1')))) for n in names] + [e.map_get(who, e.const('statistic'))])
    return hook


ESTIMATES = {'_get_bootstrapped_stats': estimated('plain', 'series_data', 'axis'), '_get_bootstrapped_stats_for_derived': estimated('derived', 'series', 'distributions', 'axis')}


def axes(ctx):
    for name, series, variable, independent, statistics, fcst, definitions in AXES:
        for axis in ('1', '2'):
            for line in ('sl1l2', 'pct'):
                data = table('data', list(TABLE) + ['total', 'oy_i', 'on_i'], 5, TABLE)
                who = me(AGG, params=settings(indy_var=variable, indy_vals=independent, line_type=line,
                                              **{'derived_series_' + axis: definitions, 'series_val_' + axis: series, 'list_stat_' + axis: statistics, 'fcst_var_val_' + axis: fcst}),
                         derived_name_to_values=Param('curves', value=lambda e: e.new_map()), input_data=data)
                ctx.pair('own rows', AGG + '._proceed_with_axis', S + 'axis_rows', [who, (axis,)], opaque=('aggregate_field_values',), model=ESTIMATES, strict=False, check_args=[0],
                         construct='%s, %s, axis %s' % (name, line, axis))


OBJECTS = [
    ('one statistic', {'model': ['GFS', 'NAM']}, ['12', '24'], ['RATIO_FSA_ASA'], {'TMP': []}),
    ('two statistics', {'model': ['GFS', 'NAM']}, ['12'], ['RATIO_FSA_ASA', 'OBJHITS'], {'TMP': []}),
    ('groups', {'model': ['GFS:RAP', 'NAM'], 'vx_mask': ['EAST']}, ['12', '24'], ['OBJHITS'], {}),
    ('numbers', {'level': ['500', '850']}, ['12'], ['OBJHITS'], {'TMP': []}),
    ('fractions', {'thresh_i': ['0.25;-0.5', '0.75']}, ['12', '24'], ['OBJHITS'], {'TMP': []}),
]


def object_axes(ctx):
    model = {'_get_bootstrapped_stats': estimated('objects', 'series_data', 'cases')}
    for name, series, independent, statistics, fcst in OBJECTS:
        for axis in ('1', '2'):
            data = table('data', list(TABLE) + ['level', 'fcst_valid', 'case'], 5, dict(TABLE, level=[500, 850, 500, 850, 500], fcst_valid=TABLE['fcst_valid_beg']))
            who = me(BOOT, params=settings(indy_var='fcst_lead', indy_vals=independent, **{'series_val_' + axis: series, 'list_stat_' + axis: statistics, 'fcst_var_val_' + axis: fcst}), input_data=data)
            ctx.pair('own rows', BOOT + '._proceed_with_axis', S + 'object_rows', [who, (axis,)], model=model, strict=False, construct='objects: %s, axis %s' % (name, axis))


def summaries(ctx):
    for n in (1, 3):
        who = me(SUM, input_data=table('data', ['stat_name', 'total', 'fbar', 'stat_value'], n, dict(stat_name=['RMSE', 'me', 'FBAR'])))
        ctx.pair('own rows', SUM + '.process_rows', S + 'summary_rows', [who], opaque=('calculate_statistic',), strict=False, check_args=[0], construct='summary of %d rows' % n)


def templates(ctx):
    for cls in (AGG, BOOT):
        ctx.pair('own rows', cls + '._init_out_frame', S + 'init_rows', [me(cls), Param('fields', value=lambda e: texts(e, ['model', 'fcst_lead', 'stat_name'])),
                 Param('points', value=lambda e: e.new_list([texts(e, p, 'tuple') for p in (('GFS', '12', 'ME'), ('NAM', '12', 'ME'))]))], strict=False)
    for n in (0, 2):
        ctx.pair('own rows', ECLV + '._init_out_frame', S + 'init_blank', [me(ECLV), Param('fields', value=lambda e: texts(e, ['model', 'thresh_i', 'nstats'])), (n,)], strict=False, construct='%d blank rows' % n)


EQUALIZED = [
    ('single values', {'model': ['GFS', 'NAM']}, {'TMP': ['ME']}),
    ('groups', {'model': ['GFS:NAM', 'RAP']}, {'TMP': ['ME'], 'HGT': ['ME', 'RMSE']}),
    ('two variables', {'model': ['GFS'], 'vx_mask': ['EAST:WEST']}, {'TMP': ['ME']}),
]


def kept(ctx):
    """A run leaves its configuration as it was given."""
    days = ('joined days', {'model': ['GFS', 'NAM']}, 'fcst_valid_beg', ['2020-01-01 00:00:00;2020-01-02 00:00:00'], ['ME'], {'TMP': ['ME']}, [])
    for name, series, variable, independent, statistics, fcst, definitions in AXES + [days]:
        if definitions:
            continue
        given = settings(indy_var=variable, indy_vals=independent, line_type='sl1l2', derived_series_1=[], series_val_1=series, list_stat_1=statistics, fcst_var_val_1=fcst)
        data = table('data', list(TABLE) + ['total', 'fbar'], 5, TABLE)
        for cls, step in ((AGG, '_proceed_with_axis'), (SUM, 'aggregate_special_fields')):
            if not independent and cls == SUM:
                continue
            ctx.pair('configuration kept', S + 'settings_after', S + 'settings_before', [me(cls, params=given, input_data=data), (step,), ('1',)],
                     opaque=('aggregate_field_values',), model=ESTIMATES, strict=False, at='%s.%s' % (cls, step), construct='configuration of %s after %s' % (name, step))
    for name, series, fcst in EQUALIZED:
        for axis in '1', '2':
            given = settings(**{'series_val_' + axis: series, 'fcst_var_val_' + axis: fcst})
            names = ['fcst_var', 'equalize'] + list(series)
            ctx.pair('configuration kept', S + 'settings_after', S + 'settings_before',
                     [me(EQZ, params=given, input_data=table('data', names, 3, {})), ('perform_ee_on_axis',), table('previous', names, 3, {}), (axis,)],
                     opaque=('event_equalize_against_values',), strict=False, at=EQZ + '.perform_ee_on_axis', construct='configuration of %s after equalization of axis %s' % (name, axis))


REPEATED = [('all different', ['a', 'a', 'b', 'b'], [12, 24, 12, 24], ['ME'] * 4), ('a case twice', ['a', 'a', 'b', 'b'], [12, 12, 12, 24], ['ME'] * 4),
         ('every case twice', ['a', 'a', 'b', 'b'], [12, 12, 24, 24], ['ME'] * 4), ('two statistics', ['a', 'a', 'b', 'b'], [12, 12, 12, 12], ['ME', 'RMSE', 'RMSE', 'ME']),
         ('one case missing for a member', ['a', 'a', 'b'], [12, 12, 12], ['ME'] * 3), ('one row', ['a'], [12], ['ME'])]


def single(ctx):
    """Derived curves are refused when a case has several values."""
    for time in ('fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init'):
        for name, times, leads, statistics in REPEATED:
            for members in (1, 2):
                data = Param('rows', value=lambda e: e.new_list([e.new_list([e.const(t), e.sym('x%d' % i, 'num'), e.const(l), e.const(s)], arr=True) for i, (t, l, s) in enumerate(zip(times, leads, statistics))], arr=True))
                who = me(AGG, params=settings(list_stat_1=['ME', 'RMSE']), column_names=Param('names', value=lambda e: e.new_list([e.const(c) for c in (time, 'total', 'fcst_lead', 'stat_name')], arr=True)))
                ctx.pair('single values', AGG + '._validate_series_cases_for_derived_operation', S + 'one_value_each', [who, data, ('1',), (members,)], strict=False,
                         construct='%s, %s, %d members' % (time, name, members))
