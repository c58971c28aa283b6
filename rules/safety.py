"""C09, C10, C20 over every statistic function: no escaping failure, warning policy restored, arguments untouched."""
import ast
import os
import numpy as np
from analyzer.pair import run_alone, Param
from analyzer.values import ALL
from analyzer.engine import V, MapC
from .common import stat_hooks, AGG, REPO
from .mode import hooks as mode_hooks
from . import mode, prims, scores, vertical

MODULES = ('ctc nbrctc sl1l2 sal1l2 ssvar vl1l2 val1l2 vcnt ecnt rps nbrcnt grad pstd mcts eclv mode_ratio mode_arearat mode_2d_ratio mode_2d_arearat '
           'mode_3d_ratio mode_3d_volrat').split()

# parameters by position for functions that do not follow (data, columns[, aggregation])
SPECIAL = {
    'ctc_statistics.calculate_economic_value': ['values', 'ratios', Param('add', kind='bool')],
    'eclv_statistics.calculate_eclv': ['data', 'cols', Param('thresh', kind='scalar'), 'line_type', 'ratios', Param('flag', kind='scalar')],
    'sl1l2_statistics.calculate_stddev': [Param('a', kind='num'), Param('b', kind='num'), Param('n', kind='num')],
    'ctc_statistics.calculate_ctc_roc': ['data', Param('ascending', kind='bool')],
}


def functions():
    """(module, name, arity) of every public statistic function, read from the current source."""
    out = []
    for m in MODULES:
        path = os.path.join(REPO, 'metcalcpy', 'util', m + '_statistics.py')
        if not os.path.exists(path):
            continue
        for n in ast.parse(open(path).read()).body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith('calculate_'):
                out.append((m + '_statistics', n.name, len(n.args.args)))
    return out


# not statistics of a table: a helper always called inside a statistic's own handler, and a table builder
HELPERS = {'metcalcpy.util.sl1l2_statistics.calculate_stddev', 'metcalcpy.util.ctc_statistics.calculate_ctc_roc'}


def alone(ctx, rule, q, params, **kw):
    """Abstract outcome of one function, or None (then counted as undetermined)."""
    try:
        r = run_alone(ctx.repo, q, params, **kw)
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'):
            raise
        ctx.undet(rule, q, 'analysis failed: %s: %s' % (type(ex).__name__, ex))
        return None
    if isinstance(r, str):
        ctx.undet(rule, q, r)
        return None
    eng, out, before = r
    ctx.steps += eng.steps
    ctx.lanes += int(out.assume.sum())
    ctx.functions.add(q)
    return r


def outcomes(ctx, rule, outer=False):
    """Abstract outcome of every statistic function (shared by the three properties)."""
    for mod, name, arity in functions():
        q = 'metcalcpy.util.%s.%s' % (mod, name)
        params = SPECIAL.get(mod + '.' + name)
        if params is None:
            params = ['data', 'cols'] + ([AGG] if arity > 2 else [])
        r = alone(ctx, rule, q, params, hooks=mode_hooks(), outer=outer)
        if r is not None:
            yield (q,) + r


def hard(out):
    return [u for u in out.unsup if not u[0].startswith(('unbound', 'missing', 'extra'))]


def steps():
    """Steps of a run that work on whole tables: aggregation of joined values and equalization against earlier cases."""
    from . import equalize, runs, weight
    for name, series, given in weight.JOINED:
        yield 'metcalcpy.util.utils.aggregate_field_values', name, weight.joined_args('sl1l2', 'total fbar obar fobar ffbar oobar', series, given)
    for name, independent, series in (('joined leads', ['12;24'], {'model': ['GFS']}), ('times', ['2020-01-01 00:00:00'], {'vx_mask': ['EAST;WEST']}), ('nothing joined', ['12'], {'model': ['GFS']})):
        who = runs.me(runs.SUM, params=runs.settings(indy_var='fcst_lead', indy_vals=independent, line_type='sl1l2', series_val_1=series),
                      input_data=runs.table('data', list(runs.TABLE) + ['total', 'fbar'], 5, runs.TABLE))
        yield runs.SUM + '.aggregate_special_fields', name, [who, ('1',)]
    known = {'equalize': ['t1 12', 't2 24'], 'fcst_var': ['U', 'V'], 'model': ['A', 'B', 'C']}
    valid = dict({k: v for k, v in equalize.TABLE.items() if k != 'fcst_valid_beg'}, fcst_valid=['t1', 't2'])
    who = runs.me(runs.EQZ, params=equalize.plain(equalize.configured(fcst_var_val_1={'U': ['ME']}, series_val_1={'model': ['A:B', 'C']})), input_data=equalize.records(valid, 3))
    yield runs.EQZ + '.perform_ee_on_axis', 'earlier cases', [who, equalize.records(known, 2), ('1',)]


def c10(ctx):
    rule = 'warning policy restored'
    for q, name, args in steps():
        r = alone(ctx, rule, q, args, opaque=('aggregate_field_values',) if q.endswith('special_fields') else ())
        if r is not None:
            eng, out, before = r
            if (out.warn & out.assume & ~out.raised).any():
                ctx.find(rule, '%s: %s' % (q, name), out.where, 'a way out leaves warnings escalated to errors')
            else:
                ctx.ok(rule, '%s: %s' % (q, name))
    for q, eng, out, before in outcomes(ctx, rule):
        bad = out.warn & out.assume & ~out.raised
        if bad.any():
            if hard(out):
                ctx.undet(rule, q, str(hard(out)[:2]))
            else:
                ctx.find(rule, q, out.where, 'a way out leaves warnings escalated to errors (%d of %d abstract cases)' % (bad.sum(), len(bad)))
        else:
            ctx.ok(rule, q)


def c09(ctx):
    rule = 'no failure escapes'
    for q, eng, out, before in outcomes(ctx, rule, outer=True):
        if q in HELPERS:
            continue
        bad = out.raised & out.assume
        for m in out.escaped.values():
            bad = bad | (m & out.assume)
        if bad.any():
            if hard(out):
                ctx.undet(rule, q, str(hard(out)[:2]))
            else:
                kinds = sorted(out.escaped)
                ctx.find(rule, q, out.where, 'a failure leaves the function (%d of %d abstract cases) %s' % (bad.sum(), len(bad), kinds))
        else:
            ctx.ok(rule, q)
    ctx.only = 'missing'
    for run in (scores.c01, scores.c02, scores.c03, scores.c04, scores.c05, scores.c07, mode.c06, prims.core):
        run(ctx)
    ctx.only = None


# other routines that take the caller's data; (module, names or None for every public function, names left out)
OTHERS = [
    ('util.utils', None, ('aggregate_field_values', 'create_permutations_mv', 'equalize_axis_data', 'perform_event_equalization')),
    ('util.met_stats', None, ()),
    ('util.correlation', None, ()),
    ('util.wald_wolfowitz_runs_test', None, ()),
    ('util.tost_paired', None, ()),
    ('bootstrap', None, ()),
    ('piecewise_linear', None, ()),
    ('calc_difficulty_index', None, ()),
    ('vertical_interp', None, ('vertical_interp', 'height_from_pressure')),
    ('process_tcrmw', None, ()),
    ('pre_processing.directional_means', None, ()),
    ('contributed.zonal_meridional.zonal_meridional', None, ()),
]


def others():
    for mod, only, out in OTHERS:
        path = os.path.join(REPO, 'metcalcpy', *mod.split('.')) + '.py'
        if not os.path.exists(path):
            continue
        for n in ast.parse(open(path).read()).body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith('_') and n.name not in out and (only is None or n.name in only):
                a = n.args
                yield 'metcalcpy.%s.%s' % (mod, n.name), [x.arg for x in a.posonlyargs + a.args]


def view_of(eng, v, element=True):
    """Name of the parameter whose storage a value shares, following slices and single positions."""
    for _ in range(20):
        v = eng.val(v)
        n = v.node
        if n is None or v.sc or any(v is f for f in eng.fresh):
            return None
        if n[0] == 'sym':
            return n[1]
        if n[0] == 'index':
            k = eng.val(n[2])
            if eng.is_mask(k):
                return None
            kl = eng.listc(k)
            if kl is not None:
                if kl.kind != 'tuple' or any(eng.is_mask(c) or eng.listc(eng.val(c)) is not None for c in kl.cells):
                    return None
                if not any(eng.is_slice(eng.val(c)) for c in kl.cells):
                    return None
            elif not eng.is_slice(k) and not element:
                return None
            v = n[1]
        elif n[0] in ('attr:T', 'attr:values', 'm:ravel', 'm:view'):
            v = n[1]
        else:
            return None
    return None


def changed_args(eng, out, before, names):
    eng.active = ALL
    bad = {names[i] for i, a in enumerate(out.args) if ((eng.F(a) != before[i]) & out.assume & ~out.raised).any()}
    for ref, v in eng.views:
        c = eng.store[ref.pay]
        if isinstance(c, MapC) and not c.ents and c.base is v and not eng.kids_changed(c):
            continue
        p = view_of(eng, v)
        if p in names:
            bad.add(p)
    for v, m in eng.notes:
        p = view_of(eng, v, element=False)
        if p in names:
            bad.add(p)
    return sorted(bad)


def c20(ctx):
    rule = 'arguments unchanged'
    def judge(q, eng, out, before, names):
        bad = changed_args(eng, out, before, names)
        if not bad:
            ctx.ok(rule, q)
        elif hard(out):
            ctx.undet(rule, q, str(hard(out)[:2]))
        else:
            ctx.find(rule, q, out.where, 'argument %s is modified in place' % ', '.join(bad))
    for q, eng, out, before in outcomes(ctx, rule):
        judge(q, eng, out, before, ['data', 'cols'] + ['arg%d' % i for i in range(2, 9)] if len(out.args) < 4 else ['data', 'cols', 'thresh', 'line_type', 'ratios', 'flag'])
    for q, params in others():
        r = alone(ctx, rule, q, params)
        if r is not None:
            judge(q, *r, params)
    for q, params, names in structured():
        r = alone(ctx, rule, q, params, hooks=vertical.PHYSICS)
        if r is not None:
            judge(q, *r, names)


def structured():
    """Functions of labelled arrays, on arguments with dimensions, coordinates and attributes."""
    levels = [1000.0, 850.0, 500.0]
    field = vertical.labelled('field', ('p', 'x'), (3, 2), vertical.unknown('field'), 'K', levels, 'hPa')
    for units in ('m', 'km'):
        yield vertical.V + 'vertical_interp', [
            ('T',), vertical.settings(vertical_dim_name='p', vertical_levels=[60.0, 150.0], vertical_level_units=units),
            vertical.labelled('surfaces', ('p', 'x'), (3, 2), vertical.rising('z', 0, 120), 'm', levels), field], ['name', 'settings', 'surfaces', 'field']
    for units in ('Pa', 'hPa'):
        yield vertical.V + 'height_from_pressure', [
            vertical.settings(vertical_dim_name='p'), vertical.labelled('geopotential', ('x',), (2,), vertical.unknown('geopotential'), 'm2/s2'),
            vertical.labelled('pressure', ('x',), (2,), lambda e, at: vertical.size('pressure %s' % (at,), 30000, 110000)(e), units), field,
            vertical.labelled('humidity', ('p', 'x'), (3, 2), vertical.unknown('humidity'), 'percent', levels, 'hPa')], ['settings', 'geopotential', 'pressure', 'temperature', 'humidity']
