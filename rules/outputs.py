"""C21 written results, C13 seeding."""
import ast
from . import boot, scorecard
from analyzer.lib import EFFECTS
from .common import Param
from .drivers import me
from .scorecard import plain
from .tost import number

S = 'specs.outputs.'
WRITES = ['m:to_csv', 'm:to_json', 'm:to_excel', 'm:to_netcdf', 'm:write', 'm:writerow', 'm:writerows', 'builtins.open', 'os.remove', 'os.unlink', 'shutil.rmtree',
          'os.rename', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'numpy.savetxt', 'numpy.save', 'm:unlink']
AGG, ECLV, BOOT = 'metcalcpy.agg_stat.AggStat', 'metcalcpy.agg_eclv.AggEclv', 'metcalcpy.agg_stat_bootstrap.AggStatBootstrap'
EQZ, EQUAL, SUM = 'metcalcpy.agg_stat_eqz.AggStatEventEqz', 'metcalcpy.agg_stat_event_equalize.AggStatEventEqualize', 'metcalcpy.sum_stat.SumStat'
HELPERS = {'_proceed_with_axis': (), 'perform_event_equalization': (), 'event_equalize': (), '_perform_event_equalization': ('input_data',),
           'perform_ee_on_axis': (), 'run_ee_on_axis': (), 'aggregate_special_fields': ('input_data',), 'process_rows': ('input_data',)}
SERIES = {'model': ['GFS', 'NAM:RAP'], 'vx_mask': ['EAST', 'NMT:CONUS', 'A:B']}


def params(**given):
    """A configuration: constants where given, unknown elsewhere."""
    return Param('params', ents={k: v if isinstance(v, Param) else plain(v) for k, v in given.items()})


FIXED = {'vx_mask': {'a': ['EAST', 'WEST']}, 'fcst_lev': {'b': ['P500'], 'c': ['Z2', 'Z10']}}
SEEDS = ((None, 'no seed'), ('None', 'seed None'), (0, 'seed zero'), (17, 'a seed'), (number('seed'), 'any seed'))
TEXT = lambda n: Param(n, kind='str')


def drivers(ctx, rule, effects, seeds, outputs, ignore=()):
    """Each driver's entry point against its reference, comparing the selected effects in order."""
    def run(cls, method, spec, name, noted=HELPERS, data=None, **given):
        who = me(cls, params=params(**given), **({'input_data': data} if data is not None else {}))
        ctx.pair(rule, cls + '.' + method, S + spec, [who], opaque=list(noted), noted=noted, effects=effects, ignore=ignore, strict=False, result=False, construct=name)

    for value, named in seeds:
        for equal in ('True', 'False'):
            for second in ({}, SERIES):
                for more in outputs:
                    name = '%s, event_equal %s, %s, %s' % (named, equal, 'two axes' if second else 'one axis', more[1])
                    given = dict(random_seed=value, event_equal=equal, series_val_1=SERIES, series_val_2=second, agg_stat_output=TEXT('output'), **more[0])
                    for line in ('pct', 'ctc'):
                        run(AGG, 'calculate_stats_and_ci', 'aggregation', 'aggregation of %s: %s' % (line, name), line_type=line, **given)
                    if not second:
                        run(ECLV, 'calculate_stats_and_ci', 'economic_value', 'economic value: ' + name, fixed_vars_vals_input=FIXED, equalize_by_indep=TEXT('by'), **given)
                    run(BOOT, 'calculate_values', 'replicates', 'replicates: ' + name, indy_var='fcst_lead', **given)
    return run


APPEND = (({}, 'no append option'), ({'append_to_file': 'True'}, 'appending'), ({'append_to_file': 'False'}, 'not appending'), ({'append_to_file': TEXT('append')}, 'any append option'))


def c21(ctx):
    run = drivers(ctx, 'written', WRITES + ['call:' + h for h in HELPERS], SEEDS[:1], APPEND)
    for equal in ('True', 'False', 'yes'):
        for second in ({}, SERIES):
            given = dict(event_equal=equal, series_val_1=SERIES, series_val_2=second, agg_stat_output=TEXT('output'))
            name = 'event_equal %s, %s' % (equal, 'two axes' if second else 'one axis')
            run(EQZ, 'calculate_values', 'against_cases', 'equalization against cases: ' + name, **given)
            run(EQUAL, 'calculate_values', 'equalization', 'equalization: ' + name, indy_var='fcst_lead', fixed_vars_vals_input=FIXED, **given)
    for line in ('ctc', 'sal1l2', 'nbrcnt', 'unheard-of'):
        for equal in ('True', 'False'):
            run(SUM, 'calculate_stats', 'summary', 'summary of %s: event_equal %s' % (line, equal), line_type=line, event_equal=equal, sum_stat_output=TEXT('output'))
    for cls in (SUM, 'metcalcpy.scorecard.Scorecard'):
        ctx.pair('written', cls + '.__init__', S + 'summary_input', [me(cls), 'params'], effects=WRITES, ignore=('na_rep', 'float_format'), strict=False, result=False)
    scorecard.cells(ctx)


DRAWS = sorted(x for x in EFFECTS if x.startswith(('numpy.random.', 'random.')))
OTHER = ('random', 'secrets', 'uuid', 'os.urandom', 'os.getrandom', 'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.RandomState',
         'numpy.random.SeedSequence', 'numpy.random.PCG64', 'numpy.random.MT19937', 'numpy.random.Philox', 'numpy.random.SFC64', 'numpy.random.set_state',
         'numpy.random.set_bit_generator', 'numpy.random.mtrand')
START = ('metcalcpy.agg_stat', 'metcalcpy.agg_eclv', 'metcalcpy.agg_stat_bootstrap')


def aliases(tree, package):
    """Local name -> dotted name it stands for, over every import of the module."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                base = '.'.join(package.split('.')[:len(package.split('.')) - n.level + 1] + ([n.module] if n.module else []))
            for a in n.names:
                out[a.asname or a.name] = base + '.' + a.name
    return out


def imported(repo):
    """Modules of the package a resampling run can load."""
    todo, seen = list(START), {}
    while todo:
        name = todo.pop()
        mod = repo.get(name)
        if name in seen or mod is None:
            continue
        tree = mod.tree
        seen[name] = (mod, aliases(tree, name.rpartition('.')[0]))
        for d in seen[name][1].values():
            parts = d.split('.')
            if parts[0] == 'metcalcpy':
                todo += ['.'.join(parts[:k]) for k in range(1, len(parts) + 1)]
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                todo += ['.'.join(a.name.split('.')[:k]) for a in n.names for k in range(1, a.name.count('.') + 2) if a.name.startswith('metcalcpy')]
    return seen


def references(mod, names):
    """(function, node, dotted name) of every reference to something outside the package."""
    def walk(n, owner):
        for c in ast.iter_child_nodes(n):
            own = owner
            if isinstance(c, ast.ClassDef):
                own = owner + '.' + c.name
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                own = owner + '.' + c.name
            if isinstance(c, (ast.Attribute, ast.Name)):
                chain, x = [], c
                while isinstance(x, ast.Attribute):
                    chain.append(x.attr)
                    x = x.value
                if isinstance(x, ast.Name) and x.id in names:
                    yield own, c, '.'.join([names[x.id]] + chain[::-1])
            yield from walk(c, own)
    yield from walk(mod.tree, mod.name)


def c13(ctx):
    drivers(ctx, 'seeded', DRAWS + ['call:_proceed_with_axis'], SEEDS, APPEND[:1], ignore=('call:_proceed_with_axis',))
    for cls in (AGG, ECLV, BOOT):
        ctx.pair('seeded', cls + '.__init__', S + 'nothing', [me(cls), 'params'], effects=DRAWS, strict=False, result=False)
    boot.draws(ctx)
    seen = imported(ctx.repo)
    if len(seen) < 8:
        ctx.find('one generator', 'package', '', 'the resampling modules are no longer found')
    for name, (mod, names) in sorted(seen.items()):
        bad = 0
        for owner, node, dotted in references(mod, names):
            ctx.sites += 1
            where = '%s:%d' % (mod.path, node.lineno)
            if any(dotted == o or dotted.startswith(o + '.') for o in OTHER):
                bad += 1
                ctx.find('one generator', '%s in %s' % (dotted, owner), where, 'random numbers come from a generator the configured seed does not reach')
            elif dotted == 'numpy.random.seed' and owner != name and owner not in ctx.functions:
                bad += 1
                ctx.find('one generator', 'reseeding in %s' % owner, where, 'the generator is seeded outside the analysed start of a run')
        if not bad:
            ctx.ok('one generator', name)
