"""C30 dispatch of statistic names."""
from analyzer.engine import Registry
from analyzer.interp import Interp
from analyzer.pair import resolve
from .common import Param
from .mode import FAMILIES, OBJ, PAIRS

AGG = 'metcalcpy.agg_stat'
SUM = 'metcalcpy.sum_stat'
BOOT = 'metcalcpy.agg_stat_bootstrap'
S = 'specs.driver.'
NOT_STATS = ('calculate_stddev', 'calculate_economic_value')
ENSEMBLE = (('calculate_ecnt', 'ecnt'), ('calculate_rps', 'rps'), ('calculate_nbr', 'nbrcnt'), ('calculate_', 'grad'))


SPEC = {'vl1l2': 'vector', 'val1l2': 'vector', 'vcnt': 'vector', 'ecnt': 'ensemble', 'rps': 'ensemble', 'nbrcnt': 'ensemble', 'grad': 'ensemble'}


def statistics(ctx, lines):
    """(function name, arity, module) of every statistic of the given line types."""
    out = []
    for line in lines:
        spec = SPEC.get(line, line)
        for name, arity in ctx.spec_functions(spec):
            if name in NOT_STATS or arity not in (2, 3):
                continue
            if spec == 'vector' and not name.startswith('calculate_%s_' % line):
                continue
            if spec == 'ensemble' and next(m for p, m in ENSEMBLE if name.startswith(p)) != line:
                continue
            out.append((name, arity, 'metcalcpy.util.%s_statistics' % line))
    return out


AGG_LINES = ('ctc', 'grad', 'sl1l2', 'sal1l2', 'ssvar', 'val1l2', 'vcnt', 'vl1l2', 'ecnt', 'nbrcnt', 'nbrctc', 'pstd', 'rps', 'mcts')
SUM_LINES = ('ctc', 'grad', 'sl1l2', 'val1l2', 'vcnt', 'vl1l2', 'pstd', 'nbrcnt', 'ecnt', 'nbrctc', 'rps')


def me(cls=None, **ents):
    """An instance with unknown attributes except the given ones."""
    mod, _, name = (cls or '').rpartition('.')

    def find(e):
        m = e.repo.get(mod)
        v = e.module_frame(m).env.get(name) if m is not None else None
        return v.pay if v is not None and v.ty == 'cls' else None
    return Param('self', cls=find if cls else None, ents={k: (v[0] if isinstance(v, tuple) else v) for k, v in ents.items()})


def func(qual):
    return Param('func', value=lambda e: resolve(e, qual) or e.op('nofunction', [e.const(qual)]))


def told(args):
    return Param('told', value=lambda e: e.new_list([e.const(x) for x in args], kind='tuple'))


def same_function(ctx, rule, driver, name, module):
    eng = Interp(ctx.repo, Registry())
    have, want = resolve(eng, driver + '.' + name), resolve(eng, module + '.' + name)
    construct = '%s in %s' % (name, driver)
    if want is None or have is None:
        ctx.find(rule, construct, driver, 'no statistic function %s is reachable by name' % name)
    elif have.pay is not want.pay:
        ctx.find(rule, construct, have.pay.where, 'the name stands for %s, not for %s.%s' % (have.pay.qual(), module, name))
    else:
        ctx.ok(rule, construct)


def modes():
    """(module, name) of the object statistics."""
    for module, ratio, obj, _, _, absent in FAMILIES:
        for x in [ratio + p for p in PAIRS if p not in absent] + [obj + o for o in OBJ]:
            yield 'metcalcpy.util.' + module, 'calculate_' + x


def c30(ctx):
    every = {m + '.' + n for n, _, m in statistics(ctx, AGG_LINES)}
    for name, arity, module in statistics(ctx, AGG_LINES):
        same_function(ctx, 'own function', AGG, name, module)
        stat = name[len('calculate_'):]
        q = module + '.' + name
        ctx.pair('convention', AGG + '.AggStat._calc_stats', S + 'calc_stats', ['self', 'values'], opaque=every,
                 impl_args=[me(AGG + '.AggStat', statistic=stat), 'values'],
                 spec_args=[me(AGG + '.AggStat', statistic=stat), 'values', func(q), told((True,) if arity == 3 else ())], construct='_calc_stats of %s' % stat)
    for name, arity, module in statistics(ctx, SUM_LINES):
        same_function(ctx, 'own function', SUM, name, module)
        stat = name[len('calculate_'):]
        for more, flag in (([], False), ([(True,)], True)):
            ctx.pair('convention', SUM + '.calculate_statistic', S + 'one_statistic', ['values', 'cols', (stat,)], opaque=every,
                     impl_args=['values', 'cols', (stat,)] + more,
                     spec_args=['values', 'cols', (stat,), func(module + '.' + name), told((flag,) if arity == 3 else ())],
                     construct='calculate_statistic of %s%s' % (stat, ' aggregated' if flag else ''))
    ctx.pair('convention', AGG + '.AggStat._calc_stats_derived', S + 'calc_stats_derived', [me(AGG + '.AggStat'), 'values'], opaque=('calc_derived_curve_value',))
    for module, name in modes():
        same_function(ctx, 'own function', BOOT, name, module)
        stat = name[len('calculate_'):]
        who = me(BOOT + '.AggStatBootstrap', statistic=stat)
        ctx.pair('convention', BOOT + '.AggStatBootstrap._calc_stats', 'specs.runs.objects', ['self', 'cases'], opaque={module + '.' + name}, impl_args=[who, 'cases'],
                 spec_args=[who, 'cases', func(module + '.' + name)], strict=False, construct='_calc_stats of objects, %s' % stat)
