"""C01-C05: published score formulas."""
from .common import stat_pairs, stat_hooks, Param


def c02(ctx):
    num3 = [Param('sum_total', kind='num'), Param('sum_sq', kind='num'), Param('n', kind='num')]
    ctx.pair('formula', 'metcalcpy.util.sl1l2_statistics.calculate_stddev', 'specs.sl1l2.calculate_stddev', num3)
    names = [n for n, _ in ctx.spec_functions('sl1l2') if n != 'calculate_stddev']
    stat_pairs(ctx, 'formula', 'sl1l2_statistics', 'sl1l2', names)
    stat_pairs(ctx, 'formula', 'sal1l2_statistics', 'sal1l2')
    stat_pairs(ctx, 'formula', 'ssvar_statistics', 'ssvar')


def c01(ctx):
    stat_pairs(ctx, 'formula', 'ctc_statistics', 'ctc', extra=('pod_yes', 'pod_no'))
    stat_pairs(ctx, 'formula', 'nbrctc_statistics', 'nbrctc')


def c03(ctx):
    names = [n for n, _ in ctx.spec_functions('vector')]
    for pre, mod in (('calculate_vl1l2', 'vl1l2_statistics'), ('calculate_val1l2', 'val1l2_statistics'), ('calculate_vcnt', 'vcnt_statistics')):
        stat_pairs(ctx, 'formula', mod, 'vector', [n for n in names if n.startswith(pre)])
    uv = [Param('u', kind='num'), Param('v', kind='num')]
    ctx.pair('formula', 'metcalcpy.util.met_stats.calc_speed', 'specs.vector.calc_speed', uv)
    ctx.pair('formula', 'metcalcpy.util.met_stats.calc_direction', 'specs.vector.calc_direction', uv)


def c04(ctx):
    names = [n for n, _ in ctx.spec_functions('ensemble')]
    stat_pairs(ctx, 'formula', 'ecnt_statistics', 'ensemble', [n for n in names if n.startswith('calculate_ecnt')])
    stat_pairs(ctx, 'formula', 'rps_statistics', 'ensemble', [n for n in names if n.startswith('calculate_rps')])
    stat_pairs(ctx, 'formula', 'nbrcnt_statistics', 'ensemble', [n for n in names if n.startswith('calculate_nbr')])
    stat_pairs(ctx, 'formula', 'grad_statistics', 'ensemble', [n for n in names if not n.startswith(('calculate_ecnt', 'calculate_rps', 'calculate_nbr'))])


def counts(n):
    def make(e):
        cells = []
        for i in range(n):
            s = e.sym('count%d' % i, 'num')
            s.sc = True
            s.np = 'np'
            cells.append(s)
        return e.new_list(cells, arr=True)
    return Param('values', value=make)


def c07(ctx):
    for n in (4, 3):
        ctx.pair('formula', 'metcalcpy.util.ctc_statistics.calculate_economic_value', 'specs.eclv.calculate_economic_value',
                 [counts(n), 'ratios', Param('add', kind='bool')], hooks=stat_hooks(), wrap=True,
                 construct='calculate_economic_value with %d counts' % n)
    ctx.pair('formula', 'metcalcpy.util.eclv_statistics.calculate_eclv', 'specs.eclv.calculate_eclv',
             ['data', 'cols', Param('thresh', kind='scalar'), 'line_type', 'ratios', Param('flag', kind='scalar')], hooks=stat_hooks(), wrap=True)


def names(items):
    """A concrete array of column names."""
    return Param('cols', value=lambda e: e.new_list([e.const(x) for x in items], arr=True))


def bin_table(probs):
    """Rows of a probability table with given bin probabilities and unknown counts."""
    cols = ['total', 'n_thresh', 'o_bar'] + ['%s_%d' % (f, c) for c in range(len(probs)) for f in ('thresh_i', 'oy_i', 'on_i')]

    def make(e):
        rows = []
        for r in range(2):
            row = []
            for name in cols:
                if name.startswith('thresh_i'):
                    row.append(e.const(probs[int(name[-1])]))
                else:
                    v = e.sym('%s@%d' % (name, r))
                    v.sc = True
                    row.append(v)
            rows.append(e.new_list(row, arr=True))
        return e.new_list(rows, arr=True)
    return Param('data', value=make), names(cols)


def category_table(n):
    """Rows of a multi-category table with n categories: concrete cell positions, unknown counts, in an arbitrary row order of the cells."""
    cells = [(i, j) for i in range(n) for j in range(n)]
    cols = ['total', 'n_cat', 'ec_value'] + ['%s_%d' % (f, c) for c in range(n * n) for f in ('i_value', 'j_value', 'fi_oj')]

    def make(e):
        rows = []
        for r in range(n * n + 2):
            vals = {'n_cat': e.const(n)}
            for c, (i, j) in enumerate(reversed(cells)):
                vals['i_value_%d' % c] = e.const(i + 1)
                vals['j_value_%d' % c] = e.const(j + 1)
            row = []
            for name in cols:
                v = vals.get(name)
                if v is None:
                    v = e.sym('%s@%d' % (name, r))
                    v.sc = True
                row.append(v)
            rows.append(e.new_list(row, arr=True))
        return e.new_list(rows, arr=True)
    return Param('data', value=make), names(cols)


def c05(ctx):
    stat_pairs(ctx, 'formula', 'pstd_statistics', 'pstd')
    cols = ['total', 'n_thresh', 'o_bar'] + ['%s_%d' % (f, c) for c in range(3) for f in ('thresh_i', 'oy_i', 'on_i')]
    for name, _ in ctx.spec_functions('pstd'):
        if name not in ('calculate_pct_total', 'calculate_pstd_ni', 'calculate_pstd_calibration'):
            ctx.pair('formula', 'metcalcpy.util.pstd_statistics.' + name, 'specs.pstd.' + name, ['data', names(cols)], hooks=stat_hooks(), wrap=True,
                     construct=name + ' with three bins')
    data, cols = bin_table([0.5, 0.1, 0.9])
    ctx.pair('formula', 'metcalcpy.util.pstd_statistics.calculate_pstd_roc_auc', 'specs.pstd.calculate_pstd_roc_auc', [data, cols], hooks=stat_hooks(), wrap=True,
             construct='calculate_pstd_roc_auc with given bin probabilities')
    for n in (2, 3):
        data, cols = category_table(n)
        ctx.pair('formula', 'metcalcpy.util.mcts_statistics.calculate_mcts_hss_ec', 'specs.mcts.calculate_mcts_hss_ec', [data, cols], hooks=stat_hooks(),
                 wrap=True, construct='calculate_mcts_hss_ec with %d categories' % n)
