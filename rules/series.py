"""C26: time series and dependence."""
from analyzer.engine import FrameC
from .common import Param
from .tost import number

U = 'metcalcpy.util.utils.'
C = 'metcalcpy.util.correlation.'
W = 'metcalcpy.util.wald_wolfowitz_runs_test.'
S = 'specs.series.'
NAN = float('nan')
#: which members are numbers (.), missing (0) or not a number (?)
SHAPES = ('....', '.....', '...', '..', '.', '..0..', '.?...', '0...', '...?', '0?', '.0.', '')


def series(shape, given=None, arr=None, sym='x'):
    def make(e):
        cells = []
        for i, c in enumerate(shape):
            if c == '.':
                if given is not None:
                    v = e.const(given[i])
                else:
                    v = e.sym('%s%d' % (arr or sym, i), 'num')
                    v.sc = True
                    v.np = 'np' if arr else 'py'
            else:
                v = e.const(None if c == '0' else NAN)
            cells.append(v)
        return e.new_list(cells, arr=bool(arr))
    return Param('series', value=make)


def revisions(rows, split):
    """A table of values, the first `split` of them of one revision."""
    def make(e):
        values = []
        for i in range(rows):
            v = e.sym('x%d' % i, 'num')
            v.sc = True
            v.np = 'np'
            values.append(v)
        ids = [e.const('a' if i < split else 'b') for i in range(rows)]
        cols = [(e.const('stat_value'), e.new_list(values, arr=True)), (e.const('revision_id'), e.new_list(ids, arr=True))]
        n = e.listc(cols[0][1]).n
        return e.new_ref(FrameC(n, cols, e.lib.fr.ints(n)))
    return Param('series_data', value=make)


def c26(ctx):
    for shape in SHAPES:
        for fn, spec in (('compute_std_err_from_mean', 'of_mean'), ('compute_std_err_from_sum', 'of_sum'),
                         ('compute_std_err_from_median_no_variance_inflation_factor', 'of_median'),
                         ('compute_std_err_from_median_variance_inflation_factor', 'of_median_inflated'), ('autocor_coef', 'lag_one')):
            ctx.pair('estimator', U + fn, S + spec, [series(shape)], construct='%s of %r' % (fn, shape))
        ctx.pair('estimator', C + 'remove_none', S + 'remove_none', [series(shape)], construct='remove_none of %r' % shape)
        for kind in ('correlation', 'covariance'):
            for lag in (None, 0, 1, 2, 10):
                ctx.pair('estimator', C + 'acf', S + 'acf', [series(shape), (kind,), (lag,)], construct='acf %s of %r to lag %s' % (kind, shape, lag))
        for side in ('two.sided', 'left.sided', 'right.sided'):
            for cut in ('median', 'mean'):
                ctx.pair('estimator', W + 'runs_test', S + 'runs_test', [series(shape), (side,), (cut,)], known=S + 'known_runs_test', construct='runs_test %s around the %s' % (side, cut))
    ctx.pair('estimator', C + 'acf', S + 'acf', [series('....')], construct='acf by default')
    ctx.pair('estimator', W + 'runs_test', S + 'runs_test', [series('.....')], known=S + 'known_runs_test', construct='runs_test by default')
    for shape in ('.....', '...', '.', ''):
        for split in (0, 1, 2):
            if split <= len(shape):
                for lag in (None, 1, 2):
                    ctx.pair('estimator', U + 'calculate_mtd_revision_stats', S + 'revision', [revisions(len(shape), split), (lag,)],
                             construct='revision statistics of %d values, first revision %d, lag %s' % (len(shape), split, lag))
    for x, y, what in ((series('....', arr='x'), series('....', arr='y'), 'four pairs'), (series('...', arr='x'), series('...', arr='y'), 'three pairs')):
        ctx.pair('estimator', C + 'bicor', S + 'bicor', [x, y], strict=False, construct='bicor of ' + what)
        ctx.pair('estimator', C + 'bicor', S + 'bicor', [x, y, number('c')], strict=False, construct='bicor of %s, cutoff given' % what)
    r, n = number('r'), number('n')
    for tail in ('two-sided', 'one-sided', 'greater'):
        for method in ('ly', 'wetzels'):
            ctx.pair('estimator', C + 'bayesfactor_pearson', S + 'bayesfactor_pearson', [r, n, (tail,), (method,), number('kappa')], strict=False, construct='bayes factor %s %s' % (tail, method))
            ctx.pair('estimator', C + 'bayesfactor_pearson', S + 'bayesfactor_pearson', [(0.4,), (12,), (tail,), (method,), number('kappa')], strict=False, construct='bayes factor %s %s of given numbers' % (tail, method))
    ctx.pair('estimator', C + 'bayesfactor_pearson', S + 'bayesfactor_pearson', [(0.4,), n], strict=False, construct='bayes factor by default')
    for kind, spec in (('r', 'esci_r'), ('pearson', 'esci_r'), ('spearman', 'esci_r'), ('cohen', 'esci_two'), ('hedges', 'esci_two'), ('d', 'esci_two')):
        for level in ((), ((0.9,), (4,))):
            ctx.pair('estimator', C + 'compute_esci', S + spec, [number('stat'), n, number('m'), (False,), (kind,)] + list(level), strict=False, construct='compute_esci %s %s' % (kind, level))
    ctx.pair('estimator', C + 'compute_esci', S + 'esci_one', [number('stat'), n, number('m'), (True,), ('cohen',)], strict=False, construct='compute_esci paired')
    ctx.pair('estimator', C + 'compute_esci', S + 'esci_one', [number('stat'), n, (1,), (False,), ('cohen',)], strict=False, construct='compute_esci of one sample')
    for given, r in (('any r', number('r')), ('r of 0.4', (0.4,))):
        for size, n in (('any n', number('n')), ('12 pairs', (12,))):
            ctx.pair('estimator', C + 'power_corr', S + 'power_two', [r, n, (None,), (0.05,)], strict=False, construct='power_corr two-sided, %s, %s' % (given, size))
            ctx.pair('estimator', C + 'power_corr', S + 'power_one', [r, n, (None,), (0.05,), ('one-sided',)], strict=False, construct='power_corr one-sided, %s, %s' % (given, size))
    parts = ('remove_na', 'bicor', 'percbend', 'shepherd', 'compute_esci', 'power_corr', 'bayesfactor_pearson', '_postprocess_dataframe')
    for method in ('pearson', 'spearman', 'kendall', 'bicor', 'percbend', 'shepherd', 'other'):
        for tail in ('two-sided', 'one-sided'):
            ctx.pair('estimator', C + 'corr', S + 'corr', [series('....', arr='x'), series('....', arr='y'), (tail,), (method,)], opaque=parts, strict=False, construct='corr %s %s' % (method, tail))
    ctx.pair('estimator', C + 'corr', S + 'corr', [series('....', arr='x'), series('....', arr='y')], opaque=parts, strict=False, construct='corr by default')
    for a, b in (('...', '...'), ('.?..', '....'), ('....', '..??'), ('?..?', '.?..')):
        ctx.pair('estimator', C + 'remove_na', S + 'paired', [series(a, arr='x'), series(b, arr='y'), (True,)], strict=False, construct='remove_na of %r and %r' % (a, b))
    ctx.pair('estimator', C + 'shepherd', S + 'shepherd', ['x', 'y'], opaque=('bsmahal',), strict=False)
    ctx.pair('estimator', C + 'bsmahal', S + 'bsmahal', ['a', 'b', (3,)], strict=False, effects=[])
