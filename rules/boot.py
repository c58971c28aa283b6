"""C11 intervals, C12 resampling."""
from .common import Param

B = 'metcalcpy.bootstrap.'
S = 'specs.boot.'
SOFT = {'_bootstrap_distribution_cbb': 'distribution', '_get_confidence_interval_and_value': 'interval', '_bootstrap_sim_cbb': 'simulate',
        '_get_confidence_interval_and_value_eclv': 'interval_eclv', '_generate_distributions_cbb': 'resample', '_validate_arrays': 'valid', '_all_the_same': 'same'}


def results(e):
    v = e.module_frame(e.repo.get('metcalcpy.bootstrap')).env.get('BootstrapResults')
    return v.pay if v is not None and v.ty == 'cls' else None


HOW = dict(soft=SOFT, returns={'interval': results, 'interval_eclv': results})
NUM = lambda n: Param(n, kind='num')


def c11(ctx):
    for method in ('perc', 'pivotal', 'None', 'other'):
        ctx.pair('interval', B + '_get_confidence_interval_and_value', S + 'interval', ['members', Param('value', kind='scalar'), NUM('alpha'), (method,)],
                 **HOW, construct='interval by %s' % method)
        ctx.pair('interval', B + '_get_confidence_interval_and_value', S + 'interval', ['members', (None,), NUM('alpha'), (method,)],
                 **HOW, construct='interval by %s of a missing statistic' % method)
        ctx.pair('interval', B + '_get_confidence_interval_and_value_eclv', S + 'interval_eclv', ['members', 'value', NUM('alpha'), (method,)],
                 construct='interval of the relative value by %s' % method, **HOW)
        ctx.pair('interval', B + '_get_confidence_interval_and_value_eclv', S + 'interval_eclv', ['members', (None,), NUM('alpha'), (method,)],
                 construct='interval of a missing relative value by %s' % method, **HOW)
    ctx.pair('interval', B + '_all_the_same', S + 'same', ['members'])
    ctx.pair('bounds', B + 'BootstrapResults.__init__', S + 'init', [Param('self'), NUM('low'), 'value', NUM('high')], check_args=True)
    ctx.pair('bounds', B + 'BootstrapResults.__init__', S + 'init', [Param('self'), (None,), 'value', (None,)], check_args=True, construct='missing bounds')
    ctx.pair('estimate', B + 'bootstrap_and_value', S + 'estimate', ['values', 'func'], **HOW, construct='bootstrap_and_value by default')
    ctx.pair('estimate', B + 'bootstrap_and_value', S + 'estimate',
             ['values', 'func', NUM('alpha'), NUM('iterations'), 'batch', NUM('threads'), Param('method', kind='str'), Param('data', kind='bool'),
              Param('distributions', kind='bool'), NUM('block'), Param('eclv', kind='bool')], **HOW)
    ctx.pair('estimate', B + 'bootstrap_and_value_mode', S + 'estimate_mode', ['values', 'cases', 'func'], **HOW, construct='bootstrap_and_value_mode by default')
    ctx.pair('estimate', B + 'bootstrap_and_value_mode', S + 'estimate_mode',
             ['values', 'cases', 'func', NUM('alpha'), NUM('iterations'), 'batch', NUM('threads'), Param('method', kind='str'), Param('data', kind='bool'),
              Param('distributions', kind='bool'), NUM('block')], **HOW)


def rows(name, n):
    def make(e):
        return e.new_list([e.sym('%s%d' % (name, i)) for i in range(n)], arr=True)
    return make


def lists(k, n):
    return Param('values', value=lambda e: e.new_list([rows('v%d_' % j, n)(e) for j in range(k)]))


def c12(ctx):
    for n, block in ((1, 1), (4, 1), (5, 2), (5, 3), (6, 3), (4, 4), (3, 5), (7, 2)):
        for k in (1, 2):
            ctx.pair('resample', B + '_generate_distributions_cbb', S + 'resample', [lists(k, n), (2,), (block,)],
                     construct='%d rows, blocks of %d, %d arrays' % (n, block, k))
    ctx.pair('resample', B + '_generate_distributions_cbb', S + 'resample', [lists(1, 4), (3,)], construct='independent rows by default')
    draws(ctx)


def draws(ctx):
    for its, batch in ((5, 5), (5, 2), (6, 3), (1, 1), (2, 7)):
        for seed in ((None,), NUM('seed')):
            ctx.pair('simulate', B + '_bootstrap_sim_cbb', S + 'simulate', [lists(1, 4), Param('funcs', value=lambda e: e.new_list([e.sym('stat')])), (its,), (batch,), seed, NUM('block')],
                     **HOW, effects=[], construct='%d replicates in batches of %d%s' % (its, batch, '' if isinstance(seed, tuple) else ' seeded'))
    ctx.pair('distribution', B + '_bootstrap_distribution_cbb', S + 'distribution', ['values', 'funcs', NUM('iterations'), 'batch', NUM('threads'), NUM('block')],
             **HOW, effects=[])
