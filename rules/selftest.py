"""A tiny positive and negative example decided on every run: a blind engine must not pass."""
from analyzer.pair import check_pair


def selftest(ctx):
    for bad in ('half', 'swapped', 'guard', 'swallow', 'order'):
        good = check_pair(ctx.repo, 'specs.self_example.%s_same' % bad, 'specs.self_example.%s' % bad, ['x', 'y'])
        diff = check_pair(ctx.repo, 'specs.self_example.%s_bug' % bad, 'specs.self_example.%s' % bad, ['x', 'y'])
        if good.status != 'ok' or diff.status != 'differs':
            ctx.find('selftest', bad, '', 'the engine no longer tells the example apart (%s/%s)' % (good.status, diff.status))
