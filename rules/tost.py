"""C18: paired equivalence testing."""
from .common import Param, _rhu

U = 'metcalcpy.util.utils'
T = 'metcalcpy.util.tost_paired'


def number(name):
    def make(e):
        v = e.sym(name, 'num')
        v.sc = True
        v.np = 'py'
        return v
    return Param(name, value=make)


NUMBERS = [number(x) for x in 'n m1 m2 sd1 sd2 r12 low high'.split()]


def c18(ctx):
    for mod, spec in ((U, 'tost'), (T, 'tost_of_spread')):
        for tail, given in (('the given level', [number('alpha')]), ('the default level', [])):
            ctx.pair('equivalence test', mod + '.tost_paired', 'specs.tost.' + spec, NUMBERS + given, hooks={'round_half_up': _rhu},
                     construct='%s.tost_paired at %s' % (mod, tail))
        for n, level in ((2, 0.05), (9, 0.1), (30, None)):
            given = [(n,)] + NUMBERS[1:] + ([(level,)] if level else [])
            ctx.pair('equivalence test', mod + '.tost_paired', 'specs.tost.' + spec, given, hooks={'round_half_up': _rhu},
                     construct='%s.tost_paired of %d pairs' % (mod, n))
            tight = [(n,), NUMBERS[1], NUMBERS[2], (1.5,), (2.0,), (0.25,)] + NUMBERS[6:] + ([(level,)] if level else [])
            ctx.pair('equivalence test', mod + '.tost_paired', 'specs.tost.' + spec, tight, hooks={'round_half_up': _rhu},
                     construct='%s.tost_paired of %d pairs of known spread' % (mod, n))
        for fn, names in (('pt', 'q df'), ('qt', 'p df')):
            args = [number(x) for x in names.split()]
            ctx.pair('t distribution', mod + '.' + fn, 'specs.tost.' + fn, args, construct='%s.%s' % (mod, fn))
            ctx.pair('t distribution', mod + '.' + fn, 'specs.tost.' + fn, args + [number('ncp')], construct='%s.%s non-central' % (mod, fn))
        for flag in (True, False):
            ctx.pair('t distribution', mod + '.pt', 'specs.tost.pt', [number('q'), number('df'), (0,), (flag,)], construct='%s.pt lower_tail=%s' % (mod, flag))
