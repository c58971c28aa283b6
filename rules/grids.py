"""C23 difficulty index, C24 wind and zonal diagnostics."""
from .common import Param
from .drivers import me
from .scorecard import plain
from .series import series
from .tost import number

D = 'metcalcpy.calc_difficulty_index.'
PL = 'metcalcpy.piecewise_linear.PiecewiseLinear'
S = 'specs.difficulty.'


def c23(ctx):
    how = dict(strict=False)
    for threshold in (number('threshold'), (5,), (12.5,), ('a',)):
        what = threshold[0] if isinstance(threshold, tuple) else 'given'
        args = ['spread', 'mean', threshold, 'members']
        ctx.pair('difficulty', D + '_input_check', S + 'usable', args + [number('reference'), number('balance')], **how, construct='input check, threshold %s' % what)
        for more in ([], [number('reference')], [number('reference'), number('balance')], [(0.25,), (0.4,)], [(0.25,), (1.5,)], [(0.25,), (-0.5,)], [(0.0,), (0.5,)]):
            ctx.pair('difficulty', D + '_difficulty_index', S + 'index', args + [me(PL)] + more, **how, soft={'_input_check': 'usable'}, construct='difficulty index, threshold %s, given %s' % (what, len(more)))
        for curve in (me(PL), (None,)):
            for more in ([], [number('reference')], [(0.25,)]):
                ctx.pair('difficulty', D + 'forecast_difficulty', S + 'forecast', args + [curve] + more, **how, soft={'_input_check': 'usable'},
                         construct='forecast difficulty, threshold %s, curve %s, given %s' % (what, 'none' if curve == (None,) else 'given', len(more)))
    fields = {'2x2': (2, 2), '2x1': (2, 1), '2': (2,)}
    for spread, shape in fields.items():
        for mean in (None, '2x2', '2x1'):
            m = number('mean') if mean is None else Param('mean', value=grid('m', fields[mean]))
            for members in ((2, 2, 3), (2, 1, 3), (2, 2)):
                args = [Param('spread', value=grid('s', shape)), m, (5,), Param('members', value=grid('f', members))]
                ctx.pair('difficulty', D + '_input_check', S + 'usable', args + [number('reference'), number('balance')], **how,
                         construct='input check, spread on %s, mean on %s, members on %s' % (spread, mean, members))
    for balance in (0, 1, 1.5, -0.5, 'a', 0.5):
        for reference in (1e-9, 2.0 ** -23, 0.5):
            args = [Param('spread', value=grid('s', (2, 2))), number('mean'), (5,), Param('members', value=grid('f', (2, 2, 3))), (reference,), (balance,)]
            ctx.pair('difficulty', D + '_input_check', S + 'usable', args, **how, construct='input check, reference %s, balance %s' % (reference, balance))
            ctx.pair('difficulty', D + '_difficulty_index', S + 'index', args[:4] + [me(PL)] + args[4:], **how,
                     construct='difficulty index on a small field, reference %s, balance %s' % (reference, balance))
        for curve in (me(PL), (None,)):
            ctx.pair('difficulty', D + 'forecast_difficulty', S + 'forecast', args[:4] + [curve] + args[4:5], **how,
                     construct='forecast difficulty on a small field, curve %s' % ('none' if curve == (None,) else 'given'))
    ctx.pair('curve', PL + '.values', S + 'weight', [me(PL), 'x'], **how)
    ctx.pair('curve', PL + '.get_ymax', S + 'highest', [me(PL)], **how)
    for more in ([], [('m',)], [('m',), number('left'), number('right'), ('name',)]):
        for x, y in (('....', '....'), ('...', '....'), ('.', '.'), ('', ''), ('..', '..')):
            ctx.pair('curve', PL + '.__init__', S + 'curve', [me(PL), series(x), series(y, sym='y')] + more, **how, check_args=True,
                     construct='curve of %d and %d points, %d given' % (len(x), len(y), len(more)))
    for xs in ([3.0, 9.0, 12.0], [3.0, 12.0, 9.0], [3.0, 3.0, 9.0], [9.0, 3.0], [1.0]):
        for x in ('x', number('x'), series('...', sym='p')):
            ctx.pair('curve', S + 'evaluated', S + 'interpolated', [plain(xs), series('.' * len(xs), sym='y'), ('feet',), number('left'), number('right'), x], **how,
                     at=PL + '.__init__', construct='curve through %s' % xs)


Z = 'specs.zonal.'
W = 'metcalcpy.pre_processing.waves.'
M = 'metcalcpy.pre_processing.directional_means.'


def grid(name, shape):
    """Numbers on a grid of the given shape."""
    def make(e, at=()):
        if len(at) == len(shape):
            v = e.sym(name + '@' + ','.join(map(str, at)), 'num')
            v.sc = True
            v.np = 'np'
            return v
        return e.new_list([make(e, at + (i,)) for i in range(shape[len(at)])], arr=True)
    return make


def dataset(shape):
    """A data set with wind and temperature fields."""
    def make(e):
        ds = e.new_map(base=e.sym('ds'))
        for k in ('T', 'U', 'V'):
            e.map_set(ds, e.const(k), grid(k, shape)(e))
        e.map_set(ds, e.const('azimuth'), grid('az', shape[1:2])(e))
        return ds
    return Param('ds', value=make)


def c24(ctx):
    how = dict(strict=False)
    args = me(None, T=('T',), u=('U',), v=('V',))
    for shape in ((2, 2, 1, 1), (1, 3, 2, 1), (1, 2, 1, 2), (1, 1, 1, 1)):
        ctx.pair('wind components', 'metcalcpy.process_tcrmw.compute_wind_components', Z + 'wind_components', [args, dataset(shape)], **how,
                 construct='wind components on %s' % (shape,))
    for more in ([], [Param('dimvar', kind='str')]):
        ctx.pair('mean', M + 'zonal_mean', Z + 'zonal_mean', ['dat'] + more, **how)
        ctx.pair('mean', M + 'meridional_mean', Z + 'meridional_mean', ['dat', number('lat1'), number('lat2')] + more, **how)
    for lat1, lat2 in ((60, 90), (-30.0, 30.0), (10, 10), (50, 20)):
        ctx.pair('mean', M + 'meridional_mean', Z + 'meridional_mean', ['dat', (lat1,), (lat2,)], **how, construct='mean from %s to %s' % (lat1, lat2))
    dim = Param('dimvar', kind='str')
    for pkg in ('scipy', 'xrft', 'other'):
        for waves in ((None,), 'waves'):
            told = dict(waves=waves, fftpkg=(pkg,))
            ctx.pair('waves', 'specs.zonal.told_coefficients', Z + 'coefficients_told', ['dat', dim, told['waves'], told['fftpkg']], **how,
                     soft={'_zonal_wave_coeffs_scipy': 'by_scipy', '_zonal_wave_coeffs_xrft': 'by_xrft'}, at=W + 'zonal_wave_coeffs',
                     construct='coefficients by %s of %s' % (pkg, 'all waves' if waves == (None,) else 'given waves'))
    ctx.pair('waves', W + 'zonal_wave_coeffs', Z + 'coefficients', ['dat'], **how, construct='coefficients by default')
    ctx.pair('waves', W + '_zonal_wave_coeffs_scipy', Z + 'by_scipy', ['dat', dim], **how)
    ctx.pair('waves', W + '_zonal_wave_coeffs_xrft', Z + 'by_xrft', ['dat', dim], **how)
    for waves in ((None,), 'waves'):
        what = 'all waves' if waves == (None,) else 'given waves'
        for deg in (True, False):
            ctx.pair('waves', W + 'zonal_wave_ampl_phase', Z + 'amplitude_phase', ['dat', dim, waves, (deg,)], opaque=('zonal_wave_coeffs',), **how,
                     construct='amplitude and phase of %s, degrees %s' % (what, deg))
        ctx.pair('waves', W + 'zonal_wave_contributions', Z + 'contributions', ['dat', dim, waves], opaque=('zonal_wave_coeffs',), **how, construct='contributions of %s' % what)
        for pkg in ('scipy', 'xrft'):
            ctx.pair('waves', W + 'zonal_wave_covariance', Z + 'covariance', ['dat1', 'dat2', Param('dimvar1', kind='str'), Param('dimvar2', kind='str'), waves, (pkg,)],
                     opaque=('zonal_wave_coeffs',), **how, construct='covariance of %s by %s' % (what, pkg))
    ctx.pair('waves', W + 'zonal_wave_ampl_phase', Z + 'amplitude_phase', ['dat'], opaque=('zonal_wave_coeffs',), **how, construct='amplitude and phase by default')
    ctx.pair('waves', W + 'zonal_wave_contributions', Z + 'contributions', ['dat'], opaque=('zonal_wave_coeffs',), **how, construct='contributions by default')
    ctx.pair('waves', W + 'zonal_wave_covariance', Z + 'covariance', ['dat1', 'dat2'], opaque=('zonal_wave_coeffs',), **how, construct='covariance by default')
