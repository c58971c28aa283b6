"""C28 contributed climate indices."""
from analyzer.pair import build
from .common import Param
from .drivers import me
from .grids import grid

S = 'specs.spacetime.'
T = 'metcalcpy.contributed.spacetime.spacetime.'

NAN = float('nan')


def field(name, shape):
    return Param(name, value=grid(name, shape))


def numbers(values):
    return Param('numbers', value=lambda e: e.new_list([e.const(x) if x is not None else e.sym('n%d' % i, 'num') for i, x in enumerate(values)], arr=True))


def spectra(ctx):
    for shape, gaps in ((n, g) for n in (2, 3, 4, 6) for g in ((), (0,), (1,), (n - 1,), (0, n - 1), (1, 2))):
        if gaps and max(gaps) >= shape or shape - 1 in gaps and shape < 4:
            continue
        ctx.pair('smoothing', T + 'smooth121_1D', S + 'smooth121_1D', [numbers([NAN if i in gaps else None for i in range(shape)])], strict=False,
                 construct='1-2-1 of %d with gaps %s' % (shape, gaps))
    for n in (4, 5, 10, 24, 60):
        for pct in (0.05, 0.1, 0.2, 0.5, 1.0):
            ctx.pair('taper', T + 'window_cosbell', S + 'window_cosbell', [(n,), (pct,)], strict=False, construct='taper of %d by %s' % (n, pct))
    for shape in ((8, 1, 1), (8, 2, 3), (8, 3, 2)):
        ctx.pair('coherence', T + 'mjo_cross_coh2pha', S + 'coherence_and_phase', [field('spectra', shape)], check_args=True, strict=False, construct='coherence of %s' % (shape,))
    for freq in ((0., 0.25, 0.5), (0., 0.1, 0.2, 0.3), (-0.5, 0., 0.25, 0.5)):
        ctx.pair('smoothing', T + 'smooth121', S + 'smooth121', [field('spectra', (8, len(freq), 2)), numbers(freq)], check_args=[0], strict=False, construct='smoothed over %s' % (freq,))
    for lats in ((-10., 10.), (-10., 0., 10.), (10., 5., -5., -10.), (10., 5., 0., -5., -10.), (-10., -5., 0., 5., 10.)):
        for which in ('symm', 'asymm', 'anti-symm'):
            ctx.pair('parity', T + 'get_symmasymm', S + 'parts', [field('x', (2, len(lats), 2)), numbers(lats), (which,)], strict=False, construct='%s of %s' % (which, lats))
    for shape in ((3, 1, 3), (3, 2, 4), (4, 2, 3), (4, 1, 4), (6, 1, 4), (5, 2, 2)):
        x, y = field('x', shape), field('y', shape)
        ctx.pair('cross spectra', T + 'mjo_cross_segment', S + 'segment', [x, y], strict=False, construct='segment of %s' % (shape,))
        ctx.pair('cross spectra', T + 'mjo_cross_segment_realfft', S + 'segment_realfft', [x, y], strict=False, construct='real segment of %s' % (shape,))
    for shape, length, gap in (((7, 1, 3), 4, -1), ((9, 1, 2), 4, 0), ((8, 2, 2), 6, -2), ((9, 1, 3), 5, -2), ((6, 1, 2), 3, 1)):
        ctx.pair('averaged spectra', T + 'mjo_cross', S + 'cross', [field('x', shape), field('y', shape), (length,), (gap,)], strict=False,
                 construct='segments of %d every %d of %s' % (length, length + gap - 1, shape))


WAVES = [('Kelvin', 2.5, 20, 1, 14, 8, 90), ('kelvin', 2, 30, 1, 5, -9999, 90), ('KELVIN', 3, 20, 1, 14, 8, -9999), ('ER', 10, 40, -10, -1, 8, 90), ('er', 8, 50, -3, -1, 25, 50),
         ('MRG', 3, 10, -10, -1, 8, 90), ('mrg', 3, 96, -10, 3, 8, 90), ('IG0', 1, 5, 1, 15, 12, 50), ('ig0', 1, 8, 1, 5, 12, 50), ('IG1', 1.2, 2.6, -15, -1, 12, 90),
         ('ig1', 1.2, 6, 2, 1, 12, 90), ('IG2', 1.2, 3, -4, 4, 12, 90), ('ig2', 1.5, 3, 0, 3, 12, 50), ('MJO', 30, 96, 0, 9, -9999, -9999), ('', 2, 4, 3, 3, -9999, -9999)]


def filters(ctx):
    for shape, per_day in (((8, 9), 1), ((7, 12), 2), ((6, 8), 4)):
        for name, *limits in WAVES:
            ctx.pair('wave filter', T + 'kf_filter_mask', S + 'wave_mask', [field('coef', shape), (per_day,), *[(x,) for x in limits], (name,)], strict=False, check_args=[0],
                     construct='%s coefficients of %s, %d a day, %s' % (name, shape, per_day, limits))
    for name in ('Kelvin', 'ER', 'MRG', 'IG1', 'IG2'):
        shape, limits = (18, 26), (0.2, 60, -9, 8, 12, 90)
        ctx.pair('wave filter', T + 'kf_filter_mask', S + 'wave_mask', [field('coef', shape), (8,), *[(x,) for x in limits], (name,)], strict=False, construct='%s coefficients of many waves' % name)
    for shape in ((6, 4), (8, 5)):
        for name, *limits in WAVES[::4]:
            ctx.pair('wave filter', T + 'kf_filter', S + 'wave_filter', [field('data', shape), (2,), *[(x,) for x in limits], (name,)], strict=False, construct='%s of %s' % (name, shape))


M = 'metcalcpy.contributed.spacetime.matsuno_plot.'
C = 'specs.climate.'
I = 'metcalcpy.contributed.rmm_omi.compute_mjo_indices.'
A = 'metcalcpy.contributed.tropical_diagnostics.ccew_activity.'
W = 'metcalcpy.contributed.blocking_weather_regime.WeatherRegime.WeatherRegimeCalculation.'
U = 'metcalcpy.contributed.blocking_weather_regime.Blocking_WeatherRegime_util.'
B = 'metcalcpy.contributed.blocking_weather_regime.Blocking.BlockingCalculation.'


def root(e, args, kw, node):
    """fsolve: every root depends on its own starting value and on the function there."""
    given = e.val(kw['args']) if 'args' in kw else None
    more = e.listc(given).cells if given is not None and e.listc(given) is not None else [] if given is None else [given]
    start = e.val(args[1])
    if len(args) != 2 or set(kw) - {'args'} or e.listc(start) is None:
        return None
    at = e.listc(e.val(e.call(args[0], [start, *more], {}, node)))
    start = e.listc(start)
    if at is None or len(at.cells) != len(start.cells):
        return None
    found = [e.op('root', [x, y], 'num', sc=True) for x, y in zip(start.cells, at.cells)]
    for x in found:  # a frequency of some size
        x.offr, x.offp = 1 + x.fp.astype(float) / 2 ** 31, x.fp
    return e.new_list(found, n=start.n, arr=True)


SOLVE = {'scipy.optimize.fsolve': root}


def modes(ctx):
    for latitude in (0, 10., -30.):
        for top, count in ((2, 4), (3, 2), (50, 6)):
            for name in ('kelvin_mode', 'mrg_mode', 'eig_n_0'):
                ctx.pair('equatorial modes', M + name, C + name, [(25,), (latitude,), (top,), (count,)], strict=False, construct='%s at %s, %d of %d' % (name, latitude, count, top))
            for n in (1, 2):
                for name in ('er_n', 'eig_n', 'wig_n'):
                    ctx.pair('equatorial modes', M + name, C + name, [(25,), (n,), (latitude,), (top,), (count,)], model=SOLVE, strict=False,
                             construct='%s %d at %s, %d of %d' % (name, n, latitude, count, top))
    ctx.pair('equatorial modes', M + 'dispersion', C + 'dispersion', ['w', 'k', 'n', 'he', 'beta'], strict=False)


def indices(ctx):
    for n in (2, 3, 5):
        ctx.pair('projection', I + 'regress_vector_onto_eofs', C + 'projection', [field('vector', (n,)), field('first', (n,)), field('second', (n,))], strict=False,
                 construct='projection of %d' % n)
    for shape in ((2, 2), (3, 2), (2, 4)):
        ctx.pair('variance', I + 'zon_avg_variance', C + 'zonal_variance', [field('data', shape)], strict=False, construct='variance of %s' % (shape,))
    for size, n in ((4, 1), (4, 2), (7, 3), (12, 5), (5, 5)):
        ctx.pair('taper', I + 'taper_vector_to_zero', C + 'taper', [field('data', (size,)), (n,)], strict=False, check_args=[0], construct='ramps of %d over %d' % (n, size))
    for shape in ((2, 2, 3), (2, 3, 2), (1, 3, 3)):
        ctx.pair('activity skill', A + 'wave_skill', C + 'skill', [field('act', shape)], strict=False, construct='skill of %s' % (shape,))


def regimes(ctx):
    for labels in ((0, 1, 1, 0, 2), (1, 1), (3,)):
        for label in (0, 1, 3):
            ctx.pair('regime frequency', W + 'get_cluster_fraction', C + 'fraction', [Param('labels'), (label,)], strict=False,
                     impl_args=[me(W[:-1]), me(W[:-1], labels_=numbers(labels)), (label,)], spec_args=[numbers(labels), (label,)], construct='fraction of %d in %s' % (label, labels))
    for shape in ((2, 1, 1, 2), (2, 2, 2, 1), (3, 1, 2, 2)):
        lats, lons = field('lats', shape[2:3]), field('lons', shape[3:])
        ctx.pair('anomalies', W + 'weights_detrend', C + 'weighted', [lats, lons, field('data', shape)], impl_args=[me(W[:-1]), lats, lons, field('data', shape)], strict=False,
                 construct='anomalies of %s' % (shape,))
    for n, t, lat, lon in ((1, 2, 1, 2), (2, 3, 2, 1), (3, 2, 2, 2)):
        eof, pc = field('eof', (n, lat, lon)), field('pc', (t, n))
        ctx.pair('reconstruction', W + 'reconstruct_heights', C + 'heights', [eof, pc, (n,)], impl_args=[me(W[:-1], NUMPCS=(n,)), eof, pc, numbers([t, lat, lon])], strict=False,
                 construct='heights from %d patterns of %dx%d' % (n, lat, lon))
    for shape, count, step in (((1, 3), 2, 2), ((2, 4), 2, 2), ((1, 5), 3, 3), ((2, 3), 2, 1)):
        wr = field('regimes', shape)
        ctx.pair('regime frequency', W + 'compute_wr_freq', C + 'frequency', [wr, (count,), (step,)], impl_args=[me(W[:-1], wrnum=(count,), wr_tstep=(step,)), wr], strict=False,
                 construct='days of %d regimes in %d of %s' % (count, step, shape))
    for order in ((1, 2), (2, 1), (2, 3, 1), (3, 1, 2), (1, 3, 2)):
        n = len(order)
        ctx.pair('regime order', U + 'reorder_fcst_regimes', C + 'reorder', [field('patterns', (n, 2, 1)), field('fractions', (n,)), field('regimes', (2, 2)), (n,), numbers(order)], strict=False,
                 construct='regimes in order %s' % (order,))
    for shape, cbl, shifts, width in (((1, 7, 2), (87, 86), (0,), 2), ((2, 8, 1), (86,), (-1, 0, 1), 2), ((1, 9, 1), (86.5,), (-1, 0, 1), 4), ((1, 9, 2), (85, 86), (1, -1), 4)):
        z, line = field('z', shape), numbers(cbl)
        ctx.pair('blocking', B + 'run_mod_blocking1d', C + 'blocked', [z, line, (list(shifts),), (width,)],
                 impl_args=[me(B[:-1], lat_delta=(list(shifts),), n_s_limits=(width,)), z, line, field('lat', shape[1:2]), field('lon', shape[2:]), ('PH',)], strict=False,
                 construct='blocking of %s at %s by %s' % (shape, cbl, shifts))


def mapping(e, ents):
    m = e.new_map()
    for k, v in ents.items():
        e.map_set(m, e.const(k), v)
    return m


def fitted(count, places, labels):
    """k-means with given labels and unknown centres."""
    def fit(e, args, kw, node):
        return build(e, me(W[:-1], cluster_centers_=field('centres', (count, places)), labels_=numbers(labels)))
    return fit


def clusters(ctx):
    for shape, labels in (((1, 5, 1, 2), (0, 1, 1, 1, 0)), ((2, 3, 2, 1), (2, 1, 2, 2, 1, 0)), ((1, 6, 1, 1), (0, 1, 1, 2, 2, 2)), ((2, 3, 1, 2), (1, 0, 1, 0, 0, 2)), ((1, 6, 1, 1), (0, 0, 0, 1, 2, 2)), ((1, 6, 1, 1), (0, 0, 1, 1, 1, 2))):
        n = max(labels) + 1
        ctx.pair('regime order', W + 'run_K_means', C + 'clusters', [field('centres', (n, shape[2] * shape[3])), numbers(labels), (n,), (shape,)], strict=False,
                 impl_args=[me(W[:-1], wrnum=(n,)), field('data', (shape[0] * shape[1], shape[2] * shape[3])), 'times', (shape,)], model={'m:fit': fitted(n, shape[2] * shape[3], labels)},
                 construct='regimes of %s' % (labels,))


def alike(ctx):
    for n, shape in ((2, (1, 2)), (2, (2, 2)), (3, (1, 3))):
        ctx.pair('regime order', U + 'reorder_fcst_regimes_correlate', C + 'reorder_alike',
                 [field('obs', (n, *shape)), field('patterns', (n, *shape)), field('fractions', (n,)), field('regimes', (1, 2)), (n,)], strict=False, construct='%d regimes by correlation over %s' % (n, shape))


def pairs(ctx):
    for shape in ((1, 1, 1), (1, 2, 2), (2, 1, 1)):
        years = lambda what: Param(what, value=lambda e: mapping(e, {k: e.new_list([e.new_list([e.sym('%s.%s%d%d' % (what, k, i, j), 'str') for j in range(shape[1])]) for i in range(shape[0])])
                                                                   for k in ('valid', 'lead', 'init')}))
        names = [(x,) for x in ('GFS_MODEL', 'a description', 'BLOCK', 'count', 'L500', 'IBL', 'n', 'P500', 'NHEM')]
        ctx.pair('matched pairs', U + 'write_mpr_file', C + 'pairs', [field('obs', shape), field('fcst', shape), field('lats', shape[2:]), field('lons', shape[2:]), years('o'), years('f'), *names, ('500',), ('out',)],
                 strict=False, effects=[], construct='matched pairs of %s' % (shape,))


def c28(ctx):
    spectra(ctx)
    filters(ctx)
    modes(ctx)
    indices(ctx)
    regimes(ctx)
    clusters(ctx)
    alike(ctx)
    pairs(ctx)
