from . import boot, config, contrib, derived, drivers, equalize, grids, mode, outputs, prims, runs, safety, scorecard, scores, series, tost, validate, vertical, weight

FORMULA = ('Each statistic function is resolved through imports, abstracted into a value graph (helpers inlined, exception handlers and warning '
           'policy included) and compared with the value graph of its published formula; equality is decided by value numbering over all lanes. '
           'An obligation is one function; a function whose value, missing-value condition or handled failure differs is reported with its definition site.')
GVN = 'abstract interpretation to value graphs, compared with reference definitions by global value numbering'
NOTE = ('Decides, for every input within the abstraction, that the function computes its reference definition; trusts the reference definitions in specs/, '
        'the laws given to numpy/pandas operations, and the collision odds of 31-bit fingerprints over all lanes. Real arithmetic: floating-point '
        'rounding order is not distinguished. Loops over opaque sequences are abstracted by prototype elements.')


def formula(run, n, **kw):
    d = dict(run=run, explain=FORMULA, min_obligations=n, technique=GVN, note=NOTE)
    d.update(kw)
    return d


SAFETY = ('Every public statistic function is resolved through imports and abstracted with helpers, handlers and warning policy; the state at every way '
          'out of it is inspected: ')
EFFECT = 'abstract interpretation of every statistic function; effect and exception state at each exit'
EFFNOTE = ('Every way out of the function within the abstraction; trusts the failure conditions given to numpy/pandas operations. Loops over opaque '
           'sequences are abstracted by prototype elements.')


def effect(run, n, what, **kw):
    return formula(run, n, explain=SAFETY + what, technique=EFFECT, note=EFFNOTE, **kw)


ORDER = ('Each driver entry point is abstracted (helpers inlined, long computations kept as calls) under every relevant configuration and its ordered effects '
         'are compared with the reference sequence: ')

PROPS = {
    'C01': formula([scores.c01, prims.core], 58),
    'C02': formula([scores.c02, prims.core], 54),
    'C03': formula([scores.c03, prims.core], 44),
    'C04': formula([scores.c04, prims.core], 54),
    'C05': formula([scores.c05, prims.core], 30),
    'C06': formula([mode.c06, prims.core, prims.selection], 210),
    'C07': formula([scores.c07, prims.core, runs.curve], 25),
    'C08': formula([weight.c08, weight.joined], 252),
    'C09': effect([safety.c09], 700, 'no exception kind remains unhandled, and no value appears where the reference definition has none.'),
    'C10': effect([safety.c10], 380, 'warnings are not left escalated to errors.'),
    'C11': formula([boot.c11, runs.c11], 380),
    'C12': formula([boot.c12, runs.c12], 40),
    'C13': formula([outputs.c13], 95, explain=ORDER + 'seeding and drawing calls, and every reference of the loaded modules to a source of random numbers.',
                   technique='abstract interpretation of the entry points with ordered effects; resolved-reference scan of the import closure'),
    'C14': formula([equalize.c14], 200, explain='Event equalization is abstracted over every table of up to four rows whose case and series columns take any of a '
                    'few values, and the rows it returns are compared with those of the reference definition.'),
    'C15': formula([derived.c15, runs.c15, runs.single], 265),
    'C16': formula([derived.c16], 190),
    'C17': formula([scorecard.c17], 330),
    'C18': formula([tost.c18], 28),
    'C19': formula([prims.c19], 70),
    'C20': effect([safety.c20, runs.kept], 460, 'the arguments have the contents they came in with.'),
    'C21': formula([outputs.c21], 98, explain=ORDER + 'writing calls with their resolved arguments, on every path through the entry point.',
                   technique='abstract interpretation of the entry points; ordered effects compared with reference definitions by value numbering'),
    'C22': formula([vertical.c22], 105, explain='The interpolation and the heights are abstracted over labelled arrays of several shapes and orders of dimensions, with surfaces '
                   'rising by unknown steps, unknown fields, missing values and targets below, on, between and above the surfaces; labelled arrays '
                   'and units are modelled in specs/xr.py. The results are compared column by column with the reference definition.'),
    'C23': formula([grids.c23], 155),
    'C24': formula([grids.c24], 34),
    'C28': formula([contrib.c28], 240),
    'C25': formula([validate.c25], 45, explain='The cleanup, the validation run and the image comparison are abstracted with their helpers inlined; the files they '
                   'delete, write and compare are recorded with resolved arguments and compared with the reference definitions. Every reference '
                   'of the package to a deleting primitive must lie in a function compared this way.',
                   technique='effect analysis by abstract interpretation, compared with reference definitions by value numbering; resolved-reference scan'),
    'C26': formula([series.c26], 345),
    'C27': formula([config.c27], 33, explain='The reader is abstracted over a family of documents (plain and tagged values, adjacent, repeated and absent references, '
                   'nested containers) with the environment left unknown; PyYAML is modelled by its node graph with the resolvers and constructors '
                   'the code registers. The values are compared with those of the reference expansion.'),
    'C29': formula([runs.c29], 80, explain='The row-by-row part of each driver is abstracted over small tables and configurations with one or several series, groups, dates, numbers, statistics, '
                   'axes and derived curves; the rows each estimate is made from, the statistic in force and the place its result goes to are compared with the reference definition.'),
    'C30': formula([drivers.c30], 1150),
}

NOT_APPLICABLE = {
    'C40': 'coverage is a probability over populations and repetitions; no static argument over the source can bound it',
    'C41': 'depends on worker start method, scheduling and generator state at run time',
}
