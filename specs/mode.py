"""Object-based scores: a group is named by three letters - f/o/a (forecast, observation, either), s/c/a (simple, cluster, either),
m/u/a (matched, unmatched, either)."""
import numpy as np
from specs.prims import R, S, column_data_by_name_value


def members(t, k, group):
    filters = {}
    if group[0] == 'f':
        filters['fcst_flag'] = 1
    if group[0] == 'o':
        filters['fcst_flag'] = 0
    if group[1] == 's':
        filters['simple_flag'] = 1
    if group[1] == 'c':
        filters['simple_flag'] = 0
    if group[2] == 'm':
        filters['matched_flag'] = 1
    if group[2] == 'u':
        filters['matched_flag'] = 0
    return column_data_by_name_value(t, k, filters)


def plane(t, k, dim):
    """The objects of one dimensionality."""
    if dim == '':
        return t
    return column_data_by_name_value(t, k, {'object_type': dim})


def renamed(k, measure):
    """Volumes are read from the column called volume."""
    if measure == 'volume':
        out = []
        for name in k:
            if name == 'volume':
                out.append('area')
            else:
                out.append(name)
        return np.array(out)
    return k


def size(t, k, group, measure):
    """Number of objects of a group, or their total area or volume."""
    if measure == 'count':
        return members(t, k, group).shape[0]
    return S(members(t, k, group), k, 'area')


def ratio(t, k, dim, measure, top, bottom):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, top, measure) / size(t, k, bottom, measure))


def hits(t, k, dim, measure):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, 'asm', measure) / 2)


def misses(t, k, dim, measure):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, 'osu', measure))


def fas(t, k, dim, measure):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, 'fsu', measure))


def csi(t, k, dim, measure):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, 'asm', measure) / (size(t, k, 'asm', measure) + 2 * size(t, k, 'asu', measure)))


def pody(t, k, dim, measure):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, 'asm', measure) / (size(t, k, 'asm', measure) + 2 * size(t, k, 'osu', measure)))


def far(t, k, dim, measure):
    k = renamed(k, measure)
    t = plane(t, k, dim)
    return R(size(t, k, 'fsu', measure) / (size(t, k, 'asm', measure) / 2 + size(t, k, 'fsu', measure)))


def select(t, k, filters):
    """Rows whose value in every named column equals the wanted value."""
    rows = np.copy(t)
    try:
        for name, wanted in filters.items():
            at = np.where(k == name)[0]
            if at.size == 0:
                return 0
            rows = rows[rows[:, at[0]].astype(type(wanted)) == wanted]
    except IndexError:
        rows = []
    return rows
