"""Economic value of a forecast for cost/loss ratios (Richardson)."""
import numpy as np
from specs.prims import S, R


def economic_value(counts, ratios, with_base_rate):
    if len(counts) != 4:
        return None
    a, b, c, d = counts[0], counts[1], counts[2], counts[3]
    n = a + b + c + d
    f = b / (b + d)
    h = a / (a + c)
    s = (a + c) / n
    cl = np.sort(np.append(ratios, s)) if with_base_rate else np.sort(ratios)
    below = 1 - f - s / (1 - s) * (1 - cl) / cl * (1 - h)
    above = h - (1 - s) / s * cl / (1 - cl) * f
    return {'vmax': R(h - f), 'V': np.where(cl < s, below, above), 'F': R(f), 'H': R(h), 'cl': cl, 's': R(s), 'n': n}


def calculate_economic_value(counts, ratios, with_base_rate):
    return economic_value(counts, ratios, with_base_rate)


def calculate_eclv(table, names, thresh, line_type, ratios, base_rate_flag):
    if line_type == 'pct':
        if thresh is None:
            return None
        t = table[:, np.where(names == 'thresh_i')[0]]
        yes = table[:, np.where(names == 'oy_i')[0]]
        no = table[:, np.where(names == 'on_i')[0]]
        counts = [np.nansum(yes[t > thresh].astype(float)), np.nansum(no[t > thresh].astype(float)),
                  np.nansum(yes[t <= thresh].astype(float)), np.nansum(no[t <= thresh].astype(float))]
    elif line_type == 'ctc':
        counts = [S(table, names, x) for x in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on')]
    else:
        return None
    return economic_value(np.array(counts), ratios, base_rate_flag == 1)
