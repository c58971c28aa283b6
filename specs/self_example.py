"""Examples the engine must decide on every run: X, an equivalent rewriting of X and a broken X."""
import numpy as np


def half(x, y):
    return (x + y) / 2


def half_same(x, y):
    h = 0.5
    return y * h + h * x


def half_bug(x, y):
    return x + y / 2


def swapped(x, y):
    return {'lower': x, 'upper': y}


def swapped_same(x, y):
    d = dict(upper=y)
    d['lower'] = x
    return d


def swapped_bug(x, y):
    return {'lower': y, 'upper': x}


def guard(x, y):
    if y == 0:
        return None
    return x / y


def guard_same(x, y):
    if not y == 0:
        r = x / y
    else:
        r = None
    return r


def guard_bug(x, y):
    if y < 0:
        return None
    return x / y


def swallow(x, y):
    out = []
    for v in x:
        if v > y:
            out.append(v * v)
    return out


def swallow_same(x, y):
    return [v ** 2 for v in x if y < v]


def swallow_bug(x, y):
    return [v ** 2 for v in x if y <= v]


def order(x, y):
    return np.sqrt(x - y)


def order_same(x, y):
    return (-y + x) ** 0.5


def order_bug(x, y):
    return np.sqrt(y - x)
