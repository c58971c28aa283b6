"""Forecast decision difficulty and its weighting curves."""
import numpy as np
from metcalcpy.piecewise_linear import PiecewiseLinear, IncompatibleLengths, UnsortedArray

SMALL = np.finfo(np.float32).eps


def usable(spread, mean, threshold, members, reference, balance):
    assert isinstance(threshold, (int, float, np.int32, np.float32))
    assert np.ndim(spread) == 2
    assert np.all(spread) >= SMALL
    shape = np.shape(members)
    if isinstance(mean, np.ndarray):
        assert np.shape(mean) == np.shape(spread)
    assert reference >= SMALL
    assert np.shape(spread) == tuple(np.squeeze(shape[0:-1]))
    assert isinstance(balance, (int, float, np.int32, np.float32))
    assert 0.0 <= balance
    assert balance <= 1.0


def index(spread, mean, threshold, members, curve, reference=SMALL, balance=0.5):
    """Half the weight of the mean times the relative spread (by its largest value) plus one less the distance from even odds."""
    usable(spread, mean, threshold, members, reference, balance)
    relative = spread / mean
    largest = np.nanmax([reference, np.nanmax(relative)])
    below = np.ma.masked_greater_equal(members, threshold).count(axis=-1) / np.shape(members)[-1]
    odds = 1.0 - np.abs(1.0 - balance - below)
    return curve.values(mean) * (relative / largest + odds) / 2


def index_at(self, spread, mean, threshold, members, curve, reference=SMALL):
    return index(spread, mean, threshold, members, curve, reference)


def forecast(spread, mean, threshold, members, curve, reference=SMALL):
    """Without a given curve the weight rises from 3 to 9 feet, is level to 12 and falls to nothing at 21."""
    if curve is None:
        curve = PiecewiseLinear([3.0, 9.0, 12.0, 21.0], [0.0, 1.5, 1.5, 0.0], xunits='feet', right=0.0, left=0.0, name='A6_1')
    return index(spread, mean, threshold, members, curve, reference)


def curve(self, x_domain, y_range, xunits='feet', left=np.nan, right=np.nan, name=''):
    if len(x_domain) < 2:
        raise IncompatibleLengths()
    if np.any(np.diff(x_domain) < 0):
        raise UnsortedArray()
    if len(x_domain) != len(y_range):
        raise IncompatibleLengths()
    self.x_domain = np.array(x_domain)
    self.y_range = np.array(y_range)
    self.xunits = xunits
    self.left = left
    self.right = right
    self.name = name


def weight(self, x):
    if not isinstance(x, np.ndarray):
        x = np.array(x)
    return np.reshape(np.interp(x.ravel(), self.x_domain, self.y_range, left=self.left, right=self.right), np.shape(x))


def highest(self):
    return np.max(self.y_range)


def evaluated(x_domain, y_range, units, left, right, x):
    return PiecewiseLinear(x_domain, y_range, units, left, right).values(x)


def interpolated(x_domain, y_range, units, left, right, x):
    if len(x_domain) < 2 or len(x_domain) != len(y_range):
        raise IncompatibleLengths()
    if np.any(np.diff(x_domain) < 0):
        raise UnsortedArray()
    x = np.array(x)
    return np.reshape(np.interp(x.ravel(), np.array(x_domain), np.array(y_range), left=left, right=right), np.shape(x))
