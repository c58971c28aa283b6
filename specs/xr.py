"""What labelled arrays, physical quantities and the moist-air functions do, as far as the analysed code uses them."""
import numpy as np
import pint
import model


class Locator:
    def __init__(self, array):
        self.array = array

    def __getitem__(self, key):
        return self.array[self.array.places(key)]

    def __setitem__(self, key, value):
        self.array[self.array.places(key)] = value


class Coordinates:
    def __init__(self, axes):
        self.axes = axes

    def __getitem__(self, name):
        values, attrs = self.axes[name]
        return DataArray(values, coords={name: (name, values, attrs)}, dims=[name], name=name, attrs=attrs)

    def __contains__(self, name):
        return name in self.axes

    def __iter__(self):
        return list(self.axes)

    def __len__(self):
        return len(self.axes)

    def keys(self):
        return list(self.axes)


def axis_of(name, given):
    """The values and attributes of one coordinate."""
    if isinstance(given, DataArray):
        return (given.data, given.attrs)
    if isinstance(given, tuple) and len(given) > 1:
        return (np.array(given[1]), given[2] if len(given) > 2 else {})
    return (np.array(given), {})


class DataArray:
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        if isinstance(data, DataArray):
            coords = data.coords if coords is None else coords
            dims = data.dims if dims is None else dims
            attrs = data.attrs if attrs is None else attrs
            data = data.data
        if isinstance(data, Quantity):
            data = data.magnitude
        if isinstance(data, list):
            data = np.array(data)
        axes = {}
        if isinstance(coords, Coordinates):
            for key in coords.axes:
                axes[key] = coords.axes[key]
        elif isinstance(coords, dict):
            for key in coords:
                axes[key] = axis_of(key, coords[key])
        elif coords is not None:
            if dims is None:
                dims = [pair[0] for pair in coords]
                for pair in coords:
                    axes[pair[0]] = axis_of(pair[0], pair[1])
            else:
                for dim, given in zip(dims, coords):
                    axes[dim] = axis_of(dim, given[1] if isinstance(given, tuple) else given)
        if isinstance(dims, str):
            dims = [dims]
        if dims is None:
            dims = [key for key in axes]
        self.data = data
        self.dims = tuple(dims)
        self.axes = axes
        self.attrs = {} if attrs is None else dict(attrs)

    @property
    def coords(self):
        return Coordinates(self.axes)

    @property
    def values(self):
        return self.data

    @property
    def shape(self):
        return np.shape(self.data) if len(self.dims) > 0 else ()

    @property
    def size(self):
        return np.size(self.data)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def dtype(self):
        return 'float64'

    @property
    def loc(self):
        return Locator(self)

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return [self[i] for i in range(len(self.data))]

    def __array__(self):
        return self.data

    def __float__(self):
        return float(self.data)

    def __int__(self):
        return int(self.data)

    def __bool__(self):
        return bool(self.data)

    def __abs__(self):
        return self.over(np.abs, (self,))

    def item(self):
        return self.data

    def to_numpy(self):
        return self.data

    def copy(self, deep=True):
        return DataArray(np.array(self.data) if len(self.dims) > 0 else self.data, self.coords, self.dims, attrs=dict(self.attrs))

    def load(self):
        return self

    def compute(self):
        return self

    def places(self, key):
        """Positions of labels."""
        found = {}
        if not isinstance(key, dict):
            given = key if isinstance(key, tuple) else (key,)
            key = {}
            for dim, label in zip(self.dims, given):
                key[dim] = label
        for dim in key:
            found[dim] = place(self.axes[dim][0], key[dim])
        return found

    def spread(self, dims):
        """The values with the axes in this order, those it has not of size one."""
        data = self.data
        if len(self.dims) == 0:
            return data
        order = [self.dims.index(dim) for dim in dims if dim in self.dims]
        if len(order) > 1:
            data = np.transpose(data, order)
        for i, dim in enumerate(dims):
            if dim not in self.dims:
                data = np.expand_dims(data, i)
        return data

    def at(self, key):
        """The index of the values, the axes that remain and the dimensions that remain."""
        if not isinstance(key, dict):
            given = key if isinstance(key, tuple) else (key,)
            key = {}
            for dim, label in zip(self.dims, given):
                key[dim] = label
        index = []
        axes = {}
        dims = []
        for name in self.axes:
            if name not in self.dims:
                axes[name] = self.axes[name]
        for dim in self.dims:
            k = key[dim] if dim in key else slice(None)
            if isinstance(k, DataArray):
                k = k.data
            index.append(k)
            if isinstance(k, slice) or isinstance(k, list) or isinstance(k, np.ndarray):
                dims.append(dim)
                if dim in self.axes:
                    axes[dim] = (self.axes[dim][0][k], self.axes[dim][1])
        return (index[0] if len(index) == 1 else tuple(index)), axes, dims

    def __getitem__(self, key):
        if isinstance(key, str):
            return self.coords[key]
        index, axes, dims = self.at(key)
        return DataArray(self.data[index], Coordinates(axes), dims, attrs=self.attrs)

    def __setitem__(self, key, value):
        index, axes, dims = self.at(key)
        if isinstance(value, DataArray):
            value = value.spread(dims)
        if isinstance(value, Quantity):
            value = value.magnitude
        self.data[index] = value

    def isel(self, indexers=None, drop=False, **more):
        return self[more if indexers is None else indexers]

    def sel(self, indexers=None, method=None, drop=False, **more):
        return self[self.places(more if indexers is None else indexers)]

    def drop(self, name):
        return DataArray(self.data, Coordinates({key: self.axes[key] for key in self.axes if key != name}), self.dims, attrs=self.attrs)

    def drop_vars(self, name):
        return self.drop(name)

    def transpose(self, *dims):
        return DataArray(self.spread(dims), self.coords, dims, attrs=self.attrs)

    def fillna(self, value):
        return where(np.isnan(self), value, self).named(self)

    def clip(self, min=None, max=None):
        r = self
        if min is not None:
            r = where(r < min, min, r)
        if max is not None:
            r = where(r > max, max, r)
        return r.named(self)

    def named(self, other):
        return DataArray(self.data, self.coords, self.dims, attrs=other.attrs)

    def where(self, cond, other=np.nan):
        return where(cond, self, other).named(self)

    def isnull(self):
        return np.isnan(self)

    def notnull(self):
        return ~np.isnan(self)

    def astype(self, kind):
        return DataArray(self.data.astype(kind), self.coords, self.dims, attrs=self.attrs)

    def mean(self, dim=None):
        return self.along(np.nanmean, dim)

    def sum(self, dim=None):
        return self.along(np.nansum, dim)

    def max(self, dim=None):
        return self.along(np.nanmax, dim)

    def min(self, dim=None):
        return self.along(np.nanmin, dim)

    def along(self, fn, dim):
        if dim is None:
            return DataArray(fn(self.data), dims=[])
        dims = [dim] if isinstance(dim, str) else list(dim)
        over = tuple([self.dims.index(d) for d in dims])
        kept = [d for d in self.dims if d not in dims]
        return DataArray(fn(self.data, axis=over[0] if len(over) == 1 else over), Coordinates({key: self.axes[key] for key in self.axes if key not in dims}), kept)

    def over(self, fn, args):
        """A function of each element of arrays aligned by the names of their dimensions."""
        dims = []
        axes = {}
        for a in args:
            if isinstance(a, DataArray):
                for dim in a.dims:
                    if dim not in dims:
                        dims.append(dim)
                for key in a.axes:
                    if key not in axes:
                        axes[key] = a.axes[key]
        parts = []
        for a in args:
            if isinstance(a, DataArray):
                parts.append(a.spread(dims))
            elif isinstance(a, Quantity):
                parts.append(a.magnitude)
            else:
                parts.append(a)
        return DataArray(fn(*parts), Coordinates(axes), dims)

    def __over__(self, fn, args):
        return self.over(fn, args)

    def __add__(self, other):
        return self.over(lambda a, b: a + b, (self, other))

    def __radd__(self, other):
        return self.over(lambda a, b: b + a, (self, other))

    def __sub__(self, other):
        return self.over(lambda a, b: a - b, (self, other))

    def __rsub__(self, other):
        return self.over(lambda a, b: b - a, (self, other))

    def __mul__(self, other):
        return self.over(lambda a, b: a * b, (self, other))

    def __rmul__(self, other):
        return self.over(lambda a, b: b * a, (self, other))

    def __truediv__(self, other):
        return self.over(lambda a, b: a / b, (self, other))

    def __rtruediv__(self, other):
        return self.over(lambda a, b: b / a, (self, other))

    def __pow__(self, other):
        return self.over(lambda a, b: a ** b, (self, other))

    def __neg__(self):
        return self.over(lambda a: -a, (self,))

    def __invert__(self):
        return self.over(lambda a: ~a, (self,))

    def __and__(self, other):
        return self.over(np.logical_and, (self, other))

    def __rand__(self, other):
        return self.over(np.logical_and, (self, other))

    def __or__(self, other):
        return self.over(np.logical_or, (self, other))

    def __ror__(self, other):
        return self.over(np.logical_or, (self, other))

    def __lt__(self, other):
        return self.over(lambda a, b: a < b, (self, other))

    def __le__(self, other):
        return self.over(lambda a, b: a <= b, (self, other))

    def __gt__(self, other):
        return self.over(lambda a, b: a > b, (self, other))

    def __ge__(self, other):
        return self.over(lambda a, b: a >= b, (self, other))

    def __eq__(self, other):
        return self.over(lambda a, b: a == b, (self, other))

    def __ne__(self, other):
        return self.over(lambda a, b: a != b, (self, other))


def place(values, label):
    if isinstance(label, DataArray):
        label = label.data
    if isinstance(label, slice):
        first = 0 if label.start is None else place(values, label.start)
        last = len(values) if label.stop is None else place(values, label.stop) + 1
        return slice(first, last)
    for i, value in enumerate(values):
        if value == label:
            return i
    raise KeyError(label)


def where(cond, x, y):
    for a in (cond, x, y):
        if isinstance(a, DataArray):
            return a.over(np.where, (cond, x, y))
    return np.where(cond, x, y)


def full_like(other, value):
    return DataArray(np.full(other.shape, value), other.coords, other.dims, attrs=other.attrs)


def zeros_like(other):
    return full_like(other, 0)


def ones_like(other):
    return full_like(other, 1)


UNITS = {'m': (1, 'length'), 'meter': (1, 'length'), 'meters': (1, 'length'), 'metre': (1, 'length'), 'km': (1000, 'length'), 'kilometer': (1000, 'length'),
         'cm': (0.01, 'length'), 'Pa': (1, 'pressure'), 'pascal': (1, 'pressure'), 'hPa': (100, 'pressure'), 'hectopascal': (100, 'pressure'),
         'kPa': (1000, 'pressure'), 'millibar': (100, 'pressure'), 'millibars': (100, 'pressure'), 'mbar': (100, 'pressure'), 'K': (1, 'temperature'),
         'kelvin': (1, 'temperature')}


class Quantity:
    """A number of some unit, kept in the base unit."""

    def __init__(self, value, unit=None):
        self.scale = 1
        self.kind = ''
        self.magnitude = value
        if unit is not None:
            if unit not in UNITS:
                raise pint.errors.UndefinedUnitError(unit)
            self.scale, self.kind = UNITS[unit]

    def to_base_units(self):
        r = Quantity(self.magnitude * self.scale)
        r.kind = self.kind
        return r

    @property
    def m(self):
        return self.magnitude

    def __truediv__(self, other):
        if isinstance(other, Quantity):
            r = Quantity(self.magnitude / other.magnitude)
            r.scale = self.scale / other.scale
            r.kind = '' if self.kind == other.kind else self.kind + '/' + other.kind
            return r
        r = Quantity(self.magnitude / other)
        r.scale = self.scale
        r.kind = self.kind
        return r

    def __mul__(self, other):
        if isinstance(other, Quantity):
            r = Quantity(self.magnitude * other.magnitude)
            r.scale = self.scale * other.scale
            r.kind = self.kind + '*' + other.kind
            return r
        r = Quantity(self.magnitude * other)
        r.scale = self.scale
        r.kind = self.kind
        return r

    def __rmul__(self, other):
        return self * other

    def __float__(self):
        if self.kind != '':
            raise pint.errors.DimensionalityError(self.kind)
        return float(self.magnitude * self.scale)


class UnitRegistry:
    def Quantity(self, value, unit=None):
        return Quantity(value, unit)

    def __call__(self, unit):
        return Quantity(1, unit)


def units(a):
    return a.attrs['units'] if 'units' in a.attrs else ''


def mixing_ratio_from_relative_humidity(pressure, temperature, relative_humidity):
    return pressure.over(lambda p, t, h: model.cellwise('mixing ratio in ' + units(pressure) + ',' + units(temperature) + ',' + units(relative_humidity), p, t, h),
                         (pressure, temperature, relative_humidity))


def virtual_temperature(temperature, mixing_ratio):
    return temperature.over(lambda t, r: model.cellwise('virtual temperature in ' + units(temperature), t, r), (temperature, mixing_ratio))
