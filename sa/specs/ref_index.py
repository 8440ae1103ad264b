"""Reference definitions: goats.core.index."""

MODULE = 'goats.core.index'
COVERS = (
    'Data.__new__',
    'Data.__init__',
    'Quantity.__init__',
    'Quantity.__getitem__',
    'Quantity.__len__',
    'Quantity.values',
    'Quantity.unit',
    'Array.__new__',
    'Array.__init__',
    'Array.__array__',
    'Array.__getitem__',
)


class Data:
    def __new__(cls, points, **kwargs):
        if not all((isinstance(i, numbers.Integral) for i in points)):
            raise ValueError
        return super().__new__(cls)

    def __init__(self, points, values=None):
        self.points = tuple(points)
        self.values = self.points if iterables.missing(values) else values


class Quantity:
    def __init__(self, __data, unit=None):
        self._points = __data.points
        try:
            __data.values[0]
        except TypeError:
            self._values = tuple(__data.values)
        else:
            self._values = __data.values
        self._unit = metadata.Unit(unit) if unit else None

    def __getitem__(self, __i):
        return self._points[__i]

    def __len__(self):
        return len(self._points)

    @property
    def values(self):
        return self._values

    @property
    def unit(self):
        return self._unit


class Array:
    def __new__(cls, arg, **meta):
        if not meta and isinstance(arg, Array):
            return arg
        return super().__new__(cls)

    def __init__(self, arg, **meta):
        if not meta and isinstance(arg, Quantity):
            data = Data(arg._points, values=arg.values)
            return super().__init__(data, unit=arg.unit)
        super().__init__(arg, **meta)

    def __array__(self, *args, **kwargs):
        return numpy.array(self.values, *args, **kwargs)

    def __getitem__(self, arg):
        if not isinstance(arg, metadata.UnitLike):
            return super().__getitem__(arg)
        if self.unit is None:
            raise TypeError
        unit = (
            self.unit.norm[arg] if str(arg).lower() in metric.SYSTEMS else arg
        )
        if unit == self.unit:
            return self
        new = metadata.Unit(unit)
        values = self.values * (new // self.unit)
        if self.unit | new:
            return type(self)(Data(self._points, values=values), unit=new)
        raise ValueError
