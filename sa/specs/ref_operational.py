"""Reference definitions: goats.core.operational."""

MODULE = 'goats.core.operational'
COVERS = (
    'Argument.__new__',
    'Argument.__init__',
    'Argument.__bool__',
    'Argument.__float__',
    'Argument.__int__',
    'Argument.__iter__',
    'Argument.__len__',
    'Argument.__getitem__',
    'Argument.__measure__',
    'Argument.data',
    'Argument.unit',
    'Argument.__eq__',
)


class _HasDataAndUnit:
    __slots__ = ()

    @property
    @abc.abstractmethod
    def data(self):
        pass

    @property
    @abc.abstractmethod
    def unit(self):
        pass


class Argument:
    def __new__(cls, *args, **kwargs):
        if not kwargs and len(args) == 1:
            arg = args[0]
            valid = (numbers.Integral, str, _HasDataAndUnit)
            if not iterables.hastype(arg, valid, strict=True):
                raise TypeError
        return super().__new__(cls)

    def __init__(self, *args, **kwargs):
        data, unit = self._init_from(*args, **kwargs)
        if unit:
            self._data = numpy.array(data, ndmin=1)
            self._unit = metadata.Unit(unit)
        else:
            self._data = [data] if isinstance(data, str) else data
            self._unit = None

    def _init_from(self, *args, **kwargs):
        if len(args) == 1:
            arg = args[0]
            if isinstance(arg, _HasDataAndUnit):
                return (arg.data, arg.unit)
            return (arg, kwargs.get('unit'))
        if len(args) != 2:
            raise TypeError
        if kwargs:
            raise TypeError
        return args

    def __bool__(self):
        if isinstance(self.data, numbers.Real):
            if isinstance(self.data, bool):
                return self.data
            return True
        if isinstance(self.data, str):
            return bool(self.data.strip())
        return bool(self.data)

    def __float__(self):
        if self.unit:
            return self._cast_to(float)
        return NotImplemented

    def __int__(self):
        return self._cast_to(int)

    def _cast_to(self, __type):
        try:
            nv = len(self.data)
        except TypeError:
            nv = 0
        if nv > 1:
            errmsg = f"Can't convert data with {nv} values to {__type}"
            raise NumericCastError(errmsg)
        if nv == 1:
            return __type(self.data[0])
        try:
            return __type(self.data)
        except ValueError as err:
            raise ValueError

    def __iter__(self):
        try:
            return iter(self.data)
        except TypeError:
            return iter([self.data])

    def __len__(self):
        try:
            return len(self.data)
        except TypeError:
            return 1

    def __getitem__(self, index):
        if isinstance(index, typing.SupportsIndex) and index < 0:
            index += len(self)
        data = self.data[index]
        try:
            iter(data)
        except TypeError:
            iterable = False
        else:
            iterable = True
        unit = self.unit
        return (
            [physical.Scalar(value, unit=unit) for value in data]
            if iterable
            else physical.Scalar(data, unit=unit)
        )

    def __measure__(self):
        return measurable.Measurement(
            numpy.array(self._data, ndmin=1), self.unit or '1'
        )

    @property
    def data(self):
        try:
            nv = len(self._data)
        except TypeError:
            nv = 0
        if nv == 1:
            return self._data[0]
        return self._data

    @property
    def unit(self):
        return self._unit

    def __eq__(self, other):
        if isinstance(other, Argument):
            same_data = other.data == self.data
            if self.unit:
                return same_data and other.unit == self.unit
            return same_data
        return other == self.data
