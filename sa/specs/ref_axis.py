"""Reference definitions: goats.core.axis."""

MODULE = 'goats.core.axis'
COVERS = (
    'Indexer.__init__',
    'Indexer.compute',
    'Indexer.normalize',
    'indexer',
    'Quantity.__new__',
    'Quantity.__init__',
    'Quantity.unit',
    'Quantity.reference',
    'Quantity.index',
    'Quantity.__getitem__',
)


class Indexer:
    def __init__(self, method, size):
        self._method = method
        self.size = size

    def compute(self, *args, **kwargs):
        return self._method(*args, **kwargs)

    def normalize(self, *user):
        if not user:
            return range(self.size)
        if isinstance(user[0], slice):
            return range(*user[0].indices(self.size))
        if isinstance(user[0], range):
            return user[0]
        return user


def indexer(n):

    def method(targets):
        try:
            indices = [int(arg) for arg in targets]
            if all((0 <= idx < n for idx in indices)):
                return index.Data(indices)
        except TypeError as err:
            raise IndexTypeError
        raise ValueError

    method.__qualname__ = 'default'
    return Indexer(method, n)


class Quantity:
    def __new__(cls, __a, **meta):
        if not meta and isinstance(__a, cls):
            return __a
        return super().__new__(cls)

    def __init__(self, __a, unit=None):
        if __a is self:
            return
        self._indexer = __a
        self._unit = metadata.Unit(unit) if unit else None
        self._reference = None

    @property
    def unit(self):
        return self._unit

    @property
    def reference(self):
        if self._reference is None:
            self._reference = index.Array(self.index())
        return self._reference

    def index(self, *args, **kwargs):
        targets = self._indexer.normalize(*args)
        unit = kwargs.pop('unit', self.unit)
        if unit:
            data = self._indexer.compute(targets, unit, **kwargs)
            return index.Quantity(data, unit=unit)
        data = self._indexer.compute(targets, **kwargs)
        return index.Quantity(data, unit=unit)

    def __getitem__(self, arg):
        if self.unit is None:
            raise TypeError
        unit = (
            self.unit.norm[arg] if str(arg).lower() in metric.SYSTEMS else arg
        )
        if unit == self.unit:
            return self
        new = metadata.Unit(unit)
        if self.unit | new:
            return type(self)(self._indexer, unit=new)
        raise ValueError
