"""Reference definitions: goats.core.observed."""

MODULE = 'goats.core.observed'
COVERS = (
    'Quantity.__init__',
    'Quantity.array',
    'Quantity.data',
    'Quantity.parameters',
    'Quantity.__getitem__',
    'Quantity.__eq__',
)


class Quantity:
    def __init__(self, __data, indices, assumptions=None):
        self._data = __data
        self._indices = indices
        self._assumptions = assumptions or {}
        self._array = None
        self._parameters = None

    @property
    def array(self):
        if self._array is None:
            self._array = numpy.array(self.data).squeeze()
        return self._array

    @property
    def data(self):
        return self._data

    @property
    def parameters(self):
        if self._parameters is None:
            self._parameters = list(self._assumptions)
        return self._parameters

    def __getitem__(self, __x):
        if not isinstance(__x, (str, aliased.Group, metric.Unit)):
            raise TypeError
        if __x in self._indices:
            return self._indices[__x]
        if __x in self._assumptions:
            return self._assumptions[__x]
        return type(self)(self.data[__x], self._indices, self._assumptions)

    def __eq__(self, __o):
        if isinstance(__o, Quantity):
            return all(
                (
                    getattr(self, attr) == getattr(__o, attr)
                    for attr in ('data', '_indices', '_assumptions')
                )
            )
        return NotImplemented
