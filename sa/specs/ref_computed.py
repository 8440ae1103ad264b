"""Reference definitions: goats.core.computed."""

MODULE = 'goats.core.computed'
COVERS = (
    'Method.__init__',
    'Method.parameters',
    'Method.name',
    'Method.compute',
    'Method.parse',
    'Method.__len__',
    'Method.__iter__',
    'Method.__getitem__',
    'Method.__bool__',
    'Quantity.__init__',
    'Quantity.dimensions',
    'Quantity.unit',
    'Quantity.parameters',
    'Quantity.__getitem__',
    'Quantity.__call__',
)


class Method:
    def __init__(self, __callable, **info):
        self.callable = __callable
        self.info = info
        self.signature = inspect.signature(self.callable)
        self._name = None
        self._parameters = None

    @property
    def parameters(self):
        if self._parameters is None:
            self._parameters = tuple(self.signature.parameters)
        return self._parameters

    @property
    def name(self):
        if self._name is None:
            self._name = str(self.callable)
        return self._name

    def compute(self, **dependencies):
        return self.callable(*self.parse(dependencies))

    def parse(self, dependencies):
        arrays = []
        floats = []
        for name in self.parameters:
            arg = dependencies[name]
            if isinstance(arg, variable.Quantity):
                arrays.append(numpy.array(arg))
            elif isinstance(arg, physical.Scalar):
                floats.append(float(arg))
            elif isinstance(arg, typing.Iterable) and all(
                (isinstance(a, physical.Scalar) for a in arg)
            ):
                floats.extend([float(a) for a in arg])
        return (*arrays, *floats)

    def __len__(self):
        return len(self.info)

    def __iter__(self):
        return iter(self.info)

    def __getitem__(self, __k):
        if __k in self.info:
            return self.info[__k]
        raise KeyError

    def __bool__(self):
        return bool(self.callable)


class Quantity:
    def __init__(self, __method, dimensions=None, unit=None):
        self.method = __method
        self._dimensions = dimensions
        self._unit = unit
        self._parameters = None

    @property
    def dimensions(self):
        return metadata.Dimensions(self._dimensions)

    @property
    def unit(self):
        return metadata.Unit(self._unit)

    @property
    def parameters(self):
        if self._parameters is None:
            self._parameters = tuple(self.method.parameters)
        return self._parameters

    def __getitem__(self, unit):
        if unit != self._unit:
            self._unit = unit
        return self

    def __call__(self, **quantities):
        return variable.Quantity(
            self.method.compute(**quantities),
            dimensions=self.dimensions,
            unit=self.unit,
        )
