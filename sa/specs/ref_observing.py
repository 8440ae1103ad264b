"""Reference definitions: goats.core.observing."""

MODULE = 'goats.core.observing'
COVERS = (
    'Parameters.__init__',
    'Parameters.__abs__',
    'Parameters.__pos__',
    'Parameters.__neg__',
    'Parameters.__add__',
    'Parameters.__sub__',
    'Parameters.merge',
    'Parameters.__mul__',
    'Parameters.__rmul__',
    'Parameters.__truediv__',
    'Parameters.__pow__',
    'Parameters.__eq__',
    'Parameters.__hash__',
    'Parameters.__len__',
    'Parameters.__getitem__',
    'Quantity.__init__',
    'Quantity.parameters',
    'Observation.__init__',
    'Observation.array',
    'Observation.data',
    'Observation.parameters',
    'Observation.unit',
    'Observation.dimensions',
    'Observation.__getitem__',
    'Observation.__eq__',
    'Context.__init__',
    'Context.observe',
    'Context.constrain',
    'Context.__contains__',
    'Context.__len__',
    'Context.__iter__',
    'Context.keys',
    'Context.available',
    'Context.constraints',
    'Context.observable',
    'Context.get_unit',
    'Context.get_dimensions',
    'Context.get_parameters',
    'Context.get_quantity',
    'Context.get_metadata',
    'Context.get_attribute',
    'Target.__init__',
    'Target.apply',
    'Target.name',
    'Target.unit',
    'Observable.__init__',
    'Observable.observe',
    'Observable.target',
    'Observable.__getitem__',
    'Observable.unit',
    'Observable.dimensions',
    'Observable.parameters',
    'Observable.name',
    'Observable._checkable',
    'Observable.__eq__',
)


class Parameters:
    def __init__(self, *names):
        self._names = self._init(*names)

    def _init(self, *args):
        names = iterables.unique(*iterables.unwrap(args, wrap=tuple))
        if not names or all((isinstance(name, str) for name in names)):
            return names
        raise TypeError

    __abs__ = metadata.identity(abs)
    __pos__ = metadata.identity(standard.pos)
    __neg__ = metadata.identity(standard.neg)
    __add__ = metadata.identity(standard.add)
    __sub__ = metadata.identity(standard.sub)

    def merge(a, *others):
        names = list(a._names)
        for b in others:
            if isinstance(b, Parameters):
                names.extend(b._names)
        return Parameters(*iterables.unique(*names))

    __mul__ = merge
    __rmul__ = merge
    __truediv__ = merge

    def __pow__(self, other):
        if isinstance(other, numbers.Real):
            return self
        return NotImplemented

    def __eq__(self, other):
        return (
            isinstance(other, Parameters)
            and other._names == self._names
            or (
                isinstance(other, str)
                and len(self) == 1
                and (other == self._names[0])
            )
            or (
                isinstance(other, typing.Iterable)
                and len(other) == len(self)
                and all((i in self for i in other))
            )
        )

    def __hash__(self):
        return hash(self._names)

    def __len__(self):
        return len(self._names)

    def __getitem__(self, __i):
        return self._names[__i]


class Quantity:
    def __init__(
        self, __interface, dimensions=None, unit=None, parameters=None
    ):
        super().__init__(__interface, dimensions=dimensions, unit=unit)
        p = getattr(__interface, 'parameters', parameters or ())
        self._parameters = Parameters(*p)
        self.meta.register('parameters')

    @property
    def parameters(self):
        return self._parameters


class Observation:
    def __init__(self, __data, indices, assumptions=None):
        self._data = __data
        items = (
            indices.items(aliased=True)
            if isinstance(indices, aliased.Mapping)
            else indices.items()
        )
        tmp = {
            k: physical.Array(index.values, unit=index.unit)
            for k, index in items
            if index
        }
        self._axes = aliased.Mapping(tmp)
        self._indices = indices
        self._assumptions = assumptions or {}
        self._array = None
        self._parameters = None
        self._unit = None
        self._dimensions = None

    @property
    def array(self):
        if self._array is None:
            self._array = numpy.array(self.data).squeeze()
        return self._array

    @property
    def data(self):
        return self._data

    @property
    def parameters(self):
        if self._parameters is None:
            self._parameters = list(self._assumptions)
        return self._parameters

    @property
    def unit(self):
        return self._data.unit

    @property
    def dimensions(self):
        return self._data.dimensions

    def __getitem__(self, __x):
        if not isinstance(__x, (str, aliased.Group, metric.Unit)):
            raise TypeError
        if __x in self._axes:
            return self._axes[__x]
        if __x in self._assumptions:
            return self._assumptions[__x]
        return type(self)(self.data[__x], self._indices, self._assumptions)

    def __eq__(self, __o):
        if isinstance(__o, Observation):
            return all(
                (
                    getattr(self, attr) == getattr(__o, attr)
                    for attr in ('data', '_indices', '_assumptions')
                )
            )
        return NotImplemented


class Context:
    def __init__(self, *mappings, constraints=None):
        self._mappings = mappings
        self._given = constraints
        self._default = dict(constraints or {})
        self._user = {}
        self._cache = {}
        self._keys = None
        self._constraints = None
        self._available = None
        self._observable = None

    @abc.abstractmethod
    def observe(self, name):
        pass

    def constrain(self, new, append=False):
        if append:
            self._user.update(new)
        else:
            self._user = dict(new)
        self._constraints = None
        self._cache = {}
        return self

    def __contains__(self, __x):
        return __x in self.keys

    def __len__(self):
        return len(self.keys)

    def __iter__(self):
        return iter(self.keys)

    @property
    def keys(self):
        if self._keys is None:
            self._keys = {key for group in self.available for key in group}
        return self._keys

    @property
    def available(self):
        if self._available is None:
            constraints = self._collect_aliases(self.constraints)
            self._available = self.observable + tuple(constraints)
        return self._available

    @property
    def constraints(self):
        if self._constraints is None:
            constraints = {**self._default}
            for key, value in self._user.items():
                constraints.update({k: value for k in self._find_names(key)})
            self._constraints = types.MappingProxyType(constraints)
        return self._constraints

    def _find_names(self, key):
        names = {key, *reference.ALIASES.find(key, ())}
        if isinstance(self._given, aliased.Mapping) and key in self._given:
            names.update(self._given.alias(key, include=True))
        return names

    @property
    def observable(self):
        if self._observable is None:
            self._observable = tuple(self._collect_aliases(*self._mappings))
        return self._observable

    def _collect_aliases(self, *groups):
        return {
            tuple(reference.ALIASES.find(key, [key]))
            for keys in groups
            for key in keys
        }

    def get_unit(self, name):
        return metadata.Unit(self.get_metadata('unit', name))

    def get_dimensions(self, name):
        return metadata.Dimensions(self.get_metadata('dimensions', name))

    def get_parameters(self, name):
        return Parameters(self.get_metadata('parameters', name))

    def get_quantity(self, name):
        for mapping in self._mappings:
            if name in mapping:
                return mapping[name]
        return self.constraints.get(name)

    def get_metadata(self, name, target):
        if found := self.get_attribute(name, target):
            return found
        s = str(target)
        expression = symbolic.Expression(reference.NAMES.get(s, s))
        term = expression[0]
        built = self.get_attribute(name, term.base)
        if term.exponent != 1:
            built = built**term.exponent
        if len(expression) > 1:
            for term in expression[1:]:
                built *= self.get_attribute(name, term.base) ** term.exponent
        return built

    def get_attribute(self, name, target):
        for mapping in self._mappings:
            if target in mapping:
                return getattr(mapping[target], name, None)


class Target:
    def __init__(self, name, unit=None):
        self._name = name
        self._unit = metric.Unit(unit or '1')

    def apply(self, context):
        result = context.observe(self.name)
        if self.unit:
            return result[str(self.unit)]
        return result

    @property
    def name(self):
        return self._name

    @property
    def unit(self):
        return self._unit


class Observable:
    def __init__(self, name, context, unit=None):
        self._name = name
        self._context = context
        self._target = None
        self._unit = metadata.Unit(unit) if unit else None
        self._dimensions = None
        self._parameters = None

    def observe(self, **constraints):
        return self.target.apply(self._context.constrain(constraints))

    @property
    def target(self):
        if self._target is None:
            self._target = Target(self.name, self.unit)
        return self._target

    def __getitem__(self, __x):
        unit = (
            self.unit.norm[__x] if str(__x).lower() in metric.SYSTEMS else __x
        )
        self._target = None
        if unit == self._unit:
            return self
        return Observable(self.name, self._context, unit=unit)

    @property
    def unit(self):
        if self._unit is None:
            self._unit = self._context.get_unit(self.name)
        return self._unit

    @property
    def dimensions(self):
        if self._dimensions is None:
            self._dimensions = self._context.get_dimensions(self.name)
        return self._dimensions

    @property
    def parameters(self):
        if self._parameters is None:
            self._parameters = self._context.get_parameters(self.name)
        return self._parameters

    @property
    def name(self):
        return self._name

    _checkable = ('unit', 'dimensions', 'parameters')

    def __eq__(self, __o):
        if isinstance(__o, Observable):
            return all(
                (
                    getattr(self, attr) == getattr(__o, attr)
                    for attr in self._checkable
                )
            )
        return NotImplemented
