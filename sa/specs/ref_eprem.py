"""Reference definitions: goats.eprem."""

MODULE = 'goats.eprem'
COVERS = (
    'Variables.__init__',
    'Variables.build',
    'standardize',
    'Axes.__init__',
    'Axes.__getitem__',
    'Axes.resolve',
    'Axes.variables',
    'Axes.system',
    'Axes.shell',
    'Axes.time',
    'Axes.mu',
    'Axes.energy',
    'Axes.species',
    'Functions.__init__',
    'Functions.__getitem__',
    'Functions.get_method',
    'Functions.get_name',
    'Functions.get_unit',
    'Functions.get_dimensions',
    'Context.__init__',
    'Context.observe',
    'Context.compute',
    'Context.get_dependency',
    'Context.get_observable',
    'Context._axis_indices',
    'Context.interpolate',
    'Context.coordinates',
    'Context.get_index',
    'Context.compute_index',
    'Context.get_value',
    'Context.compute_value',
    'Context.parameters',
    'Context.variables',
    'Context.axes',
    'Context.functions',
    'Context.constants',
    'Observer._unobservable',
    'Observer.__init__',
    'Observer.update',
    'Observer.confpath',
    'Observer.datapath',
    'Observer.radius',
    'Observer.theta',
    'Observer.phi',
    'Observer.time',
    'Observer.shell',
    'Observer.species',
    'Observer.energy',
    'Observer.mu',
    'Stream._templates',
    'Point._templates',
    '_UNIT_MAP',
)


_UNIT_MAP = {
    'julian date': 'day',
    'shell': '1',
    'cos(mu)': '1',
    'e-': 'e',
    '# / cm^2 s sr MeV': '# / cm^2 s sr MeV/nuc',
}


class Variables:
    def __init__(self, __data, system=None):
        super().__init__(__data, system=system)

    def build(self, __v):
        name = __v.name
        v = variable.Quantity(
            __v.data, dimensions=__v.dimensions, unit=standardize(__v.unit)
        )
        return (
            v[self.system['mass'].unit]
            if name in {'mass', 'm'}
            else v[str(self.system)]
        )


def standardize(unit):
    unit = _UNIT_MAP.get(str(unit), unit)
    if '/' in unit:
        num, den = str(unit).split('/', maxsplit=1)
        unit = ' / '.join((num.strip(), f'({den.strip()})'))
    return unit


class Axes:
    def __init__(self, __data, system=None):
        self._system = metric.System(system or 'mks')
        self._variables = Variables(__data, system=system)
        self._names = __data.available('axes').canonical
        self._time = None
        self._shell = None
        self._species = None
        self._energy = None
        self._mu = None
        indexers = {
            'time': self.time,
            'shell': self.shell,
            'species': self.species,
            'energy': self.energy,
            'mu': self.mu,
        }
        super().__init__(indexers, aliases=reference.ALIASES)

    def __getitem__(self, __k):
        if __k in self.keys():
            method = super().__getitem__(__k)
            try:
                unit = self.variables[__k].unit
            except KeyError:
                unit = None
            return axis.Quantity(method, unit=unit)
        raise KeyError

    def resolve(self, names, mode='strict'):
        ordered = tuple((name for name in self._names if name in names))
        if mode == 'strict':
            return ordered
        extra = tuple((name for name in names if name not in ordered))
        if not extra:
            return ordered
        if mode == 'append':
            return ordered + extra
        raise ValueError

    @property
    def variables(self):
        return self._variables

    @property
    def system(self):
        return self._system

    @property
    def shell(self):
        if self._shell is None:

            def method(targets, unit):
                return index.Data(targets)

            self._shell = axis.Indexer(method, len(self.variables['shell']))
        return self._shell

    @property
    def time(self):
        if self._time is None:
            this = self.variables['time']
            self._time = axis.Indexer(self._build_coordinate(this), len(this))
        return self._time

    @property
    def mu(self):
        if self._mu is None:
            this = self.variables['mu']
            self._mu = axis.Indexer(self._build_coordinate(this), len(this))
        return self._mu

    @property
    def energy(self):
        if self._energy is None:
            this = self.variables['energy']

            def method(targets, unit, species=0):
                s = self.species.compute([species]).points
                t = (
                    numpy.squeeze(targets[s, :])
                    if getattr(targets, 'ndim', None) == 2
                    else targets
                )
                array = numpy.squeeze(this[s, :]) if this.ndim == 2 else this
                compute = self._build_coordinate(array)
                return compute(t, unit)

            size = this.shape[this.ndim - 1]
            self._energy = axis.Indexer(method, size)
        return self._energy

    @property
    def species(self):
        if self._species is None:
            mass = self.variables['mass']['nuc']
            charge = self.variables['charge']['e']
            symbols = fundamental.elements(mass, charge)

            def method(targets):
                indices = [
                    symbols.index(target)
                    if isinstance(target, str)
                    else int(target)
                    for target in targets
                ]
                return index.Data(
                    indices, values=[symbols[i] for i in indices]
                )

            self._species = axis.Indexer(method, len(symbols))
        return self._species

    def _build_coordinate(self, this):

        def method(targets, unit):
            converted = this[unit]
            if not targets:
                return index.Data(
                    range(len(converted)), values=numpy.array(converted)
                )
            if all((isinstance(t, typing.SupportsIndex) for t in targets)):
                return index.Data(
                    targets, values=numpy.array(converted)[list(targets)]
                )
            measured = measurable.measure(targets)
            if measured.unit != '1':
                array = physical.Array(measured.data, unit=measured.unit)
            else:
                array = physical.Array(measured.data, unit=unit)
            values = numpy.array(array[converted.unit])
            indices = [
                numerical.find_nearest(converted, float(value)).index
                for value in values
            ]
            return index.Data(indices, values=values)

        return method


class Functions:
    def __init__(self, axes, variables):
        super().__init__(computed.registry, aliases=reference.ALIASES)
        self.axes = axes
        self.variables = variables
        self._cache = {}

    def __getitem__(self, __k):
        if 'quantity' not in self._cache:
            self._cache['quantity'] = {}
        if __k in self._cache['quantity']:
            return self._cache['quantity'][__k]
        quantity = computed.Quantity(
            self.get_method(__k),
            dimensions=self.get_dimensions(__k),
            unit=self.get_unit(__k),
        )
        self._cache['quantity'][__k] = quantity
        return quantity

    def get_method(self, key):
        try:
            this = super().__getitem__(key).copy()
        except KeyError:
            return None
        else:
            method = this.pop('method')
            return computed.Method(method, **this)

    def get_name(self, key):
        return self.alias(key, include=True)

    def get_unit(self, key):
        this = reference.METADATA.get(key, {}).get('quantity')
        return self.variables.system.get_unit(quantity=this)

    def get_dimensions(self, key):
        if 'dimensions' not in self._cache:
            self._cache['dimensions'] = {}
        if key in self._cache['dimensions']:
            return self._cache['dimensions'][key]
        method = self.get_method(key)
        self._removed = self._get_metadata(method, 'removed')
        self._added = self._get_metadata(method, 'added')
        self._accumulated = []
        dimensions = self._gather_dimensions(method)
        self._cache['dimensions'][key] = dimensions
        return dimensions

    def _gather_dimensions(self, target):
        for parameter in target.parameters:
            if parameter in self.variables:
                self._accumulated.extend(self.variables[parameter].dimensions)
            elif method := self.get_method(parameter):
                self._removed.extend(self._get_metadata(method, 'removed'))
                self._added.extend(self._get_metadata(method, 'added'))
                self._accumulated.extend(self._gather_dimensions(method))
        unique = set(self._accumulated) - set(self._removed) | set(self._added)
        return self.axes.resolve(unique, mode='append')

    def _get_metadata(self, method, key):
        value = method.get(key)
        return list(iterables.whole(value)) if value else []


class Context:
    def __init__(self, variables, axes, constants):
        functions = Functions(axes, variables)
        super().__init__(variables, functions, constraints=constants)
        self._constants = constants
        self._variables = variables
        self._axes = axes
        self._functions = functions
        self._system = variables.system
        self._parameters = None
        self._coordinates = None

    def observe(self, name):
        result = self._observe(name)
        return observing.Observation(
            result,
            indices={k: self.get_index(k) for k in result.dimensions},
            assumptions={k: self.get_value(k) for k in result.parameters},
        )

    def _observe(self, key):
        result = self._build(key)
        if any(
            (k in self.coordinates for k in reference.ALIASES.find(key, []))
        ):
            return self._subscript(result)
        needed = self._compute_interpolants(result)
        if not needed:
            return self._subscript(result)
        return self.interpolate(result, needed)

    def _build(self, key):
        expression = symbolic.Expression(reference.NAMES.get(key, key))
        term = expression[0]
        result = self.get_observable(term.base)
        if len(expression) == 1:
            if term.exponent == 1:
                return result
            return result**term.exponent
        q0 = result**term.exponent
        if len(expression) > 1:
            for term in expression[1:]:
                result = self.get_observable(term.base)
                q0 *= result**term.exponent
        return q0

    def compute(self, q):
        dependencies = {p: self.get_dependency(p) for p in q.parameters}
        return q(**dependencies)

    def get_dependency(self, key):
        if this := self.get_observable(key):
            return this
        return self.get_value(key)

    def get_observable(self, key):
        quantity = self.get_quantity(key)
        if isinstance(quantity, computed.Quantity):
            data = self.compute(quantity)
            parameters = [
                parameter
                for parameter in quantity.parameters
                if parameter in self.parameters
            ]
            return observing.Quantity(data, parameters=parameters)
        if isinstance(quantity, variable.Quantity):
            return observing.Quantity(quantity)

    def _subscript(self, q, *dimensions):
        indices = (
            [
                self.get_index(dimension, slice(None))
                if dimension in dimensions
                else slice(None)
                for dimension in q.dimensions
            ]
            if dimensions
            else [
                self.get_index(dimensions, slice(None))
                for dimensions in q.dimensions
            ]
        )
        return q[tuple(indices)]

    _axis_indices = {'time': 0, 'energy': 1, 'mu': 0}

    def _compute_interpolants(self, q):
        coordinates = {}
        for dimension in q.dimensions:
            idx = self.get_index(dimension)
            if idx and idx.unit is not None:
                contained = [
                    self.coordinates[dimension].array_contains(target)
                    for target in idx.values
                ]
                if not numpy.all(contained):
                    coordinates[dimension] = {
                        'targets': numpy.array(idx.values),
                        'reference': self.coordinates[dimension],
                    }
        interpolants = {
            k: {**c, 'axis': self._axis_indices.get(k)}
            for k, c in coordinates.items()
        }
        if 'shell' not in q.dimensions:
            return interpolants
        for key in reference.ALIASES.find('radius'):
            if values := self.get_value(key):
                try:
                    iter(values)
                except TypeError:
                    floats = [float(values)]
                else:
                    floats = [float(value) for value in values]
                interpolants['radius'] = {
                    'targets': numpy.array(floats),
                    'reference': self.coordinates['radius'],
                    'axis': 1,
                }
        return interpolants

    def interpolate(self, q, coordinates):
        array = None
        for coordinate in coordinates.values():
            array = self._interpolate_coordinate(
                q,
                coordinate['targets'],
                coordinate['reference'],
                axis=coordinate.get('axis'),
                workspace=array,
            )
        meta = {k: getattr(q, k, None) for k in q.meta.parameters}
        base = type(q)(array, **meta)
        interpolated = ['shell' if d == 'radius' else d for d in coordinates]
        dimensions = list(set(q.dimensions) - set(interpolated))
        return self._subscript(base, *dimensions)

    def _interpolate_coordinate(
        self, q, targets, reference, axis=None, workspace=None
    ):
        array = numpy.array(q) if workspace is None else workspace
        indices = (q.dimensions.index(d) for d in reference.dimensions)
        dst, src = zip(*enumerate(indices))
        reordered = numpy.moveaxis(array, src, dst)
        interpolated = interpolation.apply(
            reordered, numpy.array(reference), targets, axis=axis
        )
        return numpy.moveaxis(interpolated, dst, src)

    @property
    def coordinates(self):
        if self._coordinates is None:
            base = {
                k: self.variables.get(k) for k in self.axes.keys(aliased=True)
            }
            grid = {
                (k, *self.variables.alias(k, include=True)): self.variables[k]
                for k in {'radius', 'theta', 'phi'}
            }
            self._coordinates = aliased.Mapping({**base, **grid})
        return self._coordinates

    def get_index(self, key, default=None):
        if 'indices' not in self._cache:
            self._cache['indices'] = {}
        if key in self._cache['indices']:
            return self._cache['indices'][key]
        with contextlib.suppress(ContextKeyError):
            idx = self.compute_index(key)
            self._cache['indices'][key] = idx
            return idx
        return default

    def compute_index(self, key):
        if key not in self.axes:
            raise ContextKeyError
        if key not in self.constraints:
            return self.axes[key].index()
        this = self.constraints[key]
        if isinstance(this, index.Quantity):
            return this
        return self.axes[key].index(*iterables.whole(this))

    def get_value(self, key, default=None):
        if 'values' not in self._cache:
            self._cache['values'] = {}
        if key in self._cache['values']:
            return self._cache['values'][key]
        with contextlib.suppress(ContextKeyError):
            val = self.compute_value(key)
            self._cache['values'][key] = val
            return val
        return default

    def compute_value(self, key):
        if key not in self.constants and key not in self.constraints:
            raise ContextKeyError
        if key in self.constraints:
            return self._compute_value(self.constraints[key])
        return self._compute_value(self.constants[key])

    def _compute_value(self, this):
        scalar = physical.scalar(this)
        unit = self._system.get_unit(unit=scalar.unit)
        return scalar[unit]

    @property
    def parameters(self):
        if self._parameters is None:
            self._parameters = tuple(self.constants)
        return self._parameters

    @property
    def variables(self):
        return self._variables

    @property
    def axes(self):
        return self._axes

    @property
    def functions(self):
        return self._functions

    @property
    def constants(self):
        return self._constants


class Observer:
    _unobservable = ['preEruption', 'phiOffset']

    def __init__(self, __id, config=None, source=None, system=None):
        self._id = __id
        self._source = source or pathlib.Path.cwd()
        self._config = config
        self._system = system or 'mks'
        self._datapath = None
        self._confpath = None
        context = self._build_context(system=system)
        if context:
            self._variables = context.variables
            self._axes = context.axes
        super().__init__(*self._unobservable, context=context)

    def update(self, source=None, config=None):
        context = self._build_context(source=source, config=config)
        if context:
            self._variables = context.variables
            self._axes = context.axes
            return super().update(context)
        return self

    def _build_context(self, source=None, config=None, system=None):
        if config:
            self._config = config
            self._confpath = None
        if source:
            self._source = source
            self._datapath = None
        if self.datapath and self.confpath:
            dataset = datafile.Interface(self.datapath)
            variables = Variables(dataset, system=system or self._system)
            axes = Axes(dataset, system=system or self._system)
            constants = runtime.Interface(self.confpath)
            return Context(variables, axes, constants)

    @property
    def confpath(self):
        if self._confpath is None:
            self._confpath = self._build_confpath()
        return self._confpath

    def _build_confpath(self):
        if self._config is None:
            return
        if pathlib.Path(self._config).name == self._config:
            full = self.datapath.parent / self._config
            if full.exists():
                return full
        this = iotools.ReadOnlyPath(self._config)
        if this.exists():
            return this
        raise ValueError

    @property
    def datapath(self):
        if self._datapath is None:
            self._datapath = self._build_datapath()
        return self._datapath

    def _build_datapath(self):
        if self._source is None:
            return
        this = iotools.ReadOnlyPath(self._source or '.')
        if not this.is_dir():
            raise TypeError
        path = iotools.find_file_by_template(
            self._templates, self._id, directory=this
        )
        with contextlib.suppress(TypeError):
            return iotools.ReadOnlyPath(path)

    @property
    def radius(self):
        return self._variables['radius']

    @property
    def theta(self):
        return self._variables['theta']

    @property
    def phi(self):
        return self._variables['phi']

    @property
    def time(self):
        return self._axes['time'].reference

    @property
    def shell(self):
        return self._axes['shell'].reference

    @property
    def species(self):
        return self._axes['species'].reference

    @property
    def energy(self):
        return self._axes['energy'].reference

    @property
    def mu(self):
        return self._axes['mu'].reference


class Stream:
    _templates = [lambda n: f'obs{n:06}.nc', lambda n: f'flux{n:06}.nc']


class Point:
    _templates = [lambda n: f'p_obs{n:03}.nc']
