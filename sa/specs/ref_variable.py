"""Reference definitions: goats.core.variable."""

MODULE = 'goats.core.variable'
COVERS = (
    'Array.__init__',
    'Array.data',
    'Array.__eq__',
    'Array.__len__',
    'Array.ndim',
    'Array.shape',
    'Array._builtin',
    'Array.__getitem__',
    'Array._HANDLED_TYPES',
    'Array.__array_ufunc__',
    'Array.array_contains',
    'Array.__contains__',
    'Array._HANDLED_FUNCTIONS',
    'Array.__array_function__',
    'Array.__array__',
    'Array.implements',
    'Quantity.__init__',
    'Quantity.unit',
    'Quantity.dimensions',
    'Quantity.__measure__',
    'Quantity.__eq__',
    'Quantity.__getitem__',
    'Quantity.shape_dict',
    'Interface.__init__',
    'Interface.__getitem__',
    'Interface.build',
    'Interface.system',
    '_squeeze',
    '_mean',
)


class Array:
    def __init__(self, __interface):
        super().__init__(
            __interface.data
            if isinstance(__interface, measurable.Quantified)
            else __interface
        )
        self._full_array = getattr(__interface, '_full_array', None)
        self._scale = getattr(__interface, '_scale', 1.0)
        self._ndim = None
        self._shape = None
        self.meta['true divide'].suppress(algebraic.Real, algebraic.Quantity)
        self.meta['power'].suppress(algebraic.Quantity, algebraic.Quantity)
        self.meta['power'].suppress(algebraic.Real, algebraic.Quantity)
        self.meta['power'].suppress(
            algebraic.Quantity, typing.Iterable, symmetric=True
        )

    @property
    def data(self):
        return super().data

    def __eq__(self, other):
        if not isinstance(other, Array):
            return NotImplemented
        return numpy.array_equal(other, self)

    def __len__(self):
        try:
            method = self._get_base_attr('__len__')
            return method()
        except AttributeError:
            return len(self.data)

    @property
    def ndim(self):
        if self._ndim is None:
            self._ndim = self._get_base_attr('ndim')
        return self._ndim

    @property
    def shape(self):
        if self._shape is None:
            self._shape = self._get_base_attr('shape')
        return self._shape

    def _get_base_attr(self, name):
        for this in ['data', '_array']:
            attr = getattr(self, this)
            with contextlib.suppress(AttributeError):
                if hasattr(attr, name):
                    return getattr(attr, name)
        raise AttributeError

    _builtin = (int, slice, type(...), type(None))

    def __getitem__(self, *args):
        unwrapped = iterables.unwrap(args)
        indices = self._normalize_indices(unwrapped)
        array = self._get_array(indices)
        result = numpy.array(array, ndmin=self.ndim)
        if array.ndim != self.ndim:
            with contextlib.suppress(TypeError):
                shape = [
                    self._get_axis_size(i, v)
                    for i, v in enumerate(self._expand_ellipsis(indices))
                ]
                shape.extend(self.shape[len(shape) :])
                return self._copy_with(data=result.reshape(shape))
        return self._copy_with(data=result)

    def _get_axis_size(self, i, v):
        if isinstance(v, int):
            return 1
        if isinstance(v, slice):
            return len(range(*v.indices(self.shape[i])))
        return self.shape[i]

    def _normalize_indices(self, args):
        if iterables.hastype(args, self._builtin, tuple, strict=True):
            return args
        if not isinstance(args, (tuple, list)):
            args = [args]
        expanded = self._expand_ellipsis(args)
        indices = [
            range(*arg.indices(self.shape[i]))
            if isinstance(arg, slice)
            else arg
            for i, arg in enumerate(expanded)
        ]
        return numpy.ix_(*list(indices))

    def _expand_ellipsis(self, user):
        if all((idx is not Ellipsis for idx in user)):
            return user
        length = self.ndim - len(user) + 1
        start = user.index(Ellipsis)
        return (
            *user[slice(start)],
            *[slice(None)] * length,
            *user[slice(start + 1, None)],
        )

    _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        out = kwargs.get('out', ())
        for x in args + out:
            if not isinstance(x, self._HANDLED_TYPES + (Array,)):
                return NotImplemented
        if out:
            kwargs['out'] = tuple(
                (x._array if isinstance(x, Array) else x for x in out)
            )
        name = ufunc.__name__
        operands = self._ufunc_hook(ufunc, *args)
        compute = getattr(ufunc, method)
        data = compute(*operands, **kwargs)
        evaluate = (
            self.meta[name].evaluate
            if name in self.meta
            else self.meta.implement(compute)
        )
        kwds = {k: v for k, v in kwargs.items() if k != 'out'}
        meta = evaluate(*args, **kwds)
        if type(data) is tuple:
            return tuple((self._new_from_func(x, updates=meta) for x in data))
        if method == 'at':
            return None
        return self._new_from_func(data, updates=meta)

    def _ufunc_hook(self, ufunc, *inputs):
        if ufunc.__name__ == 'power':
            inputs = [
                float(x) if isinstance(x, numbers.Real) else x for x in inputs
            ]
        return tuple((x._array if isinstance(x, Array) else x for x in inputs))

    def array_contains(self, value):
        if value in self:
            return True
        if value < numpy.min(self._array) or value > numpy.max(self._array):
            return False
        return numpy.any([numpy.isclose(value, self._array, atol=0.0)])

    def __contains__(self, __x):
        return __x in self._array

    _HANDLED_FUNCTIONS = {}

    def __array_function__(self, func, types, args, kwargs):
        accepted = (Array, numpy.ndarray, numpy.ScalarType)
        if not all((issubclass(ti, accepted) for ti in types)):
            return NotImplemented
        if func in self._HANDLED_FUNCTIONS:
            result = self._HANDLED_FUNCTIONS[func](*args, **kwargs)
            return self._new_from_func(result)
        args = tuple(
            (arg._array if isinstance(arg, Array) else arg for arg in args)
        )
        types = tuple((ti for ti in types if not issubclass(ti, Array)))
        data = self._array
        arr = data.__array_function__(func, types, args, kwargs)
        return self._new_from_func(arr)

    def _new_from_func(self, result, updates=None):
        if isinstance(result, numpy.ndarray) and isinstance(updates, dict):
            return self._copy_with(data=result, **updates)
        return result

    def __array__(self, *args, **kwargs):
        data = self._array
        return numpy.asanyarray(data, *args, **kwargs)

    @property
    def _array(self):
        return self._get_array()

    def _get_array(self, index=None):
        return self._scale * self._load_array(index)

    def _load_array(self, index=None):
        if iterables.missing(index):
            if self._full_array is not None:
                return self._full_array
            array = self._read_array()
            self._full_array = array
            return array
        if self._full_array is not None:
            idx = numpy.index_exp[index]
            return self._full_array[idx]
        return self._read_array(index)

    def _read_array(self, index=None):
        if not iterables.missing(index):
            idx = numpy.index_exp[index]
            try:
                return numpy.asarray(self.data[idx])
            except (TypeError, IndexError):
                return numpy.asarray(self.data)[idx]
        return numpy.asarray(self.data)

    def _copy_with(self, **updates):
        data = updates.get('data', self.data)
        meta = {
            k: updates.get(k, getattr(self, k)) for k in self.meta.parameters
        }
        return type(self)(data, **meta)

    @classmethod
    def implements(cls, numpy_function):

        def decorator(func):
            cls._HANDLED_FUNCTIONS[numpy_function] = func
            return func

        return decorator


class Quantity:
    def __init__(self, __interface, dimensions=None, unit=None):
        super().__init__(__interface)
        tmp = getattr(__interface, 'unit', unit or '1')
        self._unit = metadata.Unit(tmp)
        self.meta.register('unit')
        tmp = getattr(
            __interface,
            'dimensions',
            dimensions or [f'x{i}' for i in range(self.ndim)],
        )
        self._dimensions = metadata.Dimensions(*tmp)
        self.meta.register('dimensions')
        ndim = len(self._dimensions)
        if ndim != self.ndim:
            raise ValueError

    @property
    def unit(self):
        return self._unit

    @property
    def dimensions(self):
        return self._dimensions

    def __measure__(self):
        return measurable.Measurement(self._array, self.unit)

    def __eq__(self, other):
        if not isinstance(other, Quantity):
            return NotImplemented
        for name in ('unit', 'dimensions'):
            if not utilities.equal_attrs(name, self, other):
                return False
        return super().__eq__(other)

    def __getitem__(self, *args):
        if len(args) == 1 and isinstance(args[0], metadata.UnitLike):
            return self._update_unit(args[0])
        return self._copy_with(data=super().__getitem__(*args))

    def _update_unit(self, arg):
        this = (
            self.unit.norm[arg] if str(arg).lower() in metric.SYSTEMS else arg
        )
        if this == self.unit:
            return self
        unit = metadata.Unit(this)
        if not self.unit | unit:
            raise ValueError
        new = self._copy_with(unit=unit)
        new._scale = self._scale * (unit // self._unit)
        return new

    def _ufunc_hook(self, ufunc, *inputs):
        multiplicative = ufunc.__name__ in {
            'multiply',
            'divide',
            'true_divide',
        }
        correct_type = all((isinstance(v, type(self)) for v in inputs))
        if multiplicative and correct_type:
            dims = self.dimensions.merge(*[v.dimensions for v in inputs])
            tmp = {}
            for v in inputs:
                tmp.update(v.shape_dict)
            full_shape = tuple((tmp[d] for d in dims))
            indices = numpy.ix_(*[range(i) for i in full_shape])
            arrays = []
            for v in inputs:
                idx = tuple((indices[dims.index(d)] for d in v.shape_dict))
                arrays.append(v._get_array(idx))
            return arrays
        return super()._ufunc_hook(ufunc, *inputs)

    @property
    def shape_dict(self):
        return dict(zip(self.dimensions, self.shape))


@Quantity.implements(numpy.squeeze)
def _squeeze(v, **kwargs):
    data = v._array.squeeze(**kwargs)
    axis = kwargs.get('axis')
    axes = (
        [i for i, d in enumerate(v.shape) if d == 1]
        if axis is None
        else [int(i) % v.ndim for i in iterables.whole(axis)]
    )
    dimensions = tuple(
        (a for i, a in enumerate(v.dimensions) if i not in axes)
    )
    return Quantity(data, dimensions=dimensions, unit=v.unit)


@Quantity.implements(numpy.mean)
def _mean(v, **kwargs):
    data = v._array.mean(**kwargs)
    axis = kwargs.get('axis')
    if axis is None:
        return data
    axes = [int(i) % v.ndim for i in iterables.whole(axis)]
    dimensions = tuple(
        (a for i, a in enumerate(v.dimensions) if i not in axes)
    )
    return Quantity(data, dimensions=dimensions, unit=v.unit)


class Interface:
    def __init__(self, __data, system=None):
        super().__init__(__data.variables)
        self._system = metric.System(system) if system else None
        self._cache = {}

    def __getitem__(self, __k):
        if __k in self._cache:
            return self._cache[__k]
        with contextlib.suppress(KeyError):
            variable = super().__getitem__(__k)
            if built := self.build(variable):
                self._cache[__k] = built
                return built
        raise KeyError

    def build(self, __v):
        v = Quantity(__v.data, dimensions=__v.dimensions, unit=__v.unit)
        return v[str(self.system)] if self.system else v

    @property
    def system(self):
        return self._system
