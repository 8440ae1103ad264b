"""Reference definitions: goats.core.physical."""

MODULE = 'goats.core.physical'
COVERS = (
    'Quantity.__init__',
    'Scalar.__init__',
    'Scalar.__iter__',
    'Constants.__init__',
    'Constants.__len__',
    'Constants.__iter__',
    'Constants.__getitem__',
    'Vector.__init__',
    'Vector.__iter__',
    'Vector.__len__',
    'Vector.__getitem__',
    'Vector.__eq__',
    'scalar',
    'Array.__new__',
    'Array.__init__',
    'Array.data',
    'Array.__measure__',
    'Array.__eq__',
    'Array.__len__',
    'Array.ndim',
    'Array.shape',
    'Array._builtin',
    'Array.__getitem__',
    'Array.apply_unit',
    'Array._HANDLED_TYPES',
    'Array.__array_ufunc__',
    'Array._HANDLED_FUNCTIONS',
    'Array.__array_function__',
    'Array.__array__',
    'Array.implements',
)


class Quantity:
    def __init__(self, __data, **meta):
        super().__init__(__data, **meta)
        parsed = self.parse_attrs(__data, meta, name='')
        self._name = metadata.Name(parsed['name'])
        self.meta.register('name')
        if self._name:
            self.display.register('name')
            self.display['__str__'].insert(0, "'{name}':")
            self.display['__repr__'].insert(2, "name='{name}'")


class Scalar:
    def __init__(self, __data, **meta):
        super().__init__(float(__data), **meta)

    def __iter__(self):
        raise TypeError


class Constants:
    def __init__(self, system):
        self.system = system.lower()
        self._mapping = fundamental.CONSTANTS.copy()

    def __len__(self):
        return len(self._mapping)

    def __iter__(self):
        return iter(self._mapping)

    def __getitem__(self, name):
        if name in self._mapping:
            found = self._get_attributes(name)
            return Scalar(found['value'], unit=found['unit'])
        raise KeyError(name)

    def _get_attributes(self, name):
        definition = self._mapping[name]
        if 'all' in definition:
            return {'value': definition['all'], 'unit': None}
        if this := definition.get(self.system):
            return this
        raise ValueError


class Vector:
    def __init__(self, __data, **meta):
        if isinstance(__data, measurable.Measurement):
            meta = {'unit': __data.unit}
            __data = __data.data
        elif isinstance(__data, Scalar):
            meta = {k: getattr(__data, k) for k in ('unit', 'name')}
            __data = __data.data
        array = numpy.asfarray(list(iterables.whole(__data)))
        super().__init__(array, **meta)

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, index):
        if isinstance(index, str):
            return super().__getitem__(index)
        if isinstance(index, typing.SupportsIndex) and index < 0:
            index += len(self)
        values = self.data[index]
        iter_values = isinstance(values, typing.Iterable)
        unit = self.unit
        return (
            [Scalar(value, unit=unit) for value in values]
            if iter_values
            else Scalar(values, unit=unit)
        )

    def __eq__(self, other):
        if not isinstance(other, type(self)):
            return NotImplemented
        if not self.unit == other.unit:
            return False
        return numpy.array_equal(other, self)


def scalar(this):
    if isinstance(this, Scalar):
        return this
    if isinstance(this, Vector) and len(this) == 1:
        return this[0]
    if isinstance(this, measurable.Measurement) and len(this) == 1:
        return Scalar(this.data[0], unit=this.unit)
    measured = measurable.measure(this)
    if len(measured) > 1:
        raise ValueError
    return scalar(measured)


class Array:
    def __new__(cls, *args, **kwargs):
        if len(args) == 1:
            data = args[0]
            if isinstance(data, numbers.Number):
                return Scalar(data, **kwargs)
        return super().__new__(cls)

    def __init__(self, __data, **meta):
        super().__init__(__data, **meta)
        self._scale = getattr(__data, '_scale', 1.0)
        self._full_array = getattr(__data, '_full_array', None)
        self._ndim = None
        self._shape = None
        self.display.register(data='_get_data_type')

    @property
    def data(self):
        return super().data

    def _get_data_type(self):
        return self.data.__class__

    def __measure__(self):
        return measurable.Measurement(self._array, self.unit)

    def __eq__(self, other):
        if not isinstance(other, type(self)):
            return NotImplemented
        if not self.unit == other.unit:
            return False
        return numpy.array_equal(other, self)

    def __len__(self):
        try:
            method = self._get_base_attr('__len__')
            return method()
        except AttributeError:
            return len(self.data)

    @property
    def ndim(self):
        if self._ndim is None:
            self._ndim = self._get_base_attr('ndim')
        return self._ndim

    @property
    def shape(self):
        if self._shape is None:
            self._shape = self._get_base_attr('shape')
        return self._shape

    def _get_base_attr(self, name):
        for this in ['data', '_array']:
            attr = getattr(self, this)
            with contextlib.suppress(AttributeError):
                if hasattr(attr, name):
                    return getattr(attr, name)
        raise AttributeError

    _builtin = (int, slice, type(...), type(None))

    def __getitem__(self, *args):
        if len(args) == 1 and isinstance(args[0], metadata.UnitLike):
            return super().__getitem__(args[0])
        unwrapped = iterables.unwrap(args)
        if iterables.hastype(unwrapped, self._builtin, tuple, strict=True):
            return self._subscript_standard(unwrapped)
        return self._subscript_custom(unwrapped)

    def apply_unit(self, unit):
        new = self._copy_with(unit=unit)
        new._scale = self._scale * (unit // self._unit)
        return new

    def _subscript_standard(self, indices):
        result = self._get_array(indices)
        Type = Scalar if isinstance(result, numbers.Number) else Array
        return Type(result, unit=self.unit, name=self.name)

    def _subscript_custom(self, args):
        if not isinstance(args, (tuple, list)):
            args = [args]
        expanded = self._expand_ellipsis(args)
        idx = [
            range(*arg.indices(self.shape[i]))
            if isinstance(arg, slice)
            else arg
            for i, arg in enumerate(expanded)
        ]
        indices = numpy.ix_(*list(idx))
        return self._copy_with(data=self._get_array(indices))

    def _expand_ellipsis(self, user):
        if all((idx is not Ellipsis for idx in user)):
            return user
        length = self.ndim - len(user) + 1
        start = user.index(Ellipsis)
        return (
            *user[slice(start)],
            *[slice(None)] * length,
            *user[slice(start + 1, None)],
        )

    _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)

    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        out = kwargs.get('out', ())
        for x in args + out:
            if not isinstance(x, self._HANDLED_TYPES + (Array,)):
                return NotImplemented
        if out:
            kwargs['out'] = tuple(
                (x._array if isinstance(x, Array) else x for x in out)
            )
        name = ufunc.__name__
        operands = self._ufunc_hook(ufunc, *args)
        compute = getattr(ufunc, method)
        data = compute(*operands, **kwargs)
        evaluate = (
            self.meta[name].evaluate
            if name in self.meta
            else self.meta.implement(compute)
        )
        kwds = {k: v for k, v in kwargs.items() if k != 'out'}
        meta = evaluate(*args, **kwds)
        if type(data) is tuple:
            return tuple((self._new_from_func(x, updates=meta) for x in data))
        if method == 'at':
            return None
        return self._new_from_func(data, updates=meta)

    def _ufunc_hook(self, ufunc, *inputs):
        if ufunc.__name__ == 'power':
            inputs = [
                float(x) if isinstance(x, numbers.Real) else x for x in inputs
            ]
        return tuple((x._array if isinstance(x, Array) else x for x in inputs))

    _HANDLED_FUNCTIONS = {}

    def __array_function__(self, func, types, args, kwargs):
        accepted = (Array, numpy.ndarray, numpy.ScalarType)
        if not all((issubclass(ti, accepted) for ti in types)):
            return NotImplemented
        if func in self._HANDLED_FUNCTIONS:
            result = self._HANDLED_FUNCTIONS[func](*args, **kwargs)
            return self._new_from_func(result)
        args = tuple(
            (arg._array if isinstance(arg, Array) else arg for arg in args)
        )
        types = tuple((ti for ti in types if not issubclass(ti, Array)))
        data = self._array
        arr = data.__array_function__(func, types, args, kwargs)
        return self._new_from_func(arr)

    def _new_from_func(self, result, updates=None):
        if isinstance(result, numpy.ndarray) and isinstance(updates, dict):
            return self._copy_with(data=result, **updates)
        return result

    def __array__(self, *args, **kwargs):
        data = self._array
        return numpy.asanyarray(data, *args, **kwargs)

    @property
    def _array(self):
        return self._get_array()

    def _get_array(self, index=None):
        return self._scale * self._load_array(index)

    def _load_array(self, index=None):
        if iterables.missing(index):
            if self._full_array is not None:
                return self._full_array
            array = self._read_array()
            self._full_array = array
            return array
        if self._full_array is not None:
            idx = numpy.index_exp[index]
            return self._full_array[idx]
        return self._read_array(index)

    def _read_array(self, index=None):
        if not iterables.missing(index):
            idx = numpy.index_exp[index]
            try:
                return numpy.asarray(self.data[idx])
            except (TypeError, IndexError):
                return numpy.asarray(self.data)[idx]
        return numpy.asarray(self.data)

    def _copy_with(self, **updates):
        data = updates.get('data', self.data)
        meta = {
            k: updates.get(k, getattr(self, k)) for k in self.meta.parameters
        }
        return type(self)(data, **meta)

    @classmethod
    def implements(cls, numpy_function):

        def decorator(func):
            cls._HANDLED_FUNCTIONS[numpy_function] = func
            return func

        return decorator
