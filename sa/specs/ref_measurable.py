"""Reference definitions: goats.core.measurable."""

MODULE = 'goats.core.measurable'
COVERS = (
    'Measurement.__init__',
    'Measurement.data',
    'Measurement.unit',
    'Measurement.__len__',
    'Measurement.__getitem__',
    'Quantified.__init__',
    'Quantified.data',
    'Quantified.meta',
    'Quantified.__eq__',
    'Quantified.implement',
    'Quantity.__init__',
    'Quantity.parse_attrs',
    'Quantity.unit',
    'Quantity.__getitem__',
    'Quantity.apply_unit',
    'Quantity.__measure__',
    'Scalar.__init__',
    '_Formal.__measure__',
    'ismeasurable',
    'Unmeasurable.__init__',
    'measure',
    'parse_measurable',
    'ensure_unit',
)


class Measurement:
    def __init__(self, data, unit):
        self._data = data
        self._unit = unit

    @property
    def data(self):
        return tuple(self._data)

    @property
    def unit(self):
        return metadata.Unit(self._unit)

    def __len__(self):
        return len(self._data)

    def __getitem__(self, index):
        if isinstance(index, typing.SupportsIndex) and index < 0:
            index += len(self)
        values = iterables.whole(self.data[index])
        unit = str(self.unit)
        return [(value, unit) for value in values]


class Quantified:
    def __init__(self, __data):
        self._data = __data
        self._meta = None

    @property
    def data(self):
        return self._data

    @property
    def meta(self):
        if self._meta is None:
            self._meta = metadata.OperatorFactory(type(self))
        return self._meta

    def __eq__(self, other):
        if not isinstance(other, Quantified):
            return other == self.data
        if other.data != self.data:
            return False
        for name in self.meta.parameters:
            v = getattr(self, name)
            if hasattr(other, name) and getattr(other, name) != v:
                return False
        return True

    def implement(self, func, mode, *others, **kwargs):
        name = func.__name__
        if mode == 'cast':
            return func(self.data)
        if mode == 'arithmetic':
            data = func(self.data, **kwargs)
            meta = self.meta[name].evaluate(self, **kwargs)
            return type(self)(data, **meta)
        operands = [self] + list(others)
        args = [
            i.data if isinstance(i, algebraic.Quantity) else i
            for i in operands
        ]
        if mode == 'comparison':
            self.meta.check(self, *others)
            return func(*args)
        if mode == 'forward':
            data = func(*args, **kwargs)
            meta = self.meta[name].evaluate(*operands, **kwargs)
            return type(self)(data, **meta)
        if mode == 'reverse':
            data = func(*reversed(args), **kwargs)
            meta = self.meta[name].evaluate(*reversed(operands), **kwargs)
            return type(self)(data, **meta)
        if mode == 'inplace':
            data = func(*args, **kwargs)
            meta = self.meta[name].evaluate(*operands, **kwargs)
            self._data = data
            for k, v in meta.items():
                setattr(self, f'_{k}', v)
            return self
        raise ValueError


class Quantity:
    def __init__(self, __d, **meta):
        super().__init__(__d.data if isinstance(__d, Quantified) else __d)
        self.meta['true divide'].suppress(algebraic.Real, algebraic.Quantity)
        self.meta['power'].suppress(algebraic.Quantity, algebraic.Quantity)
        self.meta['power'].suppress(algebraic.Real, algebraic.Quantity)
        self.meta['power'].suppress(
            algebraic.Quantity, typing.Iterable, symmetric=True
        )
        parsed = self.parse_attrs(__d, meta, unit='1')
        self._unit = parsed['unit']
        self.meta.register('unit')
        self.display.register('data', 'unit')
        self.display['__str__'] = '{data} [{unit}]'
        self.display['__repr__'] = "{data}, unit='{unit}'"
        self.display['__repr__'].separator = ', '

    def parse_attrs(self, this, meta, **targets):
        if isinstance(this, Quantified):
            return {k: getattr(this, k) for k in targets}
        return {k: meta.get(k, v) for k, v in targets.items()}

    @property
    def unit(self):
        return metadata.Unit(self._unit)

    def __getitem__(self, arg):
        unit = (
            self.unit.norm[arg] if str(arg).lower() in metric.SYSTEMS else arg
        )
        if unit == self._unit:
            return self
        new = self._validate_unit(metadata.Unit(unit))
        return self.apply_unit(new)

    def _validate_unit(self, unit):
        if self.unit | unit:
            return unit
        raise ValueError

    def apply_unit(self, unit):
        data = self._data * (unit // self._unit)
        return type(self)(data, unit=unit)

    def __measure__(self):
        value = iterables.whole(self.data)
        return Measurement(value, self.unit)


class Scalar:
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)


class _Formal:
    @abc.abstractmethod
    def __measure__(self):
        pass


def ismeasurable(this):
    args = iterables.unwrap(this)
    if hasattr(args, '__measure__'):
        return True
    if isinstance(args, numbers.Number):
        return True
    if not isinstance(args, iterables.whole):
        return False
    if iterables.allinstance(args, numbers.Number):
        return True
    if isinstance(args[-1], metadata.UnitLike):
        arg0 = args[0]
        values = arg0 if isinstance(arg0, typing.Iterable) else args[:-1]
        if iterables.allinstance(values, numbers.Number):
            return True
    if all((ismeasurable(i) for i in args)):
        return True
    return False


class Unmeasurable:
    def __init__(self, arg):
        self.arg = arg


def measure(*args):
    first = args[0]
    if len(args) == 1 and isinstance(first, _Formal):
        return first.__measure__()
    parsed = parse_measurable(args, distribute=False)
    return Measurement(parsed[:-1], parsed[-1])


def parse_measurable(args, distribute=False):
    unwrapped = iterables.unwrap(args)
    if iterables.missing(unwrapped):
        raise Unmeasurable(unwrapped)
    if isinstance(unwrapped, numbers.Number):
        result = (unwrapped, '1')
        return [result] if distribute else result
    types = [type(arg) for arg in unwrapped]
    n_units = sum((types.count(t) for t in (str, metadata.Unit)))
    if n_units > 1:
        errmsg = 'You may only specify one unit.'
        raise MeasuringTypeError(errmsg)
    if all((isinstance(arg, numbers.Number) for arg in unwrapped)):
        return _wrap_measurable(unwrapped, '1', distribute)
    if all((isinstance(arg, iterables.whole) for arg in unwrapped)):
        return _callback_parse(unwrapped, distribute)
    unit = ensure_unit(unwrapped)
    if all((isinstance(arg, numbers.Number) for arg in unwrapped[:-1])):
        return _wrap_measurable(unwrapped[:-1], unit, distribute)
    if isinstance(unwrapped[0], (list, tuple, range)):
        return _wrap_measurable(unwrapped[0], unit, distribute)


def _wrap_measurable(values, unit, distribute):
    if distribute:
        return list(iterables.distribute(values, unit))
    return (*values, unit)


def _callback_parse(unwrapped, distribute):
    if distribute:
        return [
            item
            for arg in unwrapped
            for item in parse_measurable(arg, distribute=True)
        ]
    parsed = [parse_measurable(arg, distribute=False) for arg in unwrapped]
    units = [item[-1] for item in parsed]
    if any((unit != units[0] for unit in units)):
        errmsg = "Can't combine measurements with different units."
        raise MeasuringTypeError(errmsg)
    values = [i for item in parsed for i in item[:-1]]
    unit = units[0]
    return (*values, unit)


def ensure_unit(args):
    last = args[-1]
    implicit = not any((isinstance(arg, (str, metadata.Unit)) for arg in args))
    explicit = last in ['1', metadata.Unit('1')]
    if implicit or explicit:
        return '1'
    return str(last)
