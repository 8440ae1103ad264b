"""Reference definitions: goats.core.metadata."""

MODULE = 'goats.core.metadata'
COVERS = (
    'consistent',
    'Operands.__init__',
    'Operands.reference',
    'Operands.agree',
    'Operands.find',
    'Operands.allhave',
    'Operands.getany',
    'Operands.getall',
    'Operands.types',
    'Operands.__getitem__',
    'Operands.__len__',
    'Operands.__iter__',
    'Operands.__eq__',
    'Operator.__init__',
    'Operator.__call__',
    'Operation.__init__',
    'Operation.parameters',
    'Operation.implemented',
    'Operation.copy',
    'Operation.update',
    'Operation.suppress',
    'Operation.support',
    'Operation.supports',
    'Operation.evaluate',
    'Operation.operator',
    'Operation.apply',
    'Operation.__eq__',
    'OperatorFactory.__init__',
    'OperatorFactory.parameters',
    'OperatorFactory.register',
    'OperatorFactory.implement',
    'OperatorFactory.check',
    'OperatorFactory.consistent',
    'OperatorFactory.__getitem__',
    'OperatorFactory.__len__',
    'OperatorFactory.__iter__',
    'OperatorFactory.operations',
    'identity',
    'suppress',
    'restrict',
    'Attribute.__array_ufunc__',
    'Attribute.__ne__',
    'Unit.__mul__',
    'Unit.__truediv__',
    'Unit.__rmul__',
    'Unit.__rtruediv__',
    'Unit.__imul__',
    'Unit.__itruediv__',
    'Unit.__add__',
    'Unit.__sub__',
    'Name.__init__',
    'Name.add',
    'Name._ufunc_sqrt',
    'Unit._ufunc_sqrt',
    'Name.__add__',
    'Name.__radd__',
    'Name.__sub__',
    'Name.__rsub__',
    'Name.__mul__',
    'Name.__rmul__',
    'Name.__truediv__',
    'Name.__rtruediv__',
    'Name.__pow__',
    'Name.__rpow__',
    'Name.__pos__',
    'Name.__neg__',
    'Name.__abs__',
    'Name.__round__',
    'Name.__floor__',
    'Name.__ceil__',
    'Name.__trunc__',
    'Name.__bool__',
    'Name.__hash__',
    'Name.__contains__',
    'Name.__iter__',
    'Name.__len__',
    'Name.__eq__',
    'Dimensions.__init__',
    'Dimensions.__abs__',
    'Dimensions.__pos__',
    'Dimensions.__neg__',
    'Dimensions.__add__',
    'Dimensions.__sub__',
    'Dimensions.merge',
    'Dimensions.__mul__',
    'Dimensions.__rmul__',
    'Dimensions.__truediv__',
    'Dimensions.__pow__',
    'Dimensions.__eq__',
    'Dimensions.__hash__',
    'Dimensions.__len__',
    'Dimensions.__getitem__',
    'UnitMixin.unit',
    'UnitMixin.convert',
    'UnitMixin.apply_conversion',
    'NameMixin.name',
    'NameMixin.alias',
    'DimensionsMixin.dimensions',
    'Interface.__init__',
    '_reference',
)


_reference = {
    'int': {
        'callable': None,
    },
    'float': {
        'callable': None,
    },
    'abs': {
        'callable': abs,
        'aliases': ['absolute'],
    },
    'pos': {
        'callable': standard.pos,
        'aliases': ['positive'],
    },
    'neg': {
        'callable': standard.neg,
        'aliases': ['negative'],
    },
    'ceil': {
        'callable': math.ceil,
        'aliases': ['ceiling'],
    },
    'floor': {
        'callable': math.floor,
    },
    'trunc': {
        'callable': math.trunc,
        'aliases': ['truncate'],
    },
    'round': {
        'callable': round,
    },
    'lt': {
        'callable': None,
        'aliases': ['less'],
    },
    'le': {
        'callable': None,
        'aliases': ['less_equal', 'less equal'],
    },
    'gt': {
        'callable': None,
        'aliases': ['greater'],
    },
    'ge': {
        'callable': None,
        'aliases': ['greater_equal', 'greater equal'],
    },
    'add': {
        'callable': standard.add,
    },
    'sub': {
        'callable': standard.sub,
        'aliases': ['subtract'],
    },
    'mul': {
        'callable': standard.mul,
        'aliases': ['multiply'],
    },
    'truediv': {
        'callable': standard.truediv,
        'aliases': ['true_divide', 'true divide'],
    },
    'pow': {
        'callable': pow,
        'aliases': ['power'],
    },
}


def consistent(name, *args):
    values = [
        utilities.getattrval(arg, name) for arg in args if hasattr(arg, name)
    ]
    if not values:
        return True
    v0 = values[0]
    return all([v == v0 for v in values])


class Operands:
    def __init__(self, *args, reference=None):
        self._args = list(args)
        self._reference = reference
        self._types = None

    @property
    def reference(self):
        if self._reference is None:
            self._reference = self[0]
        return self._reference

    def agree(self, *names, strict=False):
        if len(self) == 1:
            return True
        if strict:
            for name in names:
                values = self.getall(name, mode='strict')
                v0 = values[0]
                if any((value != v0 for value in values)):
                    return False
            return True
        targets = self.find(*names)
        for name in names:
            values = [utilities.getattrval(target, name) for target in targets]
            v0 = values[0]
            if any((value != v0 for value in values)):
                return False
        return True

    def find(self, *names):
        return [
            obj for obj in self if all((hasattr(obj, name) for name in names))
        ]

    def allhave(self, *names):
        return all((hasattr(obj, name) for obj in self for name in names))

    def getany(self, name):
        valid = (v for v in self.getall(name, mode='next') if v)
        return next(valid, None)

    def getall(self, name, mode=None):
        return [self._get(name, operand, mode) for operand in self]

    def _get(self, name, operand, mode=None):
        available = hasattr(operand, name)
        if mode == 'next':
            return getattr(operand, name) if available else None
        if not available and mode == 'strict':
            raise AttributeError
        if available or mode == 'force':
            return utilities.getattrval(operand, name)
        return utilities.getattrval(self.reference, name)

    @property
    def types(self):
        if self._types is None:
            self._types = tuple((type(i) for i in self))
        return self._types

    def __getitem__(self, __i):
        if isinstance(__i, typing.SupportsIndex):
            return self._args[__i]
        return Operands(*self._args[__i])

    def __len__(self):
        return len(self._args)

    def __iter__(self):
        yield from self._args

    def __eq__(self, other):
        if not len(self) == len(other):
            return False
        return all((i in other for i in self))


class Operator:
    def __init__(self, __callable):
        self.method = __callable

    def __call__(self, name, operands, **kwargs):
        values = operands.getall(name, mode='force')
        try:
            return self.method(*values, **kwargs)
        except TypeError as err:
            if len(operands) == 1:
                return values[0]
            if operands.allhave(name):
                raise MetadataError(err)
            raise err


class Operation:
    def __init__(self, __type, *parameters, name=None):
        self._type = __type
        self._parameters = list(parameters)
        self.name = name
        self.supported = set()
        self.suppressed = set()
        self.nargs = None

    @property
    def parameters(self):
        return tuple(self._parameters)

    @property
    def implemented(self):
        return bool(self.supported)

    def copy(self):
        return Operation(self._type, *self.parameters, name=self.name)

    def update(self, *parameters):
        if not parameters:
            raise ValueError
        self._parameters.extend(parameters)
        return self

    def suppress(self, *types, symmetric=False):
        self.suppressed.add(types)
        if symmetric:
            self.suppressed.add(types[::-1])
        return self

    def support(self, *types, symmetric=False):
        if not types:
            raise ValueError
        these = [types] if all((isinstance(t, type) for t in types)) else types
        for this in these:
            ntypes = len(this)
            if self.nargs is None:
                self.nargs = ntypes
            if ntypes != self.nargs:
                raise NTypesError
            self.supported.add(this)
            if symmetric:
                self.supported.add(this[::-1])
        return self

    def supports(self, *types):
        if self.nargs and len(types) != self.nargs:
            return False
        if types in self.suppressed:
            return False
        for t in self.suppressed:
            if all((issubclass(i, j) for i, j in zip(types, t))):
                return False
        if types in self.supported:
            return True
        for t in self.supported:
            if all((issubclass(i, j) for i, j in zip(types, t))):
                return True
        return self._type in types

    def evaluate(self, *args, **kwargs):
        return self.operator(*args, **kwargs)

    @property
    def operator(self):
        return self.apply(REFERENCE[self.name])

    def apply(self, method):
        compute = Operator(method)

        def operator(*args, **kwargs):
            if not callable(method):
                return None
            operands = Operands(*args)
            types = operands.types
            if not self.supports(*types):
                raise OperandTypeError
            return {p: compute(p, operands, **kwargs) for p in self.parameters}

        operator.__name__ = self.name or f'__{method.__name__}__'
        operator.__doc__ = method.__doc__
        if callable(method) and (not isinstance(method, type)):
            operator.__text_signature__ = str(inspect.signature(method))
        return operator

    def __eq__(self, __o):
        return (
            isinstance(__o, Operation)
            and __o._type == self._type
            and (__o.supported == self.supported)
            and (__o.suppressed == self.suppressed)
        )


class OperatorFactory:
    def __init__(self, __type, *parameters):
        self._type = __type
        self._parameters = list(iterables.unique(*parameters))
        self._operations = None

    @property
    def parameters(self):
        return tuple(self._parameters)

    def register(self, *names):
        self._parameters.extend(iterables.unique(*names))
        for operation in self.operations.values():
            operation.update(*names)
        return self

    def implement(self, method):
        return Operation(self._type, *self.parameters).apply(method)

    def check(self, *args):
        for p in self.parameters:
            if not consistent(p, *args):
                raise ValueError

    def consistent(self, *args):
        try:
            self.check(*args)
        except ValueError:
            return False
        else:
            return True

    def __getitem__(self, __k):
        if __k in self.operations:
            return self.operations[__k]
        raise KeyError

    def __len__(self):
        return len(self.operations)

    def __iter__(self):
        return iter(self.operations)

    @property
    def operations(self):
        if self._operations is None:
            operations = aliased.MutableMapping.fromkeys(REFERENCE)
            for k in REFERENCE:
                operations[k] = Operation(self._type, *self.parameters, name=k)
            self._operations = operations
        return self._operations


def identity(__operator):

    def operator(*args):
        first = args[0]
        for arg in args:
            if type(arg) == type(first) and arg != first:
                return NotImplemented
        return first

    operator.__name__ = f'__{__operator.__name__}__'
    operator.__doc__ = __operator.__doc__
    return operator


def suppress(__operator):

    def operator(*args, **kwargs):
        return NotImplemented

    operator.__name__ = f'__{__operator.__name__}__'
    operator.__doc__ = __operator.__doc__
    return operator


def restrict(__f, *types, reverse=False):
    s = 'r' if reverse else ''
    name = f'__{s}{__f.__name__}__'

    def operator(a, b, **kwargs):
        method = getattr(super(type(a), a), name)
        if not isinstance(b, (type(a), *types)):
            return NotImplemented
        return method(b, **kwargs)

    operator.__name__ = name
    operator.__doc__ = __f.__doc__
    return operator


class Attribute:
    def __array_ufunc__(self, ufunc, method, *args, **kwargs):
        if func := getattr(self, f'_ufunc_{ufunc.__name__}', None):
            return func(*args, **kwargs)
        return NotImplemented

    def __ne__(self, __o):
        return not __o == self


class Unit:
    def _ufunc_sqrt(self, arg):
        return arg**0.5

    def __mul__(self, other):
        if isinstance(other, UnitLike):
            return super().__mul__(other)
        return self

    def __truediv__(self, other):
        if isinstance(other, UnitLike):
            return super().__truediv__(other)
        return self

    __rmul__ = __mul__

    def __rtruediv__(self, other):
        if isinstance(other, UnitLike):
            return super().__rtruediv__(other)
        return self

    __imul__ = __mul__
    __itruediv__ = __truediv__

    def __add__(self, other):
        return self._add_sub(other)

    def __sub__(self, other):
        return self._add_sub(other)

    def _add_sub(self, other):
        if not isinstance(other, UnitLike):
            return NotImplemented
        if self == other:
            return self
        if isinstance(other, Unit):
            errmsg = "The units '{}' and '{}' have different {}"
            if self.dimensions == other.dimensions:
                raise ScaleMismatch(
                    errmsg.format(self, other, 'scale factors')
                )
            raise DimensionMismatch(errmsg.format(self, other, 'dimensions'))
        raise UnitError


class Name:
    def __init__(self, *aliases):
        self._aliases = aliased.Group(*aliases)

    def add(self, aliases):
        self._aliases = self._aliases | aliases
        return self

    def _ufunc_sqrt(self, arg):
        return arg ** '1/2'

    def _implement(symbol, reverse=False, strict=False):

        def write(mine, theirs):
            if reverse:
                return f'{theirs}{symbol}{mine}'
            return f'{mine}{symbol}{theirs}'

        def operator(self, that):
            if not self or not that:
                return Name([''])
            if strict:
                if not isinstance(that, type(self)):
                    raise TypeError
                if that == self:
                    return self
            if that == self:
                return Name([f'{i}{symbol}{i}' for i in self])
            if str(that) == '1':
                return Name([str(i) for i in self])
            if isinstance(that, typing.Iterable) and not isinstance(that, str):
                if reverse:
                    return Name([write(i, j) for j in that for i in self])
                return Name([write(i, j) for i in self for j in that])
            try:
                fixed = fractions.Fraction(that)
            except ValueError:
                fixed = that
            return Name([write(i, fixed) for i in self])

        return operator

    __add__ = _implement(' + ', strict=True)
    __radd__ = _implement(' + ', strict=True, reverse=True)
    __sub__ = _implement(' - ', strict=True)
    __rsub__ = _implement(' - ', strict=True, reverse=True)
    __mul__ = _implement(' * ')
    __rmul__ = _implement(' * ', reverse=True)
    __truediv__ = _implement(' / ')
    __rtruediv__ = _implement(' / ', reverse=True)
    __pow__ = _implement('^')
    __rpow__ = _implement('^', reverse=True)

    def __pos__(self):
        if not self:
            return Name()
        return Name([f'+{i}' for i in self])

    def __neg__(self):
        if not self:
            return Name()
        return Name([f'-{i}' for i in self])

    def __abs__(self):
        if not self:
            return Name()
        return Name([f'abs({i})' for i in self])

    def __round__(self):
        if not self:
            return Name()
        return Name([f'round({i})' for i in self])

    def __floor__(self):
        if not self:
            return Name()
        return Name([f'floor({i})' for i in self])

    def __ceil__(self):
        if not self:
            return Name()
        return Name([f'ceil({i})' for i in self])

    def __trunc__(self):
        if not self:
            return Name()
        return Name([f'trunc({i})' for i in self])

    def __bool__(self):
        if len(self._aliases) == 1:
            name = list(self._aliases)[0]
            if name == '':
                return False
        return True

    def __hash__(self):
        return hash(self._aliases)

    def __contains__(self, __x):
        return __x in self._aliases

    def __iter__(self):
        return iter(self._aliases)

    def __len__(self):
        return len(self._aliases)

    def __eq__(self, __o):
        if isinstance(__o, Name):
            return __o._aliases == self._aliases
        try:
            return __o == self._aliases
        except TypeError:
            return False


class Dimensions:
    def __init__(self, *names):
        self._names = self._init(*names)

    def _init(self, *args):
        names = iterables.unwrap(args, wrap=tuple)
        if all((isinstance(name, str) for name in names)):
            return names
        raise TypeError

    __abs__ = identity(abs)
    __pos__ = identity(standard.pos)
    __neg__ = identity(standard.neg)
    __add__ = identity(standard.add)
    __sub__ = identity(standard.sub)

    def merge(a, *others):
        names = list(a._names)
        for b in others:
            if isinstance(b, Dimensions):
                names.extend(b._names)
        return Dimensions(*iterables.unique(*names))

    __mul__ = merge
    __rmul__ = merge
    __truediv__ = merge

    def __pow__(self, other):
        if isinstance(other, numbers.Real):
            return self
        return NotImplemented

    def __eq__(self, other):
        return (
            isinstance(other, Dimensions)
            and other._names == self._names
            or (
                isinstance(other, str)
                and len(self) == 1
                and (other == self._names[0])
            )
            or (
                isinstance(other, typing.Iterable)
                and len(other) == len(self)
                and all((i in self for i in other))
            )
        )

    def __hash__(self):
        return hash(self._names)

    def __len__(self):
        return len(self._names)

    def __getitem__(self, __i):
        return self._names[__i]


class UnitMixin:
    @property
    def unit(self):
        return Unit(self._unit)

    def convert(self, unit):
        if unit != self._unit:
            new = Unit(unit)
            self.apply_conversion(new)
            self._unit = new
        return self

    def apply_conversion(self, new):
        pass


class NameMixin:
    @property
    def name(self):
        return Name(self._name)

    def alias(self, *updates, reset=False):
        aliases = updates if reset else self.name.add(updates)
        self._name = Name(*aliases)
        return self


class DimensionsMixin:
    @property
    def dimensions(self):
        return Dimensions(self._dimensions)


class Interface:
    def __init__(self, **attributes):
        pass
