"""Reference definitions: goats.core.algebraic."""

MODULE = 'goats.core.algebraic'
COVERS = (
    'Real.__sub__',
    'Real.__rsub__',
    'Quantity.__bool__',
    'Quantity.__abs__',
    'Quantity.__pos__',
    'Quantity.__neg__',
    'Quantity.__ne__',
    'Quantity.__lt__',
    'Quantity.__le__',
    'Quantity.__gt__',
    'Quantity.__ge__',
    'Quantity.__add__',
    'Quantity.__radd__',
    'Quantity.__iadd__',
    'Quantity.__sub__',
    'Quantity.__rsub__',
    'Quantity.__isub__',
    'Quantity.__mul__',
    'Quantity.__rmul__',
    'Quantity.__imul__',
    'Quantity.__truediv__',
    'Quantity.__rtruediv__',
    'Quantity.__itruediv__',
    'Quantity.__pow__',
    'Quantity.__rpow__',
    'Quantity.__ipow__',
    'Quantity.implement',
    'Scalar.__int__',
    'Scalar.__float__',
    'Scalar.__round__',
    'Scalar.__floor__',
    'Scalar.__ceil__',
    'Scalar.__trunc__',
)


class Orderable:
    __slots__ = ()

    @abc.abstractmethod
    def __lt__(self, other):
        pass

    @abc.abstractmethod
    def __eq__(self, other):
        pass

    @abc.abstractmethod
    def __le__(self, other):
        pass

    @abc.abstractmethod
    def __gt__(self, other):
        pass

    @abc.abstractmethod
    def __ge__(self, other):
        pass

    @abc.abstractmethod
    def __ne__(self, other):
        pass


class Ordered:
    __slots__ = ()
    __hash__ = None

    @abc.abstractmethod
    def __lt__(self, other):
        pass

    @abc.abstractmethod
    def __eq__(self, other):
        pass

    @abc.abstractmethod
    def __le__(self, other):
        return self.__lt__(other) or self.__eq__(other)

    @abc.abstractmethod
    def __gt__(self, other):
        return not self.__le__(other)

    @abc.abstractmethod
    def __ge__(self, other):
        return not self.__lt__(other)

    @abc.abstractmethod
    def __ne__(self, other):
        return not self.__eq__(other)


class Additive:
    __slots__ = ()

    @abc.abstractmethod
    def __add__(self, other):
        pass

    @abc.abstractmethod
    def __radd__(self, other):
        pass

    @abc.abstractmethod
    def __sub__(self, other):
        pass

    @abc.abstractmethod
    def __rsub__(self, other):
        pass


class Multiplicative:
    __slots__ = ()

    @abc.abstractmethod
    def __mul__(self, other):
        pass

    @abc.abstractmethod
    def __rmul__(self, other):
        pass

    @abc.abstractmethod
    def __truediv__(self, other):
        pass

    @abc.abstractmethod
    def __rtruediv__(self, other):
        pass

    @abc.abstractmethod
    def __pow__(self, other):
        pass

    @abc.abstractmethod
    def __rpow__(self, other):
        pass


class Base:
    __slots__ = ()

    @abc.abstractmethod
    def __abs__(self):
        pass

    @abc.abstractmethod
    def __neg__(self):
        pass

    @abc.abstractmethod
    def __pos__(self):
        pass


class SupportsNeg:
    __slots__ = ()

    @abc.abstractmethod
    def __neg__(self):
        pass


class Real:
    def __sub__(self, other):
        return self + -other

    def __rsub__(self, other):
        return -self + other


class Quantity:
    def __bool__(self):
        return True

    def __abs__(self):
        return self.implement(abs, 'arithmetic')

    def __pos__(self):
        return self.implement(standard.pos, 'arithmetic')

    def __neg__(self):
        return self.implement(standard.neg, 'arithmetic')

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return self.implement(standard.lt, 'comparison', other)

    def __le__(self, other):
        return self.implement(standard.le, 'comparison', other)

    def __gt__(self, other):
        return self.implement(standard.gt, 'comparison', other)

    def __ge__(self, other):
        return self.implement(standard.ge, 'comparison', other)

    def __add__(self, other):
        return self.implement(standard.add, 'forward', other)

    def __radd__(self, other):
        return self.implement(standard.add, 'reverse', other)

    def __iadd__(self, other):
        return self.implement(standard.add, 'inplace', other)

    def __sub__(self, other):
        return self.implement(standard.sub, 'forward', other)

    def __rsub__(self, other):
        return self.implement(standard.sub, 'reverse', other)

    def __isub__(self, other):
        return self.implement(standard.sub, 'inplace', other)

    def __mul__(self, other):
        return self.implement(standard.mul, 'forward', other)

    def __rmul__(self, other):
        return self.implement(standard.mul, 'reverse', other)

    def __imul__(self, other):
        return self.implement(standard.mul, 'inplace', other)

    def __truediv__(self, other):
        return self.implement(standard.truediv, 'forward', other)

    def __rtruediv__(self, other):
        return self.implement(standard.truediv, 'reverse', other)

    def __itruediv__(self, other):
        return self.implement(standard.truediv, 'inplace', other)

    def __pow__(self, other):
        return self.implement(standard.pow, 'forward', other)

    def __rpow__(self, other):
        return self.implement(standard.pow, 'reverse', other)

    def __ipow__(self, other):
        return self.implement(standard.pow, 'inplace', other)

    @abc.abstractmethod
    def implement(self, func, mode, *others, **kwargs):
        pass


class Scalar:
    def __int__(self):
        return self.implement(int, 'cast')

    def __float__(self):
        return self.implement(float, 'cast')

    def __round__(self):
        return self.implement(round, 'arithmetic')

    def __floor__(self):
        return self.implement(math.floor, 'arithmetic')

    def __ceil__(self):
        return self.implement(math.ceil, 'arithmetic')

    def __trunc__(self):
        return self.implement(math.trunc, 'arithmetic')
