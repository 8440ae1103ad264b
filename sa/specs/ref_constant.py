"""Reference definitions: goats.core.constant."""

MODULE = 'goats.core.constant'
COVERS = (
    'Assumption.__getitem__',
    'Assumption.__float__',
    'Assumption.__int__',
    'Option.__init__',
    'Option.__eq__',
    'Interface.__getitem__',
)


class Assumption:
    def __getitem__(self, arg):
        if isinstance(arg, str):
            return super().__getitem__(arg)
        values = super().__getitem__(arg)
        try:
            iter(values)
        except TypeError:
            result = physical.Scalar(values, unit=self.unit, name=self.name)
        else:
            result = [
                physical.Scalar(value, unit=self.unit, name=self.name)
                for value in values
            ]
        return result

    def __float__(self):
        return self._cast_to(float)

    def __int__(self):
        return self._cast_to(int)

    def _cast_to(self, __type):
        nv = len(self.data)
        if nv == 1:
            return __type(self.data[0])
        errmsg = f"Can't convert measurement with {nv!r} values to {__type}"
        raise TypeError(errmsg)


class Option:
    def __init__(self, __value, name=None):
        self.value = __value
        self._name = aliased.Group(name or '')
        self.display.register('value')
        self.display['__str__'] = '{value}'
        self.display['__repr__'] = '{value}'
        self.display['__repr__'].separator = ', '
        if self._name:
            self.display.register('name')
            self.display['__str__'].insert(0, "'{name}': ")
            self.display['__repr__'].insert(1, "'{name}'")

    def __eq__(self, other):
        if isinstance(other, Option):
            return other.value == self.value
        return other == self.value


class Interface:
    def __getitem__(self, __k):
        try:
            this = super().__getitem__(__k)
        except KeyError:
            raise KeyError
        value = this['value']
        aliases = self.alias(__k, include=True)
        if unit := this['unit']:
            return Assumption(value, unit=unit, name=aliases)
        return Option(value, name=aliases)
