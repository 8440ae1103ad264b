"""Reference definitions: goats.core.plasma."""

MODULE = 'goats.core.plasma'
COVERS = (
    'Species.__init__',
    'Species.symbol',
    'Species.mass',
    'Species.m',
    'Species.charge',
    'Species.q',
)


class Species:
    def __init__(self, symbol=None, mass=None, charge=None):
        self._symbol = symbol
        self._mass = mass
        self._charge = charge
        if (
            self._symbol is None
            and self._mass is None
            and (self._charge is None)
        ):
            raise ValueError

    @property
    def symbol(self):
        if self._symbol is None:
            s = fundamental.elements([self._mass], [self._charge])
            self._symbol = s[0]
        return self._symbol

    @property
    def mass(self):
        if self._mass is None:
            base = self._symbol.rstrip('+-')
            element = fundamental.ELEMENTS.find(base, unique=True)
            value = element['mass']
            unit = 'nucleon'
            aliases = ['m', 'mass']
            self._mass = physical.Scalar(value, unit=unit, name=aliases)
        return self._mass

    @property
    def m(self):
        return self.mass

    @property
    def charge(self):
        if self._charge is None:
            base = self._symbol.rstrip('+-')
            sign = self._symbol.lstrip(base)
            value = sum((float(f'{s}1.0') for s in sign))
            unit = 'e'
            aliases = ['q', 'charge']
            self._charge = physical.Scalar(value, unit=unit, name=aliases)
        return self._charge

    @property
    def q(self):
        return self.charge
