"""Reference definitions: metric units, conversions, systems."""

MODULE = 'goats.core.metric'
COVERS = (
    'Conversion.__new__',
    'Conversion.inverse',
    'Conversion.__float__',
    'Conversion.__bool__',
    'conversion',
    'ratio',
    'NamedUnit.__floordiv__',
    'NamedUnit.__rfloordiv__',
    'Unit.__floordiv__',
    'Unit.__rfloordiv__',
    '_Converter.__new__',
    '_Converter.to',
    'Quantity.convert',
    'identify',
    'build_unit_aliases',
    'NamedUnit.prefix',
    'NamedUnit.base',
    'NamedUnit.scale',
    'NamedUnit.reduce',
    '_NamedUnitMeta.__call__',
    'NamedUnit.__init__',
    'Reduction.__init__',
    'Reduction.units',
    'Reduction.__truediv__',
    'Reduction.__mul__',
    'Reduction.__pow__',
    'reduction',
    'Unit.__mul__',
    'Unit.__truediv__',
    'Unit.__pow__',
    'Unit.decomposed',
    'Unit.decompose',
    'Unit.__eq__',
    'Unit.__or__',
    'Unit.quantity',
    'Unit.norm',
    'Unit.dimensionless',
    'Unit.dimensions',
    'Unit.__init__',
    '_UnitMeta.__call__',
    'NamedUnit.name',
    'NamedUnit.symbol',
    'NamedUnit.quantity',
    'NamedUnit.norm',
    'NamedUnit.systems',
    'NamedUnit.decomposed',
    'NamedUnit.dimensions',
    'NamedUnit.is_allowed_in',
    'NamedUnit.is_defined_in',
    'NamedUnit.is_fundamental_in',
    'NamedUnit.__eq__',
    'NamedUnit.__hash__',
    'Dimension.fromunit',
    'Dimension.quantities',
    'Dimensions.fromunit',
    'Dimensions.__init__',
    'Dimensions.__getitem__',
    'Dimensions.__iter__',
    'Dimensions.__len__',
    'Properties.__init__',
    'Properties.unit',
    'Properties.dimension',
    'Properties.__eq__',
    'Quantity.__new__',
    'Quantity.__getitem__',
    'Quantity.__eq__',
    'Quantity.__or__',
    'System.__new__',
    'System.__getitem__',
    'System.get_unit',
    'System.__eq__',
    'System.__len__',
    'System.__iter__',
    'System.__bool__',
    '_Property.__new__',
    '_Property.__getitem__',
    '_Property.system',
    '_Property.__len__',
    '_Property.__iter__',
)


class _Property:
    def __new__(cls, arg):
        if isinstance(arg, cls):
            return arg
        name = str(arg)
        if name not in cls._supported:
            raise ValueError
        cached = cls._instances.get(name)
        if cached:
            return cached
        new = super().__new__(cls)
        new.key = name
        new._cache = {}
        cls._instances[name] = new
        return new

    def system(self, system):
        return {name: values[system] for name, values in self.items()}

    def __len__(self):
        return self.LEN

    def __iter__(self):
        return iter(_QUANTITIES)

    def __getitem__(self, quantity):
        if quantity in self._cache:
            return self._cache[quantity]
        found = _look_up(self, quantity)
        if not found:
            raise KeyError
        self._cache[quantity] = found
        return found


def _look_up(prop, quantity):
    if quantity in _QUANTITIES:
        entry = _QUANTITIES[quantity]
        if isinstance(entry, dict):
            return entry.get(prop.key, {})
        if not isinstance(entry, str):
            raise TypeError
        return _from_expression(prop, entry)
    return _from_expression(prop, quantity)


def _from_expression(prop, string):
    """Substitute the property of each named quantity, system by system."""
    for k in _QUANTITIES:
        string = string.replace(k, k.replace(' ', '_'))
    parts = [
        {
            system: prop._operand.create(value, term.exponent)
            for system, value in prop[term.base.replace('_', ' ')].items()
        }
        for term in symbolic.Expression(string)
    ]
    merged = {key: [] for key in {k for part in parts for k in part.keys()}}
    for part in parts:
        for key, value in part.items():
            merged[key].append(value)
    return {k: str(symbolic.Expression(v)) for k, v in merged.items()}


def build_unit_aliases(prefix, unit):
    aliases = [f'{prefix[k]}{unit[k]}' for k in ['name', 'symbol']]
    if prefix['symbol'] == 'μ':
        aliases += [f'u{unit["symbol"]}']
    return tuple(aliases)


class Reduction:
    def __init__(self, terms, scale=1.0, system=None):
        self._expression = scale * symbolic.Expression(terms)
        self.system = system
        self.scale = scale
        self._units = None

    @property
    def units(self):
        if self._units is None:
            self._units = [u for u in self._expression if u.base != '1']
        return self._units

    def __mul__(self, other):
        if not isinstance(other, numbers.Real):
            return NotImplemented
        return type(self)(
            list((self.scale * other) * self._expression),
            scale=self.scale * other,
            system=self.system,
        )

    def __truediv__(self, other):
        if not isinstance(other, numbers.Real):
            return NotImplemented
        return type(self)(
            list((self.scale / other) * self._expression),
            scale=self.scale / other,
            system=self.system,
        )

    def __pow__(self, other):
        if not isinstance(other, numbers.Real):
            return NotImplemented
        return type(self)(
            list((self.scale**other) * self._expression**other),
            scale=self.scale**other,
            system=self.system,
        )


def identify(string):
    try:
        entry = named_units[string]
    except KeyError as err:
        raise UnitParsingError(string)
    return Prefix(**entry['prefix']), BaseUnit(**entry['base'])


class _NamedUnitMeta:
    def __call__(cls, arg):
        if isinstance(arg, cls):
            return arg
        string = str(arg)
        known = cls._instances.get(string)
        if known:
            return known
        magnitude, reference = identify(string)
        name = f'{magnitude.name}{reference.name}'
        symbol = f'{magnitude.symbol}{reference.symbol}'
        cls._attributes[string] = {
            'prefix': magnitude,
            'base': reference,
            'name': name,
            'symbol': symbol,
            'scale': magnitude.factor,
            'quantity': reference.quantity,
        }
        new = super().__call__(arg)
        cls._instances[(name, symbol)] = new
        return new


class NamedUnit:
    def __init__(self, arg):
        self._parsed = self.__class__._attributes[str(arg)]
        self._prefix = None
        self._base = None
        self._name = None
        self._symbol = None
        self._scale = None
        self._quantity = None
        self._systems = None
        self._dimensions = None
        self._decomposed = None
        self._norm = None
        self._reductions = dict.fromkeys(SYSTEMS)

    @property
    def norm(self):
        if self._norm is None:
            self._norm = {
                system: type(self)(UNITS[self.quantity][system])
                for system in SYSTEMS
            }
        return self._norm.copy()

    @property
    def prefix(self):
        return self._parsed['prefix']

    @property
    def base(self):
        return self._parsed['base']

    @property
    def name(self):
        return self._parsed['name']

    @property
    def symbol(self):
        return self._parsed['symbol']

    @property
    def scale(self):
        return self._parsed['scale']

    @property
    def quantity(self):
        return self._parsed['quantity']

    @property
    def systems(self):
        if self._systems is None:
            modes = {k: [] for k in {'allowed', 'defined', 'fundamental'}}
            for system in SYSTEMS:
                if self.is_fundamental_in(system):
                    modes['fundamental'].append(system)
                if self.is_defined_in(system):
                    modes['defined'].append(system)
                if self.is_allowed_in(system):
                    modes['allowed'].append(system)
            self._systems = {k: tuple(v) for k, v in modes.items()}
        return self._systems.copy()

    @property
    def decomposed(self):
        if self._decomposed is None:
            with contextlib.suppress(StopIteration):
                system = next(s for s in SYSTEMS if self.is_fundamental_in(s))
                self._decomposed = _decomposition(self, system)
        return self._decomposed

    def reduce(self, system=None):
        chosen = _choose_system(self, system)
        if self._reductions[chosen]:
            return self._reductions[chosen]
        result = _reduction_in(self, chosen)
        self._reductions[chosen] = result
        return result

    @property
    def dimensions(self):
        if self._dimensions is None:
            self._dimensions = {
                k: symbolic.Expression(v) if v else None
                for k, v in _system_dimensions(
                    self, {s for s in self.systems['defined']}
                ).items()
            }
        return self._dimensions.copy()

    def is_allowed_in(self, system):
        return system in (
            {s for s in SYSTEMS if self.is_defined_in(s)} or SYSTEMS
        )

    def is_defined_in(self, system):
        if self.is_fundamental_in(system):
            return True
        with contextlib.suppress(UnitParsingError):
            canonical = type(self)(CANONICAL['units'][system][self.quantity])
            if self.base == canonical.base:
                return True
        return False

    def is_fundamental_in(self, system):
        canonical = CANONICAL['units'][system][self.quantity]
        for key in (self.symbol, self.name):
            if key == canonical:
                return True
        return False

    def __eq__(self, other):
        that = type(self)(other)
        same = self.prefix == that.prefix
        alike = self.base == that.base
        return same and alike

    def __hash__(self):
        return hash((self.base, self.prefix))

    def __floordiv__(self, other):
        return ratio(other, self)

    def __rfloordiv__(self, other):
        return ratio(self, other)


def _choose_system(unit, system):
    if isinstance(system, str) and system.lower() in SYSTEMS:
        return system.lower()
    fundamental = [s for s in SYSTEMS if unit.is_fundamental_in(s)]
    if len(fundamental) == 1:
        return fundamental[0]
    if unit.dimensions['mks'] == unit.dimensions['cgs']:
        return 'mks'
    if unit.dimensions['mks'] is None:
        return 'cgs'
    if unit.dimensions['cgs'] is None:
        return 'mks'
    raise SystemAmbiguityError(str(unit))


def _base_terms(expression, system):
    """The base unit of each base dimension, raised to its exponent."""
    quantities = [
        _BASE_QUANTITIES.find(term.base)[0]['name'] for term in expression
    ]
    units = [_QUANTITIES[q]['units'][system] for q in quantities]
    return [
        symbolic.Term(base=unit, exponent=term.exponent)
        for unit, term in zip(units, expression)
    ]


def _decomposition(unit, system):
    if not unit.is_defined_in(system):
        return None
    dimension = unit.dimensions[system]
    expression = symbolic.Expression(dimension)
    if len(dimension) == 1:
        return [symbolic.Term(unit.symbol)]
    return _base_terms(expression, system)


def _reduction_in(unit, system):
    if not unit.is_defined_in(system):
        return None
    expression = symbolic.Expression(unit.dimensions[system])
    if len(expression) == 1:
        canonical = CANONICAL['units'][system][unit.quantity]
        if unit.symbol == canonical:
            return Reduction([symbolic.Term(unit.symbol)], system=system)
        return Reduction(
            [symbolic.Term(canonical)],
            scale=(canonical // unit),
            system=system,
        )
    return Reduction(
        _base_terms(expression, system), scale=unit.scale, system=system
    )


def _system_dimensions(unit, systems):
    dimensions = DIMENSIONS[unit.quantity]
    if not systems or systems == SYSTEMS:
        return dimensions.copy()
    if len(systems) == 1:
        result = dict.fromkeys(SYSTEMS)
        system = systems.pop()
        result[system] = dimensions[system]
        return result
    raise SystemAmbiguityError


def ratio(this, that):
    pair = [NamedUnit(i) if isinstance(i, str) else i for i in (this, that)]
    if not all(isinstance(i, NamedUnit) for i in pair):
        raise TypeError
    u0, u1 = pair
    if u1 == u0:
        return 1.0
    if u1.base != u0.base:
        raise ValueError
    return u0.scale / u1.scale


class Conversion:
    def __new__(cls, *args):
        if len(args) == 1 and isinstance(args[0], cls):
            return args[0]
        key = tuple(args)
        known = cls._instances.get(key)
        if known:
            return known
        u0, u1 = key
        new = super().__new__(cls)
        new.u0 = u0
        new.u1 = u1
        new._factor = new._compute(
            (new._convert_as_strings, new._convert_as_expressions)
        )
        cls._instances[key] = new
        return new

    @property
    def inverse(self):
        return type(self)(self.u1, self.u0)

    def _compute(self, methods):
        for method in methods:
            self._checked = []
            if factor := method(self.u0, self.u1):
                return factor
        raise UnitConversionError(self.u0, self.u1)

    def _convert_as_strings(self, u0, u1, scale=1.0):
        self._checked += [u0]
        if factor := self._simple_conversion(u0, u1):
            return factor
        if factor := self._complex_conversion(u0, u1):
            return factor

    def _simple_conversion(self, u0, u1, scale=1.0):
        if u0 == u1:
            return scale
        if found := self._search(u0, u1):
            return scale * found
        try:
            change = NamedUnit(u1) // NamedUnit(u0)
        except (ValueError, UnitParsingError):
            return None
        return scale * change

    @classmethod
    def _search(cls, u0, u1):
        if (u0, u1) in CONVERSIONS:
            return CONVERSIONS.get_weight(u0, u1)
        starts = cls._get_aliases_of(u0)
        ends = cls._get_aliases_of(u1)
        for ux in starts:
            for uy in ends:
                if (ux, uy) in CONVERSIONS:
                    return CONVERSIONS.get_weight(ux, uy)

    @classmethod
    def _get_aliases_of(cls, unit):
        names = [unit]
        if unit in named_units:
            known = NamedUnit(unit)
            names.extend([known.symbol, known.name])
        return names

    def _complex_conversion(self, u0, u1, scale=1.0):
        if u0 not in self.units:
            if direct := self._rescale(u0, u1):
                return scale * direct
        if u1 not in self.units:
            if reverse := self._rescale(u1, u0):
                return scale / reverse
        for unit, weight in CONVERSIONS.get_adjacencies(u0).items():
            if unit not in self._checked:
                if rest := self._convert_as_strings(unit, u1, scale=scale):
                    return weight * rest

    @classmethod
    def _rescale(cls, u0, u1):
        if not u0 in named_units:
            return None
        n0 = NamedUnit(u0)
        for ux in cls.units:
            if ux in named_units:
                nx = NamedUnit(ux)
                if nx.base == n0.base:
                    if found := cls._search(ux, u1):
                        return (nx // n0) * found

    def _convert_as_expressions(self, u0, u1):
        e0, e1 = symbolic.Expression(u0), symbolic.Expression(u1)
        if e0 == e1:
            return 1.0
        quotient = e0 / e1
        scale = float(numpy.prod([float(t.coefficient) for t in quotient]))
        terms = [t for t in quotient if t.base not in UNITY]
        if factor := self._resolve_terms(terms):
            return scale * factor
        if factor := self._convert_by_dimensions(terms):
            return scale * factor
        raise UnitConversionError(self.u0, self.u1)

    def _convert_by_dimensions(self, terms):
        factor = 1.0
        parts = []
        for term in terms:
            named = NamedUnit(term.base)
            reduced = named.reduce()
            if reduced:
                factor *= reduced.scale**term.exponent
                parts.extend(
                    [
                        symbolic.Term(
                            base=u.base, exponent=term.exponent * u.exponent
                        )
                        for u in reduced.units
                    ]
                )
            elif not all(d == '1' for d in named.dimensions.values()):
                parts.append(term)
        if symbolic.Expression(parts) == '1':
            return factor
        if rest := self._resolve_terms(parts):
            return factor * rest

    def _match_terms(self, target, terms):
        alike = [
            t for t in terms if t != target and t.exponent == -target.exponent
        ]
        for term in alike:
            if factor := self._convert_as_strings(target.base, term.base):
                return factor**target.exponent, term
        dimensions = NamedUnit(target.base).dimensions.values()
        if target.base in named_units and all(d == '1' for d in dimensions):
            return 1.0, target

    def _resolve_terms(self, terms):
        if len(terms) <= 1:
            return None
        factor = 1.0
        matched = []
        unmatched = terms.copy()
        for target in terms:
            if target not in matched:
                if match := self._match_terms(target, unmatched):
                    value, term = match
                    if term != target:
                        for this in (target, term):
                            matched.append(this)
                            unmatched.remove(this)
                    else:
                        matched.append(target)
                        unmatched.remove(target)
                    factor *= value
        if not unmatched:
            return factor

    def __float__(self):
        if bool(self):
            return self._factor
        raise TypeError

    def __bool__(self):
        try:
            factor = self._factor
        except:
            return False
        return bool(factor)


class _Converter:
    def __new__(cls, *args):
        if len(args) == 1 and isinstance(args[0], cls):
            return args[0]
        key = tuple(str(a) for a in args)
        known = cls._instances.get(key)
        if known:
            return known
        unit, quantity = key
        new = super().__new__(cls)
        new.quantity = quantity
        new._substitutions = UNITS[quantity]
        new.unit = new._substitutions.get(unit) or unit
        new._defined = None
        cls._instances[key] = new
        return new

    def to(self, target):
        unit = self._substitutions.get(target) or target
        if self.unit == unit:
            return 1.0
        found = Conversion(self.unit, unit)
        if found:
            return float(found)
        raise ValueError


class _UnitMeta:
    def __call__(cls, arg, **kwargs):
        if isinstance(arg, cls):
            return arg
        if isinstance(arg, str):
            string = arg
        else:
            try:
                string = str(arg[0]) if len(arg) == 1 else None
            except TypeError:
                string = None
        if string in cls._instances:
            return cls._instances[string]
        new = super().__call__(arg, **kwargs)
        name = str(new)
        if name in cls._instances:
            known = cls._instances[name]
            if isinstance(arg, str):
                cls._instances.alias(name, arg)
            return known
        try:
            named = NamedUnit(name)
            key = (named.name, named.symbol)
        except UnitParsingError:
            key = (name, string) if string else name
        cls._instances[key] = new
        return new


class Unit:
    def __init__(self, expression, **kwargs):
        super().__init__(expression, **kwargs)
        self._dimensions = None
        self._decomposed = None
        self._dimensionless = None
        self._quantity = None
        self._norm = None

    @property
    def norm(self):
        if self._norm is None:
            self._norm = {
                system: type(self)(
                    symbolic.power(UNITS[term.base][system], term.exponent)
                    for term in self.quantity
                )
                for system in SYSTEMS
            }
        return self._norm.copy()

    @property
    def quantity(self):
        if self._quantity is None:
            self._quantity = symbolic.Expression(
                [
                    symbolic.Term(
                        NamedUnit(term.base).quantity.replace(' ', '_')
                    )
                    ** term.exponent
                    for term in self
                ]
            )
        return self._quantity

    @property
    def dimensionless(self):
        if self._dimensionless is None:
            self._dimensionless = all(
                d == '1' for d in self.dimensions.values()
            )
        return self._dimensionless

    @property
    def dimensions(self):
        if self._dimensions is None:
            self._dimensions = Dimensions.fromunit(self)
        return self._dimensions

    def __mul__(self, other):
        if self is other or super().__eq__(other):
            return super().__pow__(2)
        return _combine(self, symbolic.product, other)

    def __truediv__(self, other):
        if self is other or super().__eq__(other):
            return type(self)(1)
        return _combine(self, symbolic.ratio, other)

    def __pow__(self, exp):
        return _combine(self, symbolic.power, exp)

    @property
    def decomposed(self):
        if self._decomposed is None:
            self._decomposed = self.decompose(self)
        return self._decomposed

    @classmethod
    def decompose(cls, unit):
        return symbolic.reduce(
            [
                part
                for term in symbolic.Expression(unit)
                for part in _expanded(term)
            ]
        )

    def __floordiv__(self, other):
        if isinstance(other, (str, Unit)):
            return conversion(other, self, strict=True)
        return NotImplemented

    def __rfloordiv__(self, other):
        if isinstance(other, (str, Unit)):
            return conversion(self, other, strict=True)
        return NotImplemented

    def __eq__(self, other):
        if other is self:
            return True
        if super().__eq__(other):
            return True
        if all(
            str(term) in UNITY
            for term in self.difference(other, symmetric=True)
        ):
            return True
        this = type(self)(other)
        if set(self.decomposed) == set(this.decomposed):
            return True
        if symbolic.equality(self.decomposed, this.decomposed):
            return True
        if self.dimensionless != this.dimensionless:
            return False
        try:
            return self // this == 1.0
        except UnitConversionError:
            return False

    def __or__(self, other):
        that = type(self)(other)
        for system in SYSTEMS:
            mine = self.dimensions[system]
            if mine and any(d == mine for d in that.dimensions.values()):
                return True
        if self.quantity == that.quantity:
            return True
        try:
            self // that
        except UnitConversionError:
            return False
        return True


def _expanded(term):
    try:
        current = NamedUnit(term.base).decomposed
    except (UnitParsingError, SystemAmbiguityError):
        current = None
    if current is None:
        return [term]
    return [part**term.exponent for part in current]


def _combine(unit, operation, other):
    mine = unit.decomposed
    if isinstance(other, numbers.Number):
        return type(unit)(operation(mine, other))
    return type(unit)(operation(mine, unit.decompose(other)))


def conversion(u0, u1, strict=False):
    try:
        return float(Conversion(str(u0), str(u1)))
    except UnitConversionError as err:
        if strict:
            raise err


class Dimension:
    @classmethod
    def fromunit(cls, unit, system):
        product = symbolic.Expression('1')
        systems = set()
        for term in unit:
            named = NamedUnit(term.base)
            allowed = named.systems['allowed']
            chosen = system if len(allowed) > 1 else allowed[0]
            product *= (
                symbolic.Expression(named.dimensions[chosen]) ** term.exponent
            )
            systems.update(allowed)
        if system in systems:
            return cls(product)
        raise ValueError

    def quantities(self, system):
        if system in self._quantities:
            return self._quantities[system]
        found = {
            k for k, v in CANONICAL['dimensions'][system].items() if v == self
        }
        self._quantities[system] = found
        return found


class Dimensions:
    @classmethod
    def fromunit(cls, unit):
        guard = iterables.Guard(Dimension.fromunit)
        guard.catch(ValueError)
        return cls(**{s: guard.call(unit, s) for s in SYSTEMS})

    def __init__(self, common=None, **systems):
        created = dict.fromkeys(SYSTEMS)
        default = Dimension(common) if common else None
        created.update(
            {k: Dimension(v) if v else default for k, v in systems.items()}
        )
        if not any(created.values()):
            raise TypeError
        self._objects = created

    def __len__(self):
        return len(self._objects)

    def __iter__(self):
        return iter(self._objects)

    def __getitem__(self, __k):
        key = str(__k).lower()
        if key not in self._objects:
            raise KeyError
        return self._objects[key]


class Properties:
    def __init__(self, system, unit):
        self._system = system.lower()
        self._unit = Unit(unit)
        self._dimension = None

    @property
    def unit(self):
        return self._unit

    @property
    def dimension(self):
        if self._dimension is None:
            self._dimension = self.unit.dimensions[self._system]
        return self._dimension

    def __eq__(self, __o):
        try:
            return all(
                [
                    getattr(self, attr) == getattr(__o, attr)
                    for attr in ('unit', 'dimension')
                ]
            )
        except AttributeError:
            return False


class Quantity:
    def __new__(cls, arg):
        if isinstance(arg, cls):
            return arg
        name = str(arg).lower()
        known = cls._instances.get(name)
        if known:
            return known
        new = super().__new__(cls)
        new.name = name
        new.units = UNITS[name]
        new.dimensions = DIMENSIONS[name]
        cls._instances[name] = new
        return new

    def __getitem__(self, system):
        try:
            return Properties(system, self.units[system.lower()])
        except KeyError as err:
            raise QuantityError

    def convert(self, unit):
        return _Converter(unit, self.name)

    def __eq__(self, other):
        if isinstance(other, str):
            return other.lower() == self.name
        return other is self

    def __or__(self, other):
        if not isinstance(other, Quantity):
            return NotImplemented
        for system in SYSTEMS:
            if self[system].dimension != other[system].dimension:
                return False
        return True


class System:
    def __new__(cls, arg):
        if isinstance(arg, cls):
            return arg
        name = arg.lower()
        known = cls._instances.get(name)
        if known:
            return known
        new = super().__new__(cls)
        new.name = name
        new.dimensions = CANONICAL['dimensions'][name]
        new.units = CANONICAL['units'][name]
        cls._instances[name] = new
        return new

    def __len__(self):
        return _QUANTITIES.__len__()

    def __iter__(self):
        return _QUANTITIES.__iter__()

    def __getitem__(self, key):
        try:
            quantity = Quantity(key)
        except ValueError as err:
            raise KeyError
        return quantity[self.name]

    def get_unit(self, *, unit=None, dimension=None, quantity=None):
        return self._get_unit(
            {
                k: getattr(self, f'_unit_from_{k}')
                for k in ('unit', 'dimension', 'quantity')
            },
            {'unit': unit, 'dimension': dimension, 'quantity': quantity},
        )

    def _get_unit(self, methods, targets):
        given = {k: v for k, v in targets.items() if v}
        for method, arg in [(methods[k], v) for k, v in given.items()]:
            if str(arg) == '1':
                return Unit(self['identity'].unit)
            if found := method(arg):
                return found
        raise SearchError

    def _unit_from_unit(self, target):
        unit = Unit(target)
        return unit.norm[self.name]

    def _unit_from_dimension(self, target):
        for quantity, dimension in self.dimensions.items():
            if dimension == target:
                return Unit(self.units[quantity])

    def _unit_from_quantity(self, quantity):
        return Unit(self[quantity].unit)

    def __eq__(self, other):
        if isinstance(other, System):
            return other.name == self.name
        return NotImplemented

    def __bool__(self):
        return True


def reduction(unit, system=None):
    parts = []
    for term in symbolic.Expression(unit):
        try:
            current = NamedUnit(term.base).reduce(system=system)
        except (UnitParsingError, SystemAmbiguityError):
            current = None
        if current:
            parts.append(current**term.exponent)
    if not parts:
        return None
    result = parts[0]
    for other in parts[1:]:
        result *= other.scale
    return result
