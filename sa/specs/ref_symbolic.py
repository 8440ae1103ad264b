"""Reference definitions: symbolic terms, expressions and their parser."""

MODULE = 'goats.core.symbolic'
COVERS = (
    'Patterns.rational',
    'Patterns.base',
    'Patterns.__init__',
    'Patterns.__getitem__',
    'Patterns.__setitem__',
    'Patterns.__delitem__',
    'Operand.format',
    'Operand.__init__',
    'Operand.attrs',
    'Operand.__pow__',
    'Operand.__mul__',
    'Operand.__rmul__',
    'Operand.__eq__',
    'Term.__init__',
    'Term.__call__',
    'Term.__int__',
    'Term.__float__',
    'Term.__eq__',
    'Term.__hash__',
    'Term.format',
    'Expression.__new__',
    'Expression.__init__',
    'Expression.__iter__',
    'Expression.__len__',
    'Expression.__getitem__',
    'Expression.difference',
    'Expression.__hash__',
    'Expression.__eq__',
    'Expression.__mul__',
    'Expression.__rmul__',
    'Expression.__truediv__',
    'Expression.__rtruediv__',
    'Expression.__pow__',
    'Expression.apply',
    'Expression.format',
    'reduce',
    'equality',
    'product',
    'ratio',
    'power',
    'standard',
    'composition',
    'asterms',
    'Operator.__init__',
    'Operator.__eq__',
    'Operator.__hash__',
    'PartMatch.__init__',
    'PartMatch.start',
    'PartMatch.end',
    'PartMatch.string',
    'PartMatch.remainder',
    'PartMatch.__bool__',
    'PartMatch.__new__',
    'OperatorFactory.__init__',
    'OperatorFactory.parse',
    'OperandFactory.__init__',
    'OperandFactory.isvalid',
    'OperandFactory.normalize',
    'OperandFactory.create',
    'OperandFactory.parse',
    'OperandFactory.search',
    'OperandFactory.find_bounds',
    'OperandFactory.standardize',
    'OperandFactory.fill_defaults',
    'OperandFactory.strip_separators',
    'Term._base_re',
    'OperandFactory.rational',
    'OperandFactory.base',
    'OperandFactory._argtypes',
    'Iteration.__init__',
    'Iteration.copy',
    'Parser.__init__',
    'Parser.parse',
    'ParsingError.__init__',
)


class Patterns(collections.UserDict):
    rational = ' # Modeled after `fractions._RATIONAL_FORMAT`\n        [-+]?                 # an optional sign, ...\n        (?=\\d|\\.\\d)           # ... only if followed by <digit> or .<digit>\n        \\d*                   # and a possibly empty numerator\n        (?:                   # followed by ...\n            (?:/\\d+?)         # ... an optional denominator\n        |                     # OR\n            (?:\\.\\d*)?        # ... an optional fractional part,\n            (?:[eE][-+]?\\d+)? #     and an optional exponent\n        )\n    '
    base = '\n        [a-zA-Z#_]+ # one or more accepted non-digit character(s)\n        \\d*         # followed by optional digits\n    '

    def __init__(
        self,
        multiplication='*',
        division='/',
        opening='(',
        closing=')',
        raising='^',
    ):
        multiply = f'\\{multiplication}'
        divide = f'\\{division}'
        exponent = f'\\{raising}{self.rational}'
        patterns = {
            'multiply': f'(?<!{divide})(\\s*{multiply}\\s*)(?!{divide})',
            'divide': f'(?<!{multiply})(\\s*{divide}\\s*)(?!{multiply})',
            'sqrt': '\\s*sqrt\\s*',
            'constant': f'(?P<coefficient>{self.rational})(?P<exponent>{exponent})?',
            'variable': f'(?P<coefficient>{self.rational})?(?P<base>{self.base})(?P<exponent>{exponent})?',
            'expression': f'(?P<coefficient>{self.rational})?(?P<base>\\{opening}.+?\\{closing})(?P<exponent>{exponent})?',
            'exponent': exponent,
            'opening': f'\\{opening}',
            'closing': f'\\{closing}',
            'raising': f'\\{raising}',
        }
        self._compiled = {}
        super().__init__(patterns)

    def __getitem__(self, __k):
        if __k in self._compiled:
            return self._compiled[__k]
        if __k in self.data:
            compiled = re.compile(self.data[__k], re.VERBOSE)
            self._compiled[__k] = compiled
            return compiled
        raise KeyError

    def __setitem__(self, __k, __v):
        self._compiled.pop(__k, None)
        return super().__setitem__(__k, __v)

    def __delitem__(self, __k):
        self._compiled.pop(__k, None)
        return super().__delitem__(__k)


class Operator:
    def __init__(self, operation):
        self.operation = operation

    def __hash__(self):
        return hash(self.operation)

    def __eq__(self, other):
        if isinstance(other, Operator):
            return self.operation == other.operation
        if isinstance(other, str):
            return self.operation == other
        return NotImplemented


class Operand:
    def format(self):
        if self.coefficient == 1 and self.exponent == 1:
            return self.base
        text = f'({self.base})'
        if self.exponent != 1:
            text = f'{text}^{self.exponent}'
        if self.coefficient != 1:
            text = f'{self.coefficient}{text}'
        return text

    def __init__(self, coefficient=None, base=None, exponent=None):
        if coefficient is None:
            coefficient = 1
        if exponent is None:
            exponent = 1
        self.coefficient = fractions.Fraction(coefficient)
        self.base = base or '1'
        self.exponent = fractions.Fraction(exponent)

    @property
    def attrs(self):
        return (self.coefficient, self.base, self.exponent)

    def __pow__(self, power):
        return type(self)(
            self.coefficient**power, self.base, self.exponent * power
        )

    def __mul__(self, other):
        return type(self)(self.coefficient * other, self.base, self.exponent)

    def __rmul__(self, other):
        return type(self)(self.coefficient * other, self.base, self.exponent)

    def __eq__(self, other):
        if not isinstance(other, Operand):
            return NotImplemented
        return (
            other.base == self.base
            and float(other.exponent) == float(self.exponent)
            and float(other.coefficient) == float(self.coefficient)
        )


class Term(Operand):
    rational = r""" [-+]? (?=\d|\.\d) \d*
        (?: (?:/\d+?) | (?:\.\d*)? (?:[eE][-+]?\d+)? )
    """
    base = r""" [a-zA-Z#_]+ \d* """
    _base_re = re.compile(rf'({rational}|{base})', re.VERBOSE)

    def __init__(self, *args, **kwargs):
        if not kwargs:
            if not args:
                return super().__init__()
            if len(args) == 1:
                self._validate_base(args[0])
                return super().__init__(base=args[0])
            if len(args) == 3:
                self._validate_base(args[1])
                return super().__init__(*args)
        if args:
            raise TypeError
        if 'base' in kwargs:
            self._validate_base(kwargs['base'])
        super().__init__(**kwargs)

    def _validate_base(self, base):
        if not self._base_re.fullmatch(str(base)):
            raise ValueError

    def __call__(self, value):
        if not isinstance(value, numbers.Real):
            raise TypeError
        if self.base == '1':
            raise TypeError
        return type(self)(coefficient=self.coefficient * value**self.exponent)

    def format(self, style=None):
        if self.base == '1':
            if float(self.coefficient) == int(self.coefficient):
                return f'{str(int(self.coefficient))}'
            return f'{str(self.coefficient)}'
        if self.coefficient == 1:
            c = ''
        elif (
            isinstance(self.coefficient, fractions.Fraction)
            and self.coefficient.denominator != 1
        ):
            c = f'({self.coefficient})'
        elif float(self.coefficient) == int(self.coefficient):
            c = str(int(self.coefficient))
        else:
            c = str(self.coefficient)
        if self.exponent == 1:
            e = ''
        elif not style:
            e = f'^{self.exponent}'
        elif 'tex' in style.lower():
            e = f'^{{{self.exponent}}}'
        else:
            raise ValueError
        return f'{c}{self.base}{e}'

    def __int__(self):
        if self.base != '1':
            raise TypeError
        return int(self.coefficient)

    def __float__(self):
        if self.base != '1':
            raise TypeError
        return float(self.coefficient)

    def __eq__(self, other):
        if isinstance(other, numbers.Real):
            return float(self) == float(other)
        if isinstance(other, str):
            other = OperandFactory().create(other)
        return super().__eq__(other)

    def __hash__(self):
        return hash(self.attrs)


def asterms(these):
    return [OperandFactory().create(this) for this in these]


class PartMatch:
    def __new__(cls, result, context):
        if not isinstance(result, Part):
            raise TypeError
        if not isinstance(context, re.Match) and not isinstance(
            context, typing.Mapping
        ):
            raise TypeError
        return super().__new__(cls)

    def __init__(self, result, context):
        self.result = result
        self._context = None
        if isinstance(context, re.Match):
            self._context = {
                'start': context.start(),
                'end': context.end(),
                'string': context.string,
            }
        elif isinstance(context, typing.Mapping):
            self._context = {
                'start': context.get('start'),
                'end': context.get('end'),
                'string': context.get('string'),
            }

    @property
    def start(self):
        return self._context['start']

    @property
    def end(self):
        return self._context['end']

    @property
    def string(self):
        return self._context['string']

    @property
    def remainder(self):
        return self.string[self.end :]

    def __bool__(self):
        return True


class OperatorFactory:
    def __init__(self, multiply='*', divide='/'):
        mul = f'\\{multiply}'
        div = f'\\{divide}'
        self.patterns = {
            'multiply': re.compile(rf'(?<!{div})(\s*{mul}\s*)(?!{div})'),
            'divide': re.compile(rf'(?<!{mul})(\s*{div}\s*)(?!{mul})'),
            'sqrt': re.compile(r'\s*sqrt\s*'),
        }

    def parse(self, string):
        for key in self.patterns:
            match = self.patterns[key].match(string)
            if match:
                return PartMatch(result=Operator(key), context=match)


class OperandFactory:
    rational = r""" [-+]? (?=\d|\.\d) \d*
        (?: (?:/\d+?) | (?:\.\d*)? (?:[eE][-+]?\d+)? )
    """
    base = r""" [a-zA-Z#_]+ \d* """
    _argtypes = {
        'coefficient': numbers.Real,
        'base': str,
        'exponent': (numbers.Real, str),
    }

    def __init__(self, opening='(', closing=')', raising='^'):
        number = self.rational
        up = rf'\{raising}{number}'
        self.patterns = {
            'constant': re.compile(
                f'(?P<coefficient>{number})(?P<exponent>{up})?', re.VERBOSE
            ),
            'variable': re.compile(
                f'(?P<coefficient>{number})?(?P<base>{self.base})'
                f'(?P<exponent>{up})?',
                re.VERBOSE,
            ),
            'complex': re.compile(
                f'(?P<coefficient>{number})?'
                rf'(?P<base>\{opening}.+?\{closing})'
                f'(?P<exponent>{up})?',
                re.VERBOSE,
            ),
            'exponent': re.compile(up, re.VERBOSE),
            'opening': re.compile(rf'\{opening}', re.VERBOSE),
            'closing': re.compile(rf'\{closing}', re.VERBOSE),
            'raising': re.compile(rf'\{raising}', re.VERBOSE),
        }

    @classmethod
    def isvalid(cls, name, this):
        return isinstance(this, cls._argtypes[name])

    def normalize(self, *args):
        n = len(args)
        if n == 1:
            if self.isvalid('base', args[0]):
                return self.standardize(fill=True, base=args[0])
            if self.isvalid('coefficient', args[0]):
                return self.standardize(fill=True, coefficient=args[0])
            raise OperandTypeError
        if n == 2:
            for names in itertools.combinations(self._argtypes, 2):
                given = dict(zip(names, args))
                if all(self.isvalid(k, v) for k, v in given.items()):
                    return self.standardize(fill=True, **given)
            raise OperandTypeError
        if n == 3:
            return self.standardize(
                coefficient=args[0], base=args[1], exponent=args[2], fill=True
            )
        raise OperandValueError

    def create(self, *args, strict=False):
        c0, b0, e0 = self.normalize(*args).values()
        if self.patterns['raising'].match(b0[0]) or self.patterns[
            'raising'
        ].match(b0[-1]):
            raise OperandValueError
        match = self.search(b0, mode='fullmatch')
        if not match:
            return None if strict else Operand(c0, b0, e0)
        if not isinstance(match.result, Operand):
            raise TypeError
        c1, base, e1 = match.result.attrs
        c = c0 * c1**e0
        e = e1 * e0
        if isinstance(match.result, Term):
            return Term(coefficient=c, base=base, exponent=e)
        inner = self.create(base)
        if isinstance(inner, Term):
            return Term(
                coefficient=c * inner.coefficient**e,
                base=inner.base,
                exponent=e * inner.exponent,
            )
        return Operand(coefficient=c, base=base, exponent=e)

    def parse(self, string):
        match = self.search(string.strip())
        if match:
            return match

    def search(self, string, **kwargs):
        match = iterables.apply(
            (self._match_simplex, self._match_complex), string, **kwargs
        )
        if match:
            return match

    def _match_simplex(self, string, mode='match', start=0):
        target = string[start:]
        variable = getattr(self.patterns['variable'], mode)(target)
        constant = getattr(self.patterns['constant'], mode)(target)
        if not variable and not constant:
            return None
        if constant and (not variable or variable[0] == constant[0]):
            parts = self.standardize(**constant.groupdict(), fill=True)
            value = float(parts['coefficient'] ** parts['exponent'])
            return PartMatch(result=Term(coefficient=value), context=constant)
        parts = self.standardize(**variable.groupdict(), fill=True)
        return PartMatch(result=Term(**parts), context=variable)

    def _match_complex(self, string, mode='match', start=0):
        target = string[start:]
        bounds = self.find_bounds(target)
        if not bounds:
            return None
        i0, end = bounds
        parts = {'base': target[i0 + 1 : end - 1]}
        lead = self._match_simplex(target[:i0], mode='fullmatch')
        if lead:
            parts['coefficient'] = lead.result.coefficient
            i0 = 0
        if mode == 'match' and i0 != 0:
            return None
        power = self.patterns['exponent'].match(target[end:])
        if power:
            parts['exponent'] = power[0]
            end = end + power.end()
        if mode == 'fullmatch' and (i0, end) != (0, len(target)):
            return None
        return PartMatch(
            result=Operand(**self.standardize(**parts, fill=True)),
            context={'end': end, 'start': start, 'string': string},
        )

    def find_bounds(self, string):
        depth = 0
        started = False
        first = 0
        for i, c in enumerate(string):
            if self.patterns['opening'].match(c):
                depth += 1
                if not started:
                    started = True
                    first = i
            elif self.patterns['closing'].match(c):
                depth -= 1
            if started and depth == 0:
                return first, i + 1

    def standardize(self, fill=False, **given):
        full = {
            'coefficient': {'callable': self._standard_coefficient},
            'base': {'callable': self._standard_base},
            'exponent': {'callable': self._standard_exponent},
        }
        default = self.fill_defaults(**dict.fromkeys(full.keys()))
        wanted = full.copy() if fill else {k: full[k] for k in given}
        return {
            key: attr['callable'](
                default[key] if given.get(key) in {None, ''} else given[key]
            )
            for key, attr in wanted.items()
        }

    def _standard_coefficient(self, v):
        return fractions.Fraction(v)

    def _standard_base(self, v):
        return str(v)

    def _standard_exponent(self, v):
        if isinstance(v, str):
            v = self.patterns['raising'].sub('', v)
        return fractions.Fraction(v)

    def fill_defaults(self, **given):
        defaults = {'coefficient': 1, 'base': '1', 'exponent': 1}
        given.update(
            {
                k: defaults[k]
                for k, v in given.items()
                if k in defaults and not v
            }
        )
        return given

    def strip_separators(self, string):
        if self.patterns['opening'].match(string[0]) and self.patterns[
            'closing'
        ].match(string[-1]):
            inner = self.patterns['opening'].sub('', string, count=1)
            return self.patterns['closing'].sub('', inner[::-1], count=1)[::-1]
        return string


class ParsingError:
    def __init__(self, arg):
        self.arg = arg


class Iteration:
    def __init__(self, string, operator=None, operand=None):
        self.string = string
        self.operator = operator
        self.operand = operand

    def copy(self):
        return type(self)(
            string=self.string, operator=self.operator, operand=self.operand
        )


class Parser:
    def __init__(
        self,
        multiply='*',
        divide='/',
        opening='(',
        closing=')',
        raising='^',
        operator_order='ignore',
    ):
        self.operands = OperandFactory(opening, closing, raising)
        self.operators = OperatorFactory(multiply, divide)
        self.parsers = (self.operands, self.operators)
        self.tokens = {
            'multiply': multiply,
            'divide': divide,
            'opening': opening,
            'closing': closing,
            'raising': raising,
        }
        self._operator_order = operator_order

    def parse(self, string):
        return self._resolve_operations(Operand(base=string))

    def _resolve_operations(self, current):
        return [
            term
            for operand in self._parse_operand(current)
            for term in (
                [operand]
                if isinstance(operand, Term)
                else self._resolve_operations(operand)
            )
        ] + [Term(coefficient=current.coefficient)]

    def _parse_operand(self, initial):
        operands = []
        now = Iteration(initial.base)
        last = now.copy()
        while now.string:
            parsed = self.operators.parse(now.string)
            if parsed:
                now.operator = parsed.result
                if (
                    self._operator_order != 'ignore'
                    and last.operator == 'divide'
                ):
                    if now.operator == 'divide':
                        raise RatioError(initial)
                    if now.operator == 'multiply':
                        raise ProductError(initial)
                now.string = parsed.remainder
            parsed = self.operands.parse(now.string)
            if parsed:
                now.operand = parsed.result**initial.exponent
                now.string = parsed.remainder
            new = _result(now)
            if new:
                operands.append(new)
            last = now.copy()
            now = Iteration(last.string)
        return operands


def _result(now):
    if now.operand and now.operator:
        if now.operator in {'multiply', 'identity'}:
            return now.operand
        if now.operator == 'divide':
            return now.operand**-1
        if now.operator == 'sqrt':
            return now.operand**0.5
        raise ValueError
    if now.operand:
        return now.operand
    raise ParsingValueError


def standard(this, missing='1', joiner='*'):
    if not this:
        return missing
    if isinstance(this, str):
        return this
    try:
        iter(this)
    except TypeError:
        return str(this)
    return joiner.join(f'({part})' for part in this)


class Expression:
    def __new__(cls, *args, **kwargs):
        if len(args) == 1 and isinstance(args[0], cls):
            if kwargs:
                raise TypeError
            return args[0]
        return super().__new__(cls)

    def __init__(self, expression, **kwargs):
        text = standard(expression, joiner=' * ')
        self.terms = reduce(Parser(**kwargs).parse(text))

    def __iter__(self):
        return iter(self.terms)

    def __len__(self):
        return len(self.terms)

    def __getitem__(self, index):
        if isinstance(index, typing.SupportsIndex):
            i = int(index)
            if i > len(self):
                raise IndexError
            if i < 0:
                i = i + len(self)
            return self.terms[i]
        return self.terms[index]

    def format(self, separator=' ', style=None):
        return separator.join(term.format(style=style) for term in self)

    def difference(self, other, symmetric=False, split=False):
        if not isinstance(other, Expression):
            other = type(self)(other)
        mine = set(self.terms)
        theirs = set(other.terms)
        if split:
            return [mine - theirs, theirs - mine]
        return mine ^ theirs if symmetric else mine - theirs

    def __hash__(self):
        return hash(tuple(self.terms))

    def __eq__(self, other):
        if not isinstance(other, Expression):
            other = type(self)(other)
        if len(self) != len(other):
            return False
        key = attrgetter('base', 'exponent', 'coefficient')
        return sorted(self, key=key) == sorted(other, key=key)

    def __mul__(self, other):
        if not isinstance(other, Expression):
            other = type(self)(other)
        if other:
            return type(self)(reduce(self, other))
        return NotImplemented

    def __rmul__(self, other):
        return type(self)(other).__mul__(self)

    def __truediv__(self, other):
        if not isinstance(other, Expression):
            other = type(self)(other)
        if other:
            return type(self)(reduce(self, [t**-1 for t in other]))
        return NotImplemented

    def __rtruediv__(self, other):
        return type(self)(other).__truediv__(self)

    def __pow__(self, exp):
        power = float(exp)
        if power:
            return type(self)(reduce([t**power for t in self]))
        return NotImplemented

    def apply(self, update):
        bases = [update(t.base) for t in self]
        powers = [t.exponent for t in self]
        result = bases[0] ** powers[0]
        for base, power in zip(bases[1:], powers[1:]):
            result *= base**power
        return result


def composition(this):
    if isinstance(this, Expression):
        return True
    return isinstance(this, str) and ('/' in this or '*' in this)


def reduce(*groups):
    found = {}
    for term in [term for group in groups for term in group]:
        if term.base in found:
            found[term.base]['coefficient'] *= term.coefficient
            found[term.base]['exponent'] += term.exponent
        else:
            found[term.base] = {
                'coefficient': term.coefficient,
                'exponent': term.exponent,
            }
    constant = functools.reduce(
        lambda x, y: x * y,
        [fractions.Fraction(v['coefficient']) for v in found.values()],
    )
    variables = [
        Term(base=k, exponent=v['exponent'])
        for k, v in found.items()
        if k != '1' and v['exponent'] != 0
    ]
    variables = sorted(
        sorted(variables, key=attrgetter('base')),
        key=attrgetter('exponent'),
        reverse=True,
    )
    if not variables:
        return [Term(coefficient=constant)]
    if constant == 1:
        return variables
    return [Term(coefficient=constant)] + variables


def equality(a, b):
    return Expression(a) == Expression(b)


def product(a, b):
    return Expression(a) * Expression(b)


def ratio(a, b):
    return Expression(a) / Expression(b)


def power(a, n):
    return Expression(a) ** n
