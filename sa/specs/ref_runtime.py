"""Reference definitions: goats.eprem.runtime."""

MODULE = 'goats.eprem.runtime'
COVERS = (
    'BaseTypeDef.pattern',
    'BaseTypeDef.match',
    'BaseTypeDef.parse',
    'SourceFile.__init__',
    'SourceFile.standardize',
    'SourceFile.build_path',
    'SourceFile.load_from_package',
    'SourceFile.load_from_source',
    'SourceFile.get',
    'SourceFile.format',
    'BaseTypesH.__init__',
    'BaseTypesH.standardize',
    'BaseTypesH.load_from_source',
    'BaseTypesH.get',
    'BaseTypesH.__getitem__',
    'BaseTypesH.types',
    'FunctionCall.pattern',
    'FunctionCall.match',
    'FunctionCall.parse',
    'FunctionCall._keys',
    'VariableDefinition.pattern',
    'VariableDefinition.match',
    'VariableDefinition.parse',
    'soft_convert',
    'ConfigurationC._types',
    'ConfigurationC.__init__',
    'ConfigurationC.standardize',
    'ConfigurationC.load_from_source',
    'ConfigurationC.__getitem__',
    'ConfigurationC.get',
    'ConfigFile.__init__',
    'ConfigFile.compare',
    'ConfigFile.diff',
    'ConfigFile.__getitem__',
    'Runtime.__init__',
    'Runtime.__getitem__',
    'Runtime.path_to',
    'Runtime.basetypes',
    'Runtime.user',
    'Runtime.reference',
    'Runtime._special_cases',
    'Runtime._struct_member',
    'Arguments.__init__',
    'Interface.__init__',
    'Interface.__getitem__',
    'Interface.get',
    'Interface.config',
    'Interface.basetypes',
    'Interface.user',
    'Interface.reference',
    'Interface._special_cases',
    'Interface._struct_member',
    'generate_defaults',
    '_build_arg_dict',
    '_get_relative_paths',
    '_metadata',
    '_ALIASES',
    'ALIASES',
    '_UNITS',
)


_LOCAL = {
    'minimum_energy': {
        'aliases': ['Emin', 'minimum energy'],
        'unit': 'MeV',
        'default': 0.0,
    },
    'reference energy': {
        'aliases': ['energy0'],
        'unit': 'MeV',
        'default': 1.0,
    },
    'reference radius': {'aliases': ['r0'], 'unit': 'au', 'default': 1.0},
}

_CONFIGURATION_C = {
    'boundaryFunctAmplitude': {
        'aliases': ['J0'],
        'unit': '1 / (cm^2 * s * sr * (MeV/nuc))',
    },
    'boundaryFunctXi': {'aliases': ['xi'], 'unit': '1'},
    'boundaryFunctBeta': {'aliases': ['beta'], 'unit': '1'},
    'boundaryFunctGamma': {'aliases': ['gamma'], 'unit': '1'},
    'boundaryFunctEcutoff': {'aliases': ['E0'], 'unit': 'MeV'},
    'kperxkpar': {
        'aliases': ['kper_kpar', 'kper/kpar', 'kper / kpar'],
        'unit': '1',
    },
    'lamo': {'aliases': ['lam0', 'lambda0'], 'unit': 'au'},
    'mfpRadialPower': {'aliases': ['mfp_radial_power'], 'unit': '1'},
    'rigidityPower': {'aliases': ['rigidity_power'], 'unit': '1'},
    'flowMag': {'aliases': [], 'unit': 'km/s'},
    'mhdDensityAu': {'aliases': [], 'unit': 'cm^-3'},
    'mhdBAu': {'aliases': [], 'unit': 'G'},
    'omegaSun': {'aliases': [], 'unit': 'rad * cm / (au * s)'},
    'mass': {'aliases': [], 'unit': 'nucleon'},
    'charge': {'aliases': [], 'unit': 'e'},
    'minInjectionEnergy': {'aliases': [], 'unit': 'MeV'},
    'maxInjectionEnergy': {'aliases': [], 'unit': 'MeV'},
    'shockInjectionFactor': {'aliases': [], 'unit': '1'},
    'shockDetectPercent': {'aliases': [], 'unit': '1'},
    'rScale': {'aliases': [], 'unit': 'au'},
    'simStartTime': {'aliases': [], 'unit': 'day'},
    'simStopTime': {'aliases': [], 'unit': 'day'},
    'eMin': {'aliases': [], 'unit': 'MeV/nuc'},
    'eMax': {'aliases': [], 'unit': 'MeV/nuc'},
    'numObservers': {'aliases': [], 'unit': '1'},
    'obsR': {'aliases': [], 'unit': 'au'},
    'obsTheta': {'aliases': [], 'unit': 'rad'},
    'obsPhi': {'aliases': [], 'unit': 'rad'},
    'idw_p': {'aliases': [], 'unit': '1'},
    'idealShockSharpness': {'aliases': [], 'unit': '1'},
    'idealShockScaleLength': {'aliases': [], 'unit': 'au'},
    'idealShockJump': {'aliases': [], 'unit': '1'},
    'idealShockSpeed': {'aliases': [], 'unit': 'km/s'},
    'idealShockInitTime': {'aliases': [], 'unit': 'day'},
    'idealShockTheta': {'aliases': [], 'unit': 'rad'},
    'idealShockPhi': {'aliases': [], 'unit': 'rad'},
    'idealShockWidth': {'aliases': [], 'unit': 'rad'},
    'tDel': {'aliases': [], 'unit': 'day'},
    'gammaElow': {'aliases': [], 'unit': '1'},
    'gammaEhigh': {'aliases': [], 'unit': '1'},
    'masInitTimeStep': {'aliases': [], 'unit': 'day'},
    'masStartTime': {'aliases': [], 'unit': 'day'},
    'epEquilibriumCalcDuration': {'aliases': [], 'unit': 'day'},
    'preEruptionDuration': {'aliases': [], 'unit': 'day'},
    'pointObserverOutput': {'aliases': [], 'unit': None},
    'enlilCouple': {'aliases': [], 'unit': None},
    'outputFloat': {'aliases': [], 'unit': None},
    'numRowsPerFace': {'aliases': [], 'unit': None},
    'numColumnsPerFace': {'aliases': [], 'unit': None},
    'numNodesPerStream': {'aliases': [], 'unit': None},
    'numEnergySteps': {'aliases': [], 'unit': None},
    'numMuSteps': {'aliases': [], 'unit': None},
    'useDrift': {'aliases': [], 'unit': None},
    'useShellDiffusion': {'aliases': [], 'unit': None},
    'unifiedOutput': {'aliases': [], 'unit': None},
    'streamFluxOutput': {'aliases': [], 'unit': None},
    'epremDomain': {'aliases': [], 'unit': None},
    'dumpFreq': {'aliases': [], 'unit': None},
    'idealShock': {'aliases': [], 'unit': None},
    'shockSolver': {'aliases': [], 'unit': None},
    'fluxLimiter': {'aliases': [], 'unit': None},
    'numEpSteps': {'aliases': [], 'unit': None},
    'useParallelDiffusion': {'aliases': [], 'unit': None},
    'useAdiabaticChange': {'aliases': [], 'unit': None},
    'useAdiabaticFocus': {'aliases': [], 'unit': None},
    'numSpecies': {'aliases': [], 'unit': None},
    'boundaryFunctionInitDomain': {'aliases': [], 'unit': None},
    'checkSeedPopulation': {'aliases': [], 'unit': None},
    'subTimeCouple': {'aliases': [], 'unit': None},
    'FailModeDump': {'aliases': [], 'unit': None},
    'masCouple': {'aliases': [], 'unit': None},
    'masDirectory': {'aliases': [], 'unit': None},
    'masInitFromOuterBoundary': {'aliases': [], 'unit': None},
    'masRotateSolution': {'aliases': [], 'unit': None},
    'useMasSteadyStateDt': {'aliases': [], 'unit': None},
    'masDigits': {'aliases': [], 'unit': None},
}

_BASETYPES_H = {
    'T': {'unit': None, 'type': int},
    'F': {'unit': None, 'type': int},
    'PI': {'unit': None, 'type': float},
    'TWO_PI': {'unit': None, 'type': float},
    'VERYSMALL': {'unit': None, 'type': float},
    'BADVALUE': {'unit': None, 'type': float},
    'BADINT': {'unit': None, 'type': int},
    'MP': {'unit': 'g', 'type': float},
    'EV': {'unit': 'erg/eV', 'type': float},
    'MEV': {'unit': 'erg/MeV', 'type': float},
    'GEV': {'unit': 'erg/GeV', 'type': float},
    'Q': {'unit': 'statC', 'type': float},
    'C': {'unit': 'cm/s', 'type': float},
    'MZERO': {'unit': 'GeV', 'type': float},
    'AU': {'unit': 'cm', 'type': float},
    'RSUN': {'unit': 'cm', 'type': float},
    'RSAU': {'unit': '1', 'type': float},
    'TAU': {'unit': 's', 'type': float},
    'DAY': {'unit': 'day', 'type': float},
    'MHD_DENSITY_NORM': {'unit': '1', 'type': float},
    'MHD_B_NORM': {'unit': '1', 'type': float},
    'OM': {'unit': '1', 'type': float},
    'FCONVERT': {'unit': '1', 'type': float},
    'VOLT': {'unit': '1', 'type': float},
    'THRESH': {'unit': '1', 'type': float},
    'MAS_TIME_NORM': {'unit': '1', 'type': float},
    'MAS_LENGTH_NORM': {'unit': '1', 'type': float},
    'MAS_RHO_NORM': {'unit': '1', 'type': float},
    'MAS_TIME_CONVERT': {'unit': '1', 'type': float},
    'MAS_V_CONVERT': {'unit': '1', 'type': float},
    'MAS_RHO_CONVERT': {'unit': '1', 'type': float},
    'MAS_B_CONVERT': {'unit': '1', 'type': float},
    'MAX_STRING_SIZE': {'unit': None, 'type': int},
    'MHD_DEFAULT': {'unit': None, 'type': int},
    'MHD_ENLIL': {'unit': None, 'type': int},
    'MHD_LFMH': {'unit': None, 'type': int},
    'MHD_BATSRUS': {'unit': None, 'type': int},
    'MHD_MAS': {'unit': None, 'type': int},
    'NUM_MPI_BOUNDARY_FLDS': {'unit': None, 'type': int},
}

_metadata = {**_LOCAL, **_CONFIGURATION_C, **_BASETYPES_H}

_ALIASES = {key: info.get('aliases') for key, info in _metadata.items()}

ALIASES = aliased.keysfrom(_metadata, aliases='aliases')

_UNITS = {key: info.get('unit') for key, info in _metadata.items()}


class BaseTypeDef:
    @property
    def pattern(self):
        return re.compile(
            '\n            # the start of the string (no following whitespace)\n            \\A\n            # the `#define` pre-processor directive\n            \\#define\n            # at least one whitespace character\n            \\s+\n            # the defined name\n            (?P<name>[A-Z_]+)\n            # at least one whitespace character\n            \\s+\n            # the defined value\n            (?P<value>[-+\\.\\*\\/\\d\\w\\s\\(\\)]+)\n            # the end of the string (no trailing whitespace)\n            \\Z\n        ',
            re.VERBOSE,
        )

    def match(self, line):
        if match := self.pattern.match(line.strip()):
            return match.groupdict()

    def parse(self, parsable):
        return (parsable['name'], parsable['value'])


class SourceFile:
    def __init__(self, db_key, filename, source=None):
        path = self.build_path(filename, source)
        if path and path.exists():
            loaded = self.load_from_source(iotools.TextFile(path))
        else:
            loaded = self.load_from_package(db_key)
        self.definitions = self.standardize(loaded)
        super().__init__(tuple(self.definitions))

    @abc.abstractmethod
    def standardize(self, loaded):
        return loaded

    def build_path(self, filename, source=None):
        try:
            path = iotools.ReadOnlyPath(source)
            if path.is_dir():
                path /= filename
        except TypeError:
            path = None
        return path

    def load_from_package(self, key):
        path = pathlib.Path(__file__).with_suffix('.json')
        with pathlib.Path(path).open('r') as fp:
            loaded = json.load(fp)
        return loaded[key]

    @abc.abstractmethod
    def load_from_source(self, file):
        pass

    def get(self, key, default=None, format=None):
        if not format:
            return super().get(key, default)
        raise NotImplementedError

    def format(self, mode):
        return {key: self.get(key, format=mode) for key in self}


class BaseTypesH:
    def __init__(self, source=None):
        super().__init__('_BASETYPES_H', 'baseTypes.h', source)
        self._types = None
        self._cache = {}

    def standardize(self, loaded):
        return super().standardize(loaded)

    def load_from_source(self, file):
        typedef = BaseTypeDef()
        return file.extract(typedef.match, typedef.parse)

    def get(self, key, default=None, format=None):
        if format == 'json':
            value = self.definitions.get(key, default)
            if isinstance(value, symbolic.Expression):
                return value.format(separator=' * ')
            return value
        return super().get(key, default, format)

    def __getitem__(self, key):
        if key in self._cache:
            return self._cache[key]
        if key in self.definitions:
            value = self._compute(key)
            self._cache[key] = value
            return value
        raise KeyError

    def _compute(self, key):
        target = self.definitions[key]
        realtype = self.types.get(key)
        if isinstance(target, realtype):
            return target
        if any((c in target for c in {'*', '/', 'sqrt'})):
            return self._evaluate(symbolic.Expression(target))
        if realtype:
            return realtype(target)
        raise TypeError(target)

    @property
    def types(self):
        if self._types is None:
            self._types = {k: v['type'] for k, v in _BASETYPES_H.items()}
        return self._types

    def _evaluate(self, expression):
        value = 1.0
        for term in expression:
            if term.base in self.definitions:
                value *= float(term(self._compute(term.base)))
            elif term.base == '1':
                value *= float(term)
        return value


class FunctionCall:
    @property
    def pattern(self):
        return re.compile(
            '\n            # the start of the string, followed by optional whitespace\n            \\A\\s*\n            # the name of the C struct\n            config\\.\n            # the name of the attribute\n            (?P<name>\\w+)\n            # equals sign surrounded by optional whitespace\n            \\s*=\\s*\n            # kludge for `(char*)readString(...)`\n            (?:\\(char\\*\\))?\n            # the name of the file-reading method\n            (?P<mode>read(?:Int|Double|DoubleArray|String))\n            # beginning of function call\n            \\(\n                # parameter name in config file\n                (?P<alias>\\"\\w*\\")\n                # optional whitespace followed by a comma\n                \\s*\\,\n                # the remaining arguments\n                (?P<args>.*?)\n            # end of function call\n            \\)\n            # C statement terminator\n            \\;\n            # optional whitespace, followed by the end of the string\n            \\s*\\Z\n        ',
            re.VERBOSE,
        )

    def match(self, line):
        if match := self.pattern.match(line.strip()):
            return match.groupdict()

    def parse(self, parsable):
        parsed = {}
        name = parsable['name']
        if alias := parsable['alias']:
            a = alias.strip('"')
            if a != name:
                parsed['alias'] = a
        mode = parsable['mode']
        args = parsable['args'].split(',')
        parsed.update(self._normalize(mode, args))
        return (name, parsed)

    _keys = {
        'readInt': ['default', 'minimum', 'maximum'],
        'readDouble': ['default', 'minimum', 'maximum'],
        'readString': ['default'],
        'readDoubleArray': ['size', 'default'],
    }

    def _normalize(self, mode, args):
        pairs = dict(zip(self._keys[mode], [arg.strip(' "') for arg in args]))
        return {'mode': mode, **pairs}


class VariableDefinition:
    @property
    def pattern(self):
        return re.compile(
            '\n            # the start of the string, followed by optional whitespace\n            \\A\\s*\n            # type declaration\n            Scalar\\_t\n            # optional whitespace\n            \\s*\n            # variable name\n            (?P<name>\\w+)\n            # array size\n            \\[(?P<size>\\d+)\\]\n            # equals sign surrounded by optional whitespace\n            \\s*=\\s*\n            # array value(s)\n            \\{(?P<value>\\d*(?:\\.\\d+)?)\\}\n            # C statement terminator\n            \\;\n            # optional whitespace, followed by the end of the string\n            \\s*\\Z\n        ',
            re.VERBOSE,
        )

    def match(self, line):
        if match := self.pattern.match(line.strip()):
            return match.groupdict()

    def parse(self, parsable):
        parsed = {
            'size': int(parsable['size']),
            'value': f'[{",".join(iterables.whole(parsable["value"]))}]',
        }
        return (parsable['name'], parsed)


def soft_convert(string, convert, acceptable=Exception):
    try:
        value = convert(string)
    except acceptable or Exception:
        return string
    return value


class ConfigurationC:
    _types = iterables.Bijection(
        {
            'readInt': int,
            'readDouble': float,
            'readString': str,
            'readDoubleArray': list,
        }
    )

    def __init__(self, source=None):
        super().__init__('_CONFIGURATION_C', 'configuration.c', source)

    def standardize(self, loaded):
        return self._replace(loaded, 'mode', 'type', self._types)

    def load_from_source(self, file):
        assignments = self._get_assignments(file)
        arrays = self._get_array_defaults(file)
        subs = {
            key: {
                'mode': assigned['mode'],
                'default': arrays[assigned['default']]['value'],
            }
            for key, assigned in assignments.items()
            if assigned['default'] in arrays
        }
        return {
            key: subs.get(key, attrs) for key, attrs in assignments.items()
        }

    def __getitem__(self, key):
        if key in self.definitions:
            return self.definitions[key]
        raise KeyError

    def get(self, key, default=None, format=None):
        if format == 'json':
            modes = self._types.invert()
            loaded = self._replace(self.definitions, 'type', 'mode', modes)
            return loaded.get(key, default)
        return super().get(key, default, format)

    def _get_assignments(self, file):
        pattern = FunctionCall()
        return file.extract(pattern.match, pattern.parse)

    def _get_array_defaults(self, file):
        pattern = VariableDefinition()
        return file.extract(pattern.match, pattern.parse)

    def _replace(self, mapping, old, new, conversion):
        return {
            key: {
                new: conversion[interior[old]],
                **{k: v for k, v in interior.items() if k != old},
            }
            for key, interior in mapping.items()
        }


class ConfigFile:
    def __init__(self, filepath, comments=None):
        self.filepath = iotools.ReadOnlyPath(filepath)
        self.comments = comments or ['#']
        self.KeyError = ConfigKeyError
        self.parsed = self._parse()
        super().__init__(tuple(self.parsed))

    def compare(self, __o, **kwargs):
        diff = self.diff(__o, **kwargs)
        df0 = diff['full'][0]
        df1 = diff['full'][1]
        keys = sorted(set(df0) | set(df1))
        return {k: (df0.get(k), df1.get(k)) for k in keys}

    def diff(self, __o, **kwargs):
        other = self._config_type(__o, **kwargs)
        return {
            'keys': {0: set(self) - set(other), 1: set(other) - set(self)},
            'full': {0: dict(set(self.items())), 1: dict(set(other.items()))},
        }

    def _config_type(self, __o, **kwargs):
        if isinstance(__o, ConfigFile):
            return __o
        if isinstance(__o, (str, pathlib.Path)):
            return ConfigFile(__o, **kwargs)
        raise TypeError

    def __getitem__(self, key):
        if key in self.parsed:
            return self.parsed[key]
        raise self.KeyError(key)

    def _parse(self):
        pairs = {}
        with self.filepath.open('r') as fp:
            for line in fp:
                line = line.strip()
                if line == '' or line[0] in self.comments:
                    continue
                key, _tmp = line.split('=', maxsplit=1)
                value = iotools.strip_inline_comments(_tmp, self.comments)
                pairs[key.strip()] = value
        return pairs


class Runtime:
    def __init__(self, source_path=None, config_path=None, **kwargs):
        self._paths = {'source': source_path, 'config': config_path}
        self._user = None
        self._basetypes = None
        self._reference = None
        super().__init__(tuple(self.reference))
        self._kwargs = kwargs
        self._current = None

    def __getitem__(self, name):
        if name in self.reference:
            return self._evaluate(name)
        raise KeyError

    def path_to(self, *current, **new):
        if current and new:
            raise TypeError
        if current:
            if len(current) == 1:
                return self._paths[current[0]]
            return [self._paths[name] for name in current]
        if new:
            self._paths.update(new)
            self._reset(paths=new)
            return self
        raise TypeError

    def _reset(self, paths=None):
        paths = paths or {}
        self._current = None
        if 'config' in paths:
            self._user = None
        if 'source' in paths:
            self._basetypes = None
            self._reference = None

    @property
    def basetypes(self):
        if self._basetypes is None:
            self._basetypes = BaseTypesH(self._paths['source'])
        return self._basetypes

    @property
    def user(self):
        if self._user is None:
            if path := self._paths['config']:
                self._user = ConfigFile(path, **self._kwargs)
            else:
                self._user = {}
        return self._user

    @property
    def reference(self):
        if self._reference is None:
            self._reference = ConfigurationC(self._paths['source'])
        return self._reference

    _special_cases = {'N_PROCS': None, 'third': 1 / 3}

    def _evaluate(self, current):
        if isinstance(current, numbers.Real):
            return current
        if (value := numerical.cast(current, strict=False)) is not None:
            return value
        if current in self._special_cases:
            return self._special_cases[current]
        argument = self._get_argument(current)
        if argument is not None:
            definition = argument['definition']
            if isinstance(definition, argument['type']):
                return definition
            return self._evaluate(definition)
        if isinstance(current, str):
            return self._resolve(current)
        raise TypeError

    _struct_member = re.compile('\\Aconfig\\.\\w*\\Z')

    def _resolve(self, definition):
        if self._struct_member.match(definition):
            return self._evaluate(definition.replace('config.', ''))
        if (result := self._compute_sum(definition)) is not None:
            return result
        if any((c in definition for c in {'*', '/'})):
            expression = symbolic.Expression(definition)
            evaluated = [
                term.coefficient * self._evaluate(term.base) ** term.exponent
                for term in expression
            ]
            return functools.reduce(lambda x, y: x * y, evaluated)
        raise TypeError

    def _compute_sum(self, arg):
        for operator in ('+', '-'):
            if operator in arg:
                terms = [
                    self._evaluate(s.strip()) for s in arg.split(operator)
                ]
                return terms[0] + float(f'{operator}1') * terms[1]

    def _get_argument(self, name):
        if self._current is None:
            self._current = {
                key: self._convert(
                    self.user.get(key) or parameter['default'],
                    parameter['type'],
                )
                for key, parameter in self.reference.items()
            }
        if name in self._current:
            return {
                'definition': self._current[name],
                'type': self.reference[name]['type'],
            }
        if name in self.basetypes:
            return {
                'definition': self.basetypes[name],
                'type': type(self.basetypes[name]),
            }

    def _convert(self, arg, realtype):
        if isinstance(arg, realtype):
            return arg
        if realtype in {int, float}:
            return soft_convert(arg, realtype)
        if realtype == list:
            return soft_convert(arg, iterables.string_to_list)
        return arg


class Arguments:
    def __init__(self, *args, **kwargs):
        if not kwargs and len(args) == 1:
            arg = args[0]
            if isinstance(arg, Runtime):
                return super().__init__(self._build_mapping(arg))
        super().__init__(self._build_mapping(Runtime(*args, **kwargs)))

    def _build_mapping(self, runtime):
        values = {
            **{key: info.get('default') for key, info in _LOCAL.items()},
            **dict(runtime),
        }
        keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
        base = {
            (key, *_ALIASES.get(key, [])): {
                'unit': _UNITS.get(key),
                'value': values.get(key),
            }
            for key in keys
        }
        return aliased.MutableMapping(base)


class Interface:
    def __init__(self, path=None, **opts):
        runtime = Runtime(config_path=path)
        values = {key: info.get('default') for key, info in _LOCAL.items()}
        values.update(dict(runtime))
        keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
        base = {
            key: {'unit': _UNITS.get(key), 'value': values.get(key)}
            for key in keys
        }
        super().__init__(base, aliases=reference.ALIASES.merge(*ALIASES))
        self._user = ConfigFile(path, **opts) if path else {}
        self._reference = ConfigurationC()
        self._basetypes = BaseTypesH()
        self._current = None

    def __getitem__(self, __k):
        try:
            this = super().__getitem__(__k)
        except KeyError:
            raise KeyError
        return operational.Argument(this['value'], this['unit'])

    def get(self, __k, default=None):
        return super().get(__k, default=default)

    def config(self, __k, default=None):
        return self.get(__k, default=default) if __k in self.user else default

    @property
    def basetypes(self):
        return self._basetypes

    @property
    def user(self):
        return self._user

    @property
    def reference(self):
        return self._reference

    _special_cases = {'N_PROCS': None, 'third': 1 / 3}

    def _evaluate(self, current):
        if isinstance(current, numbers.Real):
            return current
        if (value := numerical.cast(current, strict=False)) is not None:
            return value
        if current in self._special_cases:
            return self._special_cases[current]
        argument = self._get_argument(current)
        if argument is not None:
            definition = argument['definition']
            if isinstance(definition, argument['type']):
                return definition
            return self._evaluate(definition)
        if isinstance(current, str):
            return self._decompose(current)
        raise TypeError

    _struct_member = re.compile('\\Aconfig\\.\\w*\\Z')

    def _decompose(self, definition):
        if self._struct_member.match(definition):
            return self._evaluate(definition.replace('config.', ''))
        if (result := self._compute_sum(definition)) is not None:
            return result
        if any((c in definition for c in {'*', '/'})):
            expression = symbolic.Expression(definition)
            evaluated = [
                term.coefficient * self._evaluate(term.base) ** term.exponent
                for term in expression
            ]
            return functools.reduce(lambda x, y: x * y, evaluated)
        raise TypeError

    def _compute_sum(self, arg):
        for operator in ('+', '-'):
            if operator in arg:
                terms = [
                    self._evaluate(s.strip()) for s in arg.split(operator)
                ]
                return terms[0] + float(f'{operator}1') * terms[1]

    def _get_argument(self, name):
        if self._current is None:
            self._current = {
                key: self._convert(
                    self.user.get(key) or parameter['default'],
                    parameter['type'],
                )
                for key, parameter in self.reference.items()
            }
        if name in self._current:
            return {
                'definition': self._current[name],
                'type': self.reference[name]['type'],
            }
        if name in self.basetypes:
            return {
                'definition': self.basetypes[name],
                'type': type(self.basetypes[name]),
            }

    def _convert(self, arg, realtype):
        if isinstance(arg, realtype):
            return arg
        if realtype in {int, float}:
            return soft_convert(arg, realtype)
        if realtype == list:
            return soft_convert(arg, iterables.string_to_list)
        return arg


def compare_arguments(files, source=None, action=None):
    mode = action or 'show'
    if mode not in {'show', 'diff'}:
        raise ValueError
    args = _build_arg_dict(files, source=source, mode=mode)
    topkeys = next((list(v.keys()) for v in args.values() if v))
    nonnull = (v for item in args.values() for v in item.values() if v)
    pwidth = max((len(k) for k in args))
    lwidth = max((len(k) for k in topkeys))
    vwidth = max((len(v) for v in nonnull))
    rwidth = vwidth + 2
    jwidth = min(78, rwidth)
    cwidth = max(pwidth, lwidth + jwidth)
    print()
    for key, item in args.items():
        print(str(key).center(cwidth))
        print('-' * cwidth)
        for k, v in item.items():
            print(f'{str(k).ljust(lwidth)}{str(v).rjust(jwidth)}')
        print()


def _build_arg_dict(files, source=None, mode=None):
    default = Interface()
    paths = _get_relative_paths(files)
    targets = {name: Interface(path) for name, path in paths.items()}
    keys = sorted(ConfigurationC(source))
    built = {key: {} for key in keys}
    for key in keys:
        current = {
            name: _format_arg(interface.config(key))
            for name, interface in targets.items()
        }
        values = list(current.values())
        v0 = values[0]
        if mode == 'show' or any((vi != v0 for vi in values)):
            built[key] = {'default': _format_arg(default[key]), **current}
    if mode == 'show':
        return built
    return {k: v for k, v in built.items() if v}


def _get_relative_paths(paths):
    these = [iotools.ReadOnlyPath(f) for f in paths]
    common = os.path.commonpath([path.parent for path in these])
    return {os.path.relpath(path, start=common): path for path in these}


def _format_arg(arg):
    with contextlib.suppress(AttributeError):
        return (
            f'{arg.data} {str(arg.unit)!r}'
            if arg.unit and arg.unit != '1'
            else f'{arg.data!r}'
        )


def _build_arg_dict(files, source=None, mode=None):
    default = Interface()
    targets = {
        name: Interface(path)
        for name, path in _get_relative_paths(files).items()
    }
    keys = sorted(ConfigurationC(source))
    built = {key: {} for key in keys}
    for key in keys:
        current = {
            name: _format_arg(interface.config(key))
            for name, interface in targets.items()
        }
        values = list(current.values())
        first = values[0]
        if mode == 'show' or any(value != first for value in values):
            built[key] = {'default': _format_arg(default[key]), **current}
    if mode == 'show':
        return built
    return {k: v for k, v in built.items() if v}


def _get_relative_paths(paths):
    these = [iotools.ReadOnlyPath(f) for f in paths]
    common = os.path.commonpath([path.parent for path in these])
    return {os.path.relpath(path, start=common): path for path in these}


def generate_defaults(source, output=None, action=None):
    obj = {
        '_BASETYPES_H': {**BaseTypesH(source).format('json')},
        '_CONFIGURATION_C': {**ConfigurationC(source).format('json')},
    }
    outpath = pathlib.Path(output or __file__).with_suffix('.json')
    mode = action or 'write'
    if mode not in {'append', 'write'}:
        raise ValueError
    if mode == 'append':
        obj.update(json.load(outpath.open('r')))
    json.dump(obj, outpath.open('w'), indent=4, sort_keys=True)
