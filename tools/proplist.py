prop('D01', 'Derived quantities are dimensionally sound',
     'In every derived quantity the package can compute, only values of equal '
     'physical dimension are added, subtracted or compared, transcendental '
     'functions and exponents receive dimensionless arguments, and the result '
     'has the physical dimension of the metric quantity the package declares '
     'for it.',
     ['inputs'], 'every derived quantity, every dataset and parameter value',
     'The tests of derived quantities need simulation output that is not in '
     'the repository, and none of them looks at dimensions.',
     ['core/computed.py', 'core/reference.py'],
     [('registered functions', 'core/computed.py: @registry.register'),
      ('declared quantities', 'core/reference.py: _BASE')],
     'physical-dimension inference (abstract interpretation) over the gated '
     'value graph of each registered function',
     'sound for the modelled numpy vocabulary; constructs outside it are '
     'reported as undecided')
prop('D02', 'Derived quantities equal their defining formulas',
     'Each derived quantity equals its defining formula for all inputs: '
     'Cartesian coordinates from spherical ones, field and flow magnitudes, '
     'field-parallel and field-perpendicular flow speed, the clamped flow '
     'angle, div(V) as minus the time derivative of the log density, density '
     'relative to the first time, relativistic rigidity, mean free path as a '
     'power law in radius and rigidity relative to 1 au and 1 MeV, shock '
     'acceleration rate from the neighbouring shells, energy density, mean '
     'energy, pitch-angle average, differential flux 2E f/m^2, fluence as the '
     'time integral of flux, and integral flux as the energy integral above '
     'a minimum energy with a power-law lower edge.',
     ['inputs'], 'every derived quantity, all array and scalar arguments',
     'No stable test evaluates any derived quantity; sampled inputs also miss '
     'boundary shells, negative components and clamping.',
     ['core/computed.py'],
     [('registered functions', 'core/computed.py: @registry.register')],
     'global value numbering of each registered function against a reference '
     'formula, compared by random interpretation of the term graph',
     'real arithmetic, not floating point; undecided when a function uses '
     'array operations outside the modelled vocabulary')
prop('D03', 'Derived quantities are wired to inputs and axes they can use',
     'Every input a derived quantity asks for names a dataset variable, '
     'another derived quantity or a run-time parameter, array inputs come '
     'before scalar ones in the order in which they are passed, and no '
     'derived quantity depends on itself. Its computation only ever combines '
     'arrays along equal axes, and the result has the axes of its inputs '
     'less the ones it declares as removed plus the ones it declares as '
     'added.',
     ['inputs', 'configurations'],
     'every derived quantity, every dataset with the documented layout',
     'Requires running every derived quantity on full simulation output; the '
     'stable tests run none.',
     ['core/computed.py', 'core/reference.py', 'eprem/runtime.py'],
     [('registered functions', 'core/computed.py: @registry.register'),
      ('argument order', 'core/computed.py: Method.parse'),
      ('axis bookkeeping', 'eprem/__init__.py: get_dimensions')],
     'named-axes (shape) inference over the value graph, and name resolution '
     'over the folded alias tables',
     'primitive inputs are assumed to have the documented layout')
prop('M01', 'Tabulated conversion factors are right',
     'Every built-in conversion factor between two units equals the physical '
     'ratio of those units (SI and Gaussian), in the direction in which it '
     'is listed, and no two routes between two units disagree.',
     ['inputs'], 'every pair of units with a built-in conversion',
     'Tests exercise a handful of the pairs; most electromagnetic factors '
     'are never evaluated.',
     ['core/metric.py'], [('conversion table', 'core/metric.py: '
                           '_CONVERSIONS')],
     'constant propagation of the table, compared with an independent unit '
     'oracle', 'complete over the table; relative tolerance 5e-5')
prop('M02', 'Quantities, units and dimensions agree in every metric system',
     'For every metric quantity and metric system, the listed unit is the '
     'coherent unit of that system and has the listed dimension, the '
     'dimension is that of the quantity in SI or Gaussian form, compound '
     'quantities resolve to defined ones, and every named unit refers to a '
     'defined quantity of its own dimension.',
     ['inputs', 'configurations'], 'every quantity, unit and metric system',
     'Tests look at a few quantities; nothing ties units to dimensions.',
     ['core/metric.py'],
     [('quantity table', 'core/metric.py: _QUANTITIES'),
      ('unit table', 'core/metric.py: _UNITS')],
     'constant propagation of the tables, dimensional algebra against an '
     'independent oracle', 'complete over the tables')
prop('M03', 'Unit prefixes and spellings are right and unambiguous',
     'Every metric prefix denotes its SI power of ten with its SI symbol and '
     'name, every base unit carries its standard symbol and name, and no two '
     'different prefix-unit combinations share one spelling.',
     ['inputs'], 'every combination of prefix and base unit, by symbol or '
     'name',
     'The space of spellings (some two thousand) is sampled by a few dozen '
     'test cases.',
     ['core/metric.py'], [('prefix table', 'core/metric.py: _PREFIXES'),
                          ('unit table', 'core/metric.py: _UNITS')],
     'constant propagation of the prefix and unit tables, exhaustive '
     'comparison of the generated spellings', 'complete over the tables')
prop('M04', 'Physical constants and element data are right and consistent',
     'Every physical constant has its accepted value, the MKS and CGS '
     'entries of a constant denote the same physical value in units of the '
     'declared quantity, and every chemical element is listed once, with '
     'its own symbol, name and atomic mass.',
     ['inputs', 'configurations'], 'every constant, metric system and element',
     'Tests read at most two or three constants.',
     ['core/fundamental.py', 'core/physical.py'],
     [('constant table', 'core/fundamental.py: FUNDAMENTAL'),
      ('element table', 'core/fundamental.py: ELEMENTS')],
     'constant propagation of the tables, compared with each other and with '
     'an independent oracle', 'complete over the tables; relative tolerance 5e-5 (masses of elements 1.5e-4)')

REF = ('comparison of gated value graphs: each function is translated to a '
       'term graph of its result, exceptions, state changes and effects and '
       'proved equal to a reference definition by congruence and random '
       'interpretation, with calls expanded as needed')
REFNOTE = ('per-function equivalence with a reference definition over '
           'uninterpreted library calls; a function the analysis cannot '
           'translate is reported as undecided')


def ref(id, title, statement, text, why, files, mech, over=('inputs',)):
    prop(id, title, statement, list(over), text, why, files, mech, REF,
         REFNOTE)


ref('U01', 'Unit conversions are exact, invertible and refuse bad pairs',
    'Converting from one unit to another yields the product of the factors '
    'of their parts, each raised to its exponent, including metric prefixes '
    'and numeric coefficients; the factor is 1 between equal units and the '
    'factor of the reverse conversion is its reciprocal. A conversion '
    'between units that measure different quantities is refused with an '
    'error and never yields a number.',
    'every pair of unit expressions the package can parse',
    'Tests convert a few dozen pairs; prefixes, exponents, coefficients and '
    'multi-step routes combine to an unbounded set.',
    ['core/metric.py'],
    [('conversion factors', 'core/metric.py: Conversion, conversion, ratio'),
     ('prefixes', 'core/metric.py: NamedUnit'),
     ('by quantity', 'core/metric.py: _Converter, Quantity.convert')])
ref('U02', 'Unit algebra agrees with unit equality and dimension',
    'Multiplying, dividing and raising units gives the unit of the product, '
    'quotient or power; two units are equal exactly when they reduce to the '
    'same base units with the same scale, however they are spelled. The '
    'dimension reported for a unit in a metric system is the product of the '
    'dimensions of its parts, and the norm, quantity and systems reported '
    'for a named unit are those of that unit.',
    'every unit expression and metric system',
    'Equality and dimension quantify over all spellings of all unit '
    'expressions.',
    ['core/metric.py'],
    [('units', 'core/metric.py: Unit, NamedUnit'),
     ('dimensions', 'core/metric.py: Dimension, Dimensions'),
     ('reduction', 'core/metric.py: Reduction, reduction')])
ref('U03', 'Metric systems map quantities to units and dimensions',
    'Looking up a quantity, by any of its names or as an expression of '
    'quantities, in a metric system yields the unit and dimension of that '
    'quantity in that system; composite quantities combine the entries of '
    'their parts, and an unknown quantity or system is an error. The unit a '
    'system gives for a unit or a dimension is a unit of that system that '
    'measures the same quantity.',
    'every quantity expression and metric system',
    'Composite quantities form an unbounded set; tests look up a few.',
    ['core/metric.py'],
    [('systems', 'core/metric.py: System'),
     ('quantities', 'core/metric.py: Quantity, Properties, _Property')])
ref('S01', 'Symbolic expressions obey the algebra of products and powers',
    'Products, quotients and powers of symbolic expressions multiply '
    'coefficients and add or multiply the exponents of equal bases; terms '
    'whose exponents cancel disappear, and the result does not depend on '
    'the order of the factors. Expressions are equal exactly when their '
    'reduced terms are, equal expressions hash equally, and no operation '
    'changes its operands.',
    'every pair of symbolic expressions and every real exponent',
    'The algebra quantifies over all expressions; tests use short ones.',
    ['core/symbolic.py'],
    [('terms', 'core/symbolic.py: Operand, Term'),
     ('expressions', 'core/symbolic.py: Expression, reduce')])
ref('S02', 'Unit and dimension strings parse to what they mean',
    'A string of bases, coefficients, exponents, products, quotients and '
    'nested parentheses parses to the expression it denotes: a quotient '
    'divides by the single factor that follows it, an exponent applies to '
    'the factor or group before it, and rational, negative and signed '
    'exponents are kept. Unbalanced parentheses and other malformed strings '
    'raise an error, and nothing of the input is silently dropped.',
    'every input string',
    'Strings form an unbounded set with nested structure.',
    ['core/symbolic.py'],
    [('parser', 'core/symbolic.py: Parser'),
     ('operands', 'core/symbolic.py: OperandFactory'),
     ('operators', 'core/symbolic.py: OperatorFactory')])
ref('A01', 'Aliased mappings treat every alias of a key alike',
    'In an aliased mapping, looking up, testing, assigning, deleting or '
    'extending an entry by any of its aliases has the effect it would have '
    'by any other; plain iteration lists every alias and grouped iteration '
    'every entry once, and an unknown name is a KeyError. Groups of aliases behave as sets, equal '
    'groups hash equally, merging collections of groups joins all groups '
    'that share a name, and the built-in names of observable quantities are '
    'those of the documentation.',
    'every mapping, alias and sequence of updates',
    'Histories of updates over overlapping groups are unbounded.',
    ['core/aliased.py', 'core/reference.py'],
    [('groups', 'core/aliased.py: Group, Groups'),
     ('mappings', 'core/aliased.py: Mapping, MutableMapping, NameMap'),
     ('built-in names', 'core/reference.py: _BASE')], ('inputs', 'histories'))
ref('T01', 'Tables, registries and container helpers do what they say',
    'A table lookup returns the rows that match all given criteria and '
    'raises an error when there is none or more than one; a registry returns '
    'the object registered under a name together with its metadata; a '
    'bijection, a graph of connections and a collection report exactly '
    'their members. The helpers that unwrap, deduplicate, select, distribute '
    'or normalise sequences keep the order and multiplicity of the elements '
    'they keep.',
    'every container and argument',
    'Containers of all shapes, nested and empty ones included.',
    ['core/iterables.py', 'core/utilities.py'],
    [('tables', 'core/iterables.py: Table'),
     ('registries', 'core/iterables.py: ObjectRegistry'),
     ('helpers', 'core/iterables.py')])
ref('Q01', 'Measuring user input yields its values and unit, or an error',
    'Any argument that denotes numbers with an optional unit (a number, a '
    'string, a pair, a nested sequence, or a measurable object) is measured '
    'as exactly those values and that unit, with the unit 1 if there is '
    'none. Arguments without numbers or with more than one unit are refused '
    'with an error, and arguments of an operation convert to numbers and '
    'compare by value and unit.',
    'every argument users may pass as a value with a unit',
    'Nested and mixed inputs form an unbounded set.',
    ['core/measurable.py', 'core/operational.py', 'core/constant.py'],
    [('measuring', 'core/measurable.py: measure, parse_measurable'),
     ('arguments', 'core/operational.py: Argument')])
ref('Q02', 'Operators apply the right operation to operands in order',
    'Every arithmetic, comparison, in-place, reflected and unary operator '
    'and every numpy universal function on a measurable quantity applies the '
    'operation of its name to the values of both operands, in the order in '
    'which they were written, and reflected operators swap them back. '
    'Operators not supported between the operand types report that instead '
    'of producing a value, and operands whose metadata have to agree for the '
    'operation are refused when they do not.',
    'every operator, operand type and value',
    'Operators times operand types times in-place and reflected forms.',
    ['core/algebraic.py', 'core/measurable.py', 'core/metadata.py',
     'core/physical.py', 'core/variable.py'],
    [('operators', 'core/algebraic.py: Quantity'),
     ('implementations', 'core/measurable.py: Quantified.implement'),
     ('numpy', 'core/physical.py: Array.__array_ufunc__')])
ref('Q03', 'Results of operations carry the right metadata',
    'The unit, name, dimensions and parameters of a result are those the '
    'operation implies: units multiply, divide and are raised with the '
    'values, sums require and keep a common unit, names compose into the '
    'expression that was computed, and dimensions and parameters are the '
    'ordered union of those of the operands. An operation that does not '
    'define a metadata attribute leaves it off the result, and operations '
    'never change the metadata of their operands.',
    'every operation and combination of operands',
    'Chains of operations over operands with different metadata are '
    'unbounded.',
    ['core/metadata.py', 'core/observing.py', 'core/measurable.py',
     'core/variable.py'],
    [('operations', 'core/metadata.py: Operation, OperatorFactory'),
     ('attributes', 'core/metadata.py: Unit, Name, Dimensions'),
     ('parameters', 'core/observing.py: Parameters')])
ref('Q04', 'Changing a unit never changes the physical value',
    'For every kind of quantity (scalars, vectors, arrays, variables, axes, '
    'indices, assumptions, arguments and observations), a change of unit '
    'multiplies the values by exactly the conversion factor from the old to '
    'the new unit, once, and updates the unit to the new one; repeated or '
    'reversed changes, subscripting and copying keep value times unit '
    'constant. An inconsistent unit is refused and leaves the quantity as '
    'it was.',
    'every quantity, every unit and every sequence of changes of unit',
    'Sequences of changes, copies and subscripts are unbounded.',
    ['core/measurable.py', 'core/metadata.py', 'core/physical.py',
     'core/variable.py', 'core/axis.py', 'core/index.py', 'core/observed.py',
     'core/constant.py'],
    [('unit changes', 'core/metadata.py: UnitMixin'),
     ('lazy arrays', 'core/physical.py: Array'),
     ('observations', 'core/observed.py: Quantity')], ('inputs', 'histories'))
ref('V01', 'Variables subscript and compute like the arrays they hold',
    'Subscripting a variable with any numpy index gives the values that the '
    'same index selects from the full array, whether or not the data have '
    'been read yet, with the dimensions that the remaining axes have; a '
    'string subscript changes the unit instead. Numpy functions on variables '
    'give the numpy result on the values, with removed axes removed from '
    'the dimensions, and unsupported operands are refused.',
    'every array shape, index and numpy function',
    'Indices (slices, ellipses, sequences, masks, negative) combine freely '
    'with shapes.',
    ['core/physical.py', 'core/variable.py'],
    [('arrays', 'core/physical.py: Array'),
     ('variables', 'core/variable.py: Quantity, Array')])
ref('X01', 'Axes turn targets into the right indices and values',
    'Indexing an axis by positions gives those positions and the coordinate '
    'values at them; indexing by measurable values gives, for each target in '
    'order, the index of the coordinate nearest to it after conversion to '
    'the unit of the axis, paired with the requested value and unit. With no '
    'target the whole axis is used, slices and negative positions count as '
    'in numpy, species are found by symbol, mass or charge, and targets of '
    'inconsistent unit are refused.',
    'every axis, target and unit',
    'Targets between grid points, at the ends and in other units.',
    ['core/axis.py', 'core/index.py', 'eprem/__init__.py',
     'core/numerical.py', 'core/fundamental.py'],
    [('axes', 'core/axis.py: Quantity, Indexer'),
     ('indices', 'core/index.py'),
     ('EPREM axes', 'eprem/__init__.py: Axes')])
ref('X02', 'Off-grid targets are interpolated along the right axis',
    'A value requested between grid points is computed by linear '
    'interpolation along the axis of its coordinate, on the neighbouring '
    'grid points only where the coordinate is restricted, at the requested '
    'values in order, and all other axes keep their order and extent. '
    'Targets that are all on the grid need no interpolation, radius is '
    'interpolated on the coordinate array of the dataset, and coordinate '
    'transformations between Cartesian and spherical are mutually inverse '
    'formulas.',
    'every array, coordinate and target',
    'Targets and grids are continuous; no stable test interpolates.',
    ['core/interpolation.py', 'core/numerical.py', 'eprem/__init__.py'],
    [('interpolation', 'core/interpolation.py: apply, Restriction'),
     ('bounding', 'core/numerical.py: get_bounding_indices'),
     ('use', 'eprem/__init__.py: Context.interpolate')])
ref('O01', 'Observations apply exactly the user constraints',
    'An observation of a quantity uses, for every axis and parameter of that '
    'quantity, the value the user gave under any of its names for this '
    'observation, or else the default, and never one given for another '
    'observation; the result has the unit, dimensions and parameters of '
    'the quantity. The assumptions and axes recorded in the observation are '
    'the ones that were used.',
    'every observable, constraint and sequence of observations',
    'Histories of observations with different constraints; no stable test '
    'observes a full dataset.',
    ['core/observing.py', 'core/observed.py', 'core/computed.py',
     'eprem/__init__.py'],
    [('contexts', 'core/observing.py: Context, Observable'),
     ('EPREM context', 'eprem/__init__.py: Context, Functions'),
     ('methods', 'core/computed.py: Method, Quantity')],
    ('inputs', 'histories'))
ref('O02', 'Observers read the data, configuration and system they name',
    'An observer reads the dataset and configuration file found for its '
    'name, directories and file names, and after an update reads the new '
    'ones with nothing left over from the old; the metric system it was '
    'given determines the unit of every variable. Quantities are offered '
    'exactly when they can be observed, non-standard unit names in EPREM '
    'files are read as the standard units they mean, and missing files and '
    'unknown names are errors.',
    'every observer, path, update and metric system',
    'Histories of updates and file-system layouts.',
    ['core/observer.py', 'eprem/__init__.py', 'core/iotools.py'],
    [('observers', 'eprem/__init__.py: Observer'),
     ('interface', 'core/observer.py: Interface'),
     ('variables', 'eprem/__init__.py: Variables, standardize')],
    ('inputs', 'histories'))
ref('R01', 'Run-time parameters have the value EPREM would use, with a unit',
    'The value of a run-time parameter is the one in the configuration file '
    'if it is set there, and otherwise the EPREM default, converted to its '
    'declared type with symbolic definitions evaluated. It is found under '
    'each of its aliases, carries its documented unit, and an unknown '
    'parameter is an error.',
    'every parameter and configuration file',
    'Tests check some defaults; aliases, units and user overrides of most '
    'parameters are never read.',
    ['eprem/runtime.py', 'eprem/runtime.json'],
    [('parameters', 'eprem/runtime.py: Interface, Runtime'),
     ('tables', 'eprem/runtime.py: _CONFIGURATION_C, _BASETYPES_H, _LOCAL'),
     ('defaults', 'eprem/runtime.json')], ('inputs', 'configurations'))
ref('R02', 'EPREM source and configuration files are read faithfully',
    'Every preprocessor definition, variable definition and read call in the '
    'EPREM sources, and every assignment in a configuration file, is parsed '
    'to its name, value, type, bounds and mode; comments and blank lines are '
    'ignored and nothing else is. Generated defaults contain all parsed '
    'entries and are written only to the requested file. A comparison of configuration files shows each parameter with its default and its value in every file, or only those that differ.',
    'every source and configuration file',
    'File contents are unbounded; the EPREM source is not available to '
    'tests.',
    ['eprem/runtime.py', 'core/iotools.py'],
    [('source files', 'eprem/runtime.py: SourceFile, BaseTypesH, '
      'ConfigurationC'),
     ('configuration files', 'eprem/runtime.py: ConfigFile'),
     ('text files', 'core/iotools.py: TextFile')])
ref('F01', 'Dataset variables and axes are those in the file',
    'Every variable of a dataset is available under its name and all aliases '
    'with its data, unit and dimensions as stored in the file, and every '
    'axis with its size; asking for one the file does not have, for a '
    'missing file or for an unknown file type is an error. Files are opened '
    'for reading only, a file found by a template is the one for the '
    'requested name, and viewers chosen for one dataset do not affect '
    'others.',
    'every dataset and name',
    'Datasets are external; the stable tests use none of the real ones.',
    ['core/datafile.py', 'core/iotools.py', 'core/variable.py'],
    [('datasets', 'core/datafile.py: Interface, Viewer'),
     ('paths', 'core/iotools.py'),
     ('variables', 'core/variable.py: Interface')])
ref('C01', 'Constants and elements are looked up in the requested form',
    'A physical constant looked up in a metric system has the value and unit '
    'listed for that system; a scalar or assumption converts to the number '
    'it holds. Elements are identified by mass and charge as listed in the '
    'periodic table, a mass counts as the nearest whole number of '
    'nucleons, and unknown masses are errors.',
    'every constant, system, mass and charge',
    'Tests look up a few constants and no elements.',
    ['core/physical.py', 'core/constant.py', 'core/fundamental.py'],
    [('constants', 'core/physical.py: Constants'),
     ('assumptions', 'core/constant.py'),
     ('elements', 'core/fundamental.py')])
ref('K01', 'Spelling suggestions are known words one or two edits away',
    'A known word passes the spelling check; for any other word the check '
    'raises an error that suggests exactly the known words one edit '
    '(deletion, transposition, replacement, insertion) away or, if there is '
    'none, two edits away.',
    'every word and word list', 'Words are unbounded.',
    ['core/spelling.py'], [('checker', 'core/spelling.py: SpellChecker')])
prop('I01', 'Changing one object in place never changes another',
     'No operation modifies an object its caller passed to it, a container '
     'held by another object, or a container created once for a class or '
     'module, with two exceptions: the registries that keep the one instance '
     'per key and the numpy functions a class supports, and the functions '
     'whose purpose is to modify their argument. A container that an object '
     'modifies in place was created for that object, each method modifies '
     'only the attributes it is meant to, and accessors and '
     'merges that return a copy (norms, systems and dimensions of units, '
     'merged names, viewers of a file type, interpolated arrays) hand out '
     'containers that can be changed without effect on their source.',
     ['inputs', 'histories'],
     'every object, every call and every later modification of an object',
     'Sharing shows only when one object is modified and another one, '
     'created before or afterwards, is read; tests create fresh objects.',
     ['core', 'eprem'],
     [('mappings', 'core/aliased.py: Groups, Mapping, MutableMapping'),
      ('registries', 'core/iterables.py: ObjectRegistry, Connections'),
      ('units', 'core/metric.py: NamedUnit, Unit'),
      ('operations', 'core/metadata.py: Operation, OperatorFactory, '
       'Dimensions'),
      ('files', 'core/datafile.py: ViewerFactory'),
      ('derived quantities', 'core/computed.py'),
      ('observations', 'core/observing.py: Context; eprem/__init__.py')],
     'ownership analysis: flow-sensitive, interprocedural may-alias analysis '
     'of every in-place change',
     'sound for containers whose origin the analysis knows; a change of a '
     'container of unknown origin is reported as undecided')
na('N01', 'Interpolated observations are accurate',
   'The difference between an interpolated observation and the quantity the '
   'simulation represents is bounded by the grid spacing.',
   ['inputs'], 'every dataset and target', 'Continuous inputs.',
   ['core/interpolation.py'], [('interpolation', 'core/interpolation.py')],
   'bounds on floating-point values of external datasets are run-time '
   'quantities; no static argument in reach bounds them')
na('N02', 'Formatting and parsing are mutually inverse',
   'The string form of every unit, dimension and expression parses back to '
   'an equal object.',
   ['inputs'], 'every expression', 'Unbounded set of expressions.',
   ['core/symbolic.py'], [('format', 'core/symbolic.py: Expression.format')],
   'needs an inductive argument over the strings produced by str() and the '
   'regular-expression parser; numeric formatting of floats is outside any '
   'static domain available here (parsing and formatting are each compared '
   'with their references under S01 and S02)')
