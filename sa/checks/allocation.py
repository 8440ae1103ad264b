"""Which reference definitions decide which property.

Patterns are matched against ``module:name`` (module without ``goats.`` and
``core.``).  A function may serve several properties.
"""

CONVERSION = [
    'metric:Conversion.*', 'metric:conversion', 'metric:ratio',
    'metric:reduction', 'metric:Reduction.*', 'metric:identify',
    'metric:build_unit_aliases', 'metric:NamedUnit.__*floordiv__',
    'metric:NamedUnit.prefix', 'metric:NamedUnit.base',
    'metric:NamedUnit.scale', 'metric:NamedUnit.reduce',
    'metric:NamedUnit.__init__', 'metric:_NamedUnitMeta.*',
    'metric:Unit.__*floordiv__', 'metric:_Converter.*',
    'metric:Quantity.convert',
]
UNIT = [
    'metric:Unit.*', 'metric:_UnitMeta.*', 'metric:NamedUnit.*',
    'metric:_NamedUnitMeta.*', 'metric:Dimension.*', 'metric:Dimensions.*',
    'metric:identify', 'metric:build_unit_aliases', 'metric:Reduction.*',
    'metric:reduction',
]
SYSTEM = [
    'metric:Properties.*', 'metric:Quantity.__*', 'metric:System.*',
    'metric:_Property.*',
]
PARSING = [
    'symbolic:Operator.*', 'symbolic:PartMatch.*', 'symbolic:Patterns.*',
    'symbolic:OperatorFactory.*', 'symbolic:OperandFactory.*',
    'symbolic:Term._base_re', 'symbolic:Iteration.*', 'symbolic:Parser.*',
    'symbolic:ParsingError.*', 'symbolic:Expression.__new__',
    'symbolic:Expression.__init__', 'symbolic:composition',
    'symbolic:asterms', 'symbolic:standard',
]
ALGEBRA = [
    'symbolic:Operand.*', 'symbolic:Term.*', 'symbolic:Expression.*',
    'symbolic:reduce', 'symbolic:equality', 'symbolic:product',
    'symbolic:ratio', 'symbolic:power', 'symbolic:standard',
    'symbolic:composition', 'symbolic:asterms',
]
RESCALE = [
    'metadata:UnitMixin.*', 'metadata:Unit.*', 'measurable:Quantity.*',
    'measurable:Measurement.*', 'physical:Array.__new__',
    'physical:Array.__init__', 'physical:Array.data',
    'physical:Array.__getitem__', 'physical:Array.apply_unit',
    'physical:Array.__measure__', 'physical:Array.__array__',
    'physical:Vector.*', 'physical:Scalar.*', 'physical:scalar',
    'variable:Quantity.*', 'variable:Interface.*', 'variable:Array.__init__',
    'variable:Array.data', 'variable:Array.__getitem__',
    'index:Quantity.*', 'index:Data.*', 'axis:Quantity.*', 'observed:*',
    'observing:Observation.*', 'observing:Target.*', 'constant:*',
    'computed:Quantity.*', 'operational:Argument.*',
]
AXES = [
    'axis:*', 'index:*', 'eprem:Axes.*', 'numerical:find_nearest',
    'numerical:find_1d_indices', 'numerical:get_bounding_indices',
    'numerical:cast', 'fundamental:*', 'eprem:Context._axis_indices',
    'eprem:Context.get_index', 'eprem:Context.compute_index',
]

#: property -> (what is compared, patterns)
PROPS = {
    'U01': ('unit conversion', CONVERSION + [
        'metric:NamedUnit.is_*', 'metric:NamedUnit.dimensions',
        'metric:NamedUnit.decomposed', 'metric:Unit.decompose*',
        'metric:Unit.__init__', 'metric:_UnitMeta.*']),
    'U02': ('unit algebra, equality and dimension', UNIT),
    'U03': ('metric systems and quantities', SYSTEM + [
        'metric:Quantity.convert', 'metric:_Converter.*',
        'metric:Dimensions.*', 'metric:NamedUnit.is_*',
        'metric:NamedUnit.systems']),
    'S01': ('symbolic algebra', ALGEBRA),
    'S02': ('symbolic parsing', PARSING),
    'A01': ('alias groups and aliased mappings', [
        'aliased:*', 'reference:_BASE']),
    'T01': ('tables, registries and containers', [
        'iterables:*', 'utilities:*']),
    'Q01': ('measurement of arbitrary arguments', [
        'measurable:Measurement.*', 'measurable:*measur*',
        'measurable:ensure_unit', 'measurable:Unmeasurable.*',
        'measurable:Quantified.*', 'measurable:Quantity.*',
        'measurable:_Formal.*', 'measurable:Scalar.*', 'operational:*',
        'variable:Quantity.__measure__', 'physical:Array.__measure__',
        'constant:*', 'iterables:whole.*', 'iterables:unwrap',
        'iterables:distribute', 'iterables:allinstance']),
    'Q02': ('arithmetic and comparison operators', [
        'algebraic:*', 'measurable:Quantified.*', 'measurable:Quantity.*',
        'metadata:Operand*', 'metadata:Operator*', 'metadata:Operation.*',
        'physical:Array.__array*', 'physical:Array.__eq__',
        'physical:Array.implements', 'physical:Array._*', 'physical:Vector.*',
        'variable:Array.__*', 'variable:Quantity.__eq__',
        'operational:Argument.__*', 'constant:*', 'observing:Observation.*']),
    'Q03': ('metadata of results', [
        'metadata:*', 'observing:Parameters.*', 'measurable:Quantified.*',
        'measurable:Quantity.parse_attrs', 'variable:Quantity.*',
        'observing:Quantity.*', 'variable:Array.__array*',
        'variable:_*', 'physical:Quantity.*']),
    'Q04': ('changes of unit', RESCALE + CONVERSION),
    'V01': ('subscripting and numpy integration of arrays', [
        'physical:Array.*', 'variable:*', 'index:Array.*',
        'metadata:Dimensions*', 'iterables:slice_to_range']),
    'X01': ('axes and indices', AXES),
    'X02': ('interpolation', [
        'interpolation:*', 'numerical:*', 'eprem:Context.interpolate',
        'eprem:Context.coordinates', 'eprem:Context.get_index',
        'eprem:Context.compute_index', 'eprem:Context._axis_indices',
        'eprem:Context.compute', 'eprem:Context.observe']),
    'O01': ('observing', [
        'observing:*', 'observed:*', 'observer:*', 'computed:*',
        'eprem:Context.*', 'eprem:Functions.*', 'axis:Quantity.*',
        'constant:*', 'operational:*', 'interpolation:*']),
    'O02': ('observers', [
        'observer:*', 'eprem:Observer.*', 'eprem:Stream.*', 'eprem:Point.*',
        'eprem:Variables.*', 'eprem:Axes.*', 'eprem:standardize',
        'eprem:_UNIT_MAP', 'iotools:find_file_by_template',
        'eprem:Context.__init__', 'eprem:Functions.__init__',
        'variable:Interface.*']),
    'R01': ('run-time parameters', [
        'runtime:Runtime.*', 'runtime:Interface.*', 'runtime:Arguments.*',
        'runtime:ConfigFile.*', 'runtime:soft_convert',
        'runtime:ConfigurationC.*', 'runtime:BaseTypesH.*',
        'runtime:_metadata', 'runtime:*ALIASES', 'runtime:_UNITS']),
    'R02': ('source and configuration files', [
        'runtime:BaseTypeDef.*', 'runtime:FunctionCall.*',
        'runtime:VariableDefinition.*', 'runtime:SourceFile.*',
        'runtime:BaseTypesH.*', 'runtime:ConfigurationC.*',
        'runtime:ConfigFile.*', 'runtime:soft_convert',
        'runtime:generate_defaults', 'runtime:_build_arg_dict',
        'runtime:_get_relative_paths', 'iotools:TextFile.*',
        'iotools:file_lines', 'iotools:strip_inline_comments']),
    'F01': ('dataset access', [
        'datafile:*', 'iotools:*', 'variable:Interface.*',
        'eprem:Variables.*', 'eprem:standardize', 'eprem:_UNIT_MAP']),
    'C01': ('constants and elements', [
        'physical:Constants.*', 'physical:Scalar.*', 'constant:*',
        'fundamental:*', 'eprem:Axes.species', 'plasma:*']),
    'K01': ('spelling suggestions', ['spelling:*', 'observer:*']),
}
