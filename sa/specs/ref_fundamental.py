"""Reference definitions: goats.core.fundamental."""

MODULE = 'goats.core.fundamental'
COVERS = (
    'elements',
    'MassValueError.__init__',
    'get_mass_indices',
)


def _normalize(defined):
    systems = ('mks', 'cgs')
    norm = {}
    for key, definition in defined.items():
        if 'all' in definition:
            value = definition.pop('all')
            new = {k: {'unit': '1', 'value': value} for k in systems}
            definition.update(new)
        norm[key] = definition
    return norm


def elements(mass, charge):
    _mass = numpy.array(mass, ndmin=1)
    _charge = numpy.array(charge, ndmin=1)
    if len(_mass) != len(_charge):
        message = f'Length of mass ({len(_mass)}) must equal length of charge ({len(_charge)})'
        raise TypeError(message)
    mass_idx = get_mass_indices(_nucleons, _mass)
    bases = [list(_nucleons.keys())[m] for m in mass_idx]
    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
    return [f'{b}{c}' for b, c in zip(bases, signs)]


class MassValueError:
    def __init__(self, value):
        self.value = value


def get_mass_indices(nucleons, targets):

    def get_index(this, that):
        try:
            return this.index(that)
        except ValueError as err:
            raise MassValueError(that)

    values = list(nucleons.values())
    return [get_index(values, round(target)) for target in targets]


def _show_constants():
    for key, data in CONSTANTS.items(aliased=True):
        print(f'{key}: {data["info"]}')
        for system in ('mks', 'cgs'):
            value = data[system]['value']
            unit = data[system]['unit']
            print(f'\t{system}: {value} [{unit}]')
        print()


def _show_elements():
    ELEMENTS.show(names=['symbol', 'name', 'mass'])


def show(*subsets):
    printers = {'constants': _show_constants, 'elements': _show_elements}
    if not subsets:
        subsets = tuple(printers)
    for subset in subsets:
        if subset in printers:
            printers[subset]()
        else:
            print(f'Nothing to print for {subset!r}')
