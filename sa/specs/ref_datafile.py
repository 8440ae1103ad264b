"""Reference definitions: goats.core.datafile."""

MODULE = 'goats.core.datafile'
COVERS = (
    'Viewer.__init__',
    'Viewer.__iter__',
    'Viewer.__len__',
    'Viewer.get_members',
    'NetCDFVariables.get_members',
    'NetCDFVariables.__getitem__',
    'NetCDFAxes.get_members',
    'NetCDFAxes.__getitem__',
    'ViewerFactory._viewer_map',
    'ViewerFactory.__init__',
    'ViewerFactory.__iter__',
    'ViewerFactory.__len__',
    'ViewerFactory.__getitem__',
    'ViewerFactory.__setitem__',
    'ViewerFactory.__delitem__',
    'Interface.__init__',
    'Interface.variables',
    'Interface.units',
    'Interface.axes',
    'Interface.available',
    'Interface.use',
)


class Viewer:
    def __init__(self, path):
        self.members = self.get_members(path)

    def __iter__(self):
        return iter(self.members)

    def __len__(self):
        return len(self.members)

    @abc.abstractmethod
    def get_members(self, path):
        pass


class NetCDFVariables:
    def get_members(self, path):
        dataset = netCDF4.Dataset(path, 'r')
        return dataset.variables

    def __getitem__(self, name):
        if name in self.members:
            data = self.members[name]
            unit = self._get_unit_from_data(data)
            dimensions = self._get_dimensions_from_data(data)
            return Variable(data, unit, dimensions, name)
        raise KeyError

    def _get_dimensions_from_data(self, data):
        return tuple(getattr(data, 'dimensions', ()))

    def _get_unit_from_data(self, data):
        available = (
            getattr(data, attr)
            for attr in ('unit', 'units')
            if hasattr(data, attr)
        )
        return next(available, None)


class NetCDFAxes:
    def get_members(self, path):
        dataset = netCDF4.Dataset(path, 'r')
        return dataset.dimensions

    def __getitem__(self, name):
        if name in self.members:
            data = self.members[name]
            size = getattr(data, 'size', None)
            return Axis(size, name)
        raise KeyError


class ViewerFactory:
    _viewer_map = {'.nc': {'variables': NetCDFVariables, 'axes': NetCDFAxes}}

    def __init__(self, path):
        self._viewers = self._get_viewers(path)
        self.path = path

    def __iter__(self):
        return iter(self._viewers)

    def __len__(self):
        return len(self._viewers)

    def _get_viewers(self, path):
        try:
            viewers = dict(self._viewer_map[path.suffix])
        except KeyError:
            raise TypeError
        else:
            return viewers

    def __getitem__(self, group):
        if group in self._viewers:
            viewer = self._viewers[group]
            return viewer(self.path)
        raise KeyError

    def __setitem__(self, group, viewer):
        self._viewers[group] = viewer

    def __delitem__(self, group):
        del self._viewers[group]


class Interface:
    def __init__(self, path):
        self.path = iotools.ReadOnlyPath(path)
        self.viewers = ViewerFactory(self.path)
        self._variables = None
        self._axes = None
        self._units = None

    @property
    def variables(self):
        if self._variables is None:
            self._variables = aliased.Mapping(
                self.viewers['variables'], aliases=reference.ALIASES
            )
        return self._variables

    @property
    def units(self):
        if self._units is None:
            units = {
                name: variable.unit
                for name, variable in self.variables.items(aliased=True)
            }
            self._units = aliased.Mapping(units)
        return self._units

    @property
    def axes(self):
        if self._axes is None:
            self._axes = aliased.Mapping(
                self.viewers['axes'], aliases=reference.ALIASES
            )
        return self._axes

    def available(self, key):
        if key in {'variable', 'variables'}:
            return SubsetKeys(
                full=tuple(self.variables),
                grouped=tuple(self.variables.keys(aliased=True)),
                canonical=tuple(self.viewers['variables'].keys()),
            )
        if key in {'axis', 'axes', 'dimension', 'dimensions'}:
            return SubsetKeys(
                full=tuple(self.axes),
                grouped=tuple(self.axes.keys(aliased=True)),
                canonical=tuple(self.viewers['axes'].keys()),
            )

    def use(self, **viewers):
        self.viewers.update(viewers)
        return self
