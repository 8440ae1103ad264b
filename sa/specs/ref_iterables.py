"""Reference definitions: goats.core.iterables."""

MODULE = 'goats.core.iterables'
COVERS = (
    'unique',
    'unwrap',
    'get_nested_element',
    'missing',
    'transpose_list',
    'slice_to_range',
    'string_to_list',
    'naked',
    'show_at_most',
    'RequiredAttrMeta._required',
    'RequiredAttrMeta.__call__',
    'CollectionMixin.collect',
    'CollectionMixin.__contains__',
    'CollectionMixin.__len__',
    'CollectionMixin.__iter__',
    'MappingBase.__init__',
    'MappingBase.__len__',
    'MappingBase.__iter__',
    'UniformMapping.__init__',
    'UniformMapping.__getitem__',
    'Bijection.__new__',
    'Bijection.__init__',
    'Bijection.__getitem__',
    'Bijection.invert',
    'ObjectRegistry.__init__',
    'ObjectRegistry.__iter__',
    'ObjectRegistry.__len__',
    'ObjectRegistry.__contains__',
    'ObjectRegistry.register',
    'ObjectRegistry.reset',
    'ObjectRegistry.__getitem__',
    'ObjectRegistry.keys',
    'ObjectRegistry.values',
    'ObjectRegistry.items',
    'ObjectRegistry.copy',
    'TableValueError.__init__',
    'TableRequestError.__init__',
    'Table.__init__',
    'Table.keys',
    'Table.__getitem__',
    'Table.get',
    'Table.find',
    'Table.__call__',
    'Connections.__init__',
    'Connections.__contains__',
    'Connections.__len__',
    'Connections.__iter__',
    'Connections.nodes',
    'Connections.get_adjacencies',
    'Connections.get_weight',
    'Connections.add_connection',
    'Singleton._exists',
    'Singleton._instance',
    'Singleton.__new__',
    'InstanceSet._instances',
    'InstanceSet.__call__',
    'NothingType.__getitem__',
    'NothingType.__call__',
    'NothingType.__len__',
    'NothingType.__contains__',
    'NothingType.__iter__',
    'NothingType.__next__',
    'NothingType.__bool__',
    'NonStrIterable.__instancecheck__',
    'SeparableTypeError.__init__',
    'whole.__init__',
    'whole.parse',
    'whole.__iter__',
    'whole.__len__',
    'whole.__contains__',
    'whole.__eq__',
    'distribute',
    'classproperty.__get__',
    'isproperty',
    'batch_replace',
    'apply',
    'allinstance',
    'extract_single',
    'class_attribute',
    'pop',
    'oftype',
    'hastype',
    'Guard.__init__',
    'Guard.catch',
    'Guard.call',
)


def unique(*items):
    collection = []
    for item in items:
        if item not in collection:
            collection.append(item)
    return collection


def unwrap(obj, wrap=None):
    seed = [obj]
    wrapped = (list, tuple)
    while isinstance(seed, wrapped) and len(seed) == 1:
        seed = seed[0]
    if wrap is not None:
        return wrap(whole(seed))
    return seed


def get_nested_element(mapping, levels):
    this = mapping[levels[0]]
    if len(levels) > 1:
        for level in levels[1:]:
            this = this[level]
    return this


def missing(this):
    if isinstance(this, numbers.Number):
        return False
    size = getattr(this, 'size', None)
    if size is not None:
        return size == 0
    try:
        result = not bool(this)
    except ValueError:
        result = all((missing(i) for i in this))
    return result


def transpose_list(list_in):
    element_length = len(list_in[0])
    return [[element[i] for element in list_in] for i in range(element_length)]


def slice_to_range(s, stop=0):
    if stop is None:
        raise TypeError
    start = s.start or 0
    stop = s.stop or stop
    step = s.step or 1
    return range(start, stop, step)


def string_to_list(string):
    if not (string.startswith('[') and string.endswith(']')):
        raise TypeError
    inside = string.strip('[]')
    if not inside:
        return []
    items = [item.strip(" ''") for item in inside.split(',')]
    return [numerical.cast(i) for i in items]


def naked(targets):
    singular = (int, float, str)
    return targets is Ellipsis or isinstance(
        targets, (slice, range, *singular)
    )


def show_at_most(n, values, separator=','):
    seq = list(values)
    if len(seq) <= n:
        return separator.join((str(v) for v in seq))
    truncated = [*seq[: n - 1], '...', seq[-1]]
    return separator.join((str(v) for v in truncated))


class Displayable:
    @property
    @abc.abstractmethod
    def display(self): ...


class DisplayMap:
    def __init__(self, instance):
        self._instance = instance

    def __getitem__(self, name):
        attr = getattr(self._instance, self._instance.display[name])
        this = attr() if callable(attr) else attr
        return str(this)


class DisplayString:
    def __init__(self, seq):
        super().__init__(seq)
        self.separator = ' '

    def __getitem__(self, __i):
        parts = self.data.split(self.separator)
        return parts[__i]

    def append(self, substring):
        parts = self.data.split(self.separator)
        parts.append(substring)
        self.data = self.separator.join(parts)

    def insert(self, index, substring):
        parts = self.data.split(self.separator)
        parts.insert(index, substring)
        self.data = self.separator.join(parts)

    def format_map(self, mapping):
        return self.data.format_map(mapping)


class Display:
    def __init__(self, **kwargs):
        mapping = {'__str__': '', '__repr__': '', **kwargs}
        super().__init__(mapping)

    def __getitem__(self, __k):
        return super().__getitem__(__k)

    def __setitem__(self, __k, __s):
        if __k not in {'__str__', '__repr__'}:
            raise KeyError
        self.data[__k] = DisplayString(__s)

    def register(self, *names, **pairs):
        for name in names:
            self.data[name] = name
        for name, alias in pairs.items():
            self.data[name] = alias


class ReprStrMixin:
    _display = None

    @property
    def display(self):
        if self._display is None:
            self._display = Display()
        return self._display

    def _get_display(self, method):
        target = self.display[method]
        return target.format_map(DisplayMap(self))


class RequiredAttrMeta:
    _required = []

    def __call__(self, *args, **kwargs):
        instance = super().__call__(*args, **kwargs)
        cls = self.__qualname__
        for attr in self._required:
            if not hasattr(instance, attr):
                raise NotImplementedError
        return instance


class CollectionMixin:
    def collect(self, name):
        self._collection_name = name

    @property
    def _collection(self):
        try:
            this = getattr(self, self._collection_name, ())
        except AttributeError:
            indent = ' ' * len('AttributeError: ')
            raise AttributeError
        else:
            return this

    def __contains__(self, key):
        return key in self._collection

    def __len__(self):
        return len(self._collection)

    def __iter__(self):
        return iter(self._collection)


class MappingBase:
    def __init__(self, __collection):
        self._collection = __collection

    def __len__(self):
        return len(self._collection)

    def __iter__(self):
        return iter(self._collection)


class UniformMapping:
    def __init__(self, __mapping, __type):
        self._mapping = __mapping
        super().__init__(self._mapping)
        self._type = __type
        self._init = None
        if issubclass(self._type, tuple):
            bases = self._type.__bases__
            if len(bases) == 1 and bases[0] == tuple:
                self._init = getattr(self._type, '_fields', None)
        if self._init is None:
            self._init = tuple(
                (
                    p
                    for p in inspect.signature(self._type.__init__).parameters
                    if p != 'self'
                )
            )

    def __getitem__(self, key):
        if key in self:
            kwargs = {p: self._mapping[key].get(p) for p in self._init}
            return self._type(**kwargs)
        raise KeyError(key)


class Bijection:
    def __new__(cls, __mapping):
        mapping = dict(__mapping)
        n_keys = len(mapping.keys())
        n_values = len(set(mapping.values()))
        if n_keys > n_values:
            raise InjectiveTypeError
        if n_keys != n_values:
            raise NonInvertibleError
        return super().__new__(cls)

    def __init__(self, __mapping):
        self._mapping = dict(__mapping)
        super().__init__(self._mapping.keys())

    def __getitem__(self, key):
        return self._mapping[key]

    def invert(self):
        return type(self)({v: k for k, v in self.items()})


class ObjectRegistry:
    def __init__(self, base=None, object_key='object'):
        mapping = base or {}
        self._items = {
            k: v if isinstance(v, typing.Mapping) else {object_key: v}
            for k, v in mapping.items()
        }
        self._object_key = object_key
        self._init = self._items.copy()
        self._default_key_count = 1

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __contains__(self, key):
        return key in self._items

    def register(self, _obj=None, name=None, overwrite=False, **metadata):

        @functools.wraps(_obj)
        def decorator(obj):
            key = self._get_mapping_key(obj, user=name, overwrite=overwrite)
            self._items[key] = {self._object_key: obj, **metadata}
            return obj

        if _obj is None:
            return decorator
        return decorator(_obj)

    def _get_mapping_key(self, obj, user=None, overwrite=False):
        available = user not in self._items or overwrite
        if user and isinstance(user, typing.Hashable) and available:
            return user
        return self._get_default_key(obj)

    def _get_default_key(self, obj):
        options = ['__qualname__', '__name__']
        for option in options:
            if hasattr(obj, option):
                proposed = getattr(obj, option)
                if proposed not in self._items:
                    return proposed
                new_default_key = f'{proposed}_{self._default_key_count}'
                self._default_key_count += 1
                return new_default_key

    def reset(self):
        self._items = {**self._init}

    def __getitem__(self, key):
        return self._items[key]

    def keys(self):
        return super().keys()

    def values(self):
        return super().values()

    def items(self):
        return super().items()

    def copy(self):
        return ObjectRegistry(self._items.copy(), object_key=self._object_key)


class TableValueError:
    def __init__(self, value):
        self.value = value


class TableRequestError:
    def __init__(self, request):
        self.request = request


class Table:
    def __init__(self, entries):
        super().__init__(entries)
        self._entries = entries
        self._keys = None

    def show(self, names=None):
        colpad = 2
        names = names or ()
        columns = {
            name: {'width': len(name)} for name in names if name in self.keys
        }
        dashed = {
            name: '-' * column['width'] for name, column in columns.items()
        }
        for name, column in columns.items():
            values = self.get(name, ())
            for value in values:
                column['width'] = max(column['width'], len(str(value)))
        headers = [
            f'{name:^{2 * colpad + column["width"]}}'
            for name, column in columns.items()
        ]
        lines = [
            f'{dashed[name]:^{2 * colpad + column["width"]}}'
            for name, column in columns.items()
        ]
        rows = [
            [
                f'{entry[name]:^{2 * colpad + column["width"]}}'
                for name, column in columns.items()
            ]
            for entry in self
        ]
        if headers:
            print(''.join((header for header in headers if header)))
        if lines:
            print(''.join((line for line in lines if line)))
        for row in rows:
            if row:
                print(''.join(row))

    @property
    def keys(self):
        if self._keys is None:
            all_keys = [list(entry.keys()) for entry in self._entries]
            self._keys = set(all_keys[0]).intersection(*all_keys[1:])
        return self._keys

    def __getitem__(self, key):
        if key in self.keys:
            values = [entry[key] for entry in self._entries]
            return tuple(values)
        raise TableKeyError(key)

    def get(self, key, default=None):
        try:
            return self[key]
        except TableKeyError:
            values = [entry.get(key, default) for entry in self._entries]
            return tuple(values)

    def find(self, value, unique=False):
        found = [entry for entry in self._entries if value in entry.values()]
        if not found:
            raise MissingValueError(value)
        if not unique:
            return found
        if len(found) > 1:
            raise AmbiguousValueError(value)
        return found[0]

    def __call__(self, strict=False, **request):
        subset = [*self._entries]
        for n_checked, pair in enumerate(request.items(), start=1):
            key, value = pair
            if key not in self.keys:
                raise TableKeyError(key)
            subset = [entry for entry in subset if entry[key] == value]
            if not strict:
                count = self[key].count(value)
                if count > n_checked and len(request) == n_checked:
                    raise AmbiguousRequestError(request)
                if len(subset) == 1:
                    return subset[0]
        if strict and len(subset) == 1:
            return subset[0]
        raise TableLookupError(request)


class Connections:
    def __init__(self, base=None):
        self.connections = {}
        base = base or {}
        for (start, end), weight in base.items():
            self.add_connection(start, end, weight)

    def __contains__(self, connection):
        return connection in self.connections

    def __len__(self):
        return len(self.connections)

    def __iter__(self):
        return iter(self.connections)

    @property
    def nodes(self):
        return {n for connection in self.connections for n in connection}

    def get_adjacencies(self, node):
        return (
            {
                end: v
                for (start, end), v in self.connections.items()
                if start == node
            }
            if node in self.nodes
            else {}
        )

    def get_weight(self, start, end):
        if (start, end) in self.connections:
            return self.connections[start, end]
        raise KeyError

    def add_connection(self, start, end, weight=None):
        forward = ((start, end), weight)
        inverse = 1 / weight if weight else weight
        reverse = ((end, start), inverse)
        for edge, value in (forward, reverse):
            if edge not in self.connections:
                self.connections[edge] = value


class Singleton:
    _exists = False
    _instance = None

    def __new__(cls, *args, **kwargs):
        if cls._exists:
            return cls._instance
        new = super(Singleton, cls).__new__(cls)
        cls._exists = True
        cls._instance = new
        return new


class InstanceSet:
    _instances = {}

    def __call__(self, *args, **kwargs):
        key = self._generate_key(*args, **kwargs)
        if key not in self._instances:
            self._instances[key] = super().__call__(*args, **kwargs)
        return self._instances[key]

    @abc.abstractmethod
    def _generate_key(self, *args, **kwargs):
        raise TypeError


class NothingType:
    def __getitem__(self, index):
        return None

    def __call__(self, *args, **kwargs):
        return None

    def __len__(self):
        return 0

    def __contains__(self, key):
        return False

    def __iter__(self):
        yield from ()

    def __next__(self):
        raise StopIteration

    def __bool__(self):
        return False


class NonStrIterable:
    def __instancecheck__(cls, this):
        return not isinstance(this, (str, bytes)) and isinstance(
            this, typing.Iterable
        )


class SeparableTypeError:
    def __init__(self, arg):
        self.arg = arg


class whole:
    def __init__(self, arg):
        self.arg = self.parse(arg)

    @staticmethod
    def parse(arg):
        if arg is None:
            return []
        if isinstance(arg, str):
            return [arg]
        try:
            iter(arg)
        except TypeError:
            return [arg]
        else:
            return list(arg)

    def __iter__(self):
        return iter(self.arg)

    def __len__(self):
        return len(self.arg)

    def __contains__(self, this):
        return this in self.arg

    def __eq__(self, other):
        if isinstance(other, whole):
            return sorted(self) == sorted(other)
        return NotImplemented


def distribute(a, b):
    a_separable = isinstance(a, whole)
    b_separable = isinstance(b, whole)
    if not (a_separable or b_separable):
        raise TypeError
    if a_separable and b_separable:
        return iter(product(a, b))
    if not a_separable:
        return iter(((a, i) for i in b))
    return iter(((i, b) for i in a))


class classproperty:
    def __get__(self, owner_obj, owner_cls):
        return self.fget(owner_cls)


def isproperty(this):
    return inspect.isdatadescriptor(this) and isinstance(this, property)


def batch_replace(string, replacement):
    for old, new in replacement.items():
        string = string.replace(old.strip(), new)
    return string


def apply(methods, *args, **kwargs):
    gen = (method(*args, **kwargs) for method in methods)
    if result := next((match for match in gen if match), None):
        return result


def allinstance(__args, __type):
    return all((isinstance(arg, __type) for arg in __args))


def extract_single(args):
    try:
        n = len(args)
    except TypeError:
        n = None
    return args[0] if n == 1 else args


def class_attribute(__cls, name):
    ancestors = __cls.mro()[::-1]
    return [
        attr
        for ancestor in ancestors
        for attr in whole(getattr(ancestor, name, ()))
    ]


def pop(__x, default):
    try:
        return __x.pop(0)
    except IndexError:
        return default


def oftype(__type):

    def dunder_new(cls, *args):
        if not all((isinstance(arg, __type) for arg in args)):
            raise TypeError
        return args[0] if len(args) == 1 else iter(args)

    return type(
        f'StrictIterable[{__type.__qualname__}]',
        (collections.abc.Iterable,),
        {'__new__': dunder_new},
    )


def hastype(__obj, __types, *wrappers, strict=False):
    if isinstance(__obj, __types):
        return True
    for wrapper in wrappers:
        if isinstance(__obj, wrapper):
            check = all if strict else any
            return check((isinstance(i, __types) for i in __obj))
    return False


class Guard:
    def __init__(self, __callable):
        self._call = __callable
        self._substitutions = {}

    def catch(self, exception, /, value=None):
        self._substitutions[exception] = value

    def call(self, *args, **kwargs):
        try:
            return self._call(*args, **kwargs)
        except tuple(self._substitutions) as err:
            value = self._substitutions[type(err)]
            if value != Ellipsis:
                return value
            if not kwargs:
                if len(args) == 1:
                    return args[0]
                return args
            if not args:
                return kwargs
            return (args, kwargs)
