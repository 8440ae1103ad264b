"""Reference definitions: goats.core.aliased."""

MODULE = 'goats.core.aliased'
COVERS = (
    'Group._builtin',
    'Group.supports',
    'Group.__init__',
    'Group.__iter__',
    'Group.__len__',
    'Group.__contains__',
    'Group.__hash__',
    'Group.__bool__',
    'Group.__eq__',
    'Group.__and__',
    'Group.isdisjoint',
    'Group.__or__',
    'Group.__sub__',
    'Group.__rsub__',
    'Group.__xor__',
    'Groups.__init__',
    'Groups.flat',
    'Groups.__len__',
    'Groups.__iter__',
    'Groups.__contains__',
    'Groups.update',
    'Groups.merge',
    'Groups.add',
    'Groups.discard',
    'Groups.find',
    'Groups.without',
    'keysfrom',
    'MappingView.__init__',
    'MappingView.__len__',
    'KeysView.__iter__',
    'ValuesView.__iter__',
    'ItemsView.__iter__',
    'Mapping.__init__',
    'Mapping.flat',
    'Mapping.__contains__',
    'Mapping.__iter__',
    'Mapping.__len__',
    'Mapping.__getitem__',
    'Mapping.squeeze',
    'Mapping.fromkeys',
    'Mapping.alias',
    'Mapping.__eq__',
    'Mapping.__or__',
    'Mapping.keys',
    'Mapping.values',
    'Mapping.items',
    'Mapping.copy',
    'MutableMapping.__setitem__',
    'MutableMapping.__delitem__',
    'MutableMapping.alias',
    'NameMap.__init__',
    'NameMap.invert',
    'NameMap.__getitem__',
    'NameMap.keys',
    'NameMap.values',
    'NameMap.items',
    'NameMap.copy',
)


class Group:
    __slots__ = '_aliases'
    _builtin = (tuple, list, set)

    @classmethod
    def supports(cls, key):
        try:
            cls(key)
        except TypeError:
            return False
        return True

    def __init__(self, *a):
        if not a:
            raise TypeError
        self._aliases = self._from_iterable(a)

    @classmethod
    def _from_iterable(cls, it):
        return iterables.unwrap(it, wrap=set)

    def __iter__(self):
        return iter(self._aliases)

    def __len__(self):
        return len(self._aliases)

    def __contains__(self, key):
        return key in self._aliases

    def __hash__(self):
        return hash(frozenset(self._aliases))

    def __bool__(self):
        return bool(self._aliases)

    def _implement(operator):

        def method(self, other):
            return operator(self, Group(other))

        def wrapper(self, other):
            result = method(self, other)
            if isinstance(result, typing.Iterable):
                return type(self)(result)
            return result

        return wrapper

    __eq__ = _implement(collections.abc.Set.__eq__)
    __and__ = _implement(collections.abc.Set.__and__)
    isdisjoint = _implement(collections.abc.Set.isdisjoint)
    __or__ = _implement(collections.abc.Set.__or__)
    __sub__ = _implement(collections.abc.Set.__sub__)
    __rsub__ = _implement(collections.abc.Set.__rsub__)
    __xor__ = _implement(collections.abc.Set.__xor__)


class Groups:
    def __init__(self, *keys):
        self._groups = [Group(key) for key in keys]

    @property
    def flat(self):
        return [key for group in self._groups for key in group]

    def __len__(self):
        return len(self._groups)

    def __iter__(self):
        return iter(self._groups)

    def __contains__(self, __x):
        return self.find(__x) is not None

    def update(self, *others):
        if not others:
            return
        self._groups = self._merge(*others)

    def merge(self, *others):
        return type(self)(*self._merge(*others))

    def _merge(self, *others):
        these = self._groups.copy()
        for this in others:
            groups = this if isinstance(this, Groups) else [Group(this)]
            for group in groups:
                found = [g for g in these if not g.isdisjoint(group)]
                for overlapping in found:
                    these.remove(overlapping)
                    group = overlapping | group
                these.append(group)
        return these

    def add(self, __x):
        for i in __x:
            if i in self.flat:
                raise ValueError
        self._groups.append(Group(__x))

    def discard(self, __x):
        if found := self.find(__x):
            self._groups.remove(found)

    def find(self, __x, default=None):
        s = str(__x)
        m = Group(__x)
        alias = (k for k in self._groups if s in k or m == k)
        return next(alias, default)

    def without(self, *keys):
        subset = [
            group
            for group in self._groups
            if all((key not in group for key in keys)) and group not in keys
        ]
        return type(self)(*subset)


def keysfrom(mapping, aliases=None):
    if isinstance(mapping, Mapping):
        return mapping.keys(aliased=True)
    if aliases is None:
        return [Group(k) for k in mapping.keys()]
    if isinstance(aliases, Groups):
        return [Group(k) | aliases.find(k, ()) for k in mapping.keys()]
    return [Group(k) | Group(v.get(aliases, ())) for k, v in mapping.items()]


def _build_mapping(mapping=None, aliases=None):
    if not mapping:
        return {}
    if aliases:
        return _build_from_key(mapping, aliases=aliases)
    if any(
        (
            isinstance(group, typing.Mapping) and 'aliases' in group
            for group in mapping.values()
        )
    ):
        return _build_from_key(mapping, aliases='aliases')
    if all((Group.supports(key) for key in mapping)):
        return _build_from_aliases(mapping)
    if isinstance(mapping, dict):
        return mapping.copy()


def _build_from_aliases(mapping):
    out = {}
    for key, value in mapping.items():
        try:
            aliased_key = next((k for k in out if key in k))
        except StopIteration:
            aliased_key = Group(key)
        out[aliased_key] = value
    return out


def _build_from_key(mapping, aliases=None):
    keys = keysfrom(mapping, aliases=aliases)
    values = (
        [
            {k: v for k, v in group.items() if k != aliases}
            for group in mapping.values()
        ]
        if aliases and isinstance(aliases, str)
        else mapping.values()
    )
    return dict(zip(keys, values))


class _MappingProtocol:
    __slots__ = ()

    @property
    @abc.abstractmethod
    def as_dict(self):
        pass

    @abc.abstractmethod
    def _flat_keys(self):
        pass

    @abc.abstractmethod
    def __getitem__(self, __k):
        pass


class MappingView:
    __slots__ = ('_mapping', '_keys')

    def __init__(self, mapping, aliased=False):
        super().__init__(mapping)
        aliases = mapping.as_dict.keys()
        self._keys = aliases if aliased else mapping._flat_keys()
        self._mapping = mapping

    def __len__(self):
        return len(self._keys)


class KeysView:
    def __iter__(self):
        yield from self._keys


class ValuesView:
    def __iter__(self):
        for key in self._keys:
            yield self._mapping[key]


class ItemsView:
    def __iter__(self):
        for key in self._keys:
            yield (key, self._mapping[key])


class Mapping:
    def __init__(self, mapping=None, aliases=None):
        self.as_dict = self._build_dict(mapping, aliases)
        self._flat_dict = {alias: k for k in self.as_dict for alias in k}

    def _build_dict(self, mapping, aliases):
        if isinstance(mapping, Mapping):
            return dict(mapping.items(aliased=True))
        if isinstance(aliases, Mapping):
            return _build_mapping(
                mapping=mapping, aliases=Groups(*aliases.keys(aliased=True))
            )
        return _build_mapping(mapping=mapping, aliases=aliases)

    def _flat_keys(self):
        flattened = [key for keys in self.as_dict.keys() for key in keys]
        return collections.abc.KeysView(flattened)

    @property
    def flat(self):
        return {key: self[key] for key in self._flat_keys()}

    def __contains__(self, __o):
        return self._resolve(__o) is not None

    def __iter__(self):
        yield from self._flat_keys()

    def __len__(self):
        return len(self._flat_keys())

    def __getitem__(self, key):
        if resolved := self._resolve(key):
            return self.as_dict[resolved]
        raise KeyError

    def _resolve(self, key):
        if isinstance(key, Group):
            return self._look_up_key(key)
        return self._flat_dict.get(key)

    def _look_up_key(self, target):
        try:
            found = next((key for key in self.as_dict if key == target))
        except StopIteration:
            return
        else:
            return found

    def squeeze(self, strict=False):
        interior = tuple(self.as_dict.values())
        if all((len(mapping) == 1 for mapping in interior)):
            if strict:
                errmsg = "Can't squeeze interior mappings with different keys when strict == True"
                k0 = tuple(interior[0].keys())[0]
                for mapping in interior[1:]:
                    k = tuple(mapping.keys())[0]
                    if k != k0:
                        raise TypeError(errmsg)
            new = {k: tuple(v.values())[0] for k, v in self.as_dict.items()}
            self.as_dict = new.copy()
        return self

    @classmethod
    def fromkeys(cls, __iterable, key='aliases', value=None):
        if isinstance(__iterable, Groups) or not isinstance(
            __iterable, typing.Mapping
        ):
            return cls({k: value for k in __iterable})
        keys = keysfrom(__iterable, aliases=key)
        d = {k: value for k in keys}
        return cls(d)

    def alias(self, key, *, include=False):
        if include:
            return self._resolve(key)
        return self._resolve(key) - [key]

    def __eq__(self, other):
        if not isinstance(other, typing.Mapping):
            return NotImplemented
        if isinstance(other, Mapping):
            return self.items() == other.items()
        return dict(self.items()) == dict(other.items())

    def __or__(self, other):
        items = dict((*self.items(aliased=True), *other.items(aliased=True)))
        return type(self)(items)

    def keys(self, aliased=False):
        return KeysView(self, aliased=aliased)

    def values(self, aliased=False):
        return ValuesView(self, aliased=aliased)

    def items(self, aliased=False):
        return ItemsView(self, aliased=aliased)

    def copy(self):
        return type(self)(self.as_dict)


class MutableMapping:
    def __setitem__(self, key, value):
        resolved = self._resolve(key) or Group(key)
        self.as_dict[resolved] = value
        self._refresh()

    def __delitem__(self, key):
        resolved = self._resolve(key)
        if not resolved:
            raise KeyError
        del self.as_dict[resolved]
        self._refresh()

    def _refresh(self):
        self._flat_dict = {alias: key for key in self.as_dict for alias in key}

    def alias(self, key, *aliases, include=False):
        if not aliases:
            return super().alias(key, include=include)
        for alias in (a for a in aliases if a != key):
            if alias in self._flat_keys():
                current = super().alias(key)
                this = ', '.join((str(a) for a in current))
                if len(current) > 1:
                    this = f'({this})'
                raise KeyError
            updated = self._resolve(key) | alias
            self.as_dict[updated] = self[key]
            del self[key]


class NameMap:
    def __init__(self, defs, refs=None, key='aliases'):
        names = self._get_names(defs, refs)
        self._mapping = self._build_mapping(names, defs, key)
        super().__init__(self._mapping.keys())
        self._init = {'refs': refs, 'defs': defs, 'key': key}

    def _get_names(self, defs, refs=None):
        if isinstance(refs, typing.Mapping):
            return refs.keys()
        if isinstance(refs, typing.Iterable):
            return refs
        if isinstance(defs, typing.Mapping):
            return defs.keys()
        raise TypeError

    def _build_mapping(self, names, aliases, key):
        identity = {name: name for name in names}
        namemap = MutableMapping(identity)
        updates = self._get_aliases(names, aliases, key)
        for current, new in updates.items():
            namemap.alias(current, *new)
        return Mapping(namemap)

    def _get_aliases(self, names, these, key):
        if isinstance(these, typing.Mapping):
            if any((k for k in these if not isinstance(k, str))):
                raise TypeError
            return {
                k: self._remove(k, v.get(key, ()))
                if isinstance(v, typing.Mapping)
                else self._remove(k, v)
                for k, v in these.items()
            }
        only_iterables = all((isinstance(d, typing.Iterable) for d in these))
        if isinstance(these, typing.Iterable) and only_iterables:
            return {k: tuple(v) for v in these for k in names if k in v}
        return {}

    def _remove(self, name, aliases):
        w = (aliases,) if isinstance(aliases, str) else aliases
        return tuple((i for i in w if i != name))

    def invert(self):
        inverted = {
            name: list(aliases)
            for aliases, name in self._mapping.items(aliased=True)
        }
        self._mapping = Mapping(inverted)
        return self

    def __getitem__(self, key):
        if key in self._mapping:
            return self._mapping[key]
        raise KeyError(key)

    def keys(self, aliased=False):
        return Mapping.keys(self._mapping, aliased=aliased)

    def values(self, aliased=False):
        return Mapping.values(self._mapping, aliased=aliased)

    def items(self, aliased=False):
        return Mapping.items(self._mapping, aliased=aliased)

    def copy(self):
        return type(self)(**self._init)
