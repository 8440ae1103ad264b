"""Reference definitions: goats.core.observer."""

MODULE = 'goats.core.observer'
COVERS = (
    'Interface.__init__',
    'Interface.update',
    'Interface.observables',
    'Interface.__getitem__',
    'Interface.observes',
    'Interface.context',
)


class Interface:
    def __init__(self, *unobservable, context=None):
        self._unobservable = unobservable
        self._context = context
        self._spellcheck = None

    def update(self, __context):
        self._context = __context
        self._spellcheck = None
        return self

    @property
    def observables(self):
        available = aliased.Groups(*self.context.observable)
        return available.without(*self._unobservable)

    def __getitem__(self, __k):
        if self.observes(__k):
            return observing.Observable(__k, self.context)
        if __k in self.context:
            return self.context.get_quantity(__k)
        self._check_spelling(__k)
        raise KeyError

    def observes(self, name):
        if isinstance(name, str):
            return self._observes(name)
        return any((self._observes(key) for key in name))

    def _observes(self, key):
        if key in self.observables:
            return True
        if symbolic.composition(key):
            expression = symbolic.Expression(key)
            return all((self._observes(term.base) for term in expression))
        return False

    def _check_spelling(self, key):
        keys = set(self.context)
        if self._spellcheck is None:
            self._spellcheck = spelling.SpellChecker(*keys)
        else:
            self._spellcheck.words |= keys
        return self._spellcheck.check(key)

    @property
    def context(self):
        if self._context is None:
            raise NotImplementedError
        return self._context
