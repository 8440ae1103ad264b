"""Reference definitions: goats.core.spelling."""

MODULE = 'goats.core.spelling'
COVERS = (
    'SpellingError.__init__',
    'SpellingError.suggestion',
    'SpellChecker.__init__',
    'SpellChecker.check',
    'SpellChecker.get_suggestions',
    'SpellChecker.known',
    'SpellChecker.edits',
    'SpellChecker.splits',
    'SpellChecker.deletes',
    'SpellChecker.transposes',
    'SpellChecker.replaces',
    'SpellChecker.inserts',
)


class SpellingError:
    def __init__(self, name, suggested):
        self.name = name
        self.suggested = suggested

    @property
    def suggestion(self):
        if isinstance(self.suggested, str):
            return f"Did you mean '{self.suggested}'?"
        if len(self.suggested) == 1:
            return f"Did you mean '{self.suggested[0]}'?"
        return f'Did you mean one of {self.suggested}?'


class SpellChecker:
    def __init__(self, *words):
        self.words = set(words)
        letters = 'abcdefghijklmnopqrstuvwxyz'
        self.letters = letters + letters.upper()

    def check(self, name, mode=None):
        suggestions = self._check(name)
        if mode == 'suggest':
            return suggestions
        if mode == 'truth':
            return not suggestions
        if mode is not None:
            raise ValueError
        if suggestions:
            raise SpellingError(name, suggestions)

    def _check(self, name):
        if name in self.words:
            return []
        edits = list(self.edits(name))
        suggestions = self.get_suggestions(edits)
        if not suggestions:
            edits = [w for edit in edits for w in list(self.edits(edit))]
            suggestions = self.get_suggestions(edits)
        return suggestions

    def get_suggestions(self, edits):
        return [n for n in self.words if n in edits]

    def known(self, words):
        return {word for word in words if word in self.words}

    def edits(self, word):
        return set(
            self.deletes(word)
            + self.transposes(word)
            + self.replaces(word)
            + self.inserts(word)
        )

    def splits(self, word):
        return [(word[:i], word[i:]) for i in range(len(word) + 1)]

    def deletes(self, word):
        return [left + right[1:] for left, right in self.splits(word) if right]

    def transposes(self, word):
        return [
            left + right[1] + right[0] + right[2:]
            for left, right in self.splits(word)
            if len(right) > 1
        ]

    def replaces(self, word):
        return [
            left + c + right[1:]
            for left, right in self.splits(word)
            if right
            for c in self.letters
        ]

    def inserts(self, word):
        return [
            left + c + right
            for left, right in self.splits(word)
            for c in self.letters
        ]
