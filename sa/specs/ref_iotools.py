"""Reference definitions: goats.core.iotools."""

MODULE = 'goats.core.iotools'
COVERS = (
    'PathSet._instances',
    'ReadOnlyPath.__new__',
    'ReadOnlyPath.open',
    'ReadOnlyPath.write_bytes',
    'ReadOnlyPath.write_text',
    'TextFile.__init__',
    'TextFile.lines',
    'TextFile.path',
    'TextFile.extract',
    'file_lines',
    'strip_inline_comments',
    'search',
    'find_file_by_template',
)


class PathSet:
    _instances = {}

    def _generate_key(self, *args, **kwargs):
        if not kwargs and len(args) == 1:
            arg = args[0]
            if isinstance(arg, (str, pathlib.Path)):
                return pathlib.Path(arg).expanduser().resolve()
        return super()._generate_key()


class NonExistentPathError:
    def __init__(self, path=None):
        self._path = path

    @property
    def path(self):
        if self._path is None:
            self._path = 'The requested path'
        return self._path


class ReadOnlyPathError:
    def __init__(self, obj):
        self._obj = obj


class ReadOnlyPath:
    def __new__(cls, *args, **kwargs):
        _type = pathlib.WindowsPath if os.name == 'nt' else pathlib.PosixPath
        path = super().__new__(_type, *args, **kwargs)
        inst = path.expanduser().resolve()
        if not inst.exists():
            raise NonExistentPathError(inst)
        return inst

    def open(self, *args, **kwargs):
        if 'w' in args:
            raise ReadOnlyPathError(self.__class__)
        return super().open(*args, **kwargs)

    def write_bytes(self, *args, **kwargs):
        raise ReadOnlyPathError(self.__class__)

    def write_text(self, *args, **kwargs):
        raise ReadOnlyPathError(self.__class__)


class TextFile:
    def __init__(self, path):
        self._path = path
        self._lines = None

    @property
    def lines(self):
        if self._lines is None:
            with self.path.open('r') as fp:
                self._lines = fp.readlines()
        return self._lines

    @property
    def path(self):
        return ReadOnlyPath(self._path)

    def extract(self, match, parse):
        matches = [match(line) for line in self.lines]
        parsed = [parse(match) for match in matches if match]
        return dict(parsed)


def file_lines(file):
    with pathlib.Path(file).open('r') as fp:
        nlines = len(fp.readlines())
    return nlines


def strip_inline_comments(string, comments):
    for c in comments:
        parts = string.split(c)
        string = parts[0]
    return string.strip()


def search(paths, file):
    for p in paths:
        path = ReadOnlyPath(p)
        if path.is_dir():
            test = path / str(file)
            if test.exists():
                return test


def find_file_by_template(templates, name, directory=pathlib.Path.cwd()):
    d = ReadOnlyPath(directory)
    for template in templates:
        test = d / str(template(name))
        if test.exists():
            return test
