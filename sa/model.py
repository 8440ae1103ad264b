"""Program model of the analysed repository: modules, imports, classes, MRO.

Everything here is read from the source text of the current tree through
``ast``; nothing from the repository is ever imported or executed.
"""

import ast
import builtins
import os
import pathlib

REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
SRC = REPO / 'src'


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, parse failure)."""


class Func:
    """One function or method definition."""

    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        owner = f"{cls.name}." if cls else ''
        if parent is not None:
            owner = f"{parent.short}.<locals>."
        self.short = f"{owner}{self.name}"
        self.qual = f"{module.name}.{self.short}"

    @property
    def decorators(self):
        out = []
        for d in getattr(self.node, 'decorator_list', []):
            out.append(d)
        return out

    def decorator_names(self):
        names = set()
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            names.add(dotted(t) or '')
        return names

    @property
    def is_property(self):
        return any(n == 'property' or n.endswith('cached_property')
                   for n in self.decorator_names())

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorator_names()

    @property
    def is_static(self):
        return 'staticmethod' in self.decorator_names()

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    """One class definition."""

    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods = {}
        self.attrs = {}
        self.aliases = {}
        self.bases = []
        for stmt in node.body:
            self._stmt(stmt)

    def _stmt(self, stmt):
        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = Func(stmt, self.module, cls=self)
            names = f.decorator_names()
            if any(n.endswith('overload') for n in names):
                return
            if any(n.endswith('.setter') or n.endswith('.deleter')
                   for n in names):
                self.methods[f"{stmt.name}.setter"] = f
                return
            self.methods[stmt.name] = f
            self.attrs.pop(stmt.name, None)
        elif isinstance(stmt, ast.Assign):
            for t in stmt.targets:
                if isinstance(t, ast.Name):
                    self._assign(t.id, stmt.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            self.attrs[e.id] = None
        elif isinstance(stmt, ast.AnnAssign) and stmt.value is not None:
            if isinstance(stmt.target, ast.Name):
                self._assign(stmt.target.id, stmt.value)
        elif isinstance(stmt, (ast.If, ast.With, ast.Try)):
            for child in ast.iter_child_nodes(stmt):
                if isinstance(child, ast.stmt):
                    self._stmt(child)

    def _assign(self, name, value):
        if isinstance(value, ast.Name) and value.id in self.methods:
            self.methods[name] = self.methods[value.id]
            self.aliases[name] = value.id
            return
        self.attrs[name] = value
        self.methods.pop(name, None)

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    """One source module."""

    def __init__(self, name, path, is_package):
        self.name = name
        self.path = path
        self.spec = False
        self.base = None
        try:
            self.rel = str(path.relative_to(REPO))
        except ValueError:
            self.rel = path.name
        self.is_package = is_package
        self.source = path.read_text(encoding='utf-8')
        try:
            self.tree = ast.parse(self.source, filename=str(path))
        except SyntaxError as err:
            raise AnalysisError(f"cannot parse {path}: {err}") from err
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.assigns = {}
        for stmt in ast.walk(self.tree):
            if isinstance(stmt, (ast.Import, ast.ImportFrom)):
                self._import(stmt)
        self._body(self.tree.body)

    def _body(self, body):
        for stmt in body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[stmt.name] = Func(stmt, self)
            elif isinstance(stmt, ast.ClassDef):
                self.classes[stmt.name] = Class(stmt, self)
            elif isinstance(stmt, ast.Assign):
                for t in stmt.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(stmt)
            elif isinstance(stmt, ast.AnnAssign) and stmt.value is not None:
                if isinstance(stmt.target, ast.Name):
                    self.assigns.setdefault(stmt.target.id, []).append(stmt)
            elif isinstance(stmt, (ast.If, ast.Try, ast.With)):
                self._body([s for s in ast.iter_child_nodes(stmt)
                            if isinstance(s, ast.stmt)])

    def _import(self, stmt):
        if isinstance(stmt, ast.Import):
            for a in stmt.names:
                if a.asname:
                    self.imports[a.asname] = a.name
                else:
                    self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            return
        base = stmt.module or ''
        if stmt.level:
            parts = self.name.split('.')
            if not self.is_package:
                parts = parts[:-1]
            parts = parts[:len(parts) - (stmt.level - 1)]
            base = '.'.join(parts + ([stmt.module] if stmt.module else []))
        for a in stmt.names:
            self.imports[a.asname or a.name] = f"{base}.{a.name}"

    def __repr__(self):
        return f"<Module {self.name}>"


class Program:
    """All modules of the package."""

    def __init__(self, src=None):
        src = pathlib.Path(src or SRC)
        root = src / 'goats'
        if not root.is_dir():
            raise AnalysisError(f"no package at {root}")
        self.modules = {}
        for path in sorted(root.rglob('*.py')):
            rel = path.relative_to(src).with_suffix('')
            parts = list(rel.parts)
            pkg = parts[-1] == '__init__'
            if pkg:
                parts = parts[:-1]
            name = '.'.join(parts)
            self.modules[name] = Module(name, path, pkg)
        self._mro = {}
        self._registered = None
        self.specmods = {}
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self.resolve_expr(m, b) for b in c.node.bases]

    def spec(self, name):
        """Attach a specification module from sa/specs (not a subject)."""
        full = f'goats.spec_{name}'
        if full not in self.modules:
            path = pathlib.Path(__file__).parent / 'specs' / f'{name}.py'
            m = Module(full, path, False)
            m.spec = True
            self.modules[full] = m
            if 'MODULE' in m.assigns:
                base = m.assigns['MODULE'][0].value.value
                m.base = self.modules.get(base)
                self.specmods[base] = m
            for c in m.classes.values():
                c.bases = [self.resolve_expr(m, b) for b in c.node.bases]
        return self.modules[full]

    # -- reference specifications ----------------------------------------
    def spec_of(self, func):
        """The reference definition of an implementation function."""
        m = self.specmods.get(func.module.name)
        if m is None:
            return None
        if func.cls is None:
            return m.functions.get(func.name)
        c = m.classes.get(func.cls.name)
        return c.methods.get(func.name) if c else None

    def canon(self, func):
        """Qualified name shared by a function and its reference."""
        if not func.module.spec or func.module.base is None \
                or func.parent is not None:
            return func.qual
        try:
            return self.func(f"{func.module.base.name}.{func.short}").qual
        except AnalysisError:
            return func.qual

    def canon_cls(self, cls):
        if cls.module.spec and cls.module.base is not None:
            return cls.module.base.classes.get(cls.name, cls)
        return cls

    # -- lookup ---------------------------------------------------------
    def module(self, name):
        full = name if name.startswith('goats') else f'goats.{name}'
        try:
            return self.modules[full]
        except KeyError:
            raise AnalysisError(f"module {full} not found") from None

    def cls(self, qual):
        mod, name = qual.rsplit('.', 1)
        m = self.module(mod)
        if name in m.classes:
            return m.classes[name]
        r = self.resolve_name(m, name)
        if isinstance(r, Class):
            return r
        raise AnalysisError(f"class {qual} not found")

    def func(self, qual):
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            full = mod if mod.startswith('goats') else f'goats.{mod}'
            if full in self.modules:
                m = self.modules[full]
                rest = parts[i:]
                if len(rest) == 1:
                    if rest[0] in m.functions:
                        return m.functions[rest[0]]
                    r = self.resolve_name(m, rest[0])
                    if isinstance(r, Func):
                        return r
                elif len(rest) == 2 and rest[0] in m.classes:
                    f = self.method(m.classes[rest[0]], rest[1])
                    if f:
                        return f
        raise AnalysisError(f"function {qual} not found")

    def resolve_dotted(self, full, seen=()):
        """Resolve an absolute dotted name to a repo object or a string."""
        if full in seen:
            return full
        if full in self.modules:
            return self.modules[full]
        if '.' in full:
            head, tail = full.rsplit('.', 1)
            owner = self.resolve_dotted(head, seen + (full,))
            if isinstance(owner, Module):
                return self.resolve_name(owner, tail, seen + (full,))
            if isinstance(owner, Class):
                f = self.method(owner, tail)
                if f:
                    return f
            if isinstance(owner, (Class, Module)):
                return full
            if isinstance(owner, str):
                return f"{owner}.{tail}"
        return full

    def resolve_name(self, module, name, seen=()):
        """Resolve a bare global name in `module`."""
        if name in module.functions:
            return module.functions[name]
        if name in module.classes:
            return self.canon_cls(module.classes[name])
        if name in module.assigns and module.base is not None \
                and name in module.base.assigns:
            return self.resolve_name(module.base, name, seen)
        if name in module.assigns:
            value = module.assigns[name][-1].value
            if len(module.assigns[name]) == 1 and isinstance(
                    value, (ast.Name, ast.Attribute)):
                key = f"{module.name}.{name}"
                if key not in seen:
                    r = self.resolve_expr(module, value, seen + (key,))
                    if isinstance(r, (Func, Class)) or (
                            isinstance(r, str) and not r.startswith('goats.')
                            and not r.startswith('?')):
                        return r
            return f"{module.name}.{name}"
        if name in module.imports:
            return self.resolve_dotted(module.imports[name], seen)
        if module.base is not None:
            return self.resolve_name(module.base, name, seen)
        if f"{module.name}.{name}" in self.modules:
            return self.modules[f"{module.name}.{name}"]
        if name == '__file__':
            return f"{module.name}.__file__"
        if hasattr(builtins, name):
            return f"builtins.{name}"
        return f"?{name}"

    def resolve_expr(self, module, expr, seen=()):
        """Resolve a Name/Attribute chain at module scope."""
        if isinstance(expr, ast.Name):
            return self.resolve_name(module, expr.id, seen)
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(module, expr.value, seen)
            return self.member(base, expr.attr, seen)
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr(module, expr.value, seen)
        return '?expr'

    def member(self, base, attr, seen=()):
        if isinstance(base, Module):
            return self.resolve_name(base, attr, seen)
        if isinstance(base, Class):
            f = self.method(base, attr)
            return f if f else f"{base.qual}.{attr}"
        if isinstance(base, str):
            return f"{base}.{attr}"
        return '?member'

    # -- classes --------------------------------------------------------
    def mro(self, cls):
        """C3 linearisation; external bases appear as strings."""
        if cls.qual in self._mro:
            return self._mro[cls.qual]
        self._mro[cls.qual] = [cls]
        seqs = []
        for b in cls.bases:
            seqs.append(list(self.mro(b)) if isinstance(b, Class) else [b])
        seqs.append(list(cls.bases))
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                head = s[0]
                if not any(head in t[1:] for t in seqs):
                    break
            else:
                head = seqs[0][0]
            out.append(head)
            seqs = [[x for x in t if x is not head and x != head]
                    for t in seqs]
            seqs = [s for s in seqs if s]
        self._mro[cls.qual] = out
        return out

    def method(self, cls, name, after=None):
        """Find a method in the MRO (optionally after class `after`)."""
        mro = self.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Class):
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    return None
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class):
                if name in c.attrs:
                    return c, c.attrs[name]
                if name in c.methods:
                    return None
        return None

    def registered(self, qual):
        """Classes registered as virtual subclasses of an abstract class."""
        if self._registered is None:
            self._registered = {}
            for m in self.modules.values():
                if m.spec:
                    continue
                for st in m.tree.body:
                    c = st.value if isinstance(st, ast.Expr) else None
                    if isinstance(c, ast.Call) and isinstance(
                            c.func, ast.Attribute) and len(c.args) == 1 and \
                            c.func.attr == 'register':
                        base = self.resolve_expr(m, c.func.value)
                        sub = self.resolve_expr(m, c.args[0])
                        if isinstance(base, Class):
                            self._registered.setdefault(base.qual, []).append(
                                sub.qual if isinstance(sub, Class)
                                else str(sub))
        return self._registered.get(qual, [])

    def optional(self, qual, seen=()):
        """The function returns None or something that is always true."""
        cache = self.__dict__.setdefault('_optional', {})
        if qual not in cache:
            if qual in seen:
                return True
            try:
                f = self.func(qual)
            except AnalysisError:
                return False
            cache[qual] = self._optional_result(f, (*seen, qual))
        return cache[qual]

    def _optional_result(self, f, seen):
        nodes = [n for s in f.node.body for n in ast.walk(s)]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.FunctionDef,
                              ast.Lambda)) for n in nodes) \
                or f.node.decorator_list:
            return False
        given = [n.value for n in nodes if isinstance(n, ast.Return)]
        found = [self._always_true(f, v, nodes, seen) for v in given]
        return all(r is not None for r in found) and any(found)

    def _always_true(self, f, v, nodes, seen):
        """True: never false; False: None; None: unknown."""
        if v is None or isinstance(v, ast.Constant) and v.value is None:
            return False
        if isinstance(v, ast.Tuple) and v.elts and not any(
                isinstance(e, ast.Starred) for e in v.elts):
            return True
        if isinstance(v, ast.Name):
            if any(isinstance(n, ast.If) and any(
                    isinstance(s, ast.Return) and s.value is v
                    for s in n.body) and (
                        isinstance(n.test, ast.Name) and n.test.id == v.id
                        or isinstance(n.test, ast.NamedExpr)
                        and n.test.target.id == v.id) for n in nodes):
                return True
            stores = sum(isinstance(n, ast.Name) and n.id == v.id
                         and isinstance(n.ctx, ast.Store) for n in nodes)
            values = [n.value for n in nodes if isinstance(n, ast.Assign)
                      and len(n.targets) == 1
                      and isinstance(n.targets[0], ast.Name)
                      and n.targets[0].id == v.id]
            joins = [n for n in nodes if isinstance(n, ast.AugAssign)
                     and isinstance(n.op, ast.Div)
                     and isinstance(n.target, ast.Name)
                     and n.target.id == v.id]
            if not values or stores != len(values) + len(joins) \
                    or v.id in f.params:
                return None
            got = [self._always_true(f, w, nodes, seen) for w in values
                   if not (isinstance(w, ast.Name) and w.id == v.id)]
            return None if None in got else any(got)
        if isinstance(v, ast.Call):
            g = v.func
            if isinstance(g, ast.Attribute) and f.cls is not None \
                    and isinstance(g.value, ast.Name) and f.params \
                    and g.value.id == f.params[0]:
                m = self.method(f.cls, g.attr)
                if m is not None and self.optional(self.canon(m), seen):
                    return True
                return None
            c = None
            if isinstance(g, (ast.Name, ast.Attribute)):
                try:
                    c = self.resolve_expr(f.module, g)
                except AnalysisError:
                    pass
            if isinstance(c, Class) and not any(
                    isinstance(k, Class) and (
                        '__len__' in k.methods or '__bool__' in k.methods)
                    or not isinstance(k, Class) and str(k).split('.')[-1] in (
                        'Mapping', 'Sequence', 'list', 'dict', 'UserDict',
                        'Set', 'str', 'float', 'int', 'Collection', 'tuple')
                    for k in self.mro(c)):
                return True
        return None

    def nominal(self, qual):
        """Only instances of its subclasses are instances of the class."""
        try:
            cls = self.cls(qual)
        except AnalysisError:
            return False
        for b in self.mro(cls):
            if not isinstance(b, Class):
                if 'Protocol' in str(b):
                    return False
            elif b.node.keywords or '__subclasshook__' in b.methods:
                return False
        return not any(self.registered(c.qual) for c in self.subclasses(cls))

    def subclasses(self, cls):
        return [c for c in self.all_classes() if cls in self.mro(c)]

    def is_subclass(self, cls, qual):
        return any((isinstance(c, Class) and c.qual == qual) or c == qual
                   for c in self.mro(cls))

    def all_classes(self):
        for m in self.modules.values():
            if not m.spec:
                yield from m.classes.values()

    def all_functions(self, nested=True):
        """Every function: module-level, methods and (optionally) nested."""
        for m in self.modules.values():
            if m.spec:
                continue
            for f in m.functions.values():
                yield f
                if nested:
                    yield from self._nested(f)
            for c in m.classes.values():
                seen = set()
                for f in c.methods.values():
                    if id(f) in seen or f.cls is not c:
                        continue
                    seen.add(id(f))
                    yield f
                    if nested:
                        yield from self._nested(f)

    def _nested(self, f):
        for n in own_nodes(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Func(n, f.module, cls=f.cls, parent=f)
                yield g
                yield from self._nested(g)


def own_nodes(func_node):
    """Walk a function body without descending into nested functions.

    Nested function definitions themselves are yielded, but not their bodies.
    """
    body = func_node.body if isinstance(func_node.body, list) else [func_node.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def dotted(expr):
    """'a.b.c' for a Name/Attribute chain, else None."""
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if isinstance(expr, ast.Name):
        parts.append(expr.id)
        return '.'.join(reversed(parts))
    return None


_cache = {}


def program(src=None):
    key = str(src or SRC)
    if key not in _cache:
        _cache[key] = Program(src)
    return _cache[key]
