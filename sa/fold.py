"""Constant folding of module-level tables.

Folds literals, arithmetic, comprehensions and simple pure helper functions
over constants.  Anything else folds to ``UNKNOWN``.  Instances of repository
classes fold to `Obj` (class plus folded constructor arguments); no repository
code is imported or executed.
"""

import ast
import math
import operator

from . import model


class _Unknown:
    def __repr__(self):
        return 'UNKNOWN'

    def __bool__(self):
        raise TypeError('UNKNOWN has no truth value')


UNKNOWN = _Unknown()


class Give(Exception):
    """Folding is not possible."""


class Obj:
    """A folded instance of a class: constructor arguments only."""

    def __init__(self, cls, args, kwargs):
        self.cls = cls
        self.args = args
        self.kwargs = kwargs

    @property
    def name(self):
        return self.cls.qual if isinstance(self.cls, model.Class) else self.cls

    def __repr__(self):
        return f"Obj({self.name}, {self.args!r})"


class Ref:
    """A reference to a function, class or external object."""

    def __init__(self, target):
        self.target = target

    def __eq__(self, other):
        return isinstance(other, Ref) and other.target == self.target

    def __hash__(self):
        return hash(str(self.target))

    def __repr__(self):
        return f"Ref({self.target})"


EXTERNAL = {
    'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.e': math.e,
    'math.e': math.e, 'numpy.inf': math.inf, 'math.inf': math.inf,
    'sys.float_info.min': 2.2250738585072014e-308,
}

PURE = {
    'builtins.dict': dict, 'builtins.list': list, 'builtins.tuple': tuple,
    'builtins.set': set, 'builtins.frozenset': frozenset,
    'builtins.zip': lambda *a: list(zip(*a)), 'builtins.len': len,
    'builtins.str': str, 'builtins.int': int, 'builtins.float': float,
    'builtins.round': round, 'builtins.range': range, 'builtins.sum': sum,
    'builtins.min': min, 'builtins.max': max, 'builtins.sorted': sorted,
    'builtins.enumerate': lambda *a: list(enumerate(*a)),
    'builtins.abs': abs, 'builtins.pow': pow, 'builtins.bool': bool,
    'builtins.reversed': lambda a: list(reversed(a)),
    'math.sqrt': math.sqrt, 'numpy.sqrt': math.sqrt,
    'dict.fromkeys': dict.fromkeys, 'builtins.dict.fromkeys': dict.fromkeys,
    'operator.itemgetter': None,
    'types.MappingProxyType': dict,
    'collections.OrderedDict': dict,
    'fractions.Fraction': None,
}
PURE = {k: v for k, v in PURE.items() if v}

METHODS = {
    dict: {'get', 'items', 'keys', 'values', 'copy', 'update', 'pop',
           'setdefault'},
    list: {'append', 'extend', 'copy', 'index', 'count', 'insert'},
    tuple: {'index', 'count'},
    set: {'add', 'update', 'union', 'copy', 'difference'},
    frozenset: {'union', 'difference'},
    str: {'format', 'replace', 'strip', 'split', 'lower', 'upper', 'join',
          'title', 'startswith', 'endswith', 'rstrip', 'lstrip'},
}

BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.Pow: operator.pow,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
}
CMP = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
    ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
    ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b,
    ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
}


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Folder:
    """Lazy constant folder over module-level code."""

    def __init__(self, program):
        self.program = program
        self._envs = {}
        self.steps = 0

    def env(self, module):
        if module.name in self._envs:
            return self._envs[module.name]
        env = {}
        self._envs[module.name] = env
        for stmt in module.tree.body:
            self._top(stmt, module, env)
        return env

    def get(self, module, name, default=UNKNOWN):
        if isinstance(module, str):
            module = self.program.module(module)
        return self.env(module).get(name, default)

    def class_attr(self, cls, name):
        """Fold a class-level attribute."""
        found = self.program.class_attr(cls, name)
        if not found or found[1] is None:
            return UNKNOWN
        owner, value = found
        local = {}
        for stmt in owner.node.body:
            if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 \
                    and isinstance(stmt.targets[0], ast.Name):
                local[stmt.targets[0].id] = self._try(
                    stmt.value, owner.module, local)
        if name in local:
            return local[name]
        return self._try(value, owner.module, local)

    def _try(self, expr, module, local):
        try:
            return self.eval(expr, module, local)
        except Give:
            return UNKNOWN
        except RecursionError:
            return UNKNOWN
        except Exception:
            return UNKNOWN

    def _top(self, stmt, module, env):
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef, ast.Import,
                             ast.ImportFrom)):
            return
        try:
            self._exec(stmt, module, env, env)
        except (Give, _Return, _Break, _Continue, RecursionError):
            self._taint(stmt, env)
        except Exception:
            self._taint(stmt, env)

    def _taint(self, stmt, env):
        for n in ast.walk(stmt):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = UNKNOWN
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                if isinstance(n.value, ast.Name):
                    env[n.value.id] = UNKNOWN

    # -- statements -------------------------------------------------------
    def _exec(self, stmt, module, env, local):
        self.steps += 1
        if self.steps > 2_000_000:
            raise Give
        if isinstance(stmt, ast.Assign):
            value = self.eval(stmt.value, module, local)
            for t in stmt.targets:
                self._bind(t, value, module, local)
        elif isinstance(stmt, ast.AnnAssign):
            if stmt.value is not None:
                self._bind(stmt.target, self.eval(stmt.value, module, local),
                           module, local)
        elif isinstance(stmt, ast.AugAssign):
            op = BIN.get(type(stmt.op))
            if not op:
                raise Give
            load = ast.copy_location(
                ast.parse(ast.unparse(stmt.target), mode='eval').body, stmt)
            cur = self.eval(load, module, local)
            self._bind(stmt.target, op(cur, self.eval(
                stmt.value, module, local)), module, local)
        elif isinstance(stmt, ast.Expr):
            if isinstance(stmt.value, ast.Constant):
                return
            self.eval(stmt.value, module, local)
        elif isinstance(stmt, ast.If):
            test = self.eval(stmt.test, module, local)
            for s in (stmt.body if test else stmt.orelse):
                self._exec(s, module, env, local)
        elif isinstance(stmt, ast.For):
            for item in self._iter(self.eval(stmt.iter, module, local)):
                self._bind(stmt.target, item, module, local)
                try:
                    for s in stmt.body:
                        self._exec(s, module, env, local)
                except _Continue:
                    continue
                except _Break:
                    break
        elif isinstance(stmt, ast.Return):
            raise _Return(self.eval(stmt.value, module, local)
                          if stmt.value else None)
        elif isinstance(stmt, ast.Pass):
            return
        elif isinstance(stmt, ast.Break):
            raise _Break
        elif isinstance(stmt, ast.Continue):
            raise _Continue
        elif isinstance(stmt, ast.Delete):
            for t in stmt.targets:
                if isinstance(t, ast.Subscript):
                    base = self.eval(t.value, module, local)
                    del base[self.eval(t.slice, module, local)]
                elif isinstance(t, ast.Name):
                    local.pop(t.id, None)
        else:
            raise Give

    def _bind(self, target, value, module, local):
        if isinstance(target, ast.Name):
            local[target.id] = value
        elif isinstance(target, (ast.Tuple, ast.List)):
            values = list(self._iter(value))
            if len(values) != len(target.elts):
                raise Give
            for t, v in zip(target.elts, values):
                self._bind(t, v, module, local)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value, module, local)
            if not isinstance(base, (dict, list)):
                raise Give
            base[self.eval(target.slice, module, local)] = value
        else:
            raise Give

    def _iter(self, value):
        if isinstance(value, Obj):
            if value.args and isinstance(value.args[0], (list, tuple)):
                return value.args[0]
            raise Give
        if value is UNKNOWN or not hasattr(value, '__iter__'):
            raise Give
        return list(value)

    # -- expressions --------------------------------------------------------
    def eval(self, e, module, local):
        self.steps += 1
        if self.steps > 2_000_000:
            raise Give
        v = self._eval(e, module, local)
        if v is UNKNOWN:
            raise Give
        return v

    def _soft(self, e, module, local):
        """Fold a container member; unknown members do not spoil the table."""
        try:
            return self.eval(e, module, local)
        except Give:
            return UNKNOWN

    def _eval(self, e, module, local):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in local:
                return local[e.id]
            menv = self._envs.get(module.name)
            if menv is None:
                menv = self.env(module)
            if e.id in menv:
                return menv[e.id]
            return self._ref(self.program.resolve_name(module, e.id))
        if isinstance(e, ast.Attribute):
            d = model.dotted(e)
            if d and d.split('.')[0] not in local:
                r = self.program.resolve_expr(module, e)
                return self._ref(r)
            base = self.eval(e.value, module, local)
            raise Give
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.eval(v, module, local)
                    if not isinstance(d, dict):
                        raise Give
                    out.update(d)
                else:
                    out[self.eval(k, module, local)] = self._soft(
                        v, module, local)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self._iter(self.eval(x.value, module, local)))
                else:
                    out.append(self._soft(x, module, local))
            kind = {ast.List: list, ast.Tuple: tuple, ast.Set: set}[type(e)]
            return kind(out)
        if isinstance(e, ast.BinOp):
            op = BIN.get(type(e.op))
            if not op:
                raise Give
            return op(self.eval(e.left, module, local),
                      self.eval(e.right, module, local))
        if isinstance(e, ast.UnaryOp):
            v = self.eval(e.operand, module, local)
            return {ast.USub: operator.neg, ast.UAdd: operator.pos,
                    ast.Not: operator.not_, ast.Invert: operator.invert
                    }[type(e.op)](v)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.eval(x, module, local)
                if isinstance(e.op, ast.And) and not v:
                    return v
                if isinstance(e.op, ast.Or) and v:
                    return v
            return v
        if isinstance(e, ast.Compare):
            left = self.eval(e.left, module, local)
            for op, c in zip(e.ops, e.comparators):
                right = self.eval(c, module, local)
                if not CMP[type(op)](left, right):
                    return False
                left = right
            return True
        if isinstance(e, ast.IfExp):
            return self.eval(e.body if self.eval(e.test, module, local)
                             else e.orelse, module, local)
        if isinstance(e, ast.JoinedStr):
            out = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    out.append(str(v.value))
                else:
                    if v.format_spec is not None:
                        raise Give
                    x = self.eval(v.value, module, local)
                    out.append(repr(x) if v.conversion == 114 else str(x))
            return ''.join(out)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            out = []
            self._comp(e.generators, module, dict(local), lambda env:
                       out.append(self.eval(e.elt, module, env)))
            return set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.DictComp):
            out = {}

            def add(env):
                out[self.eval(e.key, module, env)] = self.eval(
                    e.value, module, env)
            self._comp(e.generators, module, dict(local), add)
            return out
        if isinstance(e, ast.Subscript):
            base = self.eval(e.value, module, local)
            if isinstance(e.slice, ast.Slice):
                parts = [self.eval(x, module, local) if x else None
                         for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                return base[slice(*parts)]
            idx = self.eval(e.slice, module, local)
            if isinstance(base, (dict, list, tuple, str)):
                return base[idx]
            raise Give
        if isinstance(e, ast.Call):
            return self._call(e, module, local)
        if isinstance(e, ast.Lambda):
            return Ref(('lambda', e, module))
        raise Give

    def _comp(self, gens, module, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        for item in self._iter(self.eval(g.iter, module, env)):
            self._bind(g.target, item, module, env)
            if all(self.eval(c, module, env) for c in g.ifs):
                self._comp(gens[1:], module, env, emit)

    def _ref(self, r):
        if isinstance(r, (model.Func, model.Class, model.Module)):
            return Ref(r)
        if isinstance(r, str):
            if r in EXTERNAL:
                return EXTERNAL[r]
            if r.startswith('goats.'):
                mod, name = r.rsplit('.', 1)
                if mod in self.program.modules:
                    return self.get(self.program.modules[mod], name)
                # class attribute
                owner = self.program.resolve_dotted(mod)
                if isinstance(owner, model.Class):
                    return self.class_attr(owner, name)
            return Ref(r)
        raise Give

    def _call(self, e, module, local):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self._iter(self.eval(a.value, module, local)))
            else:
                args.append(self.eval(a, module, local))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, module, local))
            else:
                kwargs[k.arg] = self.eval(k.value, module, local)
        f = e.func
        if isinstance(f, ast.Attribute):
            d = model.dotted(f)
            target = None
            root = d.split('.')[0] if d else None
            menv = self._envs.get(module.name, {})
            if d and root not in local and root not in menv:
                target = self.program.resolve_expr(module, f)
                if isinstance(target, str) and target.startswith('?'):
                    target = None
            if target is None:
                base = self.eval(f.value, module, local)
                for kind, names in METHODS.items():
                    if type(base) is kind and f.attr in names:
                        return getattr(base, f.attr)(*args, **kwargs)
                raise Give
        elif isinstance(f, ast.Name):
            v = self.eval(f, module, local)
            if not isinstance(v, Ref):
                raise Give
            target = v.target
        else:
            raise Give
        return self.apply(target, args, kwargs)

    def apply(self, target, args, kwargs):
        if isinstance(target, tuple) and target[0] == 'lambda':
            _, node, mod = target
            env = self._bind_args(node.args, args, kwargs, mod)
            return self.eval(node.body, mod, env)
        if isinstance(target, str):
            if target in PURE:
                return PURE[target](*args, **kwargs)
            return Obj(target, args, kwargs)
        if isinstance(target, model.Class):
            return Obj(target, args, kwargs)
        if isinstance(target, model.Func) and not target.cls:
            return self.call(target, args, kwargs)
        raise Give

    def _bind_args(self, a, args, kwargs, module):
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if not a.vararg:
                raise Give
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg:
            env[a.vararg.arg] = ()
        extra = {}
        known = set(names) | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in known:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = extra
        elif extra:
            raise Give
        for n, d in zip(reversed(names), reversed(a.defaults)):
            if n not in env:
                env[n] = self.eval(d, module, {})
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.eval(d, module, {})
        return env

    def call(self, func, args, kwargs=None):
        """Fold a call of a pure helper function over constants."""
        env = self._bind_args(func.node.args, args, kwargs or {}, func.module)
        try:
            for s in func.node.body:
                self._exec(s, func.module, env, env)
        except _Return as r:
            return r.value
        return None


_cache = {}


def folder(program):
    if id(program) not in _cache:
        _cache[id(program)] = Folder(program)
    return _cache[id(program)]


def plain(value):
    """Strip wrapper objects such as tables and mappings."""
    while isinstance(value, Obj) and value.args:
        value = value.args[0]
    return value
