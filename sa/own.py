"""Ownership of containers: who may see an in-place modification.

A forward, flow-sensitive may-alias analysis of every function.  The abstract
value of an expression is a set of origins:

    fresh        allocated by this call, so nobody else can see it
    const        immutable (a number, a string, None)
    arg P        the object passed for parameter P, or a part of it
    pack P       the tuple or dict of ``*P`` or ``**P``
    attr A       the object held in ``self.A``, or a part of it
    item         an entry of the mapping that ``self`` is
    shared N     a module-level or class-level object, or a part of it
    self         the receiver
    array        a mark: the object is a numpy array
    other        anything else (nothing is claimed about it)
"""
import ast

from . import model

FRESH, CONST, OTHER, SELF, ITEM, ARRAY = (
    ('fresh',), ('const',), ('other',), ('self',), ('item',), ('array',))
MUTATORS = {
    'append', 'extend', 'add', 'update', 'insert', 'remove', 'pop', 'clear',
    'discard', 'sort', 'reverse', 'setdefault', 'popitem', 'fill', 'put',
    'difference_update', 'intersection_update', 'appendleft', 'popleft',
    'suppress', 'support', 'register',
    'add_connection', 'reset', 'resize',
}
MAKERS = {
    'dict', 'list', 'set', 'tuple', 'frozenset', 'sorted', 'bytearray',
    'object', 'slice', 'range',
}
PURE = {
    'len', 'int', 'float', 'str', 'repr', 'bool', 'abs', 'isinstance',
    'issubclass', 'hasattr', 'callable', 'id', 'hash', 'type', 'any', 'all',
    'round', 'ord', 'chr', 'format', 'print', 'complex', 'bytes',
}
VIEWS = {
    'numpy.asarray', 'numpy.asanyarray', 'numpy.squeeze', 'numpy.ravel',
    'numpy.reshape', 'numpy.transpose', 'numpy.atleast_1d',
    'numpy.broadcast_to', 'numpy.moveaxis', 'numpy.swapaxes',
    'numpy.expand_dims',
}
ALIKE = {'squeeze', 'reshape', 'ravel', 'view', 'transpose', 'swapaxes'}
TEXT = {
    'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'join', 'replace',
    'format', 'startswith', 'endswith', 'title', 'capitalize', 'count',
    'index', 'isdigit', 'isalpha',
}


class Summary:
    def __init__(self):
        self.returns = set()
        self.changes = []       # (origins, node, how)
        self.stores = []        # (attribute, origins, node)
        self.calls = []         # methods of the same object


class Analysis:
    def __init__(self, program, known=None):
        self.program = program
        self.table = known
        self.done = {}
        self.busy = set()
        self.stored = {}
        for c in program.all_classes():
            for f in {id(f): f for f in c.methods.values()}.values():
                if f.cls is not c or not f.params:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store) and isinstance(
                                n.value, ast.Name) and (
                                n.value.id == f.params[0] or
                                f.name == '__new__' and
                                n.value.id in made(f.node)):
                        self.stored.setdefault(n.attr, set()).add(c.qual)

    def summary(self, func):
        key = (id(func.node), func.cls.qual if func.cls else None)
        if key in self.done:
            return self.done[key]
        if key in self.busy or len(self.busy) > 12:
            s = Summary()
            s.returns = {OTHER}
            return s
        self.busy.add(key)
        try:
            s = Flow(self, func).run()
        finally:
            self.busy.discard(key)
        self.done[key] = s
        return s

    def is_new(self, func):
        """A function that the reference tree does not have."""
        return self.table is not None and name_of(func) not in self.table

    def touches(self, func, seen=None):
        """Attributes of the receiver that a call may store or change."""
        seen = set() if seen is None else seen
        if id(func.node) in seen:
            return set()
        seen.add(id(func.node))
        s = self.summary(func)
        out = {a for a, _, _ in s.stores}
        for origins, _, _ in s.changes:
            out |= {o[1] for o in origins if o[0] == 'attr'}
        for f in s.calls:
            out |= self.touches(f, seen)
        return out

    def is_slot(self, cls, name):
        """Whether instances of the class store the attribute."""
        owners = self.stored.get(name, ())
        return any(isinstance(c, model.Class) and c.qual in owners
                   for c in self.program.mro(cls)) or any(
                       c.qual in owners for c in self.program.subclasses(cls))


def name_of(func):
    return func.qual[len('goats.'):]


def made(node):
    """Names bound to the instance that a __new__ method creates."""
    return {t.id for n in ast.walk(node) if isinstance(n, ast.Assign)
            and creates(n.value) for t in n.targets
            if isinstance(t, ast.Name)}


def creates(e):
    return isinstance(e, ast.Call) and isinstance(
        e.func, ast.Attribute) and e.func.attr == '__new__'


def part(origins):
    out = set()
    for o in origins:
        if o[0] in ('fresh', 'other'):
            out.add(OTHER)
        elif o[0] == 'pack':
            out.add(('arg', o[1]))
        elif o[0] == 'self':
            out.add(OTHER)
        else:
            out.add(o)
    return out


class Flow:
    def __init__(self, analysis, func):
        self.a = analysis
        self.program = analysis.program
        self.func = func
        self.out = Summary()
        self.me = None
        self.seen = set()

    def run(self):
        node = self.func.node
        env = {}
        args = node.args
        names = [p.arg for p in args.posonlyargs + args.args]
        for n in names + [p.arg for p in args.kwonlyargs]:
            env[n] = {('arg', n)}
        for p in args.posonlyargs + args.args + args.kwonlyargs:
            if p.annotation is not None and model.dotted(p.annotation) in (
                    'numpy.ndarray', 'numpy.typing.NDArray'):
                env[p.arg].add(ARRAY)
        for p in (args.vararg, args.kwarg):
            if p is not None:
                env[p.arg] = {('pack', p.arg)}
        f = self.func
        if f.cls is not None and f.parent is None and names \
                and not f.is_static:
            self.me = names[0]
            env[names[0]] = {SELF}
        elif f.parent is not None:
            # names of the enclosing function: nothing is known about them
            pass
        if f.parent is not None:
            outer = f.parent
            while outer.parent is not None:
                outer = outer.parent
            if f.cls is not None and outer.params and not outer.is_static \
                    and outer.params[0] not in env:
                self.me = outer.params[0]
                env[self.me] = {SELF}
        body = node.body if isinstance(node.body, list) else [
            ast.Return(value=node.body)]
        self.block(body, env)
        return self.out

    # -- statements -------------------------------------------------------
    def block(self, body, env):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def join(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, set()) | v
        return out

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env, st, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env, st,
                            st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Subscript):
                self.change(self.ev(t.value, env), st, 'item assignment')
            else:
                grows = isinstance(st.value, (
                    ast.List, ast.ListComp)) or isinstance(
                        st.value, (ast.Set, ast.Dict, ast.SetComp,
                                   ast.DictComp))
                if grows or ARRAY in self.ev(t, env):
                    self.change(self.ev(t, env), st, 'augmented assignment')
                elif isinstance(t, ast.Name):
                    # rebinding, unless the object changes in place
                    env[t.id] = self.ev(t, env) | v
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.change(self.ev(t.value, env), st, 'item deletion')
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, ast.Expr):
            v = self.ev(st.value, env)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value, env) if st.value is not None else {CONST}
            self.out.returns |= v
            return None
        elif isinstance(st, ast.Raise):
            for e in (st.exc, st.cause):
                if e is not None:
                    self.ev(e, env)
            return None
        elif isinstance(st, (ast.Continue, ast.Break)):
            return None if False else env
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            return self.join(self.block(st.body, dict(env)),
                             self.block(st.orelse, dict(env)))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            cur = env
            for _ in range(3):
                e = dict(cur)
                self.assign(st.target, self.members(st.iter, it, e), e, st,
                            None)
                after = self.block(st.body, e)
                new = self.join(cur, after)
                if new == cur:
                    break
                cur = new
            return self.block(st.orelse, dict(cur)) if st.orelse else cur
        elif isinstance(st, ast.While):
            cur = env
            for _ in range(3):
                e = dict(cur)
                self.ev(st.test, e)
                new = self.join(cur, self.block(st.body, e))
                if new == cur:
                    break
                cur = new
            return self.block(st.orelse, dict(cur)) if st.orelse else cur
        elif isinstance(st, ast.Try):
            body = self.block(st.body, dict(env))
            # a handler may start after any prefix of the body
            mid = self.join(env, body) if body is not None else dict(env)
            outs = []
            if body is not None:
                outs.append(self.block(st.orelse, dict(body)))
            for h in st.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = {OTHER}
                outs.append(self.block(h.body, e))
            out = self.join(*outs)
            if st.finalbody:
                fin = self.block(st.finalbody, dict(
                    out if out is not None else mid))
                return fin if out is not None else None
            return out
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, {OTHER}, env, st, None)
            return self.block(st.body, env)
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef,
                             ast.AsyncFunctionDef)):
            env[st.name] = {OTHER}
        elif isinstance(st, ast.Assert):
            self.ev(st.test, env)
        elif isinstance(st, ast.Match):
            outs = [dict(env)]
            for c in st.cases:
                outs.append(self.block(c.body, dict(env)))
            return self.join(*outs)
        return env

    def assign(self, t, v, env, st, value):
        if isinstance(t, ast.Name):
            env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(
                    value.elts) == len(t.elts) and not any(
                        isinstance(x, ast.Starred)
                        for x in t.elts + value.elts):
                got = [self.ev(x, env) for x in value.elts]
                for x, g, w in zip(t.elts, got, value.elts):
                    self.assign(x, g, env, st, w)
                return
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, {FRESH}, env, st, None)
                else:
                    self.assign(x, part(v), env, st, None)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and SELF in env.get(
                    t.value.id, ()):
                self.out.stores.append((t.attr, set(v), st))
            else:
                self.change(self.ev(t.value, env), st,
                            f'assignment of attribute {t.attr!r}')
        elif isinstance(t, ast.Subscript):
            self.change(self.ev(t.value, env), st, 'item assignment')

    def change(self, origins, node, how):
        key = (id(node), frozenset(origins))
        if key in self.seen:
            return
        self.seen.add(key)
        self.out.changes.append((set(origins), node, how))

    # -- expressions ------------------------------------------------------
    def members(self, node, it, env):
        """Origins of the members of an iterable expression."""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id in ('enumerate', 'zip', 'reversed', 'list',
                                     'tuple', 'sorted', 'iter') and \
                node.func.id not in env:
            out = set()
            for x in node.args:
                out |= part(self.members(x, self.ev(x, env), env)) or {OTHER}
            return out or {OTHER}
        if isinstance(node, (ast.Tuple, ast.List)) and node.elts:
            out = set()
            for x in node.elts:
                out |= self.ev(x, env)
            return out
        return part(it)

    def ev(self, e, env):
        m = getattr(self, '_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return {OTHER}

    def _Constant(self, e, env):
        return {CONST}

    def _JoinedStr(self, e, env):
        for x in ast.walk(e):
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, env)
        return {CONST}

    def _Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if self.func.parent is not None and self.enclosing(e.id):
            return {OTHER}
        return self.known(self.program.resolve_name(self.func.module, e.id))

    def enclosing(self, name):
        f = self.func.parent
        while f is not None:
            a = f.node.args
            if name in [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs
                        + [x for x in (a.vararg, a.kwarg) if x]]:
                return True
            if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                   and n.id == name for n in ast.walk(f.node)):
                return True
            f = f.parent
        return False

    def known(self, r):
        if isinstance(r, str) and r.startswith('goats.'):
            mod, _, name = r.rpartition('.')
            m = self.program.modules.get(mod)
            if m is not None and name in m.assigns:
                return {('shared', r)}
            try:
                cls = self.program.cls(mod)
            except model.AnalysisError:
                return {OTHER}
            if self.program.class_attr(cls, name):
                return {('shared', r)}
        return {OTHER}

    def _Attribute(self, e, env):
        name = model.dotted(e)
        root = name.split('.')[0] if name else None
        if root is not None and root not in env and not (
                self.func.parent is not None and self.enclosing(root)):
            return self.known(self.program.resolve_expr(self.func.module, e))
        base = self.ev(e.value, env)
        if SELF in base and self.func.cls is not None:
            cls = self.func.cls
            f = self.program.method(cls, e.attr)
            if f is not None:
                if f.is_property:
                    self.out.calls.append(f)
                    return set(self.a.summary(f).returns) or {OTHER}
                return {OTHER}
            if self.a.is_slot(cls, e.attr):
                return {('attr', e.attr)}
            if self.program.class_attr(cls, e.attr):
                owner = self.program.class_attr(cls, e.attr)[0]
                return {('shared', f'{owner.qual}.{e.attr}')}
            return {OTHER}
        if e.attr in ('T', 'real', 'imag', 'flat'):
            return base
        return part(base)

    def _Subscript(self, e, env):
        base = self.ev(e.value, env)
        if isinstance(e.slice, ast.expr):
            self.ev(e.slice, env)
        if SELF in base:
            return {ITEM}
        if isinstance(e.slice, ast.Slice):
            # a list is copied, an array is viewed
            return set(base) if ARRAY in base else {OTHER}
        return part(base)

    def _Starred(self, e, env):
        return part(self.ev(e.value, env))

    def _NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = set(v)
        return v

    def _IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def _BoolOp(self, e, env):
        out = set()
        for x in e.values:
            out |= self.ev(x, env)
        return out

    def _BinOp(self, e, env):
        self.ev(e.left, env)
        self.ev(e.right, env)
        return {FRESH}

    def _UnaryOp(self, e, env):
        self.ev(e.operand, env)
        return {FRESH}

    def _Compare(self, e, env):
        for x in [e.left] + e.comparators:
            self.ev(x, env)
        return {FRESH}

    def _display(self, e, env):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return {FRESH}

    _List = _Tuple = _Set = _Dict = _display

    def _comp(self, e, env):
        inner = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, inner)
            self.assign(g.target, self.members(g.iter, it, inner), inner, e,
                        None)
            for c in g.ifs:
                self.ev(c, inner)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                  else [e.elt]):
            self.ev(x, inner)
        return {FRESH}

    _ListComp = _SetComp = _DictComp = _comp

    def _GeneratorExp(self, e, env):
        self._comp(e, env)
        return {OTHER}

    def _Lambda(self, e, env):
        return {OTHER}

    def _Call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        f = e.func
        if isinstance(f, ast.Attribute):
            return self.member(e, f, args, kw, env)
        if isinstance(f, ast.Name):
            if f.id in env:
                return {OTHER}
            if self.func.parent is not None and self.enclosing(f.id):
                return {OTHER}
            r = self.program.resolve_name(self.func.module, f.id)
            return self.target(e, r, args, kw, env)
        self.ev(f, env)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and \
                f.func.id == 'type' and len(f.args) == 1:
            return {FRESH}
        return {OTHER}

    def target(self, e, r, args, kw, env):
        if isinstance(r, model.Func):
            return self.apply(e, r, None, args, kw)
        if isinstance(r, model.Class):
            return {FRESH}
        name = str(r)
        if name.startswith('builtins.'):
            name = name[9:]
            if name in MAKERS:
                return {FRESH}
            if name in PURE:
                return {CONST}
            if name == 'setattr' and args:
                self.change(args[0], e, 'setattr')
            if name == 'getattr' and args:
                if SELF in args[0]:
                    return {OTHER}
                return part(args[0]) | (args[2] if len(args) > 2 else set())
            return {OTHER}
        if name in ('copy.copy', 'copy.deepcopy'):
            return {FRESH}
        if name.startswith('numpy.'):
            if 'out' in kw:
                self.change(kw['out'], e, 'output array')
            if name in VIEWS:
                return set(args[0]) | {ARRAY} if args else {OTHER}
            if name == 'numpy.array' and any(
                    k.arg == 'copy' and not (isinstance(
                        k.value, ast.Constant) and k.value.value is True)
                    for k in e.keywords):
                return set(args[0]) if args else {OTHER}
            if name == 'numpy.copyto' and args:
                self.change(args[0], e, name)
            return {FRESH}
        if name in ('collections.Counter', 'collections.OrderedDict',
                    'collections.deque', 'collections.defaultdict'):
            return {FRESH}
        return {OTHER}

    def member(self, e, f, args, kw, env):
        # super().m(...)
        if isinstance(f.value, ast.Call) and isinstance(
                f.value.func, ast.Name) and f.value.func.id == 'super':
            cls = self.func.cls
            g = self.program.method(cls, f.attr, after=cls) if cls else None
            if f.attr == '__new__' and self.func.name == '__new__':
                return {SELF}
            if g is not None:
                return self.apply(e, g, SELF, args, kw)
            if f.attr in ('__getitem__', 'get'):
                return {ITEM}
            return {OTHER}
        name = model.dotted(f)
        root = name.split('.')[0] if name else None
        if f.attr == '__class__':
            return {FRESH}
        if name == 'dict.fromkeys':
            return {FRESH}
        if root is not None and root not in env and not (
                self.func.parent is not None and self.enclosing(root)):
            r = self.program.resolve_expr(self.func.module, f)
            known = isinstance(r, (model.Func, model.Class))
            if known:
                return self.target(e, r, args, kw, env)
            base = self.known(self.program.resolve_expr(
                self.func.module, f.value))
            if OTHER in base:
                return self.target(e, r, args, kw, env)
        else:
            base = self.ev(f.value, env)
        if SELF in base and self.func.cls is not None:
            g = self.program.method(self.func.cls, f.attr)
            if g is not None:
                return self.apply(e, g, SELF, args, kw)
            if f.attr in ('get', '__getitem__'):
                return {ITEM}
            return {OTHER}
        if f.attr in MUTATORS:
            self.change(base, e, f'.{f.attr}()')
        if f.attr in ('copy', 'astype', '__copy__', '__deepcopy__',
                      'union', 'difference', 'intersection', 'flatten',
                      'tolist', 'split', 'fromkeys'):
            if f.attr == 'astype' and 'copy' in kw:
                return set(base)
            return {FRESH}
        if f.attr in ('get', 'pop', 'setdefault', 'popitem', 'values',
                      'items', '__getitem__'):
            return part(base) | (args[1] if len(args) > 1 and f.attr in (
                'get', 'pop', 'setdefault') else set())
        if f.attr in ALIKE:
            return set(base)
        if f.attr in TEXT:
            return {CONST}
        return {OTHER}

    def apply(self, e, f, recv, args, kw):
        """Origins of the result of a known function, and its changes."""
        s = self.a.summary(f)
        if f.cls is not None and recv is None and not f.is_static \
                and not f.is_classmethod:
            names = f.params
        elif f.cls is not None and not f.is_static:
            names = f.params[1:]
        else:
            names = f.params
        bound = {}
        plain = not any(isinstance(a, ast.Starred) for a in e.args)
        if plain:
            for n, v in zip(names, args):
                bound[n] = v
        bound.update((k, v) for k, v in kw.items() if k is not None)
        a = f.node.args
        packed = [v for v in args[len(names):]] if plain else []

        def put(origins):
            out = set()
            for o in origins:
                if o[0] == 'arg':
                    if o[1] in bound:
                        # the object itself or a part of it
                        out |= {OTHER if x == SELF else x
                                for x in bound[o[1]]}
                    elif a.vararg and o[1] == a.vararg.arg and packed:
                        for v in packed:
                            out |= v
                    elif o[1] in [p.arg for p in a.args + a.kwonlyargs] \
                            and plain and None not in kw:
                        out.add(CONST)      # the default
                    else:
                        out.add(OTHER)
                elif o[0] == 'pack':
                    out.add(FRESH)
                elif o[0] in ('attr', 'item', 'self') and recv != SELF:
                    out.add(OTHER)
                else:
                    out.add(o)
            return out
        if recv == SELF:
            self.out.calls.append(f)
            if self.a.is_new(f):
                for name, origins, node in s.stores:
                    if any(o[0] == 'arg' for o in origins):
                        self.out.stores.append((name, put(origins), e))
        for origins, node, how in s.changes:
            if any(o[0] == 'arg' for o in origins):
                self.change(put({o for o in origins if o[0] == 'arg'}), e,
                            f'{how} in {f.short}')
        return put(s.returns) or {OTHER}
