"""Gated value graph of the repository's functions.

Every function body is translated, without running it, into hash-consed terms
(one node per distinct value, gating conditions at control-flow joins, loops
folded into comprehension/fold/first-match nodes).  Helper functions, methods
of a known receiver, properties, closures and `super()` calls are expanded in
place, so that extracting a helper, renaming a local, reordering independent
statements or rewriting a loop as a comprehension leave the graph unchanged.

No path enumeration takes place (envs are merged at joins) and no solver is
involved: this is gated single assignment plus value numbering.
"""

import ast
import builtins
import re
import string

from . import model

DEPTH = 12


class Node:
    __slots__ = ('op', 'args', 'id', 'size', '_mu')
    _table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def N(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    n = Node._table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(Node._table)
        n.size = 1 + sum(_size(a) for a in args)
        n._mu = None
        Node._table[key] = n
    return n


def _size(a):
    if isinstance(a, Node):
        return a.size
    if isinstance(a, tuple):
        return sum(_size(x) for x in a)
    return 0


def _k(a):
    if isinstance(a, Node):
        return ('n', a.id)
    if isinstance(a, tuple):
        return ('t',) + tuple(_k(x) for x in a)
    return (type(a).__name__, a)


def const(v):
    return N('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(n, *values):
    return n.op == 'const' and (not values or any(
        n.args[0] is v or (type(n.args[0]) is type(v) and n.args[0] == v)
        for v in values))


def children(n):
    for a in n.args:
        yield from _kids(a)


def _kids(a):
    if isinstance(a, Node):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from _kids(x)


def walk(n, seen=None):
    """Every distinct node reachable from n."""
    seen = set() if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def rebuild(n, fn, memo=None):
    """Bottom-up rewriting: fn(node) -> node, after children are rewritten."""
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]

    def re(a):
        if isinstance(a, Node):
            return rebuild(a, fn, memo)
        if isinstance(a, tuple):
            return tuple(re(x) for x in a)
        return a
    args = tuple(re(a) for a in n.args)
    if n.op == 'ite':
        m = mk_ite(*args)
    elif n.op == 'not':
        m = mk_not(args[0])
    else:
        m = N(n.op, *args)
    m = fn(m)
    memo[n.id] = m
    return m


def contains(n, pred):
    return any(pred(x) for x in walk(n))


def show(n, depth=7):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ', '.join(show(x, depth) for x in n) + ')'
        return str(n)
    if depth <= 0:
        return '…'
    d = depth - 1
    op, a = n.op, n.args
    if op == 'const':
        return repr(a[0])
    if op in ('param', 'ref', 'fn', 'cls'):
        return str(a[0]).replace('goats.core.', '').replace('goats.', '')
    if op == 'attr':
        return f"{show(a[0], d)}.{a[1]}"
    if op == 'bin':
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if op == 'cmp':
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if op == 'un':
        return f"({a[0]}{show(a[1], d)})"
    if op == 'ite':
        return f"[{show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)}]"
    if op == 'sub':
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    return f"{op}({', '.join(show(x, d) for x in a)})"


# -- constructors with local simplification --------------------------------
_BOOL = {}


def boolean(n):
    if n.op != 'ite':
        return _boolean(n)
    r = _BOOL.get(n.id)
    if r is None:
        r = _BOOL[n.id] = _boolean(n)
    return r


def _boolean(n):
    return n.op in ('cmp', 'not', 'any') or (
        n.op == 'const' and isinstance(n.args[0], bool)) or (
        n.op == 'call' and n.args[0].op == 'ref' and n.args[0].args[0] in (
            'builtins.isinstance', 'builtins.callable', 'builtins.hasattr',
            'builtins.bool', 'builtins.issubclass')) or (
        n.op == 'ite' and boolean(n.args[1]) and boolean(n.args[2])
        and boolean(n.args[0]))


def truth(n):
    """Static truth value of a node, or None."""
    if n.op == 'const':
        return bool(n.args[0])
    if n.op in ('list', 'tuple', 'set') and not any(
            x.op == 'star' for x in n.args):
        return bool(n.args)
    if n.op in ('new', 'cls', 'fn', 'closure'):
        return True if n.op != 'new' else None
    return None


def mk_not(c):
    if c.op == 'not':
        return c.args[0] if boolean(c.args[0]) else N('not', c)
    t = truth(c)
    if t is not None:
        return const(not t)
    if c.op == 'ite' and boolean(c):
        return mk_ite(c.args[0], mk_not(c.args[1]), mk_not(c.args[2]))
    return N('not', c)


def cond_of(n):
    """Normalise a node used as a condition."""
    if n.op == 'call' and n.args[0].op == 'ref' \
            and n.args[0].args[0] == 'builtins.bool' and len(n.args[1]) == 1:
        return cond_of(n.args[1][0])
    if n.op == 'not' and n.args[0].op == 'not':
        return cond_of(n.args[0].args[0])
    if n.op == 'not':
        return mk_not(cond_of(n.args[0]))
    if n.op == 'ite':
        return mk_ite(n.args[0], cond_of(n.args[1]), cond_of(n.args[2]))
    return n


def mk_ite(c, a, b):
    neg = False
    while c.op == 'not':
        c = c.args[0]
        neg = not neg
    if neg:
        a, b = b, a
    t = truth(c)
    if t is not None:
        return a if t else b
    if c.op == 'ite':
        # distribute boolean gates: (p and q) ? a : b
        p, q, r = c.args
        return mk_ite(p, mk_ite(q, a, b), mk_ite(r, a, b))
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False) and boolean(c):
        return c
    return N('ite', c, a, b)


def restrict(n, c, value):
    """Simplify n along its ite spine, knowing condition c."""
    if n.op == 'ite':
        k = (n.id, c.id, value)
        r = _RESTRICT.get(k)
        if r is None:
            r = _RESTRICT[k] = _restrict(n, c, value)
        return r
    if n is c and boolean(n):
        return const(value)
    return n


_RESTRICT = {}


def _restrict(n, c, value):
    if n.op == 'ite':
        p, a, b = n.args
        if p is c:
            return restrict(a if value else b, c, value)
        x, y = restrict(a, c, value), restrict(b, c, value)
        if x is y:
            return x
        if x is not a or y is not b:
            return N('ite', p, x, y)
        return n
    if n is c and boolean(n):
        return const(value)
    return n


_RAISES = {}


def raises(n):
    """Some leaf of the ite spine raises."""
    r = _RAISES.get(n.id)
    if r is None:
        r = n.op == 'raise' or (n.op == 'ite' and (
            raises(n.args[1]) or raises(n.args[2])))
        _RAISES[n.id] = r
    return r


def chosen(n):
    """A choice between a few constants."""
    return n.op == 'ite' and choice_size(n, 4) <= 4


def choice_size(n, limit):
    if n.op == 'const':
        return 1
    if n.op != 'ite' or limit < 2:
        return 99
    a = choice_size(n.args[1], limit - 1)
    return a if a > limit else a + choice_size(n.args[2], limit - a)


def spine(n):
    """Distinct gates of the ite spine."""
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.op == 'ite' and x.id not in seen:
            seen.add(x.id)
            stack.extend(x.args[1:])
    return seen


def strip_raise(n):
    """The value on the leaves that do not raise (None: all raise)."""
    if n.op == 'raise':
        return None
    if n.op == 'ite' and raises(n):
        a, b = strip_raise(n.args[1]), strip_raise(n.args[2])
        if a is None:
            return b
        if b is None:
            return a
        return mk_ite(n.args[0], a, b)
    return n


def method_of(n):
    """(receiver, name, arguments) of a plain method call, or None."""
    if n.op == 'call' and n.args[0].op == 'attr':
        return n.args[0].args[0], n.args[0].args[1], n.args[1], n.args[2]
    return None, None, (), ()


def initialises(n):
    """Whether a node is a call to some class's initialiser."""
    if n.op != 'call' or n.args[0].op not in ('bound', 'attr'):
        return False
    return n.args[0].args[1].split('.')[-1] == '__init__'


def partition(base, idx):
    """The part of a string before or after a separator, or None."""
    if idx.op == 'slice' and idx.args[0] is NONE and idx.args[2] is NONE:
        s, name, args, kw = method_of(idx.args[1])
        if s is base and name in ('index', 'find') and len(args) == 1 \
                and not kw:
            c = args[0]
            return mk_ite(
                mk_cmp('in', c, s), piece(s, c, 0),
                N('raise', N('ref', 'builtins.ValueError'))
                if name == 'index' else
                N('sub', s, N('slice', NONE, const(-1), NONE)))
        return None
    if not is_const(idx) or idx.args[0] not in (0, 1, 2):
        return None
    i = idx.args[0]
    s, name, args, kw = method_of(base)
    if name == 'partition' and len(args) == 1 and not kw and i != 1:
        return mk_ite(mk_cmp('in', args[0], s), piece(s, args[0], i),
                      s if i == 0 else const(''))
    if name != 'split' or not args or args[0] is NONE:
        return None
    once = is_const(args[1], 1) if len(args) > 1 else any(
        k == 'maxsplit' and is_const(v, 1) for k, v in kw)
    if len(args) + len(kw) > (2 if once else 1):
        return None
    has = mk_cmp('in', args[0], s)
    if i == 0:
        return mk_ite(has, piece(s, args[0], 0), s)
    if i == 1 and once:
        return mk_ite(has, piece(s, args[0], 2),
                      N('raise', N('ref', 'builtins.IndexError')))
    return None


def piece(s, c, i):
    return N('sub', N('call', mk_attr(s, 'partition'), (c,), ()), const(i))


def mk_setitem(base, idx, v):
    if base.op == 'dict' and idx.op == 'const' and all(
            isinstance(a, tuple) and a[0].op == 'const' for a in base.args):
        new = {k.args[0]: (k, x) for k, x in base.args}
        if len(new) == len(base.args) < 8 and hash_safe(new, idx):
            new[idx.args[0]] = (idx, v)
            return N('dict', *new.values())
    return N('setitem', base, idx, v)


def hash_safe(keys, idx):
    """Keys that are equal only if they are the same constant."""
    return all(isinstance(k, str) for k in keys) and isinstance(
        idx.args[0], str)


def defined(n):
    """The condition under which a value does not raise."""
    if n.op == 'raise':
        return FALSE
    if n.op == 'ite' and raises(n):
        return mk_ite(n.args[0], defined(n.args[1]), defined(n.args[2]))
    return TRUE


def strict(vals, act):
    """act(values) once every operand has a value, else the raise."""
    kept, pre = [], []
    for v in vals:
        if raises(v):
            pre.append(v)
            v = strip_raise(v)
            if v is None:
                break
        kept.append(v)
    r = act(kept) if len(kept) == len(vals) else None

    def tree(n, r):
        if n.op == 'raise':
            return n
        if n.op == 'ite' and raises(n):
            return mk_ite(n.args[0], tree(n.args[1], r), tree(n.args[2], r))
        return r
    for v in reversed(pre):
        r = tree(v, r)
    return r


def leaves(n):
    """(guards, leaf) along the ite spine."""
    out = []

    def go(x, guards):
        if x.op == 'ite':
            go(x.args[1], guards + ((x.args[0], True),))
            go(x.args[2], guards + ((x.args[0], False),))
        else:
            out.append((guards, x))
    go(n, ())
    return out


CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
          ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@',
          ast.LShift: '<<', ast.RShift: '>>'}
PYOP = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b,
    '*': lambda a, b: a * b, '/': lambda a, b: a / b,
    '**': lambda a, b: a ** b, '//': lambda a, b: a // b,
    '%': lambda a, b: a % b,
}
EXTBIN = {
    'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*',
    'operator.truediv': '/', 'operator.floordiv': '//', 'operator.pow': '**',
    'operator.mod': '%', 'builtins.pow': '**', 'numpy.power': '**',
    'numpy.multiply': '*', 'numpy.add': '+', 'numpy.subtract': '-',
    'numpy.divide': '/', 'numpy.true_divide': '/', 'operator.or_': '|',
    'operator.and_': '&', 'math.pow': '**',
}
EXTCMP = {'operator.lt': '<', 'operator.le': '<=', 'operator.gt': '>',
          'operator.ge': '>=', 'operator.eq': '==', 'operator.ne': '!='}


def num(n):
    return n.op == 'const' and isinstance(n.args[0], (int, float)) \
        and not isinstance(n.args[0], bool)


def mk_bin(op, a, b):
    if num(a) and num(b):
        try:
            return const(PYOP[op](a.args[0], b.args[0]))
        except Exception:
            pass
    if op == '+' and a.op in ('list', 'tuple') and b.op == a.op:
        return N(a.op, *(a.args + b.args))
    if op == '+' and is_const(a) and is_const(b) \
            and isinstance(a.args[0], str) and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    return N('bin', op, a, b)


def listlike(n):
    return n.op in ('list', 'append', 'concat') or (
        n.op == 'comp' and n.args[0] == 'list')


def text(parts):
    """The string made of literals and formatted values."""
    for i, p in enumerate(parts):
        if p.op == 'fmt' and chosen(p.args[0]):
            c = p.args[0]
            return mk_ite(c.args[0], *[text(
                parts[:i] + [N('fmt', x, *p.args[1:])] + parts[i + 1:])
                for x in c.args[1:]])
    out = []

    def add(p):
        if p.op == 'const' and out and out[-1].op == 'const':
            out[-1] = const(out[-1].args[0] + p.args[0])
        elif p.op != 'const' or p.args[0] != '':
            out.append(p)
    for p in parts:
        if p.op == 'const':
            add(p)
            continue
        x, how = p.args[:2]
        if len(p.args) > 2 or how not in (-1, 115):
            add(p)
        elif x.op == 'const' and isinstance(x.args[0], (str, int)):
            add(const(str(x.args[0])))
        elif x.op == 'fstr':
            for q in x.args:
                add(q)
        else:
            add(N('fmt', x, -1))
    if not out:
        return const('')
    if len(out) == 1:
        p = out[0]
        if p.op == 'const':
            return p
        if p.args[1] == -1 and len(p.args) == 2:
            return N('call', N('ref', 'builtins.str'), (p.args[0],), ())
    return N('fstr', *out)


def mk_cmp(op, a, b):
    if op in ('!=', 'is not', 'not in'):
        return mk_not(mk_cmp({'!=': '==', 'is not': 'is',
                              'not in': 'in'}[op], a, b))
    if op in ('>', '>='):
        op = {'>': '<', '>=': '<='}[op]
        a, b = b, a
    if op in ('==', 'is'):
        if op == 'is' and a is b:
            return TRUE
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            if op == 'is' and (x is None or y is None
                               or isinstance(x, bool) or isinstance(y, bool)):
                return const(x is y)
            if op == '==':
                return const(x == y)
        for x, y in ((a, b), (b, a)):
            if is_const(y, None) and op == 'is' and x.op in (
                    'new', 'list', 'tuple', 'dict', 'comp', 'bin', 'closure',
                    'fn', 'cls', 'fstr', 'set'):
                return FALSE
        if a.id > b.id:
            a, b = b, a
    if op == 'in' and a.op == 'const' and b.op in ('tuple', 'list', 'set') \
            and all(x.op == 'const' for x in b.args):
        return const(any(a.args[0] == x.args[0] for x in b.args))
    return N('cmp', op, a, b)


def mk_attr(base, name):
    return N('attr', base, name)


class Env(dict):
    """Local bindings; heap cells are keyed ('@', node id, attr)."""

    def fork(self):
        return Env(self)

    def only(self, test, n=0):
        e = Env(self)
        fx = self.get('$fx', ())
        e['$fx'] = fx[:n] + tuple(x for x in fx[n:] if test(x))
        return e


# -- outcomes -----------------------------------------------------------------
class Leaf:
    __slots__ = ('kind', 'value', 'env')

    def __init__(self, kind, value=None, env=None):
        self.kind = kind
        self.value = value
        self.env = env


class Br:
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


def branch(cond, a, b):
    while cond.op == 'not':
        cond = cond.args[0]
        a, b = b, a
    t = truth(cond)
    if t is not None:
        return a if t else b
    return Br(cond, a, b)


def out_leaves(o):
    if isinstance(o, Leaf):
        yield o
    else:
        yield from out_leaves(o.a)
        yield from out_leaves(o.b)


def out_map(o, fn):
    if isinstance(o, Leaf):
        return fn(o)
    return branch(o.cond, out_map(o.a, fn), out_map(o.b, fn))


def out_node(o, fn):
    """Project an outcome to a node; fn(leaf) -> node or None (don't care)."""
    if isinstance(o, Leaf):
        return fn(o)
    a = out_node(o.a, fn)
    b = out_node(o.b, fn)
    if a is None:
        return b
    if b is None:
        return a
    return mk_ite(o.cond, a, b)


UNDEF = N('undef')
ABSTRACT = {'typing.Hashable', 'collections.abc.Hashable', 'typing.Any'}
SAFE = {'builtins.isinstance', 'builtins.callable', 'builtins.bool',
        'builtins.type', 'builtins.str', 'builtins.repr'}


def merge(o, kinds):
    """Merge the environments of the leaves of the given kinds."""
    envs = [l.env for l in out_leaves(o) if l.kind in kinds]
    if not envs:
        return None
    if len(envs) == 1:
        return envs[0].fork()
    keys = set()
    for e in envs:
        keys |= set(e)
    out = Env()
    for k in keys:
        vals = {id(e.get(k, UNDEF)) if not isinstance(e.get(k, UNDEF), Node)
                else ('n', e.get(k, UNDEF).id) for e in envs}
        if len(vals) == 1:
            out[k] = envs[0][k]
            continue
        if k == '$fx':
            out[k] = merge_fx(o, kinds)
            continue
        if isinstance(k, str) and k.startswith('$'):
            out[k] = envs[0].get(k)
            continue

        def get(l, k=k):
            if l.kind not in kinds:
                return None
            return l.env.get(k, UNDEF_FOR(k))
        out[k] = out_node(o, get)
    return out


def merge_fx(o, kinds):
    """Effects of several leaves, each under its path condition."""
    entries = []

    def go(x, guards):
        if isinstance(x, Leaf):
            if x.kind in kinds:
                entries.append((guards, x.env.get('$fx', ())))
            return
        go(x.a, guards + ((x.cond, True),))
        go(x.b, guards + ((x.cond, False),))
    go(o, ())
    if len(entries) > 500:
        raise Budget('too many paths')
    n = 0
    lists = [e for _, e in entries]
    while all(len(e) > n for e in lists) and len({
            e[n].id for e in lists}) == 1:
        n += 1
    out = list(lists[0][:n])
    everywhere = set(lists[0][n:])
    for e in lists[1:]:
        everywhere &= set(e[n:])
        if not everywhere:
            break
    for guards, e in entries:
        for x in e[n:]:
            if x in everywhere:
                out.append(x)
            elif outlives(x):
                out.append(when(guards, x))
        if len(out) > 600:
            raise Budget('too many effects')
    return tuple(dict.fromkeys(out))


def when(guards, x):
    if not guards:
        return x
    k = (x.id,) + tuple((c.id, t) for c, t in guards)
    r = _WHEN.get(k)
    if r is None:
        if x.op == 'when':
            r = N('when', tuple(guards) + x.args[0], x.args[1])
        else:
            r = N('when', tuple(guards), x)
        _WHEN[k] = r
    return r


_WHEN = {}


def bare(x):
    while x.op in ('when', 'each'):
        x = x.args[1]
    return x


def UNDEF_FOR(k):
    if isinstance(k, tuple) and k[0] == '@':
        return mk_attr(k[1], k[2])
    return UNDEF


class Budget(Exception):
    """The value graph grows beyond what is worth comparing."""


class Closure:
    def __init__(self, node, env, frame):
        self.node = node
        self.env = env
        self.frame = frame


class Frame:
    """Static context of the function being translated."""

    def __init__(self, module, cls=None, func=None, depth=0, stack=(),
                 guards=()):
        self.module = module
        self.cls = cls          # class that defines the function (for super)
        self.func = func
        self.depth = depth
        self.stack = stack
        self.guards = guards
        self.loop = 0


class Graph:
    """Translator with expansion options.

    keep:     qualified names (or predicate) never expanded
    cold:     treat memo slots (None in __init__, filled on demand) as unset
    hints:    (func qual, param) -> class qual
    """

    def __init__(self, program, keep=(), cold=True, hints=None, depth=DEPTH,
                 inline=True, expand_new=True, annotations=True):
        self.program = program
        self.keep = keep if callable(keep) else (
            lambda f, _k=set(keep): f.qual in _k or f.name in _k)
        self.cold = cold
        self.hints = hints or {}
        self.maxdepth = depth
        self.inline = inline
        self.expand_new = expand_new
        self.annotations = annotations
        self.closures = {}
        self._types = {}
        self._memo_attrs = {}
        self._init = {}
        self.expanded = set()
        self.final = self.back = None
        self.notes = []
        self.steps = 0
        self.nest = 0
        self.budget = 0
        self.nodes0 = len(Node._table)
        self._ites = {}

    # -- entry ----------------------------------------------------------------
    def summary(self, func, args=None, cls=None):
        """(value node, final env) of a function on symbolic parameters."""
        out, env = self.outcome(func, args, cls)
        if _is_generator(func.node) and env is not None:
            v = env.get('$yield', N('list'))
            if v.op == 'append':
                v = self.mutate(v.args[0], 'append', [v.args[1]])
            return v, env
        return self.value(out), env

    def outcome(self, func, args=None, cls=None):
        owner = func.cls
        recv = cls or owner
        frame = Frame(func.module, owner, func, 0,
                      (self.program.canon(func),))
        env = Env()
        env['$fx'] = ()
        env['$loop'] = 0
        self._params(func, env, frame, args or {}, recv)
        out = self.block(self._body(func.node), env, frame)
        end = merge(out, ('ret', 'fall'))
        return out, self._last_words(out, end)

    def _last_words(self, out, end, n=0):
        """Add the calls made on the way to an exception."""
        leaves = list(out_leaves(out))
        if not any(l.kind == 'raise' for l in leaves):
            return end
        some = any(x.op == 'call' for l in leaves
                   if l.kind in ('ret', 'fall', 'raise') for x in map(
                       bare, l.env.get('$fx', ())[n:]))
        if not some:
            return end
        strict = out_map(out, lambda l: l if l.kind != 'raise' else Leaf(
            'raise', l.value, l.env.only(
                lambda x: bare(x).op == 'call', n)))
        fx = merge_fx(strict, ('ret', 'fall', 'raise'))
        if end is None:
            end = Env()
        end['$fx'] = fx
        return end

    def value(self, out):
        """Single value node of an outcome (raise leaves kept)."""
        def leaf(l):
            if l.kind == 'ret':
                return l.value
            if l.kind == 'raise':
                return N('raise', l.value)
            return NONE
        return out_node(out, leaf)

    def _body(self, node):
        if isinstance(node, ast.Lambda):
            r = ast.Return(value=node.body)
            ast.copy_location(r, node.body)
            return [r]
        return node.body

    def _params(self, func, env, frame, args, recv):
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        anns = {p.arg: p.annotation
                for p in a.posonlyargs + a.args + a.kwonlyargs}
        for i, n in enumerate(names + [p.arg for p in a.kwonlyargs]):
            if n in args:
                env[n] = args[n]
                continue
            node = N('param', n)
            if i == 0 and func.cls is not None and func.parent is None \
                    and not func.is_static:
                if func.is_classmethod or func.name in (
                        '__new__', '__init_subclass__', '__class_getitem__'):
                    node = N('cls', recv.qual)
                else:
                    node = N('self', recv.qual)
            else:
                self._hint(node, func, n, anns.get(n))
            env[n] = node
        if a.vararg and a.vararg.arg not in args:
            env[a.vararg.arg] = N('param', '*' + a.vararg.arg)
        elif a.vararg:
            env[a.vararg.arg] = args[a.vararg.arg]
        if a.kwarg and a.kwarg.arg not in args:
            env[a.kwarg.arg] = N('param', '**' + a.kwarg.arg)
        elif a.kwarg:
            env[a.kwarg.arg] = args[a.kwarg.arg]

    def _hint(self, node, func, name, ann):
        q = self.hints.get((func.qual, name)) or self.hints.get(name)
        if q:
            self._types[node.id] = self.program.cls(q)
            return
        if not self.annotations:
            return
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.program.resolve_expr(func.module, ann)
            if isinstance(r, model.Class):
                self._types[node.id] = r

    def type_of(self, node):
        if node.op in ('self', 'new'):
            return self.program.cls(node.args[0])
        if node.op == 'ite':
            k = (node.id, len(self._types))
            if k not in self._ites:
                a = self.type_of(node.args[1])
                b = self.type_of(node.args[2]) if a is not None else None
                self._ites[k] = a if a is b else None
            return self._ites[k]
        if node.op == 'call' and node.args[0].op == 'attr' and \
                node.args[0].args[1] == '__new__' and \
                node.args[0].args[0].op == 'super' and node.args[1] and \
                node.args[1][0].op == 'cls':
            # object.__new__(cls): a fresh instance of cls
            return self.program.cls(node.args[1][0].args[0])
        return self._types.get(node.id)

    # -- statements -------------------------------------------------------------
    def block(self, stmts, env, frame):
        out = Leaf('fall', None, env)
        for i, s in enumerate(stmts):
            cur = merge(out, ('fall',))
            if cur is None:
                return out
            self.steps += 1
            if self.budget and self.steps > self.budget:
                raise Budget(f"{self.steps} statements")
            if self.budget and len(Node._table) > self.nodes0 + 150000:
                raise Budget("graph too large")
            nxt = self.stmt(s, cur, frame)
            n_fall = sum(1 for l in out_leaves(out) if l.kind == 'fall')
            if isinstance(out, Leaf):
                out = nxt
            elif n_fall == 1 or isinstance(nxt, Leaf):
                out = out_map(out, lambda l: nxt if l.kind == 'fall' else l)
            else:
                out = out_map(out, lambda l: nxt if l.kind == 'fall' else l)
        return out

    def stmt(self, s, env, frame):
        m = getattr(self, '_s_' + type(s).__name__, None)
        if m is None:
            self.notes.append(f"untranslated statement {type(s).__name__}")
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = N('opaque', type(s).__name__, s.lineno)
            return Leaf('fall', None, env)
        return m(s, env, frame)

    def _s_Pass(self, s, env, frame):
        return Leaf('fall', None, env)

    _s_Import = _s_ImportFrom = _s_Global = _s_Nonlocal = _s_Pass

    def _s_Assert(self, s, env, frame):
        c = cond_of(self.ev(s.test, env, frame))
        return branch(c, Leaf('fall', None, env),
                      Leaf('raise', N('ref', 'builtins.AssertionError'), env))

    def _s_Expr(self, s, env, frame):
        v = s.value
        if isinstance(v, ast.Constant):
            return Leaf('fall', None, env)
        if isinstance(v, ast.Yield):
            item = self.ev(v.value, env, frame) if v.value else NONE
            env['$yield'] = N('append', env.get('$yield', N('list')), item)
            return Leaf('fall', None, env)
        if isinstance(v, ast.YieldFrom):
            item = self.ev(v.value, env, frame)
            env['$yield'] = self.concat(env.get('$yield', N('list')), item)
            return Leaf('fall', None, env)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            done = self._mutator(v, env, frame, True)
            if done:
                return Leaf('fall', None, env)
        n = self.ev(v, env, frame)
        if n.op == 'raise':
            return Leaf('raise', n.args[0], env)
        if n.op == 'ite' and len(spine(n)) <= 8:
            fx = tuple(when(g, x) for g, x in leaves(n) if x.op == 'call')
        else:
            fx = (n,)
        env['$fx'] = env.get('$fx', ()) + fx
        return self._lift(n, env)

    def _lift(self, n, env):
        """An expression statement whose expansion may raise."""
        if n.op == 'ite' and raises(n):
            return branch(n.args[0], self._lift(n.args[1], env.fork()),
                          self._lift(n.args[2], env.fork()))
        if n.op == 'raise':
            return Leaf('raise', n.args[0], env)
        return Leaf('fall', None, env)

    MUT = {'append', 'extend', 'add', 'update', 'insert', 'remove', 'pop',
           'clear', 'discard', 'sort', 'reverse', 'setdefault', 'popitem'}

    def _mutator(self, call, env, frame, alone=False):
        f = call.func
        if f.attr not in self.MUT:
            return False
        base = f.value
        cur = self.ev(base, env, frame)
        if self.type_of(cur) is not None and self.program.method(
                self.type_of(cur), f.attr):
            return False
        if not (isinstance(base, ast.Name) and base.id in env) and not \
                isinstance(base, (ast.Attribute, ast.Subscript)):
            return False
        args, kw = self._args(call, env, frame)
        if alone and f.attr == 'setdefault' and len(args) == 2 and not kw:
            new = mk_ite(mk_cmp('in', args[0], cur), cur,
                         mk_setitem(cur, *args))
        else:
            new = self.mutate(cur, f.attr, args, kw)
        env['$fx'] = env.get('$fx', ()) + (N('mutate', cur, f.attr,
                                            tuple(args), kw),)
        self._store(base, new, env, frame)
        return True

    def mutate(self, cur, name, args, kw=()):
        if name == 'append' and len(args) == 1:
            return N(*(('list',) + cur.args + (args[0],))) if cur.op == 'list' \
                else N('append', cur, args[0])
        if name == 'add' and len(args) == 1:
            return N('append', cur, args[0])
        if name == 'extend' and len(args) == 1:
            return self.concat(cur, args[0])
        if name == 'update':
            if cur.op == 'set' or (cur.op == 'comp' and cur.args[0] == 'set'):
                return self.concat(cur, args[0]) if len(args) == 1 else N(
                    'mut', name, cur, tuple(args))
            if len(args) == 1 and not kw and args[0].op == 'dict' and all(
                    isinstance(p, tuple) and p[0].op != 'dstar'
                    for p in args[0].args):
                for k, v in args[0].args:
                    cur = mk_setitem(cur, k, v)
                return cur
            return N('dmerge', cur, tuple(args), tuple(kw))
        return N('mut', name, cur, tuple(args), tuple(kw))

    def is_list(self, v):
        """True for an attribute that is always initialised as a list."""
        return v.op == 'attr' and v.args[0].op == 'self' and attr_kind(
            self.program, v.args[0].args[0], v.args[1]) == 'list'

    def concat(self, a, b):
        if a.op == 'list' and not a.args:
            if b.op in ('list', 'comp'):
                return b
            return N('list', N('star', b))
        if a.op == 'list' and b.op in ('list', 'tuple'):
            return N('list', *(a.args + b.args))
        if b.op == 'list' and len(b.args) <= 4 and not any(
                x.op == 'star' for x in b.args):
            for x in b.args:
                a = N('append', a, x)
            return a
        return N('concat', a, b)

    def _s_Return(self, s, env, frame):
        v = self.ev(s.value, env, frame) if s.value is not None else NONE
        if initialises(v):
            # an initialiser yields nothing: the call is what matters
            env['$fx'] = env.get('$fx', ()) + (v,)
            v = NONE
        return self._ret(v, env)

    def _ret(self, v, env):
        if v.op == 'raise':
            return Leaf('raise', v.args[0], env)
        if v.op == 'ite' and raises(v):
            return branch(v.args[0], self._ret(v.args[1], env.fork()),
                          self._ret(v.args[2], env.fork()))
        return Leaf('ret', v, env)

    def _s_Raise(self, s, env, frame):
        v = self.ev(s.exc, env, frame) if s.exc is not None else env.get(
            '$exc', N('reraise'))
        return Leaf('raise', v, env)

    def _s_Break(self, s, env, frame):
        return Leaf('brk', None, env)

    def _s_Continue(self, s, env, frame):
        return Leaf('cont', None, env)

    def _s_Assign(self, s, env, frame):
        v = self.ev(s.value, env, frame)
        return self._assign_all(s.targets, v, env, frame)

    def _assign_all(self, targets, v, env, frame):
        if v.op == 'raise':
            return Leaf('raise', v.args[0], env)
        if v.op == 'ite' and raises(v):
            # the expanded callee may raise: continue on the normal leaves
            return self._split_raise(v, env, lambda val, e: (
                [self._store(t, val, e, frame) for t in targets]))
        for t in targets:
            self._store(t, v, env, frame)
        return self._pending(env)

    def _split_raise(self, v, env, act):
        """Separate raising leaves from the value on the other leaves."""
        val = strip_raise(v)
        if val is None:
            while v.op == 'ite':
                v = v.args[1]
            return Leaf('raise', v.args[0], env)
        ok = env.fork()
        act(val, ok)

        def tree(n):
            if n.op == 'raise':
                return Leaf('raise', n.args[0], env)
            if n.op == 'ite' and raises(n):
                return branch(n.args[0], tree(n.args[1]), tree(n.args[2]))
            return Leaf('fall', None, ok)
        return tree(v)

    def _s_AnnAssign(self, s, env, frame):
        if s.value is None:
            return Leaf('fall', None, env)
        v = self.ev(s.value, env, frame)
        return self._assign_all([s.target], v, env, frame)

    def _s_AugAssign(self, s, env, frame):
        load = _as_load(s.target)
        cur = self.ev(load, env, frame)
        v = self.ev(s.value, env, frame)
        op = BINOPS[type(s.op)]
        if op == '+' and (listlike(cur) or self.is_list(cur) or (
                listlike(v) and self.type_of(cur) is None)):
            new = self.concat(cur, v)
        else:
            new = mk_bin(op, cur, v)
        env['$fx'] = env.get('$fx', ()) + (N('augment', cur, op, v),)
        self._store(s.target, new, env, frame)
        return self._pending(env)

    def _s_Delete(self, s, env, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(_as_load(t.value), env, frame)
                idx = self.ev(t.slice, env, frame)
                if self._item_method(base, '__delitem__', [idx], env, frame):
                    continue
                env['$fx'] = env.get('$fx', ()) + (
                    N('mutate', base, 'del', (idx,), ()),)
                self._store(t.value, N('mut', 'del', base, (idx,), ()),
                            env, frame)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
        return self._pending(env)

    def _store(self, target, v, env, frame):
        if isinstance(target, ast.Name):
            env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, t in enumerate(target.elts)
                    if isinstance(t, ast.Starred)]
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    self._store(t.value, N(
                        'rest', v, i, len(target.elts) - i - 1), env, frame)
                elif star and i > star[0]:
                    self._store(t, N('sub', v, const(
                        i - len(target.elts))), env, frame)
                else:
                    self._store(t, self.item(v, i), env, frame)
        elif isinstance(target, ast.Attribute):
            base = self.ev(_as_load(target.value), env, frame)
            env[('@', base, target.attr)] = v
            env['$fx'] = env.get('$fx', ()) + (
                N('setattr', base, target.attr, v),)
        elif isinstance(target, ast.Subscript):
            base = self.ev(_as_load(target.value), env, frame)
            idx = self.ev(target.slice, env, frame)
            if self._item_method(base, '__setitem__', [idx, v], env, frame):
                return
            env['$fx'] = env.get('$fx', ()) + (
                N('mutate', base, 'setitem', (idx, v), ()),)
            if isinstance(target.value, (ast.Name, ast.Attribute,
                                         ast.Subscript)):
                if isinstance(target.value, ast.Name) and \
                        target.value.id not in env:
                    return
                self._store(target.value, mk_setitem(base, idx, v),
                            env, frame)
        elif isinstance(target, ast.Starred):
            self._store(target.value, v, env, frame)

    def _item_method(self, base, name, args, env, frame):
        """Item assignment or deletion on an object of the program."""
        cls = self.type_of(base)
        f = self.lookup(cls, name, frame) if cls is not None else None
        if f is None:
            return False
        v = self.method_call(f, base, args, (), env, frame)
        if len(spine(v)) <= 8:
            env['$fx'] = env.get('$fx', ()) + tuple(
                when(g, x) for g, x in leaves(v) if x.op == 'call')
        else:
            env['$fx'] = env.get('$fx', ()) + (v,)
        if raises(v):
            env['$raise'] = v
        return True

    def _pending(self, env):
        v = env.pop('$raise', None)
        return Leaf('fall', None, env) if v is None else self._lift(v, env)

    def item(self, v, i):
        if v.op in ('tuple', 'list') and not any(
                x.op == 'star' for x in v.args) and i < len(v.args):
            return v.args[i]
        if v.op == 'ite':
            a, b = self.item(v.args[1], i), self.item(v.args[2], i)
            return mk_ite(v.args[0], a, b)
        if v.op == 'comp' and v.args[0] in ('list', 'gen', 'tuple') \
                and len(v.args[2]) == 1:
            g = v.args[2][0]
            if not g.args[1] and g.args[0].op in ('tuple', 'list') \
                    and i < len(g.args[0].args):
                return subst(v.args[1], elem_of(g), g.args[0].args[i])
        if v.op == 'firstval':
            return N('firstval', self.item(v.args[0], i), *v.args[1:])
        part = partition(v, const(i))
        if part is not None:
            return part
        return N('sub', v, const(i))

    def _s_If(self, s, env, frame):
        c = cond_of(self.ev(s.test, env, frame))
        if raises(c):
            return self._raising_if(s, c, env, frame)
        return self._if(s, c, env, frame)

    def _raising_if(self, s, c, env, frame):
        ok = env.fork()
        for k, v in env.items():
            if isinstance(v, Node) and raises(v):
                ok[k] = strip_raise(v) or v
        val = strip_raise(c)
        if val is None:
            while c.op == 'ite':
                c = c.args[1]
            return Leaf('raise', c.args[0], env)
        rest = self._if(s, val, ok, frame)

        def tree(n):
            if n.op == 'raise':
                return Leaf('raise', n.args[0], env)
            if n.op == 'ite' and raises(n):
                return branch(n.args[0], tree(n.args[1]), tree(n.args[2]))
            return rest
        return tree(c)

    def _if(self, s, c, env, frame):
        t = truth(c)
        if t is True:
            return self.block(s.body, env, frame)
        if t is False:
            return self.block(s.orelse, env, frame)
        a = self.block(s.body, env.fork(), frame)
        b = self.block(s.orelse, env.fork(), frame)
        return branch(c, a, b)

    def _s_With(self, s, env, frame):
        handlers = None
        for item in s.items:
            ctx = self.ev(item.context_expr, env, frame)
            if ctx.op == 'call' and ctx.args[0].op == 'ref' \
                    and ctx.args[0].args[0] == 'contextlib.suppress':
                handlers = N('tuple', *ctx.args[1])
            if item.optional_vars is not None:
                self._store(item.optional_vars, N('enter', ctx), env, frame)
            env['$fx'] = env.get('$fx', ()) + (N('with', ctx),)
        if handlers is None:
            return self.block(s.body, env, frame)
        before = env.fork()
        body = self.block(s.body, env, frame)
        out = out_map(body, lambda l: Leaf('fall', None, l.env)
                      if l.kind == 'raise' and catches(
                          self.program, handlers, l.value) else l)
        risk = self._key(body, before, handlers)
        if risk is None:
            return out
        return branch(N('raised', handlers, risk),
                      Leaf('fall', None, before), out)

    _s_AsyncWith = _s_With

    def _key(self, out, before, types):
        """Operations of a protected region that may raise."""
        roots = []
        old = set()
        for k, v in before.items():
            if isinstance(v, Node):
                old.update(x.id for x in walk(v))
        for x in before.get('$fx', ()):
            old.add(x.id)
        for l in out_leaves(out):
            if isinstance(l.value, Node):
                roots.append(l.value)
            for k, v in (l.env or {}).items():
                if isinstance(v, Node) and before.get(k) is not v:
                    roots.append(v)
            roots.extend(x for x in (l.env or {}).get('$fx', ())
                         if x.id not in old)

        def conds(o):
            if isinstance(o, Br):
                roots.append(o.cond)
                conds(o.a)
                conds(o.b)
        conds(out)
        attrs = contains(types, lambda x: x.op == 'ref' and x.args[0] in (
            'builtins.AttributeError', 'builtins.Exception',
            'builtins.BaseException'))
        ops = ('call', 'new', 'sub', 'bin') + (('attr',) if attrs else ())
        names = {str(x.args[0]) for x in walk(types)
                 if x.op in ('ref', 'cls')}
        if names and names <= LOOKUPS:
            ops = ('call', 'new', 'sub')
        elif names and names <= {'builtins.ValueError'}:
            ops = ('call', 'new', 'bin')
        custom = bool(names) and all(n.startswith('goats') for n in names)
        stops = names == {'builtins.StopIteration'}
        seen = {}
        done = set(old)
        for r in roots:
            for x in walk(r, done):
                if x.op in ops and not (x.op == 'call' and x.args[0].op ==
                                        'ref' and x.args[0].args[0] in SAFE):
                    if custom and x.op == 'sub' and rooted(x):
                        continue
                    if stops and not (x.op == 'call' and x.args[0] is N(
                            'ref', 'builtins.next')):
                        continue
                    if x.op == 'call' and x.args[0] is N(
                            'ref', 'builtins.len') and all(
                                y.op in ('tuple', 'list', 'dict', 'comp')
                                or y.op == 'param' and y.args[0].startswith(
                                    '*') for y in x.args[1]):
                        continue
                    seen[x.id] = x
        if names and names <= LOOKUPS and any(
                x.op == 'sub' for x in seen.values()):
            # constructing an object after a look-up is not what may fail
            seen = {i: x for i, x in seen.items() if x.op != 'new'
                    and not copies(x)}
        if not seen and names & {'builtins.ValueError', 'builtins.Exception'}:
            # testing the truth of an array may raise
            for r in roots:
                x = r.args[0] if r.op == 'not' else r
                if x.op in ('param', 'elem') and x.id in old and (
                        r.op == 'not'):
                    seen[x.id] = N('tested', x)
        if not seen:
            return None
        return N('try', *[seen[i] for i in sorted(seen)])

    def _s_Try(self, s, env, frame):
        before = env.fork()
        body = self.block(s.body, env.fork(), frame)
        normal = body
        if s.orelse:
            nxt_env = merge(body, ('fall',))
            if nxt_env is not None:
                nxt = self.block(s.orelse, nxt_env, frame)
                normal = out_map(body, lambda l: nxt if l.kind == 'fall'
                                 else l)
        handlers = []
        for h in s.handlers:
            henv = before.fork()
            types = self.ev(h.type, henv, frame) if h.type is not None \
                else N('ref', 'builtins.BaseException')
            handlers.append((h, types))
        explicit = {id(l) for l in out_leaves(body) if l.kind == 'raise'}

        def catch(l):
            if id(l) not in explicit:
                return l
            for h, types in handlers:
                t = catches(self.program, types, l.value)
                if t is None:
                    return l
                if t:
                    henv = l.env.fork()
                    if h.name:
                        henv[h.name] = l.value
                    henv['$exc'] = l.value
                    return self.block(h.body, henv, frame)
            return l
        out = out_map(normal, catch)
        for h, types in reversed(handlers):
            henv = before.fork()
            if h.name:
                henv[h.name] = N('excvar', types)
            henv['$exc'] = N('excvar', types)
            risk = self._key(body, before, types)
            if risk is None:
                continue
            o = self.block(h.body, henv, frame)
            out = branch(N('raised', types, risk), o, out)
        if s.finalbody:
            e = merge(out, ('fall',))
            if e is not None:
                fin = self.block(s.finalbody, e, frame)
                out = out_map(out, lambda l: fin if l.kind == 'fall' else l)
            else:
                def fin_leaf(l):
                    f = self.block(s.finalbody, l.env.fork(), frame)
                    ends = [x for x in out_leaves(f) if x.kind != 'fall']
                    return f if ends and all(
                        x.kind != 'fall' for x in out_leaves(f)) else l
                out = out_map(out, fin_leaf)
        return out

    def _s_FunctionDef(self, s, env, frame):
        env[s.name] = self.closure(s, env, frame)
        return Leaf('fall', None, env)

    def closure(self, node, env, frame):
        """A function value, identified by what its body computes."""
        sig, body = self._closure_body(node, env, frame)
        n = N('closure', sig, body)
        self.closures[n.id] = Closure(node, env, frame)
        return n

    def _closure_body(self, node, env, frame):
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        sig = (len(a.posonlyargs + a.args), tuple(
            p.arg for p in a.kwonlyargs), bool(a.vararg), bool(a.kwarg))
        where = f"{frame.module.name}:{node.lineno}:{node.col_offset}"
        if self.nest >= 4:
            return sig, N('opaque', 'closure', where)
        inner = Env(env)
        self.nest += 1
        try:
            for i, p in enumerate(names):
                inner[p] = N('cparam', self.nest, i)
            if a.vararg:
                inner[a.vararg.arg] = N('cparam', self.nest, '*')
            if a.kwarg:
                inner[a.kwarg.arg] = N('cparam', self.nest, '**')
            inner['$fx'] = ()
            if isinstance(node, ast.FunctionDef):
                inner[node.name] = N('cself', self.nest)
            sub = Frame(frame.module, frame.cls, frame.func,
                        frame.depth + 1, frame.stack)
            if sub.depth > self.maxdepth:
                return sig, N('opaque', 'closure', where)
            out = self.block(self._body(node), inner, sub)
            if _is_generator(node):
                fin = merge(out, ('ret', 'fall'))
                v = fin.get('$yield', N('list')) if fin else NONE
            else:
                v = self.value(out)
            fin = merge(out, ('ret', 'fall'))
            fx = [x for x in (fin.get('$fx', ()) if fin else ())
                  if outlives(x)]
            if v is None:
                v = NONE
            dec = tuple(self.ev(d, inner, sub) for d in getattr(
                node, 'decorator_list', ()))
            return sig, N('body', v, tuple(fx), dec)
        finally:
            self.nest -= 1

    def _s_ClassDef(self, s, env, frame):
        env[s.name] = N('opaque', 'class', s.lineno)
        return Leaf('fall', None, env)

    # -- loops --------------------------------------------------------------------
    def gens_bind(self, target, it, env, frame, depth):
        """Bind a loop target; returns the tuple of gen nodes."""
        it = self.norm_iter(self.iterated(it, env, frame))
        if it.op == 'comp' and it.args[0] in ('list', 'gen', 'tuple'):
            # fuse: iterate over the comprehension's own generators
            it = shift(it, depth - min(g.args[2] for g in it.args[2]))
            self._store(target, it.args[1], env, frame)
            return it.args[2]
        if it.op == 'items':
            base = it.args[0]
            k = N('elem', base, depth)
            v = N('sub', base, k)
            if isinstance(target, (ast.Tuple, ast.List)) \
                    and len(target.elts) == 2:
                self._store(target.elts[0], k, env, frame)
                self._store(target.elts[1], v, env, frame)
            else:
                self._store(target, N('tuple', k, v), env, frame)
            return (N('gen', base, (), depth),)
        if it.op == 'values':
            base = it.args[0]
            self._store(target, N('sub', base, N('elem', base, depth)),
                        env, frame)
            return (N('gen', base, (), depth),)
        if it.op == 'enum':
            base, start = it.args
            base = self.norm_iter(self.iterated(base, env, frame))
            if base.op in ('items', 'values'):
                kind, base = base.op, base.args[0]
                k = N('elem', base, depth)
                x = N('sub', base, k)
                if kind == 'items':
                    x = N('tuple', k, x)
            else:
                x = N('elem', base, depth)
            i = N('index', base, depth)
            if not is_const(start, 0):
                i = mk_bin('+', i, start)
            pair = N('tuple', i, x)
            self._store(target, pair, env, frame)
            return (N('gen', base, (), depth),)
        if it.op == 'zip':
            parts = [N('elem', b, depth) for b in it.args]
            self._store(target, N('tuple', *parts), env, frame)
            return (N('gen', it, (), depth),)
        self._store(target, N('elem', it, depth), env, frame)
        return (N('gen', it, (), depth),)

    def iterated(self, it, env, frame):
        """What iterating over an object of the program yields."""
        for _ in range(4):
            cls = self.type_of(it) if it.op != 'cls' else None
            f = self.lookup(cls, '__iter__', frame) if cls is not None \
                else None
            if f is None or not self.expandable(f, frame):
                break
            v = self.expand(f, it, [], (), env, frame)
            if v is it or raises(v):
                break
            it = v
            while it.op == 'call' and it.args[0] is N(
                    'ref', 'builtins.iter') and len(it.args[1]) == 1:
                it = it.args[1][0]
        return it

    def norm_iter(self, it):
        if it.op == 'call':
            f, args = it.args[0], it.args[1]
            if f.op == 'attr' and f.args[1] in ('items', 'keys', 'values') \
                    and not args and not it.args[2]:
                return {'items': lambda b: N('items', b),
                        'values': lambda b: N('values', b),
                        'keys': lambda b: b}[f.args[1]](f.args[0])
            if f.op == 'ref':
                name = f.args[0]
                if name in ('builtins.list', 'builtins.tuple',
                            'builtins.iter') and len(args) == 1 \
                        and not it.args[2]:
                    return self.norm_iter(args[0])
                if name == 'builtins.enumerate' and len(args) + len(
                        it.args[2]) in (1, 2) and args and {
                            k for k, _ in it.args[2]} <= {'start'}:
                    start = [*args[1:], *(v for _, v in it.args[2])]
                    return N('enum', args[0], *(start or [const(0)]))
                if name == 'builtins.zip' and args and not it.args[2]:
                    return N('zip', *args)
        return it

    def finite(self, it):
        """The elements of a display, its items, or None."""
        it = self.norm_iter(it)
        if it.op in ('tuple', 'list'):
            return None if any(x.op == 'star' for x in it.args) else it.args
        if it.op == 'enum':
            got, start = self.finite(it.args[0]), it.args[1]
            return got and tuple(
                N('tuple', const(i) if is_const(start, 0) else mk_bin(
                    '+', const(i), start), x) for i, x in enumerate(got))
        if it.op == 'zip':
            got = [self.finite(x) for x in it.args]
            return None if None in got else tuple(
                N('tuple', *x) for x in zip(*got))
        base = it.args[0] if it.op in ('items', 'values') else it
        if base.op != 'dict':
            return None
        keys = [k for k, _ in base.args]
        if not all(k.op == 'const' for k in keys) or len(set(
                k.args[0] for k in keys)) < len(keys):
            return None
        if it.op == 'items':
            return tuple(N('tuple', k, v) for k, v in base.args)
        return tuple(v if it.op == 'values' else k for k, v in base.args)

    def _s_For(self, s, env, frame):
        it = self.ev(s.iter, env, frame)
        lit = self.finite(it)
        if lit is not None and len(lit) <= 6 and not s.orelse:
            # literal iterable: unroll
            out = Leaf('fall', None, env)
            for x in lit:
                cur = merge(out, ('fall', 'cont'))
                if cur is None:
                    break
                self._store(s.target, x, cur, frame)
                body = self.block(s.body, cur, frame)
                out = out_map(out, lambda l: body if l.kind in (
                    'fall', 'cont') else l)
            return out_map(out, lambda l: Leaf('fall', None, l.env)
                           if l.kind in ('brk', 'cont') else l)
        depth = env.get('$loop', 0)
        body_env = env.fork()
        gens = self.gens_bind(s.target, it, body_env, frame, depth)
        bound = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        return self._loop(s, gens, bound, env, body_env, frame, depth)

    _s_AsyncFor = _s_For

    def _s_While(self, s, env, frame):
        depth = env.get('$loop', 0)
        body_env = env.fork()
        gens = (N('gen', N('while'), (), depth),)
        return self._loop(s, gens, set(), env, body_env, frame, depth,
                          test=s.test)

    def _loop(self, s, gens, bound, env, body_env, frame, depth, test=None):
        """Summarise a loop by the recurrences of what it changes."""
        assigned = _assigned(s.body)
        if test is not None:
            assigned |= _assigned([ast.Expr(test)])
        dead = killed(s.body) if test is None else set()
        names = [n for n in assigned if n in env and n not in bound
                 and n not in dead and env[n].op != 'self']
        names.sort(key=lambda n: assigned_order(s.body, n))
        fresh = [n for n in assigned if n not in env and n not in bound]
        cells = []
        for _ in range(3):
            body, mus, now = self._loop_body(
                s, gens, env, body_env.fork(), frame, depth, test,
                names + cells, fresh)
            more = self._loop_cells(body, now, cells)
            if not more:
                break
            cells += more
        carried = names + cells + ['$yield']
        kinds = {l.kind for l in out_leaves(body)}
        go = ('fall', 'cont')

        def at(kind):
            return out_node(body, lambda l: TRUE if l.kind in kind else FALSE)
        stop = at(('brk',)) if 'brk' in kinds else FALSE
        left = at(('brk', 'ret', 'raise')) if kinds - set(go) else FALSE
        nexts = {}
        for n in carried:
            nxt = out_node(body, lambda l: l.env.get(n, UNDEF)
                           if l.kind in go else None)
            nexts[mus[n]] = mus[n] if nxt is None else nxt

        def within(gens, halt, *roots):
            """The generators, with the state and exits roots depend on."""
            recs = tuple((m, x) for m, x in system(nexts, halt, *roots))
            if is_const(halt, False) and all(m is x for m, x in recs):
                return gens
            return gens + (N('gen', N('system', recs, halt), (), depth),)
        after = env.fork()
        fx = []
        old = set(env.get('$fx', ()))
        for e in merge_fx(body, ('fall', 'cont', 'brk', 'ret', 'raise')):
            if e not in old:
                fx.append(N('each', within(gens, left, e), e))
        after['$fx'] = env.get('$fx', ()) + tuple(dict.fromkeys(fx))
        # cells of objects that differ from one iteration to the next
        written = {}
        for l in out_leaves(body):
            for k, v in (l.env or {}).items():
                if isinstance(k, tuple) and k[0] == '@' and k not in cells \
                        and now.get(k) is not v:
                    written[k] = True
        for k in written:
            was = now.get(k)
            v = out_node(body, lambda l: None if l.kind == 'raise' else
                         l.env.get(k, was if was is not None
                                   else UNDEF_FOR(k)))
            if v is not None:
                after[k] = N('loopheap', within(gens, left, v), k[2], v)
        for n in carried:
            mu = mus[n]
            nxt = nexts[mu]
            if n == '$yield' and nxt is mu and n not in env:
                after.pop(n, None)
                continue
            init = mu.args[1]
            val = None
            if 'brk' in kinds:
                bv = out_node(body, lambda l: l.env.get(n, UNDEF)
                              if l.kind == 'brk' else None)
                if test is None and not contains(
                        stop, lambda x: x in nexts) and not contains(
                        bv, lambda x: x in nexts):
                    val = mk_ite(mk_any(stop, gens),
                                 N('firstval', bv, stop, gens),
                                 self.closed_form(init, mu, nxt, gens, nexts))
                elif nxt is mu and bv is mu:
                    val = init
                else:
                    val = N('loop', mu, bv, stop, gens,
                            system(nexts, mu, bv, stop))
            else:
                val = self.closed_form(init, mu, nxt, gens, nexts)
            after[n] = val
        # names every iteration binds anew stay visible afterwards
        for n in dead:
            if n in env and n not in bound:
                v = out_node(body, lambda l: l.env.get(n)
                             if l.kind in go + ('brk',) else None)
                v = UNDEF if v is None else v
                after[n] = N('carried', env[n], v, within(gens, stop, v))
        for n in fresh:
            v = out_node(body, lambda l: l.env.get(n)
                         if l.kind in go + ('brk',) else None)
            if v is not None:
                after[n] = N('lastval', v, within(gens, stop, v))
        for n in bound:
            if isinstance(body_env.get(n), Node):
                after[n] = N('lastval', body_env[n],
                             within(gens, stop, body_env[n]))
        after['$loop'] = depth
        rest = Leaf('fall', None, after)
        if s.orelse:
            rest = self.block(s.orelse, after, frame)
            if 'brk' in kinds:
                rest = branch(N('any', with_conds(
                    within(gens, stop, stop), (stop,))),
                    Leaf('fall', None, after.fork()), rest)
        out = rest
        for kind in ('raise', 'ret'):
            if kind not in kinds:
                continue
            c = at((kind,))
            v = out_node(body, lambda l: l.value if l.kind == kind else None)
            if v is None:
                v = NONE
            if kind == 'raise':
                v = exc_class(v)
            e = after.fork()
            g = within(gens, stop, c, v)
            if is_const(v) or (not contains(v, lambda x: x.op in (
                    'elem', 'index', 'mu'))):
                val = v
            else:
                val = N('firstval', v, c, g)
            out = branch(mk_any(c, g), Leaf(kind, val, e), out)
        return out

    def _loop_body(self, s, gens, env, body_env, frame, depth, test, names,
                   fresh):
        mus, used = {}, {}
        for n in names + ['$yield']:
            init = env.get(n)
            if init is None:
                init = N('list') if n == '$yield' else UNDEF_FOR(n)
            used[init.id] = used.get(init.id, -1) + 1
            mus[n] = N('mu', depth, init, used[init.id])
            body_env[n] = mus[n]
        for n in fresh:
            body_env.pop(n, None)
        body_env['$loop'] = depth + len(gens)
        now = body_env.fork()
        cond = TRUE
        if test is not None:
            cond = cond_of(self.ev(test, body_env, frame))
        body = self.block(s.body, body_env.fork(), frame)
        if test is not None and not is_const(cond, True):
            body = branch(cond, body, Leaf('brk', None, body_env.fork()))
        return body, mus, now

    def _loop_cells(self, body, now, known):
        """Cells of lasting objects that the body changes."""
        out = []
        for l in out_leaves(body):
            for k, v in (l.env or {}).items():
                if isinstance(k, tuple) and k[0] == '@' and k not in known \
                        and k not in out and now.get(k) is not v \
                        and not contains(k[1], lambda x: x.op in (
                            'elem', 'index', 'mu', 'new')):
                    out.append(k)
        return sorted(out, key=lambda k: (k[1].id, k[2]))

    def closed_form(self, init, mu, nxt, gens, nexts=None):
        if nxt is mu:
            return init
        nexts = nexts or {mu: nxt}
        # other loop-carried values, unless they never change
        varying = {m for m, x in nexts.items()
                   if m is not mu and x is not m}
        if varying and contains(nxt, lambda x: x in varying):
            return N('loop', mu, mu, FALSE, gens, system(nexts, mu))
        still = {m for m in nexts if m is not mu}
        if still:
            # loops elsewhere that carry values of the same name keep them
            memo = {x.id: x for x in walk(nxt) if binds(x) & still}
            nxt = rebuild(nxt, lambda x: x.args[1] if x in still else x,
                          memo)
        has = lambda n: contains(n, lambda x: x is mu)
        conds, cur = (), nxt
        while cur.op == 'ite':
            c, a, b = cur.args
            if has(c):
                break
            if b is mu:
                conds += (c,)
                cur = a
            elif a is mu:
                conds += (mk_not(c),)
                cur = b
            else:
                break
        g = with_conds(gens, conds)
        # conditional alternatives that both append: append(mu, ite)
        if cur.op == 'ite' and not has(cur.args[0]):
            c, a, b = cur.args
            if a.op == b.op == 'append' and a.args[0] is mu \
                    and b.args[0] is mu:
                cur = N('append', mu, mk_ite(c, a.args[1], b.args[1]))
        if cur.op == 'append' and cur.args[0] is mu and not has(cur.args[1]):
            comp = N('comp', 'list', cur.args[1], g)
            if init.op == 'set' or (init.op == 'call' and init.args[0].op ==
                                    'ref' and init.args[0].args[0] ==
                                    'builtins.set' and not init.args[1]):
                return N('comp', 'set', cur.args[1], g)
            if init.op == 'list' and not init.args:
                return comp
            return N('concat', init, comp)
        if cur.op == 'concat' and cur.args[0] is mu and not has(cur.args[1]):
            inner = cur.args[1]
            if inner.op == 'comp' and inner.args[0] in (
                    'list', 'gen', 'tuple'):
                comp = N('comp', 'list', inner.args[1], g + inner.args[2])
            else:
                d = max([x.args[2] for x in g] + [0]) + 1
                comp = N('comp', 'list', N('elem', inner, d),
                         g + (N('gen', inner, (), d),))
            return comp if init.op == 'list' and not init.args \
                else N('concat', init, comp)
        if cur.op == 'setitem' and cur.args[0] is mu \
                and not has(cur.args[1]) and not has(cur.args[2]):
            comp = N('comp', 'dict', N('tuple', cur.args[1], cur.args[2]), g)
            if init.op == 'dict' and not init.args:
                return comp
            return N('dmerge', init, (comp,), ())
        if cur.op == 'bin' and cur.args[1] is mu and not has(cur.args[2]):
            return N('fold', cur.args[0], init, cur.args[2], g)
        if cur.op == 'bin' and cur.args[2] is mu and not has(cur.args[1]) \
                and cur.args[0] in ('*', '+'):
            return N('fold', cur.args[0], init, cur.args[1], g)
        return N('loop', mu, mu, FALSE, gens, system({mu: nxt}, mu))

    # -- expressions ----------------------------------------------------------------
    def ev(self, e, env, frame):
        m = getattr(self, '_e_' + type(e).__name__, None)
        if m is None:
            self.notes.append(f"untranslated expression {type(e).__name__}")
            return N('opaque', type(e).__name__, getattr(e, 'lineno', 0))
        return m(e, env, frame)

    def _e_Constant(self, e, env, frame):
        if e.value is Ellipsis:
            return N('const', Ellipsis)
        return const(e.value)

    def _e_Name(self, e, env, frame):
        if e.id in env:
            return env[e.id]
        return self.global_name(e.id, frame)

    def global_name(self, name, frame):
        r = self.program.resolve_name(frame.module, name)
        return self.obj(r)

    def obj(self, r):
        if isinstance(r, model.Func):
            return N('fn', self.program.canon(r))
        if isinstance(r, model.Class):
            return N('cls', r.qual)
        if isinstance(r, model.Module):
            return N('mod', r.name)
        c = self.module_const(r)
        return c if c is not None else N('ref', r)

    def module_const(self, name):
        """Value of a small module-level constant that nothing changes."""
        if not name.startswith('goats.'):
            return None
        key = ('global', name)
        if key not in self._memo_attrs:
            self._memo_attrs[key] = None
            mod, _, var = name.rpartition('.')
            m = self.program.modules.get(mod)
            got = m.assigns.get(var, ()) if m is not None else ()
            if len(got) == 1 and pure(self.program, m, got[0].value) \
                    and var not in mutated_names(self.program):
                env = Env()
                env['$fx'] = ()
                self._memo_attrs[key] = self.ev(got[0].value, env,
                                                Frame(m, None, None))
        return self._memo_attrs[key]

    def _e_Attribute(self, e, env, frame):
        base = self.ev(e.value, env, frame)
        return self.getattr(base, e.attr, env, frame)

    def getattr(self, base, name, env, frame):
        key = ('@', base, name)
        if key in env:
            return env[key]
        if name == '__class__' and base.op not in ('mod', 'cls', 'ref',
                                                   'raise', 'ite'):
            return self.apply(N('ref', 'builtins.type'), [base], (), env,
                              frame)
        if base.op == 'mod':
            return self.obj(self.program.resolve_name(
                self.program.modules[base.args[0]], name))
        if base.op == 'ref' and not base.args[0].startswith('goats.'):
            return N('ref', f"{base.args[0]}.{name}")
        if base.op == 'cls':
            cls = self.program.cls(base.args[0])
            f = self.lookup(cls, name, frame)
            if f:
                if f.is_classmethod:
                    return N('bound', base, self.program.canon(f))
                return N('fn', self.program.canon(f))
            c = self.class_const(cls, name)
            return c if c is not None else mk_attr(base, name)
        if base.op == 'ite' and not raises(base) and len(
                spine(base)) <= 12:
            a = self.getattr(base.args[1], name, env, frame)
            b = self.getattr(base.args[2], name, env, frame)
            return mk_ite(base.args[0], a, b)
        if base.op == 'super':
            recv, after = base.args
            cls = self.program.cls(recv.args[0]) if recv.op in (
                'self', 'cls', 'new') else None
            aft = self.program.cls(after)
            f = cls and self.lookup(cls, name, frame, after=aft)
            if f:
                if f.is_property:
                    return self.expand(f, recv, (), (), env, frame)
                return N('bound', recv, self.program.canon(f))
            return mk_attr(base, name)
        if name == '__class__':
            if base.op in ('self', 'new'):
                return N('cls', base.args[0])
        cls = self.type_of(base)
        if cls is not None:
            f = self.lookup(cls, name, frame)
            if f is not None:
                if f.is_property:
                    if self.expandable(f, frame):
                        return self.expand(f, base, (), (), env, frame)
                    return mk_attr(base, name)
                q = self.program.canon(f)
                if f.is_static:
                    return N('fn', q)
                if f.is_classmethod:
                    return N('bound', N('cls', cls.qual), q)
                return N('bound', base, q)
            if base.op == 'new' and self.expand_new:
                v = self.init_attr(base, name)
                if v is not None:
                    return v
            if self.cold and base.op == 'self' and self.is_memo(cls, name):
                return NONE
            c = self.class_const(cls, name)
            if c is not None:
                return c
        return mk_attr(base, name)

    def class_const(self, cls, name):
        """The literal bound in the class body, if nothing rebinds it."""
        key = ('const', cls.qual, name)
        if key not in self._memo_attrs:
            self._memo_attrs[key] = self._class_const(cls, name)
        return self._memo_attrs[key]

    def _class_const(self, cls, name):
        cls = self.program.canon_cls(cls)
        found = None
        for c in self.program.mro(cls):
            if isinstance(c, model.Class) and name in c.attrs:
                found = c
                break
            if isinstance(c, model.Class) and name in c.methods:
                return None
        if found is None or found.attrs[name] is None:
            return None
        node = found.attrs[name]
        if not pure(self.program, found.module, node) \
                or name in stored_names(self.program) \
                or name in mutated_names(self.program):
            return None
        if any(name in c.attrs for c in self.program.subclasses(cls)
               if c is not found):
            return None
        env = Env()
        env['$fx'] = ()
        return self.ev(node, env, Frame(found.module, None, None))

    # -- object construction -----------------------------------------------------
    def init_attr(self, new, name):
        key = (new.id, name)
        if key in self._init:
            return self._init[key]
        self._init[key] = None
        cls = self.program.cls(new.args[0])
        f = self.program.method(cls, '__init__')
        if f is None or new.args[1] and new.args[1][0] == '?':
            return None
        args = {k: v for k, v in new.args[1]}
        frame = Frame(f.module, f.cls, f, 1, (f.qual,))
        env = Env()
        env['$fx'] = ()
        self._params(f, env, frame, args, cls)
        me = f.params[0]
        env[me] = N('self', cls.qual)
        for p, d in _defaults(f.node.args):
            if p not in args:
                env[p] = self.ev(d, Env(), frame) if d is not None else NONE
        out = self.block(f.node.body, env, frame)
        fin = merge(out, ('fall', 'ret'))
        v = None
        if fin is not None:
            v = fin.get(('@', N('self', cls.qual), name))
        if v is not None and contains(v, lambda x: x.op == 'self'):
            v = None
        self._init[key] = v
        return v

    def is_memo(self, cls, name):
        """True if the slot is None in __init__ and otherwise filled lazily."""
        if not name.startswith('_'):
            return False
        key = (cls.qual, name)
        if key in self._memo_attrs:
            return self._memo_attrs[key]
        stores = []
        for c in self.program.mro(cls):
            if not isinstance(c, model.Class):
                continue
            for f in {id(f): f for f in c.methods.values()}.values():
                if not f.params:
                    continue
                me = f.params[0]
                for n in ast.walk(f.node):
                    for t, val in _attr_stores(n):
                        if t.attr == name and isinstance(t.value, ast.Name) \
                                and t.value.id == me:
                            stores.append((f, val))
        init = [1 for f, v in stores if f.name == '__init__'
                and isinstance(v, ast.Constant) and v.value is None]
        other_init = [1 for f, v in stores if f.name == '__init__'
                      and not (isinstance(v, ast.Constant)
                               and v.value is None)]
        guarded = all(f.name == '__init__' or _none_guarded(f, name)
                      or (isinstance(v, ast.Constant) and v.value is None)
                      for f, v in stores)
        ok = bool(init) and not other_init and guarded
        self._memo_attrs[key] = ok
        return ok

    # -- calls ------------------------------------------------------------------
    def _args(self, call, env, frame):
        args = []
        for a in call.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, frame)
                if v.op in ('tuple', 'list') and not any(
                        x.op == 'star' for x in v.args):
                    args.extend(v.args)
                elif method_of(v)[1] == 'indices' and len(v.args[1]) == 1:
                    args.extend(self.item(v, i) for i in range(3))
                else:
                    args.append(N('star', v))
            else:
                args.append(self.ev(a, env, frame))
        kw = []
        for k in call.keywords:
            v = self.ev(k.value, env, frame)
            if k.arg is None:
                if v.op == 'dict' and all(
                        kk.op == 'const' for kk, _ in v.args):
                    kw.extend((kk.args[0], vv) for kk, vv in v.args)
                else:
                    kw.append(('**', v))
            else:
                kw.append((k.arg, v))
        return args, tuple(sorted(kw, key=lambda p: p[0]))

    def _e_Call(self, e, env, frame):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' \
                and 'super' not in env:
            cls = frame.cls
            recv = None
            if frame.func is not None and frame.func.params:
                f = frame.func
                while f.parent is not None:
                    f = f.parent
                recv = env.get(f.params[0])
            if cls is not None and recv is not None and recv.op in (
                    'self', 'cls', 'new'):
                return N('super', recv, self.program.canon_cls(cls).qual)
            return N('call', N('ref', 'builtins.super'), (), ())
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
                'pop', 'setdefault', 'popitem') and isinstance(
                    e.func.value, (ast.Name, ast.Attribute, ast.Subscript)):
            # a value and a change at once
            cur = self.ev(e.func.value, env, frame)
            f = self.getattr(cur, e.func.attr, env, frame)
            if f.op == 'attr' and cur.op not in ('mod', 'ref', 'cls'):
                args, kw = self._args(e, env, frame)
                r = N('call', f, tuple(args), kw)
                self._mutator(e, env, frame)
                return r
        f = self.ev(e.func, env, frame)
        args, kw = self._args(e, env, frame)
        vals = [f] + args + [v for _, v in kw]
        if not any(map(raises, vals)):
            self.back = None
            r = self.apply(f, args, kw, env, frame)
            back, self.back = self.back, None
            if back and back[2] and f.op in ('fn', 'bound') \
                    and f.args[-1] == back[1] and not any(
                        isinstance(a, ast.Starred) for a in e.args):
                # containers that the callee changes in place
                passed = list(zip(back[0], e.args)) + [
                    (k.arg, k.value) for k in e.keywords]
                for n, a in passed:
                    if n in back[2] and isinstance(a, ast.Name) \
                            and a.id in env:
                        env[a.id] = back[2][n]
            return r

        def act(vals):
            n = 1 + len(args)
            return self.apply(vals[0], vals[1:n], tuple(
                (k, v) for (k, _), v in zip(kw, vals[n:])), env, frame)
        n = len(env.get('$fx', ()))
        r = strict(vals, act)
        fx = env.get('$fx', ())
        if len(fx) > n:
            # the callee runs only if every operand has a value
            ok = TRUE
            for v in vals:
                if raises(v):
                    ok = mk_ite(defined(v), ok, FALSE)
            env['$fx'] = fx[:n] + tuple(
                when(((ok, True),), x) if bare(x).op == 'call' else x
                for x in fx[n:])
        return r

    def apply(self, f, args, kw, env, frame):
        args = list(args)
        if f.op == 'raise':
            return f
        if f.op == 'ite':
            lv = leaves(f) if len(spine(f)) <= 6 else ()
            if lv and len(lv) <= 4 and all(x.op in (
                    'fn', 'bound', 'closure', 'cls', 'ref', 'raise', 'attr')
                                    for _, x in lv):
                def go(n, env):
                    if n.op == 'ite':
                        return self.either(
                            n.args[0], lambda x: go(n.args[1], x),
                            lambda x: go(n.args[2], x), env)
                    return self.apply(n, args, kw, env, frame)
                return go(f, env)
        if f.op == 'closure':
            c = self.closures.get(f.id)
            if c is not None and frame.depth < self.maxdepth:
                return self._call_closure(c, args, kw, env, frame)
        if f.op == 'fn':
            func = self.find(f.args[0], frame)
            if func is not None:
                if func.cls is not None and not func.is_static:
                    # unbound method: first argument is the receiver
                    if args and args[0].op != 'star':
                        return self.method_call(func, args[0], args[1:], kw,
                                                env, frame)
                elif self.expandable(func, frame):
                    return self.expand(func, None, args, kw, env, frame)
                else:
                    known = self.literal_call(func, args, kw, env, frame)
                    if known is not None:
                        return known
                    return N('call', f, *self.bind(func, args, kw, False))
        if f.op == 'bound':
            func = self.find(f.args[1], frame)
            if func is not None:
                return self.method_call(func, f.args[0], args, kw, env,
                                        frame)
        if f.op == 'cls':
            return self.construct(f, args, kw, env, frame)
        if f.op == 'ref':
            v = self.external(f.args[0], args, kw, env, frame)
            if v is not None:
                return v
        if f.op == 'attr':
            v = self.ext_method(f.args[0], f.args[1], args, kw, env, frame)
            if v is not None:
                return v
        return N('call', f, tuple(args), kw)

    def literal_call(self, func, args, kw, env, frame):
        """The value of a function of constants, if it is a constant."""
        given = list(args) + [v for _, v in kw]
        if not given or not all(x.op == 'const' for x in given) or \
                self.program.canon(func) in frame.stack or \
                frame.depth >= self.maxdepth:
            return None
        keep, self.keep = self.keep, lambda f: True
        try:
            v = self.expand(func, None, args, kw, env.fork(), frame)
        finally:
            self.keep = keep
        return v if v.op == 'const' else None

    def find(self, qual, frame=None):
        try:
            f = self.program.func(qual)
        except model.AnalysisError:
            return None
        if frame is not None and frame.module.spec and not f.module.spec:
            return self.program.spec_of(f) or f
        return f

    def lookup(self, cls, name, frame, after=None):
        """Method lookup; reference code sees reference definitions."""
        if frame is None or not frame.module.spec:
            return self.program.method(cls, name, after=after)
        mro = self.program.mro(cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if not isinstance(c, model.Class):
                continue
            m = self.program.specmods.get(c.module.name)
            s = m and m.classes.get(c.name)
            if s and name in s.methods:
                return s.methods[name]
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return None
        return None

    def expandable(self, func, frame):
        if not self.inline or self.keep(func):
            return False
        if self.program.canon(func) in frame.stack or frame.depth >= self.maxdepth:
            return False
        names = func.decorator_names()
        bad = [n for n in names if n and n not in (
            'property', 'staticmethod', 'classmethod')
            and not n.endswith('cached_property')
            and not n.endswith('lru_cache') and not n.endswith('register')
            and not n.endswith('abstractmethod')]
        if bad:
            return False
        if any(n.endswith('abstractmethod') for n in names):
            return False
        return True

    def method_call(self, func, recv, args, kw, env, frame):
        if self.expandable(func, frame):
            return self.expand(func, recv, args, kw, env, frame)
        pos, named = self.bind(func, args, kw, True)
        return N('call', N('bound', recv, self.program.canon(func)), pos,
                 named)

    def bind(self, func, args, kw, method):
        """Normalise call arguments by parameter name (kept calls)."""
        if any(a.op == 'star' for a in args) or any(k == '**' for k, _ in kw):
            return tuple(args), kw
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if method and not func.is_static and names:
            names = names[1:]
        if len(args) > len(names):
            return tuple(args), kw
        out = list(zip(names, args)) + list(kw)
        return (), tuple(sorted(out, key=lambda p: p[0]))

    def expand(self, func, recv, args, kw, env, frame):
        """Translate the callee in place."""
        bound = self.bind_env(func, recv, args, kw, env, frame)
        if bound is None:
            q = self.program.canon(func)
            f = N('bound', recv, q) if recv is not None else N('fn', q)
            return N('call', f, tuple(args), kw)
        self.expanded.add(func.qual)
        sub = Frame(func.module, func.cls, func, frame.depth + 1,
                    frame.stack + (self.program.canon(func),))
        names = func.params
        if recv is not None and not func.is_static:
            names = names[1:]
        given = {n: bound.get(n) for n in names}
        r = self._run(func.node, bound, env, sub)
        fin, self.final = self.final, None
        if fin is not None and not _is_generator(func.node):
            kept = [n for n in names if not rebinds(func.node, n)]
            self.back = (names, self.program.canon(func), {
                n: fin[n] for n in kept if n in fin
                and given[n] is not None and fin[n] is not given[n]})
        return r

    def _run(self, node, bound, env, sub):
        for k, v in env.items():
            if isinstance(k, tuple) and k[0] == '@':
                bound.setdefault(k, v)
        bound['$fx'] = env.get('$fx', ())
        bound['$loop'] = env.get('$loop', 0)
        out = self.block(self._body(node), bound, sub)
        if _is_generator(node):
            fin = merge(out, ('ret', 'fall'))
            if fin is None:
                return self.value(out)
            v = fin.get('$yield', N('list'))
            if v.op == 'append':
                v = self.mutate(v.args[0], 'append', [v.args[1]])
        else:
            v = self.value(out)
        n = len(env.get('$fx', ()))
        fin = self._last_words(out, merge(out, ('ret', 'fall')), n)
        if fin is not None:
            for k, x in fin.items():
                if isinstance(k, tuple) and k[0] == '@':
                    env[k] = x
            fx = fin.get('$fx', env.get('$fx', ()))
            env['$fx'] = fx[:n] + tuple(x for x in fx[n:] if outlives(x))
        self.final = fin
        return v

    def _call_closure(self, c, args, kw, env, frame):
        node = c.node
        bound = Env({k: v for k, v in c.env.items()
                     if isinstance(k, str) and not k.startswith('$')})
        b = self.bind_args(node.args, args, kw, c.frame, None)
        if b is None:
            return N('call', N('opaque', 'closure', node.lineno),
                     tuple(args), kw)
        bound.update(b)
        sub = Frame(c.frame.module, c.frame.cls, c.frame.func,
                    frame.depth + 1, frame.stack)
        return self._run(node, bound, env, sub)

    def bind_env(self, func, recv, args, kw, env, frame):
        sub = Frame(func.module, func.cls, func)
        args = list(args)
        if recv is not None and not func.is_static:
            args = [recv] + args
        b = self.bind_args(func.node.args, args, kw, sub, func)
        if b is None:
            return None
        return Env(b)

    def bind_args(self, a, args, kw, frame, func):
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        rest = []
        args = list(args)
        stars = [i for i, x in enumerate(args) if x.op == 'star']
        if stars:
            if stars[0] >= len(names) and a.vararg:
                pass
            elif a.vararg and stars[0] == len(names):
                pass
            else:
                # spread an unknown-length argument over the parameters
                i = stars[0]
                src = args[i].args[0]
                if i != len(args) - 1:
                    return None
                fill = []
                taken = {k for k, _ in kw}
                need = [n for n in names[i:] if n not in taken]
                ndef = len(a.defaults)
                if a.vararg or ndef:
                    return None
                for j, _ in enumerate(need):
                    fill.append(self.item(src, j))
                args = args[:i] + fill
        for i, x in enumerate(args):
            if i < len(names):
                out[names[i]] = x
            else:
                rest.append(x)
        if rest and not a.vararg:
            return None
        if a.vararg:
            if len(rest) == 1 and rest[0].op == 'star':
                out[a.vararg.arg] = rest[0].args[0]
            else:
                out[a.vararg.arg] = N('tuple', *rest)
        extra = []
        known = set(names) | {p.arg for p in a.kwonlyargs}
        for k, v in kw:
            if k == '**':
                if a.kwarg is None:
                    if v.op == 'dict':
                        return None
                    # unknown mapping spread over named parameters
                    missing = [n for n in known if n not in out]
                    for n in missing:
                        out.setdefault(n, N('kwget', v, n))
                    continue
                extra.append(N('dstar', v))
                continue
            if k in known:
                out[k] = v
            else:
                extra.append((const(k), v))
        if a.kwarg:
            if len(extra) == 1 and isinstance(extra[0], Node):
                out[a.kwarg.arg] = extra[0].args[0]
            else:
                out[a.kwarg.arg] = N('dict', *[
                    x if isinstance(x, tuple) else (N('dstar'), x.args[0])
                    for x in extra])
        elif extra:
            return None
        for p, d in _defaults(a):
            if p not in out:
                if d is None:
                    return None
                out[p] = self.ev(d, Env(), frame)
        return out

    def construct(self, f, args, kw, env, frame):
        cls = self.program.cls(f.args[0])
        init = self.program.method(cls, '__init__')
        if any(a.op == 'star' for a in args) or any(k == '**' for k, _ in kw):
            return N('new', cls.qual, ('?',) + tuple(args) + tuple(kw))
        if init is None:
            new = self.program.method(cls, '__new__')
            if new is not None:
                a = new.node.args
                names = [p.arg for p in a.posonlyargs + a.args][1:]
                if len(args) <= len(names):
                    items = list(zip(names, args)) + list(kw)
                    return N('new', cls.qual, tuple(sorted(items)))
                return N('new', cls.qual, ('?',) + tuple(args) + tuple(kw))
            fields = [s.target.id for s in cls.node.body
                      if isinstance(s, ast.AnnAssign)
                      and isinstance(s.target, ast.Name)]
            if fields and len(args) <= len(fields):
                items = list(zip(fields, args)) + list(kw)
                return N('new', cls.qual, tuple(sorted(items)))
            return N('new', cls.qual, ('?',) + tuple(args) + tuple(kw))
        a = init.node.args
        names = [p.arg for p in a.posonlyargs + a.args][1:]
        items = list(zip(names, args)) + list(kw)
        if len(args) > len(names):
            if not a.vararg:
                return N('new', cls.qual, ('?',) + tuple(args))
            items.append(('*' + a.vararg.arg,
                          N('tuple', *args[len(names):])))
        return N('new', cls.qual, tuple(sorted(items, key=lambda p: p[0])))

    # -- library knowledge -----------------------------------------------------
    def external(self, name, args, kw, env, frame):
        kwd = dict(kw)
        if name in ITERATE and args:
            args[:] = [self.iterated(a, env, frame) for a in args]
        if name == 'builtins.len' and len(args) == 1:
            cls = self.type_of(args[0])
            f = self.lookup(cls, '__len__', frame) if cls else None
            if f is not None and self.expandable(f, frame):
                return self.expand(f, args[0], [], (), env, frame)
        if args and args[0] is NONE and not kw:
            if name == 'builtins.isinstance' and len(args) == 2 and all(
                    t.op == 'cls' or t.op == 'ref' and t.args[0] not in (
                        'builtins.object', 'types.NoneType')
                    and not t.args[0].startswith('goats.')
                    and t.args[0] not in ABSTRACT
                    for t in (args[1].args if args[1].op == 'tuple'
                              else (args[1],))):
                return FALSE
            if name == 'builtins.getattr' and len(args) == 3 and is_const(
                    args[1]) and not hasattr(None, str(args[1].args[0])):
                return args[2]
        if name == 'builtins.slice' and 1 <= len(args) <= 3 and not kw \
                and not any(a.op == 'star' for a in args):
            if len(args) == 1:
                args = [NONE] + args
            return N('slice', *(args + [NONE] * (3 - len(args))))
        if name == 'builtins.list' and len(args) == 1 and not kw and \
                args[0].op == 'enter' and method_of(
                    args[0].args[0])[1] == 'open':
            # a file yields its lines
            return N('call', mk_attr(args[0], 'readlines'), (), ())
        if name == 'builtins.tuple' and len(args) == 1 and not kw and \
                args[0].op == 'param' and args[0].args[0].startswith('*') \
                and not args[0].args[0].startswith('**'):
            return args[0]
        if name in EXTBIN and len(args) == 2 and not kw:
            return mk_bin(EXTBIN[name], *args)
        if name in EXTCMP and len(args) == 2 and not kw:
            return mk_cmp(EXTCMP[name], *args)
        if name in ('numpy.sqrt', 'math.sqrt') and len(args) == 1:
            return mk_bin('**', args[0], const(0.5))
        if name == 'numpy.square' and len(args) == 1:
            return mk_bin('**', args[0], const(2))
        if name in ('numpy.negative', 'operator.neg') and len(args) == 1:
            return N('un', '-', args[0])
        if name == 'operator.pos' and len(args) == 1:
            return N('un', '+', args[0])
        if name == 'operator.not_' and len(args) == 1:
            return mk_not(args[0])
        if name in ('numpy.abs', 'numpy.absolute') and len(args) == 1 \
                and not kw:
            return N('call', N('ref', 'numpy.abs'), tuple(args), ())
        if name == 'numpy.reciprocal' and len(args) == 1:
            return mk_bin('/', const(1), args[0])
        if name == 'builtins.type' and len(args) == 1:
            if args[0].op in ('self', 'new'):
                return N('cls', args[0].args[0])
            t = self.type_of(args[0])
            if t is not None and args[0].op == 'self':
                return N('cls', t.qual)
            return N('call', N('ref', name), tuple(args), ())
        if name == 're.compile' and 1 <= len(args) <= 2 and not kw \
                and args[0].op == 'const':
            tree = regex(args[0].args[0], args[1:])
            if tree is not None:
                return N('call', N('ref', name), (const(tree),), ())
        if name == 'builtins.getattr' and len(args) >= 2 \
                and is_const(args[1]) and isinstance(args[1].args[0], str):
            if len(args) == 2:
                return self.getattr(args[0], args[1].args[0], env, frame)
        if name == 'builtins.getattr' and len(args) == 2 and chosen(args[1]):
            return mk_ite(args[1].args[0], *[self.external(
                name, [args[0], x], kw, env, frame)
                for x in args[1].args[1:]])
        if name == 'builtins.setattr' and len(args) == 3 \
                and is_const(args[1]):
            env[('@', args[0], args[1].args[0])] = args[2]
            env['$fx'] = env.get('$fx', ()) + (
                N('setattr', args[0], args[1].args[0], args[2]),)
            return NONE
        if name in ('builtins.any', 'builtins.all') and len(args) == 1:
            a = args[0]
            lit = self.finite(a)
            if lit is not None:
                r = FALSE if name.endswith('any') else TRUE
                for x in reversed(lit):
                    r = mk_ite(cond_of(x), TRUE, r) if name.endswith('any') \
                        else mk_ite(cond_of(x), r, FALSE)
                return r
            if a.op == 'comp':
                gens, elt = a.args[2], cond_of(a.args[1])
            else:
                elt, gens, _ = self.over(a, env, frame)
            if name.endswith('any'):
                return mk_any(elt, gens)
            return mk_not(mk_any(mk_not(elt), gens))
        if name == 'builtins.next' and args and args[0].op == 'comp' \
                and args[0].args[0] == 'gen':
            comp = args[0]
            dflt = args[1] if len(args) > 1 else N(
                'raise', N('ref', 'builtins.StopIteration'))
            return mk_ite(mk_any(TRUE, comp.args[2]),
                          mk_firstval(comp.args[1], comp.args[2]), dflt)
        if name == 'builtins.sum' and args and args[0].op == 'comp' \
                and args[0].args[0] in ('list', 'gen', 'tuple'):
            init = args[1] if len(args) > 1 else const(0)
            return N('fold', '+', init, args[0].args[1], args[0].args[2])
        if name == 'builtins.sum' and args and args[0].op in (
                'list', 'tuple') and not any(
                x.op == 'star' for x in args[0].args):
            r = args[1] if len(args) > 1 else const(0)
            for x in args[0].args:
                r = x if is_const(r, 0) else mk_bin('+', r, x)
            return r
        if name in ('math.prod', 'numpy.prod') and args \
                and args[0].op == 'comp' and args[0].args[0] in (
                    'list', 'gen', 'tuple'):
            return N('fold', '*', const(1), args[0].args[1], args[0].args[2])
        if name in ('builtins.list', 'builtins.tuple', 'builtins.set',
                    'builtins.frozenset', 'builtins.dict'):
            kind = name.split('.')[1]
            if not args and not kw:
                return N({'frozenset': 'set'}.get(kind, kind))
            if kind == 'dict' and not args:
                if all(k != '**' for k, _ in kw):
                    return N('dict', *[(const(k), v) for k, v in kw])
            if len(args) == 1 and not kw:
                a = args[0]
                k = {'frozenset': 'set'}.get(kind, kind)
                if kind != 'dict' and a.op in ('list', 'tuple'):
                    return N(k, *a.args)
                if a.op == 'comp' and a.args[0] in ('gen', 'list', 'tuple'):
                    if k == 'dict':
                        if a.args[1].op != 'tuple':
                            return None
                    return N('comp', k, a.args[1], a.args[2])
                if kind == 'dict' and a.op in ('dict',):
                    return a
                if kind == 'dict' and a.op in ('list', 'tuple') and all(
                        x.op in ('tuple', 'list') and len(x.args) == 2
                        and x.args[0].op == 'const' for x in a.args):
                    r = N('dict')
                    for x in a.args:
                        r = mk_setitem(r, *x.args)
                    return r
        if name == 'functools.reduce' and len(args) == 3 and not kw:
            x, gens, inner = self.over(args[1], env, frame)
            mu = N('mu', env.get('$loop', 0), args[2], 0)
            nxt = self.apply(args[0], [mu, x], (), inner, frame)
            return self.closed_form(args[2], mu, nxt, gens)
        if name == 'builtins.map' and len(args) == 2:
            x, gens, inner = self.over(args[1], env, frame)
            y = self.apply(args[0], [x], (), inner, frame)
            return N('comp', 'gen', y, gens)
        if name == 'builtins.filter' and len(args) == 2:
            x, gens, inner = self.over(args[1], env, frame)
            c = x if is_const(args[0], None) else self.apply(
                args[0], [x], (), inner, frame)
            return N('comp', 'gen', x, with_conds(gens, (cond_of(c),)))
        if name == 'itertools.filterfalse' and len(args) == 2:
            x, gens, inner = self.over(args[1], env, frame)
            c = self.apply(args[0], [x], (), inner, frame)
            return N('comp', 'gen', x, with_conds(
                gens, (mk_not(cond_of(c)),)))
        if name == 'itertools.chain' and args and not kw:
            if not any(a.op == 'star' for a in args):
                return N('list', *[N('star', a) for a in args])
        if name == 'dict.fromkeys' or name == 'builtins.dict.fromkeys':
            d = env.get('$loop', 0)
            it = args[0]
            return N('comp', 'dict', N(
                'tuple', N('elem', it, d),
                args[1] if len(args) > 1 else NONE), (N('gen', it, (), d),))
        if name == 'typing.cast' and len(args) == 2:
            return args[1]
        return None

    def over(self, it, env, frame):
        """(element, generators, environment) of one pass over it."""
        inner = env.fork()
        d = env.get('$loop', 0)
        gens = self.gens_bind(ast.Name(id='$x', ctx=ast.Store()), it, inner,
                              frame, d)
        inner['$loop'] = d + len(gens)
        return inner.pop('$x'), gens, inner

    def ext_method(self, base, name, args, kw, env, frame):
        if name == 'format' and chosen(base):
            return mk_ite(base.args[0], *[self.apply(
                mk_attr(x, name), args, kw, env, frame)
                for x in base.args[1:]])
        if name == 'format' and base.op == 'const' and isinstance(
                base.args[0], str):
            return self.format(base.args[0], args, kw)
        if name in ('argmin', 'argmax', 'squeeze', 'sum', 'mean') \
                and not args and not kw and base.op == 'call' \
                and base.args[0].op == 'ref' \
                and base.args[0].args[0].startswith('numpy.'):
            return self.apply(N('ref', 'numpy.' + name), [base], (), env,
                              frame)
        if name == 'copy' and not args and not kw:
            if base.op in ('list', 'dict', 'comp', 'tuple'):
                return base
        if name == 'get' and base.op == 'dict' and args \
                and args[0].op == 'const':
            for k, v in base.args:
                if k is args[0]:
                    return v
            if all(k.op == 'const' for k, _ in base.args):
                return args[1] if len(args) > 1 else NONE
        return None

    # -- other expressions ------------------------------------------------------
    def _e_BinOp(self, e, env, frame):
        a = self.ev(e.left, env, frame)
        b = self.ev(e.right, env, frame)
        if isinstance(e.op, ast.Mod) and a.op == 'const' and isinstance(
                a.args[0], str):
            v = self.percent(a.args[0], b)
            if v is not None:
                return v
        return mk_bin(BINOPS[type(e.op)], a, b)

    def _e_UnaryOp(self, e, env, frame):
        v = self.ev(e.operand, env, frame)
        if isinstance(e.op, ast.Not):
            return mk_not(cond_of(v))
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        if num(v) and op in '+-':
            return const(-v.args[0] if op == '-' else +v.args[0])
        return N('un', op, v)

    def _e_BoolOp(self, e, env, frame):
        return self._bool(isinstance(e.op, ast.And), e.values, env, frame)

    def _bool(self, conj, values, env, frame):
        v = self.ev(values[0], env, frame)
        if len(values) == 1:
            return v
        c = cond_of(v)
        t = truth(c)
        if t is not None and t is not conj:
            return v
        if t is not None:
            return self._bool(conj, values[1:], env, frame)

        def rest(env):
            return self._bool(conj, values[1:], env, frame)
        if conj:
            return self.either(c, rest, lambda _: FALSE if boolean(c) else v,
                               env)
        return self.either(c, lambda _: TRUE if boolean(c) else v, rest, env)

    def either(self, c, yes, no, env):
        """Evaluate one of two expressions: each has its own effects."""
        ea, eb = env.fork(), env.fork()
        a, b = yes(ea), no(eb)
        if a.op == 'raise' or b.op == 'raise':
            env.clear()
            env.update(eb if a.op == 'raise' else ea)
            return mk_ite(c, a, b)
        for k in ea.keys() | eb.keys():
            if ea.get(k) is not eb.get(k):
                break
        else:
            env.update(ea)
            return mk_ite(c, a, b)
        out = merge(branch(c, Leaf('fall', None, ea), Leaf('fall', None, eb)),
                    ('fall',))
        env.clear()
        env.update(out)
        return mk_ite(c, a, b)

    def _e_Compare(self, e, env, frame):
        left = self.ev(e.left, env, frame)
        out = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env, frame)
            r = None
            if isinstance(op, (ast.In, ast.NotIn)):
                r = self.contains(right, left, env, frame)
                if r is not None and isinstance(op, ast.NotIn):
                    r = mk_not(r)
            if r is None:
                r = mk_cmp(CMPOPS[type(op)], left, right)
            out = r if out is None else mk_ite(out, r, FALSE)
            left = right
        return out

    def contains(self, box, x, env, frame):
        cls = self.type_of(box) if box.op != 'cls' else None
        f = self.lookup(cls, '__contains__', frame) if cls is not None \
            else None
        if f is None or not self.expandable(f, frame):
            return None
        v = self.expand(f, box, [x], (), env, frame)
        return None if raises(v) else cond_of(v)

    def _e_IfExp(self, e, env, frame):
        c = cond_of(self.ev(e.test, env, frame))
        t = truth(c)
        if t is not None:
            return self.ev(e.body if t else e.orelse, env, frame)
        return self.either(c, lambda x: self.ev(e.body, x, frame),
                           lambda x: self.ev(e.orelse, x, frame), env)

    def _e_NamedExpr(self, e, env, frame):
        v = self.ev(e.value, env, frame)
        env[e.target.id] = v
        return v

    def _e_Tuple(self, e, env, frame):
        return self._seq('tuple', e, env, frame)

    def _e_List(self, e, env, frame):
        return self._seq('list', e, env, frame)

    def _e_Set(self, e, env, frame):
        return self._seq('set', e, env, frame)

    def _seq(self, kind, e, env, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, frame)
                if v.op in ('tuple', 'list') and not any(
                        y.op == 'star' for y in v.args):
                    out.extend(v.args)
                else:
                    out.append(N('star', v))
            else:
                out.append(self.ev(x, env, frame))
        if len(out) == 1 and out[0].op == 'star':
            return self.apply(N('ref', 'builtins.' + kind),
                              [out[0].args[0]], (), env, frame)
        return N(kind, *out)

    def _e_Dict(self, e, env, frame):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, frame)
            if k is None:
                if vv.op == 'dict':
                    items.extend(vv.args)
                else:
                    items.append((N('dstar'), vv))
            else:
                items.append((self.ev(k, env, frame), vv))
        return N('dict', *items)

    def _e_Subscript(self, e, env, frame):
        base = self.ev(e.value, env, frame)
        idx = self.ev(e.slice, env, frame)
        if raises(base) or raises(idx):
            return strict([base, idx], lambda v: self.subscript(
                *v, env, frame))
        return self.subscript(base, idx, env, frame)

    def subscript(self, base, idx, env, frame):
        if base.op == 'raise':
            return base
        got = partition(base, idx)
        if got is not None:
            return got
        if base.op == 'setitem' and base.args[1] is idx:
            return base.args[2]
        if base.op in ('tuple', 'list') and is_const(idx) \
                and isinstance(idx.args[0], int) \
                and not any(x.op == 'star' for x in base.args):
            try:
                return base.args[idx.args[0]]
            except IndexError:
                pass
        if base.op == 'dict' and idx.op == 'const':
            for k, v in reversed(base.args):
                if k is idx:
                    return v
                if k.op != 'const':
                    break
        if base.op == 'dict' and chosen(idx):
            return mk_ite(idx.args[0],
                          self.subscript(base, idx.args[1], env, frame),
                          self.subscript(base, idx.args[2], env, frame))
        if base.op == 'ite' and len(spine(base)) <= 12:
            return mk_ite(base.args[0],
                          self.subscript(base.args[1], idx, env, frame),
                          self.subscript(base.args[2], idx, env, frame))
        cls = self.type_of(base)
        if cls is not None and base.op != 'cls':
            f = self.lookup(cls, '__getitem__', frame)
            if f is not None and self.expandable(f, frame):
                return self.expand(f, base, [idx], (), env, frame)
        return N('sub', base, idx)

    def _e_Slice(self, e, env, frame):
        return N('slice', *[self.ev(x, env, frame) if x is not None else NONE
                            for x in (e.lower, e.upper, e.step)])

    def _e_Index(self, e, env, frame):
        return self.ev(e.value, env, frame)

    def _e_Starred(self, e, env, frame):
        return N('star', self.ev(e.value, env, frame))

    def _e_JoinedStr(self, e, env, frame):
        xs = [None if isinstance(v, ast.Constant)
              else self.ev(v.value, env, frame) for v in e.values]
        return self._joined(e, xs, env, frame)

    def _joined(self, e, xs, env, frame):
        for i, x in enumerate(xs):
            if x is not None and chosen(x):
                return mk_ite(x.args[0], *[self._joined(
                    e, xs[:i] + [y] + xs[i + 1:], env, frame)
                    for y in x.args[1:]])
        parts = []
        for v, x in zip(e.values, xs):
            if x is None:
                parts.append(const(v.value))
            elif v.format_spec is not None:
                parts.append(N('fmt', x, v.conversion,
                               self.ev(v.format_spec, env, frame)))
            else:
                parts.append(N('fmt', x, v.conversion))
        return text(parts)

    def format(self, template, args, kw):
        """str.format with a literal template, or None."""
        given, parts, auto = dict(kw), [], 0
        if any(x.op == 'star' for x in args) or None in given or any(
                k.startswith('*') for k in given):
            return None
        try:
            fields = list(string.Formatter().parse(template))
        except ValueError:
            return None
        for lit, name, spec, conv in fields:
            parts.append(const(lit))
            if name is None:
                continue
            if spec or conv not in (None, 's', 'r'):
                return None
            if name == '':
                name, auto = str(auto), auto + 1
            if name.isdigit() and int(name) < len(args):
                x = args[int(name)]
            elif name in given:
                x = given[name]
            else:
                return None
            parts.append(N('fmt', x, 114 if conv == 'r' else -1))
        return text(parts)

    def percent(self, template, arg):
        """The % operator with a literal template, or None."""
        args = list(arg.args) if arg.op == 'tuple' else [arg]
        bits = re.split('%([sr%])', template)
        if any('%' in x for x in bits[::2]) or any(
                x.op == 'star' for x in args):
            return None
        if arg.op != 'tuple' and arg.op not in ('const', 'fstr'):
            return None         # may be a tuple
        parts = [const(bits[0])]
        for how, lit in zip(bits[1::2], bits[2::2]):
            if how == '%':
                parts.append(const('%'))
            elif not args:
                return None
            else:
                parts.append(N('fmt', args.pop(0), 114 if how == 'r'
                               else -1))
            parts.append(const(lit))
        return text(parts) if not args else None

    def _e_FormattedValue(self, e, env, frame):
        return N('fmt', self.ev(e.value, env, frame), e.conversion)

    def _e_Lambda(self, e, env, frame):
        return self.closure(e, env, frame)

    def _e_Await(self, e, env, frame):
        return self.ev(e.value, env, frame)

    def _e_Yield(self, e, env, frame):
        return N('opaque', 'yield', e.lineno)

    _e_YieldFrom = _e_Yield

    def _comp(self, e, kind, env, frame):
        inner = env.fork()
        gens = ()
        depth = inner.get('$loop', 0)
        for i, g in enumerate(e.generators):
            it = self.ev(g.iter, inner, frame)
            if i == 0 and len(e.generators) == 1 and not g.ifs:
                lit = self.finite(it)
                if lit is not None and len(lit) <= 6:
                    return self._comp_literal(e, kind, lit, g, inner, frame)
            new = self.gens_bind(g.target, it, inner, frame, depth)
            depth = max([x.args[2] for x in new] + [depth]) + 1
            inner['$loop'] = depth
            conds = tuple(cond_of(self.ev(c, inner, frame)) for c in g.ifs)
            new = with_conds(new, conds)
            gens += new
        if kind == 'dict':
            elt = N('tuple', self.ev(e.key, inner, frame),
                    self.ev(e.value, inner, frame))
        else:
            elt = self.ev(e.elt, inner, frame)
        names = {x.id for g in e.generators for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)} | {'$loop'}
        if any(env.get(k) is not v for k, v in inner.items()
               if k not in names):
            r = self._comp_loop(e, kind, env, frame, names)
            if r is not None:
                return r
        for k, v in inner.items():
            if isinstance(k, tuple) and k[0] == '@' and k not in env:
                env[k] = v
        # walrus targets leak into the enclosing scope
        return N('comp', kind, elt, gens)

    def _comp_loop(self, e, kind, env, frame, names):
        """A comprehension whose turns change something, as a loop."""
        acc = f'.acc{e.lineno}'
        load = ast.Name(acc, ast.Load())

        def add(name, *args):
            return ast.Expr(ast.Call(ast.Attribute(load, name, ast.Load()),
                                     list(args), []))
        if kind == 'dict':
            body = ast.Assign([ast.Subscript(load, e.key, ast.Store())],
                              e.value)
        elif kind == 'set':
            body = add('add', e.elt)
        else:
            body = add('append', e.elt)
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            body = ast.For(g.target, g.iter, [body], [])
        ast.copy_location(body, e)
        ast.fix_missing_locations(body)
        run = env.fork()
        run[acc] = N({'dict': 'dict', 'set': 'set'}.get(kind, 'list'))
        out = self.block([body], run, frame)
        fin = merge(out, ('fall',))
        if fin is None:
            return None

        def leaf(l):
            return N('raise', l.value) if l.kind == 'raise' else l.env[acc]
        v = out_node(out, leaf)
        for k, x in fin.items():
            if k not in names and k != acc:
                env[k] = x
        return v

    def _comp_literal(self, e, kind, lit, g, inner, frame):
        out = []
        for x in lit:
            self._store(g.target, x, inner, frame)
            if kind == 'dict':
                out.append((self.ev(e.key, inner, frame),
                            self.ev(e.value, inner, frame)))
            else:
                out.append(self.ev(e.elt, inner, frame))
        return N({'gen': 'list'}.get(kind, kind), *out)

    def _e_ListComp(self, e, env, frame):
        return self._comp(e, 'list', env, frame)

    def _e_SetComp(self, e, env, frame):
        return self._comp(e, 'set', env, frame)

    def _e_GeneratorExp(self, e, env, frame):
        return self._comp(e, 'gen', env, frame)

    def _e_DictComp(self, e, env, frame):
        return self._comp(e, 'dict', env, frame)


# -- helpers ----------------------------------------------------------------
def with_conds(gens, conds):
    if not conds:
        return gens
    flat = []
    for c in conds:
        flat.extend(conjuncts(c))
    last = gens[-1]
    have = last.args[1]
    new = tuple(dict.fromkeys(have + tuple(flat)))
    return gens[:-1] + (N('gen', last.args[0], new, last.args[2]),)


def system(nexts, *roots):
    """The recurrences of the loop-carried values roots depend on."""
    out, todo = {}, list(roots)
    while todo:
        r = todo.pop()
        for x in walk(r):
            if x.op == 'mu' and x in nexts and x not in out:
                out[x] = nexts[x]
                todo.append(nexts[x])
    return tuple(sorted(out.items(), key=lambda p: p[0].id))


def catches(program, types, exc):
    """Does a handler for types catch this exception? True/False/None."""
    if types.op in ('tuple', 'list'):
        got = [catches(program, t, exc) for t in types.args]
        return True if True in got else None if None in got else False
    if exc.op in ('call', 'new'):
        exc = exc.args[0] if isinstance(exc.args[0], Node) else N(
            'cls', exc.args[0])
    if exc.op not in ('ref', 'cls') or types.op not in ('ref', 'cls'):
        return None
    a, b = str(exc.args[0]), str(types.args[0])
    if a == b or b in ('builtins.Exception', 'builtins.BaseException'):
        return True
    names = [a]
    if exc.op == 'cls' or a.startswith('goats.'):
        try:
            names = [c.qual if isinstance(c, model.Class) else str(c)
                     for c in program.mro(program.cls(a))]
        except model.AnalysisError:
            return None
    if b in names:
        return True
    if not b.startswith('builtins.'):
        return False if b.startswith('goats.') else None
    sup = getattr(builtins, b[9:], None)
    for n in names:
        sub = getattr(builtins, n.split('.')[-1], None)
        if isinstance(sub, type) and isinstance(sup, type) and issubclass(
                sub, BaseException) and issubclass(sub, sup):
            return True
    return False


ITERATE = {'builtins.' + x for x in (
    'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'min', 'max',
    'enumerate', 'zip', 'iter', 'any', 'all', 'map', 'filter')}
LOOKUPS = {'builtins.KeyError', 'builtins.IndexError',
           'builtins.LookupError'}


def rebinds(node, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(
        x.ctx, (ast.Store, ast.Del)) for x in ast.walk(node))


def copies(n):
    """Collecting the members of an object that was looked up."""
    return n.op == 'call' and n.args[0].op == 'ref' and n.args[0].args[0] in (
        'builtins.dict', 'builtins.list', 'builtins.tuple', 'builtins.set',
        'builtins.frozenset') and len(n.args[1]) == 1 and not n.args[2] \
        and n.args[1][0].op == 'sub'


def rooted(n):
    """A lookup in a global table."""
    while n.op == 'sub':
        n = n.args[0]
    return n.op in ('ref', 'dict', 'const')


def probe(n):
    """A call made only to see whether it raises."""
    return n.op == 'call' and n.args[0].op == 'ref' and n.args[0].args[0] in (
        'builtins.iter', 'builtins.len', 'builtins.hash')


def outlives(e):
    """The effect reaches an object that outlives the call."""
    while e.op in ('each', 'when'):
        e = e.args[1]
    if e.op == 'call':
        return True
    if e.op not in ('mutate', 'setattr'):
        return False
    n = e.args[0]
    if n.op == 'param' and str(n.args[0]).startswith('**'):
        return False
    while n.op in ('attr', 'sub', 'elem', 'items', 'values'):
        n = n.args[0]
    return n.op in ('self', 'param', 'cparam', 'ref', 'cls', 'fn')


def killed(stmts):
    """Names every iteration assigns before reading them."""
    dead, live = set(), set()
    for s in stmts:
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name)
                                             for t in s.targets):
            live |= {n.id for n in ast.walk(s.value)
                     if isinstance(n, ast.Name)} - dead
            dead |= {t.id for t in s.targets} - live
        else:
            live |= {n.id for n in ast.walk(s)
                     if isinstance(n, ast.Name)} - dead
    return dead


def conjuncts(c):
    if c.op == 'ite' and is_const(c.args[2], False):
        return conjuncts(c.args[0]) + conjuncts(c.args[1])
    if c.op == 'ite' and is_const(c.args[1], False):
        return conjuncts(mk_not(c.args[0])) + conjuncts(c.args[2])
    return [c]


def shift(comp, by):
    """The comprehension with its loop depths moved."""
    if not by:
        return comp
    low = min(g.args[2] for g in comp.args[2])

    def move(n):
        if n.op in ('elem', 'gen', 'index') and n.args[-1] >= low:
            return N(n.op, *n.args[:-1], n.args[-1] + by)
        if n.op == 'mu' and n.args[0] >= low:
            return N('mu', n.args[0] + by, *n.args[1:])
        return n
    return rebuild(comp, move)


def elem_of(gen):
    return N('elem', gen.args[0], gen.args[2])


def binds(n):
    """Loop-carried values a term binds itself."""
    out = set()
    if n.op == 'loop':
        out |= {m for m, _ in n.args[4]}
    for a in n.args:
        if isinstance(a, tuple):
            for g in a:
                if isinstance(g, Node) and g.op == 'gen' and \
                        g.args[0].op == 'system':
                    out |= {m for m, _ in g.args[0].args[0]}
    return out


def subst(n, old, new):
    return rebuild(n, lambda x: new if x is old else x)


def mk_any(c, gens):
    g = with_conds(gens, () if is_const(c, True) else (c,))
    return N('any', g)


def exc_class(v):
    """An exception without its arguments (messages do not matter)."""
    if v.op == 'call' and v.args[0].op == 'ref':
        return v.args[0]
    if v.op == 'new' and isinstance(v.args[0], str):
        return N('ref', v.args[0])
    return v


def mk_firstval(v, gens):
    return N('firstval', v, TRUE, gens)


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(
            ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(
            ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


def _defaults(a):
    names = [p.arg for p in a.posonlyargs + a.args]
    pad = [None] * (len(names) - len(a.defaults))
    for n, d in zip(names, pad + list(a.defaults)):
        yield n, d
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        yield p.arg, d


def _free(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    return any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in model.own_nodes(node))


def _assigned(stmts):
    """Local names a statement list may rebind or mutate."""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in Graph.MUT:
                b = n.func.value
                while isinstance(b, (ast.Subscript,)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                # called for its effects, maybe on what it is given
                out |= {a.id for a in n.value.args + [
                    k.value for k in n.value.keywords]
                    if isinstance(a, ast.Name)}
    return out


def assigned_order(stmts, name):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name:
                return (n.lineno, n.col_offset)
    return (10**9, 0)


def regex(pattern, flags):
    """Canonical text of a constant regular expression."""
    bits = 0
    for f in flags:
        if f.op != 'ref' or f.args[0] not in ('re.VERBOSE', 're.X'):
            return None
        bits = re.VERBOSE
    try:
        return str(re._parser.parse(pattern, bits))
    except (re.error, TypeError):
        return None


def immutable(v):
    if isinstance(v, tuple):
        return all(immutable(x) for x in v)
    return v is None or isinstance(v, (str, int, float, bool))


def constant(v):
    if isinstance(v, tuple):
        return N('tuple', *[constant(x) for x in v])
    return const(v)


_STORED = {}
_MUTATED = {}
MUTATORS = {'append', 'update', 'add', 'extend', 'insert', 'remove', 'pop',
            'popitem', 'clear', 'discard', 'setdefault', 'sort', 'reverse',
            'register'}
MAKERS = {'re.compile', 'builtins.frozenset', 'builtins.set',
          'builtins.tuple', 'builtins.dict', 'builtins.list',
          'operator.attrgetter', 'operator.itemgetter'}


def pure(program, module, node, seen=()):
    """A small literal built from literals, types and functions."""
    nodes = list(ast.walk(node))
    if len(nodes) > 160:
        return False
    for n in nodes:
        if isinstance(n, (ast.Constant, ast.Tuple, ast.List, ast.Set,
                          ast.Dict, ast.UnaryOp, ast.BinOp, ast.JoinedStr,
                          ast.FormattedValue, ast.expr_context, ast.operator,
                          ast.unaryop, ast.keyword)):
            continue
        if isinstance(n, ast.Call):
            if program.resolve_expr(module, n.func) not in MAKERS:
                return False
        elif isinstance(n, (ast.Name, ast.Attribute)):
            r = program.resolve_expr(module, n)
            if isinstance(r, (model.Func, model.Class, model.Module)):
                continue
            if not isinstance(r, str) or r.startswith('?'):
                return False
            if r.startswith('goats.'):
                mod, _, var = r.rpartition('.')
                m = program.modules.get(mod)
                got = m.assigns.get(var, ()) if m is not None else ()
                if r in seen or len(got) != 1 or not pure(
                        program, m, got[0].value, seen + (r,)):
                    return False
        else:
            return False
    return True


def attr_kind(program, qual, name):
    """Builtin container a class always initialises an attribute with."""
    key = (id(program), qual, name)
    if key not in _KINDS:
        kinds = set()
        try:
            cls = program.cls(qual)
        except model.AnalysisError:
            cls = None
        for c in program.mro(cls) if cls is not None else ():
            if not isinstance(c, model.Class):
                continue
            if name in c.methods:
                kinds.add(None)
            f = c.methods.get('__init__')
            for n in ast.walk(f.node) if f is not None else ():
                for t, val in _attr_stores(n):
                    if t.attr == name and isinstance(t.value, ast.Name) \
                            and t.value.id == f.params[0]:
                        if isinstance(val, ast.Call) and isinstance(
                                val.func, ast.Attribute) and \
                                val.func.attr == 'copy' and isinstance(
                                    val.func.value, ast.Attribute) and \
                                val.func.value.attr != name and ast.dump(
                                    val.func.value.value) == ast.dump(
                                        t.value).replace('Store', 'Load'):
                            kinds.add(attr_kind(program, qual,
                                                val.func.value.attr))
                            continue
                        kinds.add(_container(val))
        _KINDS[key] = (program, kinds.pop() if len(kinds) == 1 else None)
    return _KINDS[key][1]


def _container(e):
    if isinstance(e, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(e, (ast.Set, ast.SetComp)):
        return 'set'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
            and e.func.id in ('list', 'dict', 'set', 'sorted', 'tuple'):
        return {'sorted': 'list'}.get(e.func.id, e.func.id)
    if isinstance(e, ast.IfExp):
        a = _container(e.body)
        return a if a == _container(e.orelse) else None
    return None


_KINDS = {}


def mutated_names(program):
    """Names of containers that something in the program changes."""
    got = _MUTATED.get(id(program))
    if got is None:
        names = set()

        def add(n):
            while isinstance(n, ast.Subscript):
                n = n.value
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Attribute):
                names.add(n.attr)
        for m in program.modules.values():
            if m.spec:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    add(n)
                elif isinstance(n, ast.AugAssign):
                    add(n.target)
                elif isinstance(n, ast.Global):
                    names.update(n.names)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    add(n.func.value)
        got = _MUTATED[id(program)] = (program, names)
    return got[1]


def stored_names(program):
    """Attribute names assigned on objects anywhere in the program."""
    got = _STORED.get(id(program))
    if got is None:
        names = set()
        for m in program.modules.values():
            if m.spec:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    names.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'setattr':
                    for a in n.args[1:2]:
                        names.add(a.value if isinstance(a, ast.Constant)
                                  else '*')
        got = _STORED[id(program)] = (program, names)
    return got[1]


def _attr_stores(n):
    """(attribute target, value) pairs stored by a statement node."""
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                yield t, n.value
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    if isinstance(e, ast.Attribute):
                        yield e, None
    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
        yield n.target, n.value
    elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
        yield n.target, None


def _none_guarded(func, attr):
    """The function tests `self.attr is None` (or truthiness) before filling."""
    me = func.params[0]
    for n in ast.walk(func.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) \
                and n.left.attr == attr and isinstance(n.left.value, ast.Name)\
                and n.left.value.id == me and isinstance(
                    n.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(n.comparators[0], ast.Constant) \
                and n.comparators[0].value is None:
            return True
        if isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            if isinstance(t, ast.Attribute) and t.attr == attr:
                return True
    return False
