"""Equivalence of gated value graphs by random interpretation.

Every term is mapped into the prime field GF(2^61-1): atoms and uninterpreted
operators by hashing (congruence), arithmetic exactly.  Containers whose
elements are known keep them; an unknown iterable is empty or has a few
generic elements.  Atomic conditions are mapped to truth values, kept
consistent by a small theory (identity, class hierarchy, distinct constants,
membership).  Two graphs that agree at many points denote the same value on
every input, up to hash collisions and the number of generic elements; two
graphs that differ at a consistent point denote different terms.  Nothing of
the analysed program is executed.
"""

import itertools
import os
import zlib
from fractions import Fraction

from . import model, vg

P = (1 << 61) - 1
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TURNS = 5           # iterations of a `while` loop that are looked at


def mix(*parts):
    h = 0x9E3779B97F4A7C15
    for p in parts:
        if isinstance(p, str):
            b = p.encode()
            p = (zlib.crc32(b) << 32) ^ zlib.adler32(b) ^ (len(b) << 20)
        elif isinstance(p, tuple):
            p = mix(*p) + 7
        elif p is None:
            p = 11
        elif isinstance(p, bool):
            p = 13 + p
        h ^= (p + 0x7F4A7C15 + (h << 6) + (h >> 2)) & ((1 << 64) - 1)
        h = (h * 0xBF58476D1CE4E5B9) & ((1 << 64) - 1)
        h ^= h >> 27
        h = (h * 0x94D049BB133111EB) & ((1 << 64) - 1)
        h ^= h >> 31
    return h % P


def number(v):
    if isinstance(v, Fraction):
        f = v
    else:
        f = Fraction(repr(v)) if isinstance(v, float) and v == v and abs(
            v) != float('inf') else (
                Fraction(v) if isinstance(v, int) else None)
    if f is None:
        return mix('float', repr(v))
    return f.numerator % P * pow(f.denominator % P, P - 2, P) % P


NIL = mix('nil')
NONE = mix('const', 'None')
BOOL = {b: mix('const', repr(b)) for b in (True, False)}
GONE = mix('gone')


MADE = {'builtins.' + x for x in (
    'float', 'int', 'str', 'bool', 'complex', 'repr')}


class Raised(Exception):
    """Evaluation reached an exception the program raises."""

    def __init__(self, value, name='?'):
        super().__init__()
        self.value = value
        self.name = name
        self.slip = False       # an index out of range, not a raise statement


class Unbounded(Exception):
    """A loop does not end within the iterations that are looked at."""


BUILTIN_UP = {
    'str': {'Iterable', 'Sequence', 'Collection', 'Sized', 'Container',
            'Hashable'},
    'list': {'Iterable', 'Sequence', 'Collection', 'Sized', 'Container',
             'MutableSequence'},
    'tuple': {'Iterable', 'Sequence', 'Collection', 'Sized', 'Container'},
    'dict': {'Iterable', 'Mapping', 'MutableMapping', 'Collection', 'Sized',
             'Container'},
    'set': {'Iterable', 'Collection', 'Sized', 'Container', 'Set'},
    'int': {'Number', 'Real', 'Integral', 'Rational', 'Complex',
            'SupportsFloat', 'SupportsInt'},
    'float': {'Number', 'Real', 'Complex', 'SupportsFloat'},
    'bool': {'int', 'Number', 'Real', 'Integral'},
    'Integral': {'Number', 'Real', 'Complex', 'Rational'},
    'Real': {'Number', 'Complex'},
    'Sequence': {'Iterable', 'Collection', 'Sized', 'Container'},
    'MutableSequence': {'Iterable', 'Sequence', 'Sized'},
    'Mapping': {'Iterable', 'Collection', 'Sized', 'Container'},
    'MutableMapping': {'Mapping', 'Iterable', 'Collection', 'Sized'},
    'Set': {'Iterable', 'Collection', 'Sized', 'Container'},
    'Collection': {'Iterable', 'Sized', 'Container'},
    'Iterator': {'Iterable'},
    'ndarray': {'Iterable', 'Sized', 'Container'},
    'slice': set(), 'range': {'Iterable', 'Sequence', 'Sized'},
}
# mutually exclusive concrete groups
GROUP = {'str': 's', 'bytes': 'b', 'list': 'l', 'tuple': 't', 'dict': 'd',
         'Mapping': 'd', 'MutableMapping': 'd', 'set': 'S', 'Set': 'S',
         'int': 'n', 'float': 'n', 'Number': 'n', 'Real': 'n',
         'Integral': 'n', 'complex': 'n', 'slice': 'sl', 'ndarray': 'a',
         'ellipsis': 'e', 'range': 'r'}

BINDERS = ('comp', 'fold', 'firstval', 'lastval', 'carried', 'loop', 'any',
           'loopheap', 'effect', 'each')
_FREE = {}


def frees(n):
    """Loop positions and loop-carried values a term depends on."""
    got = _FREE.get(n.id)
    if got is not None:
        return got
    out = set()
    if n.op == 'mu':
        out.add(('m', n.id))
    else:
        if n.op in ('elem', 'index'):
            out.add(('d', n.args[-1]))
        for c in vg.children(n):
            out.update(frees(c))
        recs = ()
        if n.op == 'system':
            recs = n.args[0]
        elif n.op == 'loop':
            recs = n.args[4]
        for m, _ in recs:
            out.update(frees(m.args[1]))
        if n.op in BINDERS:
            for g in binders(n):
                out.discard(('d', g.args[2]))
                if g.args[0].op == 'system':
                    out -= {('m', m.id) for m, _ in g.args[0].args[0]}
            out -= {('m', m.id) for m, _ in recs}
    got = _FREE[n.id] = tuple(sorted(out))
    return got


def binders(n):
    for a in n.args:
        if isinstance(a, tuple):
            for g in a:
                if isinstance(g, vg.Node) and g.op == 'gen':
                    yield g


class Point:
    """One consistent random interpretation."""

    def __init__(self, program, index, seed=SEED, atoms=None, exc='class',
                 script=(), alias=None, unordered=False):
        self.program = program
        self.unordered = unordered
        self.index = index
        self.seed = mix('point', seed, index)
        self.bias = (0.5, 0.15, 0.85, 0.35, 0.65, 0.08)[index % 6]
        self.val = {}
        self.env = {}           # loop positions and loop-carried values
        self.st = {}            # token -> (kind, items)
        self.num = {}           # token -> known number
        self.numt = set()       # tokens of unknown numbers
        self.consts = {}        # token -> constant
        self.texts = {}         # token -> parts of a text
        self.els = {}           # token -> elements
        self.opq = set()        # tokens with generic elements
        self.origin = {}        # element token -> (container, position)
        self.base = {}          # token -> what it is a copy of
        self.facts = {}
        self.isa = {}       # subject token -> {class name: bool}
        self.eqc = {}       # subject token -> constant it equals
        self.eqs = {}       # subject token -> token it equals
        self.none = {}      # subject token -> is None
        self.made = set()
        self.optional = set()
        self.strings = set()
        self.numbers = set()   # values of built-in types
        self.spelt = {}     # token of str(x) -> token of x
        self.got = set()    # values found by `mapping.get(key)`
        self.atoms = atoms
        self.exc = exc
        self.script = script
        self.alias = alias or {}
        self.asked = []         # (key, outcome) in order
        self.cur = None         # condition being decided
        self.decided = {}       # where a coin was used -> outcome
        self.hints = {}
        self.work = 0

    # -- atoms -----------------------------------------------------------
    def coin(self, *key, tag=None, p=None):
        k = mix(*key)
        where = (self.cur, key[0], tag, tuple(
            v for (t, _), v in self.env.items() if t == 'd'))
        t = self.facts.get(k)
        if t is None:
            i = len(self.asked)
            if where in self.hints:
                t = self.hints[where]
            elif i < len(self.script):
                t = self.script[i]
            else:
                t = mix(self.seed, 'coin', k) / P < (
                    self.bias if p is None else p)
            self.facts[k] = t
            self.asked.append((k, t))
        self.decided[where] = t
        return t

    def doubtful(self):
        """The case supposes an entry that cannot be told from no entry.

        Code that asks a mapping for an entry without naming a default takes
        it that no entry is None or empty; two programs that differ only there
        are not told apart.
        """
        return any(self.none.get(v) or self.facts.get(
            mix('truth', v)) is False for v in self.got)

    def undefined(self, ref):
        """The reference runs off the end of a sequence.

        It takes it that the element is there; what happens when it is not is
        nothing it says anything about.
        """
        if ref.op != 'outcome':
            return False
        try:
            self.ev(ref.args[0])
        except Raised as err:
            return err.slip
        return False

    def fresh(self, *key):
        return mix(self.seed, *key)

    # -- values ----------------------------------------------------------
    def ev(self, n):
        key = n.id
        f = frees(n)
        if f:
            get = self.env.get
            key = (n.id,) + tuple([get(k) for k in f])
        v = self.val.get(key)
        if v is None:
            self.work += 1
            if self.work > 60000:
                raise Unbounded()
            try:
                v = self._ev(n)
            except Raised as err:
                self.val[key] = err
                raise
            if self.alias:
                v = self.alias.get(v, v)
            self.val[key] = v
        elif isinstance(v, Raised):
            raise v
        return v

    def equalities(self):
        """Value -> the value this point assumes it equals."""
        out = dict(self.alias)
        out.update(self.eqs)
        out.update(self.eqc)
        out.update((v, NONE) for v, t in self.none.items() if t)
        for k in list(out):
            v, n = out[k], 0
            while v in out and n < 20:
                v, n = out[v], n + 1
            out[k] = v
        return {k: v for k, v in out.items() if k != v}

    def part(self, a):
        if isinstance(a, vg.Node):
            return self.ev(a)
        if isinstance(a, tuple):
            return mix('t', *[self.part(x) for x in a])
        if isinstance(a, (str, int)) and not isinstance(a, bool):
            return mix('k', a)
        return mix('r', repr(a))

    def _ev(self, n):
        if self.atoms is not None:
            got = self.atoms(n)
            if isinstance(got, vg.Node):
                return self.ev(got)
            if got is not None:
                return self.fresh('atom', got)
        m = getattr(self, '_o_' + n.op, None)
        if m is not None:
            r = m(n)
            if r is not None:
                return r
        return mix('op', n.op, *[self.part(a) for a in n.args])

    def const(self, v):
        if isinstance(v, bool) or v is None:
            t = mix('const', repr(v))
        elif isinstance(v, (int, float)):
            t = number(v)
            if v == v and abs(v) != float('inf'):
                self.num[t] = Fraction(repr(v))
            self.numt.add(t)
        else:
            t = mix('const', type(v).__name__, repr(v))
        self.consts[t] = v
        return t

    def integer(self, k):
        return self.const(k)

    def known(self, f):
        t = number(f)
        self.num[t] = f
        self.numt.add(t)
        if f.denominator == 1:
            self.consts.setdefault(t, f.numerator)
        return t

    def _o_const(self, n):
        return self.const(n.args[0])

    def _o_param(self, n):
        t = self.fresh('param', n.args[0])
        if n.args[0].startswith('**'):
            self.isa.setdefault(t, {})['builtins.dict'] = True
            self.none[t] = False
        elif n.args[0].startswith('*'):
            self.isa.setdefault(t, {})['builtins.tuple'] = True
            self.none[t] = False
        return t

    def _o_self(self, n):
        return self.fresh('self')

    def _o_cls(self, n):
        return mix('cls', n.args[0])

    def _o_elem(self, n):
        base = self.iterable(n.args[0])
        els = self.elements(base)
        i = self.env.get(('d', n.args[1]), 0)
        if i < len(els):
            return els[i]
        return mix('elem?', base, i)

    def iterable(self, n):
        """What a loop runs over: comparisons of arrays are arrays."""
        if n.op == 'not' and n.args[0].op == 'cmp':
            return mix('mask', 'not', self.iterable(n.args[0]))
        if n.op == 'cmp' and n.args[0] in ('<', '<=', '=='):
            return mix('mask', n.args[0], *[self.ev(x) for x in n.args[1:]])
        return self.ev(n)

    def _o_index(self, n):
        return self.integer(self.env.get(('d', n.args[-1]), 0))

    def _o_mu(self, n):
        t = self.env.get(('m', n.id))
        if t is None:
            return mix('mu', self.ev(n.args[1]), n.args[2])
        return t

    # -- containers ---------------------------------------------------------
    def make(self, kind, items):
        if kind == 'set':
            items = sorted(self.distinct(items))
        items = tuple(items)
        t = mix('S', kind, items)
        self.st[t] = (kind, items)
        return t

    def distinct(self, items):
        out = []
        for x in items:
            if not any([self.same(x, y, tag=('set', i))
                        for i, y in enumerate(out)]):
                out.append(x)
        return out

    def mapping(self, pairs):
        """Dict with these pairs, later ones winning."""
        out = []
        for k, v in pairs:
            for i, (q, _) in enumerate(out):
                if self.same(k, q, tag=('key', i)):
                    out[i] = (q, v)
                    break
            else:
                out.append((k, v))
        return self.make('dict', out)

    def elements(self, t, node=None):
        """Elements of an iterable; unknown ones have up to three."""
        got = self.els.get(t)
        if got is not None:
            return got
        s = self.st.get(t)
        if s is not None:
            kind, items = s
            if kind == 'dict':
                got = tuple(k for k, _ in items)
            elif kind == 'over':
                got = self.over_keys(*items)
            else:
                got = items
        elif t in self.base:
            got = self.elements(self.base[t])
        elif t in self.consts:
            v = self.consts[t]
            if v is None:
                self.fail('TypeError')
            got = tuple(self.const(c) for c in v) if isinstance(
                v, (str, tuple)) else ()
        else:
            n = 0
            self.opq.add(t)
            if self.filled(t):
                n = 1
                while n < 3 and self.coin('more', t, n, tag=n, p=(
                        0.7 if n == 1 else 0.2)):
                    n += 1
            got = tuple(mix('elem', t, i) for i in range(n))
            if self.alias:
                got = tuple(self.alias.get(x, x) for x in got)
            for i, x in enumerate(got):
                self.origin.setdefault(x, (t, i))
        self.els[t] = got
        return got

    def filled(self, t):
        """An unknown value is true (not empty, not zero, not None)."""
        if self.none.get(t):
            return False
        if t in self.optional and t in self.none:
            return True
        if t in self.strings:
            return not self.same(t, self.const(''))
        r = self.coin('truth', t)
        if r:
            self.none.setdefault(t, False)
        return r

    def over_keys(self, base, changes):
        keys = list(self.elements(base))
        for k, v in changes:
            at = [i for i, q in enumerate(keys) if self.same(
                k, q, tag=('over', i))]
            if v == GONE:
                keys = [q for i, q in enumerate(keys) if i not in at]
            elif not at:
                keys.append(k)
        return tuple(keys)

    def change(self, t, k, v):
        """The mapping or sequence t after t[k] = v (GONE: after del)."""
        s = self.st.get(t)
        if s is None:
            return self.make('over', (t, ((k, v),)))
        kind, items = s
        if kind == 'dict':
            out = list(items)
            for i, (q, _) in enumerate(items):
                if self.same(k, q, tag=('key', i)):
                    if v == GONE:
                        del out[i]
                    else:
                        out[i] = (q, v)
                    return self.make('dict', out)
            if v == GONE:
                self.fail('KeyError')
            return self.make('dict', out + [(k, v)])
        if kind == 'over':
            base, changes = items
            new = [(q, w) for i, (q, w) in enumerate(changes)
                   if not self.same(k, q, tag=('key', i))]
            return self.make('over', (base, tuple(sorted(
                new + [(k, v)]))))
        i = self.position(k, len(items))
        if kind == 'list' and i is not None:
            out = list(items)
            if v == GONE:
                del out[i]
            else:
                out[i] = v
            return self.make('list', out)
        return mix('change', t, k, v)

    def position(self, k, n):
        f = self.num.get(k)
        if f is None or f.denominator != 1:
            return None
        i = int(f)
        if i < 0:
            i += n
        if 0 <= i < n:
            return i
        return None

    def fail(self, name):
        err = Raised(mix('raise') if self.exc == 'any' else
                     mix('raise', name), name)
        err.slip = name == 'IndexError'
        raise err

    def lookup(self, t, k):
        s = self.st.get(t)
        if s is None:
            if t in self.base:
                return self.lookup(self.base[t], k)
            if k in self.num and not isinstance(self.consts.get(k), bool):
                els = self.elements(t)
                i = self.position(k, len(els))
                if i is not None:
                    return els[i]
            if k in self.consts and isinstance(self.consts.get(t), str) \
                    and isinstance(self.consts[k], int):
                self.fail('IndexError')
            return mix('op', 'sub', t, k)
        kind, items = s
        if kind == 'dict':
            for i, (q, v) in enumerate(items):
                if self.same(k, q, tag=('key', i)):
                    return v
            self.fail('KeyError')
        if kind == 'over':
            for i, (q, v) in reversed(list(enumerate(items[1]))):
                if self.same(k, q, tag=('key', i)):
                    if v == GONE:
                        self.fail('KeyError')
                    return v
            return self.lookup(items[0], k)
        if k in self.num:
            i = self.position(k, len(items))
            if i is None:
                self.fail('IndexError')
            return items[i]
        return mix('op', 'sub', t, k)

    def pairs(self, t, node=None):
        """(key, value) pairs of what dict() or update() is given."""
        s = self.st.get(t)
        if s is not None and s[0] == 'dict':
            return list(s[1])
        one, two = self.integer(0), self.integer(1)
        if s is not None and s[0] != 'over' or (
                node is not None and paired(node)):
            return [(self.lookup(e, one), self.lookup(e, two))
                    for e in self.elements(t)]
        return [(k, self.lookup(t, k)) for k in self.elements(t)]

    def seq(self, args):
        """Element tokens of a display or argument list."""
        out = []
        for a in args:
            if a.op == 'star':
                out.extend(self.elements(self.ev(a.args[0])))
            else:
                out.append(self.ev(a))
        return out

    def _o_list(self, n):
        return self.make('list', self.seq(n.args))

    def _o_tuple(self, n):
        return self.make('tuple', self.seq(n.args))

    def _o_set(self, n):
        return self.make('set', self.seq(n.args))

    def _o_dict(self, n):
        out = []
        for k, v in n.args:
            if k.op == 'dstar':
                out.extend(self.pairs(self.ev(v), v))
            else:
                out.append((self.ev(k), self.ev(v)))
        return self.mapping(out)

    def _o_comp(self, n):
        kind, elt, gens = n.args
        out = []
        if kind == 'dict':
            one, two = self.integer(0), self.integer(1)

            def each():
                if elt.op == 'tuple' and len(elt.args) == 2:
                    out.append((self.ev(elt.args[0]), self.ev(elt.args[1])))
                else:
                    e = self.ev(elt)
                    out.append((self.lookup(e, one), self.lookup(e, two)))
            self.run(gens, each)
            return self.mapping(out)
        self.run(gens, lambda: out.append(self.ev(elt)))
        return self.make({'gen': 'list'}.get(kind, kind), out)

    def _o_append(self, n):
        t, v = self.ev(n.args[0]), self.ev(n.args[1])
        return self.make(self.kind(t), self.elements(t) + (v,))

    def kind(self, t):
        s = self.st.get(t)
        return 'set' if s is not None and s[0] == 'set' else 'list'

    def _o_concat(self, n):
        t, u = self.ev(n.args[0]), self.ev(n.args[1])
        return self.make(self.kind(t), self.elements(t) + self.elements(u))

    def _o_setitem(self, n):
        return self.change(*[self.ev(a) for a in n.args])

    def _o_dmerge(self, n):
        cur, args, kw = n.args
        t = self.ev(cur)
        if self.kind(t) == 'set':
            return self.make('set', self.elements(t) + tuple(
                e for a in args for e in self.elements(self.ev(a))))
        if t not in self.st and t not in self.consts:
            # the entries are known once something is merged into them
            t = self.mapping(self.pairs(t, cur))
        for a in args:
            for k, v in self.pairs(self.ev(a), a):
                t = self.change(t, k, v)
        for k, v in kw:
            if k == '**':
                for q, w in self.pairs(self.ev(v), v):
                    t = self.change(t, q, w)
            else:
                t = self.change(t, self.const(k), self.ev(v))
        return t

    def _o_mut(self, n):
        name, cur, args = n.args[0], n.args[1], n.args[2]
        t = self.ev(cur)
        xs = [self.ev(a) for a in args]
        kind = self.st.get(t, ('?',))[0]
        if name == 'clear':
            return self.make('dict' if kind == 'dict' else self.kind(t), ())
        if name in ('remove', 'discard') and len(xs) == 1:
            els = self.elements(t)
            for i, e in enumerate(els):
                if self.same(xs[0], e, tag=('el', i)):
                    return self.make(self.kind(t), els[:i] + els[i + 1:])
            if name == 'remove':
                self.fail('KeyError' if kind == 'set' else 'ValueError')
            return t
        if name == 'insert' and len(xs) == 2:
            els = list(self.elements(t))
            f = self.num.get(xs[0])
            if f is not None:
                els.insert(int(f), xs[1])
                return self.make('list', els)
        if name == 'reverse':
            return self.make('list', self.elements(t)[::-1])
        if name == 'sort' and not xs:
            kw = dict(n.args[3]) if len(n.args) > 3 else {}
            return self.make('list', self.ordered(self.elements(t), kw))
        if name == 'pop' and not xs:
            els = self.elements(t)
            return self.make('list', els[:-1])
        if name in ('pop', 'del') and xs:
            if kind in ('dict', 'over', '?') and not (
                    kind == '?' and xs[0] in self.num):
                if not self.inside(xs[0], t):
                    if len(xs) > 1:
                        return t
                    self.fail('KeyError')
                return self.change(t, xs[0], GONE)
            els = self.elements(t)
            i = self.position(xs[0], len(els))
            if i is not None:
                return self.make('list', els[:i] + els[i + 1:])
        if name == 'setdefault' and xs:
            if self.inside(xs[0], t):
                return t
            return self.change(t, xs[0], xs[1] if len(xs) > 1 else NONE)
        return None

    def _o_rest(self, n):
        els = self.elements(self.ev(n.args[0]))
        i = n.args[1]
        j = n.args[2] if len(n.args) > 2 else 0
        return self.make('list', els[i:len(els) - j])

    # -- loops ---------------------------------------------------------------
    def run(self, gens, fn):
        """Call fn at every iteration of a nest, until it returns True."""
        env = self.env
        try:
            return self._segment(gens, fn) is True
        finally:
            self.env = env

    def _segment(self, gens, fn):
        at = next((i for i, g in enumerate(gens)
                   if g.args[0].op == 'system'), None)
        seg, rest, recs, halt, conds = gens, (), (), vg.FALSE, ()
        if at is not None:
            seg, rest = gens[:at], gens[at + 1:]
            recs, halt = gens[at].args[0].args
            conds = gens[at].args[1]
        state = {('m', m.id): self.ev(m.args[1]) for m, _ in recs}

        def leaf():
            nonlocal state
            if at is None:
                return fn()
            outer = self.env
            self.env = {**outer, **state}
            try:
                if all([self.truth(c) for c in conds]):
                    if (self.run(rest, fn) if rest else fn()) is True:
                        return True
                if self.truth(halt):
                    return 'halt'
                state = {('m', m.id): self.ev(x) for m, x in recs}
            finally:
                self.env = outer
            return None

        def go(j):
            if j == len(seg):
                return leaf()
            it, conds, depth = seg[j].args
            outer = self.env
            for i in self.positions(it):
                self.env = {**outer, ('d', depth): i}
                if all([self.truth(c) for c in conds]):
                    r = go(j + 1)
                    if r is not None and r is not False:
                        self.env = outer
                        return r
            self.env = outer
            return None
        return go(0)

    def positions(self, it):
        if it.op == 'while':
            for i in range(TURNS):
                yield i
            raise Unbounded()
        if it.op == 'zip':
            yield from range(min([len(self.elements(self.ev(a)))
                                  for a in it.args]))
            return
        yield from range(len(self.elements(self.iterable(it))))

    def _o_loop(self, n):
        mu, bv, stop, gens, recs = n.args
        env = self.env
        state = {('m', m.id): self.ev(m.args[1]) for m, _ in recs}
        got = []

        def turn():
            nonlocal state
            here = self.env
            self.env = {**here, **state}
            try:
                if self.truth(stop):
                    got.append(self.ev(bv))
                    return True
                state = {('m', m.id): self.ev(x) for m, x in recs}
            finally:
                self.env = here
        self.run(gens, turn)
        self.env = env
        if got:
            return got[0]
        return state.get(('m', mu.id), None) or self.ev(mu.args[1])

    def _o_fold(self, n):
        op, init, e, gens = n.args
        acc = [self.ev(init)]

        def turn():
            acc[0] = self.binop(op, acc[0], self.ev(e))
        self.run(gens, turn)
        return acc[0]

    def _o_firstval(self, n):
        cond = n.args[1] if len(n.args) == 3 else vg.TRUE
        got = []

        def turn():
            if self.truth(cond):
                got.append(self.ev(n.args[0]))
                return True
        self.run(n.args[-1], turn)
        return got[0] if got else mix('nofirst')

    def _o_lastval(self, n):
        got = []
        self.run(n.args[1], lambda: got.append(self.ev(n.args[0])))
        return got[-1] if got else mix('op', 'undef')

    def _o_carried(self, n):
        got = []
        self.run(n.args[2], lambda: got.append(self.ev(n.args[1])))
        return got[-1] if got else self.ev(n.args[0])

    def _o_loopheap(self, n):
        got = []
        self.run(n.args[0], lambda: got.append(self.ev(n.args[2])))
        return mix('loopheap', n.args[1], tuple(got))

    # -- gates ---------------------------------------------------------------
    def _o_ite(self, n):
        return self.ev(n.args[1] if self.truth(n.args[0]) else n.args[2])

    def _o_cmp(self, n):
        return self.const(self.truth(n))
    _o_not = _o_any = _o_cmp

    def _o_raise(self, n):
        self.fail(exc_name(n.args[0]))

    def total(self, n):
        """Value of a node, exceptions included."""
        try:
            return self.ev(n)
        except Raised as err:
            return err.value

    # -- arithmetic -----------------------------------------------------------
    def _o_un(self, n):
        if n.args[0] in '+-':
            x = self.ev(n.args[1])
            if n.args[0] == '+':
                return x
            if x in self.num:
                return self.known(-self.num[x])
            self.numt.add(r := (-x) % P)
            return r

    # -- text -----------------------------------------------------------------
    def textual(self, t):
        return t in self.texts or isinstance(self.consts.get(t), str)

    def written(self, t):
        """The parts of str(t): literal text and the text of values."""
        if t in self.texts:
            return self.texts[t]
        v = self.consts.get(t)
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return (str(v),)
        return (t,)

    def text(self, parts):
        out = []
        for x in parts:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
        if not out:
            return self.const('')
        if len(out) == 1 and isinstance(out[0], str):
            return self.const(out[0])
        t = mix('text', *[mix('s', x) if isinstance(x, str) else x
                          for x in out])
        self.texts[t] = tuple(out)
        return t

    def _o_fstr(self, n):
        parts = ()
        for x in n.args:
            if x.op == 'const':
                parts += (str(x.args[0]),)
            elif x.op == 'fmt' and len(x.args) == 2 and x.args[1] == -1:
                parts += self.written(self.ev(x.args[0]))
            else:
                parts += self.written(self.ev(x))
        return self.text(parts)

    def _o_fmt(self, n):
        if len(n.args) == 2 and n.args[1] == 114:
            t = self.ev(n.args[0])
            if isinstance(self.consts.get(t), str):
                return self.const(repr(self.consts[t]))
            return mix('repr', t)
        return None

    def _o_bin(self, n):
        op, a, b = n.args
        if op == '**':
            x = self.ev(a)
            if x in self.num and vg.num(b) and isinstance(
                    b.args[0], int) and abs(b.args[0]) < 9 and (
                        self.num[x] or b.args[0] > 0):
                return self.known(self.num[x] ** b.args[0])
            r = self.power(x, b)
            self.numt.add(r)
            return r
        x, y = self.ev(a), self.ev(b)
        if op == '+' and (numeric(a) or numeric(b)):
            self.numt.add(x)
        return self.binop(op, x, y)

    def binop(self, op, x, y):
        if x in self.num and y in self.num:
            r = exact(op, self.num[x], self.num[y])
            if r is not None:
                return self.known(r)
        s, u = self.st.get(x), self.st.get(y)
        if s or u:
            r = self.combine(op, x, y, s, u)
            if r is not None:
                return r
        if op == '+':
            if x in self.numt or y in self.numt:
                r = (x + y) % P
            else:
                if self.textual(x) or self.textual(y):
                    return self.text(self.written(x) + self.written(y))
                return mix('+', x, y)
        elif op == '*':
            r = x * y % P
        elif op == '-':
            r = (x - y) % P
        elif op == '/':
            r = x * pow(y, P - 2, P) % P if y else mix('div0', x)
        elif op == '**':
            r = pow(x if x else 2, y % (P - 1), P)
        elif op in '&|^':
            return mix(op, *sorted((x, y)))
        else:
            return mix('op', 'bin', mix('k', op), x, y)
        self.numt.add(r)
        return r

    def combine(self, op, x, y, s, u):
        """Operators on containers with known elements."""
        kinds = {(s or u)[0], (u or s)[0]}
        if op == '+' and kinds <= {'list', 'tuple'}:
            return self.make((s or u)[0], self.elements(x)
                             + self.elements(y))
        if op == '*' and s and s[0] in ('list', 'tuple') and y in self.num:
            return self.make(s[0], s[1] * int(self.num[y]))
        if op == '*' and s and s[0] in ('list', 'tuple') and not u:
            return self.make(s[0], s[1] * len(self.elements(self.counter(y))))
        if 'set' in kinds and op in '|&-^' and kinds <= {'set', 'list'}:
            a, b = self.elements(x), self.elements(y)
            if op == '|':
                return self.make('set', a + b)

            def has(e, c):
                return any([self.same(e, q, tag=('el', i))
                            for i, q in enumerate(c)])
            if op == '&':
                return self.make('set', [e for e in a if has(e, b)])
            if op == '-':
                return self.make('set', [e for e in a if not has(e, b)])
            return self.make('set', [e for e in a if not has(e, b)] + [
                e for e in b if not has(e, a)])
        if op == '|' and kinds == {'dict'}:
            return self.mapping(self.pairs(x) + self.pairs(y))
        return None

    def power(self, x, b):
        if vg.num(b):
            e = Fraction(repr(b.args[0]))
            if e.denominator == 1:
                return pow(x, e.numerator % (P - 1), P) if x else 0
            if e.denominator == 2 and abs(e.numerator) < 50:
                r = mix('sqrt', x)
                # (x**.5)**2 is not simplified; fine for congruence
                return pow(r, e.numerator % (P - 1), P)
        if b.op == 'un' and b.args[0] == '-':
            return pow(self.power(x, b.args[1]), P - 2, P)
        y = self.ev(b)
        if y == number(-1):
            return pow(x, P - 2, P)
        # x ** y with y generic: exponent homomorphism
        return pow(x if x else 2, y % (P - 1), P)

    # -- calls ------------------------------------------------------------------
    def _o_star(self, n):
        return mix('star', *self.elements(self.ev(n.args[0])))

    def keywords(self, kw):
        out = []
        for k, v in kw:
            t = self.ev(v)
            if k == '**':
                s = self.st.get(t)
                if s is not None and s[0] == 'dict':
                    out.extend((self.consts.get(q, q), w) for q, w in s[1])
                elif not (v.op == 'param' and str(v.args[0]).startswith('**')) \
                        or self.true(t):
                    out.append((mix('**', t), 0))
            else:
                out.append((k, t))
        return sorted((mix('kw', k), v) for k, v in out)

    def _o_new(self, n):
        qual, items = n.args
        if items and items[0] == '?':
            pos = self.seq([a for a in items[1:] if isinstance(a, vg.Node)])
            kw = [(k, self.ev(v)) for k, v in [
                a for a in items[1:] if isinstance(a, tuple)]]
            named = self.bind(qual, pos, kw)
        else:
            named = [(k, self.ev(v)) for k, v in items]
        if named is not None:
            named = [(k, self.options(v)) for k, v in named]
        if named is None:
            return mix('new', qual, '?', tuple(pos), tuple(
                (mix('kw', k), v) for k, v in kw))
        return mix('new', qual, tuple(sorted(
            (mix('kw', k), v) for k, v in named)))

    def bind(self, qual, pos, kw):
        cls = self.program.cls(qual)
        init = self.program.method(cls, '__init__')
        if init is None or any(k == '**' for k, _ in kw):
            return None
        a = init.node.args
        names = [p.arg for p in a.posonlyargs + a.args][1:]
        out = list(zip(names, pos)) + list(kw)
        if len(pos) > len(names):
            if not a.vararg:
                self.fail('TypeError')
            out.append(('*' + a.vararg.arg, self.make(
                'tuple', pos[len(names):])))
        return out

    SEQ = {'builtins.list': 'list', 'builtins.tuple': 'tuple',
           'builtins.set': 'set', 'builtins.frozenset': 'set'}

    def _o_call(self, n):
        f, args, kw = n.args
        r = None
        if f.op == 'ref':
            r = self.builtin(n, f.args[0], args, kw)
        elif f.op == 'attr':
            r = self.method(n, f.args[0], f.args[1], args, kw)
        if r is not None:
            return r
        pos = self.seq(args)
        if f.op == 'ref' and not f.args[0].startswith('goats') and \
                f.args[0] not in ('builtins.isinstance', 'builtins.type',
                                  'builtins.repr', 'builtins.str',
                                  'builtins.hash'):
            pos = [self.loose(t) for t in pos]
        if f.op == 'bound':
            g = mix('bound', self.ev(f.args[0]), f.args[1])
        else:
            g = self.ev(f)
        v = mix('call', g, tuple(pos), tuple(self.keywords(kw)))
        if f.op == 'attr' and f.args[1] in ('match', 'fullmatch', 'search'):
            self.optional.add(v)
        elif f.op == 'attr' and f.args[1] in (
                'strip', 'lstrip', 'rstrip', 'lower', 'upper'):
            self.strings.add(v)
        elif f.op == 'bound' and self.program.optional(f.args[1]):
            self.optional.add(v)
        if f.op == 'ref' and f.args[0] in ('builtins.float', 'builtins.int'):
            self.numbers.add(v)
        if f.op == 'ref' and f.args[0] in MADE:
            self.made.add(v)
        return v

    def counter(self, n):
        """The integers below an unknown number."""
        t = mix('range', n)
        k = len(self.elements(t))
        self.els[t] = tuple(self.integer(i) for i in range(k))
        self.opq.discard(t)
        return t

    def options(self, t):
        """A small record handed over has named entries in no order."""
        s = self.st.get(t)
        if s is not None and s[0] == 'dict' and len(s[1]) > 1 and all(
                isinstance(self.consts.get(k), str) for k, _ in s[1]):
            return self.make('dict', sorted(s[1]))
        return t

    def loose(self, t):
        """Lists and tuples are alike to library functions."""
        s = self.st.get(t)
        if s is not None and s[0] == 'tuple':
            return self.make('list', s[1])
        return t

    def builtin(self, n, name, args, kw):
        if name in ('builtins.isinstance', 'builtins.bool',
                    'builtins.hasattr', 'builtins.callable',
                    'builtins.issubclass'):
            return self.const(self.truth(n))
        if name == 'builtins.getattr' and len(args) in (2, 3) and not kw \
                and not any(a.op == 'star' for a in args):
            t, k = self.ev(args[0]), self.ev(args[1])
            word = self.consts.get(k)
            if isinstance(word, str):
                if len(args) == 3 and not self.coin('builtins.hasattr', t, k):
                    return self.ev(args[2])
                return mix('op', 'attr', t, mix('k', word))
        one = len(args) == 1 and args[0].op != 'star' and not kw
        if one and name in self.SEQ:
            return self.make(self.SEQ[name], self.elements(
                self.ev(args[0])))
        if name == 'builtins.dict' and len(args) <= 1:
            out = self.pairs(self.ev(args[0]), args[0]) if args else []
            for k, v in kw:
                out += self.pairs(self.ev(v), v) if k == '**' else [
                    (self.const(k), self.ev(v))]
            return self.mapping(out)
        if name == 'builtins.len' and one:
            return self.integer(len(self.elements(self.ev(args[0]))))
        if name == 'builtins.iter' and one:
            return self.ev(args[0])
        if name == 'builtins.next' and args:
            t = self.ev(args[0])
            if t in self.st or args[0].op == 'call' and args[0].args[
                    0] is vg.N('ref', 'builtins.iter'):
                els = self.elements(t)
                if els:
                    return els[0]
                if len(args) > 1:
                    return self.ev(args[1])
                self.fail('StopIteration')
            return None
        if name == 'builtins.zip' and not kw:
            cols = [self.elements(t) for t in self.seq(args)]
            return self.make('list', [self.make('tuple', r)
                                      for r in zip(*cols)])
        if name == 'builtins.enumerate' and args:
            at = self.ev(args[1]) if len(args) > 1 else self.ev(
                dict(kw)['start']) if kw else self.integer(0)
            if at in self.num:
                return self.make('list', [
                    self.make('tuple', (self.known(self.num[at] + i), e))
                    for i, e in enumerate(self.elements(self.ev(args[0])))])
        if name in ('builtins.abs', 'numpy.abs', 'numpy.fabs',
                    'math.fabs') and one:
            x = self.ev(args[0])
            if x in self.num:
                return self.known(abs(self.num[x]))
            v = mix('abs', min(x, (P - x) % P))
            self.numt.add(v)
            return v
        if name == 'builtins.range' and args and not kw:
            ks = [self.num.get(self.ev(a)) for a in args]
            if all(k is not None and k.denominator == 1 for k in ks):
                r = range(*[int(k) for k in ks])
                if len(r) < 40:
                    return self.make('list', [self.integer(i) for i in r])
            elif len(args) == 1:
                return self.counter(self.ev(args[0]))
        if name == 'builtins.reversed' and one:
            return self.make('list', self.elements(self.ev(args[0]))[::-1])
        if name == 'builtins.sorted' and len(args) == 1:
            return self.make('list', self.ordered(
                self.elements(self.ev(args[0])), dict(kw)))
        if name in ('builtins.min', 'builtins.max') and args:
            els = self.elements(self.ev(args[0])) if len(args) == 1 else \
                tuple(self.seq(args))
            kwd = dict(kw)
            if len(args) == 1 and not els:
                if 'default' in kwd:
                    return self.ev(kwd['default'])
                self.fail('ValueError')
            kwd.pop('default', None)
            if 'key' in kwd and name.endswith('max'):
                return self.ordered(els, kwd, -1)[0]
            return self.ordered(els, kwd)[0 if name.endswith('min') else -1]
        if name == 'builtins.sum' and args:
            acc = self.ev(args[1]) if len(args) > 1 else self.integer(0)
            for e in self.elements(self.ev(args[0])):
                acc = self.binop('+', acc, e)
            return acc
        if name == 'itertools.chain' and not kw:
            return self.make('list', [e for t in self.seq(args)
                                      for e in self.elements(t)])
        if name == 'itertools.chain.from_iterable' and one:
            return self.make('list', [
                e for t in self.elements(self.ev(args[0]))
                for e in self.elements(t)])
        if name in ('itertools.combinations', 'itertools.permutations') \
                and len(args) == 2 and not kw:
            k = self.num.get(self.ev(args[1]))
            if k is not None and k.denominator == 1 and 0 <= k <= 3:
                pick = getattr(itertools, name[10:])
                return self.make('list', [
                    self.make('tuple', c) for c in pick(
                        self.elements(self.ev(args[0])), int(k))])
        if name in ('copy.copy',) and one:
            return self.duplicate(self.ev(args[0]))
        if name in ('builtins.float', 'builtins.int', 'builtins.str') \
                and one:
            t = self.ev(args[0])
            if t in self.consts:
                try:
                    return self.const({'f': float, 'i': int, 's': str}[
                        name[9]](self.consts[t]))
                except (ValueError, TypeError):
                    pass
            if name == 'builtins.str':
                v = self.text(self.written(t))
                if v != t:
                    self.spelt[v] = t
                    self.made.add(v)
                return v
        if name == 'pathlib.Path' and one and is_path(args[0]):
            return self.ev(args[0])
        if name == 'builtins.repr' and one:
            return self._o_fmt(vg.N('fmt', args[0], 114))
        return None

    def ordered(self, items, kw, sign=1):
        """Elements in ascending order (consistent with `<`)."""
        rev = 'reverse' in kw and self.truth(kw['reverse'])
        if 'key' in kw and not vg.is_const(kw['key'], None):
            keys = self.sort_keys(kw['key'], -sign if rev else sign)
            return tuple(sorted(items, key=lambda x: tuple(
                q * (mix(self.seed, 'rank', k, x) % 3) for q, k in keys)))
        out = []
        for i, x in sorted(enumerate(items), key=lambda p: p[1]):
            j = len(out)
            while j and self.less(x, out[j - 1]):
                j -= 1
            out.insert(j, x)
        out = tuple(out)
        return out[::-1] if rev else out

    def sort_keys(self, key, sign):
        """The values a sort key consists of, each with its direction."""
        if key.op == 'call' and key.args[0].op == 'ref' and \
                key.args[0].args[0] in ('operator.attrgetter',
                                        'operator.itemgetter'):
            kind = 'attr' if 'attr' in key.args[0].args[0] else 'sub'
            return [(sign, mix(kind, self.ev(a))) for a in key.args[1]]
        if key.op == 'closure' and key.args[-1].op == 'body':
            v, fx, dec = key.args[-1].args
            if not fx and not dec:
                return self.key_parts(v, sign)
        return [(sign, self.ev(key))]

    def key_parts(self, v, sign):
        if v.op in ('tuple', 'list'):
            return [p for a in v.args for p in self.key_parts(a, sign)]
        if v.op == 'un' and v.args[0] == '-':
            return self.key_parts(v.args[1], -sign)
        if v.op == 'attr' and v.args[0].op == 'cparam':
            return [(sign, mix('attr', self.const(v.args[1])))]
        if v.op == 'sub' and v.args[0].op == 'cparam':
            return [(sign, mix('sub', self.ev(v.args[1])))]
        return [(sign, self.total(v))]

    def method(self, n, obj, name, args, kw):
        if kw:
            return None
        if name == 'get' and 1 <= len(args) <= 2:
            t, k = self.ev(obj), self.ev(args[0])
            if self.inside(k, t):
                v = self.lookup(t, k)
                if len(args) == 1 and obj.op != 'param':
                    self.got.add(v)
                return v
            return self.ev(args[1]) if len(args) == 2 else self.ev(vg.NONE)
        if name in ('keys', 'values', 'items') and not args:
            t = self.ev(obj)
            if name == 'keys':
                return self.make('list', self.elements(t))
            ps = self.pairs(t)
            if name == 'values':
                return self.make('list', [v for _, v in ps])
            return self.make('list', [self.make('tuple', p) for p in ps])
        if name == 'copy' and not args:
            return self.duplicate(self.ev(obj))
        if name == 'join' and len(args) == 1:
            sep, parts = self.written(self.ev(obj)), ()
            for i, x in enumerate(self.elements(self.ev(args[0]))):
                parts += (sep if i else ()) + self.written(x)
            return self.text(parts)
        if name in ('pop', 'setdefault') and args:
            t, k = self.ev(obj), self.ev(args[0])
            s = self.st.get(t)
            if name == 'pop' and k in self.num and not (s and s[0] in (
                    'dict', 'over')) and len(args) == 1:
                els = self.elements(t)
                i = self.position(k, len(els))
                return els[i] if i is not None else self.fail('IndexError')
            if self.inside(k, t):
                return self.lookup(t, k)
            if len(args) == 2:
                return self.ev(args[1])
            if name == 'pop':
                self.fail('KeyError')
            return NONE
        if name == 'pop' and not args:
            els = self.elements(self.ev(obj))
            return els[-1] if els else self.fail('IndexError')
        if name in ('union', 'intersection', 'difference', 'isdisjoint',
                    'issubset', 'issuperset') and len(args) == 1:
            t = self.ev(obj)
            s = self.st.get(t)
            if s and s[0] == 'set' and args[0].op != 'star':
                u = self.ev(args[0])
                v = self.make('set', self.elements(u))
                op = {'union': '|', 'intersection': '&',
                      'difference': '-'}.get(name)
                if op:
                    return self.binop(op, t, v)
                a, b = (t, v) if name != 'issuperset' else (v, t)
                meet = self.binop('&', a, b)
                if name == 'isdisjoint':
                    return self.const(not self.elements(meet))
                return self.const(len(self.elements(meet)) == len(
                    self.elements(a)))
        if name == 'index' and len(args) == 1:
            t, k = self.ev(obj), self.ev(args[0])
            if t not in self.consts:
                for i, e in enumerate(self.elements(t)):
                    if self.same(k, e, tag=('el', i)):
                        return self.integer(i)
                self.fail('ValueError')
        if name == 'count' and len(args) == 1:
            t, k = self.ev(obj), self.ev(args[0])
            if t in self.st:
                return self.integer(sum([self.same(k, e, tag=('el', i))
                                         for i, e in enumerate(
                                             self.elements(t))]))
        return None

    def _o_sub(self, n):
        if n.args[1].op == 'slice':
            r = self.sliced(self.ev(n.args[0]), n.args[1])
            if r is not None:
                return r
        return self.lookup(self.ev(n.args[0]), self.ev(n.args[1]))

    def sliced(self, t, sl):
        ends = []
        for a in sl.args:
            v = self.ev(a)
            if v == NONE:
                ends.append(None)
            elif v in self.num and self.num[v].denominator == 1:
                ends.append(int(self.num[v]))
            else:
                return None
        if ends[2] == 0:
            return None
        s = self.st.get(t)
        v = self.consts.get(t)
        if isinstance(v, str):
            return self.const(v[slice(*ends)])
        if s is not None and s[0] in ('list', 'tuple'):
            return self.make(s[0], s[1][slice(*ends)])
        if s is not None:
            return None
        if self.isa.get(t, {}).get('builtins.tuple'):
            return self.make('tuple', self.elements(t)[slice(*ends)])
        r = mix('op', 'sub', t, self.part(sl))
        self.els[r] = self.elements(t)[slice(*ends)]
        return r

    def _o_attr(self, n):
        t = mix('op', 'attr', self.ev(n.args[0]), mix('k', n.args[1]))
        if n.args[0].op == 'self':
            k = vg.attr_kind(self.program, n.args[0].args[0], n.args[1])
            if k is not None:
                self.isa.setdefault(t, {})['builtins.' + k] = True
                self.none[t] = False
        return t

    def duplicate(self, t):
        """A shallow copy."""
        if t in self.st:
            return t
        known = self.isa.get(t, {})
        if known.get('builtins.dict'):
            return self.mapping(self.pairs(t))
        for k in ('list', 'set'):
            if known.get('builtins.' + k):
                return self.make(k, self.elements(t))
        r = mix('copy', t)
        self.base[r] = t
        return r

    def _o_body(self, n):
        v, fx, dec = n.args
        out = set()
        for x in fx:
            out |= self.happens(x)
        return mix('body', self.total(v), tuple(sorted(out - {NIL})),
                   self.part(dec))

    def _o_outcome(self, n):
        value, state, effects, objects = n.args
        try:
            v = self.ev(value)
        except Raised as err:
            calls = set()
            for x in effects.args:
                if x.op == 'effect' and vg.bare(x.args[0]).op == 'call':
                    calls |= self.happened(x)
            return mix('outcome', err.value, *sorted(calls))
        s = self.st.get(v)
        if self.unordered and s and s[0] == 'dict':
            v = self.make('dict', sorted(s[1]))
        return mix('outcome', v, self.ev(state), self.ev(effects),
                   self.ev(objects))

    def _o_objects(self, n):
        out = set()
        for c in n.args:
            v = self.total(c.args[2])
            if v != NONE or not c.args[1].startswith('_'):
                out.add(mix('cell', self.total(c.args[0]), c.args[1], v))
        return mix('objects', *sorted(out))

    def _o_when(self, n):
        try:
            if all(self.truth(c) is t for c, t in n.args[0]):
                return self.ev(n.args[1])
        except Raised:
            pass
        return NIL

    def _o_state(self, n):
        return mix('state', *[self.total(x) for x in n.args[1:]])

    def _o_effects(self, n):
        out = set()
        for x in n.args:
            out |= self.happens(x)
        return mix('effects', *sorted(out - {NIL}))

    def happens(self, n):
        """The individual effects an effect node stands for."""
        out = set()
        if n.op != 'effect':
            return {self.total(n)}
        try:
            self.run(n.args[1], lambda: out.add(self.total(n.args[0])))
        except Raised as err:
            out.add(err.value)
        return out - {NIL}

    def happened(self, n):
        """The effects of a node that did not themselves raise."""
        out = set()
        try:
            self.run(n.args[1], lambda: out.add(self.ev(n.args[0])))
        except Raised:
            pass
        return out - {NIL}

    def _o_effect(self, n):
        out = self.happens(n)
        return mix('effect', *sorted(out)) if out else NIL

    # -- truth -------------------------------------------------------------
    def truth(self, n):
        if n.op == 'const':
            return bool(n.args[0])
        cur = self.cur
        self.cur = n.id
        try:
            return self._truth(n)
        finally:
            self.cur = cur

    def _truth(self, n):
        if n.op == 'not':
            return not self.truth(n.args[0])
        if n.op == 'ite':
            return self.truth(n.args[1] if self.truth(n.args[0])
                              else n.args[2])
        if n.op == 'cmp':
            return self.compare(*n.args)
        if n.op == 'any':
            return self.run(n.args[-1], lambda: True)
        if n.op == 'call' and n.args[0].op == 'ref':
            f, args, kw = n.args
            name = f.args[0]
            if name == 'builtins.isinstance' and len(args) == 2:
                return self.isinstance(args[0], args[1])
            if name == 'builtins.bool' and len(args) == 1:
                return self.truth(args[0])
            if name in ('builtins.hasattr', 'builtins.callable',
                        'builtins.issubclass'):
                return self.coin(name, *[self.ev(a) for a in args])
        if n.op in ('cls', 'fn', 'closure', 'bound'):
            return True
        if n.op == 'raised':
            return self.raised(n)
        return self.true(self.ev(n))

    def true(self, v):
        if v in self.consts:
            return bool(self.consts[v])
        if v in self.num:
            return bool(self.num[v])
        if v in self.st:
            return bool(self.elements(v))
        if v in self.els:
            return bool(self.els[v])
        if v in self.base:
            return self.true(self.base[v])
        if v == NONE or v == 0 or v == BOOL[False]:
            return False
        if v == BOOL[True]:
            return True
        return self.filled(v)

    def raised(self, n):
        types, key = n.args
        names = exc_types(types)
        tag = tuple(sorted(names))
        if key is None:
            return self.coin('raised', tag)
        look = names <= {'KeyError', 'LookupError', 'IndexError'}
        out = False
        for a in key.args:
            v = None
            try:
                if look and a.op == 'sub' and a.args[1].op != 'slice':
                    t, k = self.ev(a.args[0]), self.ev(a.args[1])
                    s = self.st.get(t)
                    if s and s[0] in ('dict', 'over') or (
                            not s and k not in self.num and
                            'IndexError' not in names):
                        out |= not self.inside(k, t)
                        continue
                v = self.ev(a)
                if 'IndexError' in names and pops(a):
                    continue
            except Raised as err:
                hit = err.name in names or any(
                    x in ('Exception', 'BaseException') for x in names) or (
                    'LookupError' in names and err.name in (
                        'KeyError', 'IndexError'))
                out |= hit
                continue
            out |= self.coin('raised', tag, v)
        return out

    def inside(self, k, t):
        """k in t."""
        s = self.st.get(t)
        if t in self.base:
            return self.inside(k, self.base[t])
        if s is not None and s[0] == 'over':
            for i, (q, v) in reversed(list(enumerate(s[1][1]))):
                if self.same(k, q, tag=('key', i)):
                    return v != GONE
            return self.inside(k, s[1][0])
        if s is not None or t in self.els and t not in self.opq:
            return any([self.same(k, e, tag=('el', i)) for i, e in
                        enumerate(self.elements(t))])
        if t in self.consts:
            p, q = self.consts.get(k), self.consts[t]
            if isinstance(q, str) and isinstance(p, str):
                return p in q
        if self.origin.get(k, (None,))[0] == t:
            return True
        if self.facts.get(mix('truth', t)) is False or self.none.get(t):
            return False
        if isinstance(self.consts.get(k), str) and self.facts.get(
                mix('in', k, self.spelt.get(t))):
            # a text that contains k is spelled with it
            return True
        els = self.els.get(t)
        if els is not None:
            facts = [self.facts.get(mix('==', *sorted((k, e))))
                     for e in els]
            if True in facts:
                return True
            if facts and None not in facts:
                return False
        r = self.coin('in', k, t)
        if r:
            self.facts.setdefault(mix('truth', t), True)
            self.none.setdefault(t, False)
        return r

    def is_none(self, v, n=None):
        if v == NONE:
            return True
        if n is not None and n.op in ('new', 'list', 'tuple', 'dict', 'comp',
                                      'bin', 'const', 'self'):
            return False
        if v in self.st or v in self.consts or v in self.numt:
            return False
        if v in self.none:
            return self.none[v]
        if any(self.isa.get(v, {}).values()):
            r = False
        elif v in self.eqc:
            r = False
        elif self.facts.get(mix('truth', v)):
            r = False
        elif v in self.optional:
            r = not self.coin('truth', v)
        else:
            r = self.coin('none', v)
        self.none[v] = r
        return r

    def same(self, x, y, tag=None):
        """x == y."""
        if x == y:
            return True
        for a, b in ((x, y), (y, x)):
            if a == NONE:
                return self.is_none(b)
            if b in self.numbers and self.num.get(a) == 0:
                return not self.true(b)
        cx, cy = x in self.consts, y in self.consts
        if cx and cy:
            return self.consts[x] == self.consts[y]
        if x in self.num and y in self.num:
            return self.num[x] == self.num[y]
        s, u = self.st.get(x), self.st.get(y)
        if s and u and 'over' not in (s[0], u[0]):
            if s[0] != u[0] or len(s[1]) != len(u[1]):
                return False
            if s[0] in ('list', 'tuple'):
                return all([self.same(a, b, tag=(tag, i)) for i, (a, b) in
                            enumerate(zip(s[1], u[1]))])
        for a, b, t in ((x, cy, u), (y, cx, s)):
            if self.none.get(a) and (b or t):
                return False
        if (s and cy) or (u and cx):
            return False
        for a, b, c in ((x, y, cy), (y, x, cx)):
            if c:
                if a in self.eqc:
                    return self.eqc[a] == b
                t = self.coin('eq', a, b, tag=tag)
                if t:
                    self.eqc[a] = b
                    self.none.setdefault(a, False)
                return t
        k = mix('==', *sorted((x, y)))
        if k not in self.facts:
            for e, q in ((x, y), (y, x)):
                o = self.origin.get(e)
                if o is None:
                    continue
                f = self.facts.get(mix('in', q, o[0]))
                if f is False:
                    self.facts[k] = False
                elif f:
                    rest = [self.facts.get(mix('==', *sorted((q, z))))
                            for z in self.elements(o[0]) if z != e]
                    if all(r is False for r in rest):
                        self.facts[k] = True
        r = self.coin('==', *sorted((x, y)), tag=tag,
                      p=None if tag is None else self.bias / 2)
        if r:
            a, b = max(x, y), min(x, y)
            if s or u:
                a, b = (y, x) if s else (x, y)
            self.eqs[a] = b
        return r

    def less(self, x, y):
        if x == y:
            return False
        if x in self.num and y in self.num:
            return self.num[x] < self.num[y]
        p, q = self.consts.get(x), self.consts.get(y)
        if isinstance(p, str) and isinstance(q, str):
            return p < q
        return self.coin('<', x, y)

    def compare(self, op, a, b):
        if op == 'is' or op == '==':
            for x, y in ((a, b), (b, a)):
                if vg.is_const(y, None):
                    return self.is_none(self.ev(x), x)
            x, y = self.ev(a), self.ev(b)
            if op == 'is' and x != y and not (
                    x in self.consts or y in self.consts
                    or {a.op, b.op} & {'ref', 'cls', 'fn'}):
                return self.coin('is', *sorted((x, y)))
            return self.same(x, y)
        if op in ('<', '<='):
            x, y = self.ev(a), self.ev(b)
            if op == '<':
                return self.less(x, y)
            # a <= b  ==  not (b < a)
            return not self.less(y, x)
        if op == 'in':
            return self.inside(self.ev(a), self.ev(b))
        return self.coin(op, self.ev(a), self.ev(b))

    # -- classes -------------------------------------------------------------
    def isinstance(self, x, types):
        if types.op in ('tuple', 'list'):
            return any([self.isinstance(x, t) for t in types.args])
        v = self.ev(x)
        name = type_name(types)
        if name is None:
            return self.coin('isa?', v, self.ev(types))
        if x.op in ('new', 'self'):
            r = self.sub(x.args[0], name)
            if r is not None:
                return r
        if x.op == 'const':
            return self.const_isa(x.args[0], name)
        if v in self.made and self.program.nominal(name):
            return False
        if v in self.consts:
            return self.const_isa(self.consts[v], name)
        while v in self.st and self.st[v][0] == 'over':
            v = self.st[v][1][0]
        if v in self.st:
            k = self.st[v][0]
            r = self.sub('builtins.' + k, name)
            if k == 'set' and name.endswith('frozenset'):
                return self.coin('isa', v, name)
            return bool(r)
        known = self.isa.setdefault(v, {})
        if name in known:
            return known[name]
        if self.none.get(v) or v == NONE:
            known[name] = False
            return False
        r = None
        for k, t in known.items():
            if t and self.sub(k, name):
                r = True
            elif not t and self.sub(name, k):
                r = False
            elif t and self.disjoint(k, name):
                r = False
        if r is None:
            r = self.coin('isa', v, name)
        known[name] = r
        if r:
            self.none[v] = False
        return r

    def const_isa(self, v, name):
        short = name.split('.')[-1]
        t = type(v).__name__
        return short == t or short in BUILTIN_UP.get(t, ()) \
            or short == 'object'

    def sub(self, a, b):
        """Is class a a subclass of class b? True/False/None."""
        if a == b:
            return True
        sa, sb = a.split('.')[-1], b.split('.')[-1]
        for r in self.program.registered(b):
            if self.sub(a, r):
                return True
        if a.startswith('goats'):
            try:
                cls = self.program.cls(a)
            except model.AnalysisError:
                return None
            for c in self.program.mro(cls):
                q = c.qual if isinstance(c, model.Class) else str(c)
                if q == b or (not q.startswith('goats') and
                              q.split('.')[-1] == sb):
                    return True
                if not q.startswith('goats') and sb in BUILTIN_UP.get(
                        q.split('.')[-1], ()):
                    return True
            return False if b.startswith('goats') else None
        if b.startswith('goats'):
            return False
        return sb == sa or sb in BUILTIN_UP.get(sa, ())

    def disjoint(self, a, b):
        sa, sb = a.split('.')[-1], b.split('.')[-1]
        ga, gb = GROUP.get(sa), GROUP.get(sb)
        if not a.startswith('goats') and not b.startswith('goats'):
            return bool(ga and gb and ga != gb)
        if a.startswith('goats') and b.startswith('goats'):
            # unrelated repository classes: no common subclass
            if self.sub(a, b) or self.sub(b, a):
                return False
            return not self.common(a, b)
        for g, o in ((a, b), (b, a)):
            if g.startswith('goats'):
                so = o.split('.')[-1]
                if so in GROUP and so in ('str', 'int', 'float', 'list',
                                          'tuple', 'dict', 'slice', 'set'):
                    return not any(self.sub(o, c.qual) for c in
                                   self.family(g)) and not any(self.sub(c.qual, o) for c in
                                   self.family(g))
        return False

    def family(self, q):
        cls = self.program.cls(q)
        out = [cls] + self.program.subclasses(cls)
        for c in list(out):
            for r in self.program.registered(c.qual):
                if r.startswith('goats') and r != q:
                    out += [x for x in self.family(r) if x not in out]
        return out

    def common(self, a, b):
        fa = {c.qual for c in self.family(a)}
        return any(c.qual in fa for c in self.family(b))


def exact(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b if b else None
    if op == '//':
        return Fraction(a // b) if b else None
    if op == '%':
        return a % b if b else None
    return None


def pops(n):
    """Removal of an item of a list by its position."""
    return n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[
        1] == 'pop' and (not n.args[1] or len(n.args[1]) == 1 and vg.num(
            n.args[1][0]))


def paired(n):
    """An iterable of pairs, not a mapping."""
    if n.op == 'call' and n.args[0].op == 'attr':
        return n.args[0].args[1] == 'items'
    if n.op == 'call' and n.args[0].op == 'bound':
        return n.args[0].args[1].split('.')[-1] == 'items'
    return n.op == 'call' and n.args[0].op == 'ref' and n.args[0].args[
        0] in ('builtins.zip', 'builtins.enumerate')


def numeric(n):
    if vg.num(n):
        return True
    if n.op == 'bin':
        return n.args[0] in ('-', '/', '**', '//', '%') or (
            n.args[0] in '+*' and (numeric(n.args[1]) or numeric(n.args[2])))
    if n.op == 'un':
        return n.args[0] in '+-'
    if n.op == 'call' and n.args[0].op == 'ref':
        return n.args[0].args[0] in ('builtins.len', 'builtins.int',
                                     'builtins.float', 'builtins.abs')
    return n.op == 'index'


def type_name(t):
    if t.op == 'cls':
        return t.args[0]
    if t.op == 'ref':
        return t.args[0]
    return None


def exc_name(n):
    if n.op == 'call':
        n = n.args[0]
    if n.op in ('new', 'cls', 'ref'):
        return str(n.args[0]).split('.')[-1]
    if n.op == 'excvar':
        return 'excvar'
    return n.op


def exc_types(t):
    if t.op in ('tuple', 'list'):
        return {x for y in t.args for x in exc_types(y)}
    return {exc_name(t)}


# ---------------------------------------------------------------------------
# vocabulary: may a difference be blamed on the code, or on the model?
# ---------------------------------------------------------------------------
SIBLINGS = [
    {'min', 'max', 'amin', 'amax', 'argmin', 'argmax', 'nanmin', 'nanmax'},
    {'any', 'all'}, {'lstrip', 'rstrip', 'strip'},
    {'keys', 'values', 'items'}, {'split', 'rsplit', 'partition',
                                  'rpartition'},
    {'upper', 'lower', 'title', 'capitalize'}, {'startswith', 'endswith'},
    {'sum', 'prod', 'mean', 'median'}, {'find', 'rfind', 'index', 'rindex'},
    {'floor', 'ceil', 'round', 'trunc', 'rint', 'int'},
    {'list', 'set', 'tuple', 'frozenset', 'sorted', 'reversed'},
    {'match', 'search', 'fullmatch', 'findall'}, {'append', 'insert',
                                                  'extend'},
    {'union', 'intersection', 'difference', 'symmetric_difference'},
    {'str', 'repr'}, {'add', 'sub', 'mul', 'truediv', 'floordiv', 'pow',
                      'mod'},
    {'log', 'log10', 'log2', 'exp'}, {'sin', 'cos', 'tan'},
    {'update', 'setdefault'}, {'pop', 'popitem', 'remove', 'discard'},
    {'zip', 'zip_longest'}, {'isinstance', 'issubclass'},
]
FREE = {'isinstance', 'list', 'tuple', 'len', 'bool', 'str', 'float', 'int',
        'abs', 'fabs', 'absolute',
        'KeyError', 'ValueError', 'TypeError', 'IndexError',
        # evaluated on the structure of their operands
        'zip', 'enumerate', 'range', 'reversed', 'set', 'dict', 'any', 'all',
        'map', 'filter', 'next', 'iter', 'copy', 'keys', 'values', 'items',
        'get', 'setdefault', 'chain', 'from_iterable', 'reduce', '<star>',
        '<setitem>', '<append>', '<concat>', '<dmerge>', '<loop>', '<fold>',
        '<firstval>', '<lastval>'}


SCOPES = ('loop', 'comp', 'fold', 'firstval', 'lastval', 'any', 'while',
          'system', 'gen', 'closure', 'each', 'effect', 'loopheap', 'body')


def reached(p, n):
    """The nodes a value depends on at one interpretation.

    A condition under a binder is not settled by the interpretation alone, so
    both of its branches count; the text of an exception never does when only
    its class is observed.
    """
    todo, seen, scope = [n], set(), set()

    def inside(m):
        return m.id in scope

    while todo:
        m = todo.pop()
        if m.id in seen:
            continue
        if m.op in SCOPES:
            scope.add(m.id)
        seen.add(m.id)
        yield m
        if m.op == 'ite' and not inside(m):
            todo.append(m.args[0])
            try:
                todo.append(m.args[1] if p.truth(m.args[0]) else m.args[2])
            except Raised:
                pass
        elif m.op == 'raise' and p.exc == 'class' and \
                m.args[0].op in ('call', 'new'):
            if m.args[0].op == 'call':
                todo.append(m.args[0].args[0])
        else:
            for c in vg.children(m):
                if inside(m):
                    scope.add(c.id)
                todo.append(c)


def vocabulary(n, p=None):
    out = set()
    for m in vg.walk(n) if p is None else reached(p, n):
        if m.op == 'call':
            f = m.args[0]
            if f.op == 'ref':
                out.add(str(f.args[0]).split('.')[-1])
                if f.args[0] == 'builtins.getattr' and len(
                        m.args[1]) > 1 and m.args[1][1].op != 'const':
                    # a member chosen by a computed name
                    out.add(f'<getattr {m.args[1][1].op}>')
            elif f.op == 'attr':
                out.add(f.args[1])
            elif f.op in ('fn',):
                out.add(f.args[0].split('.')[-1])
            elif f.op == 'bound':
                out.add(f.args[1].split('.')[-1])
            if f.op == 'ref' and f.args[0] in (
                    'builtins.list', 'builtins.tuple', 'builtins.iter') and \
                    m.args[1] and m.args[1][0].op == 'new':
                # iteration and subscription are defined by the class
                out.add(f'<iter {m.args[1][0].args[0]}>')
        elif m.op in ('loop', 'opaque', 'mut', 'loopheap', 'fold',
                      'firstval', 'lastval', 'closure', 'super', 'while',
                      'raised', 'try', 'concat', 'dmerge', 'setitem',
                      'append', 'star', 'rest'):
            out.add('<' + m.op + '>')
    return out


def foreign(impl, spec, repo_attrs=(), p=None):
    """Words of impl, at a distinguishing point, that spec does not explain."""
    a, b = vocabulary(impl, p), vocabulary(spec)
    b |= {f'<iter {m.args[0].args[0]}>' for m in vg.walk(spec)
          if m.op == 'elem' and m.args[0].op == 'new'}
    extra = a - b - FREE - set(repo_attrs)
    lost = b - a
    out = set()
    for w in extra:
        if any(w in s and (s & (lost | b)) for s in SIBLINGS):
            continue
        out.add(w)
    return out


def frontier(a, b, limit=80):
    """Path conditions under which the two graphs are written differently."""
    out = []
    seen = {}
    budget = [4000]

    def go(x, y, guards):
        k = (x.id, y.id)
        if x is y or len(out) >= limit or seen.get(k, 0) >= 4:
            return
        budget[0] -= 1
        if budget[0] < 0 or absurd(guards):
            return
        seen[k] = seen.get(k, 0) + 1
        if x.op == 'ite':
            c = x.args[0]
            go(x.args[1], vg.restrict(y, c, True), guards + ((c, True),))
            go(x.args[2], vg.restrict(y, c, False), guards + ((c, False),))
            return
        if y.op == 'ite':
            c = y.args[0]
            go(x, y.args[1], guards + ((c, True),))
            go(x, y.args[2], guards + ((c, False),))
            return
        n = len(out)
        if x.op == y.op and len(x.args) == len(y.args):
            kids = list(pairs(x.args, y.args))
            if kids is not None:
                for u, v in kids:
                    go(u, v, guards)
        if len(out) == n:
            out.append(guards)
    go(a, b, ())
    return out


def absurd(guards):
    """The last guard contradicts an earlier one outright."""
    if not guards:
        return False
    c, t = guards[-1]
    if not (t and c.op == 'cmp' and c.args[0] in ('==', 'is')):
        return False
    for d, u in guards[:-1]:
        if u and d.op == 'cmp' and d.args[0] in ('==', 'is'):
            for i, j in ((1, 2), (2, 1)):
                for k, l in ((1, 2), (2, 1)):
                    if c.args[i] is d.args[k] and vg.is_const(c.args[j]) \
                            and vg.is_const(d.args[l]) and \
                            c.args[j] is not d.args[l]:
                        return True
    return False


def pairs(xs, ys):
    for x, y in zip(xs, ys):
        if isinstance(x, vg.Node) and isinstance(y, vg.Node):
            yield x, y
        elif isinstance(x, tuple) and isinstance(y, tuple) and \
                len(x) == len(y):
            yield from pairs(x, y)


def is_path(n):
    """The value is a path already."""
    while n.op == 'call' and n.args[0].op == 'attr' and n.args[0].args[1] in (
            'with_suffix', 'with_name', 'resolve', 'expanduser', 'absolute',
            'joinpath'):
        n = n.args[0].args[0]
    return n.op == 'call' and n.args[0].op == 'ref' \
        and n.args[0].args[0] == 'pathlib.Path'


def directed(program, guards, index, kw, tries=24):
    """A point at which the guards hold, if one is found quickly."""
    todo, seen = [()], set()
    while todo and tries:
        tries -= 1
        script = todo.pop()
        p = Point(program, index, script=script, **kw)
        ok = True
        for c, t in guards:
            before = len(p.asked)
            try:
                hit = p.truth(c) is t
            except (Raised, Unbounded):
                hit = False
            if not hit:
                ok = False
                # flip the last decision first
                for i in range(0, len(p.asked)):
                    new = tuple(x for _, x in p.asked[:i]) + (
                        not p.asked[i][1],)
                    if i >= len(script) and new not in seen:
                        seen.add(new)
                        todo.append(new)
                break
        if ok:
            return p
    return None


def search(program, a, b, count, **kw):
    """First point at which the two graphs differ, or None.

    First the places where the graphs are written differently are visited;
    then the gating conditions are case-split: starting from random cases,
    every condition is flipped in a few contexts, so each gate is taken both
    ways.
    """
    # the members of a set have no order
    kw['unordered'] = any(
        m.op == 'gen' and m.args[0].op == 'set' for m in vg.walk(b))
    for i, guards in enumerate(frontier(a, b)):
        for index in (0, 5, 7):
            p = directed(program, guards, index, kw)
            if p is not None and differs(program, p, a, b, index, kw):
                return p
    for index in range(2):
        todo = [()]
        seen = set()
        cover = {}
        runs = 0
        while todo and runs < count:
            script = todo.pop(0)
            p = Point(program, index, script=script, **kw)
            runs += 1
            if differs(program, p, a, b, index, kw):
                return p
            d = p.asked
            for k, t in d:
                cover[(k, t)] = cover.get((k, t), 0) + 1
            for i in range(len(script), len(d)):
                k, t = d[i]
                if cover.get((k, not t), 0) >= 3:
                    continue
                new = tuple(x for _, x in d[:i]) + (not t,)
                if new not in seen:
                    seen.add(new)
                    todo.append(new)
    for index in range(2, 2 + count // 4):
        p = Point(program, index, **kw)
        if differs(program, p, a, b, index, kw):
            return p
    return None


def differs(program, p, a, b, index, kw):
    try:
        if p.total(a) == p.total(b):
            return False
        for _ in range(16):
            eq = p.equalities()
            if eq.items() <= p.alias.items():
                return not p.doubtful() and not p.undefined(b)
            # substitute the equalities this case assumes, and look again
            q = Point(program, index, alias=eq, **kw)
            q.hints = p.decided
            q.none, q.eqc = dict(p.none), dict(p.eqc)
            if q.total(a) == q.total(b):
                return False
            p = q
    except Unbounded:
        pass
    return False


def equal(program, a, b, count=240, atoms=None, exc='class', repo_attrs=()):
    """(verdict, explanation): True / False / None."""
    if a is b:
        return True, ''
    diff = search(program, a, b, count, atoms=atoms, exc=exc)
    if diff is None:
        return True, ''
    words = foreign(a, b, repo_attrs, diff)
    text = explain(diff, a, b)
    if words:
        return None, f"{text} (outside the model: {sorted(words)[:6]})"
    return False, text


def explain(p, a, b):
    if a.op == b.op == 'outcome':
        x, y = pick(p, a.args[0]), pick(p, b.args[0])
        if p.total(x) == p.total(y):
            if p.total(a.args[1]) != p.total(b.args[1]):
                for n, u, v in zip(a.args[1].args[0], a.args[1].args[1:],
                                   b.args[1].args[1:]):
                    if p.total(u) != p.total(v):
                        return (f"leaves {n} = {vg.show(pick(p, u), 4)[:140]}"
                                f", expected {vg.show(pick(p, v), 4)[:140]}")
            if p.total(a.args[2]) != p.total(b.args[2]):
                return 'has different effects: ' + diff_set(
                    p, a.args[2].args, b.args[2].args)
            return 'returns an object with ' + diff_set(
                p, a.args[3].args, b.args[3].args)
        a, b = x, y
    la, lb = pick(p, a), pick(p, b)
    return f"yields {vg.show(la, 4)[:140]}, expected {vg.show(lb, 4)[:140]}"


def diff_set(p, xs, ys):
    nil = mix('nil')
    xv = {p.total(x): x for x in xs}
    yv = {p.total(y): y for y in ys}
    more = [x for v, x in xv.items() if v not in yv and v != nil]
    less = [y for v, y in yv.items() if v not in xv and v != nil]
    return ('; '.join(['unexpected ' + vg.show(x, 4)[:110] for x in more] + [
        'missing ' + vg.show(x, 4)[:110] for x in less]))[:300]


def pick(p, n):
    while n.op == 'ite':
        try:
            n = n.args[1] if p.truth(n.args[0]) else n.args[2]
        except Raised:
            return n
    return n
