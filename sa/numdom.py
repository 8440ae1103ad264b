"""Abstract domains for numerical terms of the value graph.

* `Dim`   - physical dimensions (exponents of base quantities).
* `Rand`  - random interpretation (Gulwani & Necula): every atom is mapped to
  a pseudo-random real, interpreted operators act on the reals exactly, and
  uninterpreted operators act by congruence.  Two terms that agree at several
  points have equal values for all inputs with overwhelming probability; two
  terms over interpreted operators that differ at one point are different.
"""

import decimal
import hashlib
import os
from fractions import Fraction

from . import vg

CTX = decimal.Context(prec=60)
D = decimal.Decimal


class Unknown(Exception):
    """The construct is outside the modelled vocabulary."""


class Mismatch(Exception):
    """A definite inconsistency, with the term that shows it."""

    def __init__(self, message, node):
        super().__init__(message)
        self.node = node


# ---------------------------------------------------------------------------
# canonical views of numpy spellings
# ---------------------------------------------------------------------------
PASS = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.copy',
        'numpy.ascontiguousarray', 'numpy.atleast_1d', 'numpy.float64',
        'builtins.float', 'numpy.asfarray'}
REDUCE = {'sum': 'sum', 'mean': 'mean', 'min': 'min', 'max': 'max',
          'prod': 'prod', 'amin': 'min', 'amax': 'max', 'average': 'mean'}
METHOD_PASS = {'copy', 'astype', 'item'}


def view(n):
    """(kind, operands...) of a numpy-level operation, or None."""
    if n.op == 'bin':
        return (n.args[0], n.args[1], n.args[2])
    if n.op == 'un':
        return ('neg', n.args[1]) if n.args[0] == '-' else (
            ('pos', n.args[1]) if n.args[0] == '+' else None)
    if n.op == 'setitem':
        a, idx, v = n.args
        # masked assignment that clamps
        if idx.op == 'cmp' and idx.args[0] in ('<', '<='):
            lo, hi = idx.args[1], idx.args[2]
            if lo is a and hi is v:
                return ('max', a, v)
            if hi is a and lo is v:
                return ('min', a, v)
        return None
    if n.op == 'call':
        f, args, kw = n.args
        kwd = dict(kw)
        name = None
        if f.op == 'ref':
            name = f.args[0]
        elif f.op == 'attr':
            meth = f.args[1]
            if meth in REDUCE or meth in (
                    'transpose', 'clip', 'squeeze', 'dot', 'astype', 'copy',
                    'item'):
                name = 'numpy.' + meth
                args = (f.args[0],) + tuple(args)
        if name is None:
            return None
        short = name.split('.')[-1]
        lib = name.split('.')[0]
        if name in PASS and args:
            return ('pass', args[0])
        if short in METHOD_PASS and args and f.op == 'attr':
            return ('pass', args[0])
        if lib not in ('numpy', 'math', 'builtins', 'scipy'):
            return None
        if short == 'clip':
            lo = args[1] if len(args) > 1 else kwd.get(
                'a_min', kwd.get('min'))
            hi = args[2] if len(args) > 2 else kwd.get(
                'a_max', kwd.get('max'))
            if lo is None or hi is None:
                return None
            return ('clip', args[0], lo, hi)
        if short in ('maximum', 'minimum', 'fmax', 'fmin') \
                and len(args) == 2:
            return (short[-3:] if short[0] == 'f' else short[:3],
                    args[0], args[1])
        if short in ('max', 'min') and lib == 'builtins' and len(args) == 2:
            return (short, args[0], args[1])
        if short == 'where' and len(args) == 3:
            c, a, b = args
            if c.op == 'cmp' and c.args[0] in ('<', '<='):
                lo, hi = c.args[1], c.args[2]
                if a is hi and b is lo:
                    return ('max', a, b)
                if a is lo and b is hi:
                    return ('min', a, b)
            return None
        if short in ('sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'log',
                     'log10', 'exp', 'acos', 'asin'):
            return ('fn', {'acos': 'arccos', 'asin': 'arcsin'}.get(
                short, short), args[0])
        if short in ('abs', 'absolute', 'fabs'):
            return ('abs', args[0])
        if short == 'tensordot':
            ax = kwd.get('axes', args[2] if len(args) > 2 else None)
            if ax is not None and vg.is_const(ax, 0):
                return ('outer', args[0], args[1])
            return None
        if short == 'outer':
            return ('outer', args[0], args[1])
        if short == 'gradient':
            axis = kwd.get('axis')
            rest = args[1:]
            return ('gradient', args[0], rest[0] if rest else None, axis)
        if short in ('simps', 'simpson', 'trapz', 'trapezoid'):
            x = args[1] if len(args) > 1 else kwd.get('x')
            axis = kwd.get('axis', vg.const(-1))
            rule = 'simpson' if short.startswith('simps') else 'trapezoid'
            return ('integral', rule, args[0], x, axis)
        if short in REDUCE and lib == 'numpy':
            axis = kwd.get('axis', args[1] if len(args) > 1 else vg.NONE)
            return ('reduce', REDUCE[short], args[0], axis)
        if short == 'transpose':
            perm = args[1] if len(args) == 2 else vg.N('tuple', *args[1:])
            return ('transpose', args[0], perm)
        if short == 'full_like' and len(args) >= 2:
            return ('pass', args[1])
        if short in ('zeros_like', 'zeros'):
            return ('zero',)
        if short in ('squeeze',):
            return ('shape', 'squeeze', args[0])
    if n.op == 'sub':
        return ('index', n.args[0], n.args[1])
    return None


# ---------------------------------------------------------------------------
# physical dimensions
# ---------------------------------------------------------------------------
class Dim(dict):
    def __mul__(self, other):
        out = Dim(self)
        for k, v in other.items():
            out[k] = out.get(k, 0) + v
            if out[k] == 0:
                del out[k]
        return out

    def __pow__(self, e):
        e = Fraction(e).limit_denominator(1000)
        return Dim({k: v * e for k, v in self.items() if v * e})

    def __truediv__(self, other):
        return self * (other ** -1)

    def __str__(self):
        return ' '.join(f"{k}^{v}" if v != 1 else k
                        for k, v in sorted(self.items())) or '1'

    def __hash__(self):
        return hash(frozenset(self.items()))


ONE = Dim()
ANY = object()   # literal zero: any dimension


class DimEval:
    """Dimension of a term; raises Mismatch on inhomogeneous arithmetic."""

    def __init__(self, atoms):
        self.atoms = atoms          # callable: node -> Dim or None
        self.memo = {}
        self.checked = 0

    def __call__(self, n):
        if n.id not in self.memo:
            self.memo[n.id] = self._ev(n)
        return self.memo[n.id]

    def same(self, n, *nodes):
        ds = [(x, self(x)) for x in nodes]
        ds = [(x, d) for x, d in ds if d is not ANY]
        if not ds:
            return ANY
        first = ds[0][1]
        for x, d in ds[1:]:
            self.checked += 1
            if d != first:
                raise Mismatch(
                    f"combines [{first}] with [{d}]", n)
        return first

    def none(self, n, x, what):
        d = self(x)
        self.checked += 1
        if d is not ANY and d:
            raise Mismatch(f"{what} of a dimensional value [{d}]", n)

    def _ev(self, n):
        got = self.atoms(n)
        if got is not None:
            return got
        if n.op == 'const':
            v = n.args[0]
            if isinstance(v, bool) or v is None:
                raise Unknown(n)
            if isinstance(v, (int, float)):
                return ANY if v == 0 else ONE
            raise Unknown(n)
        if n.op == 'ite':
            vals = []
            for b in n.args[1:]:
                if b.op != 'raise':
                    vals.append(b)
            return self.same(n, *vals)
        if n.op == 'loop':
            return self.same(n, n.args[0].args[1], *filled(n))
        if n.op == 'fold':
            op, init, e, gens = n.args
            if op == '+':
                return self.same(n, init, e)
            raise Unknown(n)
        if n.op == 'setitem':
            w = view(n)
            if w is None:
                return self.same(n, n.args[0], n.args[2])
        w = view(n)
        if w is None:
            raise Unknown(n)
        k = w[0]
        if k in ('+', '-', 'max', 'min'):
            return self.same(n, w[1], w[2])
        if k == 'clip':
            return self.same(n, *w[1:])
        if k in ('*', 'outer', '@'):
            a, b = self(w[1]), self(w[2])
            if a is ANY or b is ANY:
                return ANY
            return a * b
        if k == '/':
            a, b = self(w[1]), self(w[2])
            if a is ANY:
                return ANY
            if b is ANY:
                raise Unknown(n)
            return a / b
        if k == '**':
            self.none(n, w[2], 'exponent')
            a = self(w[1])
            if vg.num(w[2]):
                return a if a is ANY else a ** w[2].args[0]
            self.none(n, w[1], 'base of a variable power')
            return ONE
        if k in ('neg', 'pos', 'abs', 'pass'):
            return self(w[1])
        if k == 'fn':
            if w[1] in ('log', 'log10'):
                self(w[2])      # may be dimensional: only differences matter
                return ONE
            self.none(n, w[2], w[1])
            return ONE
        if k == 'gradient':
            a = self(w[1])
            if w[2] is None:
                return a
            return a / self(w[2])
        if k == 'integral':
            a, x = self(w[2]), self(w[3]) if w[3] is not None else ONE
            return a * x
        if k == 'reduce':
            if w[1] == 'prod':
                raise Unknown(n)
            return self(w[2])
        if k in ('transpose', 'index'):
            return self(w[1])
        if k == 'shape':
            return self(w[2])
        if k == 'zero':
            return ANY
        raise Unknown(n)


# ---------------------------------------------------------------------------
# random interpretation
# ---------------------------------------------------------------------------
def _hash_real(key):
    seed = os.environ.get('VERIF_SEED', '1')
    h = hashlib.sha256(f"{seed}|{key}".encode()).digest()
    v = int.from_bytes(h[:24], 'big')
    return CTX.divide(D(v), D(2 ** 192)) * 3 + D('0.25')


def _round(v):
    if isinstance(v, D):
        if v == 0:
            return '0'
        with decimal.localcontext(decimal.Context(prec=35)):
            return str((+v).normalize())
    return repr(v)


class Rand:
    """Random interpretation of terms at one point.

    Uninterpreted operators (shape manipulation, lookups) are congruences.
    `vocabulary` collects the names of the uninterpreted operators used.
    """

    def __init__(self, point, atoms=None, axes=None):
        self.point = point
        self.axes = axes
        self.atoms = atoms or (lambda n: None)
        self.memo = {}
        self.uninterpreted = set()

    def __call__(self, n):
        if n.id not in self.memo:
            with decimal.localcontext(CTX):
                self.memo[n.id] = self._ev(n)
        return self.memo[n.id]

    def u(self, name, *parts):
        key = (self.point, name) + tuple(
            _round(p) if isinstance(p, D) else repr(p) for p in parts)
        return _hash_real(key)

    def real(self, n):
        v = self(n)
        if not isinstance(v, D):
            v = self.u('real', v)
        return v

    def _ev(self, n):
        got = self.atoms(n)
        if got is not None:
            if isinstance(got, vg.Node):
                return self(got)
            v = self.u('atom', got)
            if isinstance(got, tuple) and got[0] == 'signed' and \
                    self.u('sign', got) > D('1.75'):
                v = -v
            return v
        if n.op == 'const':
            v = n.args[0]
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return D(repr(v))
            return ('const', repr(v))
        if n.op == 'param':
            return self.u('param', n.args[0])
        if n.op == 'ite':
            c = self.key(n.args[0])
            # gated value: congruence on the gate
            return self.u('ite', c, self.key(n.args[1]), self.key(n.args[2]))
        w = view(n)
        if w is not None:
            r = self._view(w, n)
            if r is not None:
                return r
        self.uninterpreted.add(n.op if n.op != 'call' else
                               'call ' + vg.show(n.args[0], 2))
        return self.u(n.op, *[self.key(a) for a in n.args])

    def key(self, a):
        if isinstance(a, vg.Node):
            v = self(a)
            return _round(v) if isinstance(v, D) else repr(v)
        if isinstance(a, tuple):
            return tuple(self.key(x) for x in a)
        return repr(a)

    def _view(self, w, n):
        k = w[0]
        R = self.real
        if k == '+':
            return R(w[1]) + R(w[2])
        if k == '-':
            return R(w[1]) - R(w[2])
        if k in ('*', 'outer'):
            return R(w[1]) * R(w[2])
        if k == '/':
            d = R(w[2])
            if d == 0:
                return self.u('div0', R(w[1]))
            return R(w[1]) / d
        if k == '**':
            return self.power(R(w[1]), R(w[2]))
        if k == 'neg':
            return -R(w[1])
        if k in ('pos', 'pass'):
            return self(w[1])
        if k == 'abs':
            return abs(R(w[1]))
        if k in ('max', 'min'):
            a, b = sorted((R(w[1]), R(w[2])))
            return self.u(k, a, b)
        if k == 'clip':
            m = self.u('max', *sorted((R(w[1]), R(w[2]))))
            return self.u('min', *sorted((m, R(w[3]))))
        if k == 'fn':
            a = R(w[2])
            if w[1] == 'log' and a > 0:
                return a.ln()
            if w[1] == 'log10' and a > 0:
                return a.log10()
            if w[1] == 'exp' and abs(a) < 500:
                return a.exp()
            if w[1] in ('sin', 'cos', 'tan') and abs(a) < 50:
                s, c = sincos(a)
                return {'sin': s, 'cos': c}.get(w[1]) or s / c
            return self.u('fn', w[1], a)
        if k == 'gradient':
            # linear in its first operand: factor out a numeric constant
            c, body = split_const(w[1])
            x = self.key(w[2]) if w[2] is not None else None
            ax = self.axis_key(w[1], w[3]) if w[3] is not None else None
            return c * self.u('gradient', R(body), x, ax)
        if k == 'integral':
            c, body = split_const(w[2])
            return c * self.u('integral', w[1], R(body),
                              self.key(w[3]) if w[3] is not None else None,
                              self.axis_key(w[2], w[4]))
        if k == 'reduce':
            ax = self.axis_key(w[2], w[3])
            if w[1] in ('sum', 'mean'):
                c, body = split_const(w[2])
                return c * self.u('reduce', w[1], R(body), ax)
            return self.u('reduce', w[1], R(w[2]), ax)
        if k == 'transpose' and self.axes is not None:
            # the generic element is unchanged; alignment is the business of
            # the axes domain
            self.axes(n)
            return self(w[1])
        if k == 'index':
            return self.index(w[1], w[2])
        if k == 'shape':
            return self(w[2])
        return None

    def axis_key(self, arr, axis):
        if self.axes is not None and vg.num(axis):
            try:
                a = self.axes(arr)
                return a[axis.args[0]]
            except (Unknown, IndexError):
                pass
        return self.key(axis)

    def last(self, idx):
        """Scalar index on the last (or only) axis, else None."""
        if idx.op == 'tuple':
            if len(idx.args) == 2 and vg.is_const(idx.args[0], Ellipsis):
                idx = idx.args[1]
            else:
                return None
        if idx.op in ('slice', 'list', 'tuple', 'cmp') or (
                idx.op == 'const' and not vg.num(idx)):
            return None
        return self.real(idx)

    def index(self, base, idx):
        # read over write
        if base.op == 'setitem' and view(base) is None:
            i, j = self.last(base.args[1]), self.last(idx)
            if i is not None and j is not None:
                if _round(i) == _round(j):
                    return self.real(base.args[2])
                return self.index(base.args[0], idx)
        if base.op == 'attr' and base.args[1] == 'shape' and vg.num(idx):
            return self.u('size', self.axis_key(base.args[0], idx))
        items = idx.args if idx.op == 'tuple' else (idx,)
        axes = None
        if self.axes is not None:
            try:
                axes = self.axes(base)
            except Unknown:
                axes = None
        keys = []
        pos, n = 0, len(items)
        seen = False
        for i, it in enumerate(items):
            if vg.is_const(it, Ellipsis):
                seen = True
                pos = -(n - i - 1)
                continue
            if vg.is_const(it, None):
                continue
            name = pos
            if axes is not None:
                try:
                    name = axes[pos]
                except IndexError:
                    name = pos
            sel = self.selection(it, base, pos)
            if sel != 'all':
                keys.append((str(name), sel))
            pos += 1
        if not keys:
            return self(base)
        return self.u('index', self.real(base), sorted(keys))

    def selection(self, it, base, pos):
        n = None

        def size():
            return self.u('size', self.axis_key(base, vg.const(pos)))
        if it.op == 'slice':
            lo, hi, st = it.args
            if not vg.is_const(st, None):
                return ('slice', self.key(it))
            if vg.is_const(lo, None) and vg.is_const(hi, None):
                return 'all'
            a = D(0) if vg.is_const(lo, None) else self.real(lo)
            b = size() if vg.is_const(hi, None) else self.real(hi)
            if a < 0:
                a = size() + a
            if b < 0:
                b = size() + b
            return segs([(a, b)])
        if it.op == 'list':
            out = []
            for x in it.args:
                if x.op == 'star':
                    r = x.args[0]
                    while r.op == 'call' and r.args[0].op == 'ref' and \
                            r.args[0].args[0] in ('builtins.list',
                                                  'builtins.tuple'):
                        r = r.args[1][0]
                    if r.op == 'call' and r.args[0].op == 'ref' and \
                            r.args[0].args[0] in ('builtins.range',
                                                  'numpy.arange'):
                        a = r.args[1]
                        if len(a) == 1:
                            out.append((D(0), self.real(a[0])))
                        elif len(a) == 2:
                            out.append((self.real(a[0]), self.real(a[1])))
                        else:
                            return ('idx', self.key(it))
                    else:
                        return ('idx', self.key(it))
                else:
                    v = self.real(x)
                    if v < 0:
                        v = size() + v
                    out.append((v, v + 1))
            return segs(out)
        if vg.num(it):
            return ('at', self.key(it))
        return ('idx', self.key(it))

    def power(self, a, e):
        if e == e.to_integral_value() and abs(e) < 64:
            if a == 0 and e < 0:
                return self.u('div0')
            return a ** int(e)
        if a > 0:
            return (e * a.ln()).exp()
        # power of a negative real: congruence, but (-x)^0.5 squared is rare
        return self.u('pow', a, e)


def sincos(x):
    out = []
    for k0 in (1, 0):
        term, total, k = (x if k0 else D(1)), D(0), k0
        while abs(term) > D('1e-70'):
            total += term
            term = -term * x * x / ((k + 1) * (k + 2))
            k += 2
        out.append(total)
    return out


def segs(parts):
    out = []
    for a, b in parts:
        if out and _round(out[-1][1]) == _round(a):
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return ('seg', tuple((_round(a), _round(b)) for a, b in out))


class Axes:
    """Named axes of array terms; Mismatch when broadcasting misaligns them."""

    def __init__(self, atoms):
        self.atoms = atoms      # node -> tuple of names or None
        self.memo = {}
        self.checked = 0

    def __call__(self, n):
        if n.id not in self.memo:
            self.memo[n.id] = self._ev(n)
        return self.memo[n.id]

    def cast(self, n, *nodes):
        out = ()
        for x in nodes:
            a = self(x)
            k = max(len(out), len(a))
            p = ('?',) * (k - len(out)) + out
            q = ('?',) * (k - len(a)) + a
            new = []
            for i, j in zip(p, q):
                if i in ('?', '1'):
                    new.append(j)
                elif j in ('?', '1'):
                    new.append(i)
                elif i == j:
                    new.append(i)
                else:
                    raise Mismatch(
                        f"broadcasts axis '{i}' against axis '{j}'", n)
                self.checked += 1
            out = tuple(new)
        return out

    def _ev(self, n):
        got = self.atoms(n)
        if got is not None:
            return got
        if n.op == 'const':
            return ()
        if n.op == 'loop':
            return self(n.args[0].args[1])
        if n.op == 'ite':
            vals = [self(x) for x in n.args[1:] if x.op != 'raise']
            if len(set(vals)) == 1:
                return vals[0]
            raise Unknown(n)
        w = view(n)
        if w is None:
            if n.op == 'setitem':
                return self(n.args[0])
            raise Unknown(n)
        k = w[0]
        if k in ('+', '-', '*', '/', '**', 'max', 'min', 'clip'):
            return self.cast(n, *w[1:])
        if k == 'outer':
            return self(w[1]) + self(w[2])
        if k in ('neg', 'pos', 'pass', 'abs'):
            return self(w[1])
        if k == 'fn':
            return self(w[2])
        if k == 'gradient':
            return self(w[1])
        if k in ('integral', 'reduce'):
            a = self(w[2])
            ax = w[4] if k == 'integral' else w[3]
            if not vg.num(ax):
                if vg.is_const(ax, None):
                    return ()
                raise Unknown(n)
            i = ax.args[0]
            if not -len(a) <= i < len(a):
                raise Unknown(n)
            i %= len(a)
            return a[:i] + a[i + 1:]
        if k == 'transpose':
            a = self(w[1])
            if w[2].op != 'tuple' or not all(vg.num(x) for x in w[2].args):
                raise Unknown(n)
            p = [x.args[0] for x in w[2].args]
            if sorted(p) != list(range(len(a))):
                raise Unknown(n)
            return tuple(a[i] for i in p)
        if k == 'index':
            a = self(w[1])
            items = w[2].args if w[2].op == 'tuple' else (w[2],)
            out, pos = [], 0
            for i, it in enumerate(items):
                if vg.is_const(it, Ellipsis):
                    left = sum(1 for x in items[i + 1:]
                               if not vg.is_const(x, None))
                    end = len(a) - left
                    out.extend(a[pos:end])
                    pos = end
                elif vg.is_const(it, None):
                    out.append('1')
                elif it.op in ('slice', 'list'):
                    if pos >= len(a):
                        raise Unknown(n)
                    out.append(a[pos])
                    pos += 1
                elif vg.num(it) or it.op in ('index',) or \
                        self.atoms(it) == ():
                    pos += 1
                else:
                    raise Unknown(n)
            out.extend(a[pos:])
            return tuple(out)
        if k == 'zero' and n.op == 'call' and n.args[1]:
            sh = n.args[1][0]
            if sh.op not in ('tuple', 'list'):
                sh = vg.N('tuple', sh)
            out = []
            for d in sh.args:
                if d.op == 'star':
                    out.extend(self.extent(d.args[0]))
                else:
                    out.append(self.length(d))
            return tuple(out)
        raise Unknown(n)

    def extent(self, s):
        """Axes of a (sliced) shape tuple."""
        if s.op == 'ite':
            both = {self.extent(x) for x in s.args[1:]}
            if len(both) == 1:
                return both.pop()
        if s.op == 'attr' and s.args[1] == 'shape':
            return self(s.args[0])
        if s.op == 'sub' and s.args[1].op == 'slice':
            a = self.extent(s.args[0])
            b = [x.args[0] for x in s.args[1].args if x.op == 'const']
            if len(b) == 3:
                return a[slice(*b)]
        raise Unknown(s)

    def length(self, d):
        if d.op == 'sub' and vg.num(d.args[1]):
            return self.extent(d.args[0])[d.args[1].args[0]]
        if d.op == 'call' and d.args[0].op == 'ref' and \
                d.args[0].args[0] == 'builtins.len':
            a = self(d.args[1][0])
            if a:
                return a[0]
        raise Unknown(d)


def filled(loop):
    """Values stored by a fill loop: loop(init, dmerge(mu, comp dict))."""
    out = []
    for _, part in loop.args[4]:
        for m in vg.walk(part):
            if m.op == 'comp' and m.args[0] == 'dict' and \
                    m.args[1].op == 'tuple' and len(m.args[1].args) == 2:
                out.append(m.args[1].args[1])
    if not out:
        raise Unknown(loop)
    return out


def split_const(n):
    """Split a numeric constant factor off a product."""
    if n.op == 'bin' and n.args[0] == '*':
        for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
            if vg.num(a):
                return D(repr(a.args[0])), b
    if n.op == 'un' and n.args[0] == '-':
        c, b = split_const(n.args[1])
        return -c, b
    return D(1), n


POINTS = (0, 1, 2, 3, 4, 5)


def equal(a, b, atoms=None, tol=D('1e-12'), axes=None):
    """True / False / None (undecided: uninterpreted vocabulary differs)."""
    if a is b:
        return True
    vocab = []
    for p in POINTS:
        ra, rb = Rand(p, atoms, axes), Rand(p, atoms, axes)
        va, vb = ra.real(a), rb.real(b)
        vocab = (ra.uninterpreted, rb.uninterpreted)
        scale = max(abs(va), abs(vb), D('1e-30'))
        if abs(va - vb) > tol * scale:
            if vocab[0] <= vocab[1]:
                return False
            return None
    return True
