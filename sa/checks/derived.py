"""Derived (computed) quantities: dimensions, formulas, wiring."""

import ast
import re

from .. import fold, model, numdom, oracle, vg
from ..report import Check
from .tables import table

MODULE = 'core.computed'

# axes of the primitive inputs (EPREM output layout, documented in datafile
# and observer): canonical order is time, shell, species, energy, mu
ORDER = ('time', 'shell', 'species', 'energy', 'mu')
FLOW = ('time', 'shell')
SIGNED = {'br', 'bt', 'bp', 'vr', 'vt', 'vp', 'vtheta', 'vphi', 'Br', 'Bt',
          'Bp', 'Vr', 'Vt', 'Vp'}
PRIMITIVE = {          # canonical reference name -> axes
    'time': ('time',), 'energy': ('species', 'energy'),
    'speed': ('species', 'energy'), 'radius': FLOW, 'theta': FLOW,
    'phi': FLOW, 'Br': FLOW, 'Bt': FLOW, 'Bp': FLOW, 'Vr': FLOW, 'Vt': FLOW,
    'Vp': FLOW, 'rho': FLOW, 'dist': ORDER, 'mass': (), 'charge': (),
}
SCALAR = {             # runtime parameters -> dimension
    'mfp_radial_power': 'ratio', 'rigidity_power': 'ratio',
    'lambda0': 'length', 'lam0': 'length', 'lamo': 'length',
    'kper_kpar': 'ratio', 'minimum_energy': 'energy',
}


class Subject:
    """The registered functions and the tables they are wired to."""

    def __init__(self, program):
        self.program = program
        self.module = program.module(MODULE)
        self.methods = {}
        for f in self.module.functions.values():
            for d in f.node.decorator_list:
                call = d if isinstance(d, ast.Call) else None
                base = call.func if call else d
                if isinstance(base, ast.Attribute) and \
                        base.attr == 'register':
                    kw = {k.arg: k.value for k in call.keywords} \
                        if call else {}
                    self.methods[f.name] = (f, kw)
        if not self.methods:
            raise model.AnalysisError('no registered derived quantities')
        self.base = table(program, 'core.reference', '_BASE')
        self.canon = {}
        self.quantity = {}
        for k, v in self.base.items():
            names = (k,) if isinstance(k, str) else tuple(k)
            for n in names:
                self.canon.setdefault(n, names[0])
            self.quantity[names[0]] = v.get('quantity') if isinstance(
                v, dict) else None
        self.qs = table(program, 'core.metric', '_QUANTITIES')
        self.method_of = {}
        for name in self.methods:
            self.method_of.setdefault(self.canon.get(name, name), name)
        self.graph = vg.Graph(program, keep=('find_nearest',))
        self.spec = program.spec('computed')
        self._sum = {}
        self._raw = {}
        self.override = {}

    def labels(self, value):
        """Axis names declared in a register() keyword."""
        if value is None:
            return ()
        try:
            v = ast.literal_eval(value)
        except ValueError:
            return None
        return (v,) if isinstance(v, str) else tuple(v)

    def summary(self, name):
        if name not in self._sum:
            f = self.methods[name][0]
            layout = {p: self.axes_name(p) for p in self.params(name)}
            self._raw[name] = self.graph.summary(f)[0]
            self._sum[name] = specialise(
                self, self._raw[name],
                {p: len(a) for p, a in layout.items() if a is not None})
        return self._sum[name]

    def params(self, name):
        f = self.methods[name][0]
        a = f.node.args
        out = [p.arg for p in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        return out + [p.arg for p in a.kwonlyargs]

    def dim_name(self, name):
        """Declared dimension of a named quantity."""
        if name in SCALAR:
            return oracle.QUANTITY[SCALAR[name]]
        c = self.canon.get(name)
        q = self.quantity.get(c)
        if q is None:
            return None
        return quantity_dim(q)

    def axes_name(self, name, stack=()):
        """Axes of a parameter by name (None: unknown)."""
        if name in self.override:
            return self.override[name]
        if name in SCALAR:
            return ('minimum energy',) if name == 'minimum_energy' else ()
        c = self.canon.get(name)
        if c in PRIMITIVE:
            return PRIMITIVE[c]
        m = self.method_of.get(c)
        if m is None or m in stack:
            return None
        return self.declared_axes(m, stack + (m,))

    def declared_axes(self, m, stack=()):
        f, kw = self.methods[m]
        removed, added = (self.labels(kw.get(k)) for k in ('removed',
                                                           'added'))
        if removed is None or added is None:
            return None
        acc = set()
        for p in self.params(m):
            if p == 'minimum_energy':
                continue
            a = self.axes_name(p, stack)
            if a is None:
                return None
            acc |= set(a)
        acc = (acc - set(removed)) | set(added)
        return tuple(a for a in ORDER if a in acc) + tuple(
            a for a in added if a not in ORDER)

    # -- atoms -------------------------------------------------------------
    def constant(self, n):
        """('mks', 'c') for a lookup of a fundamental constant."""
        if n.op == 'call' and n.args[0].op == 'ref' and n.args[0].args[0] in (
                'builtins.float', 'numpy.float64') and len(n.args[1]) == 1:
            return self.constant(n.args[1][0])
        if n.op == 'sub' and n.args[1].op == 'const' and isinstance(
                n.args[1].args[0], str):
            b = n.args[0]
            if b.op == 'ref' and isinstance(b.args[0], str):
                mod, _, name = b.args[0].rpartition('.')
                try:
                    v = fold.folder(self.program).get(mod, name)
                except model.AnalysisError:
                    return None
                if isinstance(v, fold.Obj) and v.args and isinstance(
                        v.args[0], str) and str(getattr(
                            v.cls, 'name', v.cls)).endswith('Constants'):
                    return (v.args[0].lower(), n.args[1].args[0])
            if b.op == 'new' and b.args[0].endswith('Constants'):
                for k, v in b.args[1]:
                    if isinstance(v, vg.Node) and v.op == 'const' and \
                            isinstance(v.args[0], str):
                        return (v.args[0].lower(), n.args[1].args[0])
        return None

    def nearest(self, n):
        """(array, which) for parts of a nearest-value lookup."""
        if n.op in ('sub', 'attr') and n.args[0].op == 'call' and \
                n.args[0].args[0].op == 'fn' and \
                n.args[0].args[0].args[0].endswith('find_nearest'):
            which = n.args[1]
            if isinstance(which, vg.Node):
                which = which.args[0] if which.op == 'const' else None
            which = {0: 'index', 1: 'value'}.get(which, which)
            args = self.call_args(n.args[0])
            if args and which in ('index', 'value'):
                return args[0], which
        return None

    def call_args(self, n):
        """Positional view of a call to a repository function."""
        names = self.program.func(n.args[0].args[0]).params
        kw = dict(n.args[2])
        out = list(n.args[1])
        for p in names[len(out):]:
            if p not in kw:
                break
            out.append(kw[p])
        return out

    def dim_atom(self, ev):
        def atoms(n):
            k = self.constant(n)
            if k is not None:
                c = oracle.CONSTANTS.get(k[1])
                if c is None or k[0] != 'mks':
                    raise numdom.Unknown(n)
                return c[1]
            if n.op == 'param':
                d = self.dim_name(n.args[0].lstrip('*'))
                if d is None:
                    raise numdom.Unknown(n)
                return d
            r = self.nearest(n)
            if r is not None:
                return oracle.ONE if r[1] == 'index' else ev[0](r[0])
            if n.op == 'elem':
                return ev[0](n.args[0])
            if n.op == 'ref' and n.args[0] == 'sys.float_info.min':
                return numdom.ANY
            if n.op == 'attr' and n.args[1] in ('ndim', 'shape', 'size'):
                return oracle.ONE
            return None
        return atoms

    def rand_atom(self, n):
        k = self.constant(n)
        if k is not None:
            return ('constant', k)
        if n.op == 'param' and self.canon.get(n.args[0]) in SIGNED:
            return ('signed', n.args[0])
        return None

    def axes_atom(self, ev):
        def atoms(n):
            if self.constant(n) is not None:
                return ()
            if n.op == 'param':
                a = self.axes_name(n.args[0].lstrip('*'))
                if a is None:
                    raise numdom.Unknown(n)
                return a
            r = self.nearest(n)
            if r is not None:
                return ()
            if n.op == 'elem':
                return ev[0](n.args[0])[1:]
            if n.op == 'bin' and n.args[0] in '+-':
                for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
                    r = self.nearest(a)
                    if r and r[1] == 'index' and vg.num(b):
                        return ()
            # only the general layout (species axis present) is typed
            if n.op == 'ite' and n.args[0].op == 'cmp' and vg.contains(
                    n.args[0], lambda x: x.op == 'attr' and
                    x.args[1] == 'ndim'):
                got = self.ndim_branch(n, ev[0])
                if got is not None:
                    return ev[0](got)
            return None
        return atoms

    def ndim_branch(self, n, ev):
        """Select the branch of `x.ndim == k` for the declared layout."""
        op, a, b = n.args[0].args
        if op != '==':
            return None
        for x, k in ((a, b), (b, a)):
            if x.op == 'attr' and x.args[1] == 'ndim' and vg.num(k):
                return n.args[1] if len(ev(x.args[0])) == k.args[0] \
                    else n.args[2]
        return None


def quantity_dim(text):
    """Dimension of a (compound) quantity description, by the oracle."""
    names = sorted(oracle.QUANTITY, key=len, reverse=True)
    work = text.replace('_', ' ')
    table_ = {}
    for i, n in enumerate(names):
        tok = f"Q{i:03d}"
        if n in work:
            work = re.sub(rf"(?<![A-Za-z]){re.escape(n)}(?![A-Za-z])", tok,
                          work)
            table_[tok] = oracle.QUANTITY[n]
    out = oracle.ONE
    for s, k in oracle.parse(work):
        if s == '1':
            continue
        if s not in table_:
            raise ValueError(text)
        out = out * (table_[s] ** k)
    return out


_cache = {}


def subject(program):
    if id(program) not in _cache:
        _cache[id(program)] = Subject(program)
    return _cache[id(program)]


def at(s, name):
    return s.methods[name][0].where


def d01(program, tier):
    c = Check('D01', 'physical-dimension inference over the value graph of '
              'every registered derived quantity: sums and comparisons must '
              'be homogeneous, transcendental arguments dimensionless, and '
              'the result must have the dimension of the declared quantity',
              floor=15, assumptions=[
                  'inputs carry the dimension their reference entry declares',
                  'the unit oracle (sa/oracle.py) is right'])
    s = subject(program)
    total = 0
    for name in s.methods:
        cell = []
        ev = numdom.DimEval(s.dim_atom(cell))
        cell.append(ev)
        try:
            got = ev(s.summary(name))
        except numdom.Mismatch as err:
            c.bad(f"{name}/homogeneous", at(s, name),
                  f"{err} in {vg.show(err.node, 4)[:160]}")
            continue
        except (numdom.Unknown, ValueError) as err:
            c.unsure(f"{name}/homogeneous", at(s, name),
                     vg.show(err.args[0], 3)[:160] if err.args and isinstance(
                         err.args[0], vg.Node) else str(err))
            continue
        total += ev.checked
        c.ok(f"{name}/homogeneous", at(s, name),
             f"{ev.checked} combinations")
        try:
            want = s.dim_name(name)
        except ValueError:
            want = None
        if want is None:
            c.bad(f"{name}/declared", at(s, name),
                  'no declared metric quantity')
        elif got is numdom.ANY:
            c.unsure(f"{name}/declared", at(s, name))
        else:
            c.judge(f"{name}/declared", got == want, at(s, name),
                    f"computes [{got}], declared as [{want}]")
    c.extra['combinations_checked'] = total
    return c


def d02(program, tier):
    c = Check('D02', 'value-graph equivalence (random interpretation over '
              'the reals, exact arithmetic) between every registered derived '
              'quantity and its reference formula', floor=14, assumptions=[
                  'real arithmetic: rounding is not modelled',
                  'reference formulas in sa/specs/computed.py are right'])
    s = subject(program)
    for name in s.methods:
        f = s.methods[name][0]
        if name == 'integral_flux':
            _integral(c, s)
            continue
        if name not in s.spec.functions:
            c.unsure(name, at(s, name), 'no reference formula')
            continue
        spec = s.spec.functions[name]
        mine = [s.canon.get(p, p) for p in s.params(name)]
        ref = [a.arg for a in spec.node.args.args]
        args = {}
        for p in ref:
            k = s.canon.get(p, p)
            if k in mine:
                args[p] = vg.N('param', s.params(name)[mine.index(k)])
        if len(args) != len(ref) or len(set(mine)) != len(mine):
            missing = sorted(set(s.canon.get(p, p) for p in ref) - set(mine))
            if missing and len(set(mine)) == len(mine):
                c.bad(name, at(s, name),
                      f"does not depend on {', '.join(missing)}")
            else:
                c.unsure(name, at(s, name), 'parameters renamed')
            continue
        want = s.graph.summary(spec, args)[0]
        c.judge(name, compare(s, s.summary(name), want), at(s, name),
                'value differs from the reference formula')
    return c


def compare(s, a, b):
    cell = []
    ax = numdom.Axes(s.axes_atom(cell))
    cell.append(ax)

    def axes(n):
        try:
            return ax(n)
        except numdom.Mismatch as err:
            raise numdom.Unknown(err.node)
    try:
        return numdom.equal(a, b, s.rand_atom, axes=axes)
    except numdom.Unknown:
        return numdom.equal(a, b, s.rand_atom)


def gate(n, limit=40):
    """Lift the first gates out of a tuple of terms."""
    for part in n.args:
        if part.op == 'ite':
            c = part.args[0]
            t = vg.N('tuple', *[vg.restrict(p, c, True) for p in n.args])
            f = vg.N('tuple', *[vg.restrict(p, c, False) for p in n.args])
            if limit <= 0:
                return n
            return vg.mk_ite(c, gate(t, limit - 1), gate(f, limit - 1))
    return n


def specialise(s, n, layout):
    """Resolve `x.ndim == k` gates for the given parameter ranks."""
    def rank(x):
        if x.op == 'param':
            return layout.get(x.args[0])
        if x.op == 'sub':
            r = rank(x.args[0])
            items = x.args[1].args if x.args[1].op == 'tuple' else (
                x.args[1],)
            if r is None:
                return None
            for it in items:
                if vg.is_const(it, None):
                    r += 1
                elif it.op != 'slice' and not vg.is_const(it, Ellipsis):
                    return None
            return r
        return None

    def fn(x):
        if x.op == 'ite' and x.args[0].op == 'cmp' and \
                x.args[0].args[0] in ('==', '<', '<=', '!='):
            op, a, b = x.args[0].args
            vals = []
            for y in (a, b):
                if vg.num(y):
                    vals.append(y.args[0])
                elif y.op == 'attr' and y.args[1] == 'ndim':
                    vals.append(rank(y.args[0]))
                else:
                    vals.append(None)
            if None not in vals:
                ok = {'==': vals[0] == vals[1], '!=': vals[0] != vals[1],
                      '<': vals[0] < vals[1], '<=': vals[0] <= vals[1]}[op]
                return x.args[1] if ok else x.args[2]
        return x
    return vg.rebuild(n, fn)


def strip(n):
    """Look through copies and array casts."""
    while True:
        w = numdom.view(n)
        if w and w[0] == 'pass':
            n = w[1]
        else:
            return n


def _integral(c, s):
    """Integral flux: what is integrated, over what, and where it is put."""
    where = at(s, 'integral_flux')
    names = s.params('integral_flux')
    role = {s.canon.get(p, p): p for p in names}
    if not {'energy', 'flux', 'minimum_energy'} <= set(role):
        c.unsure('integral_flux', where, 'parameters renamed')
        return
    v = s.summary('integral_flux')
    energies = vg.N('param', role['energy'])
    flux = vg.N('param', role['flux'])
    vararg = s.methods['integral_flux'][0].node.args.vararg
    bounds = vg.N('param', '*' + role['minimum_energy']) if vararg else \
        vg.N('param', role['minimum_energy'])
    sites = [n for n in vg.walk(v) if n.op == 'call'
             and (numdom.view(n) or ('',))[0] == 'integral']
    if not sites:
        c.unsure('integral_flux', where, 'no quadrature found')
        return
    for n in sites:
        w = numdom.view(n)
        y, x = w[2], w[3]
        if x is None:
            c.bad('integral_flux/abscissa', where,
                  'integrates over sample number, not over energy')
            continue
        for guards, leaf in vg.leaves(gate(vg.N('tuple', y, x))):
            _operand(c, s, where, guards, leaf, energies, flux, bounds)
    for n in vg.walk(v):
        if n.op == 'comp' and n.args[0] == 'dict' and n.args[1].op == \
                'tuple' and any(k is n.args[1].args[1] for k in sites):
            _bins(c, where, n.args[1].args[0], energies, bounds)


def _operand(c, s, where, guards, leaf, energies, flux, bounds):
    y, x = leaf.args
    elems = [n for n in vg.walk(leaf) if n.op == 'elem'
             and n.args[0] is energies]
    marks = {n for n in vg.walk(leaf) if n.op == 'index'
             and n.args[0] is energies}
    species = marks.pop() if len(marks) == 1 else None
    if len(set(elems)) != 1 or species is None:
        c.unsure('integral_flux/operands', where, 'loop shape not modelled')
        return
    e = elems[0]
    f = vg.N('sub', flux, vg.N('tuple', vg.const(Ellipsis), species,
                               vg.N('slice', vg.NONE, vg.NONE, vg.NONE)))
    near = {n for n in vg.walk(leaf) if s.nearest(n)}
    if not near:
        c.judge('integral_flux/whole-spectrum',
                _both(compare(s, y, f), compare(s, x, e)), where,
                'quadrature of something other than flux over energy')
        for g, pol in guards:
            _gate(c, where, g, pol, energies, e, bounds)
        return
    calls = {n.args[0] for n in near}
    if len(calls) != 1:
        c.unsure('integral_flux/lower-edge', where, 'several lookups')
        return
    call = calls.pop()
    args = s.call_args(call) + [None, None]
    arr, m = strip(args[0]), args[1]
    bound = dict(call.args[2]).get('bound', args[2])
    if m is None:
        c.unsure('integral_flux/lower-edge', where)
        return
    c.judge('integral_flux/lookup-array', True if arr is e else None, where)
    c.judge('integral_flux/lookup-bound',
            bound is not None and vg.is_const(bound, 'upper'), where,
            'the bracketing energy must not exceed the requested minimum '
            f"(bound={vg.show(bound) if bound is not None else None})")
    i = vg.N('sub', call, vg.const(0))
    spec = s.graph.summary(s.spec.functions['tail'],
                           {'f': f, 'x': e, 'i': i, 'm': m})[0]
    old = s.rand_atom

    def atom(n):
        r = s.nearest(n)
        if r is not None:
            if r[1] == 'index':
                return ('nearest index',)
            return vg.N('sub', strip(r[0]), i)
        return old(n)
    for part, got, want in (('flux', y, spec.args[0]),
                            ('energy', x, spec.args[1])):
        c.judge(f"integral_flux/lower-edge-{part}",
                numdom.equal(got, want, atom), where,
                f"{part} samples above the minimum energy differ from the "
                'power-law reference')
    elem = [n for n in vg.walk(m) if n.op == 'elem' and n.args[0] is bounds]
    w = numdom.view(m)
    if elem and (m is elem[0] or (w and w[0] == 'max' and
                                  elem[0] in w[1:])):
        c.ok('integral_flux/minimum', where)
    elif w and w[0] == 'min':
        c.bad('integral_flux/minimum', where, 'minimum energy is capped')
    else:
        c.unsure('integral_flux/minimum', where)


def _gate(c, where, g, pol, energies, e, bounds):
    key = 'integral_flux/whole-spectrum-gate'
    if g.op == 'not':
        g, pol = g.args[0], not pol
    if g.op != 'cmp' or g.args[0] not in ('<', '<='):
        c.unsure(key, where)
        return
    lo, hi = g.args[1], g.args[2]
    if not pol:
        lo, hi = hi, lo
    has = [vg.contains(t, lambda x: x is bounds) for t in (lo, hi)]
    w = [numdom.view(t) for t in (lo, hi)]
    if has == [True, False]:
        if w[1] and w[1][0] == 'reduce' and strip(w[1][2]) in (energies, e):
            c.judge(key, w[1][1] == 'min', where,
                    f"compares with the {w[1][1]} energy")
        else:
            c.unsure(key, where)
    elif has == [False, True] and w[0] and w[0][0] == 'reduce':
        c.bad(key, where, 'the whole spectrum is used when the minimum '
              'energy is above, not below, the sampled energies')
    else:
        c.unsure(key, where)


def _both(*vs):
    if False in vs:
        return False
    return None if None in vs else True


def _bins(c, where, key, energies, bounds):
    name = 'integral_flux/placement'
    if key.op != 'tuple' or len(key.args) < 2:
        c.unsure(name, where)
        return
    a, b = key.args[-2:]
    kinds = [n.args[0] if n.op == 'index' else None for n in (a, b)]
    if kinds == [energies, bounds]:
        c.ok(name, where)
    elif kinds == [bounds, energies]:
        c.bad(name, where, 'species and minimum-energy axes are exchanged')
    else:
        c.unsure(name, where)


def d03(program, tier):
    c = Check('D03', 'named-axes inference over the value graph of every '
              'registered derived quantity (broadcasting may only align '
              'equal axes; the result must have the declared axes), plus '
              'resolution of every parameter name', floor=40, assumptions=[
                  'primitive inputs have the documented EPREM layout'])
    s = subject(program)
    for name in s.methods:
        where = at(s, name)
        want = s.declared_axes(name, (name,))
        cell = []
        ax = numdom.Axes(s.axes_atom(cell))
        cell.append(ax)
        if want is None:
            c.unsure(f"{name}/axes", where, 'axes of a parameter unknown')
        else:
            try:
                got = ax(s.summary(name))
                c.judge(f"{name}/axes", got == want, where,
                        f"computes {got}, declared {want}")
            except numdom.Mismatch as err:
                c.bad(f"{name}/axes", where, f"{err} in "
                      f"{vg.show(err.node, 3)[:160]}")
            except numdom.Unknown as err:
                c.unsure(f"{name}/axes", where,
                         vg.show(err.args[0], 3)[:160] if err.args else '')
        _parameters(c, s, name, where)
        if name == 'integral_flux':
            _squeezed(c, s, name, where)
    # dependency graph is well founded
    graph = {m: {s.method_of[k] for k in (s.canon.get(p, p) for p in
                                          s.params(m))
                 if k in s.method_of and k not in PRIMITIVE}
             for m in s.methods}
    for m in graph:
        c.judge(f"{m}/acyclic", not reaches(graph, m), at(s, m),
                'depends on itself')
    return c


def _squeezed(c, s, name, where):
    """A lone species may have been squeezed out of energies and flux."""
    role = {s.canon.get(p, p): p for p in s.params(name)}
    if not {'energy', 'flux'} <= set(role):
        return
    s.summary(name)
    for flux, want in (
            (('time', 'shell', 'energy'),
             ('time', 'shell', '1', 'minimum energy')),
            (('time', 'shell', 'species', 'energy'),
             ('time', 'shell', 'species', 'minimum energy'))):
        s.override = {role['energy']: ('energy',), role['flux']: flux}
        key = f"{name}/axes with 1-D energies and {len(flux)}-D flux"
        try:
            v = specialise(s, s._raw[name], {
                k: len(a) for k, a in s.override.items()})
            cell = []
            ax = numdom.Axes(s.axes_atom(cell))
            cell.append(ax)
            got = ax(v)
            c.judge(key, got == want, where, f"computes {got}, not {want}")
        except numdom.Mismatch as err:
            c.bad(key, where, str(err))
        except numdom.Unknown as err:
            c.unsure(key, where, str(err))
        finally:
            s.override = {}


def reaches(graph, m):
    todo, seen = list(graph[m]), set()
    while todo:
        x = todo.pop()
        if x == m:
            return True
        if x not in seen:
            seen.add(x)
            todo.extend(graph[x])
    return False


def _parameters(c, s, name, where):
    scalar_seen = None
    for p in s.params(name):
        canon = s.canon.get(p)
        known = p in SCALAR or p in runtime_names(s.program) \
            or canon in PRIMITIVE or canon in s.method_of
        c.judge(f"{name}({p})/resolves", known, where,
                'names no variable, derived quantity or run-time parameter')
        axes = s.axes_name(p)
        scalar = axes == () or p == 'minimum_energy'
        if axes is None:
            continue
        if scalar:
            scalar_seen = p
        c.judge(f"{name}({p})/order", scalar or scalar_seen is None, where,
                f"array argument {p!r} follows scalar {scalar_seen!r}, but "
                'arrays are passed before scalars')


def runtime_names(program):
    out = set()
    f = fold.folder(program)
    for t in ('_LOCAL', '_CONFIGURATION_C'):
        v = f.get('eprem.runtime', t)
        if isinstance(v, dict):
            for k, row in v.items():
                out.add(k)
                if isinstance(row, dict) and isinstance(
                        row.get('aliases'), (list, tuple)):
                    out.update(row['aliases'])
    return out
