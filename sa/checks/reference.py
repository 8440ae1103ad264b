"""Functions that have to agree with their reference definitions."""

import ast
import fnmatch
import pathlib
import re
import time

from .. import model, refs, sem, vg
from ..report import Check
from . import parameters
from .allocation import PROPS

DEADLINE = 600        # seconds per property
SPECS = pathlib.Path(__file__).resolve().parent.parent / 'specs'


def load(program):
    """All reference modules: {module name: (spec module, covers)}."""
    out = {}
    for path in sorted(SPECS.glob('ref_*.py')):
        m = program.spec(path.stem)
        covers = ()
        for name, node in m.assigns.items():
            if name == 'COVERS':
                covers = ast.literal_eval(node[0].value)
        out[m.base.name if m.base else path.stem] = (m, covers)
    return out


def spec_func(program, m, name):
    cls, _, meth = name.rpartition('.')
    if not cls:
        return m.functions.get(meth)
    c = m.classes.get(cls)
    return c.methods.get(meth) if c else None


def impl_func(program, base, name):
    """(function, receiver class) or None."""
    cls, _, meth = name.rpartition('.')
    if not cls:
        f = base.functions.get(meth)
        if f is None:
            f = program.resolve_name(base, meth)
        return (f, None) if isinstance(f, model.Func) else None
    c = base.classes.get(cls)
    if c is None:
        c = program.resolve_name(base, cls)
    if not isinstance(c, model.Class):
        return None
    f = program.method(c, meth)
    return (f, c) if f is not None else None


def constant(program, m, name):
    """(owner class or None, expression) of a module or class constant."""
    cls, _, attr = name.rpartition('.')
    if not cls:
        got = m.assigns.get(attr)
        return (None, got[-1].value) if got else None
    c = m.classes.get(cls)
    if c is None or c.attrs.get(attr) is None:
        return None
    return c, c.attrs[attr]


def made(program, m, name):
    """A method that the class body makes with a function of its own.

    ``__add__ = _implement('+')`` stands for the method that passes its
    operands on to the function made.
    """
    got = constant(program, m, name)
    if got is None or got[0] is None or not isinstance(got[1], ast.Call):
        return None
    cls, call = got
    if not isinstance(call.func, ast.Name) or \
            call.func.id not in cls.methods:
        return None
    node = ast.parse(f'def {name.split(".")[-1]}(self, other, /):\n'
                     f'    return ({cls.name}.{ast.unparse(call)})'
                     f'(self, other)').body[0]
    ast.increment_lineno(node, call.lineno - 1)
    return model.Func(node, m, cls)


def compare_constant(program, m, name):
    """(verdict, detail, where) for a constant, or None."""
    want = constant(program, m, name)
    if want is None:
        return None
    got = constant(program, m.base, name)
    if got is None:
        return None, 'no such constant', ''
    out = []
    for mod, (cls, node) in ((m.base, got), (m, want)):
        g = vg.Graph(program)
        frame = vg.Frame(mod, cls, None)
        env = vg.Env()
        env['$fx'] = ()
        for k, v in (cls.attrs.items() if cls else ()):
            if v is not None and v is not node and isinstance(
                    v, (ast.Constant, ast.JoinedStr)):
                env[k] = g.ev(v, env, frame)
        out.append(g.ev(node, env, frame))
    where = f'{m.base.rel}:{got[1].lineno}'
    a, b = out
    if a is b:
        return True, 'constant', where
    if a.op == b.op == 'const' and same_pattern(a.args[0], b.args[0]):
        return True, 'pattern', where
    v, detail = sem.equal(program, a, b, count=100, exc='class')
    return v, detail, where


def same_pattern(a, b):
    """Two verbose regular expressions with the same syntax tree."""
    if not (isinstance(a, str) and isinstance(b, str)):
        return False
    try:
        return str(re._parser.parse(a, re.VERBOSE)) == str(
            re._parser.parse(b, re.VERBOSE))
    except re.error:
        return False


def compare_all(program, select, left=lambda: 60):
    """(key, verdict, where, detail) of the selected functions.

    A comparison that leaves a function of the package uninterpreted holds
    only if that function agrees with its reference as well: such functions
    join the list unless some property compares them anyway.  ``select``
    chooses by module name and name, ``left`` tells the seconds available.
    """
    mods = load(program)
    covered = {f'{base}.{name}' for base, (m, covers) in mods.items()
               for name in covers}
    todo, done = [], set()

    def compare(key, impl, spec, recv):
        seconds = left()
        if seconds < 1:
            return key, None, impl.where, 'out of time'
        v, detail = refs.limited(program, impl, spec, recv,
                                 seconds=min(60, seconds))
        if v is True:
            todo.extend(sorted(detail.relies, key=str))
        return key, v, impl.where, detail

    for base, (m, covers) in mods.items():
        for name in covers:
            if not select(base, name):
                continue
            key = f"{base.replace('goats.', '')}.{name}"
            spec = made(program, m, name) or spec_func(program, m, name)
            if spec is None:
                got = compare_constant(program, m, name)
                if got is None:
                    raise model.AnalysisError(f'no reference for {key}')
                yield key, got[0], got[2], got[1]
                continue
            got = made(program, m.base, name) if m.base else None
            if got is not None:
                got = got, got.cls
            elif m.base:
                got = impl_func(program, m.base, name)
            if got is None:
                yield key, None, '', 'no such function'
                continue
            yield compare(key, got[0], spec, got[1])
    for base, (m, covers) in mods.items():
        for f in overriding(program, m):
            if select(base, f.qual.removeprefix(f'{base}.')):
                todo.append((f.qual, f.cls.qual))
    while todo:
        qual, recv = todo.pop(0)
        if qual in covered or (qual, recv) in done:
            continue
        done.add((qual, recv))
        if recv is None and any(q == qual for q, r in done if r):
            continue
        try:
            impl = program.func(qual)
        except model.AnalysisError:
            continue
        spec = program.spec_of(impl)
        key = qual.replace('goats.', '')
        if spec is None:
            yield key, None, impl.where, 'no reference'
            continue
        yield compare(key, impl, spec, program.cls(recv) if recv else
                      impl.cls)


def overriding(program, m):
    """Private methods with a reference that override inherited ones."""
    for c in m.base.classes.values() if m.base else ():
        for f in {id(f): f for f in c.methods.values()}.values():
            if refs.private(f.name) and f.cls is c and \
                    program.spec_of(f) is not None and any(
                        isinstance(b, model.Class) and f.name in b.methods
                        for b in program.mro(c)[1:]):
                yield f


def short_name(base):
    return base.replace('goats.', '').replace('core.', '').replace(
        'eprem.runtime', 'runtime')


def judge(check, program):
    """Compare the functions of one property."""
    patterns = PROPS[check.pid][1]
    count = 0
    for key, verdict, where, detail in compare_all(
            program,
            lambda base, name: any(fnmatch.fnmatchcase(
                f'{short_name(base)}:{name}', p) for p in patterns),
            lambda: check.t0 + DEADLINE - time.time()):
        count += 1
        check.judge(key, verdict, where, detail)
    return count


RULE = ('{}: each listed function is translated to a gated value graph (its '
        'result, the exceptions it raises, the attributes it leaves behind '
        'and the calls it makes for their effect) and has to denote the same '
        'value as the reference definition in sa/specs for every argument; '
        'graphs are compared by congruence and random interpretation, first '
        'with public calls symbolic, then with accessors and finally with '
        'all calls expanded')


EXTRA = {'R01': parameters.units_and_aliases}


def checker(pid, what):
    def run(program, tier='quick'):
        check = Check(pid, RULE.format(what), floor=1, level='other',
                      assumptions=[
                          'calls to functions outside the package are '
                          'deterministic in their arguments',
                          'attributes listed as memo slots are only written '
                          'by the accessors that fill them'])
        n = judge(check, program)
        if pid in EXTRA:
            n += EXTRA[pid](check, program)
        check.floor = max(1, n // 4)
        return check
    return run


for _pid, (_what, _) in PROPS.items():
    globals()[_pid.lower()] = checker(_pid, _what)
