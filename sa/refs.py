"""Equivalence of repository functions with reference definitions.

A reference definition restates, in plain Python that is parsed and never
run, what a function of the repository has to return, raise and leave behind.
The repository function and the reference are translated to gated value
graphs and compared by random interpretation (sa/sem.py): first with calls to
public functions kept symbolic, then with accessors expanded, finally with
everything expanded, so that moving code between helpers does not matter.
"""

import ast
import os
import signal

from . import model, sem, vg
from .vg import N

VIEWS = ('public', 'accessor', 'full', 'modular')
BUDGET = {'public': 4000, 'accessor': 4000, 'full': 2500, 'modular': 4000}


class Proof(str):
    """The view two functions are equal in, with what this relies on."""
    relies = frozenset()


def relies_on(program, *outcomes):
    """Functions of the package that an equality leaves uninterpreted.

    The equality holds if each of them agrees with its own reference
    definition; attributes of objects of unknown type stand for every
    private method of that name.
    """
    out, seen = set(), set()
    methods = named(program)
    for o in outcomes:
        for root in [o.value, *o.cells.values(), *o.other, *o.objs]:
            for n in vg.walk(root, seen):
                if n.op == 'fn':
                    out.add((n.args[0], None))
                elif n.op == 'bound':
                    t = o.graph.type_of(n.args[0])
                    out.add((n.args[1], t.qual if t is not None else None))
                elif n.op == 'attr' and private(n.args[1]):
                    out |= {(q, None) for q in methods.get(n.args[1], ())}
    return frozenset(x for x in out if x[0].startswith('goats.'))


_METHODS = {}


def named(program):
    """{private name: methods of that name}"""
    got = _METHODS.get(id(program))
    if got is None:
        names = {}
        for m in program.modules.values():
            if m.spec:
                continue
            for c in m.classes.values():
                for f in c.methods.values():
                    if private(f.name):
                        names.setdefault(f.name, []).append(f.qual)
        got = _METHODS[id(program)] = (program, names)
    return got[1]


def keeper(program, view):
    def keep(f):
        if view == 'modular':
            # private functions that have a reference of their own are
            # compared separately
            return f.module.spec or program.spec_of(f) is not None or not \
                private(f.name)
        if f.name.startswith('_') and not (
                f.name.startswith('__') and f.name.endswith('__')):
            return False
        if view == 'public':
            return True
        if view == 'accessor':
            return not f.is_property
        return False
    return keep


def signature(func, skip):
    a = func.node.args
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    dflt = dict(zip([p.arg for p in a.posonlyargs + a.args][::-1],
                    list(a.defaults)[::-1]))
    kwo = [p.arg for p in a.kwonlyargs]
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dflt[p.arg] = d
    return (pos, kwo, a.vararg.arg if a.vararg else None,
            a.kwarg.arg if a.kwarg else None, dflt)


def bind(program, impl, spec, recv):
    """Common symbolic arguments: (impl args, spec args) or a reason."""
    skip = 1 if impl.cls is not None and not impl.is_static else 0
    sskip = 1 if spec.cls is not None and not spec.is_static else 0
    p1, k1, v1, w1, d1 = signature(impl, skip)
    p2, k2, v2, w2, d2 = signature(spec, sskip)
    ia, sa = {}, {}
    g = vg.Graph(program)
    extra = p1[len(p2):]
    if len(p1) < len(p2):
        return None, 'takes fewer parameters than the reference'
    for a, b in zip(p1, p2):
        ia[a] = sa[b] = N('param', a)
    names1, names2 = set(k1), set(k2)
    if names2 - names1 - set(extra):
        return None, 'keyword parameters differ'
    for n in k2:
        ia[n] = sa[n] = N('param', n)
    for n in extra + k1:
        if n in ia:
            continue
        if n not in d1:
            return None, f'requires an additional parameter {n}'
        ia[n] = g.ev(d1[n], vg.Env(), vg.Frame(impl.module, impl.cls, impl))
    if bool(v1) != bool(v2) or bool(w1) != bool(w2):
        return None, 'variadic parameters differ'
    if v1:
        ia[v1] = sa[v2] = N('param', '*args')
    if w1:
        ia[w1] = sa[w2] = N('param', '**kwargs')
    # defaults
    diffs = []
    fi = vg.Frame(impl.module, impl.cls, impl)
    fs = vg.Frame(spec.module, spec.cls, spec)
    for a, b in list(zip(p1, p2)) + [(n, n) for n in k2]:
        x, y = d1.get(a), d2.get(b)
        if (x is None) != (y is None):
            if y is None:
                continue        # an additional default accepts more calls
            diffs.append(f'parameter {a} has lost its default')
        elif x is not None:
            x, y = g.ev(x, vg.Env(), fi), g.ev(y, vg.Env(), fs)
            if x is not y:
                diffs.append(f'default of {a} is {vg.show(x)}, expected '
                             f'{vg.show(y)}')
    if skip:
        me = N('cls', recv.qual) if impl.is_classmethod or impl.name in (
            '__new__', '__init_subclass__', '__class_getitem__') \
            else N('self', recv.qual)
        ia[impl.params[0]] = me
        sa[spec.params[0]] = me
    return (ia, sa, diffs), None


def hint(graph, impl, ia):
    """Parameter types from the annotations of the implementation."""
    a = impl.node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        n = ia.get(p.arg)
        if n is not None and n.op == 'param':
            graph._hint(n, impl, p.arg, p.annotation)


def escaping(n):
    """The object an effect applies to outlives the call."""
    if n.op == 'param' and str(n.args[0]).startswith('**'):
        return False
    while n.op in ('attr', 'sub', 'elem', 'items', 'values'):
        n = n.args[0]
    return n.op in ('self', 'param', 'ref', 'cls', 'fn')


def effects(env, value):
    """(cells, effects, cells of returned objects) seen by the caller."""
    cells, other, objs = {}, [], []
    if env is None:
        return cells, other, objs
    inner = []
    for k, v in env.items():
        if isinstance(k, tuple) and k[0] == '@':
            if escaping(k[1]):
                cells[(k[1], k[2])] = v
            else:
                inner.append((k[1], k[2], v))
    for e in env.get('$fx', ()):
        gens, core, wrap = (), e, []
        while core.op in ('each', 'when'):
            wrap.append(core)
            if core.op == 'each':
                gens += core.args[0]
            core = core.args[1]
        x = core
        for w in reversed(wrap):
            if w.op == 'when':
                x = vg.when(w.args[0], x)
        if core.op == 'mutate' and escaping(core.args[0]) and not cell_of(
                core.args[0], cells):
            other.append(N('effect', x, gens))
        elif core.op == 'call' and not vg.probe(core):
            other.append(N('effect', x, gens))
    seen = set()
    for n in [value] + list(cells.values()):
        for _ in vg.walk(n, seen):
            pass
    more = True
    while more:
        more = False
        for i, (base, attr, v) in enumerate(inner):
            if base.id in seen:
                objs.append(N('cell', base, attr, v))
                for _ in vg.walk(v, seen):
                    pass
                del inner[i]
                more = True
                break
    return cells, other, objs


def cell_of(n, cells):
    return n.op == 'attr' and (n.args[0], n.args[1]) in cells


class Outcome:
    def __init__(self, value, cells, other, objs, graph):
        self.objs = objs
        self.value = value
        self.cells = cells
        self.other = other
        self.graph = graph


def translate(program, func, args, impl, recv, view, ia):
    g = vg.Graph(program, keep=keeper(program, view))
    g.budget = BUDGET[view]
    hint(g, impl, ia)
    value, env = g.summary(func, args, recv)
    if value is None:
        value = vg.NONE
    cells, other, objs = effects(env, value)
    memo = {k for k in cells if k[0].op == 'self' and g.is_memo(
        program.cls(k[0].args[0]), k[1])}
    out = Outcome(value, {k: v for k, v in cells.items() if k not in memo},
                  other, objs, g)
    out.memo = {k: cells[k] for k in memo}
    return out


def resets(impl, a, b):
    """Keep the memo slots that the reference empties."""
    if impl.name in ('__init__', '__new__') or impl.is_property:
        return
    for k, v in b.memo.items():
        if any(vg.is_const(x, None) for _, x in vg.leaves(v)):
            b.cells[k] = v
            if k in a.memo:
                a.cells[k] = a.memo[k]


def private(name):
    return isinstance(name, str) and name.startswith('_') and not \
        name.endswith('__')


_KNOWN = {}


def mentioned(program):
    """Every attribute or method name the program mentions anywhere."""
    got = _KNOWN.get(id(program))
    if got is None:
        names = set()
        for m in program.modules.values():
            if m.spec:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    names.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.Name):
                    names.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(
                        n.value, str):
                    names.add(n.value)
        got = _KNOWN[id(program)] = (program, names)
    return got[1]


def private_unknown(program, spec_out, recv):
    """Private names the reference relies on that no longer exist."""
    known = mentioned(program)
    nodes = [spec_out.value] + list(spec_out.cells.values()) + spec_out.other
    for _, name in spec_out.cells:
        if private(name) and name not in known:
            return name
    for n in nodes:
        for m in vg.walk(n):
            if m.op == 'attr' and private(m.args[1]) and \
                    m.args[1] not in known:
                return m.args[1]
            if m.op == 'ref' and isinstance(m.args[0], str) and \
                    m.args[0].startswith(('?', 'goats.spec_')):
                return m.args[0].lstrip('?')
    return None


def compare(program, impl, spec, recv=None, exc='class', count=1000,
            views=VIEWS, project=None):
    """(verdict, detail) for one function against its reference."""
    recv = recv or impl.cls
    got, why = bind(program, impl, spec, recv)
    if got is None:
        return None, why
    ia, sa, diffs = got
    if diffs:
        return False, '; '.join(diffs)
    verdicts = []
    for view in views:
        try:
            a = translate(program, impl, ia, impl, recv, view, ia)
            b = translate(program, spec, sa, impl, recv, view, ia)
        except vg.Budget as err:
            verdicts.append((view, 'budget', str(err)))
            continue
        except RecursionError:
            verdicts.append((view, 'budget', 'recursion'))
            continue
        resets(impl, a, b)
        lost = private_unknown(program, b, recv)
        if lost:
            verdicts.append((view, None, f'reference needs {lost}'))
            continue
        v, detail = outcomes_equal(
            program, a, b, exc, 4 * count if any(
                x[1] is False for x in verdicts) else count, project)
        if v is True:
            proof = Proof(view)
            proof.relies = relies_on(program, a, b)
            return True, proof
        if view == 'modular':
            if v is False and same_calls(program, a, b):
                return False, detail
            break
        if view == 'public' and v is False:
            if same_calls(program, a, b):
                return False, detail
        if view == 'public' and v is False and detail.startswith(
                'has different effects') and 'unexpected' not in detail:
            # an effect is missing altogether; expansion could only hide it
            return False, detail
        verdicts.append((view, v, detail))
    falses = [x for x in verdicts if x[1] is False]
    nones = [x for x in verdicts if x[1] is None]
    if falses and not nones:
        return False, falses[0][2]
    return None, (nones or verdicts)[0][2]


def mentions(program, o):
    """(attributes and functions an outcome mentions, functions only)"""
    words, funcs, seen = set(), set(), set()
    for root in [o.value, *o.cells.values(), *o.other, *o.objs]:
        for n in vg.walk(root, seen):
            if n.op == 'fn':
                funcs.add(n.args[0])
            elif n.op == 'bound':
                funcs.add(n.args[1])
            elif n.op in ('cls', 'new'):
                words.add(n.args[0])
            elif n.op == 'attr':
                t = o.graph.type_of(n.args[0])
                words.add(n.args[1] if t is None else f'{t.qual}.{n.args[1]}')
            elif n.op == 'ref':
                words.add(n.args[0].removeprefix('builtins.'))
            if n.op not in ('attr', 'bound', 'ite', 'raise', 'firstval'):
                # objects of the package used through a protocol
                how = n.args[0] if n.op in ('bin', 'cmp', 'un') else \
                    vg.show(n.args[0], 2) if n.op == 'call' else ''
                for c in vg.children(n):
                    t = o.graph.type_of(c)
                    if t is not None:
                        words.add(f'<{n.op} {how} {t.qual}>')
    return words | funcs, funcs


def same_calls(program, a, b):
    """Nothing the reference does was moved in or out of public functions.

    The implementation mentions only what the reference mentions, and what
    it no longer mentions has not been written out in its place.
    """
    wa, fa = mentions(program, a)
    wb, fb = mentions(program, b)
    if wa - wb - sem.FREE:
        return False
    for w in wb - wa:
        names = body_names(program, w)
        if names is not None and names <= {x.split('.')[-1] for x in wa}:
            return False
    return True


def body_names(program, word):
    """Names the body of a function mentions, or None."""
    if '.' in word:
        try:
            found = [program.func(word)]
        except (model.AnalysisError, ValueError):
            return None
    else:
        found = [f for m in program.modules.values() if not m.spec
                 for c in m.classes.values()
                 for f in c.methods.values() if f.name == word]
    if not found:
        return None
    best = None
    for f in found:
        names = {n.attr for s in f.node.body for n in ast.walk(s)
                 if isinstance(n, ast.Attribute)}
        names |= {n.id for s in f.node.body for n in ast.walk(s)
                  if isinstance(n, ast.Name)} - set(f.params)
        stored = {n.id for s in f.node.body for n in ast.walk(s)
                  if isinstance(n, ast.Name) and not isinstance(
                      n.ctx, ast.Load)}
        names -= stored
        if best is None or len(names) < len(best):
            best = names
    return best


def outcomes_equal(program, a, b, exc, count, project=None):
    pa, pb = pack(a, b, project)
    return sem.equal(program, pa, pb, count=count, exc=exc)


def pack(a, b, project=None):
    """One node per side: value, state and effects."""
    keys = sorted(set(a.cells) | set(b.cells),
                  key=lambda k: (k[0].id, k[1]))

    def side(o):
        cells = []
        for k in keys:
            v = o.cells.get(k)
            cells.append(v if v is not None else vg.mk_attr(*k))
        return vg.N('outcome', project(o.value) if project else o.value,
                    N('state', tuple(k[1] for k in keys), *cells),
                    N('effects', *o.other), N('objects', *o.objs))
    return side(a), side(b)


class Timeout(Exception):
    pass


def limited(program, impl, spec, recv=None, seconds=60, **kwds):
    """compare() that gives up (undecided) beyond its time or memory."""
    def stop(*_):
        raise Timeout
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return compare(program, impl, spec, recv, **kwds)
    except Timeout:
        return None, f'not decided within {seconds} s'
    except MemoryError:
        return None, 'not decided within the memory limit'
    except RecursionError:
        return None, 'recursion limit'
    except Exception as err:  # noqa: a construct the engine cannot digest
        if os.environ.get('VERIF_DEBUG'):
            raise
        return None, f'not analysable: {err!r}'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
