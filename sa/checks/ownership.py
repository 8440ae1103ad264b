"""Changing one object in place never changes another."""
import ast
import json
import pathlib

from .. import own, report

TABLE = pathlib.Path(__file__).resolve().parent.parent / \
    'specs/ownership.json'

RULE = (
    'Flow-sensitive, interprocedural may-alias analysis of every in-place '
    'change (mutating method, item assignment or deletion, augmented '
    'assignment of a container, output array): the container was allocated '
    'by the running call, or is an attribute that every assignment fills '
    'with a newly allocated container and that the reference lets this '
    'function change; class-level and module-level containers are changed '
    'only if they are registries. Accessors that promise a copy return a '
    'newly allocated container.'
)

# results that callers may change without touching the object they came from
COPIES = (
    'core.metric.NamedUnit.norm', 'core.metric.NamedUnit.systems',
    'core.metric.NamedUnit.dimensions', 'core.metric.NamedUnit.'
    '_get_dimensions', 'core.metric.Unit.norm',
    'core.datafile.ViewerFactory._get_viewers',
    'core.iterables.ObjectRegistry.copy', 'core.aliased.Mapping.copy',
    'core.aliased.Groups._merge', 'core.aliased.Groups.merge',
    'core.aliased._build_mapping', 'core.computed._interpolate',
    'core.metadata.Dimensions.merge', 'core.observing.Parameters.merge',
    'core.symbolic.reduce', 'core.iterables.unique', 'core.metric.Dimensions._init_from',
)
ALIASES = ('arg', 'attr', 'shared', 'item')


def told(o):
    kind = o[0]
    if kind == 'arg':
        return f'the object passed as {o[1]!r}'
    if kind == 'attr':
        return f'the container held in attribute {o[1]!r}'
    if kind == 'shared':
        return f'the shared object {o[1]}'
    return 'an entry of the mapping'


def i01(program, tier='quick'):
    check = report.Check('I01', RULE, floor=20, assumptions=[
        'containers reached through values outside the analysis (library '
        'results, parts of new containers) are not claimed',
        'a value obtained by a slice counts as unknown: a list is copied, an '
        'array is viewed',
    ])
    ref = json.loads(TABLE.read_text())
    known = ref['functions']
    a = own.Analysis(program, known)
    functions = list(program.all_functions())
    changed = {}
    for f in functions:
        for origins, _, _ in a.summary(f).changes:
            for o in origins:
                if o[0] == 'attr' and f.cls is not None:
                    changed.setdefault(o[1], []).append(f.cls)

    for f in functions:
        name = own.name_of(f)
        s = a.summary(f)
        base = known.get(name)
        for origins, node, how in s.changes:
            where = f'{f.module.rel}:{node.lineno}'
            key = f'{name} changes a container ({how})'
            bad = []
            for o in sorted(origins):
                if o[0] == 'arg' and base is not None \
                        and o[1] in base['params'] \
                        and o[1] not in base['changes']:
                    bad.append(o)
                elif o[0] == 'shared' and o[1] not in ref['registries'] and (
                        o[1] in ref['shared'] or
                        o[1].split('.')[-1] in ref['slots']):
                    bad.append(o)
                elif o[0] == 'item' and base is not None:
                    bad.append(o)
                elif o[0] == 'attr' and base is not None \
                        and o[1] in ref['slots'] and 'cache' not in o[1] \
                        and o[1] not in base['touches']:
                    bad.append(o)
            if bad:
                check.bad(f'{name} changes {told(bad[0])}', where,
                          f'{how} on {told(bad[0])}, which outlives the call')
            elif origins <= {own.OTHER}:
                check.unsure(key, where, 'origin of the container unknown')
            else:
                check.ok(key, where)
        for attr, other, node in twice(f, a):
            if any(related(program, f.cls, c) for x in (attr, other)
                   for c in changed.get(x, ())):
                check.bad(f'{name} shares attribute {attr!r}',
                          f'{f.module.rel}:{node.lineno}',
                          f'{attr!r} and {other!r} become the same container,'
                          ' which is changed in place')
        for attr, origins, node in s.stores:
            for o in sorted(origins):
                if o[0] == 'attr' and o[1] != attr and base is not None \
                        and {attr, o[1]} <= set(ref['slots']) \
                        and f.cls is not None and any(
                            related(program, f.cls, c)
                            for c in changed.get(o[1], ())):
                    check.bad(
                        f'{name} shares attribute {o[1]!r}',
                        f'{f.module.rel}:{node.lineno}',
                        f'{o[1]!r} is changed in place, but here {attr!r} '
                        f'becomes the same container')
            owners = changed.get(attr)
            if not owners or f.cls is None or not any(
                    related(program, f.cls, c) for c in owners):
                continue
            where = f'{f.module.rel}:{node.lineno}'
            key = f'{name} fills {attr}, which is changed in place'
            bad = [o for o in sorted(origins) if o[0] in ALIASES
                   and o != ('attr', attr)
                   and (o[0] != 'attr' or o[1] in ref['slots'])
                   and (o[0] != 'arg' or base is not None
                        and o[1] in base['params'])]
            if base is None and any(o[0] == 'arg' for o in origins):
                bad = []
            if bad:
                check.bad(f'{name} shares attribute {attr!r}', where,
                          f'{attr!r} is changed in place, but here it is '
                          f'{told(bad[0])}')
            elif own.OTHER in origins:
                check.unsure(key, where, 'origin unknown')
            else:
                check.ok(key, where)
    for attr, owners in sorted(changed.items()):
        for cls in {c.qual: c for c in owners}.values():
            got = program.class_attr(cls, attr)
            if not got or not isinstance(got[1], (
                    ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                    ast.SetComp)):
                continue
            family = [c for c in program.all_classes()
                      if related(program, c, cls)]
            if not any(attr in a.touches(c.methods[m]) for c in family
                       for m in ('__init__', '__new__') if m in c.methods):
                check.bad(f'{got[0].qual[6:]}.{attr} is shared',
                          f'{got[0].module.rel}:{got[1].lineno}',
                          f'instances change {attr!r} in place, but it is '
                          f'created once for the class')
    by_name = {own.name_of(f): f for f in functions}
    for name in COPIES:
        f = by_name.get(name)
        if f is None:
            check.unsure(f'{name} returns a copy', '', 'not found')
            continue
        r = a.summary(f).returns
        bad = [o for o in sorted(r) if o[0] in ALIASES
               and not (o[0] == 'attr' and o[1] not in ref['slots'])]
        if bad:
            check.bad(f'{name} returns {told(bad[0])}', f.where,
                      f'callers may change the result; it must be a copy, '
                      f'not {told(bad[0])}')
        elif own.OTHER in r:
            check.unsure(f'{name} returns a copy', f.where, 'origin unknown')
        else:
            check.ok(f'{name} returns a copy', f.where)
    check.extra['functions'] = len(functions)
    return check


def twice(f, analysis):
    """Pairs of attributes that one statement or name fills alike."""
    if f.cls is None or f.parent is not None or not f.params:
        return
    held = {}
    binds = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            binds[n.id] = binds.get(n.id, 0) + 1
    for attr, origins, node in analysis.summary(f).stores:
        if own.FRESH not in origins or not isinstance(node, ast.Assign):
            continue
        mine = [t.attr for t in node.targets if isinstance(t, ast.Attribute)]
        if attr not in mine:
            continue
        for other in mine:
            if other < attr:
                yield attr, other, node
        v = node.value
        if isinstance(v, ast.Name) and binds.get(v.id) == 1:
            for other in held.get(v.id, ()):
                if other != attr:
                    yield attr, other, node
            held.setdefault(v.id, []).append(attr)


def related(program, a, b):
    return a in program.mro(b) or b in program.mro(a)
