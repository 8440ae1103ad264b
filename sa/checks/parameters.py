"""Tables of run-time parameters against their reference."""

import ast
import json
import pathlib

from .. import model

TABLES = ('_LOCAL', '_CONFIGURATION_C', '_BASETYPES_H')
KEYS = ('aliases', 'unit', 'default', 'type')
JSON = pathlib.Path(__file__).resolve().parent.parent / 'specs/runtime.json'


def table(module, name):
    """{key: {entry: normalised value}} of a literal table, or None."""
    got = module.assigns.get(name)
    if not got or not isinstance(got[-1].value, ast.Dict):
        return None, ''
    where = f'{module.rel}:{got[-1].lineno}'
    out = {}
    for k, v in zip(got[-1].value.keys, got[-1].value.values):
        if not isinstance(k, ast.Constant) or not isinstance(v, ast.Dict):
            return None, where
        entry = {}
        for a, b in zip(v.keys, v.values):
            if not isinstance(a, ast.Constant):
                return None, where
            entry[a.value] = normal(a.value, b)
        out[k.value] = (entry, f'{module.rel}:{k.lineno}')
    return out, where


def normal(key, node):
    try:
        v = ast.literal_eval(node)
    except (ValueError, SyntaxError, TypeError):
        return ast.unparse(node)
    if key == 'aliases' and isinstance(v, (list, tuple, set)):
        return sorted(v)
    if key == 'unit' and isinstance(v, str):
        return ''.join(v.split())
    return v


def units_and_aliases(check, program):
    """Obligations on the parameter tables and the packaged defaults."""
    spec = program.spec('ref_runtime')
    base = spec.base
    if base is None:
        check.unsure('parameter tables', '', 'module not found')
        return 0
    n = 0
    for name in TABLES:
        want, _ = table(spec, name)
        got, where = table(base, name)
        if want is None:
            raise model.AnalysisError(f'no reference for {name}')
        if got is None:
            n += 1
            check.unsure(name, where, 'not a literal table')
            continue
        for key, (entry, _) in want.items():
            n += 1
            if key not in got:
                check.bad(f'{name}[{key}]', where,
                          'the parameter is no longer described')
                continue
            have, at = got[key]
            diffs = [f'{k} is {have.get(k)!r}, expected {entry.get(k)!r}'
                     for k in KEYS if have.get(k) != entry.get(k)]
            if diffs:
                check.bad(f'{name}[{key}]', at, '; '.join(diffs))
            else:
                check.ok(f'{name}[{key}]', at)
    return n + defaults(check, program, base)


def defaults(check, program, base):
    path = base.path.with_suffix('.json')
    rel = base.rel.replace('.py', '.json')
    want = json.loads(JSON.read_text())
    try:
        got = json.loads(path.read_text())
    except (OSError, ValueError) as err:
        check.unsure('packaged defaults', rel, str(err))
        return 1
    n = 0
    for section, entries in want.items():
        for key, value in entries.items():
            n += 1
            have = got.get(section, {}).get(key)
            if squash(have) == squash(value):
                check.ok(f'{section}[{key}]', rel)
            else:
                check.bad(f'{section}[{key}]', rel,
                          f'default is {have!r}, expected {value!r}')
    return n


def squash(v):
    if isinstance(v, dict):
        return {k: squash(x) for k, x in v.items()}
    return ''.join(v.split()) if isinstance(v, str) else v
