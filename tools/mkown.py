#!/usr/bin/env python3
"""Write sa/specs/ownership.json: who changes what in the reference tree."""
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(10000)
from sa import model, own       # noqa: E402


def main():
    p = model.program()
    a = own.Analysis(p)
    functions = {}
    for f in p.all_functions():
        g = f.node.args
        s = a.summary(f)
        changed = {o[1] for c in s.changes for o in c[0] if o[0] == 'arg'}
        functions[own.name_of(f)] = {
            'params': [x.arg for x in g.posonlyargs + g.args + g.kwonlyargs
                       + [y for y in (g.vararg, g.kwarg) if y]],
            'touches': sorted(a.touches(f)),
            'changes': sorted(changed),
        }
    shared = sorted(
        [f'{m.name}.{n}' for m in p.modules.values() if not m.spec
         for n in m.assigns] +
        [f'{c.qual}.{n}' for c in p.all_classes() for n in c.attrs])
    changed = sorted({o[1] for f in p.all_functions()
                      for c in a.summary(f).changes for o in c[0]
                      if o[0] == 'shared'})
    out = {'functions': functions, 'shared': shared,
           'registries': changed, 'slots': sorted(a.stored)}
    (HERE / 'sa/specs/ownership.json').write_text(
        json.dumps(out, indent=0, sort_keys=True))


if __name__ == '__main__':
    main()
