"""Compare every covered function with its reference: reftest.py [-v] [sub]"""
import fnmatch
import pathlib
import sys
import time
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)
from sa import model, refs  # noqa
from sa.checks import reference  # noqa

program = model.program()
want = [a for a in sys.argv[1:] if not a.startswith('-')]
t0 = time.time()
n = {True: 0, False: 0, None: 0}
for base, (m, covers) in reference.load(program).items():
    names = covers
    dup = {x for x in names if names.count(x) > 1}
    if dup:
        print('listed twice', dup)
    listed = set(names)
    short = base.replace('goats.', '').replace('core.', '').replace(
        'eprem.runtime', 'runtime')
    for x in names:
        if not any(fnmatch.fnmatchcase(f'{short}:{x}', p)
                   for _, ps in reference.PROPS.values() for p in ps):
            print('in no property', short, x)
    allspec = set(m.functions) | {f'{c.name}.{k}' for c in m.classes.values()
                                  for k in c.methods}
    for x in sorted(allspec - listed):
        if '-c' in sys.argv and not x.split('.')[-1].startswith('_') or '-c' in sys.argv and x.split('.')[-1].endswith(
                '__'):
            print('not covered', base, x)
t = time.time()
for key, v, _, d in reference.compare_all(
        program, lambda base, name: not want or any(
            w in f'{base}.{name}' for w in want)):
    t, t1 = time.time(), t
    n[v] += 1
    if v is not True or t - t1 > 3 or '-v' in sys.argv:
        print(v, key, round(t - t1, 1), d[:600])
print(n, round(time.time() - t0, 1), 's')
