"""Mutations of the repository judged by the checks: through.py [-n K] [sub]

Every function of the package is mutated (K seeded choices each) in a copy of
the tree, and the functions its module has references for are compared.
Prints the mutations no comparison notices.
"""
import ast
import multiprocessing
import pathlib
import random
import shutil
import sys
import tempfile

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)
import mutate  # noqa
from sa import model  # noqa
from sa.checks import reference  # noqa


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, tree.body, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield f'{n.name}.{m.name}', n.body, m


def overload(node):
    return any('overload' in ast.unparse(d) or 'abstract' in ast.unparse(d)
               for d in node.decorator_list)


def jobs(count, want):
    for path in sorted(model.SRC.rglob('*.py')):
        rel = path.relative_to(model.SRC)
        mod = '.'.join(rel.with_suffix('').parts).replace('.__init__', '')
        tree = ast.parse(path.read_text())
        for name, body, node in functions(tree):
            if want and not any(w in f'{mod}.{name}' for w in want):
                continue
            if overload(node) or node.name in (
                    '__str__', '__repr__', 'main', 'cli'):
                continue
            every = list(mutate.mutations(node))
            rng = random.Random(f'{mod}.{name}')
            some = rng.sample(every, min(count, len(every)))
            for tag, new in some:
                i = body.index(node)
                body[i] = new
                src = ast.unparse(tree)
                body[i] = node
                yield rel, mod, name, tag, src


def run(job):
    rel, mod, name, tag, src = job
    tmp = pathlib.Path(tempfile.mkdtemp())
    try:
        shutil.copytree(model.SRC, tmp / 'src',
                        ignore=shutil.ignore_patterns('__pycache__'))
        (tmp / 'src' / rel).write_text(src)
        try:
            program = model.Program(tmp / 'src')
            verdict, why = True, ''
            for key, v, _, detail in reference.compare_all(
                    program, lambda base, n: base == mod):
                if v is False:
                    return mod, name, tag, False, key
                if v is None:
                    verdict, why = None, f'{key}: {detail}'
            return mod, name, tag, verdict, why
        except Exception as err:  # noqa
            return mod, name, tag, 'ERROR', repr(err)
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    args = sys.argv[1:]
    count = 2
    if '-n' in args:
        i = args.index('-n')
        count = int(args[i + 1])
        del args[i:i + 2]
    n = {}
    with multiprocessing.Pool(8, maxtasksperchild=8) as pool:
        for mod, name, tag, v, why in pool.imap(run, jobs(count, args)):
            n[v] = n.get(v, 0) + 1
            if v is not False:
                print(v, f'{mod}.{name}', tag, why[:60] + " ... " + why[-110:], flush=True)
    print(n)
