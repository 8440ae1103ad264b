"""Draft of a reference module: mkspec.py goats.core.x [-x Name ...]

Prints the functions and classes of a module without documentation and
annotations, as a draft to be reviewed against the documented behaviour and
kept in sa/specs/ref_*.py.
"""
import ast
import pathlib
import sys

SRC = pathlib.Path('/repo/src')
SKIP = {'__str__', '__repr__', '_display_items', '_as_string', '_display'}
KEEP = {'property', 'classmethod', 'staticmethod', 'abc.abstractmethod',
        'functools.wraps'}


def name_of(d):
    return ast.unparse(d.func if isinstance(d, ast.Call) else d)


class Strip(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [
                x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.decorator_list = [d for d in n.decorator_list
                            if name_of(d) in KEEP or '.implements' in
                            name_of(d)]
        n.body = nodoc(n.body)
        return n

    def visit_Raise(self, n):
        self.generic_visit(n)
        n.cause = None
        if isinstance(n.exc, ast.Call) and any(
                isinstance(x, ast.JoinedStr) or isinstance(
                    getattr(x, 'value', None), str) for x in n.exc.args) \
                and not n.exc.keywords:
            n.exc = n.exc.func
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return None
        return ast.copy_location(ast.Assign([n.target], n.value), n)


def nodoc(body):
    out = [s for s in body if not (
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
        and isinstance(s.value.value, str))]
    return out or [ast.Pass()]


def overload(n):
    return any(name_of(d) == 'typing.overload' for d in n.decorator_list)


def main(argv):
    mod = argv[0]
    path = SRC / (mod.replace('.', '/') + '.py')
    if not path.exists():
        path = SRC / mod.replace('.', '/') / '__init__.py'
    tree = ast.parse(path.read_text())
    names, out = [], []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            if overload(n) or n.name in SKIP:
                continue
            if not n.name.startswith('_'):
                names.append(n.name)
            out.append(ast.unparse(ast.fix_missing_locations(
                Strip().visit(n))))
        elif isinstance(n, ast.ClassDef):
            body = []
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    if overload(s) or s.name in SKIP:
                        continue
                    if not s.name.startswith('_') or s.name.endswith('__'):
                        names.append(f'{n.name}.{s.name}')
                    body.append(s)
                elif isinstance(s, ast.Assign) and not ast.unparse(
                        s.value).startswith('typing.'):
                    body.append(s)
                    for t in s.targets:
                        names.append(f'{n.name}.{ast.unparse(t)}')
            if not body:
                continue
            n.body = body
            n.bases, n.keywords, n.decorator_list = [], [], []
            out.append(ast.unparse(ast.fix_missing_locations(
                Strip().visit(n))))
    print(f'"""Reference definitions: {mod}."""')
    print(f'MODULE = {mod!r}')
    print("COVERS = {\n    'X': (")
    line = '       '
    for x in names:
        x = f' {x!r},'
        if len(line + x) > 79:
            print(line)
            line = '       '
        line += x
    print(line)
    print('    ),\n}')
    for o in out:
        print('\n\n' + o)


main(sys.argv[1:])
