"""Engine test: hand-written rewrites of functions (tools/rewrites/*.txt).

Entry format:
    ### core/aliased.py Group.__eq__ | note        (append '!' to the note for
    <replacement source, indented as in the class>   a behaviour change)
    --- module
    <source inserted at module level before the enclosing class or function>
Run:  python3 tools/rewrite.py [-v] [substring]
"""
import ast
import multiprocessing
import pathlib
import shutil
import sys
import tempfile

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)
from sa import model, refs  # noqa
from sa.checks import ownership, reference  # noqa

HERE = pathlib.Path(__file__).resolve().parent


def entries():
    for path in sorted((HERE / 'rewrites').glob('*.txt')):
        cur = None
        for line in path.read_text().splitlines():
            if line.startswith('### '):
                if cur:
                    yield cur
                head, _, note = line[4:].partition('|')
                f, name = head.split()
                cur = dict(file=f, name=name, note=note.strip(), body=[],
                           module=[], where=None)
                part = 'body'
            elif line.startswith('--- module'):
                part = 'module'
            elif cur:
                cur[part].append(line)
        if cur:
            yield cur


def locate(tree, name):
    cls, _, meth = name.rpartition('.')
    body = tree.body
    top = None
    if cls:
        top = next(n for n in body if isinstance(n, ast.ClassDef)
                   and n.name == cls)
        body = top.body
    found = None
    for n in body:
        if isinstance(n, ast.FunctionDef) and n.name == meth:
            found = n          # the last one (after overloads)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, ast.Name) and t.id == meth:
                found = n
    return found, top or found


def start(n):
    return min([n.lineno] + [d.lineno for d in getattr(
        n, 'decorator_list', [])])


def apply(e, src):
    path = src / 'goats' / e['file']
    lines = path.read_text().split('\n')
    found, top = locate(ast.parse('\n'.join(lines)), e['name'])
    a, b = start(found), found.end_lineno
    t = start(top)
    new = lines[:a - 1] + e['body'] + lines[b:]
    new[t - 1:t - 1] = e['module'] + ['']
    path.write_text('\n'.join(new))
    ast.parse('\n'.join(new))


def run(e):
    tmp = pathlib.Path(tempfile.mkdtemp())
    try:
        shutil.copytree(model.SRC, tmp / 'src',
                        ignore=shutil.ignore_patterns('__pycache__'))
        try:
            apply(e, tmp / 'src')
        except Exception as err:  # noqa
            return e, [('ERROR', repr(err))]
        program = model.Program(tmp / 'src')
        out = []
        want = 'goats.' + e['file'][:-3].replace('/', '.').replace(
            '.__init__', '')
        for key, v, _, detail in reference.compare_all(
                program, lambda base, name: base == want):
            if v is not True:
                out.append((v, f'{key}: {detail}'))
        for status, key, where, detail in ownership.i01(program).items:
            if status == 'bad':
                out.append((False, f'I01 {key}: {detail}'))
        return e, out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    todo = [e for e in entries() if not want or any(
        w in f"{e['file']} {e['name']} {e['note']}" for w in want)]
    n = {}
    with multiprocessing.Pool(8, maxtasksperchild=4) as pool:
        for e, out in pool.imap(run, todo):
            bug = e['note'].endswith('!')
            v = False if any(o[0] is False or o[0] == 'ERROR' for o in out) \
                else None if out else True
            tag = {(False, True): 'ok', (False, None): 'undecided',
                   (False, False): 'FALSE-ALARM', (True, True): 'MISSED',
                   (True, None): 'MISSED?', (True, False): 'caught'}[bug, v]
            n[tag] = n.get(tag, 0) + 1
            if tag not in ('ok', 'caught') or '-v' in sys.argv:
                print(tag, e['file'], e['name'], '|', e['note'])
                for o in out:
                    print('      ', o[0], o[1][:400])
    print(n)
