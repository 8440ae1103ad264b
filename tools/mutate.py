"""Engine test: behaviour-preserving rewrites must compare equal (or
undecided), behaviour-changing mutations should compare different.

Run:  python3 tools/mutate.py [module-substring ...]
Works on syntax trees in memory; nothing in /repo is touched or executed.
"""
import ast
import collections
import copy
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from sa import model, refs  # noqa
import rewriters  # noqa

# ---------------------------------------------------------------------------
# rewrites
# ---------------------------------------------------------------------------


def fresh(node):
    return ast.fix_missing_locations(copy.deepcopy(node))


def has_doc(body):
    return bool(body) and isinstance(body[0], ast.Expr) and isinstance(
        body[0].value, ast.Constant) and isinstance(body[0].value.value, str)


def blocks(node):
    for n in ast.walk(node):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b


def r_noop(node):
    new = fresh(node)
    i = 1 if has_doc(new.body) else 0
    new.body.insert(i, ast.parse('_unused = None').body[0])
    yield 'noop', new


def r_return_var(node):
    """return X -> result = X; return result"""
    new = fresh(node)
    done = False
    for n, f, b in list(blocks(new)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.Return) and s.value is not None and not \
                    isinstance(s.value, (ast.Name, ast.Constant)):
                j = b.index(s)
                a = ast.Assign([ast.Name('result_', ast.Store())], s.value)
                b[j:j + 1] = [a, ast.Return(ast.Name('result_', ast.Load()))]
                done = True
    if done:
        yield 'return-var', new


def r_invert_if(node):
    new = fresh(node)
    done = False
    for n in ast.walk(new):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            done = True
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            done = True
    if done:
        yield 'invert-if', new


def r_else_after_return(node):
    """if c: return x; rest -> if c: return x else: rest"""
    new = fresh(node)
    done = False

    def go(body):
        nonlocal done
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) \
                    and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                rest = body[i + 1:]
                go(rest)
                s.orelse = rest
                del body[i + 1:]
                done = True
                return
    go(new.body)
    if done:
        yield 'else-after-return', new


def r_comp_to_loop(node):
    """x = [e for t in it if c] (also in return) -> explicit loop"""
    new = fresh(node)
    done = False
    for n, f, b in list(blocks(new)):
        for s in list(b):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
                    s.value, (ast.ListComp, ast.DictComp)):
                c = s.value
                isd = isinstance(c, ast.DictComp)
                if isd:
                    inner = ast.Assign([ast.Subscript(
                        ast.Name('acc_', ast.Load()), c.key, ast.Store())],
                        c.value)
                else:
                    inner = ast.Expr(ast.Call(ast.Attribute(
                        ast.Name('acc_', ast.Load()), 'append', ast.Load()),
                        [c.elt], []))
                st = inner
                for g in reversed(c.generators):
                    for cond in reversed(g.ifs):
                        st = ast.If(cond, [st], [])
                    st = ast.For(g.target, g.iter, [st], [])
                j = b.index(s)
                init = ast.Assign([ast.Name('acc_', ast.Store())],
                                  ast.Dict([], []) if isd
                                  else ast.List([], ast.Load()))
                s.value = ast.Name('acc_', ast.Load())
                b[j:j] = [init, st]
                done = True
    if done:
        yield 'comp-to-loop', new


def r_walrus(node):
    new = fresh(node)
    done = False
    for n, f, b in list(blocks(new)):
        for s in list(b):
            if isinstance(s, ast.If) and isinstance(s.test, ast.NamedExpr):
                j = b.index(s)
                b[j:j] = [ast.Assign([ast.Name(s.test.target.id,
                                               ast.Store())], s.test.value)]
                s.test = ast.Name(s.test.target.id, ast.Load())
                done = True
    if done:
        yield 'walrus', new


def r_rename(node):
    """rename local variables"""
    a = node.args
    params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        params.add(a.vararg.arg)
    if a.kwarg:
        params.add(a.kwarg.arg)
    if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef,
                          ast.Lambda)) for n in ast.walk(node)
           if n is not node):
        return
    names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)
             and isinstance(n.ctx, ast.Store)} - params
    if not names:
        return
    new = fresh(node)
    for n in ast.walk(new):
        if isinstance(n, ast.Name) and n.id in names:
            n.id = n.id + '_r'
        elif isinstance(n, ast.ExceptHandler) and n.name:
            pass
    yield 'rename', new


def r_split_and(node):
    """if a and b: body (no else) -> nested if"""
    new = fresh(node)
    done = False
    for n in ast.walk(new):
        if isinstance(n, ast.If) and not n.orelse and isinstance(
                n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vals = n.test.values
            inner = n.body
            for v in reversed(vals[1:]):
                inner = [ast.If(v, inner, [])]
            n.test = vals[0]
            n.body = inner
            done = True
    if done:
        yield 'split-and', new


def r_extract(node, owner):
    """Move the tail of the function to a new helper (method or function)."""
    i0 = 1 if has_doc(node.body) else 0
    if len(node.body) - i0 < 2 or any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in
            ast.walk(node)):
        return
    if any(isinstance(n, ast.Name) and n.id in ('super', '__class__')
           for n in ast.walk(node)):
        return
    k = i0 + max(1, (len(node.body) - i0) // 2)
    tail = node.body[k:]
    used = {n.id for s in tail for n in ast.walk(s)
            if isinstance(n, ast.Name)}
    a = node.args
    bound = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        bound.append(a.vararg.arg)
    if a.kwarg:
        bound.append(a.kwarg.arg)
    for s in node.body[:k]:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) \
                    and n.id not in bound:
                bound.append(n.id)
            elif isinstance(n, (ast.FunctionDef,)) and n.name not in bound:
                bound.append(n.name)
    # variables possibly undefined at the cut are avoided
    def definite(s):
        return {n.id for n in ast.walk(s) if isinstance(n, ast.Name)
                and isinstance(n.ctx, ast.Store)} if isinstance(
                    s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) else set()
    sure = set(bound[:len(a.posonlyargs + a.args + a.kwonlyargs) + (
        1 if a.vararg else 0) + (1 if a.kwarg else 0)])
    for s in node.body[:k]:
        sure |= definite(s)
        if isinstance(s, ast.FunctionDef):
            sure.add(s.name)
    need = [b for b in bound if b in used]
    if any(b not in sure for b in need):
        return
    new = fresh(node)
    helper = ast.FunctionDef(
        name='_extracted_', args=ast.arguments(
            posonlyargs=[], args=[ast.arg(x) for x in need], vararg=None,
            kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
        body=copy.deepcopy(tail), decorator_list=[], returns=None,
        type_comment=None)
    call_args = [ast.Name(x, ast.Load()) for x in need]
    new.body[k:] = [ast.Return(ast.Call(
        ast.Name('_extracted_', ast.Load()), call_args, []))]
    yield 'extract', fresh(new), fresh(helper)


def r_swap_stmts(node):
    """Swap adjacent independent simple assignments."""
    new = fresh(node)
    done = False

    def names(s, ctx):
        return {n.id for n in ast.walk(s) if isinstance(n, ast.Name)
                and isinstance(n.ctx, ctx)}

    def pure(e):
        return not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await,
                                      ast.Yield)) for n in ast.walk(e))
    for n, f, b in list(blocks(new)):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 for s in
                   (x, y)):
                if not (names(x, ast.Store) & (names(y, ast.Load) | names(
                        y, ast.Store)) or names(y, ast.Store) & names(
                        x, ast.Load)) and (pure(x.value) or pure(y.value)) \
                        and all(isinstance(s.targets[0], ast.Name)
                                for s in (x, y)):
                    b[i], b[i + 1] = y, x
                    done = True
                    break
    if done:
        yield 'swap', new


def r_temp(node):
    """Hoist call arguments of returned calls into temporaries."""
    new = fresh(node)
    done = False
    for n, f, b in list(blocks(new)):
        for s in list(b):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
                    s.value, ast.Call) and s.value.args and not isinstance(
                    s.value.args[0], (ast.Starred, ast.Name, ast.Constant)):
                if isinstance(s.value.func, ast.Name) and s.value.func.id in (
                        'super',):
                    continue
                j = b.index(s)
                b[j:j] = [ast.Assign([ast.Name('tmp_', ast.Store())],
                                     s.value.args[0])]
                s.value.args[0] = ast.Name('tmp_', ast.Load())
                done = True
    if done:
        yield 'temp', new


def r_any_loop(node):
    """return any(c for t in it) / all(...) -> loop with early return"""
    new = fresh(node)
    done = False
    for n, f, b in list(blocks(new)):
        for s in list(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) \
                    and isinstance(s.value.func, ast.Name) and \
                    s.value.func.id in ('any', 'all') and s.value.args and \
                    isinstance(s.value.args[0], ast.GeneratorExp) and \
                    len(s.value.args[0].generators) == 1:
                g = s.value.args[0]
                gen = g.generators[0]
                isany = s.value.func.id == 'any'
                test = g.elt if isany else ast.UnaryOp(ast.Not(), g.elt)
                st = ast.If(test, [ast.Return(ast.Constant(isany))], [])
                for cond in reversed(gen.ifs):
                    st = ast.If(cond, [st], [])
                loop = ast.For(gen.target, gen.iter, [st], [])
                j = b.index(s)
                b[j:j + 1] = [loop, ast.Return(ast.Constant(not isany))]
                done = True
    if done:
        yield 'any-loop', new


REWRITES = [r_noop, r_return_var, r_invert_if, r_else_after_return,
            r_comp_to_loop, r_walrus, r_rename, r_split_and, r_swap_stmts,
            r_temp, r_any_loop]

# ---------------------------------------------------------------------------
# mutations
# ---------------------------------------------------------------------------
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}
CSWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE,
         ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
         ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
         ast.IsNot: ast.Is}


def in_raise(root):
    out = set()
    for n in ast.walk(root):
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            for m in ast.walk(n):
                out.add(id(m))
        if isinstance(n, (ast.arguments,)):
            for m in ast.walk(n):
                out.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                out.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.returns:
            for m in ast.walk(n.returns):
                out.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                for m in ast.walk(d):
                    out.add(id(m))
    return out


def mutations(node):
    nodes = list(ast.walk(node))
    skip = in_raise(node)
    doc = node.body[0] if has_doc(node.body) else None
    for idx, n in enumerate(nodes):
        if id(n) in skip:
            continue

        def mk(fn, tag):
            new = copy.deepcopy(node)
            target = list(ast.walk(new))[idx]
            fn(target)
            return f"{tag}@{getattr(n, 'lineno', '?')}", \
                ast.fix_missing_locations(new)
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            yield mk(lambda t: setattr(t, 'op', SWAP[type(t.op)]()), 'binop')
            if not isinstance(n.op, (ast.Add, ast.Mult)):
                def sw(t):
                    t.left, t.right = t.right, t.left
                yield mk(sw, 'swap-operands')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield mk(lambda t: t.ops.__setitem__(
                0, CSWAP[type(t.ops[0])]()), 'cmp')
        if isinstance(n, ast.BoolOp):
            yield mk(lambda t: setattr(
                t, 'op', ast.Or() if isinstance(t.op, ast.And)
                else ast.And()), 'boolop')
            for i in range(len(n.values)):
                def drop(t, i=i):
                    del t.values[i]
                    if len(t.values) == 1:
                        t.values.append(copy.deepcopy(t.values[0]))
                yield mk(drop, 'drop-clause')
        if isinstance(n, (ast.If, ast.IfExp)):
            yield mk(lambda t: setattr(t, 'test', ast.UnaryOp(
                ast.Not(), t.test)), 'negate')
        if isinstance(n, ast.Constant) and n is not (
                doc.value if doc else None):
            if isinstance(n.value, bool):
                yield mk(lambda t: setattr(t, 'value', not t.value), 'bool')
            elif isinstance(n.value, int):
                yield mk(lambda t: setattr(t, 'value', t.value + 1), 'int')
            elif isinstance(n.value, str):
                yield mk(lambda t: setattr(t, 'value', t.value + 'x'), 'str')
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                def swp(t):
                    t.args[0], t.args[1] = t.args[1], t.args[0]
                if ast.dump(n.args[0]) != ast.dump(n.args[1]):
                    yield mk(swp, 'swap-args')
            if n.keywords:
                yield mk(lambda t: t.keywords.pop(), 'drop-kw')
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, s in enumerate(b):
                    if s is doc or isinstance(s, (ast.FunctionDef, ast.Pass,
                                                  ast.Import)):
                        continue

                    def dele(t, field=field, i=i):
                        getattr(t, field)[i] = ast.Pass()
                    yield mk(dele, f'delete-{type(s).__name__}:{s.lineno}')
        if isinstance(n, ast.comprehension) and n.ifs:
            yield mk(lambda t: t.ifs.pop(), 'drop-filter')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            pass


def main(argv):
    want = [a for a in argv if not a.startswith('-')]
    verbose = '-v' in argv
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    program = model.program()
    stats = collections.Counter()
    worst = collections.Counter()
    import time
    t0 = time.time()
    for f in program.all_functions(nested=False):
        if f.parent is not None:
            continue
        if want and not any(w in f.qual for w in want):
            continue
        if f.name in ('__str__', '__repr__', '__format__'):
            continue
        variants = []
        if '-m' not in argv:
            for r in REWRITES:
                for tag, new in r(f.node):
                    variants.append(('R', tag, ast.fix_missing_locations(
                        new), None))
            for r in rewriters.REWRITES:
                for tag, new in r(f.node):
                    variants.append(('R', tag, new, None))
            for tag, new, helper in [*r_extract(f.node, f.cls),
                                     *rewriters.extract_expr(f.node)]:
                variants.append(('R', tag, new, helper))
        if '-r' not in argv:
            for tag, new in mutations(f.node):
                variants.append(('M', tag, new, None))
        tf = time.time()
        for kind, tag, node, helper in variants:
            g = model.Func(node, f.module, f.cls)
            if helper is not None:
                f.module.functions['_extracted_'] = model.Func(
                    helper, f.module)
            try:
                v, d = refs.limited(program, g, f)
            except Exception as err:
                import traceback
                print('ERROR', f.qual, tag, type(err).__name__, err)
                if verbose:
                    traceback.print_exc()
                v, d = 'error', ''
            f.module.functions.pop('_extracted_', None)
            t = tag.split('@')[0].split(':')[0]
            stats[(kind, v)] += 1
            worst[(kind, t, v)] += 1
            if kind == 'R' and (v is False or verbose and v is not True):
                print('FALSE-ALARM' if v is False else 'undecided', f.qual,
                      tag, d[:300])
            if kind == 'M' and v is not False and verbose:
                print('missed', v, f.qual, tag, d[:160])
        if time.time() - tf > 20:
            print('slow', f.qual, round(time.time() - tf), flush=True)
    for k in sorted(stats, key=str):
        print(k, stats[k])
    if '-s' in argv:
        for k in sorted(worst, key=str):
            print('  ', k, worst[k])
    print(round(time.time() - t0, 1), 's')


if __name__ == '__main__':
    main(sys.argv[1:])
