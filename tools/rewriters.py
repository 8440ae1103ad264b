"""More behaviour-preserving rewrites for tools/mutate.py -r."""
import ast
import copy


def fresh(node):
    return ast.fix_missing_locations(copy.deepcopy(node))


def blocks(node):
    for n in ast.walk(node):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def call(f, *args):
    return ast.Call(name(f) if isinstance(f, str) else f, list(args), [])


def ref(n, f):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
        and n.func.id == f


class Each(ast.NodeTransformer):
    """Apply fn to every expression; count replacements."""

    def __init__(self, fn):
        self.fn = fn
        self.done = 0

    def generic_visit(self, node):
        super().generic_visit(node)
        new = self.fn(node)
        if new is not None:
            self.done += 1
            return new
        return node


def exprs(tag, fn):
    def rule(node):
        new = fresh(node)
        t = Each(fn)
        new.body = [t.visit(s) for s in new.body]
        if t.done:
            yield tag, fresh(new)
    return rule


def stmts(tag, fn):
    """fn(block, i) -> (number of statements replaced, new ones) or None."""
    def rule(node):
        new = fresh(node)
        done = 0
        for _, _, b in list(blocks(new)):
            i = 0
            while i < len(b):
                got = fn(b, i)
                if got is not None:
                    k, repl = got
                    b[i:i + k] = repl
                    done += 1
                    i += len(repl)
                else:
                    i += 1
        if done:
            yield tag, fresh(new)
    return rule


def isinstance_split(n):
    if ref(n, 'isinstance') and isinstance(n.args[1], ast.Tuple) \
            and len(n.args[1].elts) > 1 and isinstance(n.args[0], ast.Name):
        return ast.BoolOp(ast.Or(), [call('isinstance', n.args[0], t)
                                     for t in n.args[1].elts])


def in_to_or(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
            n.ops[0], ast.In) and isinstance(
                n.comparators[0], (ast.Tuple, ast.List)) and isinstance(
                    n.left, ast.Name) and len(n.comparators[0].elts) > 1 \
            and not any(isinstance(e, ast.Starred)
                        for e in n.comparators[0].elts):
        return ast.BoolOp(ast.Or(), [
            ast.Compare(n.left, [ast.Eq()], [e])
            for e in n.comparators[0].elts])


def demorgan(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) \
            and isinstance(n.operand, ast.BoolOp):
        op = ast.Or() if isinstance(n.operand.op, ast.And) else ast.And()
        return ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v)
                               for v in n.operand.values])


def get_to_in(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
            and n.func.attr == 'get' and not n.keywords and n.args and \
            isinstance(n.func.value, (ast.Name, ast.Attribute)) and \
            isinstance(n.args[0], (ast.Name, ast.Constant)):
        d = n.func.value
        return ast.IfExp(
            ast.Compare(n.args[0], [ast.In()], [d]),
            ast.Subscript(d, n.args[0], ast.Load()),
            n.args[1] if len(n.args) > 1 else ast.Constant(None))


def list_display(n):
    if ref(n, 'list') and len(n.args) == 1:
        return ast.List([ast.Starred(n.args[0], ast.Load())], ast.Load())
    if ref(n, 'tuple') and len(n.args) == 1:
        return ast.Tuple([ast.Starred(n.args[0], ast.Load())], ast.Load())


def or_default(n):
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(
            n.values) == 2 and isinstance(n.values[0], (ast.Name,
                                                        ast.Attribute)):
        return ast.IfExp(n.values[0], n.values[0], n.values[1])


def type_self(n):
    if ref(n, 'type') and len(n.args) == 1 and isinstance(
            n.args[0], ast.Name) and n.args[0].id == 'self':
        return ast.Attribute(name('self'), '__class__', ast.Load())


def chain_compare(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 2 and isinstance(
            n.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
        return ast.BoolOp(ast.And(), [
            ast.Compare(n.left, n.ops[:1], n.comparators[:1]),
            ast.Compare(n.comparators[0], n.ops[1:], n.comparators[1:])])


def map_comp(n):
    """f(x) for x in xs -> map(f, xs) inside list/tuple/set calls."""
    if isinstance(n, ast.ListComp) and len(n.generators) == 1 and not \
            n.generators[0].ifs and isinstance(n.elt, ast.Call) and not \
            n.elt.keywords and len(n.elt.args) == 1 and isinstance(
                n.elt.args[0], ast.Name) and isinstance(
                    n.generators[0].target, ast.Name) and \
            n.elt.args[0].id == n.generators[0].target.id and isinstance(
                n.elt.func, ast.Name):
        return call('list', call('map', n.elt.func, n.generators[0].iter))


def eq_flip(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
            n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
        op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
              ast.GtE: ast.LtE}[type(n.ops[0])]()
        return ast.Compare(n.comparators[0], [op], [n.left])
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
            n.ops[0], ast.Eq) and isinstance(
                n.comparators[0], ast.Constant):
        return ast.Compare(n.comparators[0], n.ops, [n.left])


def dict_call(n):
    if isinstance(n, ast.DictComp):
        return call('dict', ast.GeneratorExp(
            ast.Tuple([n.key, n.value], ast.Load()), n.generators))


def set_call(n):
    if isinstance(n, ast.SetComp):
        return call('set', ast.GeneratorExp(n.elt, n.generators))


def items_loop(b, i):
    s = b[i]
    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
            isinstance(s.iter.func, ast.Attribute) and \
            s.iter.func.attr == 'items' and not s.iter.args and not \
            s.iter.keywords and isinstance(s.target, ast.Tuple) and len(
                s.target.elts) == 2 and isinstance(
                    s.target.elts[0], ast.Name) and isinstance(
                        s.iter.func.value, (ast.Name, ast.Attribute)):
        k, v = s.target.elts
        d = s.iter.func.value
        get = ast.Assign([v], ast.Subscript(d, name(k.id), ast.Load()))
        return 1, [ast.For(k, d, [get] + s.body, s.orelse)]


def ternary(b, i):
    s = b[i]
    if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
        v = s.value
        return 1, [ast.If(v.test, [ast.Return(v.body)],
                          [ast.Return(v.orelse)])]
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(
            s.targets) == 1:
        v = s.value
        return 1, [ast.If(v.test, [ast.Assign(s.targets, v.body)],
                          [ast.Assign(s.targets, v.orelse)])]


def to_ternary(b, i):
    s = b[i]
    if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(
            s.body[0], ast.Return) and s.body[0].value is not None \
            and i + 1 < len(b) and not s.orelse and isinstance(
                b[i + 1], ast.Return) and b[i + 1].value is not None \
            and not any(isinstance(n, ast.NamedExpr)
                        for n in ast.walk(s.test)):
        return 2, [ast.Return(ast.IfExp(s.test, s.body[0].value,
                                        b[i + 1].value))]


def merge_ifs(b, i):
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
            isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        return 1, [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]),
                          s.body[0].body, [])]
    # two guards with the same body
    if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) and \
            isinstance(b[i + 1], ast.If) and not b[i + 1].orelse and \
            isinstance(s.body[-1], (ast.Return, ast.Raise)) and \
            ast.dump(ast.Module(s.body, [])) == ast.dump(
                ast.Module(b[i + 1].body, [])):
        return 2, [ast.If(ast.BoolOp(ast.Or(), [s.test, b[i + 1].test]),
                          s.body, [])]


def split_or(b, i):
    s = b[i]
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and \
            isinstance(s.test.op, ast.Or) and not s.orelse and isinstance(
                s.body[-1], (ast.Return, ast.Raise)):
        return 1, [ast.If(v, s.body, []) for v in s.test.values]


def next_loop(b, i):
    s = b[i]
    if isinstance(s, ast.Return) and ref(s.value, 'next') and isinstance(
            s.value.args[0], ast.GeneratorExp) and len(s.value.args) == 2 \
            and len(s.value.args[0].generators) == 1:
        g = s.value.args[0]
        gen = g.generators[0]
        st = ast.Return(g.elt)
        for c in reversed(gen.ifs):
            st = ast.If(c, [st], [])
        return 1, [ast.For(gen.target, gen.iter, [st], []),
                   ast.Return(s.value.args[1])]


def loop_next(b, i):
    s = b[i]
    if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and \
            isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(
                s.body[0].body) == 1 and isinstance(
                    s.body[0].body[0], ast.Return) and i + 1 < len(b) and \
            isinstance(b[i + 1], ast.Return):
        r = s.body[0].body[0].value or ast.Constant(None)
        d = b[i + 1].value or ast.Constant(None)
        return 2, [ast.Return(call('next', ast.GeneratorExp(r, [
            ast.comprehension(s.target, s.iter, [s.body[0].test], 0)]), d))]


def append_comp(b, i):
    """x = []; for t in it: [if c:] x.append(e) -> comprehension"""
    s = b[i]
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not \
            s.value.elts and isinstance(s.targets[0], ast.Name) \
            and i + 1 < len(b) and isinstance(b[i + 1], ast.For) and not \
            b[i + 1].orelse:
        x = s.targets[0].id
        f = b[i + 1]
        conds, body = [], f.body
        while len(body) == 1 and isinstance(body[0], ast.If) and not \
                body[0].orelse:
            conds.append(body[0].test)
            body = body[0].body
        if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Call) and isinstance(
                    body[0].value.func, ast.Attribute) and \
                body[0].value.func.attr == 'append' and isinstance(
                    body[0].value.func.value, ast.Name) and \
                body[0].value.func.value.id == x and not any(
                    isinstance(n, ast.Name) and n.id == x
                    for e in conds + body[0].value.args
                    for n in ast.walk(e)):
            return 2, [ast.Assign(s.targets, ast.ListComp(
                body[0].value.args[0], [ast.comprehension(
                    f.target, f.iter, conds, 0)]))]


def try_to_in(b, i):
    """try: return d[k] / except KeyError -> membership test"""
    s = b[i]
    if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.orelse \
            and not s.finalbody and len(s.body) == 1 and isinstance(
                s.body[0], ast.Return) and isinstance(
                    s.body[0].value, ast.Subscript) and isinstance(
                        s.handlers[0].type, ast.Name) and \
            s.handlers[0].type.id == 'KeyError' and not s.handlers[0].name:
        sub = s.body[0].value
        if any(isinstance(n, (ast.Call, ast.Subscript))
               for n in ast.walk(sub.slice)) or any(
                   isinstance(n, (ast.Call, ast.Subscript))
                   for n in ast.walk(sub.value)):
            return None
        return 1, [ast.If(ast.Compare(sub.slice, [ast.In()], [sub.value]),
                          s.body, [])] + s.handlers[0].body


def yield_from(b, i):
    s = b[i]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
        return 1, [ast.For(name('item_', ast.Store()), s.value.value, [
            ast.Expr(ast.Yield(name('item_')))], [])]


def extend_plus(b, i):
    s = b[i]
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
            isinstance(s.value.func, ast.Attribute) and isinstance(
                s.value.func.value, ast.Name) and len(s.value.args) == 1:
        if s.value.func.attr == 'extend':
            x = s.value.func.value.id
            return 1, [ast.For(name('item_', ast.Store()), s.value.args[0], [
                ast.Expr(call(ast.Attribute(name(x), 'append', ast.Load()),
                              name('item_')))], [])]
        if s.value.func.attr == 'append':
            x = s.value.func.value.id
            return 1, [ast.AugAssign(name(x, ast.Store()), ast.Add(),
                                     ast.List([s.value.args[0]],
                                              ast.Load()))]


def continue_guard(b, i):
    """for t in it: if c: body -> if not c: continue; body"""
    s = b[i]
    if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
            s.body[0], ast.If) and not s.body[0].orelse:
        inner = s.body[0]
        return 1, [ast.For(s.target, s.iter, [ast.If(
            ast.UnaryOp(ast.Not(), inner.test), [ast.Continue()], [])]
            + inner.body, s.orelse)]


def inline_local(node):
    """Inline locals assigned once and used once, in the next statement."""
    new = fresh(node)
    done = 0
    for _, _, b in list(blocks(new)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and isinstance(
                        t, (ast.Return, ast.Assign)) and \
                    t.value is not None:
                x = s.targets[0].id
                uses = [n for n in ast.walk(new) if isinstance(n, ast.Name)
                        and n.id == x]
                inside = [n for n in ast.walk(t.value) if isinstance(
                    n, ast.Name) and n.id == x]
                if len(uses) == 2 and len(inside) == 1 and not any(
                        isinstance(n, (ast.Lambda, ast.ListComp,
                                       ast.GeneratorExp, ast.DictComp,
                                       ast.SetComp, ast.NamedExpr,
                                       ast.IfExp, ast.BoolOp))
                        for n in ast.walk(t.value)):
                    repl = Each(lambda n: s.value if isinstance(
                        n, ast.Name) and n.id == x else None)
                    t.value = repl.visit(t.value)
                    del b[i]
                    done += 1
                    continue
            i += 1
    if done:
        yield 'inline', fresh(new)


def extract_expr(node):
    """Move the largest condition or returned expression to a helper."""
    a = node.args
    bound = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    bound |= {n.id for n in ast.walk(node) if isinstance(n, ast.Name)
              and isinstance(n.ctx, ast.Store)}
    bound |= {x.arg for x in (a.vararg, a.kwarg) if x}
    bound |= {n.name for n in ast.walk(node) if isinstance(
        n, ast.FunctionDef) and n is not node}
    bound |= {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)}
    params = {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)}
    best = None
    for n in ast.walk(node):
        cands = []
        if isinstance(n, (ast.If, ast.IfExp)):
            cands.append(n.test)
        elif isinstance(n, (ast.Return, ast.Assign)) and n.value is not None:
            cands.append(n.value)
        for c in cands:
            sub = list(ast.walk(c))
            if len(sub) < 6 or any(isinstance(
                    x, (ast.NamedExpr, ast.Yield, ast.Lambda)) or isinstance(
                        x, ast.Name) and x.id in ('super', '__class__')
                    for x in sub):
                continue
            if {x.id for x in sub if isinstance(x, ast.Name) and isinstance(
                    x.ctx, ast.Store)} & params:
                continue
            if best is None or len(sub) > best[1]:
                best = (c, len(sub))
    if best is None:
        return
    target = best[0]
    own = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)
           and isinstance(n.ctx, ast.Store)}
    need = sorted({n.id for n in ast.walk(target) if isinstance(n, ast.Name)
                   and isinstance(n.ctx, ast.Load)} & (bound - own))
    helper = ast.FunctionDef(
        name='_extracted_', args=ast.arguments(
            posonlyargs=[], args=[ast.arg(x) for x in need], vararg=None,
            kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
        body=[ast.Return(copy.deepcopy(target))], decorator_list=[],
        returns=None, type_comment=None)
    new = copy.deepcopy(node)
    want = ast.dump(target)
    hit = []

    def fn(n):
        if not hit and isinstance(n, ast.expr) and ast.dump(n) == want:
            hit.append(n)
            return call('_extracted_', *[name(x) for x in need])
    t = Each(fn)
    new.body = [t.visit(s) for s in new.body]
    if hit:
        yield 'extract-expr', fresh(new), fresh(helper)


REWRITES = [
    exprs('isinstance-split', isinstance_split), exprs('in-or', in_to_or),
    exprs('demorgan', demorgan), exprs('get-in', get_to_in),
    exprs('list-display', list_display), exprs('or-default', or_default),
    exprs('type-self', type_self), exprs('chain-compare', chain_compare),
    exprs('map', map_comp), exprs('eq-flip', eq_flip),
    exprs('dict-call', dict_call), exprs('set-call', set_call),
    stmts('items-loop', items_loop), stmts('ternary', ternary),
    stmts('to-ternary', to_ternary), stmts('merge-ifs', merge_ifs),
    stmts('split-or', split_or), stmts('next-loop', next_loop),
    stmts('loop-next', loop_next), stmts('append-comp', append_comp),
    stmts('try-in', try_to_in), stmts('yield-from', yield_from),
    stmts('extend-loop', extend_plus), stmts('continue', continue_guard),
    inline_local]
