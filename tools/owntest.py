#!/usr/bin/env python3
"""Engine test: I01 stays quiet on automatic rewrites of every function."""
import ast
import multiprocessing
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
sys.path[:0] = [str(HERE.parent), str(HERE)]
sys.setrecursionlimit(20000)
from sa import model                        # noqa: E402
from sa.checks import ownership             # noqa: E402
import mutate                               # noqa: E402
import rewriters                            # noqa: E402


def job(k):
    program = model.program()
    out, n = [], 0
    fs = [f for f in program.all_functions(nested=False) if f.parent is None]
    for f in fs[k::8]:
        variants = []
        for r in list(mutate.REWRITES) + list(rewriters.REWRITES):
            for tag, new in r(f.node):
                variants.append((tag, new, None))
        for tag, new, helper in [*mutate.r_extract(f.node, f.cls),
                                 *rewriters.extract_expr(f.node)]:
            variants.append((tag, new, helper))
        old = f.node
        for tag, node, helper in variants:
            f.node = ast.fix_missing_locations(node)
            if helper is not None:
                f.module.functions['_extracted_'] = model.Func(
                    ast.fix_missing_locations(helper), f.module)
            n += 1
            try:
                for status, key, where, detail in ownership.i01(
                        program).items:
                    if status == 'bad':
                        out.append(f'{f.qual} {tag}: {key}: {detail}')
            except Exception as err:
                out.append(f'ERROR {f.qual} {tag} {err!r}')
            f.module.functions.pop('_extracted_', None)
        f.node = old
    return n, out


if __name__ == '__main__':
    total = 0
    with multiprocessing.Pool(8) as pool:
        for n, out in pool.imap(job, range(8)):
            total += n
            for o in out:
                print(o[:300])
    print(total, 'rewrites')
