#!/usr/bin/env python3
"""Run the static checks: check.py [--tier quick|thorough] ID [ID...]|all"""
import importlib
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import model                                     # noqa: E402
from sa.checks import CHECKS                             # noqa: E402


def selftest():
    for path in sorted((model.pathlib.Path(__file__).parent).rglob('sa/**/*.py')):
        compile(path.read_text(), str(path), 'exec')
    print('ok')
    return 0


def main(argv):
    if argv[:1] == ['--selftest']:
        return selftest()
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    ids = argv or ['all']
    if ids == ['all']:
        ids = sorted(CHECKS)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    worst = 0
    for pid in ids:
        modname, fname = CHECKS[pid]
        mod = importlib.import_module(f"sa.checks.{modname}")
        try:
            check = getattr(mod, fname)(model.program(), tier)
            rc = check.finish(tier)
        except model.AnalysisError as err:
            print(f"ERROR property={pid}: {err}", file=sys.stderr)
            rc = 2
        worst = max(worst, rc) if 1 not in (worst, rc) else 1
    return worst


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
