#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on the current /repo tree."""
import sys, os, traceback, importlib, pkgutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fe.repo import Repo, AnalysisBroken
from fe.report import Report
import spec


def props():
    d = {}
    for m in pkgutil.iter_modules(spec.__path__):
        mod = importlib.import_module('spec.' + m.name)
        for k, v in getattr(mod, 'PROPS', {}).items(): d.setdefault(k, []).extend(v)
    from fe.table import load_all
    for k, v in load_all().items(): d.setdefault(k, []).extend(v)
    return d


def decide(pid, rules, tier, seed, repo=None):
    rep = Report(pid, tier, seed)
    repo = repo or Repo()
    try:
        repo.headers()
        for r in rules:
            try: r.run(repo, rep)
            except AnalysisBroken as e: rep.brk.append(str(e))
    except Exception:
        traceback.print_exc()
        rep.brk.append('internal error')
    return rep.finish()


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props()
    if pid == 'all':
        repo = Repo()
        rc = 0
        for k in sorted(P): rc |= decide(k, P[k], tier, seed, repo)
        return rc
    if pid not in P:
        print('unknown property', pid); return 3
    return decide(pid, P[pid], tier, seed)


sys.exit(main())
