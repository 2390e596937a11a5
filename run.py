#!/usr/bin/env python3
"""python3 run.py PROPERTY...   decides the properties on /repo's current sources
   python3 run.py --setup       builds the extractor and fills the fact cache
   python3 run.py --all         every property"""
import importlib, os, pkgutil, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sa import facts, report
import checks


def registry():
    r = {}
    for m in pkgutil.iter_modules(checks.__path__):
        mod = importlib.import_module('checks.' + m.name)
        for k, v in getattr(mod, 'CHECKS', {}).items():
            r[k] = v
    return r


def main():
    args = sys.argv[1:]
    if args == ['--setup']:
        t = time.time()
        P = facts.Program(facts.sources().units)
        print('setup: %d units, %d extracted, %.1fs' % (len(P.units), P.extracted, time.time() - t))
        return 0
    reg = registry()
    if args == ['--all']:
        args = sorted(reg)
    worst = 0
    try:
        P = facts.Program(facts.sources().units)
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e, file=sys.stderr)
        return 3
    for a in args:
        if a not in reg:
            print('unknown property ' + a, file=sys.stderr)
            return 2
        rep = report.Report(a)
        try:
            reg[a](P, rep)
        except facts.AnalysisBroken as e:
            rep.broken.append(str(e))
        except Exception:
            traceback.print_exc()
            rep.broken.append('internal error')
        rc = report.finish(rep, P)
        worst = max(worst, rc)
    return worst


sys.exit(main())
