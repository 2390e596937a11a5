"""Reporting: evidence, violations, known findings."""
import json, os, sys, time
from .facts import VERIF, REPO, AnalysisBroken


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.violations = []      # (key, file, line, rule, message)
        self.sites = {}           # rule -> [instances]
        self.broken = []
        self.notes = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text
        self.sites.setdefault(name, [])

    def site(self, rule, instance):
        self.sites.setdefault(rule, []).append(instance)

    def violation(self, rule, instance, file, line, message):
        key = '%s|%s' % (rule, instance)
        if not any(v[0] == key for v in self.violations):
            self.violations.append((key, file, line, rule, message))

    def floor(self, rule, n):
        have = len(set(map(str, self.sites.get(rule, []))))
        if have < n:
            self.broken.append('rule %s matched %d instances, at least %d expected' % (rule, have, n))

    def note(self, s):
        self.notes.append(s)


def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {k['key']: k for k in d.get('findings', []) if k['property'] == prop}


def finish(rep, P):
    known = known_findings(rep.prop)
    new, old = [], []
    for v in rep.violations:
        (old if v[0] in known else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s:%s]' % (rep.prop, known[v[0]]['what'], v[1], v[2]))
    replay = None
    rdir = os.path.join(VERIF, 'evidence')
    os.makedirs(rdir, exist_ok=True)
    if new:
        replay = os.path.join(rdir, rep.prop + '.violations.txt')
        with open(replay, 'w') as f:
            for key, file, line, rule, msg in new:
                f.write('%s:%s: [%s] %s\n    rule: %s\n    instance: %s\n    re-run: cd /verif && python3 run.py %s\n'
                        % (file, line, rule, msg, rep.rules.get(rule, rule), key, rep.prop))
    else:
        try:
            os.unlink(os.path.join(rdir, rep.prop + '.violations.txt'))
        except OSError:
            pass
    n = sum(len(set(map(str, v))) for v in rep.sites.values())
    ev = {
        'property': rep.prop,
        'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the sources in %s: %d translation units, %d function definitions, '
                           '%d classes; %d rule instances examined' % (REPO, len(P.units), len(P.funcs),
                                                                    len(P.classes), n),
            'units': len(P.units),
            'functions_in_model': len(P.funcs),
            'rule_instances': n,
            'rules': {r: {'rule': t, 'instances': len(set(map(str, rep.sites.get(r, [])))),
                          'sites': sorted(set(map(str, rep.sites.get(r, []))))[:400]}
                      for r, t in rep.rules.items()},
            'notes': rep.notes,
            'known_findings': [v[0] for v in old],
        },
        'assumptions': getattr(rep, 'assumptions', []),
        'wall_s': round(time.time() - rep.t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(rdir, rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, file, line, rule, msg in new:
        print('%s:%s: [%s] %s' % (file, line, rule, msg))
    if new:
        print('VIOLATION property=%s replay=%s' % (rep.prop, replay))
        return 1
    if rep.broken:
        for b in rep.broken:
            print('ANALYSIS-BROKEN: ' + b, file=sys.stderr)
        return 3
    print('%s: held on %d rule instances (%s)' % (
        rep.prop, n, ', '.join('%s:%d' % (r, len(set(map(str, v)))) for r, v in sorted(rep.sites.items()))))
    return 0
