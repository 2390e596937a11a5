"""Optimizations leave what a module computes unchanged."""
import gc
import os
import multiprocessing as mp

from sa.facts import AnalysisBroken
from sa.family import Gen
from sa.machine import Cell, Machine, Obj, Thrown, Failed, Unknown
from sa.report import *
from sa.shapes import Den, census, consistent, duplicate, superfluous, R, L

UNITS = ('jlm/rvsdg', 'jlm/util', 'jlm/llvm/opt', 'jlm/llvm/ir')
STATS = 'jlm::util::StatisticsCollector'


def run_pass(M, s, cls, *ctor):
    p = M.new(cls, *[c(M) if callable(c) else c for c in ctor])
    M.do(p, 'Run', s.module, Obj(STATS))


def compare(M, build, transform, den=Den, after=None, noted=None):
    """what is wrong with a transformation of one graph (None if nothing is), and whether it did anything"""
    s = build()
    d = den(M)
    before = d.all(s.g)
    bad = consistent(M, s.g)
    if bad:
        raise AnalysisBroken('an abstract graph is inconsistent before anything is done to it: %s' % bad[0])
    was = census(M, s.g)
    note = noted(M, s.g) if noted else None
    try:
        transform(s)
    except Thrown as e:
        return 'does not get through: %s' % e, True
    d.changed()
    bad = consistent(M, s.g)
    if bad:
        return 'leaves an inconsistent graph: %s' % bad[0], True
    did = census(M, s.g) != was
    again = None
    try:
        for dec, obs in before:
            rs = d.all(s.g, dec)
            for d2, o2 in rs:
                if o2 is None and len(d2) > len(dec) and any(o is not None for _, o in rs):
                    continue        # an unneeded loop whose predicate was never asked for goes on
                if o2 is None:
                    if again is None:
                        again = build().g
                    if d.goes_on(again, d2):
                        continue    # so does one whose predicate something else asked for
                if o2 != obs:
                    return 'changes a value: ' + difference(d, obs, o2), did
    except Failed as e:
        return 'leaves a malformed graph: %s' % e, did
    return after(M, s, note) if after else None, did


def difference(d, a, b):
    if b is None:
        return 'a loop does not end any more'
    if [x[0] for x in a] != [x[0] for x in b]:
        return 'other exports'
    for (n, x), (_, y) in zip(a, b):
        if x != y:
            return 'export %s is %s instead of %s' % (n, d.show(y, 7)[:300], d.show(x, 7)[:300])
    return '?'


_job = {}


def _work(i):
    M, members, one = _job['M'], _job['members'], _job['one']
    out = []
    for m in members[i::_job['n']]:
        M.steps = 0
        try:
            for r in M.runs(lambda: one(M, m)):
                if isinstance(r, Exception):
                    out.append((m, 'E', 'does not get through: %s (in %s)' % (r, where(r)), 0))
                    continue
                if r[0]:
                    out.append((m, 'V', r[0], r[1]))
                else:
                    out.append((m, 'ok', None, r[1]))
        except AnalysisBroken as e:
            out.append((m, 'B', str(e)[:300], 0))
        except Exception as e:
            # a construct the interpreter does not get right: no answer for this member
            out.append((m, 'B', 'internal error: %s: %s at %s' % (type(e).__name__, str(e)[:120], at(e)), 0))
    return out


def at(e):
    t = e.__traceback__
    while t.tb_next:
        t = t.tb_next
    return '%s:%d' % (t.tb_frame.f_code.co_filename.rsplit('/', 1)[-1], t.tb_lineno)


def where(e):
    t = getattr(e, 'trace', None) or []
    return ' > '.join(f.q.rsplit('::', 2)[-2] + '::' + f.name if '::' in f.q else f.name for f in t[-4:])


def sweep(P, members, one, prepare=None, procs=8):
    """one(M, member) for every member, in parallel"""
    M = Machine(P)
    if prepare:
        prepare(M)
    _job.update(M=M, members=list(members), one=one, n=procs)
    gc.collect()
    gc.freeze()
    if procs == 1:
        return _work(0)
    with mp.get_context('fork').Pool(procs) as pool:
        return [x for xs in pool.map(_work, range(procs)) for x in xs]


def judge(rep, P, rule, results, anchor, what):
    """anchor: (file, line)"""
    bad, undecided, told = [], [], set()
    for m, k, msg, did in sorted(results, key=lambda x: (str(x[0][0]), x[0][1])):
        if k == 'B':
            undecided.append((m, msg))
            continue
        rep.site(rule, '%s %s' % (what, m))
        if did:
            rep.site(rule + ' (changed)', '%s %s' % (what, m))
        if k in 'VE':
            bad.append((m, msg))
    for m, msg in bad:
        kind = msg[:40]
        if kind not in told and len(told) < 3:
            told.add(kind)
            rep.violation(rule, '%s %s' % (what, kind), anchor[0], anchor[1], '%s, abstract graph %s: %s (%d of %d graphs)' %
                          (what, m, msg, len(bad), len(results)))
    if undecided:
        rep.note('%s: %d graphs undecided, e.g. %s: %s' % (what, len(undecided), *undecided[0]))
        if 2 * len(undecided) > len(results):
            rep.broken.append('%s, graph %s: %s' % (what, *undecided[0]))


def anchor(P, cls):
    fs = [f for f in P.by_q.get(cls + '::Run', []) if f.body]
    if not fs:
        raise AnalysisBroken('%s::Run not found' % cls)
    return fs[0].file, fs[0].line


def factor():
    return 6 if os.environ.get('VERIF_TIER') == 'thorough' else 1


def families(P, rep, rule, cls, fams, ctor=(), after=None, changed=0, prepare=None, noted=None):
    """fams: {name: (number of graphs, configuration)}"""
    members = [(k, i) for k, (n, c) in fams.items() for i in range(n * factor())]

    def one(M, m):
        c = fams[m[0]][1]
        return compare(M, lambda: Gen(M, m[1], **c).module(), lambda s: run_pass(M, s, cls, *ctor),
                       den=lambda M: Den(M, instances=not c.get('calls')), after=after, noted=noted)
    rs = sweep(P, members, one, prepare)
    judge(rep, P, rule, rs, anchor(P, cls), cls.rsplit('::', 1)[-1])
    rep.floor(rule + ' (changed)', changed)


SAME = 'in every abstract graph of the family, every export denotes the same term after the pass as before, whatever way every branch ' \
    'goes and for up to 3 iterations of every loop, and the data structure stays consistent (indices, owners, users, top and bottom nodes)'


def leaves(f):
    def after(M, s, _):
        x = f(M, s.g)
        return x and 'leaves %s' % x
    return after


def dead(P, rep):
    rep.rule('dead', 'DeadNodeElimination: ' + SAME + '; afterwards nothing is left that no export needs')
    rep.rule('dead (changed)', 'the graphs the pass changes')
    families(P, rep, 'dead', L + 'DeadNodeElimination', {
        'plain': (350, dict()), 'calls': (250, dict(calls=True, mem=True)), 'deep': (150, dict(depth=3, nodes=3)),
        'split': (200, dict(calls=True, mem=True, split=True))}, after=leaves(superfluous), changed=500)


def common(P, rep):
    rep.rule('common', 'CommonNodeElimination: ' + SAME + '; afterwards no region has two nodes with the same operation and operands left '
             '(storage is never merged)')
    rep.rule('common (changed)', 'the graphs the pass changes')
    families(P, rep, 'common', L + 'CommonNodeElimination', {
        'plain': (350, dict()), 'calls': (200, dict(calls=True, mem=True)), 'storage': (200, dict(allocas=True)),
        'loops': (200, dict(gammas=False, depth=3, nodes=3)), 'chains': (250, dict(depth=2, nodes=3, chains=.8, states=False))},
        after=leaves(duplicate), changed=400)
    families(P, rep, 'common', L + 'CommonNodeElimination', {
        'collisions': (120, dict()), 'collisions, chains': (60, dict(chains=.5))}, prepare=collide, changed=500)
    rep.rule('common/hls', 'CommonNodeElimination of the hardware back end: ' + SAME)
    rep.rule('common/hls (changed)', 'the graphs the pass changes')
    families(P, rep, 'common/hls', 'jlm::hls::CommonNodeElimination', {
        'plain': (160, dict()), 'calls': (100, dict(calls=True, mem=True)), 'storage': (100, dict(allocas=True)),
        'loops': (100, dict(gammas=False, depth=3, nodes=3)), 'chains': (120, dict(depth=2, nodes=3, chains=.8, states=False))}, changed=100)


def collide(M):
    """all hashes are alike"""
    M.natives['jlm::util::CombineHashes'] = lambda M, d, a: 1


def invariant(P, rep):
    rep.rule('redirect', 'InvariantValueRedirection: ' + SAME)
    rep.rule('redirect (changed)', 'the graphs the pass changes')
    families(P, rep, 'redirect', L + 'InvariantValueRedirection', {
        'plain': (250, dict()), 'calls': (300, dict(calls=True, mem=True)), 'small': (200, dict(calls=True, depth=1, nodes=3)),
        'correlated': (300, dict(match=True, correlate=True)), 'encoded': (200, dict(calls=True, mem=True, encode=True))}, changed=600)


WRITES = (L + 'StoreOperation', L + 'CallOperation', L + 'MemCpyOperation')


def effects(M, g):
    """for every alternative of every gamma, how many operations in it change memory or do input and output"""
    out = {}

    def region(r):
        n = 0
        for c in M.iterate(M.do(r, 'Nodes')):
            x = c.v if type(c) is Cell else c
            if M.isa(x, R + 'StructuralNode'):
                for i in range(M.do(x, 'nsubregions')):
                    k = region(M.do(x, 'subregion', i))
                    if M.isa(x, R + 'GammaNode'):
                        out[M.do(x, 'subregion', i)] = k
                    n += k
            else:
                o = M.do(x, 'GetOperation')
                if o.cls == 'opaque::Effect':
                    n += o.f[o.cls, 'name'].v != 'ld'
                else:
                    n += any(M.isa(o, w) for w in WRITES)
        return n
    region(M.do(g, 'GetRootRegion'))
    return out


def unspeculated(M, s, was):
    now = effects(M, s.g)
    for r, n in was.items():
        if now.get(r, n) < n:
            return 'moves an operation that changes memory out of an alternative that may not be taken'


def motion(P, rep):
    rep.rule('hoist', 'NodeHoisting: ' + SAME + '; no operation that writes memory leaves the alternative of a gamma it is in')
    rep.rule('hoist (changed)', 'the graphs the pass changes')
    rep.rule('sink', 'NodeSinking: ' + SAME)
    rep.rule('sink (changed)', 'the graphs the pass changes')
    families(P, rep, 'hoist', L + 'NodeHoisting', {
        'plain': (200, dict()), 'storage': (300, dict(tight=.6, allocas=True)), 'memory': (250, dict(tight=.8, io=False, nodes=3)),
        'nested': (400, dict(tight=.8, depth=3, nodes=3, gammas=False)), 'calls': (100, dict(calls=True, mem=True))}, changed=700,
        noted=effects, after=unspeculated)
    families(P, rep, 'sink', L + 'NodeSinking', {
        'plain': (400, dict(sink=True)), 'deep': (250, dict(sink=True, allocas=True, depth=3, nodes=3))}, changed=100)


def branches(P, rep):
    for r, c in (('convert', 'IfConversion'), ('correlate', 'PredicateCorrelation'), ('unswitch', 'LoopUnswitching')):
        rep.rule(r, c + ': ' + SAME)
        rep.rule(r + ' (changed)', 'the graphs the pass changes')
    families(P, rep, 'convert', L + 'IfConversion', {
        'plain': (200, dict(thetas=False)), 'match': (200, dict(match=True)), 'correlated': (150, dict(match=True, correlate=True))},
        changed=150)
    families(P, rep, 'correlate', L + 'PredicateCorrelation', {
        'match': (100, dict(match=True)), 'correlated': (500, dict(match=True, correlate=True)),
        'negative': (300, dict(match=True, correlate=True, negative=True))}, changed=60)
    families(P, rep, 'unswitch', L + 'LoopUnswitching', {
        'correlated': (700, dict(match=True, correlate=True)), 'negative': (150, dict(match=True, correlate=True, negative=True))},
        ctor=[lambda M: M.run(L + 'LoopUnswitchingDefaultHeuristic::create')], changed=60)


def inlining(P, rep):
    rep.rule('inline', 'FunctionInlining: ' + SAME + '; a call of a known function denotes what its body denotes for the arguments')
    rep.rule('inline (changed)', 'the graphs the pass changes')
    families(P, rep, 'inline', L + 'FunctionInlining', {
        'plain': (300, dict(calls=True)), 'memory': (400, dict(calls=True, mem=True)), 'storage': (300, dict(calls=True, mem=True, counts=True, depth=1, nodes=3)), 'small': (300, dict(calls=True, depth=1, nodes=3)),
        'encoded': (400, dict(calls=True, mem=True, encode=True))}, changed=300)


CHECKS = {'C13': dead, 'C14': common, 'C15': invariant, 'C16': motion, 'C17': branches, 'C18': inlining}
