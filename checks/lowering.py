"""The way into the RVSDG and the way out of it leave what a module computes unchanged."""
from sa.facts import AnalysisBroken
from sa.family import Gen
from sa.flow import Flow, FlowGen, Named, SampledFlow, decorate
from sa.machine import Failed, Obj, Thrown
from sa.report import *
from sa.shapes import MAX_ITER, consistent, R, L

from .passes import STATS, factor, judge, sweep

IN = L + 'ConvertInterProceduralGraphModule'
OUT = L + 'RvsdgToIpGraphConverter::CreateAndConvertModule'


def bare(x):
    return getattr(x, 'v', x)


def into(M, mod):
    m = bare(M.run(IN, mod, Obj(STATS), sig='util::StatisticsCollector'))
    return M.do(m, 'Rvsdg')


def differ(d, a, b):
    """what is wrong with b"""
    if [x[0] for x in a] != [x[0] for x in b]:
        return 'defines %s instead of %s' % ([x[0] for x in b], [x[0] for x in a])
    for (n, x), (_, y) in zip(a, b):
        if x == y:
            continue
        if n == 'about the module':
            return 'has %s instead of %s' % ([i for i in y if i not in x][:2], [i for i in x if i not in y][:2])
        if len(x) != len(y):
            return '%s gives %d results instead of %d' % (n, len(y), len(x))
        i = [i for i in range(len(x)) if x[i] != y[i]][0]
        return '%s gives %s instead of %s' % (n, d.show(y[i], 6)[:300], d.show(x[i], 6)[:300])


def same(before, d, of, again=None):
    """what is wrong with a translation (None if nothing is), and how many outcomes were compared"""
    n = 0
    try:
        for dec, obs in before:
            rs = d.all(of, dec)
            for d2, o2 in rs:
                if o2 is None:
                    # a loop nothing needs may go on
                    if len(d2) > len(dec) and any(o is not None for _, o in rs):
                        continue
                    if again and again(d2):
                        continue
                    return 'changes a value: a loop does not end any more', n
                n += 1
                if o2 != obs:
                    return 'changes a value: ' + differ(d, obs, o2), n
    except Failed as e:
        return 'leaves a malformed module: %s' % e, n
    return None, n


def after(a, cls, *args):
    """a denotation in the same terms"""
    b = cls(a.M, a.instances)
    b.table, b.back = a.table, a.back
    return b


def inward(M, m, c):
    mod = FlowGen(M, m, **c).module()
    a = SampledFlow(M)
    before = a.all(mod)
    if not before:
        return None, 0
    try:
        g = into(M, mod)
    except Thrown as e:
        return 'does not get through: %s' % e, 1
    bad = consistent(M, g)
    if bad:
        return 'leaves an inconsistent graph: %s' % bad[0], 1
    b = after(a, Named)
    b.exporting = True
    return same(before, b, g)


def graph(M, m, c):
    G = Gen(M, m, llvm=True, **c)
    decorate(G.s, G.rng)
    return G.module()


def outward(M, m, c, back=False):
    s = graph(M, m, c)
    a = Named(M, not c.get('calls'))
    a.iterations = MAX_ITER
    before = a.all(s.g)

    def again(d):
        a.changed()
        return a.goes_on(graph(M, m, c).g, d)
    try:
        mod = bare(M.run(OUT, s.module, Obj(STATS)))
        if back:
            mod = into(M, mod)
    except Thrown as e:
        return 'does not get through: %s' % e, 1
    if back:
        bad = consistent(M, mod)
        if bad:
            return 'leaves an inconsistent graph: %s' % bad[0], 1
        return same(before, after(a, Named), mod, again)
    b = after(a, Flow)
    b.exporting = False
    return same(before, b, mod, again)


def place(P, q):
    fs = [f for f in P.by_q.get(q, []) if f.body]
    if not fs:
        raise AnalysisBroken('%s not found' % q)
    return fs[0].file, fs[0].line


def family(P, rep, rule, q, fams, one, compared):
    members = [(k, i) for k, (n, c) in fams.items() for i in range(n * factor())]
    rs = sweep(P, members, lambda M, m: one(M, m[1], fams[m[0]][1]))
    judge(rep, P, rule, rs, place(P, q), q.rsplit('::', 1)[-1])
    rep.floor(rule + ' (changed)', compared)


ANY = 'whatever way every branch goes'
KEEP = '; linkage, calling convention, attributes, section, alignment and constness of everything with a name are kept'


def construct(P, rep):
    rep.rule('construct', 'ConvertInterProceduralGraphModule: in every abstract module of the family (arbitrary control flow, SSA phis, assigned '
             'variables, recursion), every function and variable denotes the same terms in the resulting graph as before, ' + ANY + KEEP +
             ', what other modules can refer to is exported, and the graph is consistent')
    rep.rule('construct (changed)', 'the modules in which at least one outcome was compared')
    family(P, rep, 'construct', IN, {
        'plain': (700, dict()), 'small': (500, dict(blocks=3, vars=1)), 'several': (500, dict(functions=3, blocks=4)),
        'dense': (500, dict(blocks=8, dense=.7)), 'assigned': (300, dict(blocks=10, dense=.4, phis=False, vars=3))}, inward, 2000)


def destruct(P, rep):
    rep.rule('destruct', 'RvsdgToIpGraphConverter: in every abstract graph of the family, every function and variable denotes the same terms in the '
             'resulting control flow graphs as before, ' + ANY + ' and for up to %d iterations of every loop' % MAX_ITER + KEEP)
    rep.rule('destruct (changed)', 'the graphs in which at least one outcome was compared')
    fams = {'plain': (500, dict()), 'memory': (300, dict(calls=True, mem=True)), 'deep': (200, dict(depth=3)),
            'matched': (300, dict(match=True, correlate=True)), 'storage': (150, dict(allocas=True)), 'encoded': (150, dict(calls=True, mem=True, encode=True))}
    family(P, rep, 'destruct', OUT, fams, outward, 1200)


CHECKS = {'C19': construct, 'C20': destruct}
