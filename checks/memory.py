"""C22: taking loads out of chains of memory states keeps every access ordered as it has to be.

Memory states are read as histories: the accesses something comes after. A load comes after the modifications before it, whatever
order it has among other loads; everything else comes after all accesses before it."""
from sa.family import Gen
from sa.report import *
from sa.shapes import Den, L, R

from .passes import SAME, anchor, compare, factor, judge, run_pass, sweep

OUTPUT = 'jlm::rvsdg::Output *'


class MemGen(Gen):
    """functions whose accesses are the operations the compiler has"""

    def __init__(self, M, seed, **cfg):
        Gen.__init__(self, M, seed, **cfg)
        self.plain, self.s.op = self.s.op, self.real

    def vec(self, xs):
        return self.s.vec(xs, OUTPUT)

    def entries(self, pool):
        """a loop hands every state on as the same state"""
        states = iter(pool['s'])
        return [(t, next(states) if t == 's' else x) for t, x in Gen.entries(self, pool)]

    def real(self, name, ins, outs, region=None, cls='opaque::Op', attrs=()):
        M, s, T = self.M, self.s, self.T
        if name == 'join':
            return s.outs(M.run(L + 'MemoryStateJoinOperation::CreateNode', self.vec(ins)))
        if cls != 'opaque::Effect':
            return self.plain(name, ins, outs, region, cls, attrs)
        p = self.plain('at', ins[:1], [T['p']])[0]
        if name == 'ld':
            return s.node(M.new(L + 'LoadNonVolatileOperation', T['b'], 1, 4), [p, ins[-1]])
        if name == 'st':
            return s.node(M.new(L + 'StoreNonVolatileOperation', T['b'], 1, 4), [p, ins[1], ins[-1]])
        x, io, st = s.node(M.new(L + 'LoadVolatileOperation', T['b'], 1, 4), [p, ins[2], ins[1]])
        return [x, st, io]

    def access(self, pool):
        M, s, T = self.M, self.s, self.T
        a = self.any(pool, 'p')
        ks = [i for i in range(len(pool['s'])) if self.p(.6)] or [self.r(len(pool['s']))]
        self.rng.shuffle(ks)
        if self.p(.6):
            ks = ks[:1]
        st, n, k = [pool['s'][i] for i in ks], len(ks), self.r(24)
        if k < 13:
            x, *new = s.node(M.new(L + 'LoadNonVolatileOperation', T['b'], n, 4), [a] + st)
            if self.p(.6):
                pool['b'].append(x)
        elif k < 15 and pool['i']:
            x, pool['i'][0], *new = s.node(M.new(L + 'LoadVolatileOperation', T['b'], n, 4), [a, pool['i'][0]] + st)
            pool['b'].append(x)
        elif k < 16 and pool['i']:
            pool['i'][0], *new = s.node(M.new(L + 'StoreVolatileOperation', T['b'], n, 4), [a, self.any(pool, 'b'), pool['i'][0]] + st)
        elif k < 17:
            new = s.node(M.new(L + 'MemSetNonVolatileOperation', T['b'], n), [a, s.op('byte', [self.any(pool, 'b')], [s.bit(8)])[0], self.any(pool, 'b')] + st)
        elif k < 18:
            new = s.node(M.new(L + 'MemCpyNonVolatileOperation', T['b'], n), [a, self.any(pool, 'p'), self.any(pool, 'b')] + st)
        elif k < 19 and pool['i']:
            *new, pool['i'][0] = s.node(M.new(L + 'FreeOperation', n), [a] + st + [pool['i'][0]])
        elif k < 20 and n > 1:
            x = s.outs(M.run(L + 'MemoryState%sOperation::CreateNode' % ('Merge', 'Join')[self.r(2)], self.vec(st)))[0]
            new = [x] * n
        else:
            new = s.node(M.new(L + 'StoreNonVolatileOperation', T['b'], n, 4), [a, self.any(pool, 'b')] + st)
        for i, x in zip(ks, new):
            pool['s'][i] = x


class History(Den):
    def past(self, x):
        t = self.back[x]
        return t[1] if t[0] == 'hist' else (x,)

    def after(self, *pasts):
        es = sorted({e for p in pasts for e in p})
        return es[0] if len(es) == 1 else self.term('hist', tuple(es))

    def reads(self, e):
        t = self.back[e]
        return t[0] == 'op' and t[1] == 'load'

    def state(self, ty):
        return self.M.isa(ty, L + 'MemoryStateType')

    def merged(self, xs):
        return self.after(*map(self.past, xs))

    def results(self, o, xs, n):
        M = self.M
        c = o.cls.rsplit('::', 1)[-1]
        if c in ('MemoryStateMergeOperation', 'MemoryStateJoinOperation', 'MemoryStateSplitOperation'):
            return [self.merged(xs)] * n
        ins = [i for i in range(len(xs)) if self.state(self.q(o, 'argument', i))]
        outs = [i for i in range(n) if self.state(self.q(o, 'result', i))]
        if not ins or not outs or c.startswith(('CallE', 'Lambda')):
            return Den.results(self, o, xs, n)
        past = {e for i in ins for e in self.past(xs[i])}
        load = M.isa(o, L + 'LoadOperation')
        if load:
            past = {e for e in past if not self.reads(e)}
        rest = tuple(xs[i] for i in range(len(xs)) if i not in ins)
        name = 'load' if load else c
        key = (len(rest),)
        vals = [self.term('op', name, i, (self.after(past),) + rest, key) for i in range(n)]
        event = self.term('op', name, 0, (self.after(past),) + rest, key)
        for k, i in enumerate(outs):
            # the state that leaves an access comes after what the state that enters it came after
            own = self.past(xs[ins[k]]) if len(ins) == len(outs) else past
            vals[i] = self.after(own, (event,))
        return vals


def separation(P, rep):
    rep.rule('separate', 'LoadChainSeparation: with memory states read as histories, ' + SAME)
    rep.rule('separate (changed)', 'the graphs the pass changes')
    fams = {'one state': (350, dict(mem=True, nodes=6)), 'states': (350, dict(calls=True, mem=True, encode=True, nodes=5)),
            'loops': (250, dict(mem=True, gammas=False, depth=3)), 'calls': (200, dict(calls=True, mem=True))}
    members = [(k, i) for k, (n, c) in fams.items() for i in range(n * factor())]
    cls = L + 'LoadChainSeparation'

    def one(M, m):
        return compare(M, lambda: MemGen(M, m[1], **fams[m[0]][1]).module(), lambda s: run_pass(M, s, cls),
                       den=lambda M: History(M, instances=False))
    judge(rep, P, 'separate', sweep(P, members, one), anchor(P, cls), 'LoadChainSeparation')
    rep.floor('separate (changed)', 300)


CHECKS = {'C22': separation}
