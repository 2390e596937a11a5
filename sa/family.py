"""Families of abstract graphs: every structural node, wired in many ways.

A member of a family is identified by a number; the same number always gives
the same graph.
"""
import random

from .shapes import Shape, R, L
from .machine import Vec, Cell


class Gen:
    def __init__(self, M, seed, **cfg):
        self.M, self.rng = M, random.Random(seed)
        self.s = Shape(M, True)
        self.c = dict(depth=2, nodes=4, gammas=True, thetas=True, states=True, match=False, io=True, correlate=False, allocas=False, consts=True, tight=0, sink=False, calls=False, mem=False, encode=False, chains=0, llvm=False, split=False, counts=False, negative=False)
        self.c.update(cfg)
        self.T = {'b': self.s.bit(32), 's': self.s.ty(L + 'MemoryStateType') if self.c['states'] else None,
                  'i': self.s.ty(L + 'IOStateType') if self.c['io'] else None, 'p': self.s.ty(L + 'PointerType')}
        self.text = []

    # ---- choices
    def r(self, n):
        return self.rng.randrange(n)

    def p(self, x):
        return self.rng.random() < x

    def any(self, pool, t):
        xs = pool[t]
        return xs[self.r(len(xs))]

    # ---- nodes
    def simple(self, region, pool):
        k = self.r(10)
        T, s = self.T, self.s
        if pool.get('F') and pool['s'] and pool['i'] and self.p(.35):
            return self.call(pool)
        if self.c['mem'] and pool['p'] and pool['s'] and self.p(.4):
            return self.access(pool)
        if k < 3:
            pool['b'].append(s.op('fg'[self.r(2)], [self.any(pool, 'b')], [T['b']])[0])
        elif k < 5:
            pool['b'].append(s.op('h', [self.any(pool, 'b'), self.any(pool, 'b')], [T['b']])[0])
        elif k < 6 and self.c['consts']:
            pool['b'].append(s.op('cd'[self.r(2)], [], [T['b']], region)[0])
        elif k < 7:
            if self.c['allocas']:
                if self.p(.6) or not pool['p']:
                    pool['p'].append(self.alloca(self.any(pool, 'b')))
                else:
                    pool['p'].append(s.op('pp', [self.any(pool, 'p'), self.any(pool, 'p')], [T['p']])[0])
            else:
                pool['b'] += s.op('two', [self.any(pool, 'b')], [T['b'], T['b']])
        elif k == 7 and T['i'] is not None and pool['i'] and pool['s']:
            b, st, io = s.op('call', [self.any(pool, 'b'), pool['s'][0], pool['i'][0]], [T['b'], T['s'], T['i']], cls='opaque::Effect')
            pool['b'].append(b)
            pool['s'][0] = st
            pool['i'][0] = io
        elif T['s'] is not None and pool['s']:
            i = self.r(len(pool['s']))
            if self.p(.5):
                b, st = s.op('ld', [self.any(pool, 'b'), pool['s'][i]], [T['b'], T['s']], cls='opaque::Effect')
                pool['b'].append(b)
                pool['s'][i] = st
            else:
                pool['s'][i] = s.op('st', [self.any(pool, 'b'), self.any(pool, 'b'), pool['s'][i]], [T['s']], cls='opaque::Effect')[0]
        else:
            pool['b'].append(s.op('f', [self.any(pool, 'b')], [T['b']])[0])

    def call(self, pool):
        M, s = self.M, self.s
        f, n = pool['F'][self.r(len(pool['F']))], self.nres
        ins, outs = self.signature(n)
        ptr = [self.any(pool, 'p') if pool['p'] else self.alloca(self.any(pool, 'b'))] if self.c['mem'] else []
        state = pool['s'][:1]
        if self.c['encode']:
            C = [k for k, x in enumerate(pool['id']) if self.p(.8) or x == 0] or [0]
            C.sort(key=lambda _: self.r(10))
            ids = s.vec([pool['id'][k] for k in C], 'unsigned long')
            state = s.outs(M.run(L + 'CallEntryMemoryStateMergeOperation::CreateNode', M.do(pool['s'][0], 'region'),
                                 s.vec([pool['s'][k] for k in C], 'jlm::rvsdg::Output *'), ids))
        args = [f, s.fun(ins, outs), s.vec([self.any(pool, 'b'), self.any(pool, 'b')] + ptr + pool['i'][:1] + state, 'jlm::rvsdg::Output *')]
        xs = s.outs(M.run(L + 'CallOperation::CreateNode', *args, n=3, sig='std::shared_ptr<const jlm::rvsdg::FunctionType>'))
        pool['b'] += xs[:n]
        rest = xs[n:]
        for t in 'is':
            if self.T[t] is not None:
                x = rest.pop(0)
                if t == 's' and self.c['encode']:
                    for k, y in zip(C, s.outs(M.run(L + 'CallExitMemoryStateSplitOperation::CreateNode', x, ids))):
                        pool[t][k] = y
                else:
                    pool[t][0] = x

    def guarded(self, pool, fs):
        """calls in one branch"""
        es = [('b', self.any(pool, 'b')), ('b', self.any(pool, 'b'))] + [('F', f) for f in fs] + \
            [(t, x) for t in 'psi' for x in (pool[t] if t == 's' else pool[t][:1])]
        ts = ['b'] * 2 + [t for t, _ in es if t in 'si']
        k = self.r(2)

        def body(i, rg, args):
            p = self.pool_of(es, args, pool)
            if i == k and p['F']:
                self.call(p)
                return self.pick({**p, 'b': p['b'][-2:]}, ts)
            return self.pick(p, ts)
        outs, g = self.s.gamma(self.predicate(pool, 2), 2, [e for _, e in es], body)
        self.absorb(pool, es, ts, outs)

    def access(self, pool):
        """a real load or store"""
        M, s, T = self.M, self.s, self.T
        a, i = self.any(pool, 'p'), self.r(len(pool['s']))
        if self.p(.6):
            ks = [i]
            if len(pool['s']) > 1 and self.p(.6):
                ks = sorted(range(len(pool['s'])), key=lambda _: self.r(10))[:2 + self.r(2)]
            op = M.new(L + 'LoadNonVolatileOperation', T['b'], len(ks), 4)
            x, *ys = s.node(op, [a] + [pool['s'][k] for k in ks])
            for k, y in zip(ks, ys):
                pool['s'][k] = y
            if self.p(.5):
                pool['b'].append(x)
        else:
            op = M.new(L + 'StoreNonVolatileOperation', T['b'], 1, 4)
            pool['s'][i] = s.node(op, [a, self.any(pool, 'b'), pool['s'][i]])[0]

    def alloca(self, count):
        M, s = self.M, self.s
        n = M.run(L + 'AllocaOperation::createNode', self.T['b'], count, 4)
        return M.do(n, 'output', 0)

    def predicate(self, pool, n):
        x = self.any(pool, 'b')
        if self.c['match']:
            if n == 2 and self.p(.2):
                d, v = self.r(2), self.r(2)
                return make_match(self.s, self.s.op('bit', [x], [self.s.bit(1)])[0], {v: 1 - d}, d, 2)
            return match(self.s, x, self.rng, n)
        return self.s.op('p%d' % n if self.p(.8) else 'q%d' % n, [x], [self.s.ctl(n)])[0]

    def entries(self, pool):
        """what goes into a structural node; every state once"""
        es = [('b', self.any(pool, 'b')) for _ in range(1 + self.r(3))]
        if pool.get('F') and self.p(.6):
            es += [('F', self.any(pool, 'F'))]
        if pool['p'] and self.p(.7):
            es += [('p', self.any(pool, 'p')) for _ in range(1 + self.r(2))]
        for t in 'si':
            if pool[t] and self.p(.7):
                es += [(t, x) for x in pool[t]]
        self.rng.shuffle(es)
        return es

    def pool_of(self, es, args, outer={}):
        p = {'b': [], 's': [], 'i': [], 'p': [], 'c': [], 'F': [], 'id': outer.get('id', [])}
        for (t, _), a in zip(es, args):
            p[t].append(a)
        return p

    def result_types(self, es):
        ts = ['b'] * (1 + self.r(3)) + [t for t, _ in es if t in 'sip']
        self.rng.shuffle(ts)
        return ts

    def pick(self, pool, ts):
        """a result for each type; the states in order"""
        st = {'s': list(pool['s']), 'i': list(pool['i'])}
        return [st[t].pop(0) if t in st else self.any(pool, t) for t in ts]

    def absorb(self, pool, es, ts, outs):
        for t in 'si':
            if any(x == t for x, _ in es):
                pool[t][:] = [o for x, o in zip(ts, outs) if x == t]
        for t in 'bp':
            pool[t] += [o for x, o in zip(ts, outs) if x == t]

    def private(self, region, pool, depth):
        """values for a single use"""
        s, T, k = self.s, self.T, self.r(8)
        x, y = self.any(pool, 'b'), self.any(pool, 'b')
        if k < 2:
            x = s.op('f', [x], [T['b']])[0]
        if k == 0:
            return [('b', s.op('h', [x, y], [T['b']])[0])]
        if k < 4:
            return [('b', o) for o in s.op('two', [x], [T['b'], T['b']])]
        if k == 4:
            return [('b', s.op('c', [], [T['b']], region)[0])]
        if k == 5 and depth > 0:
            return [('b', s.gamma(self.predicate(pool, 2), 2, [x, y], lambda i, rg, a: [a[i] if self.p(.5) else s.op('g', [a[i]], [T['b']])[0]])[0][0])]
        if k == 6 and depth > 0:
            return [('b', s.theta([x, y], lambda rg, a: (self.predicate({'b': list(a)}, 2), [s.op('g', [a[0]], [T['b']])[0], a[1]]), region)[0][0])]
        return [('b', s.op('g', [x], [T['b']])[0])]

    def gamma(self, region, pool, depth):
        n = 2 if self.p(.8) else 3
        es = self.entries(pool)
        for _ in range(self.r(3) if self.c['sink'] else 0):
            es += self.private(region, pool, depth)
        ts = self.result_types(es)

        def body(i, rg, args):
            p = self.pool_of(es, args, pool)
            if self.p(.7):
                self.fill(rg, p, depth - 1)
            return self.pick(p, ts)
        outs, g = self.s.gamma(self.predicate(pool, n), n, [e for _, e in es], body)
        self.absorb(pool, es, ts, outs)

    def tight(self, pool, es, args):
        """one operation on a state, again and again"""
        s, T = self.s, self.T
        b = [a for (t, _), a in zip(es, args) if t == 'b']
        st = [a for (t, _), a in zip(es, args) if t == 's']
        new = list(args)
        ptr = any(t == 'p' for t, _ in es)
        if st and self.p(.4 if ptr else .9):
            k = [i for i, (t, _) in enumerate(es) if t == 's'][0]
            if self.p(.5):
                x, new[k] = s.op('ld', [b[0], st[0]], [T['b'], T['s']], cls='opaque::Effect')
                if len(b) > 1:
                    new[[i for i, (t, _) in enumerate(es) if t == 'b'][1]] = x
            else:
                new[k] = s.op('st', [b[0], b[-1], st[0]], [T['s']], cls='opaque::Effect')[0]
        elif self.c['allocas']:
            ks = [i for i, (t, _) in enumerate(es) if t == 'p']
            a = self.alloca(b[0])
            if ks:
                new[ks[0]] = s.op('pp', [args[ks[0]], a], [T['p']])[0]
        return new

    def chain(self, region, pool):
        """loop variables that start alike and part one iteration after another"""
        s, T = self.s, self.T
        x = self.any(pool, 'b')
        n = 3 + self.r(2)
        es = [x if self.p(.9) else self.any(pool, 'b') for _ in range(n)]

        def body(rg, args):
            res = []
            for i in range(n):
                y = args[(i + 1) % n] if self.p(.8) else args[self.r(n)]
                res.append(y if i + 1 < n and self.p(.2) else s.op('g' if i + 1 == n and self.p(.7) else 'f', [y], [T['b']])[0])
            k = self.r(4)
            if k == 0:
                res[-1] = args[-1]
            if k == 1:
                res[-1] = s.op('c', [], [T['b']], rg)[0]
            return self.predicate({'b': list(args)}, 2), res
        outs, _ = s.theta(es, body, region)
        ys = outs[:]
        self.rng.shuffle(ys)
        pool['b'] += [s.op('h', ys[:2], [T['b']])[0]] + outs

    def theta(self, region, pool, depth):
        if self.p(self.c['chains']):
            return self.chain(region, pool)
        es = self.entries(pool)
        ts = [t for t, _ in es]
        if depth > 1 and self.p(.75 * self.c['tight']):
            es = [('b', self.any(pool, 'b')) for _ in range(2 + self.r(2))] + [(t, x) for t in 'si' for x in pool[t]]
            ts = [t for t, _ in es]

            def chain(rg, args):
                p = self.pool_of(es, args, pool)
                for _ in range(2):
                    self.theta(rg, p, 0)
                st = {'s': list(p['s']), 'i': list(p['i'])}
                return self.predicate(p, 2), [st[t].pop(0) if t in st else a if self.p(.5) else p[t][-1] for t, a in zip(ts, args)]
            outs, t = self.s.theta([e for _, e in es], chain, region)
            self.absorb(pool, es, ts, outs)
            return
        if self.c['tight'] and (self.p(self.c['tight']) or depth == 0):
            def small(rg, args):
                res = self.tight(pool, es, args)
                return self.predicate({'b': [a for (t, _), a in zip(es, args) if t == 'b']}, 2), res
            outs, t = self.s.theta([e for _, e in es], small, region)
            self.absorb(pool, es, ts, outs)
            return

        hidden = [i for i, t in enumerate(ts) if t == 'b' and self.p(.4)] if self.c['correlate'] and ts.count('b') > 1 else []

        def body(rg, args):
            p = self.pool_of(es, args, pool)
            if len(hidden) < len(p['b']):
                p['b'] = [x for x in p['b'] if x not in [args[i] for i in hidden]]
            if self.p(.9):
                self.fill(rg, p, depth - 1)
            pred = self.correlated(rg, p, depth) if self.c['correlate'] and self.p(.7) else None
            st = {'s': list(p['s']), 'i': list(p['i'])}
            res = []
            for t, a in zip(ts, args):
                if t in st:
                    res.append(st[t].pop(0))
                elif pred and self.pure:
                    res.append(a if self.p(.1 if a in [args[i] for i in hidden] else .3) or not self.last[t] else self.last[t][self.r(len(self.last[t]))])
                else:
                    res.append(a if self.p(.4) else self.any(p, t))
            return pred or self.predicate(p, 2), res
        outs, t = self.s.theta([e for _, e in es], body, region)
        self.absorb(pool, es, ts, outs)

    def correlated(self, region, pool, depth):
        """a branch in a loop whose outcome says whether the loop is left"""
        s = self.s
        k = 2 if self.c['negative'] and self.p(.7) else self.r(4)
        self.pure = self.p(.7)
        x = self.any(pool, 'b')
        pred = match(s, x, self.rng, 2) if self.p(.8) else s.op('p2', [x], [s.ctl()])[0]
        if self.p(.15):
            pool['b'] += s.gamma(pred, 2, [self.any(pool, 'b'), x], lambda i, rg, a: [a[i], s.op('fg'[i], [a[0]], [self.T['b']])[0]])[0]
        es = [(t, x) for t in 'sib' for x in (pool[t] if t in 'si' else [])]
        es += [('b', self.any(pool, 'b')) for _ in range(1 + self.r(2))]
        if self.p(.2):
            s.op('f', [x], [self.T['b']])
        cond = pred
        if self.p(.15):
            es.append(('c', pred))
            if self.p(.5):
                pred = s.op('p2', [self.any(pool, 'b')], [s.ctl()])[0]
        ts = ['b'] * (1 + self.r(2)) + [t for t, _ in es if t in 'si']
        low = [-1, -2147483648][self.r(2)] if self.c['negative'] and k == 2 else None
        vals = [self.r(3), self.r(3)] if self.p(.3) else [1, 0] if self.p(.25) else [0, 1]

        def body(i, rg, args):
            p = self.pool_of(es, args, pool)
            if self.p(.6):
                self.fill(rg, p, depth - 2)
            rs = self.pick(p, ts)
            if k == 1:
                rs.append(self.M.run(R + 'ControlConstantOperation::create', rg, 2, vals[i] % 2, n=3))
            elif k == 2:
                rs.append(self.number(rg, low if low and vals[i] == 1 else vals[i]))
            return rs
        outs, g = s.gamma(pred, 2, [e for _, e in es], body)
        self.last = {'b': [o for t, o in zip(ts, outs) if t == 'b'], 'p': []}
        self.absorb(pool, es, ts, outs[:len(ts)])
        if self.p(.12):
            x, y = [self.any(pool, 'b') for _ in range(2)]
            pool['b'] += s.gamma(cond, 2, [x, y], lambda i, rg, a: [a[i], s.op('fg'[i], [a[0]], [self.T['b']])[0]])[0]
        if k == 1:
            return outs[-1]
        if k == 2:
            return match(s, outs[-1], self.rng, 2, {1: low & 0xffffffff} if low else {})
        if k == 3 and self.p(.5):
            return None
        return cond

    def number(self, region, v, w=32):
        M = self.M
        n = M.run(L + 'IntegerConstantOperation::Create', region, w, v, n=3)
        return M.do(n, 'output', 0)

    def fill(self, region, pool, depth):
        for _ in range(1 + self.r(self.c['nodes'])):
            k = self.r(10)
            if depth > 0 and k < 2 and self.c['gammas'] and pool['b']:
                self.gamma(region, pool, depth)
            elif depth > 0 and k < 4 and self.c['thetas'] and pool['b']:
                self.theta(region, pool, depth)
            elif pool['b']:
                self.simple(region, pool)
            else:
                pool['b'].append(self.s.op('c', [], [self.T['b']], region)[0])
        if not pool['b']:
            pool['b'].append(self.s.op('c', [], [self.T['b']], region)[0])

    # ---- a module
    def signature(self, nres):
        T = self.T
        st = [T[t] for t in 'is' if T[t] is not None]
        ptr = [T['p']] if self.c['allocas'] else []
        return [T['b'], T['b']] + ([T['p']] if self.c['mem'] else []) + st, [T['b']] * nres + ptr + st

    def start(self, args, extra=()):
        extra = [self.s.op('ad', [x], [self.T['b']])[0] if self.c['llvm'] else x for x in extra]
        p = {'b': args[:2] + extra, 's': [], 'i': [], 'p': [], 'id': []}
        rest = list(args[2:])
        store = None
        if self.c['mem']:
            p['p'].append(rest.pop(0))
            if self.p(.8 if self.c['counts'] else .4):
                count = self.number(self.s.M.do(args[0], 'region'), 1 + self.r(3) if self.c['counts'] else 1) if self.p(.75) else self.s.op('g', [args[0]], [self.T['b']])[0]
                p['p'].append(self.alloca(count))
                store = self.s.M.do(self.s.M.do(p['p'][-1], 'node'), 'output', 1)
                if self.c['counts'] and self.p(.6):
                    p['b'].append(self.s.op('pk', [p['p'][-1]], [self.T['b']])[0])
                    p['pk'] = p['b'][-1:]
        for t in 'is':
            if self.T[t] is not None:
                p[t] = [rest.pop(0)]
        if self.c['split']:
            p['s'] = self.s.op('sp', p['s'], [self.T['s']] * (2 + self.r(2)))
        if self.c['encode']:
            p['id'] = [[0], [0, 1], [0, 2], [0, 1, 2], [1, 2], [2, 0]][self.r(6)]
            p['s'] = self.s.outs(self.s.M.run(L + 'LambdaEntryMemoryStateSplitOperation::CreateNode', p['s'][0], self.s.vec(p['id'], 'unsigned long')))
            for i in range(len(p['id'])):
                if p['id'][i] == 0 or self.p(.3):
                    p['s'][i] = self.s.op('st', [p['b'][0], p['b'][1], p['s'][i]], [self.T['s']], cls='opaque::Effect')[0]
        if self.c['allocas'] and self.p(.6):
            p['p'].append(self.alloca(p['b'][0]))
        if store is not None and p['s'] and self.p(.7):
            p['s'][-1] = self.s.op('join', [p['s'][-1], store], [self.T['s']])[0]
        return p

    def end(self, rg, p, nres, last=False):
        ptr = []
        if self.c['allocas']:
            x = p['p'][-1] if p['p'] else self.alloca(self.any(p, 'b'))
            for _ in range(3):
                x = self.s.op('pp', [x, self.any(p, 'p') if p['p'] else x], [self.T['p']])[0]
            ptr = [x]
        state = p['s'][:1]
        if self.c['split']:
            state = self.s.op('jn', [x for k, x in enumerate(p['s']) if k == 0 or self.p(.5)], [self.T['s']])
        if self.c['encode']:
            ks = sorted(range(len(p['s'])), key=lambda _: self.r(10))
            state = self.s.outs(self.s.M.run(L + 'LambdaExitMemoryStateMergeOperation::CreateNode', rg, self.s.vec([p['s'][k] for k in ks], 'jlm::rvsdg::Output *'),
                                             self.s.vec([p['id'][k] for k in ks], 'unsigned long')))
        return [self.any(p, 'pk') if p.get('pk') and self.p(.5) else p['b'][-1] if last and self.p(.7) else self.any(p, 'b') for _ in range(nres)] + ptr + p['i'][:1] + state

    def function(self, name, ctx=(), region=None, callees=(), small=False):
        nres = self.nres if self.c['calls'] else 1 + self.r(3)
        ins, outs = self.signature(nres)
        n = len(ctx)
        ctx = list(ctx) + list(callees)

        def body(rg, args, cv):
            p = self.start(args, cv[:n])
            p['F'] = cv[n:]
            if not (small and self.p(.2)):
                self.fill(rg, p, self.c['depth'] - (1 if small else 0))
            if callees and p['s'] and p['i'] and self.p(.5):
                self.call(p)
            return self.end(rg, p, nres)
        return self.s.lam(name, ins, outs, list(ctx), body, region)[0]

    def imported(self, name):
        M, s = self.M, self.s
        if not self.c['llvm']:
            return s.imp(self.T['b'], name)
        return M.run(L + 'LlvmGraphImport::create', s.g, self.T['b'], self.T['p'], name, s.enum(L + 'Linkage', 'externalLinkage'),
                     s.enum(L + 'CallingConvention', 'C'), 0, 4)

    def variable(self, name, ctx):
        s, T = self.s, self.T

        def body(rg, cv):
            x = s.op('c', [], [T['b']], rg)[0]
            for c in cv:
                x = s.op('h', [x, s.op('ad', [c], [T['b']])[0]], [T['b']])[0]
            return x if self.p(.5) else s.op('g', [x], [T['b']])[0]
        d = s.delta(name, T['b'], ctx, body)[0]
        s.exp(d, name)
        return d

    def module(self):
        s = self.s
        imp = self.imported('g')
        unused = self.imported('u') if self.p(.3) else None
        if self.c['llvm'] and self.p(.4):
            imp = self.variable('d', [imp] if self.p(.6) else [])
        k = self.r(6)
        if self.c['calls']:
            self.nres = 1 + self.r(2)
            fs = [self.function('f', [imp] if self.p(.4) else [], small=True)]
            if self.p(.6):
                fs.append(self.function('k', [imp] if self.p(.4) else [], callees=fs if self.p(.6) else [], small=True))
            if self.p(.3):
                fs += self.phi_functions(1 + self.r(2), [imp] if self.p(.4) else [], fs[:1] if self.p(.5) else [])
            cs = fs[:]
            self.rng.shuffle(cs)
            s.exp(self.function('main', [imp] if self.p(.5) else [], callees=cs[:1 + self.r(2)]), 'main')
            if self.p(.3):
                s.exp(fs[0], 'other')
            return s
        if k < 4:
            f = self.function('f', [imp] if self.p(.4) else [])
            s.exp(f, 'f')
        elif k == 4:
            f = self.function('f', [imp])
            g = self.function('k', [imp] if self.p(.5) else [])
            s.exp(g, 'k')
            if self.p(.5):
                s.exp(f, 'f')
        else:
            n = 1 + self.r(2)
            fs = self.phi_functions(n, [imp] if self.p(.5) else [])
            for i, f in enumerate(fs):
                if i == 0 or self.p(.5):
                    s.exp(f, 'f%d' % i)
        return s

    def phi_functions(self, n, ctx, callees=()):
        T, s = self.T, self.s
        nres = self.nres if self.c['calls'] else 1
        ins, outs = self.signature(nres)
        ctx = list(ctx) + list(callees)
        ft = s.fun(ins, outs)

        def phibody(rg, recs, cx):
            res = []
            for i in range(n):
                use = [r for r in recs if self.p(.7)]
                ncx = list(cx) if self.p(.6) else []
                nc = len(callees) if ncx else 0

                def body(rg2, args, cv):
                    p = self.start(args, cv[len(use):len(cv) - nc])
                    p['F'] = cv[len(cv) - nc:] if nc else []
                    self.fill(rg2, p, self.c['depth'] - 1)
                    if self.c['calls']:
                        self.guarded(p, cv[:len(use)])
                    for u in cv[:len(use)] if not self.c['calls'] else ():
                        if self.p(.8):
                            p['b'].append(s.op('rec', [u, self.any(p, 'b')], [T['b']])[0])
                    return self.end(rg2, p, nres, True)
                res.append(s.lam('f%d' % i, ins, outs, use + ncx, body, rg)[0])
            return res
        return s.phi([ft] * n, ctx, phibody)[0]


def match(s, x, rng, n, instead={}):
    """a real match operation on a value"""
    M = s.M
    ms = {}
    vs = [0, 1, 2]
    rng.shuffle(vs)
    d = rng.randrange(n)
    for i in range(n):
        if i != d:
            ms[vs[i]] = i
    if n == 2 and (rng.random() < .3 or instead and rng.random() < .7):
        ms[vs[2]] = rng.randrange(n)
    return make_match(s, x, {instead.get(v, v): i for v, i in ms.items()}, d, n)


def make_match(s, x, ms, d, n):
    M = s.M
    el = 'std::pair<const unsigned long, unsigned long>'
    from .machine import Map, Tup
    m = Map('std::unordered_map<unsigned long, unsigned long>')
    for k, v in ms.items():
        M.insert(m, Tup([Cell(k), Cell(v)], el))
    bits = M.do(s.type_of(x), 'nbits')
    op = M.new(R + 'MatchOperation', bits, m, d, n)
    return s.node(op, [x])[0]
