"""C10: node normalizations preserve what a node computes.

Every normalization of load, store and memory-state nodes is interpreted on symbolic graphs: every operand comes from one of
a set of producers (region arguments, allocas, stores, loads, merges, splits), in every order. What a result stands for is
derived from the graph alone: the accesses it is ordered after, and for a loaded value the accesses it may observe."""
import itertools

from sa.engine import subterms
from sa.facts import AnalysisBroken
from sa.machine import Failed, Opt, Thrown
from sa.report import *
from sa.shapes import Shape
from checks.backend import NS, RV, k, vec
from checks.frontend import show
from checks.graph import node, op, out
from checks.passes import sweep

LNV, SNV = NS + 'LoadNonVolatileOperation', NS + 'StoreNonVolatileOperation'
SV, LV = NS + 'StoreVolatileOperation', NS + 'LoadVolatileOperation'
MERGE, SPLIT, JOIN = (NS + 'MemoryState%sOperation' % x for x in ('Merge', 'Split', 'Join'))
LEXIT = NS + 'LambdaExitMemoryStateMergeOperation'
ALLOCA, BARRIER = NS + 'AllocaOperation', NS + 'IOBarrierOperation'

I8, I24, I32, F32, I64 = (('atom', x) for x in ('i8', 'i24', 'i32', 'f32', 'i64'))
SIZES = {I8: 1, I24: 3, I32: 4, F32: 4, I64: 8}
BT, CNT = ('atom', 'bt'), ('atom', 'cnt')
P0, Q0 = ('atom', 'p'), ('atom', 'q')
M0, M1, M2 = (('atom', 'm%d' % i) for i in range(3))
IO = ('atom', 'io')
V, W, W8, W24, WF, WL = (('atom', x) for x in ('v', 'w', 'w8', 'w24', 'wf', 'wl'))
TYPES = {V: I32, W: I32, W8: I8, W24: I24, WF: F32, WL: I64}
PT, MT, IT = (('ctor', NS + x, ()) for x in ('PointerType', 'MemoryStateType', 'IOStateType'))
ATOMS = {P0: PT, Q0: PT, M0: MT, M1: MT, M2: MT, IO: IT, **TYPES}


def alloca(tag, t=I32):
    return node(op(ALLOCA, t, BT, k(4)), CNT, tag=tag)


A, B, X8 = alloca('A'), alloca('B'), alloca('X8', I8)


def store(addr, val, states, align=4, tag='st'):
    return node(op(SNV, TYPES[val], k(len(states)), k(align)), addr, val, *states, tag=tag)


def load(addr, t, states, align=4, tag='ld'):
    return node(op(LNV, t, k(len(states)), k(align)), addr, *states, tag=tag)


def merge(*states):
    return node(op(MERGE, k(len(states))), *states)


def join(*states):
    return node(op(JOIN, k(len(states))), *states)


def split(s, n):
    return node(op(SPLIT, k(n)), s)


def isop(n, *cls):
    return n[0] == 'gnode' and n[1][1] in cls


def of(x, *cls):
    """the node of one of these classes that produces x"""
    return x[1] if x[0] == 'out' and isop(x[1], *cls) else None


def alloca_of(addr, c=None):
    addr = traced(c, addr)
    n = of(addr, ALLOCA)
    return n if n is not None and addr[2] == 0 else None


def traced(c, x):
    return c.extra.get('trace', {}).get(x, x) if c is not None else x


def first_state(n):
    return {LNV: 1, LV: 2, SNV: 2, SV: 3}[n[1][1]]


def state_input(x):
    """the state a state output of a load or store is derived from"""
    n = x[1]
    d = {LNV: 1, LV: 2, SNV: 0, SV: 1}[n[1][1]]
    return n[2][first_state(n) + x[2] - d]


class Bad(Exception):
    pass


def history(x, relevant=None):
    """the writes and origins a state is ordered after; relevant: an alloca, whose accesses alone matter"""
    n = of(x, ALLOCA)
    if n is not None:
        return frozenset() if relevant is not None and n != relevant else frozenset([('alloca', n)])
    n = of(x, SNV, SV)
    if n is not None:
        a = alloca_of(n[2][0])
        rest = history(state_input(x), relevant)
        return rest if relevant is not None and a is not None and a != relevant else rest | {n}
    n = of(x, LNV, LV)
    if n is not None:
        return history(state_input(x), relevant)
    n = of(x, MERGE, JOIN, SPLIT)
    if n is not None:
        return frozenset().union(*[history(y, relevant) for y in n[2]])
    if x[0] == 'atom':
        return frozenset([x])
    raise Bad('%s is no memory state' % nm(x))


def histories(xs, relevant=None):
    return frozenset().union(*[history(x, relevant) for x in xs])


def nm(x):
    """a readable name"""
    if x[0] == 'atom':
        return x[1]
    if x[0] == 'out':
        return '%s.%d' % (nm(x[1]), x[2])
    if x[0] == 'gnode':
        c = x[1][1].rsplit('::', 1)[-1].replace('Operation', '').replace('NonVolatile', '').replace('MemoryState', '')
        if c == 'Alloca':
            return x[3]
        return '%s%s(%s)' % ('new ' if x[3] == 'new' else '', c, ', '.join(map(nm, x[2])))
    return show(x)


def names(xs):
    return '[' + ', '.join(map(nm, xs)) + ']'


class Case:
    """one normalization applied to one node"""

    def __init__(self, o, operands, extra=(), more=()):
        self.o, self.operands, self.extra = o, tuple(operands), dict(extra)
        self.more = tuple(more)
        self.users = users(self.operands)
        t = self.extra.get('trace', {}).get(Q0)
        for x in self.more + ((t,) if t else ()):
            self.users[x] = self.users.get(x, 0) + 1
        self.key = (o, self.operands, self.more, str(t))

    def variants(self, asked):
        """the same graph with a further user of an output whose users are counted"""
        if not self.more:
            for x in sorted(asked, key=str):
                yield Case(self.o, self.operands, self.extra, [x])


TYPE = {}


class Concrete:
    """a case as a graph of the interpreter; the graphs after a normalization as terms again"""

    def __init__(self, M, c):
        self.s, self.c, self.M = Shape(M), c, M
        self.objs, self.terms, self.nodes, self.inputs = {}, {}, {}, []
        for x in c.operands + c.more:
            self.out(x)
        self.op = self.make(c.o, [self.out(x) for x in c.operands])
        self.n = M.run(RV + 'SimpleNode::Create', self.s.root, self.op,
                       self.s.vec([self.out(x) for x in c.operands], 'jlm::rvsdg::Output *'), n=3)
        self.watch(self.n)
        for x in c.more:
            self.s.op('use', [self.out(x)], [])
        self.before = [self.term(M.do(i, 'origin')) for i in self.inputs]

    def watch(self, n):
        self.inputs += [self.M.do(n, 'input', i) for i in range(self.M.do(n, 'ninputs'))]

    def type(self, t):
        s = self.s
        if t in (I8, I24, I32, I64):
            return s.bit(8 * SIZES[t])
        if t == F32:
            return self.M.run(NS + 'FloatingPointType::Create', s.enum(NS + 'fpsize', 'flt'))
        return s.bit(32) if t in (BT,) else s.ty(t[1])

    def out(self, x):
        """the output a term stands for"""
        r = self.objs.get(x)
        if r is None:
            M, s = self.M, self.s
            t = self.c.extra.get('trace', {}).get(x)
            if t is not None:
                r = s.theta([self.out(t)], lambda sub, a: (None, a))[0][0]
            elif x[0] == 'out':
                r = self.node(x[1])[x[2]]
            elif x in self.c.extra.get('imports', {}):
                r = M.run(NS + 'LlvmGraphImport::create', s.g, s.bit(32), s.ty(NS + 'PointerType'), x[1],
                          s.enum(NS + 'Linkage', self.c.extra['imports'][x]), 0, 0, 4, n=8)
            else:
                ty = ATOMS.get(x)
                r = s.imp(s.bit(32) if x == CNT else self.type(ty), x[1])
            r = getattr(r, 'v', r)
            self.objs[x] = r
            self.terms[id(r)] = x
        return r

    def node(self, n):
        outs = self.nodes.get(n)
        if outs is None:
            M, s = self.M, self.s
            ins = [self.out(x) for x in n[2]]
            cls, args = n[1][1:3]
            if cls == ALLOCA:
                x = M.run(ALLOCA + '::createNode', self.type(args[0]), ins[0], args[2][1])
            elif cls == NS + 'GetElementPtrOperation':
                i = M.do(M.run(NS + 'IntegerConstantOperation::Create', s.root, 64, args[0][1], n=3), 'output', 0)
                o = M.run(cls + '::create', ins[0], s.vec([getattr(i, 'v', i)], 'jlm::rvsdg::Output *'), s.bit(8))
                outs = [getattr(o, 'v', o)]
            elif cls == NS + 'LlvmDeltaOperation':
                o, _ = s.delta('D', s.bit(32), [], lambda sub, _: M.do(M.run(NS + 'IntegerConstantOperation::Create', sub, 32, 1, n=3),
                                                                          'output', 0))
                outs = [getattr(o, 'v', o)]
            else:
                x = M.run(RV + 'SimpleNode::Create', s.root, self.make(n[1], ins), s.vec(ins, 'jlm::rvsdg::Output *'), n=3)
            if outs is None:
                self.watch(x)
                outs = s.outs(x)
            self.nodes[n] = outs
            for i, o in enumerate(outs):
                self.objs[out(n, i)] = o
                self.terms[id(o)] = out(n, i)
        return outs

    def make(self, o, ins):
        cls, args = o[1:3]
        M = self.M
        if cls in (SNV, LNV, SV, LV):
            return M.new(cls, self.type(args[0]), args[1][1], args[2][1])
        if cls in (MERGE, SPLIT, JOIN):
            return M.new(cls, args[0][1])
        if cls == LEXIT:
            return M.new(cls, self.s.vec([x[1] for x in args[0][1]], 'unsigned long'))
        if cls == BARRIER:
            return M.new(cls, self.type(args[0]))
        raise AnalysisBroken('no construction for ' + cls)

    # ---- reading
    def term(self, o):
        o = getattr(o, 'v', o)
        x = self.terms.get(id(o))
        if x is None:
            M = self.M
            if not M.isa(o, RV + 'NodeOutput'):
                raise Bad('an output that is none of a node replaces a result')
            n = M.do(o, 'node')
            ins = tuple(self.term(M.do(M.do(n, 'input', i), 'origin')) for i in range(M.do(n, 'ninputs')))
            x = out(('gnode', self.opterm(M.do(n, 'GetOperation')), ins, 'new'), M.do(o, 'index'))
            self.objs.setdefault(x, o)
            self.terms[id(o)] = x
        return x

    def opterm(self, o):
        M, cls = self.M, o.cls
        if cls in (SNV, LNV, SV, LV):
            t = M.do(o, 'GetStoredType' if cls in (SNV, SV) else 'GetLoadedType')
            return op(cls, self.typeterm(t), k(M.do(o, 'NumMemoryStates')), k(M.do(o, 'GetAlignment')))
        if cls in (MERGE, JOIN):
            return op(cls, k(M.do(o, 'narguments')))
        if cls == SPLIT:
            return op(cls, k(M.do(o, 'nresults')))
        if cls == LEXIT:
            return op(cls, vec(*[k(x) for x in self.ids(o)]))
        return op(cls)

    def ids(self, o):
        v = self.M.do(o, 'getMemoryNodeIds')
        return [x.v for x in v.c]

    def typeterm(self, t):
        t = getattr(t, 'v', t)
        if t.cls == RV + 'BitType':
            n = self.M.do(t, 'nbits')
            return {8 * w: x for x, w in SIZES.items() if x != F32}.get(n, ('atom', 'i%d' % n))
        return F32 if t.cls == NS + 'FloatingPointType' else ('atom', t.cls)

    def apply(self, f):
        M = self.M
        xs = self.s.vec([self.objs[x] for x in self.c.operands], 'jlm::rvsdg::Output *')
        r = M.call(f, [self.op, xs], None)
        r = getattr(r, 'v', r) if not isinstance(r, Opt) else r
        if r is None or isinstance(r, Opt) and r.c is None:
            return None
        v = r.c.v if isinstance(r, Opt) else r
        res = tuple(self.term(x.v) for x in v.c)
        moved = [(x, y) for x, y in zip(self.before, [self.term(M.do(i, 'origin')) for i in self.inputs]) if x != y]
        return res, moved


def nodes_of(xs):
    return dict.fromkeys(y for x in xs for y in subterms(x) if y[0] == 'gnode')


def users(operands):
    """the users of every output in the graph, the node itself included"""
    n = {}
    for x in itertools.chain(operands, *[y[2] for y in nodes_of(operands)]):
        n[x] = n.get(x, 0) + 1
    return {x: n.get(x, 0) for y in nodes_of(operands) for x in (out(y, i) for i in range(4))} | n


def judge_load(c, results):
    addr, states, t, align = c.operands[0], c.operands[1:], c.o[2][0], c.o[2][2]
    if len(results) != len(c.operands):
        raise Bad('%d results replace %d' % (len(results), len(c.operands)))
    r0, n = results[0], of(results[0], LNV)
    X = alloca_of(addr, c)
    loaded = n is not None and n[3] == 'new'
    if loaded:
        if results[0][2] != 0:
            raise Bad('the loaded value is replaced by a state')
        if n[1][2][0] != t or n[1][2][2] != align:
            raise Bad('the new load has type %s and alignment %s' % (show(n[1][2][0]), show(n[1][2][2])))
        if not same_address(c, n[2][0], addr, t):
            raise Bad('the new load accesses %s' % nm(n[2][0]))
        if histories(n[2][1:], X) != histories(states, X):
            raise Bad('the new load observes %s' % names(n[2][1:]))
    else:
        s = {of(x, SNV, SV) for x in states}
        w = next(iter(s)) if len(s) == 1 else None
        if w is None or traced(c, w[2][0]) != traced(c, addr) or w[2][1] != r0 or w[1][2][0] != t:
            raise Bad('the loaded value is replaced by %s' % nm(r0))
    for x, r in zip(states, results[1:]):
        judge_state(x, r, states, (), ordered=loaded and n, skip=lambda y: not loaded or X is not None and not history(y, X))


def judge_state(x, r, states, dropped, ordered, skip):
    """r replaces the state output derived from x; ordered: the new access it comes after"""
    h = history(r) - {ordered}
    if not h >= history(x) - set(dropped):
        raise Bad('the state derived from %s is replaced by %s' % (nm(x), nm(r)))
    if not h <= histories(states):
        raise Bad('the state derived from %s is replaced by %s' % (nm(x), nm(r)))
    if ordered and not any(y == ordered for y in subterms(r)) and not skip(x):
        raise Bad('%s, which replaces the state derived from %s, is not ordered after the access' % (nm(r), nm(x)))


def same_address(c, a, b, t):
    if traced(c, a) == traced(c, b):
        return True
    n = of(b, BARRIER)
    if n is None or traced(c, a) != traced(c, n[2][0]) or a not in c.extra.get('origin', {}):
        return False
    base, off = c.extra['origin'][a]
    size = c.extra['extent'].get(base)
    return size is not None and 0 <= off and off + SIZES[t] <= size


def judge_store(c, results):
    addr, val, states, align = c.operands[0], c.operands[1], c.operands[2:], c.o[2][2]
    if len(results) != len(states):
        raise Bad('%d results replace %d' % (len(results), len(states)))
    new = [y for y in dict.fromkeys(y for r in results for y in subterms(r)) if isop(y, SNV, SV) and y[3] == 'new']
    X = alloca_of(addr)
    if not new:
        if states or results:
            if X is None or c.users.get(addr, 1) != 1:
                raise Bad('the store is removed')
        for x, r in zip(states, results):
            judge_state(x, r, states, (), None, None)
        return
    if len(new) > 1:
        raise Bad('two stores replace one')
    n = new[0]
    if n[1][1] != SNV or n[2][1] != val or n[1][2][0] != c.o[2][0] or n[1][2][2] != align:
        raise Bad('the store is replaced by %s with alignment %s' % (nm(n), show(n[1][2][2])))
    if not same_address(c, n[2][0], addr, c.o[2][0]):
        raise Bad('the new store accesses %s' % nm(n[2][0]))
    dropped = [s for s in dict.fromkeys(of(x, SNV) for x in states) if s is not None and overwritten(c, s, addr, states)]
    own = X is not None and out(X, 1) in states and c.users.get(out(X, 1), 1) == 1
    need = histories([x for x in states if x == out(X, 1)] if own else states) - set(dropped)
    got = histories(n[2][2:])
    if not need <= got | (frozenset(dropped)) or not got <= histories(states):
        raise Bad('the new store is ordered after %s' % names(n[2][2:]))
    for x, r in zip(states, results):
        judge_state(x, r, states, dropped, n, lambda y: own and y != out(X, 1))


def overwritten(c, s, addr, states):
    """an earlier store whose value nothing but this store sees"""
    outs = [out(s, i) for i in range(len(s[2]) - 2)]
    return traced(c, s[2][0]) == traced(c, addr) and SIZES[s[1][2][0]] <= SIZES[c.o[2][0]] and \
        all(x in states and c.users.get(x, 1) == 1 or c.users.get(x, 1) == 0 for x in outs)


# ---- memory state operations
def judge_join(c, results):
    if len(results) != 1:
        raise Bad('%d results replace 1' % len(results))
    if history(results[0]) != histories(c.operands):
        raise Bad('%s is replaced by %s' % (names(c.operands), nm(results[0])))


def judge_split(c, results):
    n, x = c.o[2][0][1], c.operands[0]
    if len(results) != n:
        raise Bad('%d results replace %d' % (len(results), n))
    m = of(x, MERGE)
    if m is not None and results == m[2]:
        return
    for r in results:
        if history(r) != history(x):
            raise Bad('a part of %s is replaced by %s' % (nm(x), nm(r)))


def judge_exit(c, results):
    n = of(results[0], LEXIT) if len(results) == 1 else None
    if n is None or n[3] != 'new' or n[1] != c.o or len(n[2]) != len(c.operands):
        raise Bad('%s is replaced by %s' % (names(c.operands), names(results)))
    for x, r in zip(c.operands, n[2]):
        while x != r:
            y = of(x, LNV, LV, SNV, SV)
            if y is not None and alloca_of(y[2][0]) is not None:
                x = state_input(x)
            elif of(x, ALLOCA) is not None and of(r, NS + 'UndefValueOperation') is not None:
                break
            else:
                raise Bad('%s is replaced by %s' % (names(c.operands), names(n[2])))


# ---- scenarios
def palette():
    stA = store(out(A), V, [out(A, 1)], tag='stA')
    stB = store(out(B), W, [out(B, 1)], tag='stB')
    stBm = store(out(B), W, [M0], tag='stBm')
    stBA = store(out(B), W, [out(stA), out(B, 1)], tag='stBA')
    stp = store(P0, V, [M0, M1], tag='stp')
    stq = store(Q0, V, [M0], tag='stq')
    stp8 = store(P0, W8, [M0], tag='stp8')
    stpf = store(P0, WF, [M0], tag='stpf')
    stp24 = store(P0, W24, [M0], tag='stp24')
    vol = node(op(SV, I32, k(1), k(4)), P0, V, IO, M0, tag='vol')
    ldA = load(out(A), I32, [out(A, 1)], tag='ldA')
    mg = merge(out(A, 1), out(B, 1))
    return dict(A=out(A, 1), B=out(B, 1), m0=M0, stA=out(stA), stB=out(stB), stBm=out(stBm), stBA0=out(stBA, 0), stBA1=out(stBA, 1),
                stp0=out(stp, 0), stp1=out(stp, 1), stq=out(stq), stp8=out(stp8), stpf=out(stpf), stp24=out(stp24), vol=out(vol, 1),
                ldA=out(ldA, 1), mgAB=out(mg), mg01=out(merge(M0, M1)), mg1=out(merge(out(stA), M2)))


TRIPLES = ('A', 'B', 'm0', 'stA', 'stB', 'stBA0', 'stBA1', 'stp0', 'stp1')


def sequences(longest=3):
    p = palette()
    yield ()
    for n in range(1, longest + 1):
        for s in itertools.product(p if n < 3 else TRIPLES, repeat=n):
            yield tuple(p[x] for x in s)


def barriers():
    """addresses behind an I/O barrier: (address, origin of the barred address, extent of the origin)"""
    D = node(op(NS + 'LlvmDeltaOperation', I32, ('atom', 'nm'), ('atom', 'lk'), ('atom', 'sec'), k(False), k(4)), tag='D')
    imports = {('atom', x): x + 'Linkage' for x in ('external', 'externalWeak')}
    imp, weak = imports
    more = dict(imports=imports)
    for base, size in ((out(A), 4), (out(X8), 1), (out(D), 4), (imp, 4), (weak, None), (P0, None)):
        for off in (None, 0, 1, 4, -1, -4, -8):
            barred = base if off is None else out(node(('ctor', NS + 'GetElementPtrOperation', (k(off),)), base, tag='gep'))
            b = out(node(op(BARRIER, PT), barred, IO))
            yield b, barred, base, off or 0, size, more


JUDGES = {LNV: judge_load, SNV: judge_store, MERGE: judge_join, JOIN: judge_join, SPLIT: judge_split, LEXIT: judge_exit}
ADDRESSES = (out(A), out(X8), P0, Q0)


def loads():
    for a in (out(A), P0):
        for s in sequences(2):
            for t in (I32, I8):
                yield Case(op(LNV, t, k(len(s)), k(4)), (a,) + s)
        for s in itertools.product([palette()[x] for x in TRIPLES], repeat=3):
            yield Case(op(LNV, I32, k(3), k(4)), (a,) + s)


def stores():
    for a in (out(A), P0):
        for s in sequences(2):
            for v in (V, W8, W24):
                yield Case(op(SNV, TYPES[v], k(len(s)), k(4)), (a, v) + s)
        for s in itertools.product([palette()[x] for x in TRIPLES], repeat=3):
            yield Case(op(SNV, I32, k(3), k(4)), (a, V) + s)


def barred(o, rest):
    for b, a, base, off, size, extra in barriers():
        yield Case(o, (b,) + rest, dict(extra, origin={a: (base, off)}, extent={} if size is None else {base: size}))


def states(o, longest=3):
    p = dict(palette())
    mg, sp = merge(p['A'], p['m0']), split(M0, 2)
    p.update(mgmg=out(merge(out(mg), M1)), sp0=out(sp, 0), sp1=out(sp, 1), spm=out(split(out(mg), 2), 1),
             jn=out(join(p['A'], M0)), jj=out(join(out(join(p['A'], M0)), M1)))
    for n in range(1, longest + 1):
        for s in itertools.product([x for x in p if n < 3 or x in ('A', 'm0', 'mgAB', 'sp0', 'sp1', 'jn', 'stp0')], repeat=n):
            yield Case(o(n), [p[x] for x in s])


def splits():
    p = palette()
    for n in (1, 2, 3):
        for x in (M0, p['mgAB'], p['mg1'], out(merge(M0, M1, M2)), out(join(M0, M1)), out(split(M0, 2), 0), out(split(M0, 2), 1),
                  out(split(M0, 1)), out(split(p['mgAB'], 3), 2), p['stp1']):
            yield Case(op(SPLIT, k(n)), [x])


def exits_of():
    p = palette()
    for n in (1, 2):
        for s in itertools.product(p.values(), repeat=n):
            yield Case(op(LEXIT, vec(*[k(7 + i) for i in range(n)])), s)


def judge_one(M, fs, judge, c):
    """(normalization, complaint or None, whether it changes the node) for every normalization"""
    asked = set()
    res = []
    for f in fs:
        M.steps = 0
        rs = list(M.runs(lambda: applied(M, f, judge, c, asked)))
        for r in rs:
            res.append((f, 'the normalization fails: %s' % r, True) if isinstance(r, Exception) else (f, *r))
    return res, asked


def applied(M, f, judge, c, asked):
    g = Concrete(M, c)
    M.counted = set()
    try:
        r = g.apply(f)
    except Bad as e:
        return str(e), True
    finally:
        asked |= {g.terms[i] for i in M.counted if i in g.terms}
        M.counted = None
    if r is None:
        return None, False
    res, moved = r
    try:
        judge(c, res)
        n0 = res[0][1] if res and res[0][0] == 'out' else None
        if n0 and n0[3] == 'new' and n0[1:3] == (c.o, c.operands) and all(x == out(n0, i) for i, x in enumerate(res)):
            raise Bad('the node is replaced by one just like it, and normalizing never ends')
        for x, y in moved:
            if history(x) != history(y):
                raise Bad('%s is replaced by %s' % (nm(x), nm(y)))
    except Bad as e:
        return str(e), True
    return None, True


def one(M, m):
    r = decide(M, m)
    M.decisions, M.taken = [], []
    return r


def decide(M, m):
    """all normalizations of one kind on one node, with every further user that is asked for"""
    cls, i = m
    fs, judge, cases = _cases[cls]
    c = cases[i]
    done, todo, fired = set(), [c], {}
    if any(Q0 in x for x in [c.operands] + [y[2] for y in nodes_of(c.operands)]):
        todo += [Case(c.o, c.operands, dict(c.extra, trace={Q0: x})) for x in (P0, out(A))]
    n = 0
    while todo:
        c = todo.pop()
        if c.key in done:
            continue
        done.add(c.key)
        n += 1
        rs, asked = judge_one(M, fs, judge, c)
        todo.extend(c.variants(asked))
        for f, msg, did in rs:
            fired[f.q] = fired.get(f.q, 0) + did
            if msg:
                return '%s on %s%s%s: %s' % (
                    short(f), names(c.operands), ', with a further user of ' + nm(c.more[0]) if c.more else '',
                    ', where q is traced to ' + nm(c.extra['trace'][Q0]) if 'trace' in c.extra else '', msg), (f.q, n, fired)
    return None, (None, n, fired)


_cases = {}


def counting(M):
    """notes the outputs whose users are counted"""
    M.counted = None
    for name in ('nusers', 'IsDead', 'Users'):
        for f in M.P.by_q.get(RV + 'Output::' + name, []):
            if f.body and not f.params:
                def counted(M, d, a, f=f):
                    o = getattr(a[0], 'v', a[0])
                    if M.counted is not None:
                        M.counted.add(id(o))
                    return M.call(f, [], o)
                M.natives[f.q] = counted


def short(f):
    return f.q.split('jlm::')[-1].split('::', 1)[-1]


def normalizations(P, cls):
    ls = [f for f in P.funcs.values() if f.cls == cls and len(f.params) == 2 and 'optional' in (f.decl.ret or '') and
          f.params[0][2].replace('const ', '').rstrip(' &') == cls and 'Output *' in f.params[1][2]]
    if not ls:
        raise AnalysisBroken('no normalization of %s found' % cls)
    return ls


def check(P, rep):
    rep.rule('norm/graph', 'what replaces a load, store or memory state is ordered after the accesses the replaced output is ordered '
             'after, and the value it loads or stores is the same')
    p = palette()
    some = ((), (M0,), (p['stp0'], M2), (M0, M0))
    gens = {
        LNV: lambda: itertools.chain(loads(), *[barred(op(LNV, t, k(len(s)), k(4)), s) for s in some for t in (I8, I32, I64)]),
        SNV: lambda: itertools.chain(stores(), *[barred(op(SNV, TYPES[v], k(len(s)), k(4)), (v,) + s)
                                                 for s in some for v in (W8, V, WL)]),
        MERGE: lambda: states(lambda n: op(MERGE, k(n))), JOIN: lambda: states(lambda n: op(JOIN, k(n))),
        SPLIT: lambda: splits(), LEXIT: lambda: exits_of()}
    _cases.clear()
    for cls, judge in JUDGES.items():
        _cases[cls] = normalizations(P, cls), judge, list(gens[cls]())
    members = [(cls, i) for cls in _cases for i in range(len(_cases[cls][2]))]
    fs = {f.q: f for x in _cases.values() for f in x[0]}
    n, fired, told, undecided = {}, {}, set(), []
    for m, kd, msg, did in sweep(P, members, one, counting):
        if kd == 'B' or kd == 'E':
            undecided.append('%s on %s: %s' % (m[0], names(_cases[m[0]][2][m[1]].operands), msg))
            continue
        q, k_, fr = did
        n[m[0]] = n.get(m[0], 0) + k_
        for x, y in fr.items():
            fired[x] = fired.get(x, 0) + y
        if kd == 'V' and q not in told:
            told.add(q)
            rep.violation('norm/graph', short(fs[q]), fs[q].file, fs[q].line, msg)
    for q, f in fs.items():
        if fired.get(q):
            rep.site('norm/graph', short(f))
    rep.note('graphs examined: ' + ', '.join('%s %d' % (c.rsplit('::', 1)[-1], x) for c, x in sorted(n.items())))
    if undecided:
        rep.note('%d graphs undecided, e.g. %s' % (len(undecided), undecided[0]))
        if 2 * len(undecided) > len(members):
            rep.broken.append(undecided[0])
    rep.floor('norm/graph', 20)


CHECKS = {'C10': check}
