"""What a module of control flow graphs denotes, and what a graph denotes when functions and variables are known by name.

Both use the terms of shapes.Den, so that they can be compared.
"""
import random

from .facts import AnalysisBroken
from .machine import Cell, Failed, Map, Obj, Tup, Unknown
from .shapes import Act, Den, Shape, Stop, L, R, make_op

VISITS = 400      # blocks of a function that are followed before it is given up
# the definitions other modules can rely on
KEPT = ('externalLinkage', 'weakAnyLinkage', 'weakOdrLinkage', 'appendingLinkage', 'commonLinkage', 'externalWeakLinkage')


def each(M, v):
    return [c.v if type(c) is Cell else c for c in M.iterate(v)]


class Named(Den):
    """every function and variable of a graph by itself; references to others are names"""

    iterations = 24
    visits = VISITS

    def exports(self, g):
        self.fresh = self.serial = 0
        self.shape_of = {}
        root = self.q(g, 'GetRootRegion')
        act = Act(root, None, {})
        for i in range(self.q(root, 'narguments')):
            a = self.q(root, 'argument', i)
            act.args[a] = self.term('global', self.q(a, 'Name'))
        out = []
        self.definitions(root, act, out)
        out.sort(key=lambda x: x[0])
        return tuple((n, self.numbered(v)) for n, v in out) + ((('about the module',) + self.about(root),) if self.facts else ())

    facts = True
    exporting = False

    def about(self, root):
        """what is known of everything with a name"""
        k = ('about', root)
        if k not in self.asked:
            self.asked[k] = self.declarations(root)
        return self.asked[k]

    def declarations(self, root):
        out = []
        for i in range(self.q(root, 'narguments')):
            a = self.q(root, 'argument', i)
            t = self.q(a, 'ValueType')
            f = self.M.isa(t, R + 'FunctionType')
            out.append((self.q(a, 'Name'), 'declared', self.deep(t), self.q(a, 'linkage')) +
                       ((self.q(a, 'callingConvention'),) if f else (int(self.q(a, 'isConstant')), self.q(a, 'getAlignment'))))
        todo = [root]
        while todo:
            for n in each(self.M, self.q(todo.pop(), 'Nodes')):
                o = self.q(n, 'GetOperation')
                if self.M.isa(n, R + 'PhiNode'):
                    todo.append(self.q(n, 'subregion', 0))
                elif self.M.isa(n, R + 'LambdaNode'):
                    t = self.q(o, 'Type')
                    out.append(self.function_facts(o, t, [self.q(o, 'GetArgumentAttributes', i) for i in range(self.q(t, 'NumArguments'))]))
                elif self.M.isa(n, R + 'DeltaNode'):
                    out.append(self.variable_facts(o, self.q(o, 'Type')))
        if self.exporting:
            act = Act(root, None, {})
            for i in range(self.q(root, 'nresults')):
                r = self.q(root, 'result', i)
                x = self.back[self.name_of(self.q(r, 'origin'), act)]
                out.append((self.q(r, 'Name'), 'exported', x[1]))
        return tuple(sorted(out, key=repr))

    def function_facts(self, o, t, args):
        return (self.q(o, 'name'), 'function', self.deep(t), self.q(o, 'linkage'), self.q(o, 'callingConvention'),
                self.deep(self.q(o, 'attributes')), tuple(self.deep(a) for a in args))

    def variable_facts(self, o, t):
        return (self.q(o, 'name'), 'variable', self.deep(t), self.q(o, 'linkage'), self.q(o, 'Section'), int(self.q(o, 'constant')), self.q(o, 'getAlignment'))

    def deep(self, v):
        """a value without identity"""
        v = v.v if type(v) is Cell else v
        if isinstance(v, Map):
            return tuple(sorted((self.deep(x) for x in v.d.values()), key=repr))
        if isinstance(v, Obj):
            return (v.cls,) + tuple(self.deep(c) for _, c in sorted(v.f.items()))
        if hasattr(v, 'c') and isinstance(v.c, list):
            return tuple(self.deep(c) for c in v.c)
        return v

    def numbered(self, v):
        self.serial = 1
        return self.canonical(((None, v),))[0][1]

    def definitions(self, r, act, out):
        M = self.M
        for n in self.each(r, 'Nodes'):
            sub = self.q(n, 'subregion', 0) if M.isa(n, R + 'StructuralNode') else None
            if sub is None:
                raise Unknown('a node of class %s outside of functions' % n.cls)
            a, rest = self.bound(sub, act)
            if M.isa(n, R + 'PhiNode'):
                outs = self.outs(n)
                for i, x in enumerate(rest):
                    a.args[x] = self.name_of(outs[i], act)
                self.definitions(sub, a, out)
                continue
            for i, x in enumerate(rest):
                a.args[x] = self.term('param', 0, i)
            self.serial = 0
            rs = tuple(self.value(self.q(self.q(sub, 'result', i), 'origin'), a) for i in range(self.q(sub, 'nresults')))
            out.append((self.q(self.q(n, 'GetOperation'), 'name'), rs))

    def each(self, o, name):
        k = ('each', o, name)
        r = self.asked.get(k)
        if r is None:
            r = self.asked[k] = each(self.M, self.q(o, name))
        return r

    def name_of(self, out, act):
        n = self.q(out, 'node')
        if self.M.isa(n, R + 'PhiNode'):
            sub = self.q(n, 'subregion', 0)
            for i in range(self.q(sub, 'nresults')):
                r = self.q(sub, 'result', i)
                if self.q(r, 'output') is out:
                    return self.name_of(self.q(r, 'origin'), act)
            raise Failed('an output of a phi without a definition')
        return self.term('global', self.q(self.q(n, 'GetOperation'), 'name'))

    def lam(self, n, act):
        return self.name_of(self.q(n, 'output', 0), act)

    def delta(self, n, act):
        act.memo[self.q(n, 'output', 0)] = self.name_of(self.q(n, 'output', 0), act)

    def phi(self, n, act):
        for o in self.outs(n):
            act.memo[o] = self.name_of(o, act)

    def call(self, n, act, xs):
        return False


class Flow(Named):
    """the same for the control flow graphs of a module"""

    def exports(self, m):
        M = self.M
        self.fresh = self.serial = 0
        self.shape_of = {}
        out = []
        for n in self.each(m, 'ipgraph'):
            self.serial = 0
            if M.isa(n, L + 'FunctionNode'):
                cfg = self.q(n, 'cfg')
                if cfg is not None:
                    out.append((self.q(n, 'name'), self.function(cfg)))
            elif M.isa(n, L + 'DataNode'):
                init = self.q(n, 'initialization')
                if init is not None:
                    env = {}
                    for t in self.each(init, 'tacs'):
                        self.tac(t, env)
                    out.append((self.q(n, 'name'), (self.variable(self.q(init, 'value'), env),)))
            else:
                raise Unknown('a module with a node of class %s' % n.cls)
        out.sort(key=lambda x: x[0])
        return tuple((n, self.numbered(v)) for n, v in out) + ((('about the module',) + self.about(m),) if self.facts else ())

    def declarations(self, m):
        out = []
        for n in self.each(m, 'ipgraph'):
            name, link = self.q(n, 'name'), self.q(n, 'linkage')
            if self.M.isa(n, L + 'FunctionNode'):
                t = self.q(n, 'GetFunctionType')
                cfg = self.q(n, 'cfg')
                if cfg is None:
                    out.append((name, 'declared', self.deep(t), link, self.q(n, 'callingConvention')))
                    continue
                e = self.q(cfg, 'entry')
                out.append(self.function_facts(n, t, [self.q(self.q(e, 'argument', i), 'attributes') for i in range(self.q(e, 'narguments'))]))
            else:
                t = self.q(n, 'GetValueType')
                if self.q(n, 'initialization') is None:
                    out.append((name, 'declared', self.deep(t), link, int(self.q(n, 'constant')), self.q(n, 'getAlignment')))
                    continue
                out.append(self.variable_facts(n, t))
            if self.exporting and link in self.kept():
                out.append((name, 'exported', name))
        return tuple(sorted(out, key=repr))

    exporting = True

    def kept(self):
        return [Shape.enum(self, L + 'Linkage', x) for x in KEPT]

    def variable(self, v, env):
        x = env.get(v)
        if x is not None:
            return x
        M = self.M
        if M.isa(v, L + 'FunctionVariable'):
            return self.term('global', self.q(self.q(v, 'function'), 'name'))
        if M.isa(v, L + 'GlobalValue'):
            return self.term('global', self.q(self.q(v, 'node'), 'name'))
        raise Failed('a use of a variable that has no value yet')

    def function(self, cfg):
        M = self.M
        env = {}
        at, end = self.q(cfg, 'entry'), self.q(cfg, 'exit')
        for i in range(self.q(at, 'narguments')):
            env[self.q(at, 'argument', i)] = self.term('param', 0, i)
        came = None
        for _ in range(self.visits):
            k = 0
            if M.isa(at, L + 'BasicBlock'):
                k = self.block(at, came, env)
            n = self.q(at, 'NumOutEdges')
            if at is end:
                return tuple(self.variable(self.q(at, 'result', i), env) for i in range(self.q(at, 'nresults')))
            if not 0 <= k < n:
                raise Failed('a block with %d successors where alternative %d is taken' % (n, k))
            came, at = at, self.q(self.q(at, 'OutEdge', k), 'sink')
        raise Stop()

    def block(self, b, came, env):
        M = self.M
        tacs = self.each(b, 'tacs')
        done = 0
        new = {}
        for t in tacs:
            o = self.q(t, 'operation')
            if o.cls != L + 'SsaPhiOperation':
                break
            done += 1
            v = None
            for i in range(self.q(t, 'noperands')):
                if self.q(o, 'GetIncomingNode', i) is came:
                    x = self.variable(self.q(t, 'operand', i), env)
                    if v is not None and v != x:
                        raise Failed('a phi with two values for one predecessor')
                    v = x
            if v is None:
                raise Failed('a phi without a value for a predecessor')
            new[self.q(t, 'result', 0)] = v
        env.update(new)
        k = 0
        for t in tacs[done:]:
            if t is not tacs[done:][-1] and M.isa(self.q(t, 'operation'), L + 'BranchOperation'):
                raise Failed('code after the branch of a block')
            k = self.tac(t, env)
        if self.q(b, 'NumOutEdges') > 1 and not (tacs and M.isa(self.q(tacs[-1], 'operation'), L + 'BranchOperation')):
            raise Failed('a block with several successors and no branch')
        return k

    def tac(self, t, env):
        o = self.q(t, 'operation')
        vs = [self.q(t, 'operand', i) for i in range(self.q(t, 'noperands'))]
        if o.cls == L + 'SsaPhiOperation':
            raise Failed('a phi that is not at the start of its block')
        if o.cls == L + 'SelectOperation':
            c, a, b = vs
            x = a if self.number(self.variable(c, env), 1) else b
            env[self.q(t, 'result', 0)] = self.variable(x, env)
            return 0
        if o.cls == L + 'AssignmentOperation':
            env[vs[0]] = self.variable(vs[1], env)
            return 0
        xs = [self.variable(v, env) for v in vs]
        if o.cls == L + 'BranchOperation':
            return self.alternative(xs[0], self.q(o, 'nalternatives'))
        rs = [self.q(t, 'result', i) for i in range(self.q(t, 'nresults'))]
        env.update(zip(rs, self.results(o, xs, len(rs))))
        return 0


class Sampled:
    """random outcomes of the branches instead of all"""

    samples = 24
    visits = 24

    def decide(self, t, n):
        d = self.made.get(t)
        if d is None:
            d = self.made[t] = self.rng.randrange(n)
        return d

    def all(self, g, given=None, limit=150):
        res, seen = [], set()
        for k in range(self.samples):
            self.given, self.made = {}, {}
            self.M.steps = 0
            self.rng = random.Random(k)
            try:
                obs = self.exports(g)
            except Stop:
                continue
            key = tuple(sorted(self.made.items()))
            if key not in seen:
                seen.add(key)
                res.append((self.made, obs))
        return res


class SampledFlow(Sampled, Flow):
    pass


# ---- families of modules of control flow graphs

LINKAGES = ('externalLinkage', 'internalLinkage', 'linkOnceOdrLinkage', 'weakAnyLinkage', 'privateLinkage')


def linkage(s, rng):
    return s.enum(L + 'Linkage', rng.choice(LINKAGES))


def convention(s, rng):
    return s.enum(L + 'CallingConvention', rng.choice(('C', 'Fast', 'Cold')))


def attributes(s, rng):
    M = s.M
    a = M.new(L + 'AttributeSet')
    for k in ('NoUnwind', 'ReadNone', 'NonNull'):
        if rng.random() < .5:
            M.do(a, 'InsertEnumAttribute', M.new(L + 'EnumAttribute', s.enum(L + 'Attribute::kind', k)))
    return a


def decorate(s, rng):
    """give the functions and variables of a graph something to keep"""
    def facts(n=None):
        if n is None:
            return linkage(s, rng), rng.choice(('', 'sec')), rng.randrange(2), rng.choice((1, 4, 8))
        return linkage(s, rng), convention(s, rng), attributes(s, rng), {i: attributes(s, rng) for i in range(n) if rng.random() < .4}
    s.facts = facts


class FlowGen:
    """modules of functions with arbitrary control flow; a number always gives the same module"""

    def __init__(self, M, seed, **cfg):
        self.M, self.rng = M, random.Random(seed)
        self.c = dict(blocks=5, phis=True, vars=2, selects=True, match=True, functions=1, dense=.5, ssa=.7)
        self.c.update(cfg)
        self.s = Shape(M, True)
        s = self.s
        self.T = {'b': s.bit(32), 's': s.ty(L + 'MemoryStateType'), 'i': s.ty(L + 'IOStateType')}
        self.mod = M.run(L + 'InterProceduralGraphModule::create', Obj('jlm::util::FilePath'), '', '')
        self.mod = getattr(self.mod, 'v', self.mod)
        self.ipg = M.do(self.mod, 'ipgraph')

    def p(self, x):
        return self.rng.random() < x

    def r(self, n):
        return self.rng.randrange(n)

    def pick(self, xs):
        return xs[self.r(len(xs))]

    # ---- shape
    def topology(self):
        """successors of every block, -1 for the exit; block 0 has no predecessors"""
        while True:
            n = 1 + self.r(self.c['blocks'])
            succ = []
            for b in range(n):
                k = 1 + (self.p(self.c['dense'])) + self.p(.12)
                succ.append([self.pick(list(range(1, n)) + [-1]) if not self.p(.35) else (b + 1 if b + 1 < n else -1) for _ in range(k)])
            reach, todo = {0}, [0]
            while todo:
                for t in succ[todo.pop()]:
                    if t >= 0 and t not in reach:
                        reach.add(t)
                        todo.append(t)
            if len(reach) < n:
                continue
            ends = {-1}
            while True:
                more = {b for b in range(n) if b not in ends and any(t in ends for t in succ[b])}
                if not more:
                    break
                ends |= more
            if len(ends) == n + 1:
                return succ

    @staticmethod
    def dominators(succ):
        n = len(succ)
        pred = [[a for a in range(n) if b in succ[a]] for b in range(n)]
        dom = [{0}] + [set(range(n)) for _ in range(n - 1)]
        change = True
        while change:
            change = False
            for b in range(1, n):
                d = {b} | set.intersection(*[dom[a] for a in pred[b]])
                if d != dom[b]:
                    dom[b], change = d, True
        return dom, pred

    # ---- code
    def tac(self, name, ops, outs, cls='opaque::Op'):
        M = self.M
        o = make_op(M, name, [M.do(x, 'Type') for x in ops], outs, cls)
        return self.create(o, ops)

    def create(self, o, ops):
        return self.M.run(L + 'ThreeAddressCode::create', o, self.s.vec(ops, 'const jlm::llvm::Variable *'), n=2)

    def add(self, b, t):
        t = self.M.do(b, 'append_last', t)
        return [self.M.do(t, 'result', i) for i in range(self.M.do(t, 'nresults'))]

    def op(self, b, *a, **k):
        return self.add(b, self.tac(*a, **k))

    def assign(self, b, x, v):
        self.add(b, self.M.run(L + 'AssignmentOperation::create', x, v))

    def bits(self, b, x):
        return self.op(b, 'bit', [x], [self.s.bit(1)])[0]

    def predicate(self, b, x, n):
        M = self.M
        if self.c['match']:
            if n == 2 and self.p(.4):
                v = self.r(2)
                d, x = self.r(2), self.bits(b, x)
                ms = {v: 1 - d}
            else:
                vs = [0, 1, 2]
                self.rng.shuffle(vs)
                d = self.r(n)
                ms = {vs[i]: i for i in range(n) if i != d}
            m = Map('std::unordered_map<unsigned long, unsigned long>')
            for k, v in ms.items():
                M.insert(m, Tup([Cell(k), Cell(v)], 'std::pair<const unsigned long, unsigned long>'))
            o = M.new(R + 'MatchOperation', M.do(M.do(x, 'Type'), 'nbits'), m, d, n)
            return self.add(b, self.create(o, [x]))[0]
        return self.op(b, ('p%d' if self.p(.8) else 'q%d') % n, [x], [self.s.ctl(n)])[0]

    def code(self, b, have, io, st, glob):
        """some operations; have: values that can be used, changed in place"""
        T = self.T
        for _ in range(self.r(4)):
            k = self.r(10)
            x = self.pick(have) if have else None
            if x is None or k == 0:
                have.append(self.op(b, self.pick('cd'), [], [T['b']])[0])
            elif k < 3:
                have.append(self.op(b, self.pick('fg'), [x], [T['b']])[0])
            elif k < 5:
                have.append(self.op(b, 'h', [x, self.pick(have)], [T['b']])[0])
            elif k == 5 and glob:
                have.append(self.op(b, 'ad', [self.pick(glob)], [T['b']])[0])
            elif k == 6 and self.c['selects']:
                have += self.add(b, self.M.run(L + 'SelectOperation::create', self.bits(b, x), self.pick(have), self.pick(have)))
            elif k < 8:
                v, s2 = self.op(b, 'ld', [x, st], [T['b'], T['s']], cls='opaque::Effect')
                have.append(v)
                self.assign(b, s2, st)
            elif k == 8:
                v, s2, i2 = self.op(b, 'call', [x, st, io], [T['b'], T['s'], T['i']], cls='opaque::Effect')
                have.append(v)
                self.assign(b, s2, st)
                self.assign(b, i2, io)
            elif self.vars:
                self.assign(b, self.pick(have), self.pick(self.vars))

    def body(self, ft, glob):
        M, T = self.M, self.T
        cfg = M.run(L + 'ControlFlowGraph::create', self.mod)
        cfg = getattr(cfg, 'v', cfg)
        entry, end = M.do(cfg, 'entry'), M.do(cfg, 'exit')
        args = []
        for i, t in enumerate('bbis'):
            at = attributes(self.s, self.rng) if self.p(.4) else None
            a = M.run(L + 'Argument::create', '_%d_' % i, T[t], *([at] if at is not None else []), n=3 if at is not None else 2)
            args.append(M.do(entry, 'append_argument', a))
        x, y, io, st = args
        succ = self.topology()
        dom, pred = self.dominators(succ)
        n = len(succ)
        blocks = [M.run(L + 'BasicBlock::create', cfg) for _ in range(n)]
        M.do(end, 'divert_inedges', blocks[0])
        self.vars = [M.do(self.mod, 'create_variable', T['b'], 'v%d' % i) for i in range(self.c['vars'])]
        nres = M.do(ft, 'NumResults') - 2
        rets = [M.do(self.mod, 'create_variable', T['b'], 'r%d' % i) for i in range(nres)]
        for v in self.vars + rets:
            self.assign(blocks[0], self.pick([x, y]) if self.p(.7) else self.op(blocks[0], 'c', [], [T['b']])[0], v)
        own = {b: [] for b in range(n)}
        phis = []
        for b in range(1, n):
            if self.c['phis'] and pred[b] and self.p(.7):
                for _ in range(1 + self.r(2)):
                    o = M.new(L + 'SsaPhiOperation', self.s.vec([], L + 'ControlFlowGraphNode *'), T['b'])
                    t = M.do(blocks[b], 'append_last', self.create(o, []))
                    phis.append((b, t))
                    own[b].append(M.do(t, 'result', 0))
        order = sorted(range(n), key=lambda b: len(dom[b]))
        for b in order:
            have = [v for d in dom[b] for v in own[d]] + ([x, y] if self.p(.5) else []) + (self.vars if self.p(.7) else [])
            have = have or [x]
            was = len(have)
            self.code(blocks[b], have, io, st, glob)
            own[b] += [v for v in have[was:] if v not in self.vars]
            for v in self.vars:
                if self.p(.5):
                    self.assign(blocks[b], self.pick(have), v)
            if -1 in succ[b] or self.p(.3):
                for v in rets:
                    self.assign(blocks[b], self.pick(have), v)
            for t in succ[b]:
                M.do(blocks[b], 'add_outedge', blocks[t] if t >= 0 else end)
            if len(succ[b]) > 1:
                z = self.pick(self.vars) if self.vars and self.p(.6) else self.pick(have)
                self.add(blocks[b], M.run(L + 'BranchOperation::create', len(succ[b]), self.predicate(blocks[b], z, len(succ[b]))))
        for b, t in phis:
            ps = [a for a in pred[b]]
            self.rng.shuffle(ps)
            vs = []
            for a in ps:
                have = [v for d in dom[a] for v in own[d]] or [x, y]
                vs.append(self.pick(have))
            o = M.new(L + 'SsaPhiOperation', self.s.vec([blocks[a] for a in ps], L + 'ControlFlowGraphNode *'), T['b'])
            M.do(t, 'replace', o, self.s.vec(vs, 'const jlm::llvm::Variable *'))
        for v in rets + [io, st]:
            M.do(end, 'append_result', v)
        if sum(-1 in s for s in succ) + sum(s.count(-1) > 1 for s in succ) > 1:
            b = M.run(L + 'BasicBlock::create', cfg)
            M.do(end, 'divert_inedges', b)
            M.do(b, 'add_outedge', end)
        return cfg

    # ---- module
    def module(self):
        M, T, s = self.M, self.T, self.s
        nodes = []
        fts = [s.fun([T[t] for t in 'bbis'], [T['b']] * k + [T['i'], T['s']]) for k in (1, 2)]
        cc = lambda: convention(s, self.rng)
        for i in range(self.r(3)):
            if self.p(.5):
                d = M.run(L + 'DataNode::Create', self.ipg, 'x%d' % i, T['b'], s.enum(L + 'Linkage', self.pick(('externalLinkage', 'externalWeakLinkage'))), '', self.r(2), self.pick((1, 4, 8)))
                nodes.append((d, M.do(self.mod, 'create_global_value', d), 'x'))
            else:
                f = M.run(L + 'FunctionNode::create', self.ipg, 'x%d' % i, self.pick(fts), s.enum(L + 'Linkage', 'externalLinkage'), cc(), M.new(L + 'AttributeSet'), n=6)
                nodes.append((f, M.do(self.mod, 'create_variable', f, sig='FunctionNode'), 'x'))
        for i in range(self.r(3) if self.c['functions'] > 1 else self.r(2)):
            d = M.run(L + 'DataNode::Create', self.ipg, 'd%d' % i, T['b'], linkage(self.s, self.rng), self.pick(('', 'sec')), self.r(2), self.pick((1, 4, 8)))
            nodes.append((d, M.do(self.mod, 'create_global_value', d), 'd'))
        for i in range(1 + self.r(self.c['functions'])):
            ft = self.pick(fts)
            f = M.run(L + 'FunctionNode::create', self.ipg, 'f%d' % i, ft, linkage(self.s, self.rng), cc(), attributes(self.s, self.rng) if self.p(.5) else M.new(L + 'AttributeSet'), n=6)
            nodes.append((f, M.do(self.mod, 'create_variable', f, sig='FunctionNode'), ft))
        for n, v, k in nodes:
            if k == 'x':
                continue
            deps = [x for x in nodes if self.p(.4)]
            self.rng.shuffle(deps)
            for x in deps:
                M.do(n, 'add_dependency', x[0])
            glob = [x[1] for x in deps]
            if k == 'd':
                ts = [self.tac('c', [], [T['b']])]
                for g in glob:
                    ts.append(self.tac('ad', [g], [T['b']]))
                    ts.append(self.tac('h', [M.do(t, 'result', 0) for t in ts[-2:]], [T['b']]))
                v = s.vec(ts, 'std::unique_ptr<jlm::llvm::ThreeAddressCode>')
                M.do(n, 'set_initialization', M.new(L + 'DataNodeInit', v))
            else:
                M.do(n, 'add_cfg', self.body(k, glob))
        return self.mod
