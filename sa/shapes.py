"""Abstract graphs: operations without meaning, wired into the structural nodes
of an RVSDG, and what such a graph denotes.

The graph and everything that is done to it is interpreted from the source
(machine.py). The operations are opaque: they stand for every operation with
that signature, and the values they produce are terms. Two graphs denote the
same if every export is the same term under every outcome of every branch.
"""
from .machine import Machine, Obj, Cell, Vec, Unknown, Failed, Thrown, Frame
from .facts import AnalysisBroken

R = 'jlm::rvsdg::'
L = 'jlm::llvm::'
MAX_ITER = 3
NUMBERS = (0, 1, 2, 77)
IDEMPOTENT = ('ld', 'st')
EXTERNAL = 0      # the identifier of the memory that other modules know


class Stop(Exception):
    """a loop that is not followed any further"""


class Shape:
    """one graph under construction, with the interpreter it lives in"""

    facts = None        # what functions and variables are, besides what they compute

    def __init__(self, M, module=False):
        self.M = M
        M.keep_graph = self
        if module:
            fp = Obj('jlm::util::FilePath')
            self.module = M.new(L + 'LlvmRvsdgModule', fp, '', '')
            self.g = M.do(self.module, 'Rvsdg')
        else:
            self.module = None
            self.g = M.new(R + 'Graph')
        self.root = M.do(self.g, 'GetRootRegion')

    # ---- types
    def bit(self, n=32):
        return self.M.run(R + 'BitType::Create', n)

    def ctl(self, n=2):
        return self.M.run(R + 'ControlType::Create', n)

    def ty(self, cls):
        return self.M.run(cls + '::Create')

    def vec(self, xs, el=''):
        return Vec([Cell(x) for x in xs], el, 'std::vector<%s>' % el)

    def fun(self, ins, outs):
        el = 'std::shared_ptr<const jlm::rvsdg::Type>'
        return self.M.run(R + 'FunctionType::Create', self.vec(ins, el), self.vec(outs, el), n=2)

    # ---- boundary
    def imp(self, ty, name):
        return self.M.run(R + 'GraphImport::Create', self.g, ty, name)

    def exp(self, out, name):
        return self.M.run(R + 'GraphExport::Create', out, name)

    def type_of(self, out):
        return self.M.do(out, 'Type')

    # ---- nodes
    def op(self, name, ins, outs, region=None, cls='opaque::Op', attrs=()):
        """an opaque operation; the outputs of its node"""
        o = make_op(self.M, name, [self.type_of(i) for i in ins], outs, cls, attrs)
        return self.node(o, ins, region)

    def node(self, op, ins, region=None):
        M = self.M
        if not ins or region is not None:
            n = M.run(R + 'SimpleNode::Create', region if region is not None else self.root, op,
                      self.vec(ins, 'jlm::rvsdg::Output *'), n=3)
        else:
            n = M.run(R + 'SimpleNode::Create', M.do(ins[0], 'region'), op, self.vec(ins, 'jlm::rvsdg::Output *'), n=3)
        return self.outs(n)

    def outs(self, n):
        M = self.M
        return [M.do(n, 'output', i) for i in range(M.do(n, 'noutputs'))]

    def get(self, s, name):
        """a field of a plain structure"""
        for (c, n), v in s.f.items():
            if n == name:
                return v.v
        raise AnalysisBroken('%s has no field %s' % (s.cls, name))

    def items(self, v):
        return [c.v for c in v.c]

    def gamma(self, pred, n, ins, body, region=None):
        """body(i, region, args) gives the results of branch i; the outputs"""
        M = self.M
        g = M.run(R + 'GammaNode::create', pred, n)
        evs = [self.items(self.get(M.do(g, 'AddEntryVar', i), 'branchArgument')) for i in ins]
        res = [body(k, M.do(g, 'subregion', k), [e[k] for e in evs]) for k in range(n)]
        outs = []
        for xs in zip(*res):
            ev = M.do(g, 'AddExitVar', self.vec(list(xs), 'jlm::rvsdg::Output *'))
            outs.append(self.get(ev, 'output'))
        return outs, g

    def theta(self, ins, body, region=None):
        """body(region, args) gives (predicate, results); the outputs"""
        M = self.M
        t = M.run(R + 'ThetaNode::create', region if region is not None else (M.do(ins[0], 'region') if ins else self.root))
        lvs = [M.do(t, 'AddLoopVar', i) for i in ins]
        sub = M.do(t, 'subregion')
        pred, res = body(sub, [self.get(l, 'pre') for l in lvs])
        for l, r in zip(lvs, res):
            M.do(self.get(l, 'post'), 'divert_to', r)
        if pred is not None:
            M.do(t, 'set_predicate', pred)
        return [self.get(l, 'output') for l in lvs], t

    def lam(self, name, ins, outs, ctx, body, region=None, linkage='externalLinkage', attrs=None):
        """body(region, args, context) gives the results"""
        M = self.M
        ft = self.fun(ins, outs)
        link = self.enum(L + 'Linkage', linkage)
        if self.facts:
            link, cc, at, on = self.facts(len(ins))
            op = M.run(L + 'LlvmLambdaOperation::Create', ft, name, link, cc, at)
            o = op.v if type(op) is Cell else op
            for i, a in on.items():
                M.do(o, 'SetArgumentAttributes', i, a)
        else:
            op = M.run(L + 'LlvmLambdaOperation::Create', ft, name, link, n=3)
        lam = M.run(R + 'LambdaNode::Create', region if region is not None else self.root, op)
        cvs = [self.get(M.do(lam, 'AddContextVar', c), 'inner') for c in ctx]
        args = self.items(M.do(lam, 'GetFunctionArguments'))
        res = body(M.do(lam, 'subregion'), args, cvs)
        return M.do(lam, 'finalize', self.vec(res, 'jlm::rvsdg::Output *')), lam

    def phi(self, types, ctx, body, region=None):
        """body(region, recursive references, context) gives the definitions"""
        M = self.M
        pb = M.new(R + 'PhiBuilder')
        M.do(pb, 'begin', region if region is not None else self.root)
        cvs = [self.get(M.do(pb, 'AddContextVar', c), 'inner') for c in ctx]
        fvs = [M.do(pb, 'AddFixVar', t) for t in types]
        res = body(M.do(pb, 'subregion'), [self.get(f, 'recref') for f in fvs], cvs)
        for f, r in zip(fvs, res):
            M.do(self.get(f, 'result'), 'divert_to', r)
        n = M.do(pb, 'end')
        return self.outs(n), n

    def delta(self, name, ty, ctx, body, region=None, constant=False, linkage='externalLinkage'):
        M = self.M
        link, section, align = self.enum(L + 'Linkage', linkage), '', 4
        if self.facts:
            link, section, constant, align = self.facts()
        op = M.run(L + 'LlvmDeltaOperation::Create', ty, name, link, section, constant, align)
        d = M.run(R + 'DeltaNode::Create', region if region is not None else self.root, op)
        cvs = [self.get(M.do(d, 'AddContextVar', c), 'inner') for c in ctx]
        r = body(M.do(d, 'subregion'), cvs)
        return M.do(d, 'finalize', r), d

    def enum(self, cls, name):
        e = self.M.P.enums.get(cls)
        if e is None:
            raise AnalysisBroken('enumeration %s' % cls)
        for x, v in e['v']:
            if x.rsplit('::', 1)[-1] == name:
                return int(v)
        raise AnalysisBroken('enumerator %s::%s' % (cls, name))


def make_op(M, name, ins, outs, cls='opaque::Op', attrs=()):
    if cls not in M.P.classes:
        define_ops(M)
    o = Obj(cls)
    el = 'std::shared_ptr<const jlm::rvsdg::Type>'
    v = [Vec([Cell(x) for x in xs], el, 'std::vector<%s>' % el) for xs in (ins, outs)]
    d = M.pick(R + 'SimpleOperation', v, None)
    M.construct(o, R + 'SimpleOperation', d, v)
    o.f[cls, 'name'] = Cell(name)
    o.f[cls, 'attrs'] = Cell(tuple(attrs))
    return o


def define_ops(M):
    def types(o):
        return [tuple(M.structure(c.v) for c in o.f[R + 'SimpleOperation', f].v.c) for f in M.op_fields]

    def eq(M, o, args):
        x = args[0].v if type(args[0]) is Cell else args[0]
        return x.cls == o.cls and x.f[o.cls, 'name'].v == o.f[o.cls, 'name'].v and x.f[o.cls, 'attrs'].v == o.f[o.cls, 'attrs'].v \
            and types(x) == types(o)

    def copy(M, o, args):
        n = Obj(o.cls)
        for k, c in o.f.items():
            n.f[k] = Cell(M.copy(c.v, 'std::vector<std::shared_ptr<const jlm::rvsdg::Type>>') if isinstance(c.v, Vec) else c.v)
        return n
    M.op_fields = [x[0] for x in M.P.classes[R + 'SimpleOperation'].fields]
    for c, bases in (('opaque::Op', [R + 'SimpleOperation']), ('opaque::Effect', [R + 'SimpleOperation'])):
        M.define(c, bases, {'operator==': eq, 'copy': copy, 'debug_string': lambda M, o, a: str(o.f[o.cls, 'name'].v)})


# ---- denotation

class Den:
    """what the exports of a graph are, as terms over the imports

    Terms are interned; a decision says which way a branch on a term goes.
    """

    def __init__(self, M, instances=True):
        self.M, self.instances = M, instances
        self.asked = {}
        self.table = {}
        self.back = []
        self.shape_of = {}

    def term(self, *t):
        k = self.table.get(t)
        if k is None:
            k = self.table[t] = len(self.back)
            self.back.append(t)
        return k

    def show(self, k, depth=4):
        t = self.back[k]
        if t[0] == 'op':
            return '%s%s(%s)' % (t[1], '.%d' % t[2] if t[2] else '', ', '.join(self.show(x, depth - 1) for x in t[3]) if depth else '...')
        if t[0] == 'lambda':
            return 'function %s giving [%s]' % (t[1], ', '.join(self.show(x, depth) for x in t[2]))
        if t[0] == 'phi':
            return 'recursive %s where %s' % (t[1], '; '.join('%s' % self.show(x, depth) for _, x in t[2]))
        if t[0] == 'delta':
            return 'variable %s = %s' % (t[1], self.show(t[2], depth))
        if t[0] == 'match':
            return 'matched(%s)' % self.show(t[1], depth - 1)
        if t[0] == 'mem':
            return 'states(%s)' % ', '.join('%d: %s' % (i, self.show(x, depth - 1)) for i, x in t[1])
        if t[0] in ('merge', 'split', 'over', 'part'):
            xs = t[1] if t[0] == 'merge' else t[1:2] if t[0] in ('part', 'split') else t[1:]
            return '%s(%s)' % (t[0], ', '.join(self.show(x, depth - 1) for x in xs)) if depth else t[0]
        if t[0] == 'storage':
            return '%s%d' % t[1:3]
        return '.'.join(map(str, t)) if t[0] != 'import' else str(t[1])

    def changed(self):
        self.asked = {}

    eager = endless = False
    iterations = MAX_ITER

    def reached(self, act):
        """a region in which, if it is known to be entered, everything is computed"""
        if self.eager:
            for c in self.M.iterate(self.q(act.region, 'Nodes')):
                for o in self.outs(c.v if type(c) is Cell else c):
                    self.value(o, act)

    def goes_on(self, g, made):
        """whether a graph, computing all that it comes by, has a loop that does not end"""
        self.eager = True
        try:
            return all(o is None for _, o in self.all(g, made))
        finally:
            self.eager = False

    def q(self, o, name, *args):
        """what a method of the graph gives; the graph does not change in the meantime"""
        k = (o, name, args)
        r = self.asked.get(k, self)
        if r is self:
            if o is None:
                raise Failed('null pointer dereference')
            r = self.asked[k] = self.M.do(o, name, *args)
        return r

    # ---- all outcomes of all branches
    def all(self, g, given=None, limit=150):
        """[(decisions, observation)] for every outcome of the open branches"""
        res, script, tries = [], [], 0
        while True:
            self.given = given or {}
            self.script, self.log = script, []
            self.made = dict(self.given)
            self.M.steps = 0
            try:
                res.append((self.made, self.exports(g)))
            except Stop:
                if given is not None:
                    res.append((self.made, None))
            tries += 1
            if tries >= limit:
                return res
            log = self.log
            while log and log[-1][0] + 1 >= log[-1][1]:
                log.pop()
            if not log:
                return res
            script = [x[0] for x in log[:-1]] + [log[-1][0] + 1]

    def decide(self, t, n):
        d = self.made.get(t)
        if d is None:
            k = len(self.log)
            d = self.script[k] if k < len(self.script) else 0
            self.log.append((d, n))
            self.made[t] = d
        return d

    def exports(self, g):
        M = self.M
        root = self.q(g, 'GetRootRegion')
        self.endless = False
        self.fresh = self.serial = 0
        self.shape_of = {}
        act = Act(root, None, {})
        for i in range(self.q(root, 'narguments')):
            a = self.q(root, 'argument', i)
            act.args[a] = self.term('import', self.q(a, 'Name'))
        out = []
        for i in range(self.q(root, 'nresults')):
            r = self.q(root, 'result', i)
            out.append((self.q(r, 'Name'), self.value(self.q(r, 'origin'), act)))
        obs = self.canonical(tuple(out))
        if self.endless and self.contains(obs, self.term('endless')):
            raise Stop()
        return obs

    def contains(self, obs, t):
        seen, todo = set(), [obs]
        while todo:
            x = todo.pop()
            if type(x) in (tuple, list):
                todo += x
            elif type(x) is int and x not in seen and x < len(self.back):
                if x == t:
                    return True
                seen.add(x)
                y = self.back[x]
                todo.append(y[3] if y[0] == 'op' else y[2:] if y[0] in ('lambda', 'delta') else [r for _, r in y[2]] if y[0] == 'phi' else y[1:])
        return False

    # ---- values
    def value(self, out, act, base=None):
        if base is not None:
            x = self.value(out, act)
            return self.term('over', base, x) if self.back[x][0] == 'mem' and x != base else x
        M = self.M
        if out is None:
            raise Failed('an input without an origin')
        if getattr(out, 'dead', False):
            raise Failed('an input with a deleted origin')
        if M.isa(out, R + 'RegionArgument'):
            try:
                v = act.args[out]
            except KeyError:
                raise Failed('a use of a value of another region')
            if type(v) is tuple:
                v = act.args[out] = self.value(*v)
            return v
        v = act.memo.get(out)
        if v is not None:
            return v
        v = act.lazy.get(out)
        if v is not None:
            v = act.memo[out] = self.value(*v)
            return v
        n = self.q(out, 'node')
        if self.q(n, 'region') is not act.region:
            raise Failed('a use of a value of another region')
        if n in act.active:
            raise Failed('a cycle')
        act.active.add(n)
        try:
            if M.isa(n, R + 'SimpleNode'):
                self.simple(n, act)
            elif M.isa(n, R + 'GammaNode'):
                self.gamma(n, act)
            elif M.isa(n, R + 'ThetaNode'):
                self.theta(n, act)
            elif M.isa(n, R + 'LambdaNode'):
                act.memo[self.q(n, 'output', 0)] = self.lam(n, act)
            elif M.isa(n, R + 'PhiNode'):
                self.phi(n, act)
            elif M.isa(n, R + 'DeltaNode'):
                self.delta(n, act)
            else:
                raise Unknown('node of class %s' % n.cls)
        finally:
            act.active.discard(n)
        v = act.memo.get(out)
        if v is None:
            v = act.memo[out] = self.value(*act.lazy[out])
        return v

    def ins(self, n):
        M = self.M
        return [self.q(n, 'input', i) for i in range(self.q(n, 'ninputs'))]

    def origins(self, n, act):
        M = self.M
        return [self.value(self.q(i, 'origin'), act) for i in self.ins(n)]

    def opkey(self, o):
        M = self.M
        if o.cls.startswith('opaque::'):
            return (o.f[o.cls, 'name'].v,) + o.f[o.cls, 'attrs'].v
        return M.structure(o)

    def simple(self, n, act):
        M = self.M
        o = self.q(n, 'GetOperation')
        if o.cls == L + 'SelectOperation':
            # the operand that is not selected does not matter
            c, t, f = self.ins(n)
            x = t if self.number(self.value(self.q(c, 'origin'), act), 1) else f
            act.lazy[self.q(n, 'output', 0)] = (self.q(x, 'origin'), act)
            return
        xs = self.origins(n, act)
        if o.cls == L + 'CallOperation' and self.call(n, act, xs):
            return
        outs = self.outs(n)
        act.memo.update(zip(outs, self.results(o, xs, len(outs))))

    def results(self, o, xs, n):
        """what an operation gives for operands"""
        rs = self.interpret(o, xs)
        if rs is not None:
            return rs
        if o.cls == R + 'ControlConstantOperation':
            return [self.term('ctl', self.q(self.q(o, 'value'), 'alternative'))] * n
        k = self.opkey(o)
        name = k[0].split('::')[-1] if type(k[0]) is str else str(k[0])
        return [self.term('op', name, i, tuple(xs), k) for i in range(n)]

    def interpret(self, o, xs):
        """what an operation with a meaning gives, None if it is opaque"""
        if o.cls == L + 'AllocaOperation':
            if not self.instances:
                return [self.term('op', 'alloca', i, tuple(xs), self.opkey(o)) for i in range(2)]
            self.serial += 1
            return [self.term('alloca', self.serial, xs[0]), self.term('allocated', self.serial)]
        c = o.cls
        if c == L + 'IOBarrierOperation':
            return [xs[0]]
        if c == L + 'LoadNonVolatileOperation':
            return [self.term('op', 'load', 0, tuple(xs), self.opkey(o)[:1])] + xs[1:]
        if c == R + 'MatchOperation':
            w = self.q(o, 'nbits')
            return [self.term('ctl', self.q(o, 'alternative', self.number(xs[0], w)))]
        if c == L + 'IntegerConstantOperation':
            rep = self.q(o, 'Representation')
            return [self.term('int', self.q(rep, 'nbits'), self.q(rep, 'to_uint'))]
        if c == R + 'bitconstant_op' or c == R + 'BitConstantOperation':
            rep = self.q(o, 'value')
            return [self.term('int', self.q(rep, 'nbits'), self.q(rep, 'to_uint'))]
        if c == L + 'IntegerEqOperation':
            w = self.q(self.q(o, 'argument', 0), 'nbits')
            if xs[0] == xs[1]:
                return [self.term('int', 1, 1)]
            if any(self.back[x][0] == 'int' for x in xs):
                return [self.term('int', 1, int(self.number(xs[0], w) == self.number(xs[1], w)))]
        if c in (L + 'CallEntryMemoryStateMergeOperation', L + 'LambdaExitMemoryStateMergeOperation'):
            return [self.term('mem', tuple(sorted(zip(self.ids(o), xs))))]
        if c == L + 'LambdaEntryMemoryStateSplitOperation':
            return self.entered(xs[0], self.ids(o))
        if c == L + 'CallExitMemoryStateSplitOperation':
            return self.returned(xs[0], self.ids(o))
        if c == L + 'MemoryStateMergeOperation':
            return [self.merged(xs)]
        if c == L + 'MemoryStateSplitOperation':
            n = self.q(o, 'nresults')
            return [self.term('split', xs[0], n) if n > 1 else xs[0]] * n
        if c == L + 'UndefValueOperation' and self.M.isa(self.q(o, 'result', 0), L + 'MemoryStateType'):
            return [self.term('undefined state')]
        if c == L + 'ControlToIntOperation':
            n = self.q(self.q(o, 'argument', 0), 'nalternatives')
            return [self.term('int', self.q(self.q(o, 'result', 0), 'nbits'), self.alternative(xs[0], n))]
        if c == L + 'StoreNonVolatileOperation' and len(xs) == 3:
            t = self.back[xs[-1]]
            if t[0] == 'op' and t[1] == 'store' and t[3][:-1] == tuple(xs[:-1]):
                return [xs[-1]]
            return [self.term('op', 'store', 0, tuple(xs), self.opkey(o)[:1])]
        if o.cls == 'opaque::Effect':
            # doing it once more right after changes nothing, unless it can do input and output
            n = o.f[o.cls, 'name'].v
            t = self.back[xs[-1]]
            if n in IDEMPOTENT and t[0] == 'op' and t[1] == n and t[3][:-1] == tuple(xs[:-1]):
                return [self.term('op', n, i, t[3], self.opkey(o)) for i in range(t[2] + 1)]
        return None

    # ---- memory states with identifiers
    def ids(self, o):
        return [c.v for c in self.q(o, 'getMemoryNodeIds').c]

    def merged(self, xs):
        n = len(xs)
        xs = sorted(set(xs))
        t = self.back[xs[0]]
        if len(xs) == 1 and t[0] == 'split' and t[2] == n:
            return t[1]
        return xs[0] if len(xs) == 1 else self.term('merge', tuple(xs))

    def classes(self, C, F):
        """the identifiers that only the external state of the other function stands for: of the caller, of the callee"""
        return ([c for c in C if c == EXTERNAL or EXTERNAL in F and c not in F],
                [f for f in F if f == EXTERNAL or EXTERNAL in C and f not in C])

    def entered(self, x, F):
        t = self.back[x]
        if t[0] != 'mem':
            return [self.term('part', x, f) for f in F]
        base = dict(t[1])
        cs, fs = self.classes(base, F)
        m = self.merged([base[c] for c in cs]) if cs else self.term('undefined state')
        if cs and len(fs) > 1:
            m = self.term('split', m, len(fs))
        return [m if f in fs else base[f] if f in base else self.term('undefined state') for f in F]

    def returned(self, x, C):
        t = self.back[x]
        if t[0] == 'mem':
            has = dict(t[1])
            return [has[c] if c in has else self.term('undefined state') for c in C]
        if t[0] != 'over' or self.back[t[1]][0] != 'mem' or self.back[t[2]][0] != 'mem':
            return [self.term('part', x, c) for c in C]
        base, res = dict(self.back[t[1]][1]), dict(self.back[t[2]][1])
        cs, fs = self.classes(base, res)
        out = {}
        if fs:
            was = dict(zip(res, self.entered(t[1], list(res))))
            if all(res[f] == was[f] for f in fs):
                fs = ()     # untouched
            else:
                m = self.merged([res[f] for f in fs])
                out = {c: self.term('split', m, len(cs)) if len(cs) > 1 else m for c in cs}
        for c in base:
            out.setdefault(c, res[c] if c in res and c not in cs else base[c])
        return [out[c] for c in C]

    def call(self, n, act, xs):
        """what a call of a known function gives"""
        f = self.shape_of.get(xs[0])
        if f is None:
            return False
        fn, fact, fix = f
        if fix is not None:
            sub = self.q(fn, 'subregion', 0)
            a, recs = self.bound(sub, fact)
            outs = self.outs(fn)
            for i, x in enumerate(recs):
                a.args[x] = (outs[i], fact)
            fn, fact = self.q(fix, 'node'), a
        sub = self.q(fn, 'subregion', 0)
        a, params = self.bound(sub, fact)
        if len(params) != len(xs) - 1:
            return False
        a.depth = act.depth + 1
        if a.depth > 4:
            raise Stop()
        a.args.update(zip(params, xs[1:]))
        self.reached(a)
        for i in range(self.q(sub, 'nresults')):
            out = self.q(n, 'output', i)
            act.lazy[out] = (self.q(self.q(sub, 'result', i), 'origin'), a)
            if self.M.isa(self.q(out, 'Type'), L + 'MemoryStateType') and self.back[xs[-1]][0] == 'mem':
                act.lazy[out] += (xs[-1],)
        return True

    def number(self, t, w):
        """the value of a term of w bits; the values no constant has are all alike"""
        k = self.back[t]
        if k[0] == 'int':
            return k[2]
        vs = NUMBERS if w > 1 else (0, 1)
        return vs[self.decide(self.term('value', t), len(vs))]

    def canonical(self, obs):
        """storage numbered in the order in which the exports refer to it"""
        if not self.serial:
            return obs
        num, done = {}, {}

        def go(x):
            if type(x) is tuple:
                return tuple(go(y) for y in x)
            if type(x) is not int:
                return x
            r = done.get(x)
            if r is None:
                t = self.back[x]
                if t[0] in ('alloca', 'allocated'):
                    k = num.setdefault(t[1], len(num))
                    r = self.term('storage', t[0], k, *map(go, t[2:]))
                elif t[0] == 'op':
                    r = self.term('op', t[1], t[2], go(t[3]), *t[4:])
                elif t[0] in ('lambda', 'delta'):
                    r = self.term(t[0], t[1], *map(go, t[2:]))
                elif t[0] == 'phi':
                    r = self.term(t[0], t[1], tuple((n, go(y)) for n, y in t[2]))
                else:
                    r = x
                done[x] = r
            return r
        return tuple((n, go(v)) for n, v in obs)

    def alternative(self, p, n):
        t = self.back[p]
        return t[1] if t[0] == 'ctl' else self.decide(p, n)

    def gamma(self, n, act):
        M = self.M
        ins = self.ins(n)
        p = self.value(self.q(ins[0], 'origin'), act)
        k = self.alternative(p, self.q(n, 'nsubregions'))
        if not 0 <= k < self.q(n, 'nsubregions'):
            raise Failed('a gamma without a branch for its predicate')
        sub = self.q(n, 'subregion', k)
        a = Act(sub, act, {})
        for i in range(self.q(sub, 'narguments')):
            x = self.q(sub, 'argument', i)
            inp = self.q(x, 'input')
            if inp is None or inp is ins[0]:
                a.args[x] = self.term('match', p)
            else:
                a.args[x] = (self.q(inp, 'origin'), act)
        self.reached(a)
        for i in range(self.q(sub, 'nresults')):
            r = self.q(sub, 'result', i)
            act.lazy[self.q(r, 'output')] = (self.q(r, 'origin'), a)

    def theta(self, n, act):
        M = self.M
        sub = self.q(n, 'subregion', 0)
        args = [self.q(sub, 'argument', i) for i in range(self.q(sub, 'narguments'))]
        res = [self.q(sub, 'result', i) for i in range(self.q(sub, 'nresults'))]
        outs = self.outs(n)
        vals = {x: (self.q(self.q(x, 'input'), 'origin'), act) for x in args}
        post = {}
        for r in res[1:]:
            post[self.q(r, 'output')] = r
        # the loop variable of an argument has the same index as the input and output
        nxt = {}
        for x in args:
            i = self.q(self.q(x, 'input'), 'index')
            nxt[x] = post[outs[i]]
        for it in range(self.iterations + 1):
            if it == self.iterations:
                raise Stop()
            a = Act(sub, act, dict(vals))
            p = self.value(self.q(res[0], 'origin'), a)
            self.reached(a)
            k = self.alternative(p, 2)
            if k == 0:
                for o, r in post.items():
                    act.lazy[o] = (self.q(r, 'origin'), a)
                return
            vals = {x: (self.q(nxt[x], 'origin'), a) for x in args}

    def outs(self, n):
        M = self.M
        return [self.q(n, 'output', i) for i in range(self.q(n, 'noutputs'))]

    def bound(self, sub, act):
        M = self.M
        a = Act(sub, act, {})
        rest = []
        for i in range(self.q(sub, 'narguments')):
            x = self.q(sub, 'argument', i)
            inp = self.q(x, 'input')
            if inp is not None:
                a.args[x] = self.value(self.q(inp, 'origin'), act)
            else:
                rest.append(x)
        return a, rest

    def lam(self, n, act):
        M = self.M
        sub = self.q(n, 'subregion', 0)
        a, params = self.bound(sub, act)
        lvl = self.fresh
        self.fresh += 1
        for i, x in enumerate(params):
            a.args[x] = self.term('param', lvl, i)
        rs = []
        try:
            self.reached(a)
            entered = True
        except Stop:
            entered = False
        for i in range(self.q(sub, 'nresults')):
            try:
                if not entered:
                    raise Stop()
                rs.append(self.value(self.q(self.q(sub, 'result', i), 'origin'), a))
            except Stop:
                self.endless = True
                rs.append(self.term('endless'))
                self.fresh = lvl + 1
        self.fresh = lvl
        t = self.term('lambda', self.q(self.q(n, 'GetOperation'), 'name'), tuple(rs))
        self.shape_of[t] = (n, act, None)
        return t

    def phi(self, n, act):
        M = self.M
        sub = self.q(n, 'subregion', 0)
        a, recs = self.bound(sub, act)
        lvl = self.fresh
        self.fresh += 1
        res = [self.q(sub, 'result', i) for i in range(self.q(sub, 'nresults'))]
        outs = self.outs(n)
        by = {self.q(r, 'output'): r for r in res}
        names = {}
        for i, x in enumerate(recs):
            # the definition that the recursive reference stands for has the same index
            o = self.q(by[outs[i]], 'origin')
            names[i] = self.q(self.q(self.q(o, 'node'), 'GetOperation'), 'name') if M.isa(o, R + 'NodeOutput') else '?'
            a.args[x] = self.term('rec', lvl, names[i])
        rs = [self.value(self.q(by[o], 'origin'), a) for o in outs]
        self.fresh -= 1
        uses = [self.recs_of(r, lvl) for r in rs]
        for i, o in enumerate(outs):
            reach, todo = {names[i]}, [i]
            while todo:
                for u in uses[todo.pop()]:
                    for j, nm in names.items():
                        if nm == u and nm not in reach:
                            reach.add(nm)
                            todo.append(j)
            t = act.memo[o] = self.term('phi', names[i], tuple(sorted((names[j], rs[j]) for j in names if names[j] in reach)))
            fix = self.q(by[o], 'origin')
            if M.isa(fix, R + 'NodeOutput') and M.isa(self.q(fix, 'node'), R + 'LambdaNode'):
                self.shape_of[t] = (n, act, fix)

    def recs_of(self, t, lvl):
        """the recursive references of one phi in a term"""
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if type(x) is tuple:
                todo += x
                continue
            if type(x) is not int or x in seen:
                continue
            seen.add(x)
            y = self.back[x]
            if y[0] == 'rec':
                if y[1] == lvl:
                    out.add(y[2])
            elif y[0] == 'op':
                todo += y[3]
            elif y[0] in ('lambda', 'delta'):
                todo += y[2:]
            elif y[0] == 'phi':
                todo += [r for _, r in y[2]]
            elif y[0] == 'match':
                todo.append(y[1])
        return out

    def delta(self, n, act):
        M = self.M
        sub = self.q(n, 'subregion', 0)
        a, _ = self.bound(sub, act)
        r = self.value(self.q(self.q(sub, 'result', 0), 'origin'), a)
        act.memo[self.q(n, 'output', 0)] = self.term('delta', self.q(self.q(n, 'GetOperation'), 'name'), r)


class Act:
    """one activation of a region"""

    def __init__(self, region, parent, args):
        self.region, self.parent, self.args = region, parent, args
        self.memo, self.lazy, self.active = {}, {}, set()
        self.depth = parent.depth if parent is not None else 0


def census(M, g):
    """the shape of a graph: what every region contains, in no particular order"""
    def region(r):
        out = []
        for c in M.iterate(M.do(r, 'Nodes')):
            n = c.v if type(c) is Cell else c
            o = M.do(n, 'GetOperation')
            name = o.f[o.cls, 'name'].v if o.cls.startswith('opaque::') else o.cls
            subs = tuple(region(M.do(n, 'subregion', i)) for i in range(M.do(n, 'nsubregions'))) if M.isa(n, R + 'StructuralNode') else ()
            out.append((name, M.do(n, 'ninputs'), M.do(n, 'noutputs'),
                        tuple(M.do(M.do(n, 'output', i), 'nusers') for i in range(M.do(n, 'noutputs'))), subs))
        return (M.do(r, 'narguments'), M.do(r, 'nresults'), tuple(sorted(out, key=repr)))
    return region(M.do(g, 'GetRootRegion'))


# ---- consistency of the data structure

def consistent(M, g):
    """every problem with the bookkeeping of a graph"""
    bad = []
    seen_nodes, seen_in, outs = [], [], []

    def out(o, region):
        if getattr(o, 'dead', False):
            bad.append('a deleted output is still attached')
        outs.append(o)

    def inp(i):
        if getattr(i, 'dead', False):
            bad.append('a deleted input is still attached')
        seen_in.append(i)

    def region(r, depth):
        n = M.do(r, 'narguments')
        for i in range(n):
            a = M.do(r, 'argument', i)
            if M.do(a, 'index') != i:
                bad.append('argument %d has index %s' % (i, M.do(a, 'index')))
            if M.do(a, 'region') is not r:
                bad.append('argument %d is of another region' % i)
            out(a, r)
        for i in range(M.do(r, 'nresults')):
            x = M.do(r, 'result', i)
            if M.do(x, 'index') != i:
                bad.append('result %d has index %s' % (i, M.do(x, 'index')))
            if M.do(x, 'region') is not r:
                bad.append('result %d is of another region' % i)
            inp(x)
        nodes = [c for c in M.iterate(M.do(r, 'Nodes'))]
        nodes = [c.v if type(c) is Cell else c for c in nodes]
        if len(nodes) != M.do(r, 'numNodes'):
            bad.append('numNodes() is wrong')
        top = [c.v if type(c) is Cell else c for c in M.iterate(M.do(r, 'TopNodes'))]
        bot = [c.v if type(c) is Cell else c for c in M.iterate(M.do(r, 'BottomNodes'))]
        for n in nodes:
            if n.dead:
                bad.append('a deleted node is still in its region')
                continue
            if M.do(n, 'region') is not r:
                bad.append('a node is in the list of another region')
            seen_nodes.append(n)
            ni, no = M.do(n, 'ninputs'), M.do(n, 'noutputs')
            if (ni == 0) != (n in top):
                bad.append('the list of top nodes is wrong')
            dead = all(M.do(M.do(n, 'output', i), 'nusers') == 0 for i in range(no))
            if dead != (n in bot):
                bad.append('the list of bottom nodes is wrong')
            for i in range(ni):
                x = M.do(n, 'input', i)
                if M.do(x, 'index') != i:
                    bad.append('input %d has index %s' % (i, M.do(x, 'index')))
                inp(x)
            for i in range(no):
                x = M.do(n, 'output', i)
                if M.do(x, 'index') != i:
                    bad.append('output %d has index %s' % (i, M.do(x, 'index')))
                out(x, r)
            if M.isa(n, R + 'StructuralNode'):
                for i in range(M.do(n, 'nsubregions')):
                    region(M.do(n, 'subregion', i), depth + 1)
        if len(set(map(id, top))) != len(top) or len(top) != M.do(r, 'numTopNodes'):
            bad.append('the number of top nodes is wrong')
        if len(set(map(id, bot))) != len(bot) or len(bot) != M.do(r, 'numBottomNodes'):
            bad.append('the number of bottom nodes is wrong')
        for n in top + bot:
            if n not in nodes:
                bad.append('a top or bottom node is not in its region')
    region(M.do(g, 'GetRootRegion'), 0)
    uses = {}
    known = {id(o) for o in outs}
    for i in seen_in:
        o = M.do(i, 'origin')
        if id(o) not in known:
            bad.append('an input has an origin that is not in the graph')
        uses.setdefault(id(o), []).append(i)
    for o in outs:
        us = [c.v if type(c) is Cell else c for c in M.iterate(M.do(o, 'Users'))]
        want = uses.get(id(o), [])
        if {id(x) for x in us} != {id(x) for x in want} or len(us) != len(want) or M.do(o, 'nusers') != len(want):
            bad.append('the users of an output are wrong')
    return bad


# ---- what is needed

def needed(M, g):
    """the outputs that the exports of a graph depend on"""
    D = M.do
    live, todo = set(), []

    def need(o):
        if o not in live:
            live.add(o)
            todo.append(o)
    root = D(g, 'GetRootRegion')
    for i in range(D(root, 'nresults')):
        need(D(D(root, 'result', i), 'origin'))
    while todo:
        o = todo.pop()
        if M.isa(o, R + 'RegionArgument'):
            rg = D(o, 'region')
            if rg is root:
                continue
            n = D(rg, 'node')
            inp = D(o, 'input')
            if inp is not None:
                need(D(inp, 'origin'))
                if M.isa(n, R + 'ThetaNode'):
                    need(D(n, 'output', D(inp, 'index')))
            elif M.isa(n, R + 'PhiNode'):
                recs = [a for a in (D(rg, 'argument', i) for i in range(D(rg, 'narguments'))) if D(a, 'input') is None]
                need(D(n, 'output', recs.index(o)))
            elif M.isa(n, R + 'GammaNode'):
                need(D(D(n, 'input', 0), 'origin'))
            continue
        n = D(o, 'node')
        if M.isa(n, R + 'SimpleNode'):
            for i in range(D(n, 'ninputs')):
                need(D(D(n, 'input', i), 'origin'))
            continue
        every = M.isa(n, R + 'LambdaNode') or M.isa(n, R + 'DeltaNode')
        if M.isa(n, R + 'GammaNode'):
            need(D(D(n, 'input', 0), 'origin'))
        for k in range(D(n, 'nsubregions')):
            sub = D(n, 'subregion', k)
            for i in range(D(sub, 'nresults')):
                r = D(sub, 'result', i)
                if every or D(r, 'output') is o or D(r, 'output') is None:
                    need(D(r, 'origin'))
        if M.isa(n, R + 'ThetaNode'):
            need(D(D(n, 'input', D(o, 'index')), 'origin'))
    return live


def superfluous(M, g):
    """a node that nothing needs, if there is one"""
    live = needed(M, g)

    def region(r):
        for c in M.iterate(M.do(r, 'Nodes')):
            n = c.v if type(c) is Cell else c
            outs = [M.do(n, 'output', i) for i in range(M.do(n, 'noutputs'))]
            o = M.do(n, 'GetOperation')
            if not any(x in live for x in outs):
                return o.f[o.cls, 'name'].v if o.cls.startswith('opaque::') else o.cls.rsplit('::', 1)[-1]
            if M.isa(n, R + 'StructuralNode'):
                if not M.isa(n, R + 'LambdaNode') and not M.isa(n, R + 'DeltaNode') and not all(x in live for x in outs):
                    return 'an output of ' + o.cls.rsplit('::', 1)[-1]
                for i in range(M.do(n, 'nsubregions')):
                    x = region(M.do(n, 'subregion', i))
                    if x:
                        return x
    return region(M.do(g, 'GetRootRegion'))


def duplicate(M, g, cls=None):
    """two simple nodes of a region with the same operation and the same operands, if there are any"""
    def region(r):
        seen = {}
        for c in M.iterate(M.do(r, 'Nodes')):
            n = c.v if type(c) is Cell else c
            if M.isa(n, R + 'SimpleNode'):
                o = M.do(n, 'GetOperation')
                if o.cls == L + 'AllocaOperation' or not any(M.do(M.do(n, 'output', i), 'nusers') for i in range(M.do(n, 'noutputs'))):
                    continue
                ins = tuple(id(M.do(M.do(n, 'input', i), 'origin')) for i in range(M.do(n, 'ninputs')))
                k = ((o.f[o.cls, 'name'].v,) + tuple(M.structure(x) for x in types(o)) if o.cls.startswith('opaque::') else M.structure(o), ins)
                if k in seen:
                    return str(k[0][0])
                seen[k] = n
            else:
                for i in range(M.do(n, 'nsubregions')):
                    x = region(M.do(n, 'subregion', i))
                    if x:
                        return x

    def types(o):
        return [c.v for f in M.op_fields for c in o.f[R + 'SimpleOperation', f].v.c]
    return region(M.do(g, 'GetRootRegion'))
