"""C11: constant folding and comparison normalizations compute what the operation computes.

Every normalization of an integer, conversion, match, comparison or address operation is interpreted on all kinds of
operands: constants at the borders of their ranges, unknown values, equal values. What it returns is evaluated for the values
the unknown operands may have, and compared with the meaning of the operation in LLVM."""
import itertools

from sa.facts import AnalysisBroken
from sa.machine import Cell, Map, Opt, Thrown, Tup
from sa.report import *
from sa.shapes import Shape
from checks.backend import NS, RV, k, vec
from checks.graph import node, op, out
from checks.normalize import A, ALLOCA, Bad, CNT, P0, PT, names, nm, short
from checks.passes import sweep

BVR = RV + 'BitValueRepresentation'
INT = NS + 'IntegerConstantOperation'
FT = ('atom', 'ft')


def mask(w):
    return (1 << w) - 1


def signed(w, v):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def bv(w, v):
    return ('bv', k(w), k(v & mask(w)))


def sdiv(w, a, b):
    a, b = signed(w, a), signed(w, b)
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def srem(w, a, b):
    a, b = signed(w, a), signed(w, b)
    r = abs(a) % abs(b)
    return -r if a < 0 else r


COMPARE = dict(eq=lambda w, a, b: a == b, ne=lambda w, a, b: a != b, ult=lambda w, a, b: a < b, ule=lambda w, a, b: a <= b,
               ugt=lambda w, a, b: a > b, uge=lambda w, a, b: a >= b, slt=lambda w, a, b: signed(w, a) < signed(w, b),
               sle=lambda w, a, b: signed(w, a) <= signed(w, b), sgt=lambda w, a, b: signed(w, a) > signed(w, b),
               sge=lambda w, a, b: signed(w, a) >= signed(w, b))
WORD = {'add': lambda w, a, b: a + b, 'sub': lambda w, a, b: a - b, 'mul': lambda w, a, b: a * b, 'land': lambda w, a, b: a & b,
        'lor': lambda w, a, b: a | b, 'lxor': lambda w, a, b: a ^ b,
        'udiv': lambda w, a, b: a // b if b else mask(w), 'umod': lambda w, a, b: a % b if b else a,
        'sdiv': lambda w, a, b: sdiv(w, a, b) if b else 0, 'smod': lambda w, a, b: srem(w, a, b) if b else a}
SHIFT = {'shl': lambda w, a, n: a << n if n < w else 0, 'shr': lambda w, a, n: a >> n,
         'ashr': lambda w, a, n: signed(w, a) >> min(n, w)}


class Concrete:
    """operands as a graph of the interpreter; what a function makes of them as terms again
    sc: types {atom: type}, trace {atom: the output it is an invariant copy of}, imports {atom: (linkage, function?)}"""

    def __init__(self, M, sc):
        self.M, self.s, self.sc = M, Shape(M), sc
        self.objs, self.terms = {}, {}

    def type(self, t):
        s = self.s
        if t == FT:
            return s.fun([s.bit(32)], [s.bit(32)])
        return s.bit(width(t)) if t[1] == RV + 'BitType' else s.ty(t[1])

    def vec(self, xs):
        return self.s.vec(xs, 'jlm::rvsdg::Output *')

    def out(self, x):
        r = self.objs.get(x)
        if r is None:
            M, s = self.M, self.s
            t = self.sc.get('trace', {}).get(x)
            if t is not None:
                r = s.theta([self.out(t)], lambda sub, a: (None, a))[0][0]
            elif x[0] == 'out':
                r = self.node(x[1])
            elif x in self.sc.get('imports', {}):
                link, fun = self.sc['imports'][x]
                ft = self.type(FT)
                r = M.run(NS + 'LlvmGraphImport::create', s.g, ft if fun else s.bit(32), ft if fun else self.type(PT), x[1],
                          s.enum(NS + 'Linkage', link), 0, 0, 4, n=8)
            else:
                r = s.imp(self.type(self.sc.get('types', {}).get(x, ATOM_TYPES.get(x))), x[1])
            r = getattr(r, 'v', r)
            self.objs[x] = r
            self.terms.setdefault(id(r), x)
        return r

    def node(self, n):
        M, s = self.M, self.s
        c = n[1][1].rsplit('::', 1)[-1]
        if c == 'LlvmDeltaOperation':
            return s.delta('D', s.bit(32), [], lambda sub, _: M.do(M.run(NS + 'IntegerConstantOperation::Create', sub, 32, 1, n=3), 'output', 0))[0]
        if c == 'LlvmLambdaOperation':
            return s.lam('F', [s.bit(32)], [s.bit(32)], [], lambda sub, a, _: a)[0]
        ins = [self.out(x) for x in n[2]]
        if c == 'AllocaOperation':
            return M.do(M.run(ALLOCA + '::createNode', s.bit(32), ins[0], 4), 'output', 0)
        x = M.run(RV + 'SimpleNode::Create', s.root, self.make(n[1], ins), self.vec(ins), n=3)
        return M.do(x, 'output', 0)

    def make(self, o, ins):
        """an operation"""
        M, s = self.M, self.s
        cls, a = o[1:3]
        c = cls.rsplit('::', 1)[-1]
        if c == 'IntegerConstantOperation':
            w, v = a[0][1][1], a[0][2][1]
            return M.new(cls, M.new(BVR, ''.join('01'[v >> i & 1] for i in range(w))))
        if c in BINARY:
            return M.new(cls, a[0][1])
        if c in CONVERT:
            return M.new(cls, self.type(a[0]), self.type(a[1]))
        if c == 'MatchOperation':
            m = Map('std::unordered_map<unsigned long, unsigned long>')
            for x, y in a[1][1]:
                M.insert(m, Tup([Cell(x), Cell(y)], 'std::pair<const unsigned long, unsigned long>'))
            return M.new(cls, a[0][1], m, a[2][1], a[3][1])
        if c == 'PtrCmpOperation':
            return M.new(cls, self.type(PT), s.enum(NS + 'ICmpPredicate', a[1][1].rsplit('::', 1)[-1]))
        if c == 'ConstantPointerNullOperation':
            return M.new(cls)
        if c == 'FunctionToPointerOperation':
            return M.new(cls, self.type(FT))
        if c == 'GetElementPtrOperation':
            return M.new(cls, self.type(PT), s.vec([s.type_of(x) for x in ins[1:]], 'std::shared_ptr<const jlm::rvsdg::Type>'), s.bit(32),
                         self.type(PT))
        raise AnalysisBroken('no construction for ' + cls)

    # ---- reading
    def term(self, o):
        o = getattr(o, 'v', o)
        x = self.terms.get(id(o))
        if x is None:
            M = self.M
            if not M.isa(o, RV + 'NodeOutput'):
                raise Bad('an output that is none of a node replaces the result')
            n = M.do(o, 'node')
            ins = tuple(self.term(M.do(M.do(n, 'input', i), 'origin')) for i in range(M.do(n, 'ninputs')))
            x = out(('gnode', self.opterm(M.do(n, 'GetOperation')), ins, 'new'), M.do(o, 'index'))
            self.terms[id(o)] = x
        return x

    def opterm(self, o):
        M = self.M
        c = o.cls.rsplit('::', 1)[-1]
        if c == 'IntegerConstantOperation':
            b = M.do(M.do(o, 'Representation'), 'str')
            if set(b) - set('01'):
                raise Bad('the constant %s is no number' % b)
            return op(o.cls, bv(len(b), int(b[::-1], 2)))
        if c == 'ControlConstantOperation':
            v = M.do(o, 'value')
            return op(o.cls, (k(M.do(v, 'alternative')), k(M.do(v, 'nalternatives'))))
        if c in BINARY:
            return op(o.cls, k(M.do(M.do(o, 'argument', 0), 'nbits')))
        if c in CONVERT:
            return op(o.cls, *[bits(M.do(M.do(o, x, 0), 'nbits')) for x in ('argument', 'result')])
        return op(o.cls)


def run(M, f, o, operands, sc):
    """what a normalization gives: None or the terms that replace the results"""
    g = Concrete(M, sc)
    ins = [g.out(x) for x in operands]
    op = g.make(o, ins)
    M.run(RV + 'SimpleNode::Create', g.s.root, op, g.vec(ins), n=3)
    v = content(M.call(f, [op, g.vec(ins)], None))
    return None if v is None else tuple(g.term(x.v) for x in v.c)


def content(r):
    """what is in an optional"""
    if isinstance(r, Cell):
        r = r.v
    if isinstance(r, Opt):
        r = r.c
    return r.v if isinstance(r, Cell) else r


def exact(M):
    """the long arithmetic of bit strings: that it is right is decided by C12"""
    for name in ('mul', 'udiv', 'umod', 'sdiv', 'smod'):
        def native(M, d, a, name=name, q=BVR + '::' + name):
            if len(a) != 2:
                return M.call(M.fn(q, len(a) - 1), a[1:], getattr(a[0], 'v', a[0]))
            x, y = (M.do(getattr(z, 'v', z), 'str') for z in a)
            if len(x) != len(y) or set(x + y) - set('01'):
                return M.call(M.fn(q, 1), a[1:], getattr(a[0], 'v', a[0]))
            w = len(x)
            r = WORD[name](w, int(x[::-1], 2), int(y[::-1], 2)) & mask(w)
            return M.new(BVR, ''.join('01'[r >> i & 1] for i in range(w)))
        M.natives[BVR + '::' + name] = native


def const(w, v):
    return out(node(op(INT, bv(w, v))))


def value(x, given):
    """(width, value) of an output"""
    if x in given:
        return given[x]
    if x[0] == 'out' and x[1][0] == 'gnode':
        o, a = x[1][1], x[1][2]
        c = o[1].rsplit('::', 1)[-1]
        if c == 'IntegerConstantOperation':
            return o[2][0][1][1], o[2][0][2][1]
        if c == 'ControlConstantOperation':
            return ('control', o[2][0][1][1]), o[2][0][0][1]
        if c in BINARY and len(a) == 2:
            w, p = value(a[0], given)
            return apply(c, w, p, value(a[1], given)[1])
        if c in CONVERT and len(a) == 1:
            return convert(c, width(o[2][1]), *value(a[0], given))
    raise Bad('%s is no constant' % nm(x))


# the meaning of the operations in LLVM; None: undefined
BINARY = {'Integer%sOperation' % n: m for n, m in dict(
    Eq='eq', Ne='ne', Sge='sge', Sgt='sgt', Sle='sle', Slt='slt', Uge='uge', Ugt='ugt', Ule='ule', Ult='ult', Add='add', Sub='sub',
    Mul='mul', SDiv='sdiv', UDiv='udiv', SRem='smod', URem='umod', AShr='ashr', Shl='shl', LShr='shr', And='land', Or='lor',
    Xor='lxor').items()}
CONVERT = ('SExtOperation', 'ZExtOperation', 'TruncOperation')


def apply(cls, w, a, b):
    m = BINARY[cls]
    if m in COMPARE:
        return 1, int(COMPARE[m](w, a, b))
    if m in SHIFT:
        return (w, SHIFT[m](w, a, b) & mask(w)) if b < w else (w, None)
    if 'div' in m or 'mod' in m:
        if b == 0 or m[0] == 's' and a == 1 << (w - 1) and b == mask(w) and w > 0:
            return w, None
    return w, WORD[m](w, a, b) & mask(w)


def convert(cls, to, w, v):
    return to, (signed(w, v) if cls == 'SExtOperation' else v) & mask(to)


def width(t):
    return t[2][0][1]


def bits(w):
    return ('ctor', RV + 'BitType', (k(w),))


def borders(w):
    return sorted({v & mask(w) for v in (0, 1, 2, 3, w, -1, 1 << (w - 1), (1 << (w - 1)) - 1, 1 << 64, 1 << 63, (1 << 64) - 1)})


def assignments(xs):
    """values for unknown 3-bit operands"""
    xs = list(dict.fromkeys(xs))
    for vs in itertools.product(range(8), repeat=len(xs)):
        yield {x: (3, v) for x, v in zip(xs, vs)}


X, Y = ('atom', 'x'), ('atom', 'y')
ATOM_TYPES = {CNT: bits(32), P0: PT}
_tasks = []


def normals(P, cls):
    fs = [f for f in P.funcs.values() if len(f.params) == 2 and 'optional' in (f.decl.ret or '') and 'Output *' in f.params[1][2] and
          f.params[0][2].replace('const ', '').rstrip(' &') == cls]
    if not fs:
        raise AnalysisBroken('no normalization of %s found' % cls)
    return fs


def judge(rule, f, o, operands, expect, assigns, label, sc=None, **more):
    """expect: the value of the operation for operand values, None: any"""
    sc = dict(sc or {}, **more)

    def task(M):
        try:
            r = run(M, f, o, operands, sc)
            if r is None:
                return None, False
            if len(r) != 1:
                raise Bad('%d results replace one' % len(r))
            for given in assigns:
                tr = sc.get('trace', {})
                want = expect(*[value(tr.get(x, x), given) for x in operands])
                got = value(tr.get(r[0], r[0]), given)
                if want[0] != got[0]:
                    raise Bad('the result has type %s instead of %s' % (got[0], want[0]))
                if want[1] is not None and want[1] != got[1]:
                    raise Bad('the result is %s instead of %s' % (got[1], want[1]))
        except Bad as e:
            return '%s on %s: %s' % (short(f), label, e), True
        return None, True
    _tasks.append((rule, f, label, task))


def integers(P, rep):
    for c, m in BINARY.items():
        cls = NS + c
        for f in normals(P, cls):
            for w in (1, 3, 64, 128):
                o = op(cls, k(w))
                e = lambda a, b, c=c: apply(c, a[0], a[1], b[1])
                for a, b in itertools.product(borders(w), repeat=2):
                    judge('fold/integer', f, o, (const(w, a), const(w, b)), e, [{}], 'i%d %d, %d' % (w, a, b))
            o = op(cls, k(3))
            tr = {X: const(3, 5), Y: const(3, 6)}
            judge('fold/integer', f, o, (X, Y), e, [{}], 'traced constants 5, 6', trace=tr)
            for v in range(8):
                for xs in ((X, const(3, v)), (const(3, v), X)):
                    judge('fold/integer', f, o, xs, e, list(assignments([X])), names(xs), types={X: bits(3)})
            judge('fold/integer', f, o, (X, X), e, list(assignments([X])), 'x, x', types={X: bits(3)})
            judge('fold/integer', f, o, (X, Y), e, list(assignments([X, Y])), 'x, y', types={X: bits(3), Y: bits(3)})
            judge('fold/integer', f, o, (X, Y), e, list(assignments([X])), 'x, y, both traced to x', trace={Y: X},
                       types={X: bits(3), Y: bits(3)})


def conversions(P, rep):
    for c in CONVERT:
        for f in normals(P, NS + c):
            for a, b in itertools.combinations((1, 3, 32, 64, 65, 128), 2):
                w, to = (b, a) if c.startswith('Trunc') else (a, b)
                o = op(NS + c, bits(w), bits(to))
                for v in borders(w):
                    judge('fold/conversion', f, o, (const(w, v),), lambda x, c=c, to=to: convert(c, to, *x), [{}], 'i%d %d' % (w, v))
                judge('fold/conversion', f, o, (X,), lambda x, c=c, to=to: convert(c, to, *x), [{}], 'a traced constant',
                           trace={X: const(w, 1)})
            judge('fold/conversion', f, op(NS + c, bits(3), bits(2 if c.startswith('Trunc') else 5)), (X,),
                  lambda x, c=c: convert(c, 2 if c.startswith('Trunc') else 5, *x), list(assignments([X])), 'x', types={X: bits(3)})


def matches(P, rep):
    for f in normals(P, RV + 'MatchOperation'):
        for w, m, dflt, alts in ((1, {0: 0}, 1, 2), (1, {1: 1}, 0, 2), (32, {0: 2, 7: 1, mask(32): 0}, 2, 3), (64, {mask(64): 1, 5: 0}, 2, 4),
                                 (128, {1: 0, mask(64): 1}, 2, 3)):
            o = op(RV + 'MatchOperation', k(w), ('mapping', tuple(m.items())), k(dflt), k(alts))
            e = lambda x, m=m, dflt=dflt, alts=alts: (('control', alts), m.get(x[1], dflt))
            for v in sorted(set(borders(w)) | set(m) | ({1 | 1 << 64, mask(w)} if w > 64 else set())):
                judge('fold/match', f, o, (const(w, v),), e, [{}], 'i%d %d' % (w, v))
            judge('fold/match', f, o, (X,), e, [{}], 'a traced constant', trace={X: const(w, 1)})
        judge('fold/match', f, op(RV + 'MatchOperation', k(3), ('mapping', ((1, 1), (2, 2))), k(0), k(3)), (X,),
              lambda x: (('control', 3), x[1] if x[1] < 3 else 0), list(assignments([X])), 'x', types={X: bits(3)})


def pointers(P, rep):
    """comparisons with null"""
    null = out(node(op('ConstantPointerNullOperation', PT)))
    D = node(op('LlvmDeltaOperation', ('atom', 'i32')), tag='D')
    F = node(op('LlvmLambdaOperation'), tag='F')
    imp, weak, fimp, fn = (('atom', x) for x in ('imp', 'weak', 'fimp', 'fn'))
    fp = lambda x: out(node(op('FunctionToPointerOperation', FT), x))
    imports = {imp: ('externalLinkage', False), fimp: ('externalLinkage', True), weak: ('externalWeakLinkage', False)}
    # the values as addresses: 0 null, others not; a set of possible values
    possible = {out(A): (1,), out(D): (1,), imp: (1,), fp(out(F)): (1,), weak: (0, 1), P0: (0, 1), null: (0,), fp(fimp): (1,), fp(fn): (0, 1)}
    for f in normals(P, NS + 'PtrCmpOperation'):
        for p in ('Eq', 'Ne', 'Ugt', 'Uge', 'Ult', 'Ule', 'Sgt', 'Sge', 'Slt', 'Sle'):
            o = op('PtrCmpOperation', PT, ('enum', NS + 'ICmpPredicate::' + p))
            for a, b in itertools.product(possible, repeat=2):
                for tr in ({}, {X: a, Y: b}):
                    assigns = [{a: (64, u), b: (64, v)} for u in possible[a] for v in possible[b] if a != b or u == v]
                    sc = dict(trace=tr, imports=imports, types={fn: FT})
                    e = lambda x, y, p=p: (1, COMPARE[p.lower()](64, x[1], y[1])) if p[0] not in 'US' else (1, None)
                    judge('fold/null', f, o, (X, Y) if tr else (a, b), e, assigns, '%s %s' % (p, names((a, b))), sc)


def conv(c, w, to, x):
    return out(node(op(c + 'Operation', bits(w), bits(to)), x))


def constants():
    """outputs whose value is known: (label, output, trace)"""
    for w in (1, 3, 32, 64, 128):
        for v in borders(w):
            yield const(w, v)
    for c, w, to in (('SExt', 1, 32), ('SExt', 3, 64), ('ZExt', 1, 32), ('ZExt', 3, 64), ('ZExt', 32, 64), ('SExt', 32, 64), ('Trunc', 32, 1),
                     ('Trunc', 64, 3), ('Trunc', 64, 32), ('SExt', 32, 128), ('ZExt', 32, 128)):
        for v in borders(w) + [8, 256]:
            yield conv(c, w, to, const(w, v))
    for v in (5, mask(64)):
        yield conv('SExt', 65, 128, conv('ZExt', 64, 65, const(64, v)))
        yield conv('ZExt', 65, 128, conv('SExt', 64, 65, const(64, v)))
        yield conv('Trunc', 128, 65, conv('ZExt', 64, 128, const(64, v)))
    for v in (5, 12):
        yield conv('SExt', 3, 64, conv('Trunc', 32, 3, const(32, v)))
        yield conv('ZExt', 3, 64, conv('Trunc', 32, 3, const(32, v)))
        yield conv('Trunc', 64, 2, conv('SExt', 3, 64, conv('Trunc', 32, 3, const(32, v))))


def addresses(P, rep):
    """indices that are recognized as constants"""
    f = P.fn(NS + 'tryGetConstantSignedInteger')
    for x in list(constants()) + [X, conv('SExt', 3, 64, X)]:
        for tr in ({}, {Y: x}):
            def task(M, x=x, tr=tr):
                g = Concrete(M, dict(trace=tr, types={X: bits(3), Y: bits(64)}))
                r = content(M.call(f, [g.out(Y if tr else x)], None))
                if r is None:
                    return None, False
                try:
                    w, v = value(x, {})
                    if signed(w, v) != r:
                        raise Bad('is taken for %d instead of %d' % (r, signed(w, v)))
                except Bad as e:
                    e = str(e) if 'taken' in str(e) else 'is taken for %d' % r
                    return '%s: %s %s' % (short(f), describe(x), e), True
                return None, True
            _tasks.append(('fold/constant', f, describe(x), task))
    for f2 in normals(P, NS + 'GetElementPtrOperation'):
        zero, one, zt = const(32, 0), const(64, 1), conv('Trunc', 64, 3, const(64, 8))
        for size in (0, 1, 2, 3):
            big = tuple(const(64, 1 << n) for n in (8, 16, 31, 32, 63)) if size < 3 else ()
            for ix in itertools.product((zero, const(64, 0), one, const(1, 1), zt, X, conv('SExt', 3, 64, X)) + big, repeat=size):
                if size == 3 and X in ix:
                    continue
                def task(M, ix=ix, f2=f2):
                    o = op('GetElementPtrOperation')
                    bad = None
                    try:
                        r = run(M, f2, o, (P0,) + ix, dict(types={X: bits(3)}))
                    except Bad as e:
                        return '%s on indices %s: %s' % (short(f2), ', '.join(map(describe, ix)), e), True
                    if r is None:
                        return None, False
                    if r != (P0,):
                        bad = 'the address is replaced by ' + names(r)
                    elif any(value(x, g)[1] for g in assignments([X]) for x in ix):
                        bad = 'the address is replaced by its base'
                    return bad and '%s on indices %s: %s' % (short(f2), ', '.join(map(describe, ix)), bad), True
                _tasks.append(('fold/address', f2, 'indices', task))


def describe(x):
    if x[0] == 'out' and x[1][2]:
        return '%s(%s)' % (x[1][1][1].rsplit('::', 1)[-1].replace('Operation', ''), describe(x[1][2][0]))
    try:
        return 'i%s %s' % value(x, {})
    except Bad:
        return nm(x)


def check(P, rep):
    rep.rule('fold/constant', 'the value of an output that is traced to a constant is the value that output has')
    rep.rule('fold/address', 'an address computation is only replaced by its base if all of its indices are zero')
    rep.rule('fold/integer', 'the normalizations of integer operations return the value the operation has in LLVM')
    rep.rule('fold/conversion', 'the normalizations of sext, zext and trunc return the converted value')
    rep.rule('fold/match', 'a match of a constant is replaced by the alternative of that constant')
    rep.rule('fold/null', 'a comparison with null is only replaced by the value it has for every address the operands can have')
    _tasks.clear()
    integers(P, rep)
    conversions(P, rep)
    matches(P, rep)
    pointers(P, rep)
    addresses(P, rep)
    told, undecided, fired = set(), [], set()
    for (i, _), kd, msg, did in sweep(P, [(i, 0) for i in range(len(_tasks))], lambda M, m: _tasks[m[0]][3](M), exact):
        rule, f, label, _ = _tasks[i]
        if kd == 'B':
            undecided.append('%s on %s: %s' % (short(f), label, msg))
            continue
        if kd == 'E':
            msg = '%s on %s: the normalization fails: %s' % (short(f), label, msg)
        if did and f.q not in fired:
            fired.add(f.q)
            rep.site(rule, short(f))
        if kd in 'VE' and f.q not in told:
            told.add(f.q)
            rep.violation(rule, short(f), f.file, f.line, msg)
    rep.note('%d cases decided' % (len(_tasks) - len(undecided)))
    if undecided:
        rep.note('%d cases undecided, e.g. %s' % (len(undecided), undecided[0]))
        if 2 * len(undecided) > len(_tasks):
            rep.broken.append(undecided[0])
    for r, n in (('integer', 24), ('conversion', 3), ('match', 1), ('null', 1), ('constant', 1), ('address', 1)):
        rep.floor('fold/' + r, n)


CHECKS = {'C11': check}
