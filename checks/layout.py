"""C21: the sizes, alignments and offsets the compiler assumes are those of the target.

The functions are interpreted on a family of types and constant address computations; the oracle is LLVM's data layout of the
target (x86-64), stated here from the LLVM language reference."""
import random

from sa.facts import AnalysisBroken
from sa.machine import Cell, Obj, Thrown, Vec
from sa.report import *
from sa.shapes import L, R, Shape

from .passes import factor, judge, sweep

FP = {'half': 16, 'flt': 32, 'dbl': 64, 'x86fp80': 80, 'fp128': 128}
PTRS = 'std::shared_ptr<const jlm::rvsdg::Type>'


# ---- the oracle: a type is ('int', bits), ('fp', kind), ('ptr',), ('arr', n, t), ('vec', n, t), ('struct', packed, ts)
def up(n, a):
    return -(-n // a) * a


def pow2(n):
    return 1 << max(0, n - 1).bit_length()


def bits(t):
    return t[1] if t[0] == 'int' else FP[t[1]] if t[0] == 'fp' else 64


def store(t):
    if t[0] in ('int', 'fp', 'ptr'):
        return (bits(t) + 7) // 8
    if t[0] == 'vec':
        return (t[1] * bits(t[2]) + 7) // 8
    if t[0] == 'arr':
        return t[1] * alloc(t[2])
    return up(fields(t)[1], align(t))


def align(t):
    if t[0] == 'int':
        return min(16, pow2(store(t)))
    if t[0] in ('fp', 'ptr', 'vec'):
        return pow2(store(t))
    if t[0] == 'arr':
        return align(t[2])
    return 1 if t[1] else max([1] + [align(x) for x in t[2]])


def alloc(t):
    return up(store(t), align(t))


def fields(t):
    offs, o = [], 0
    for x in t[2]:
        o = up(o, 1 if t[1] else align(x))
        offs.append(o)
        o += alloc(x)
    return offs, o


def offset(t, indices):
    """of the element a constant address computation leads to"""
    o = indices[0] * alloc(t)
    for i in indices[1:]:
        if t[0] == 'struct':
            o += fields(t)[0][i]
            t = t[2][i]
        else:
            o += i * (alloc(t[2]) if t[0] == 'arr' else store(t[2]))
            t = t[2]
    return o


def show(t):
    if t[0] == 'int':
        return 'i%d' % t[1]
    if t[0] in ('fp', 'ptr'):
        return t[-1]
    if t[0] == 'struct':
        return ('<{%s}>' if t[1] else '{%s}') % ', '.join(map(show, t[2]))
    return ('[%d x %s]' if t[0] == 'arr' else '<%d x %s>') % (t[1], show(t[2]))


# ---- the family
WIDTHS = (1, 7, 8, 9, 16, 24, 32, 33, 48, 64, 65, 96, 127, 128, 129, 256, 300)
SCALARS = [('int', n) for n in WIDTHS] + [('fp', f) for f in FP] + [('ptr',)]


def random_type(rng, depth):
    k = rng.random()
    if depth == 0 or k < .25:
        return rng.choice(SCALARS)
    if k < .4:
        return ('vec', rng.choice((1, 2, 3, 4, 7, 8, 16)), rng.choice(SCALARS))
    if k < .6:
        return ('arr', rng.randrange(6), random_type(rng, depth - 1))
    return ('struct', rng.random() < .35, tuple(random_type(rng, depth - 1) for _ in range(rng.randrange(5))))


def types(n):
    yield from SCALARS
    for s in SCALARS:
        for m in (1, 2, 3, 5, 8):
            yield ('vec', m, s)
        yield ('arr', 3, s)
        for p in (False, True):
            yield ('struct', p, (('int', 8), s))
            yield ('struct', p, (s, ('int', 8)))
            yield ('struct', p, (('int', 16), s, ('int', 1), s))
    yield ('struct', False, ())
    yield ('struct', True, ())
    rng = random.Random(11)
    for _ in range(n):
        yield random_type(rng, 4)


def index(rng, t):
    """a path of indices into a type; None if there is none"""
    out, first = [rng.choice((0, 0, 1, 2, -1, 5))], t
    while t[0] in ('arr', 'vec', 'struct') and rng.random() < .85:
        if t[0] == 'struct':
            if not t[2]:
                break
            i = rng.randrange(len(t[2]))
            out.append(i)
            t = t[2][i]
        else:
            if t[0] == 'vec' and bits(t[2]) % 8:
                break       # not addressable
            out.append(rng.choice((0, 1, 2, 3, -1)))
            t = t[2]
    return out, t


# ---- the repository's functions
def build(s, t):
    M = s.M
    if t[0] == 'int':
        return s.bit(t[1])
    if t[0] == 'fp':
        return M.run(L + 'FloatingPointType::Create', s.enum('jlm::llvm::fpsize', t[1]))
    if t[0] == 'ptr':
        return s.ty(L + 'PointerType')
    if t[0] == 'arr':
        return M.run(L + 'ArrayType::Create', build(s, t[2]), t[1])
    if t[0] == 'vec':
        return M.run(L + 'FixedVectorType::Create', build(s, t[2]), t[1])
    return M.run(L + 'StructType::CreateLiteral', s.vec([build(s, x) for x in t[2]], PTRS), t[1])


def signed(x):
    return x - (1 << 64) if x >= 1 << 63 else x


def sizes(M, t):
    s = Shape(M)
    x = build(s, t)
    for f, w in (('GetTypeStoreSize', store(t)), ('GetTypeAllocSize', alloc(t)), ('GetTypeAlignment', align(t))):
        got = M.run(L + f, x)
        if got != w:
            return '%s is %s for %s and should be %d' % (f, got, show(t), w), True
    if t[0] == 'struct':
        for i, w in enumerate(fields(t)[0]):
            got = M.do(x, 'GetFieldOffset', i)
            if got != w:
                return 'the offset of field %d of %s is %s and should be %d' % (i, show(t), got, w), True
    return None, True


def addresses(M, m):
    """a chain of constant address computations"""
    rng = random.Random(m[1])
    s = Shape(M)
    want, steps = 0, []
    p = M.run(R + 'GraphImport::Create', s.g, s.ty(L + 'PointerType'), 'p')
    base = p
    for _ in range(rng.randrange(1, 4)):
        t = random_type(rng, 3)
        ix, _ = index(rng, t)
        w = [rng.choice((32, 64)) for _ in ix]
        u = t
        for n, i in enumerate(ix[1:], 1):
            if u[0] == 'struct':
                w[n] = 32
                u = u[2][i]
            else:
                u = u[2]
        ops = [bare(M.do(M.run(L + 'IntegerConstantOperation::Create', s.root, w[n], i, n=3), 'output', 0)) for n, i in enumerate(ix)]
        p = bare(M.run(L + 'GetElementPtrOperation::create', p, s.vec(ops, 'jlm::rvsdg::Output *'), build(s, t)))
        want += offset(t, ix)
        steps.append('%s %s' % (show(t), ix))
    what = 'of %s' % ' then '.join(steps)
    got = M.run(L + 'TracePointerOriginPrecise', p)
    if bare(got.f[got.cls, 'BasePointer'].v) is not bare(base):
        return 'the base address %s is not found' % what, True
    o = bare(M.do(got, 'getOffsetInBytes'))
    o = bare(o.c) if o is not None and hasattr(o, 'c') else o
    if o is None or signed(o % (1 << 64)) != want:
        return 'the offset %s is %s and should be %d' % (what, o, want), True
    return None, True


def bare(x):
    return getattr(x, 'v', x)


def layout(P, rep):
    rep.rule('type/size', 'for every type of the family, GetTypeStoreSize, GetTypeAllocSize, GetTypeAlignment and '
             'StructType::GetFieldOffset give what the data layout of the target gives')
    rep.rule('address/offset', 'for every chain of constant address computations of the family, tracing finds the base address '
             'and an offset that is what LLVM computes')
    ts = list(dict.fromkeys(types(1200 * factor())))
    f = P.by_q.get(L + 'GetTypeStoreSize', [None])[0]
    g = P.by_q.get(L + 'GetElementPtrOperation::Constant::getOffsetInBytes', [None])[0]
    if not f or not g:
        raise AnalysisBroken('GetTypeStoreSize or getOffsetInBytes not found')
    judge(rep, P, 'type/size', sweep(P, [(show(t), i) for i, t in enumerate(ts)], lambda M, m: sizes(M, ts[m[1]])), (f.file, f.line), 'type')
    judge(rep, P, 'address/offset', sweep(P, [('chain', i) for i in range(800 * factor())], addresses), (g.file, g.line), 'computation')
    rep.floor('type/size', 900)
    rep.floor('address/offset', 700)


CHECKS = {'C21': layout}
