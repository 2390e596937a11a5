"""C12: bit strings compute the arithmetic their operations are named after.

Every public method of the bit string representation is interpreted with all bits of its operands unknown, at every width up
to a bound, by an abstract interpreter whose scalars are functions of the input bits; the result is a function from operand
bits to result bits, which has to be the function the method's name stands for. Widths around 64 are covered with operands
at the borders of their ranges."""
import itertools

from sa.facts import AnalysisBroken
from sa.report import *
from sa.values import Cell, G, I, Obj, Thrown, Unknown, Values, Vec, clean
from checks.backend import RV
from checks.folding import COMPARE, SHIFT, WORD, mask, signed

BVR = RV + 'BitValueRepresentation'
UTIL = 'jlm::util::'


class Differs(Exception):
    pass


def size(n):
    return I(n, 64, False)


def chars(xs):
    return Vec([Cell(I(x, 8, True)) for x in xs])


def string(w, v):
    return ''.join('01'[v >> i & 1] for i in range(w))


class Run:
    def __init__(self, P, bits=0):
        self.P, self.V = P, Values(P, bits)
        c = P.cls(BVR)
        fs = [f for f in c.fields if clean(f[1]).startswith('std::vector<char')]
        if len(c.fields) != 1 or len(fs) != 1:
            raise AnalysisBroken('%s is not a vector of bits any more' % BVR)
        self.field = fs[0][0]

    def obj(self, bits):
        o = Obj(BVR)
        o.fields[self.field] = Cell(chars(bits))
        return o

    def const(self, w, v):
        return self.obj([48 + (v >> i & 1) for i in range(w)])

    def text(self, s):
        return self.obj([ord(c) for c in s])

    def unknown(self, w, first=0):
        return self.obj([self.V.bit(first + i) for i in range(w)])

    def choice(self, w, values):
        """one of the values, by the input"""
        out = []
        for i in range(w):
            t = sum(1 << a for a, v in enumerate(values) if v >> i & 1)
            z = self.V.all & ~t
            out.append(G(((48, z), (49, t))) if t and z else 49 if t else 48)
        return self.obj(out)

    def bits(self, o):
        if isinstance(o, Cell):
            o = o.v
        if not isinstance(o, Obj) or o.cls != BVR:
            raise Unknown('no bit string returned: %r' % o)
        return [c.v.v for c in o.fields[self.field].v.cells]

    def results(self, f, this, args):
        """(input, result) for every input; the result is a number, a text of bits, or 'throws'"""
        n = 1 << self.V.bits
        out = [None] * n
        for pc, r in self.V.paths(lambda: self.V.apply(f, [copy_of(a) for a in args], copy_of(this))):
            r = r.v if isinstance(r, Cell) else r
            if isinstance(r, Obj):
                bs = self.bits(r)
                alts = [b if type(b) is G else None for b in bs]
                for a in range(n):
                    if pc >> a & 1:
                        out[a] = ''.join(chr(at(b, a)) for b in bs)
            elif isinstance(r, Vec):
                for a in range(n):
                    if pc >> a & 1:
                        out[a] = ''.join(chr(at(c.v.v, a)) for c in r.cells)
            else:
                for a in range(n):
                    if pc >> a & 1:
                        out[a] = 'throws' if isinstance(r, Thrown) else 'nothing' if r is None else at(r.v, a)
        return out


def copy_of(x):
    from sa.values import copy
    return copy(x)


def at(v, a):
    if type(v) is not G:
        return v
    for x, t in v.alts:
        if t >> a & 1:
            return x
    raise AnalysisBroken('a value is not known for all inputs')


def method(P, name, ptypes, cls=BVR):
    """the public method with parameters of these types"""
    fs = [f for f in P.by_q.get(cls + '::' + name, []) if len(f.params) == len(ptypes) and f.body and
          all(t in p[2] if t != 'char' else clean(p[2]) == 'char' for t, p in zip(ptypes, f.params))]
    if len(fs) != 1:
        raise AnalysisBroken('%d definitions of %s::%s found' % (len(fs), cls, name))
    return fs[0]


def differ(f, what, got, want):
    raise Differs('%s gives %s instead of %s' % (what, got, want))


def word(P, name, rep, rule, f=None, spec=None, widths=(1, 2, 3, 4), large=True):
    """a binary operation on two bit strings of one width"""
    f = f or method(P, name, ['BitValueRepresentation'])
    spec = spec or COMPARE.get(name) or WORD[name]
    cmp = name in COMPARE
    for w in widths:
        R = Run(P, 2 * w)
        for a, r in enumerate(R.results(f, R.unknown(w), [R.unknown(w, w)])):
            x, y = a & mask(w), a >> w
            if y == 0 and name in DIVIDE:
                continue
            want = 48 + spec(w, x, y) if cmp else string(w, spec(w, x, y))
            if r != want:
                differ(f, '%s(%s, %s)' % (name, string(w, x), string(w, y)), show(r), show(want))
    if large:
        for w in (5, 31, 64, 65, 130):
            vs = [0, 1, 3, mask(w), 1 << w - 1, mask(w - 1), (1 << w - 1) + 1, 0x5a5a5a5a5a5a5a5a5a % (1 << w)]
            if name in COSTLY:
                if w > 5 and name not in COSTLY[:3] or w > 65:
                    continue
                if w > 5:
                    vs = vs[1:2] + vs[3:4] + vs[7:]
            pairs = [(x, y) for x in vs for y in vs if y or name not in DIVIDE]
            if w > 5 and name in DIVIDE:
                if w != 64:
                    continue
                pairs = [(vs[-1], 3), (mask(w), vs[-1])]
            bits = (len(pairs) - 1).bit_length()
            pairs += [pairs[0]] * ((1 << bits) - len(pairs))
            R = Run(P, bits)
            for (x, y), r in zip(pairs, R.results(f, R.choice(w, [x for x, _ in pairs]), [R.choice(w, [y for _, y in pairs])])):
                want = 48 + spec(w, x, y) if cmp else string(w, spec(w, x, y))
                if r != want:
                    differ(f, 'on %d bits, %s(%#x, %#x)' % (w, name, x, y), show(r), show(want))
    return f


DIVIDE = ('udiv', 'umod', 'sdiv', 'smod')
COSTLY = ('mul', 'udiv', 'sdiv', 'umod', 'smod', 'umulh', 'smulh')


def show(x):
    if type(x) is int and 32 <= x < 127:
        return chr(x)
    return str(x)


def partial(P, name):
    """known results for operands with bits that are not known: valid for all completions"""
    f = method(P, name, ['BitValueRepresentation'])
    spec = COMPARE.get(name) or WORD[name]
    R = Run(P)
    for w in (1, 2):
        for x in itertools.product('01D', repeat=w):
            for y in itertools.product('01D', repeat=w):
                if 'D' not in x + y:
                    continue
                r = R.results(f, R.text(x), [R.text(y)])[0]
                all_ = set()
                for c in itertools.product('01', repeat=(x + y).count('D')):
                    it = iter(c)
                    z = [next(it) if b == 'D' else b for b in x + y]
                    v = spec(w, int(''.join(z[:w])[::-1], 2), int(''.join(z[w:])[::-1], 2))
                    all_.add(str(int(v)) if name in COMPARE else string(w, v))
                for i, b in enumerate(chr(r) if type(r) is int else r):
                    if b in '01' and any(v[i] != b for v in all_):
                        differ(f, '%s(%s, %s)' % (name, ''.join(x), ''.join(y)), show(r), 'an undetermined value')
    return f


def unary(P, name, spec, widths=range(1, 8)):
    f = method(P, name, [])
    for w in widths:
        R = Run(P, w)
        for a, r in enumerate(R.results(f, R.unknown(w), [])):
            want = spec(w, a)
            if r != want:
                differ(f, '%s(%s)' % (name, string(w, a)), show(r), show(want))
    R = Run(P)
    for w in (63, 64, 65, 129):
        for v in (0, 1, mask(w), 1 << w - 1, mask(w - 1), mask(63), mask(64) & mask(w), 1 << min(w, 64) - 1, mask(w) - mask(63),
                  mask(w) & ~mask(62)):
            r, want = R.results(f, R.const(w, v), [])[0], spec(w, v)
            if r != want:
                differ(f, 'on %d bits, %s(%#x)' % (w, name, v), show(r), show(want))
    return f


def sized(P, name, spec, args, widths=range(1, 6)):
    """methods with numeric arguments"""
    f = method(P, name, ['unsigned long'] * len(args(1)[0]))
    for w in widths:
        R = Run(P, w)
        for ns in args(w):
            for a, r in enumerate(R.results(f, R.unknown(w), [size(n) for n in ns])):
                want = spec(w, a, *ns)
                if want is not None and r != want:
                    differ(f, '%s(%s, %s)' % (name, string(w, a), ', '.join(map(str, ns))), show(r), show(want))
    R = Run(P)
    for w in (64, 65):
        for v in (1, mask(w), 1 << w - 1, 0x5a5a5a5a5a5a5a5a5a % (1 << w)):
            for ns in args(w)[::7] if len(args(w)) > 200 else args(w):
                r, want = R.results(f, R.const(w, v), [size(n) for n in ns])[0], spec(w, v, *ns)
                if want is not None and r != want:
                    differ(f, 'on %d bits, %s(%#x, %s)' % (w, name, v, ', '.join(map(str, ns))), show(r), show(want))
    return f


def to_uint(w, v):
    return v if v < 1 << 64 else 'throws'


def to_int(w, v):
    v = signed(w, v)
    return v if -(1 << 63) <= v < 1 << 63 else 'throws'


def constructor(P):
    f = method(P, '<ctor>', ['unsigned long', 'long']) if BVR + '::<ctor>' in P.by_q else method(P, BVR.rsplit('::', 1)[-1], ['unsigned long', 'long'])
    R = Run(P)
    for w in (0, 1, 2, 3, 8, 31, 32, 63, 64, 65, 100):
        vs = {0, 1, -1, 2, -2, 5, (1 << 63) - 1, -(1 << 63), (1 << 31) - 1, 1 << 31, -(1 << 31)}
        for d in (-1, 0, 1):
            for k in (w, w - 1):
                if 0 <= k < 63:
                    vs |= {(1 << k) + d, -(1 << k) + d}
        for v in sorted(vs):
            if w < 64 and w and v >> w not in (0, -1) or not w:
                want = 'throws'
            else:
                want = string(w, v & mask(w))
            r = built(R, f, [size(w), I(v, 64, True)])
            if r != want:
                differ(f, 'the bit string of %d in %d bits' % (v, w), r, want)
    return f


def built(R, f, args):
    try:
        (_, o), = R.V.paths(lambda: R.V.construct(BVR, f.decl, args, None))
    except ValueError:
        raise Unknown('several paths')
    return 'throws' if isinstance(o, Thrown) else ''.join(map(chr, R.bits(o)))


def from_text(P):
    name = '<ctor>' if BVR + '::<ctor>' in P.by_q else BVR.rsplit('::', 1)[-1]
    f = method(P, name, ['char *'])
    R = Run(P)
    from sa.values import Ptr
    for s in ('', '0', '1', 'X', 'D', '2', '01', '10', 'DX10', '0a', '1101001', '0 '):
        r = built(R, f, [Ptr(chars(map(ord, s)), 0)])
        want = s if s and set(s) <= set('01XD') else 'throws'
        if r != want:
            differ(f, 'the bit string of "%s"' % s, r, want)
    g = method(P, name, ['char'])
    for c in '01XDY2':
        r = built(R, g, [I(ord(c), 8, True)])
        want = c if c in '01XD' else 'throws'
        if r != want:
            differ(g, "the bit string of '%s'" % c, r, want)
    h = method(P, 'repeat', ['unsigned long', 'char'])
    for n in (1, 2, 7, 65):
        for c in '01XD':
            r = R.results(h, None, [size(n), I(ord(c), 8, True)])[0]
            if r != c * n:
                differ(h, '%d times %s' % (n, c), r, c * n)
    return f


def several(P):
    """concatenation of a list"""
    f = method(P, 'create', ['vector'])
    R = Run(P, 4)
    for ws in ((1,), (3,), (1, 3), (2, 1), (1, 1, 2), (2, 2)):
        vs, n = [], 0
        for w in ws:
            vs.append(R.unknown(w, n))
            n += w
        v = Vec([Cell(x) for x in vs], BVR)
        for a, r in enumerate(R.results(f, None, [v])):
            if r != string(n, a & mask(n)):
                differ(f, 'concatenating %s bits' % ', '.join(map(str, ws)), r, string(n, a & mask(n)))
    return f


def concat(P):
    f = method(P, 'concat', ['BitValueRepresentation'])
    for a, b in ((1, 1), (1, 3), (3, 1), (2, 2)):
        R = Run(P, a + b)
        for x, r in enumerate(R.results(f, R.unknown(a), [R.unknown(b, a)])):
            if r != string(a + b, x):
                differ(f, 'concat(%s, %s)' % (string(a, x & mask(a)), string(b, x >> a)), r, string(a + b, x))
    g = method(P, 'Append', ['BitValueRepresentation'])
    R = Run(P, 4)
    o = [None]

    def go():
        o[0] = R.unknown(1)
        R.V.apply(g, [R.unknown(3, 1)], o[0])
        return o[0]
    for pc, r in R.V.paths(go):
        bs = R.bits(r)
        for a in range(16):
            got = ''.join(chr(at(b, a)) for b in bs)
            if got != string(4, a):
                differ(g, 'appending', got, string(4, a))
    return f


def equality(P):
    for neg, name in ((0, 'operator=='), (1, 'operator!=')):
        f = method(P, name, ['BitValueRepresentation'])
        R = Run(P, 4)
        for a, r in enumerate(R.results(f, R.unknown(2), [R.unknown(2, 2)])):
            if r != ((a & 3) == a >> 2) ^ neg:
                differ(f, '%s %s %s' % (string(2, a & 3), name[8:], string(2, a >> 2)), r, 1 - r)
        for a, r in enumerate(R.results(f, R.unknown(2), [R.unknown(1, 2)])):
            if r != neg:
                differ(f, 'comparing different widths', r, neg)
        g = method(P, name, ['long'])
        R = Run(P, 3)
        for v in range(-4, 8):
            for a, r in enumerate(R.results(g, R.unknown(3), [I(v, 64, True)])):
                if r != (a == v & 7) ^ neg:
                    differ(g, '%s %s %d' % (string(3, a), name[8:], v), r, 1 - r)
        h = method(P, name, ['basic_string'])
        for s in ('000', '101', '01', '1101', '001'):
            for a, r in enumerate(R.results(h, R.unknown(3), [chars(map(ord, s))])):
                if r != (string(3, a) == s) ^ neg:
                    differ(h, '%s %s %s' % (string(3, a), name[8:], s), r, 1 - r)
    return f


def flags(P):
    R = Run(P)
    for s in ('0', '1', 'X', 'D', '00', '0X', 'D1', 'XD', '101', '1D1', 'X01', '011'):
        for name, want in (('is_known', not set(s) & set('XD')), ('is_defined', 'X' not in s), ('is_negative', s[-1] == '1'),
                           ('sign', ord(s[-1])), ('nbits', len(s)), ('str', s)):
            f = method(P, name, [])
            r = R.results(f, R.text(s), [])[0]
            if r != want:
                differ(f, '%s of %s' % (name, s), show(r), show(want))
    f = next(f for f in P.by_q.get(BVR + '::operator[]', ()) if f.body)
    for i in range(3):
        r = R.results(f, R.text('01D'), [size(i)])[0]
        if r != ord('01D'[i]):
            differ(f, 'bit %d of 01D' % i, show(r), '01D'[i])
    return f


def slices(w):
    return [(a, b) for a in range(w + 2) for b in range(w + 2)]


REDUCE = {'reduce_' + x: x for x in ('add', 'mul', 'sub', 'udiv', 'umod', 'sdiv', 'smod', *COMPARE)}
REDUCE.update(reduce_and='land', reduce_or='lor', reduce_xor='lxor', reduce_umulh='umulh', reduce_smulh='smulh')
WORD2 = dict(WORD, umulh=lambda w, a, b: a * b >> w, smulh=lambda w, a, b: signed(w, a) * signed(w, b) >> w)


def reduction(P, f):
    """the constant reduction of a bit operation class"""
    import re
    m = re.search(r'reduce_(\w+)', f.cls)
    x = m and m.group(0)
    what = f.cls.rsplit('::', 1)[-1]
    this = Obj(f.cls)
    if f.name == 'reduce_constant':
        spec = {'reduce_neg': lambda w, a: -a, 'reduce_not': lambda w, a: ~a}.get(x)
        if spec is None:
            return False
        for w in (1, 2, 3, 4):
            R = Run(P, w)
            for a, r in enumerate(R.results(f, this, [R.unknown(w)])):
                want = string(w, spec(w, a) & mask(w))
                if r != want:
                    differ(f, '%s on %s' % (what, string(w, a)), r, want)
        return True
    shift = {'reduce_shl': 'shl', 'reduce_shr': 'shr', 'reduce_ashr': 'ashr'}.get(x)
    name = shift or REDUCE.get(x)
    if name is None:
        return False
    spec = SHIFT[shift] if shift else COMPARE.get(name) or WORD2[name]
    enum = {v: n.rsplit('::', 1)[-1] for n, v in P.enumvalue.items() if n.startswith(RV + 'compare_result::')}
    for w in (1, 2, 3):
        R = Run(P, 2 * w)
        for a, r in enumerate(R.results(f, this, [R.unknown(w), R.unknown(w, w)])):
            p, q = a & mask(w), a >> w
            if q == 0 and name in DIVIDE:
                continue
            v = spec(w, p, q)
            want = ('static_true' if v else 'static_false') if name in COMPARE else string(w, v & mask(w))
            r = enum.get(r, enum.get(str(r), r)) if name in COMPARE else r
            if r != want:
                differ(f, '%s on %s, %s' % (what, string(w, p), string(w, q)), r, want)
    return True


def functions(P, q, spec, args, floor=1):
    """all instances of a function on numbers; spec gets the parameter types too"""
    fs = [f for f in P.by_q.get(q, []) if not f.dependent and f.body]
    if not fs:
        raise AnalysisBroken('no instance of %s found' % q)
    V = Values(P)
    from sa.values import WIDTH, wrap
    for f in fs:
        tys = [WIDTH.get(clean(p[2])) for p in f.params]
        if None in tys:
            raise AnalysisBroken('%s takes %s' % (q, f.params))
        for a in args:
            if any(wrap(x, *t) != x for x, t in zip(a, tys)):
                continue
            want = spec(tys, *a)
            if want is None:
                continue
            for _, r in V.paths(lambda: V.call(f, [I(x, *t) for x, t in zip(a, tys)])):
                got = 'throws' if isinstance(r, Thrown) else r.v
                if got != want:
                    differ(f, '%s(%s)' % (q.rsplit('::', 1)[-1], ', '.join(map(str, a))), got, want)
    return fs[0]


def power(tys, v):
    if v <= 1:
        return 1
    r = 1 << (v - 1).bit_length()
    w, s = tys[0]
    return r if r < 1 << (w - s) else None


def multiple(tys, v, m):
    r = -(-v // m) * m
    w, s = tys[0]
    return r if r < 1 << (w - s) and abs(v) + m < 1 << (w - s) else None


NUMBERS = sorted({x for k in range(0, 64) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | set(range(-3, 40)) | {-(1 << 63), -(1 << 31)})


def check(P, rep):
    rep.rule('arith/word', 'a binary operation or comparison of bit strings computes the function of its name')
    rep.rule('arith/part', 'unary operations, shifts, extensions, slices, concatenation and conversions to and from numbers are exact')
    rep.rule('arith/partial', 'a bit that is known though operand bits are not has this value for all values of the operand bits')
    rep.rule('arith/reduce', 'the constant reduction of a bit operation computes its operation')
    rep.rule('arith/number', 'the numeric helpers compute the function of their name')

    def one(rule, name, g):
        try:
            f = g()
            rep.site(rule, name)
        except Differs as e:
            fs = P.by_q.get(name) or P.by_q.get(BVR + '::' + name) or [P.fn(BVR + '::to_uint')]
            rep.violation(rule, name, fs[0].file, fs[0].line, str(e))

    for name in list(COMPARE) + list(WORD2):
        one('arith/word', name, lambda: word(P, name, rep, 'arith/word', spec=COMPARE.get(name) or WORD2[name],
                                             widths=(1, 2, 3) if name in ('umulh', 'smulh') else (1, 2, 3, 4)))
    for name in list(COMPARE) + ['land', 'lor', 'lxor', 'add']:
        one('arith/partial', name, lambda: partial(P, name))
    one('arith/part', 'neg', lambda: unary(P, 'neg', lambda w, a: string(w, -a & mask(w))))
    one('arith/part', 'lnot', lambda: unary(P, 'lnot', lambda w, a: string(w, ~a & mask(w))))
    one('arith/part', 'to_uint', lambda: unary(P, 'to_uint', to_uint, range(1, 6)))
    one('arith/part', 'to_int', lambda: unary(P, 'to_int', to_int, range(1, 6)))
    for name in SHIFT:
        one('arith/part', name, lambda: sized(P, name, lambda w, a, n: string(w, SHIFT[name](w, a, n) & mask(w)),
                                              lambda w: [(n,) for n in range(w + 3)]))
    one('arith/part', 'zext', lambda: sized(P, 'zext', lambda w, a, n: string(w + n, a), lambda w: [(n,) for n in range(w + 3)]))
    one('arith/part', 'sext', lambda: sized(P, 'sext', lambda w, a, n: string(w + n, signed(w, a) & mask(w + n)),
                                            lambda w: [(n,) for n in range(w + 3)]))
    one('arith/part', 'trunc', lambda: sized(P, 'trunc', lambda w, a, n: string(n, a & mask(n)) if 0 < n <= w else 'throws',
                                             lambda w: [(n,) for n in range(w + 2)]))
    one('arith/part', 'slice', lambda: sized(P, 'slice', lambda w, a, l, h: string(h - l, a >> l & mask(h - l)) if l < h <= w else 'throws',
                                             slices))
    one('arith/part', 'constructor', lambda: constructor(P))
    one('arith/part', 'text', lambda: from_text(P))
    one('arith/part', 'create', lambda: several(P))
    one('arith/part', 'concat', lambda: concat(P))
    one('arith/part', 'equality', lambda: equality(P))
    one('arith/part', 'flags', lambda: flags(P))
    for f in sorted(P.funcs.values(), key=lambda f: f.q):
        if f.name in ('reduce_constant', 'reduce_constants') and f.body and not f.dependent and f.file.startswith('jlm/rvsdg/'):
            try:
                if reduction(P, f):
                    rep.site('arith/reduce', f.cls)
            except Differs as e:
                rep.violation('arith/reduce', f.cls, f.file, f.line, str(e))
    for q, spec, args in (
            ('log2Floor', lambda t, v: v.bit_length() - 1 if v > 0 else -1, [(v,) for v in NUMBERS]),
            ('RoundUpToPowerOf2', power, [(v,) for v in NUMBERS]),
            ('RoundUpToMultipleOf', multiple, [(v, m) for v in NUMBERS for m in (1, 2, 3, 4, 8, 10, 16) if abs(v) < 1 << 40]),
            ('truncateAndSignExtend', lambda t, v, n: signed(n, v & mask(n)),
             [(v, n) for v in NUMBERS for n in (1, 2, 5, 8, 31, 32, 33, 63, 64)]),
            ('truncateAndZeroExtend', lambda t, v, n: signed(64, v & mask(n)),
             [(v, n) for v in NUMBERS for n in (1, 2, 5, 8, 31, 32, 33, 63, 64)])):
        one('arith/number', UTIL + q, lambda: functions(P, UTIL + q, spec, args))
    rep.floor('arith/word', 20)
    rep.floor('arith/part', 17)
    rep.floor('arith/reduce', 20)


CHECKS = {'C12': check}
