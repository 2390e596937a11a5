"""Abstract interpreter for functions on scalars, vectors and strings.

A scalar is a typed integer whose value may depend on unknown input bits: a guarded value lists the integers it can have and,
for each, the set of inputs under which it has it (a bit set over all assignments of the input bits). Operations are lifted
pointwise; a branch on a guarded value is explored for both outcomes, each under the inputs that lead there. So one run covers
every input at once, and what a function computes is obtained as a function of its input bits."""
from sa.facts import AnalysisBroken


class Thrown(Exception):
    """a C++ exception or a failed assertion"""


class Unknown(AnalysisBroken):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class G:
    """a guarded value: ((value, inputs), ...)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'G' + repr(self.alts)


WIDTH = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
         'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
         'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}


class I:
    """a scalar of a type"""
    __slots__ = ('v', 'w', 's')

    def __init__(self, v, w, s):
        self.v, self.w, self.s = v, w, s

    def __repr__(self):
        return '%s:%s%d' % (self.v, 'i' if self.s else 'u', self.w)


class Frame:
    __slots__ = ('func', 'env', 'this')

    def __init__(self, func, env, this):
        self.func, self.env, self.this = func, env, this


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Vec:
    """a vector or string"""
    __slots__ = ('cells', 'elem')

    def __init__(self, cells, elem='char'):
        self.cells, self.elem = cells, elem


class Obj:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls):
        self.cls, self.fields = cls, {}


class Ptr:
    """a pointer or iterator into a vector, or to a cell"""
    __slots__ = ('vec', 'i', 'rev')

    def __init__(self, vec, i, rev=False):
        self.vec, self.i, self.rev = vec, i, rev


class Closure:
    __slots__ = ('node', 'env', 'this')

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


def copy(v):
    if isinstance(v, Vec):
        return Vec([Cell(copy(c.v)) for c in v.cells], v.elem)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.fields = {k: Cell(copy(c.v)) for k, c in v.fields.items()}
        return o
    return v


def wrap(v, w, s):
    if w == 1 and not s:
        return int(v != 0)
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def clean(ty):
    ty = ty.strip()
    while ty.startswith(('const ', 'volatile ')):
        ty = ty.split(' ', 1)[1]
    return ty.rstrip('&').rstrip().removesuffix(' const')


def elem_of(cls):
    """the element type of a vector class"""
    if cls.startswith('std::basic_string'):
        return 'char'
    d, out = 0, ''
    for ch in cls[cls.index('<') + 1:]:
        if ch == ',' and d == 0:
            break
        d += ch == '<'
        d -= ch == '>'
        if d < 0:
            break
        out += ch
    return out.strip()


VECS = ('std::vector<', 'std::basic_string', 'std::array<', 'std::deque<')
STEPS = 3000000


class Values:
    def __init__(self, P, bits=0, hook=None):
        self.P, self.bits, self.hook = P, bits, hook
        self.all = (1 << (1 << bits)) - 1
        self.memo = {}
        self.calls = set()

    # ---- inputs
    def var(self, i):
        """the set of inputs whose i-th bit is one"""
        n = 1 << self.bits
        t = 0
        for a in range(n):
            if a >> i & 1:
                t |= 1 << a
        return t

    def bit(self, i, zero=48, one=49):
        t = self.var(i)
        return G(((zero, self.all & ~t), (one, t)))

    # ---- paths
    def paths(self, f):
        """all runs of f(): (inputs, result or Thrown)"""
        out, todo = [], [()]
        while todo:
            self.decisions, self.taken, self.pc, self.steps = list(todo.pop()), [], self.all, 0
            try:
                r = f()
            except Thrown as e:
                r = e
            out.append((self.pc, r))
            if len(out) > 20000:
                raise AnalysisBroken('too many paths')
            for n in range(len(self.decisions), len(self.taken)):
                todo.append(tuple(self.taken[:n]) + (not self.taken[n],))
        return out

    def alternatives(self, v):
        """the values v can have on this path"""
        if type(v) is not G:
            return ((v, self.pc),)
        return tuple((x, t & self.pc) for x, t in v.alts if t & self.pc)

    def simplify(self, v):
        if type(v) is G:
            a = self.alternatives(v)
            if len(a) == 1:
                return a[0][0]
        return v

    def decide(self, v):
        """branch on a boolean"""
        yes = no = 0
        for x, t in self.alternatives(v):
            if x:
                yes |= t
            else:
                no |= t
        if not no:
            return True
        if not yes:
            return False
        n = len(self.taken)
        c = self.decisions[n] if n < len(self.decisions) else True
        self.taken.append(c)
        self.pc = yes if c else no
        return c

    def concrete(self, v):
        """pick the value of v, exploring all of them"""
        alts = self.alternatives(v)
        for x, t in alts[:-1]:
            if self.decide(G(((1, t), (0, self.all & ~t)))):
                return x
        return alts[-1][0]

    def lift(self, f, *vs):
        if not any(type(v) is G for v in vs):
            return f(*vs)
        res = {}
        todo = [((), self.pc)]
        for v in vs:
            todo = [(xs + (x,), t & u) for xs, t in todo for x, u in self.alternatives(v) if t & u]
        for xs, t in todo:
            r = f(*xs)
            res[r] = res.get(r, 0) | t
        if len(res) > 4096:
            raise AnalysisBroken('a value depends on too many inputs')
        return next(iter(res)) if len(res) == 1 else G(tuple(res.items()))

    # ---- scalars
    def num(self, x, what='number'):
        if isinstance(x, Cell):
            x = x.v
        if not isinstance(x, I):
            raise Unknown('%s expected, got %r' % (what, x))
        return x

    def int(self, x):
        return self.concrete(self.num(x).v)

    def conv(self, x, ty):
        """convert to a declared type"""
        t = clean(ty)
        if isinstance(x, I) and t in WIDTH:
            w, s = WIDTH[t]
            if (x.w, x.s) == (w, s):
                return x
            return I(self.lift(lambda v: wrap(v, w, s), x.v), w, s)
        return x

    def promote(self, x):
        return x if x.w >= 32 else I(x.v, 32, True)

    def arith(self, op, a, b):
        a, b = self.promote(self.num(a)), self.promote(self.num(b))
        if op in ('<<', '>>'):
            w, s = a.w, a.s
        else:
            w = max(a.w, b.w)
            s = all(x.s for x in (a, b) if x.w == w)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            def cmp(x, y):
                x, y = wrap(x, w, s), wrap(y, w, s)
                return int({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            return I(self.lift(cmp, a.v, b.v), 1, False)

        def f(x, y):
            if op in ('<<', '>>'):
                if not 0 <= y < w:
                    raise Thrown('shift by %d' % y)
                return wrap(x << y if op == '<<' else x >> y, w, s)
            x, y = wrap(x, w, s), wrap(y, w, s)
            if op in ('/', '%'):
                if y == 0:
                    raise Thrown('division by zero')
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                return wrap(q if op == '/' else x - q * y, w, s)
            return wrap({'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op], w, s)
        return I(self.lift(f, a.v, b.v), w, s)

    def bool(self, b):
        return I(int(b), 1, False)

    def truth(self, x):
        if isinstance(x, Ptr):
            return True
        return self.decide(self.num(x, 'condition').v)

    # ---- functions
    def call(self, f, args, this=None):
        """f on values (for references: cells)"""
        self.steps += 1
        if self.steps > STEPS:
            raise AnalysisBroken('%s does not end' % f.q)
        env = {}
        for i, (vid, name, ty) in enumerate(f.params):
            if i >= len(args):
                raise Unknown('%s: missing argument' % f.q)
            a = args[i]
            if ty.endswith('&'):
                env[vid] = a if isinstance(a, Cell) else Cell(self.conv(a, ty))
            else:
                v = a.v if isinstance(a, Cell) else a
                env[vid] = Cell(self.conv(copy(v), ty))
        self.calls.add(f.key)
        fr = Frame(f, env, this)
        try:
            self.stmt(f.body, fr)
        except Return as r:
            v = r.v
            if not f.decl.ret.endswith('&'):
                v = v.v if isinstance(v, Cell) else v
                v = self.conv(copy(v) if isinstance(v, (Vec, Obj)) else v, f.decl.ret)
            return v
        return None

    def apply(self, f, args, this=None):
        """a call; a function of scalars alone is tabulated"""
        scal = [a.v if isinstance(a, Cell) else a for a in args]
        if scal and all(isinstance(x, I) for x in scal) and clean(f.decl.ret) in WIDTH and \
                not any(p[2].endswith('&') and not p[2].startswith('const ') for p in f.params) and \
                any(type(x.v) is G for x in scal) and self.pure(f):
            def one(*vs):
                key = (f.key, vs)
                if key not in self.memo:
                    self.memo[key] = self.call(f, [I(v, x.w, x.s) for v, x in zip(vs, scal)], this).v
                return self.memo[key]
            w, s = WIDTH[clean(f.decl.ret)]
            return I(self.lift(one, *[x.v for x in scal]), w, s)
        return self.call(f, args, this)

    def pure(self, f):
        """no use of the object or of anything but the parameters"""
        k = ('pure', f.key)
        if k not in self.memo:
            from sa.facts import walk
            self.memo[k] = True
            for n in walk(f.body):
                if n[0] == 'mem' or n[0] in ('throw', 'gvar') or n[0] == 'call' and n[1].q == '__assert_fail':
                    self.memo[k] = False
                if n[0] == 'call':
                    g = self.P.body_of(n[1])
                    if g is None or not self.pure(g):
                        self.memo[k] = False
        return self.memo[k]

    def construct(self, cls, decl, args, fr):
        o = Obj(cls)
        f = self.P.body_of(decl) if decl is not None else None
        if f is None:
            c = self.P.classes.get(cls)
            if c is None or args:
                raise Unknown('constructor %s' % decl)
            for name, ty, *_ in c.fields:
                o.fields[name] = Cell(self.default(ty))
            return o
        env = {}
        for i, (vid, name, ty) in enumerate(f.params):
            a = args[i]
            env[vid] = (a if isinstance(a, Cell) else Cell(a)) if ty.endswith('&') else Cell(self.conv(copy(a.v if isinstance(a, Cell) else a), ty))
        c = self.P.classes.get(cls)
        for name, ty, *_ in (c.fields if c else ()):
            o.fields[name] = Cell(self.default(ty))
        fr2 = Frame(f, env, o)
        for i in f.inits:
            if i[0] == 'f':
                ty = next((x[1] for x in c.fields if x[0] == i[1]), '')
                v = self.ev(i[2], fr2)
                if ty.endswith('&'):
                    o.fields[i[1]] = v
                else:
                    o.fields[i[1]] = Cell(self.conv(copy(self.val(v)), ty))
            elif i[0] == 'd':
                v = self.val(self.ev(i[2], fr2))
                o.fields = v.fields
            else:
                v = self.val(self.ev(i[2], fr2))
                if isinstance(v, Obj):
                    o.fields.update(v.fields)
        try:
            if f.body:
                self.stmt(f.body, fr2)
        except Return:
            pass
        return o

    def default(self, ty):
        t = clean(ty)
        if t in WIDTH:
            return I(0, *WIDTH[t])
        if t.startswith(VECS):
            return Vec([], elem_of(t))
        return None

    def val(self, x):
        return x.v if isinstance(x, Cell) else x

    # ---- statements
    def stmt(self, n, fr):
        if not n:
            return
        k = n[0]
        if k == 'block':
            for x in n[1]:
                self.stmt(x, fr)
        elif k == 'expr':
            self.ev(n[2], fr)
        elif k == 'decls':
            for d in n[1]:
                if d[0] == 'decl':
                    self.declare(d, fr)
        else:
            m = getattr(self, 's_' + k, None)
            if m is None:
                raise Unknown('statement %s' % k)
            m(n, fr)

    def declare(self, d, fr):
        vid, name, ty, init = d[1], d[2], d[3], d[4]
        if not init:
            fr.env[vid] = Cell(self.default(ty))
            return
        v = self.ev(init, fr)
        if ty.endswith('&'):
            fr.env[vid] = v if isinstance(v, Cell) else Cell(v)
        else:
            fr.env[vid] = Cell(self.conv(copy(self.val(v)), ty))

    def s_if(self, n, fr):
        _, line, init, cv, c, th, el = n
        if init:
            self.stmt(init, fr)
        if cv:
            self.declare(cv, fr)
        if self.truth(self.val(self.ev(c, fr))):
            self.stmt(th, fr)
        elif el:
            self.stmt(el, fr)

    def loop(self, fr, body, cond, inc, cv=None, first=True):
        while True:
            if cv:
                self.declare(cv, fr)
            if first and cond and not self.truth(self.val(self.ev(cond, fr))):
                return
            first = True
            self.steps += 1
            if self.steps > STEPS:
                raise Thrown('the loop does not end')
            try:
                self.stmt(body, fr)
            except Break:
                return
            except Continue:
                pass
            if inc:
                self.ev(inc, fr)

    def s_for(self, n, fr):
        _, line, init, cv, c, inc, body = n
        if init:
            self.stmt(init, fr)
        self.loop(fr, body, c, inc, cv)

    def s_while(self, n, fr):
        self.loop(fr, n[4], n[3], None, n[2])

    def s_do(self, n, fr):
        self.loop(fr, n[2], n[3], None, None, False)

    def s_rfor(self, n, fr):
        var, rng, body, init = n[2], n[3], n[4], n[5]
        if init:
            self.stmt(init, fr)
        v = self.val(self.ev(rng, fr))
        if not isinstance(v, Vec):
            raise Unknown('range of a loop')
        for c in list(v.cells):
            ref = var[3].endswith('&')
            fr.env[var[1]] = c if ref else Cell(self.conv(copy(c.v), var[3]))
            try:
                self.stmt(body, fr)
            except Break:
                return
            except Continue:
                pass

    def s_switch(self, n, fr):
        _, line, cv, c, body = n[:5]
        if cv:
            self.declare(cv, fr)
        x = self.int(self.val(self.ev(c, fr)))
        flat = []
        for st in body[1] if body and body[0] == 'block' else [body]:
            labels = []
            while st and st[0] in ('case', 'default'):
                labels.append(self.int(self.val(self.ev(st[2], fr))) if st[0] == 'case' else 'default')
                st = st[3] if st[0] == 'case' else st[2]
            flat.append((labels, st))
        start = next((i for i, (ls, _) in enumerate(flat) if x in ls), None)
        if start is None:
            start = next((i for i, (ls, _) in enumerate(flat) if 'default' in ls), None)
        if start is None:
            return
        try:
            for _, st in flat[start:]:
                self.stmt(st, fr)
        except Break:
            pass

    def s_ret(self, n, fr):
        raise Return(self.ev(n[2], fr) if n[2] else None)

    def s_break(self, n, fr):
        raise Break()

    def s_continue(self, n, fr):
        raise Continue()

    def s_throw(self, n, fr):
        raise Thrown('exception')

    # ---- expressions: a value or the cell it lives in
    def ev(self, e, fr):
        m = getattr(self, 'e_' + e[0], None)
        if m is None:
            raise Unknown('%s: expression %s' % (fr.func.q, e[0]))
        return m(e, fr)

    def rv(self, e, fr):
        return self.val(self.ev(e, fr))

    def e_int(self, e, fr):
        v = int(e[1])
        if len(e) > 2 and clean(e[2]) in WIDTH:
            return I(v, *WIDTH[clean(e[2])])
        return I(v, 32, True)

    def e_chr(self, e, fr):
        return I(e[1], 8, True)

    def e_bool(self, e, fr):
        return self.bool(e[1] in (1, True, 'true', '1'))

    def e_str(self, e, fr):
        return Ptr(Vec([Cell(I(ord(c), 8, True)) for c in e[1]]), 0)

    def e_enum(self, e, fr):
        return I(int(e[2]), 32, True)

    def e_null(self, e, fr):
        return None

    def e_zero(self, e, fr):
        return self.default(e[1])

    def e_predef(self, e, fr):
        return None

    def e_x(self, e, fr):
        return None

    def e_this(self, e, fr):
        if fr.this is None:
            raise Unknown('%s: no object' % fr.func.q)
        return Cell(fr.this)

    def e_var(self, e, fr):
        c = fr.env.get(e[1])
        if c is None:
            raise Unknown('%s: unknown variable %s' % (fr.func.q, e[2]))
        return c

    def e_mem(self, e, fr):
        o = self.rv(e[1], fr) if e[1] else fr.this
        if isinstance(o, Ptr):
            o = self.deref(o).v
        if not isinstance(o, Obj) or e[2] not in o.fields:
            raise Unknown('%s: member %s' % (fr.func.q, e[2]))
        return o.fields[e[2]]

    def deref(self, p):
        if isinstance(p, Cell):
            p = p.v
        if isinstance(p, Ptr):
            i = p.i - 1 if p.rev else p.i
            if not 0 <= i < len(p.vec.cells):
                raise Thrown('access out of range')
            return p.vec.cells[i]
        if isinstance(p, Obj):
            return Cell(p)
        raise Unknown('dereference')

    def assign(self, c, v):
        if not isinstance(c, Cell):
            raise Unknown('assignment to no variable')
        v = self.val(v)
        if isinstance(c.v, I) and isinstance(v, I):
            w, s = c.v.w, c.v.s
            c.v = I(self.lift(lambda x: wrap(x, w, s), v.v), w, s)
        elif isinstance(c.v, Vec) and isinstance(v, Vec):
            c.v.cells = copy(v).cells
        elif isinstance(c.v, Obj) and isinstance(v, Obj):
            c.v.fields = copy(v).fields
        else:
            c.v = copy(v)
        return c

    def e_asg(self, e, fr):
        op = e[1]
        r = self.rv(e[3], fr)
        c = self.ev(e[2], fr)
        if op != '=':
            r = self.pointer(op[:-1], c.v, r) if isinstance(c.v, Ptr) else self.arith(op[:-1], c.v, r)
        return self.assign(c, r)

    def pointer(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == '-':
                return I((a.i - b.i) * (-1 if a.rev else 1), 64, True)
            if op in ('==', '!='):
                return self.bool((a.vec is b.vec and a.i == b.i) == (op == '=='))
            x, y = (b.i, a.i) if a.rev else (a.i, b.i)
            return self.bool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if isinstance(b, Ptr) and op == '+':
            a, b = b, a
        k = self.int(b)
        if op == '-':
            k = -k
        return Ptr(a.vec, a.i - k if a.rev else a.i + k, a.rev)

    def quiet(self, e):
        """evaluating e has no effect and cannot fail but for its operands"""
        from sa.facts import walk
        for n in walk(e):
            if n[0] in ('asg', 'throw', 'new', 'del', 'lambda', 'ucall') or n[0] == 'un' and n[1] in ('++', '--', 'p++', 'p--'):
                return False
            if n[0] == 'call' and n[1].name in ('__assert_fail',):
                return False
        return True

    def e_bin(self, e, fr):
        op = e[1]
        if op in ('&&', '||'):
            a = self.conv(self.rv(e[2], fr), 'bool')
            a = I(self.simplify(a.v), 1, False)
            if type(a.v) is not G:
                if bool(a.v) == (op == '||'):
                    return a
                return self.conv(self.rv(e[3], fr), 'bool')
            if self.quiet(e[3]):
                b = self.conv(self.rv(e[3], fr), 'bool')
                return I(self.lift(lambda x, y: int(x and y if op == '&&' else x or y), a.v, b.v), 1, False)
            if self.truth(a) == (op == '||'):
                return self.bool(op == '||')
            return self.conv(self.rv(e[3], fr), 'bool')
        if op == ',':
            self.ev(e[2], fr)
            return self.ev(e[3], fr)
        a, b = self.rv(e[2], fr), self.rv(e[3], fr)
        if isinstance(a, Obj) and isinstance(b, Obj) and op in ('==', '!='):
            return self.bool((a is b) == (op == '=='))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pointer(op, a, b)
        return self.arith(op, a, b)

    def e_un(self, e, fr):
        op = e[1]
        if op == '__extension__':
            return self.ev(e[2], fr)
        if op == '*':
            x = self.ev(e[2], fr)
            return x if isinstance(self.val(x), Obj) else self.deref(x)
        if op == '&':
            if e[2][0] == 'call' and e[2][1].name == 'operator[]' or e[2][0] == 'idx':
                b, i = (e[2][2], e[2][3][0]) if e[2][0] == 'call' else (e[2][1], e[2][2])
                v = self.rv(b, fr)
                i = self.int(self.rv(i, fr))
                if isinstance(v, Ptr):
                    return Ptr(v.vec, v.i + i)
                if isinstance(v, Vec):
                    return Ptr(v, i)
            x = self.ev(e[2], fr)
            if isinstance(x, Cell):
                return x.v if isinstance(x.v, Obj) else Ptr(Vec([x]), 0)
            raise Unknown('address')
        if op in ('++', '--', 'p++', 'p--'):
            c = self.ev(e[2], fr)
            old = c.v
            one = I(1, 32, True)
            new = self.pointer(op[-1], old, one) if isinstance(old, Ptr) else self.arith(op[-1], old, one)
            self.assign(c, new)
            return old if op[0] == 'p' else c
        x = self.rv(e[2], fr)
        if op == '!':
            return I(self.lift(lambda v: int(not v), self.num(x).v), 1, False)
        x = self.promote(self.num(x))
        if op == '+':
            return x
        if op in ('-', '~'):
            return I(self.lift(lambda v: wrap(-v if op == '-' else ~v, x.w, x.s), x.v), x.w, x.s)
        raise Unknown('operator ' + op)

    def e_cond(self, e, fr):
        c = self.conv(self.rv(e[1], fr), 'bool')
        v = self.simplify(c.v)
        if type(v) is G and self.quiet(e[2]) and self.quiet(e[3]):
            a, b = self.rv(e[2], fr), self.rv(e[3], fr)
            if isinstance(a, I) and isinstance(b, I):
                if (a.w, a.s) != (b.w, b.s):
                    z = self.arith('+', self.arith('-', a, a), self.arith('-', b, b))
                    a, b = (I(self.lift(lambda x: wrap(x, z.w, z.s), y.v), z.w, z.s) for y in (a, b))
                return I(self.lift(lambda k, x, y: x if k else y, v, a.v, b.v), a.w, a.s)
        return self.ev(e[2] if self.decide(v) else e[3], fr)

    def e_cast(self, e, fr):
        if clean(e[2]) == 'void':
            self.ev(e[3], fr)
            return None
        x = self.ev(e[3], fr)
        return self.conv(self.val(x), e[2]) if isinstance(self.val(x), I) else x

    def e_idx(self, e, fr):
        v, i = self.rv(e[1], fr), self.int(self.rv(e[2], fr))
        if isinstance(v, Ptr):
            return self.deref(Ptr(v.vec, v.i + i))
        if isinstance(v, Vec):
            return self.deref(Ptr(v, i))
        raise Unknown('index')

    def e_throw(self, e, fr):
        raise Thrown('exception')

    def e_sizeof(self, e, fr):
        t = clean(e[1]) if type(e[1]) is str else ''
        if t in WIDTH:
            return I(max(WIDTH[t][0] // 8, 1), 64, False)
        raise Unknown('sizeof')

    def e_ilist(self, e, fr):
        vs = [self.rv(x, fr) for x in e[2]]
        t = clean(e[1]) if type(e[1]) is str else ''
        if t in self.P.classes and not t.startswith('std::'):
            o = Obj(t)
            for i, f in enumerate(self.P.classes[t].fields):
                o.fields[f[0]] = Cell(self.conv(vs[i], f[1]) if i < len(vs) else self.default(f[1]))
            return o
        if t in WIDTH:
            return self.conv(vs[0], t) if vs else self.default(t)
        return Vec([Cell(copy(v)) for v in vs], elem_of(t) if '<' in t else 'char')

    def e_lambda(self, e, fr):
        return Closure(e, fr, fr.this)

    def invoke(self, c, args):
        e = c.node
        if e[2] == 'generic':
            sp = [x for x in e[3] if len(x[0]) == len(args)]
            if not sp:
                raise Unknown('generic lambda')
            params, body = sp[0][0], sp[0][1]
        else:
            params, body = e[2], e[3]
        env = c.env.env
        for p, a in zip(params, args):
            env[p[0]] = (a if isinstance(a, Cell) else Cell(a)) if p[2].endswith('&') else Cell(self.conv(copy(self.val(a)), p[2]))
        try:
            self.stmt(body, c.env)
        except Return as r:
            return self.val(r.v)
        return None

    def e_ctor(self, e, fr):
        decl, cls, args = e[1], clean(e[2]), e[3]
        if '__normal_iterator' in cls or cls.startswith('std::reverse_iterator'):
            return self.rv(args[0], fr)
        if cls.startswith('std::allocator'):
            return None
        if cls.startswith(VECS):
            return self.make_vec(cls, [self.rv(a, fr) for a in args])
        if decl.copy and args:
            return copy(self.rv(args[0], fr))
        if cls.startswith(('std::range_error', 'std::logic_error', 'std::runtime_error', 'std::out_of_range')) or cls == 'jlm::util::Error':
            return None
        return self.construct(cls, decl, [self.ev(a, fr) for a in args], fr)

    def make_vec(self, cls, a):
        a = [x for x in a if x is not None]
        t = elem_of(cls)
        if not a:
            return Vec([], t)
        if isinstance(a[0], Vec):
            return copy(a[0])
        if isinstance(a[0], Ptr):
            if len(a) > 1 and isinstance(a[1], Ptr):
                return Vec([Cell(copy(c.v)) for c in self.between(a[0], a[1])], t)
            v, i = a[0].vec, a[0].i
            n = self.int(a[1]) if len(a) > 1 else len(v.cells) - i
            if i < 0 or i + n > len(v.cells):
                raise Thrown('access out of range')
            return Vec([Cell(copy(c.v)) for c in v.cells[i:i + n]], t)
        if isinstance(a[0], I):
            n = self.int(a[0])
            if n < 0 or n > 100000:
                raise Thrown('bad allocation')
            fill = self.conv(a[1], t) if len(a) > 1 else self.default(t)
            return Vec([Cell(copy(fill)) for _ in range(n)], t)
        raise Unknown('construction of ' + cls)

    def between(self, a, b):
        if a.vec is not b.vec:
            raise Thrown('iterators of different ranges')
        if a.rev:
            if not 0 <= b.i <= a.i <= len(a.vec.cells):
                raise Thrown('bad range')
            return a.vec.cells[b.i:a.i][::-1]
        if not 0 <= a.i <= b.i <= len(a.vec.cells):
            raise Thrown('bad range')
        return a.vec.cells[a.i:b.i]

    def e_ucall(self, e, fr):
        f = self.rv(e[1], fr)
        if isinstance(f, Closure):
            return self.invoke(f, [self.ev(a, fr) for a in e[2]])
        raise Unknown('%s: unresolved call' % fr.func.q)

    def e_call(self, e, fr):
        d = e[1]
        if d.q == '__assert_fail':
            raise Thrown('assertion')
        if d.q == 'jlm::util::strfmt':
            return None
        o = self.ev(e[2], fr) if e[2] else None
        if d.cls is None and d.q.startswith('std::') or d.q in ('strlen', 'abs', 'memcmp'):
            args = [self.ev(a, fr) for a in ([e[2]] if e[2] else []) + e[3]]
            return self.free(d, args, fr)
        ov = self.val(o)
        if isinstance(ov, Closure):
            return self.invoke(ov, [self.ev(a, fr) for a in e[3]])
        cls = d.cls or ''
        if isinstance(ov, (Vec, Ptr)) and ('__normal_iterator' in cls or cls.startswith(VECS + ('std::reverse_iterator',))):
            return self.member(d.name, o, ov, [self.ev(a, fr) for a in e[3]], fr)
        args = [self.ev(a, fr) for a in e[3]]
        if self.hook is not None:
            r = self.hook(self, d, ov, args)
            if r is not None:
                return r
        if d.dflt and d.name == 'operator=':
            return self.assign(o, args[0])
        if d.inst and '__normal_iterator' in d.sig or '__gnu_cxx' in d.q:
            return self.free(d, ([o] if o is not None else []) + args, fr)
        f = self.P.body_of(d)
        if f is None:
            raise Unknown('%s: call of %s' % (fr.func.q, d.q))
        if o is not None and not isinstance(ov, Obj) and not d.static:
            raise Unknown('%s: call of %s on %r' % (fr.func.q, d.q, ov))
        return self.apply(f, args, ov)

    def free(self, d, args, fr):
        n = d.name
        v = [self.val(a) for a in args]
        if n in ('move', 'forward', 'as_const', 'addressof'):
            return args[0]
        if n in ('min', 'max') and len(v) == 2:
            a, b = self.num(v[0]), self.num(v[1])
            return I(self.lift(min if n == 'min' else max, a.v, b.v), a.w, a.s)
        if n == 'strlen':
            return I(len(v[0].vec.cells) - v[0].i, 64, False)
        if n == 'abs':
            return I(self.lift(abs, v[0].v), v[0].w, v[0].s)
        if n == 'swap' and all(isinstance(a, Cell) for a in args):
            args[0].v, args[1].v = args[1].v, args[0].v
            return None
        if n in ('next', 'prev'):
            k = v[1] if len(v) > 1 else I(1, 32, True)
            return self.pointer('+' if n == 'next' else '-', v[0], k)
        if n == 'distance':
            return self.pointer('-', v[1], v[0])
        if n in ('operator==', 'operator!='):
            if isinstance(v[0], Vec) and isinstance(v[1], Ptr):
                v[1] = self.make_vec('std::basic_string<char>', [v[1]])
            if isinstance(v[0], Ptr):
                return self.pointer(n[8:], v[0], v[1])
            if isinstance(v[0], Vec) and isinstance(v[1], Vec):
                a, b = v[0].cells, v[1].cells
                r = self.bool(len(a) == len(b))
                if len(a) == len(b):
                    for x, y in zip(a, b):
                        z = self.arith('==', x, y)
                        r = I(self.lift(lambda p, q: p & q, r.v, z.v), 1, False)
                return r if n == 'operator==' else I(self.lift(lambda p: 1 - p, r.v), 1, False)
        if n in ('operator-', 'operator+', 'operator<', 'operator>', 'operator<=', 'operator>=') and any(isinstance(x, Ptr) for x in v):
            return self.pointer(n[8:], v[0], v[1])
        if n in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend', 'size', 'empty', 'data') and isinstance(v[0], Vec):
            return self.member(n, args[0], v[0], [], fr)
        if len(v) >= 2 and isinstance(v[0], Ptr) and isinstance(v[1], Ptr):
            return self.algorithm(n, args, v)
        raise Unknown('%s: call of %s' % (fr.func.q, d.q))

    def algorithm(self, n, args, v):
        cells = self.between(v[0], v[1])
        rest = v[2:]
        if n == 'reverse':
            vals = [c.v for c in cells][::-1]
            for c, x in zip(cells, vals):
                c.v = x
            return None
        if n == 'fill':
            for c in cells:
                self.assign(c, rest[0])
            return None
        if n in ('all_of', 'any_of', 'none_of'):
            r = self.bool(n != 'any_of')
            for c in cells:
                x = self.conv(self.val(self.invoke(rest[0], [c])), 'bool')
                if n == 'none_of':
                    x = I(self.lift(lambda p: 1 - p, x.v), 1, False)
                r = I(self.lift((lambda p, q: p | q) if n == 'any_of' else (lambda p, q: p & q), r.v, x.v), 1, False)
            return r
        if n == 'equal':
            b = [self.deref(Ptr(rest[0].vec, rest[0].i + (-k if rest[0].rev else k), rest[0].rev)) for k in range(len(cells))]
            r = self.bool(True)
            for x, y in zip(cells, b):
                r = I(self.lift(lambda p, q: p & q, r.v, self.arith('==', x, y).v), 1, False)
            return r
        if n == 'copy':
            if isinstance(rest[0], Ptr):
                for k, c in enumerate(cells):
                    self.assign(self.deref(Ptr(rest[0].vec, rest[0].i + k)), c)
                return Ptr(rest[0].vec, rest[0].i + len(cells))
        if n == 'transform' and isinstance(rest[0], Ptr):
            for k, c in enumerate(cells):
                self.assign(self.deref(Ptr(rest[0].vec, rest[0].i + k)), self.invoke(rest[1], [c]))
            return Ptr(rest[0].vec, rest[0].i + len(cells))
        if n == 'accumulate':
            r = rest[0]
            for c in cells:
                r = self.val(self.invoke(rest[1], [r, c])) if len(rest) > 1 else self.arith('+', r, c)
            return r
        if n in ('find', 'count', 'find_if', 'count_if'):
            k = 0
            for j, c in enumerate(cells):
                x = self.arith('==', c, rest[0]) if isinstance(rest[0], I) else self.val(self.invoke(rest[0], [c]))
                if n.startswith('count'):
                    k += self.truth(x)
                elif self.truth(x):
                    return Ptr(v[0].vec, v[0].i + (-j if v[0].rev else j), v[0].rev)
            return I(k, 64, True) if n.startswith('count') else v[1]
        raise Unknown('algorithm ' + n)

    def member(self, n, o, v, args, fr):
        a = [self.val(x) for x in args]
        if isinstance(v, Ptr):
            if n == 'operator*':
                return self.deref(v)
            if n == 'operator->':
                return self.deref(v).v
            if n in ('operator++', 'operator--'):
                self.assign(o, self.pointer('+' if n.endswith('++') else '-', v, I(1, 32, True)))
                return v if a else o
            if n in ('operator+', 'operator-'):
                return self.pointer(n[8:], v, a[0])
            if n in ('operator+=', 'operator-='):
                return self.assign(o, self.pointer(n[8], v, a[0]))
            if n == 'operator[]':
                return self.deref(self.pointer('+', v, a[0]))
            if n == 'base':
                return Ptr(v.vec, v.i)
            if n == 'operator=':
                return self.assign(o, a[0])
            raise Unknown('iterator member ' + n)
        cs = v.cells
        if n in ('size', 'length', 'capacity'):
            return I(len(cs), 64, False)
        if n == 'empty':
            return self.bool(not cs)
        if n in ('operator[]', 'at'):
            i = self.int(a[0])
            if not 0 <= i < len(cs):
                raise Thrown('access out of range')
            return cs[i]
        if n in ('front', 'back'):
            if not cs:
                raise Thrown('access out of range')
            return cs[0 if n == 'front' else -1]
        if n in ('begin', 'cbegin', 'data', 'c_str'):
            return Ptr(v, 0)
        if n in ('end', 'cend'):
            return Ptr(v, len(cs))
        if n in ('rbegin', 'crbegin'):
            return Ptr(v, len(cs), True)
        if n in ('rend', 'crend'):
            return Ptr(v, 0, True)
        if n in ('push_back', 'emplace_back'):
            cs.append(Cell(self.conv(copy(a[0]), v.elem)))
            return cs[-1] if n == 'emplace_back' else None
        if n == 'pop_back':
            if not cs:
                raise Thrown('access out of range')
            cs.pop()
            return None
        if n == 'clear':
            v.cells = []
            return None
        if n in ('reserve', 'shrink_to_fit'):
            return None
        if n == 'resize':
            k = self.int(a[0])
            fill = self.conv(a[1], v.elem) if len(a) > 1 else self.default(v.elem)
            v.cells = cs[:k] + [Cell(copy(fill)) for _ in range(k - len(cs))]
            return None
        if n == 'assign':
            v.cells = self.make_vec('std::vector<%s>' % v.elem, a).cells
            return None
        if n == 'insert' and isinstance(a[0], Ptr):
            if len(a) == 3 and isinstance(a[1], Ptr):
                new = [Cell(copy(c.v)) for c in self.between(a[1], a[2])]
            elif len(a) == 3:
                new = [Cell(self.conv(copy(a[2]), v.elem)) for _ in range(self.int(a[1]))]
            else:
                new = [Cell(copy(c.v)) for c in a[1].cells] if isinstance(a[1], Vec) else [Cell(self.conv(copy(a[1]), v.elem))]
            v.cells = cs[:a[0].i] + new + cs[a[0].i:]
            return Ptr(v, a[0].i)
        if n == 'erase':
            j = a[1].i if len(a) > 1 else a[0].i + 1
            v.cells = cs[:a[0].i] + cs[j:]
            return Ptr(v, a[0].i)
        if n == 'swap':
            v.cells, a[0].cells = a[0].cells, v.cells
            return None
        if n == 'operator=':
            return self.assign(o, a[0])
        if n in ('append', 'operator+='):
            x = a[0]
            if isinstance(x, I) and len(a) == 2:
                new = [Cell(self.conv(a[1], v.elem)) for _ in range(self.int(x))]
            elif isinstance(x, I):
                new = [Cell(self.conv(x, v.elem))]
            else:
                new = self.make_vec('std::basic_string<char>', a).cells
            v.cells = cs + new
            return o
        if n == 'substr':
            i = self.int(a[0]) if a else 0
            if i > len(cs):
                raise Thrown('access out of range')
            k = self.int(a[1]) if len(a) > 1 else len(cs)
            return Vec([Cell(c.v) for c in cs[i:][:k] if k >= 0], v.elem)
        raise Unknown('%s: vector member %s' % (fr.func.q, n))
