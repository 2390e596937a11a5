"""Abstract interpreter for the graph code: objects, virtual calls, ownership and the standard containers.

Objects of the program are abstract cells with the fields of their class; which operations, types and wirings they stand for
is up to the caller, who builds an abstract graph through the program's own constructors and gives meaning to opaque operations.
Choices the caller leaves open are explored exhaustively. A violated assertion, an exception, the use of a deleted object and
access out of a container's bounds end a run as Thrown; a construct without a model ends the analysis as Unknown, never quietly."""
from sa.facts import AnalysisBroken, Cls


class Thrown(Exception):
    """an exception of the program, or a violated assertion"""

    def __init__(self, what, cls=None):
        Exception.__init__(self, what)
        self.cls = cls


class Failed(Thrown):
    """something no handler of the program may catch"""


class Unknown(AnalysisBroken):
    pass


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Obj:
    __slots__ = ('cls', 'f', 'dead', 'n', 'x')
    count = 0

    def __init__(self, cls):
        self.cls, self.f, self.dead, self.x = cls, {}, False, None
        Obj.count += 1
        self.n = Obj.count

    def __repr__(self):
        return '<%s #%d>' % (self.cls, self.n)


class At:
    """a pointer to a scalar"""
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __eq__(self, o):
        return isinstance(o, At) and o.cell is self.cell

    def __hash__(self):
        return id(self.cell)


class Vec:
    __slots__ = ('c', 'elem', 'ty')

    def __init__(self, c, elem, ty=''):
        self.c, self.elem, self.ty = c, elem, ty


class It:
    """an iterator into a vector"""
    __slots__ = ('vec', 'i', 'rev')

    def __init__(self, vec, i, rev=False):
        self.vec, self.i, self.rev = vec, i, rev


class Map:
    """a map or set: key -> Tup or Cell"""
    __slots__ = ('d', 'ty', 'args', 'sorted', 'set')

    def __init__(self, ty):
        name, self.args = tmpl(ty)
        self.d, self.ty = {}, ty
        self.sorted = name in ('std::map', 'std::set')
        self.set = name.endswith('set')

    def keys(self):
        ks = list(self.d)
        if self.sorted and all(type(k) in (int, str) for k in ks):
            ks.sort()
        return ks


class MIt:
    __slots__ = ('m', 'k')

    def __init__(self, m, k):
        self.m, self.k = m, k


class IList:
    """an intrusive list, or a list: elements in order"""
    __slots__ = ('e', 'ty', 'snap')

    def __init__(self, ty):
        self.e, self.ty, self.snap = [], ty, None


class LIt:
    __slots__ = ('l', 'x')

    def __init__(self, l, x):
        self.l, self.x = l, x


class Opt:
    __slots__ = ('c', 'ty')

    def __init__(self, c, ty):
        self.c, self.ty = c, ty


class Tup:
    __slots__ = ('c', 'ty')

    def __init__(self, c, ty):
        self.c, self.ty = c, ty


class Variant:
    __slots__ = ('c', 'i', 'ty')

    def __init__(self, c, i, ty):
        self.c, self.i, self.ty = c, i, ty


class Closure:
    __slots__ = ('e', 'env', 'this')

    def __init__(self, e, env, this):
        self.e, self.env, self.this = e, env, this


class FnPtr:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Stream:
    __slots__ = ('s',)

    def __init__(self):
        self.s = ''


class Frame:
    __slots__ = ('env', 'this', 'ret')

    def __init__(self, env, this):
        self.env, self.this, self.ret = env, this, None


WIDTH = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
         'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
         'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}
BRK, CNT, RET = object(), object(), object()
_tm, _cl = {}, {}


def clean(ty):
    """a type without references and top-level qualifiers"""
    r = _cl.get(ty)
    if r is None:
        t = ty.strip()
        while True:
            u = t.rstrip('&').strip()
            if not u.endswith('*'):
                while u.startswith(('const ', 'volatile ')):
                    u = u.split(' ', 1)[1]
            for s in (' const', '*const'):
                if u.endswith(s):
                    u = u[:-5].strip()
            if u == t:
                break
            t = u
        r = _cl[ty] = t
    return r


def tmpl(ty):
    """(template name, arguments)"""
    r = _tm.get(ty)
    if r is None:
        t = clean(ty)
        i = t.find('<')
        if i < 0 or not t.endswith('>'):
            r = (t, [])
        else:
            out, d, cur = [], 0, ''
            for ch in t[i + 1:-1]:
                if ch == ',' and d == 0:
                    out.append(cur.strip())
                    cur = ''
                    continue
                d += ch in '<('
                d -= ch in '>)'
                cur += ch
            out.append(cur.strip())
            r = (t[:i], out)
        _tm[ty] = r
    return r


KINDS = {'std::vector': 'vec', 'std::array': 'vec', 'std::deque': 'vec', 'std::initializer_list': 'vec', 'std::queue': 'vec',
         'std::stack': 'vec', 'std::map': 'map', 'std::unordered_map': 'map', 'std::set': 'map', 'std::unordered_set': 'map',
         'std::optional': 'opt', 'std::variant': 'variant', 'std::pair': 'tup', 'std::tuple': 'tup', 'std::unique_ptr': 'uptr',
         'std::shared_ptr': 'sptr', 'std::basic_string': 'str', 'std::basic_string_view': 'str', 'std::function': 'fn',
         'std::list': 'list', 'jlm::util::IntrusiveList': 'list', 'jlm::util::OwnerIntrusiveList': 'list'}
_kd = {}


def kind(ty):
    r = _kd.get(ty)
    if r is None:
        t = clean(ty)
        if t.endswith('*'):
            r = 'ptr'
        elif t in WIDTH or t in ('float', 'double', 'long double', 'void', 'std::nullptr_t'):
            r = 'num'
        elif t.endswith(']'):
            r = 'vec'
        else:
            n = tmpl(t)[0]
            if n in KINDS:
                r = KINDS[n]
            elif t.startswith(('jlm::util::IntrusiveList<', 'jlm::util::OwnerIntrusiveList<')) and t.endswith('Iterator'):
                r = 'std'
            elif n.startswith(('std::', '__gnu_cxx::')) and not n.startswith('std::basic_o') and not n.startswith('std::basic_string'):
                r = 'std'
            elif n.startswith(('std::basic_ostream', 'std::basic_ostring', 'std::basic_stringstream', 'std::basic_ofstream')):
                r = 'stream'
            else:
                r = 'cls'
        _kd[ty] = r
    return r


_wr = {}


def wrapper(ty):
    if ty in _wr:
        return _wr[ty]
    r = _wr[ty] = _wrapper(ty)
    return r


def _wrapper(ty):
    """the conversion of numbers to a type"""
    t = clean(ty)
    if t not in WIDTH:
        return None
    w, s = WIDTH[t]
    if t == 'bool':
        return lambda v: 1 if v else 0
    lo, hi, m = (-(1 << (w - 1)), 1 << (w - 1), 1 << w) if s else (0, 1 << w, 1 << w)

    def f(v):
        if type(v) is int:
            if lo <= v < hi:
                return v
            v %= m
            return v - m if v >= hi else v
        if type(v) is bool:
            return int(v)
        if type(v) is float:
            return int(v)
        return v
    return f


LIMIT = 4000000


class Machine:
    def __init__(self, P):
        self.P = P
        self.code, self.scode, self.fcode_, self.bodies, self.keep = {}, {}, {}, {}, []
        self.statics, self.consts = {}, {}
        self.natives = {}           # qualified name -> f(M, this, args)
        self.methods = {}           # (class, method) of classes without source
        self.quiet = set()          # classes whose objects do nothing
        self.vt, self.nd = {}, {}
        self.steps = 0
        self.decisions, self.taken = [], []
        self.trace = []
        for c in list(P.classes):
            if P.is_a(c, 'jlm::util::Statistics') or c in ('jlm::util::StatisticsCollector', 'jlm::util::Timer',
                                                          'jlm::util::StatisticsCollectorSettings', 'jlm::util::FilePath',
                                                          'jlm::util::GraphWriter'):
                self.quiet.add(c)
        self.quiet |= {'jlm::util::FilePath', 'jlm::util::StatisticsCollector', 'jlm::util::Timer'}
        for q, f in FREE.items():
            self.natives[q] = f

    # ---- open choices
    def choose(self, n, what=None):
        """one of n possibilities; runs() explores all of them"""
        k = len(self.taken)
        c = self.decisions[k] if k < len(self.decisions) else 0
        self.taken.append((c, n, what))
        return c

    def runs(self, f, limit=20000):
        """f() under all resolutions of its open choices: yields its results"""
        todo, n = [()], 0
        while todo:
            self.decisions, self.taken, self.steps = list(todo.pop()), [], 0
            self.trace.clear()
            done = len(self.decisions)
            try:
                r = f()
            except Thrown as e:
                r = e
                r.trace = list(self.trace)
            except Unknown as e:
                raise Unknown('%s, reached through %s' % (e, ' > '.join(f.q.rsplit('::', 2)[-2] + '::' + f.name for f in self.trace[-6:])))
            taken = [t[:2] for t in self.taken]
            yield r
            n += 1
            if n > limit:
                raise AnalysisBroken('too many choices')
            for k in range(done, len(taken)):
                for c in range(1, taken[k][1]):
                    todo.append(tuple(t[0] for t in taken[:k]) + (c,))

    # ---- calls from outside
    def fn(self, q, n=None, sig=None):
        fs = [f for f in self.P.by_q.get(q, []) if f.body and not f.dependent and (n is None or len(f.params) == n) and
              (sig is None or sig in f.sig)]
        if len(fs) != 1:
            raise AnalysisBroken('%d definitions of %s found' % (len(fs), q))
        return fs[0]

    def run(self, q, *args, this=None, n=None, sig=None):
        """a function by name"""
        r = self.call(self.fn(q, len(args) if n is None else n, sig), list(args), this)
        return r.v if isinstance(r, Cell) else r

    def do(self, obj, name, *args, sig=None):
        """a method by name, found as the program would"""
        f = self.lookup(obj.cls, name, len(args), sig)
        if f is None:
            raise AnalysisBroken('%s has no method %s' % (obj.cls, name))
        r = f(self, obj, list(args)) if not hasattr(f, 'body') else self.call(f, list(args), obj)
        return r.v if isinstance(r, Cell) else r

    def lookup(self, cls, name, nargs, sig=None):
        for c in self.order(cls):
            if (c, name) in self.methods:
                return self.methods[c, name]
            k = self.P.classes.get(c)
            if k is None:
                continue
            for m in k.methods:
                d = m[0]
                if m[1] == name and not d.deleted and (sig is None or sig in d.sig):
                    f = self.body(d)
                    if f is not None and len(f.params) == nargs:
                        return f
        return None

    def order(self, cls):
        """a class and its bases, the class first"""
        r = self.vt.get(cls)
        if r is None:
            r, todo = [], [cls]
            while todo:
                c = todo.pop(0)
                if c not in r:
                    r.append(c)
                    k = self.P.classes.get(c)
                    if k:
                        todo += k.bases
            self.vt[cls] = r
        return r

    def new(self, cls, *args, types=None):
        """construct an object"""
        o = Obj(cls)
        self.construct(o, cls, self.pick(cls, list(args), types), list(args))
        return o

    def define(self, name, bases, methods):
        """a class that stands for any class of its kind"""
        self.P.classes[name] = Cls({'n': name, 'file': '', 'line': 0, 'bases': bases, 'fields': [], 'methods': []})
        for m, f in methods.items():
            self.methods[name, m] = f

    # ---- functions
    def body(self, d):
        k = d.key
        if k in self.bodies:
            return self.bodies[k]
        f = self.P.funcs.get(k)
        if f is None or not f.body or f.dependent:
            f = None
            if d.inst and not d.ta:
                c = [g for g in self.P.by_loc.get((d.file, d.line), []) if g.body and g.name == d.name and not g.dependent
                     and g.cls == d.cls]
                f = c[0] if c else None
        self.bodies[k] = f
        return f

    def fcode(self, f):
        c = self.fcode_.get(f.key)
        if c is None:
            ps = []
            for vid, name, ty in f.params:
                ps.append((vid, ty.endswith('&'), wrapper(ty)))
            ret = f.decl.ret
            c = self.fcode_[f.key] = (ps, self.st(f.body), ret.endswith('&'), wrapper(ret))
        return c

    def bind(self, env, ps, args, what):
        if len(args) < len(ps):
            raise Unknown('%s: missing argument' % (what,))
        for (vid, ref, w), a in zip(ps, args):
            if ref:
                env[vid] = a if type(a) is Cell else Cell(w(a) if w else a)
            else:
                v = a.v if type(a) is Cell else a
                env[vid] = Cell(w(v) if w else v)

    def call(self, f, args, this=None):
        self.steps += 1
        if self.steps > LIMIT:
            raise Failed('%s does not end' % f.q)
        ps, body, ref, w = self.fcode(f)
        env = {}
        self.bind(env, ps, args, f.q)
        fr = Frame(env, this)
        self.trace.append(f)
        body(fr)
        self.trace.pop()
        r = fr.ret
        if not ref:
            if type(r) is Cell:
                r = r.v
            if w:
                r = w(r)
        return r

    def invoke(self, c, args):
        """a callable object"""
        if type(c) is FnPtr:
            f = self.body(c.d)
            if f is None:
                n = self.natives.get(c.d.q)
                if n:
                    return n(self, None, args)
                raise Unknown('function %s' % c.d.q)
            return self.call(f, args)
        if isinstance(c, Obj):
            f = self.lookup(c.cls, 'operator()', len(args))
            return self.call(f, args, c)
        if not isinstance(c, Closure):
            if c is None:
                raise Failed('call of an empty function')
            if callable(c):
                return c(*args)
            raise Unknown('call of %r' % (c,))
        e = c.e
        k = id(e)
        if e[2] == 'generic':
            sp = [x for x in e[3] if len(x[0]) == len(args)]
            if len(sp) > 1:
                sp = [x for x in sp if all(self.fits(p[2], a) for p, a in zip(x[0], args))] or sp
            if not sp:
                raise Unknown('generic lambda')
            params, body, ret = sp[0][:3]
            k = id(sp[0])
        else:
            params, body, ret = e[2], e[3], e[6] if len(e) > 6 else ''
        cc = self.fcode_.get(k)
        if cc is None:
            cc = self.fcode_[k] = ([(p[0], p[2].endswith('&'), wrapper(p[2])) for p in params], self.st(body), ret.endswith('&'), wrapper(ret))
        self.steps += 1
        if self.steps > LIMIT:
            raise Failed('a function does not end')
        env = dict(c.env)
        self.bind(env, cc[0], args, 'lambda')
        fr = Frame(env, c.this)
        cc[1](fr)
        r = fr.ret
        if not cc[2] and type(r) is Cell:
            r = r.v
        return cc[3](r) if cc[3] else r

    def fits(self, ty, a):
        v = a.v if type(a) is Cell else a
        t = clean(ty).rstrip('*').strip()
        t = clean(t)
        return not isinstance(v, Obj) or self.P.is_a(v.cls, t)

    # ---- objects
    def isa(self, o, cls):
        k = (o.cls, cls)
        r = self.nd.get(k)
        if r is None:
            r = self.nd[k] = cls in self.order(o.cls)
        return r

    def default(self, ty):
        k = kind(ty)
        if k == 'num':
            return 0
        if k in ('ptr', 'uptr', 'sptr', 'fn', 'std'):
            return None
        if k == 'vec':
            t = clean(ty)
            if t.endswith(']'):
                n = int(t[t.rindex('[') + 1:-1])
                el = t[:t.rindex('[')].strip()
                return Vec([Cell(self.default(el)) for _ in range(n)], el, t)
            n, a = tmpl(ty)
            if n == 'std::array':
                return Vec([Cell(self.default(a[0])) for _ in range(int(a[1]))], a[0], t)
            return Vec([], a[0] if a else '', t)
        if k == 'map':
            return Map(clean(ty))
        if k == 'list':
            return IList(clean(ty))
        if k == 'opt':
            return Opt(None, clean(ty))
        if k == 'tup':
            return Tup([Cell(self.default(a)) for a in tmpl(ty)[1]], clean(ty))
        if k == 'variant':
            return Variant(Cell(self.default(tmpl(ty)[1][0])), 0, clean(ty))
        if k == 'str':
            return ''
        if k == 'stream':
            return Stream()
        t = clean(ty)
        if t in self.P.enums:
            return 0
        if t in self.P.classes:
            o = Obj(t)
            self.construct(o, t, self.pick(t, [], []), [])
            return o
        return None

    def pick(self, cls, args, types=None):
        """the constructor for these arguments"""
        c = self.P.classes.get(cls)
        if c is None:
            if cls in self.quiet:
                return None
            raise Unknown('class %s' % cls)
        best, bs = None, -1
        n = 0
        for m in c.methods:
            d = m[0]
            if not d.q.endswith('<ctor>') or d.deleted:
                continue
            n += 1
            ps = d.sig[1:d.sig.rindex(')')]
            ps = tmpl('x<%s>' % ps)[1] if ps else []
            if len(ps) != len(args):
                continue
            sc = 1
            for i, p in enumerate(ps):
                k = self.match(p, args[i], types[i] if types else None)
                if k < 0:
                    sc = -1
                    break
                sc += k
            if sc > bs:
                best, bs = d, sc
        if best is None and (args or n > 0 and not any(m[0].q.endswith('<ctor>') and (m[4] or m[0].dflt) for m in c.methods)):
            raise Unknown('no constructor of %s for %d arguments' % (cls, len(args)))
        return best

    def match(self, p, a, ty):
        v = a.v if type(a) is Cell else a
        k, t = kind(p), clean(p)
        if ty is not None and clean(ty) == t:
            return 4
        if ty is not None and kind(ty) in ('cls', 'uptr', 'sptr', 'vec', 'str', 'opt') and k in ('ptr', 'num'):
            return -1
        if ty is not None and k in ('uptr', 'sptr', 'vec', 'opt') and kind(ty) != k and not (k == 'opt') and clean(ty) != 'std::nullptr_t':
            return -1
        if isinstance(v, Obj):
            u = t
            if k in ('uptr', 'sptr'):
                u = clean(tmpl(t)[1][0])
            elif k == 'ptr':
                u = clean(t[:-1])
            elif k == 'cls' and ty is not None and clean(ty).endswith('*'):
                return -1
            elif k not in ('cls',):
                return 0 if k == 'opt' else -1
            if u == 'void':
                return 0
            return 3 if v.cls == u else 2 if self.P.is_a(v.cls, u) else -1
        if v is None:
            return 1 if k in ('ptr', 'uptr', 'sptr', 'fn', 'std') else 0 if k == 'opt' else -1
        if type(v) in (int, bool):
            return 2 if t in WIDTH else 1 if t in self.P.enums else 0 if k == 'opt' else -1
        if type(v) is str:
            return 2 if k == 'str' else 1 if k == 'ptr' else -1
        if isinstance(v, Vec):
            return 2 if k == 'vec' else -1
        if isinstance(v, (Map, Tup, Opt, Variant, IList)):
            return 2 if clean(v.ty) == t else 1 if isinstance(v, Map) and k == 'map' and tmpl(t)[1][:2] == tmpl(v.ty)[1][:2] else -1
        return 0

    def construct(self, o, cls, d, args):
        """run a constructor on o, seen as a cls"""
        if cls in self.quiet:
            return
        c = self.P.classes.get(cls)
        if d is not None and d.copy and self.body_or_none(d) is None:
            src = args[0].v if type(args[0]) is Cell else args[0]
            self.copy_fields(o, src, cls)
            return
        f = self.P.funcs.get(d.key) if d is not None else None
        if f is None and d is not None:
            f = self.body(d)
        if c is None:
            raise Unknown('class %s' % cls)
        if f is None:
            if args:
                raise Unknown('constructor of %s' % cls)
            for b in c.bases:
                if b in self.P.classes:
                    self.construct(o, b, self.pick(b, [], []), [])
            for x in c.fields:
                o.f[cls, x[0]] = self.field(x, o)
            return
        env = {}
        self.bind(env, [(v, t.endswith('&'), wrapper(t)) for v, n, t in f.params], args, cls)
        fr = Frame(env, o)
        done = set()
        ty = {x[0]: x[1] for x in c.fields}
        fields = {i[1] for i in f.inits if i[0] == 'f'}
        deleg = any(i[0] == 'd' for i in f.inits)
        if not deleg:
            bases = {i[1] for i in f.inits if i[0] == 'b'}
            for b in c.bases:
                if b not in bases and b in self.P.classes:
                    self.construct(o, b, self.pick(b, [], []), [])
            for x in c.fields:
                if x[0] not in fields:
                    o.f[cls, x[0]] = self.field(x, o)
        for i in f.inits:
            if i[0] == 'f':
                v = self.ev(i[2])(fr)
                t = ty.get(i[1], '')
                if t.endswith('&'):
                    o.f[cls, i[1]] = v if type(v) is Cell else Cell(v)
                else:
                    v = v.v if type(v) is Cell else v
                    w = wrapper(t)
                    o.f[cls, i[1]] = Cell(w(v) if w else v)
            else:
                e = i[2]
                if not e:
                    continue
                if e[0] == 'ctor':
                    self.construct(o, clean(e[2]), e[1], [self.ev(a)(fr) for a in e[3]])
                elif e[0] == 'ilist':
                    pass
                else:
                    v = self.ev(e)(fr)
                    v = v.v if type(v) is Cell else v
                    if isinstance(v, Obj):
                        o.f.update(v.f)
                    elif v is not None:
                        raise Unknown('base of %s' % cls)
        if f.body:
            self.st(f.body)(fr)

    def body_or_none(self, d):
        f = self.P.funcs.get(d.key)
        return f if f is not None and (f.body or f.inits) and not f.dependent else None

    def field(self, x, o):
        if len(x) > 4 and x[4]:
            v = self.ev(x[4])(Frame({}, o))
            if x[1].endswith('&'):
                return v if type(v) is Cell else Cell(v)
            v = v.v if type(v) is Cell else v
            w = wrapper(x[1])
            return Cell(w(v) if w else v)
        if x[1].endswith('&'):
            return Cell(None)
        return Cell(self.default(x[1]))

    def copy_fields(self, o, src, cls):
        if not isinstance(src, Obj):
            raise Unknown('copy of %r' % (src,))
        for c in self.order(cls):
            k = self.P.classes.get(c)
            for x in k.fields if k else ():
                s = src.f.get((c, x[0]))
                if s is None:
                    raise Unknown('copy of %s' % cls)
                o.f[c, x[0]] = s if x[1].endswith('&') else Cell(self.copy(s, x[1]))
        o.x = src.x

    def copy(self, a, ty):
        """the value of a, as a new object of the type; unique pointers are moved"""
        v = a.v if type(a) is Cell else a
        if v is None or type(v) in (int, str, bool, float, At, It, MIt, LIt, Closure, FnPtr):
            return v
        k = kind(ty)
        if isinstance(v, Obj):
            if k in ('ptr', 'sptr', 'std'):
                return v
            if k == 'uptr':
                if type(a) is Cell:
                    a.v = None
                return v
            if k == 'cls':
                o = Obj(v.cls)
                d = self.copyctor(v.cls)
                if d is not None and self.body_or_none(d):
                    self.construct(o, v.cls, d, [v])
                else:
                    self.copy_fields(o, v, v.cls)
                return o
            raise Unknown('copy of %r to %s' % (v, ty))
        if k == 'ptr':
            return v
        if isinstance(v, Vec):
            return Vec([Cell(self.copy(c, v.elem)) for c in v.c], v.elem, v.ty)
        if isinstance(v, Map):
            m = Map(v.ty)
            for q, x in v.d.items():
                m.d[q] = Cell(self.copy(x, v.args[0])) if v.set else Tup([Cell(self.copy(x.c[0], v.args[0])), Cell(self.copy(x.c[1], v.args[1]))], x.ty)
            return m
        if isinstance(v, Opt):
            return Opt(None if v.c is None else Cell(self.copy(v.c, tmpl(v.ty)[1][0])), v.ty)
        if isinstance(v, Tup):
            ts = tmpl(v.ty)[1]
            return Tup([c if t.endswith('&') else Cell(self.copy(c, t)) for c, t in zip(v.c, ts)], v.ty)
        if isinstance(v, Variant):
            return Variant(Cell(self.copy(v.c, tmpl(v.ty)[1][v.i])), v.i, v.ty)
        if isinstance(v, IList):
            l = IList(v.ty)
            if v.ty.startswith('std::list'):
                l.e = [Cell(self.copy(c, tmpl(v.ty)[1][0])) for c in v.e]
            else:
                l.e, v.e = v.e, []
            return l
        if isinstance(v, Stream):
            return v
        if callable(v):
            return v
        raise Unknown('copy of %r' % (v,))

    def copyctor(self, cls):
        c = self.P.classes.get(cls)
        for m in c.methods if c else ():
            if m[0].q.endswith('<ctor>') and m[0].copy and 'const ' in m[0].sig.split(cls)[0]:
                return m[0]
        return None

    def assign_value(self, dst, src, ty=None):
        """memberwise assignment to an object or container"""
        cell = dst if type(dst) is Cell else None
        d = dst.v if cell else dst
        s = src.v if type(src) is Cell else src
        if d is s:
            return dst
        if isinstance(d, Obj) and isinstance(s, Obj) and (ty is None or kind(ty) == 'cls'):
            t = Obj(s.cls)
            self.copy_fields(t, s, s.cls)
            for k, c in t.f.items():
                if k in d.f:
                    d.f[k].v = c.v
                else:
                    d.f[k] = c
            return dst
        if isinstance(d, Vec) and isinstance(s, Vec):
            self.destroy_cells(d.c, d.elem)
            d.c = [Cell(self.copy(c, d.elem)) for c in s.c]
            return dst
        if isinstance(d, Map) and isinstance(s, Map):
            d.d = self.copy(s, s.ty).d
            return dst
        if isinstance(d, Tup) and isinstance(s, Tup):
            ts = tmpl(s.ty)[1]
            for a, b, t in zip(d.c, s.c, ts):
                if isinstance(a.v, (Vec, Map, Tup, Opt, Variant)) or kind(t) == 'cls' and a.v is not None:
                    self.assign_value(a, b, t)
                else:
                    a.v = self.copy(b, t)
            return dst
        if isinstance(d, IList) and isinstance(s, IList):
            d.e = self.copy(s, s.ty).e
            return dst
        if cell is not None:
            cell.v = self.copy(src, ty or '')
            return dst
        raise Unknown('assignment')

    # ---- the end of objects
    def needs(self, ty):
        """objects of the type do something when they end"""
        k = ('n', ty)
        r = self.nd.get(k)
        if r is None:
            self.nd[k] = False
            q = kind(ty)
            if q == 'uptr':
                r = True
            elif q in ('vec', 'map', 'opt', 'tup', 'variant'):
                a = tmpl(ty)[1]
                if clean(ty).endswith(']'):
                    a = [clean(ty)[:clean(ty).rindex('[')]]
                r = any(self.needs(x) for x in a[:2 if q == 'map' else None] if not x.isdigit() and not x.endswith('&'))
            elif q == 'list':
                r = clean(ty).startswith('jlm::util::OwnerIntrusiveList')
            elif q == 'cls':
                r = False
                t = clean(ty)
                if t not in self.quiet:
                    for c in self.order(t):
                        kk = self.P.classes.get(c)
                        if kk is None:
                            continue
                        if self.dtor(c) is not None or any(not x[1].endswith('&') and self.needs(x[1]) for x in kk.fields):
                            r = True
            else:
                r = False
            self.nd[k] = r
        return r

    def dtor(self, cls):
        k = ('d', cls)
        if k not in self.nd:
            r = None
            c = self.P.classes.get(cls)
            for m in c.methods if c else ():
                if m[0].q.endswith('<dtor>'):
                    f = self.body(m[0])
                    if f is not None and f.body and (f.body[0] != 'block' or f.body[1]):
                        r = f
            self.nd[k] = r
        return self.nd[k]

    def destroy_cells(self, cells, elem):
        if self.needs(elem):
            for c in cells:
                self.destroy(c.v, elem)
                c.v = None

    def destroy(self, v, ty):
        if v is None or not self.needs(ty):
            return
        k = kind(ty)
        if k == 'uptr':
            if isinstance(v, Obj):
                self.delete(v)
            elif isinstance(v, (Vec, Map)):
                self.destroy(v, v.ty)
        elif isinstance(v, Vec):
            self.destroy_cells(v.c, v.elem)
        elif isinstance(v, Map):
            for x in list(v.d.values()):
                if v.set:
                    self.destroy(x.v, v.args[0])
                else:
                    self.destroy(x.c[0].v, v.args[0])
                    self.destroy(x.c[1].v, v.args[1])
        elif isinstance(v, Opt):
            if v.c is not None:
                self.destroy(v.c.v, tmpl(v.ty)[1][0])
        elif isinstance(v, Tup):
            for c, t in zip(v.c, tmpl(v.ty)[1]):
                if not t.endswith('&'):
                    self.destroy(c.v, t)
        elif isinstance(v, Variant):
            self.destroy(v.c.v, tmpl(v.ty)[1][v.i])
        elif isinstance(v, IList):
            for x in list(v.e):
                self.delete(x)
            v.e = []
        elif isinstance(v, Obj):
            self.delete(v)

    def delete(self, o):
        if not isinstance(o, Obj):
            return
        if o.dead:
            raise Failed('an object is deleted twice')
        if o.cls in self.quiet:
            return
        for c in self.order(o.cls):
            f = self.dtor(c)
            if f is not None:
                self.call(f, [], o)
            k = self.P.classes.get(c)
            for x in reversed(k.fields if k else ()):
                if not x[1].endswith('&'):
                    cell = o.f.get((c, x[0]))
                    if cell is not None and cell.v is not None and self.needs(x[1]):
                        self.destroy(cell.v, x[1])
        o.dead = True

    # ---- statements
    def st(self, n):
        if not n:
            return nothing
        k = id(n)
        f = self.scode.get(k)
        if f is None:
            m = getattr(self, 's_' + n[0], None)
            if m is None:
                raise Unknown('statement %s' % n[0])
            f = self.scode[k] = m(n)
            self.keep.append(n)
        return f

    def s_block(self, n):
        ss = [self.st(x) for x in n[1] if x]
        dest = []
        for x in n[1]:
            if x and x[0] == 'decls':
                for d in x[1]:
                    if d[0] == 'decl' and not d[3].endswith('&') and not (len(d) > 6 and d[6] == 'static') and self.needs(d[3]):
                        dest.append((d[1], d[3]))
        if not dest:
            if len(ss) == 1:
                return ss[0]

            def f(fr):
                for s in ss:
                    r = s(fr)
                    if r is not None:
                        return r
            return f
        dest.reverse()

        def g(fr):
            for vid, _ in dest:
                fr.env.pop(vid, None)
            r = None
            for s in ss:
                r = s(fr)
                if r is not None:
                    break
            for vid, ty in dest:
                c = fr.env.get(vid)
                if c is not None and c.v is not None:
                    if r is RET and (fr.ret is c or (fr.ret.v if type(fr.ret) is Cell else fr.ret) is c.v):
                        continue
                    self.destroy(c.v, ty)
            return r
        return g

    def s_expr(self, n):
        f = self.ev(n[2])

        def g(fr):
            f(fr)
        return g

    def s_decls(self, n):
        ds = [self.declare(d) for d in n[1] if d[0] == 'decl']
        if len(ds) == 1:
            return ds[0]

        def f(fr):
            for d in ds:
                d(fr)
        return f

    def declare(self, d):
        vid, name, ty, init = d[1], d[2], d[3], d[4]
        w = wrapper(ty)
        if len(d) > 6 and d[6] == 'static':
            q, q2 = id(d), ('static', d[7])
            self.keep.append(d)
            iv = self.ev(init) if init else None

            def f(fr):
                if q not in self.statics:
                    v = iv(fr) if iv else self.default(ty)
                    self.statics[q] = v if ty.endswith('&') and type(v) is Cell else Cell(v.v if type(v) is Cell else v)
                fr.env[vid] = fr.env[q2] = self.statics[q]
            return f
        if not init:
            def f(fr):
                fr.env[vid] = Cell(self.default(ty))
            return f
        iv = self.ev(init)
        if ty.endswith('&'):
            def f(fr):
                v = iv(fr)
                fr.env[vid] = v if type(v) is Cell else Cell(v)
            return f

        if kind(ty) == 'fn':
            def f(fr):
                c = fr.env[vid] = Cell(None)
                v = iv(fr)
                c.v = v.v if type(v) is Cell else v
            return f

        def f(fr):
            v = iv(fr)
            if type(v) is Cell:
                v = v.v
            fr.env[vid] = Cell(w(v) if w else v)
        return f

    def truth(self, e):
        f = self.ev(e)

        def g(fr):
            v = f(fr)
            if type(v) is Cell:
                v = v.v
            return bool(v)
        return g

    def s_if(self, n):
        _, line, init, cv, c, th, el = n
        i = self.st(init) if init else None
        d = self.declare(cv) if cv else None
        t, a, b = self.truth(c), self.st(th), self.st(el)

        def f(fr):
            if i:
                i(fr)
            if d:
                d(fr)
            return a(fr) if t(fr) else b(fr)
        return f

    def loop(self, body, cond, inc, first=True):
        def f(fr):
            go = not first
            while go or cond(fr):
                go = False
                self.steps += 1
                if self.steps > LIMIT:
                    raise Failed('a loop does not end')
                r = body(fr)
                if r is not None and r is not CNT:
                    return RET if r is RET else None
                if inc:
                    inc(fr)
        return f

    def s_for(self, n):
        _, line, init, cv, c, inc, body = n
        if cv:
            raise Unknown('condition variable')
        i = self.st(init) if init else None
        l = self.loop(self.st(body), self.truth(c) if c else (lambda fr: True), self.ev(inc) if inc else None)

        def f(fr):
            if i:
                i(fr)
            return l(fr)
        return f

    def s_while(self, n):
        c = self.truth(n[3])
        if n[2]:
            d = self.declare(n[2])
            c0 = c

            def c(fr):
                d(fr)
                return c0(fr)
        return self.loop(self.st(n[4]), c, None)

    def s_do(self, n):
        return self.loop(self.st(n[2]), self.truth(n[3]), None, False)

    def s_rfor(self, n):
        var, rng, body, init = n[2], n[3], n[4], n[5]
        i = self.st(init) if init else None
        rv, b = self.ev(rng), self.st(body)
        vid, ty = var[1], var[3]
        ref, w = ty.endswith('&'), wrapper(ty)
        by = kind(ty)
        static = clean(n[6]) if len(n) > 6 else None
        temp = rng[0] == 'ctor' or rng[0] == 'cast' or rng[0] == 'call' and not rng[1].ret.endswith('&')

        def f(fr):
            if i:
                i(fr)
            v = rv(fr)
            if type(v) is Cell:
                v = v.v
            keep = Cell(v)
            for c in self.iterate(v, static):
                if ref:
                    fr.env[vid] = c if type(c) is Cell else Cell(c)
                elif type(c) is Cell:
                    fr.env[vid] = Cell(self.copy(c, ty) if by in ('cls', 'vec', 'map', 'tup', 'opt', 'variant') else c.v)
                else:
                    fr.env[vid] = Cell(w(c) if w else c)
                self.steps += 1
                if self.steps > LIMIT:
                    raise Failed('a loop does not end')
                r = b(fr)
                if r is not None and r is not CNT:
                    if temp and isinstance(v, Obj):
                        self.destroy(v, v.cls)
                    return RET if r is RET else None
            if temp and isinstance(v, Obj):
                self.destroy(v, v.cls)
        return f

    def iterate(self, v, static=None):
        if isinstance(v, Vec):
            k = 0
            n = len(v.c)
            while k < n:
                yield v.c[k]
                if len(v.c) != n:
                    raise Failed('a vector changes while it is iterated')
                k += 1
        elif isinstance(v, Map):
            ks = v.keys()
            for k in ks:
                x = v.d.get(k)
                if x is None:
                    raise Failed('an element is removed while it is visited')
                yield x if v.set else Cell(x)
                if len(v.d) != len(ks):
                    raise Failed('a container changes while it is iterated')
        elif isinstance(v, IList):
            k = 0
            std = v.ty.startswith('std::list')
            while k < len(v.e):
                x = v.e[k]
                yield x if std else Cell(x)
                for k2, y in enumerate(v.e):
                    if y is x:
                        break
                else:
                    raise Failed('an element is removed while it is visited')
                k = k2 + 1
        elif isinstance(v, str):
            for c in v:
                yield Cell(ord(c))
        elif isinstance(v, Tup) and len(v.c) == 2 and isinstance(v.c[0].v, (It, MIt, LIt)):
            a, b = v.c[0].v, v.c[1].v
            while not self.same_it(a, b):
                yield self.deref_it(a)
                a = self.step(a, 1)
        elif isinstance(v, Obj):
            if static in self.P.classes and static != v.cls and self.P.is_a(v.cls, static):
                # what the static type says: begin and end need not be virtual
                a, b = [self.call(self.lookup(static, x, 0), [], v) for x in ('begin', 'end')]
                a, b = [x.v if type(x) is Cell else x for x in (a, b)]
            else:
                a, b = self.do(v, 'begin'), self.do(v, 'end')
            while True:
                if isinstance(a, Obj):
                    ne = self.lookup(a.cls, 'operator!=', 1)
                    r = self.call(ne, [b], a) if ne else not self.val(self.call(self.lookup(a.cls, 'operator==', 1), [b], a))
                    if not (r.v if type(r) is Cell else r):
                        return
                    yield self.call(self.lookup(a.cls, 'operator*', 0), [], a)
                    self.call(self.lookup(a.cls, 'operator++', 0), [], a)
                else:
                    if self.same_it(a, b):
                        return
                    yield self.deref_it(a)
                    a = self.step(a, 1)
        else:
            raise Unknown('range %r' % (v,))

    def s_switch(self, n):
        _, line, cv, c, body = n[:5]
        d = self.declare(cv) if cv else None
        t = self.ev(c)
        flat = []
        for st in body[1] if body and body[0] == 'block' else [body]:
            labels = []
            while st and st[0] in ('case', 'default'):
                labels.append(self.ev(st[2]) if st[0] == 'case' else None)
                st = st[3] if st[0] == 'case' else st[2]
            flat.append((labels, self.st(st) if st else nothing))

        def f(fr):
            if d:
                d(fr)
            x = self.val(t(fr))
            start = None
            for i, (ls, _) in enumerate(flat):
                if any(l is not None and self.val(l(fr)) == x for l in ls):
                    start = i
                    break
            if start is None:
                for i, (ls, _) in enumerate(flat):
                    if any(l is None for l in ls):
                        start = i
            if start is None:
                return
            for _, s in flat[start:]:
                r = s(fr)
                if r is not None:
                    return None if r is BRK else r
        return f

    def s_ret(self, n):
        if not n[2]:
            return lambda fr: RET
        v = self.ev(n[2])

        def f(fr):
            fr.ret = v(fr)
            return RET
        return f

    def s_break(self, n):
        return lambda fr: BRK

    def s_continue(self, n):
        return lambda fr: CNT

    def s_throw(self, n):
        return self.ev(n)

    def s_try(self, n):
        b, hs = self.st(n[2]), [self.st(h) for h in n[3]]

        def f(fr):
            try:
                return b(fr)
            except Failed:
                raise
            except Thrown:
                return hs[0](fr)
        return f

    # ---- expressions
    def ev(self, e):
        k = id(e)
        f = self.code.get(k)
        if f is None:
            m = getattr(self, 'e_' + e[0], None)
            try:
                if m is None:
                    raise Unknown('expression %s' % e[0])
                f = m(e)
            except Unknown as x:
                f = later(x)
            self.code[k] = f
            self.keep.append(e)
        return f

    def rv(self, e):
        f = self.ev(e)

        def g(fr):
            v = f(fr)
            return v.v if type(v) is Cell else v
        return g

    @staticmethod
    def val(x):
        return x.v if type(x) is Cell else x

    def e_int(self, e):
        v = int(e[1])
        return lambda fr: v

    def e_chr(self, e):
        v = int(e[1])
        return lambda fr: v

    def e_flt(self, e):
        v = float(e[1])
        return lambda fr: v

    def e_bool(self, e):
        v = int(e[1] in (1, True, 'true', '1'))
        return lambda fr: v

    def e_str(self, e):
        v = e[1]
        return lambda fr: v

    def e_enum(self, e):
        v = int(e[2])
        return lambda fr: v

    def e_null(self, e):
        return lambda fr: None

    e_predef = e_null

    def e_x(self, e):
        if e[1] == 'SourceLocExpr':
            return lambda fr: ''
        raise Unknown('expression %s' % e[1])

    def e_zero(self, e):
        return lambda fr: self.default(e[1])

    def e_fn(self, e):
        d = FnPtr(e[1])
        return lambda fr: d

    def e_sizeof(self, e):
        t = clean(e[1]) if type(e[1]) is str else ''
        if t not in WIDTH:
            raise Unknown('sizeof')
        v = max(WIDTH[t][0] // 8, 1)
        return lambda fr: v

    def e_typeid(self, e):
        if type(e[1]) is str:
            t = 'typeid ' + clean(e[1])
            return lambda fr: t
        f = self.rv(e[1])
        return lambda fr: 'typeid ' + getattr(f(fr), 'cls', '?')

    def e_this(self, e):
        return lambda fr: fr.this

    def e_var(self, e):
        vid = e[1]

        def f(fr):
            try:
                return fr.env[vid]
            except KeyError:
                raise Unknown('variable %s' % e[2])
        return f

    def e_bind(self, e):
        vid, name, mem, idx = e[1], e[2], e[3], e[4]
        if mem:
            return self.ev(mem)

        def f(fr):
            v = fr.env[vid].v
            if isinstance(v, (Tup, Vec)):
                return v.c[idx]
            if isinstance(v, Obj):
                fs = self.P.classes[v.cls].fields
                return v.f[v.cls, fs[idx][0]]
            raise Unknown('structured binding')
        return f

    def e_gvar(self, e):
        q, c = e[1], e[2] if len(e) > 2 else ''
        if c:
            v = int(c)
            return lambda fr: v
        if q.startswith('std::'):
            return lambda fr: None

        q2 = ('static', q)

        def f(fr):
            if q2 in fr.env:
                return fr.env[q2]
            if q not in self.statics:
                g = self.P.globals.get(q)
                if g is None:
                    raise Unknown('global %s' % q)
                v = self.ev(g['init'])(Frame({}, None)) if g['init'] else self.default(g['ty'])
                self.statics[q] = v if g['ty'].endswith('&') and type(v) is Cell else Cell(self.val(v))
            return self.statics[q]
        return f

    def e_mem(self, e):
        name, cls = e[2], e[3]
        k = (cls, name)
        if cls.startswith('std::') and name in ('first', 'second'):
            i = 0 if name == 'first' else 1
            b = self.rv(e[1])

            def f(fr):
                v = b(fr)
                if not isinstance(v, Tup):
                    raise Unknown('member of %r' % (v,))
                return v.c[i]
            return f
        if not e[1] or e[1] == ['this']:
            def f(fr):
                try:
                    return fr.this.f[k]
                except (KeyError, AttributeError):
                    return self.member_error(fr.this, k)
            return f
        b = self.rv(e[1])

        def f(fr):
            o = b(fr)
            try:
                if o.dead:
                    raise Failed('use of a deleted object (%s)' % name)
                return o.f[k]
            except (KeyError, AttributeError):
                return self.member_error(o, k)
        return f

    def member_error(self, o, k):
        if o is None:
            raise Failed('member %s of a null pointer' % k[1])
        if isinstance(o, Obj) and o.cls in self.quiet:
            return Cell(None)
        if isinstance(o, At):
            return self.member_error(o.cell.v, k) if not (isinstance(o.cell.v, Obj) and k in o.cell.v.f) else o.cell.v.f[k]
        raise Unknown('member %s of %r' % (k, o))

    def e_asg(self, e):
        op = e[1]
        r = self.ev(e[3])
        l = self.ev(e[2])
        if op == '=':
            w = wrapper(e[5]) if len(e) > 5 else None

            def f(fr):
                v = r(fr)
                if type(v) is Cell:
                    v = v.v
                c = l(fr)
                if type(c) is not Cell:
                    raise Unknown('assignment to no variable')
                c.v = w(v) if w else v
                return c
            return f
        fn = self.arith(op[:-1], e[5] if len(e) > 5 else '')

        def g(fr):
            v = r(fr)
            if type(v) is Cell:
                v = v.v
            c = l(fr)
            c.v = fn(c.v, v)
            return c
        return g

    def arith(self, op, ty):
        w = wrapper(ty) if ty else None
        t = clean(ty) if ty else ''
        if op in ('==', '!='):
            eq = op == '=='

            def f(a, b):
                if type(a) in (int, bool, str) and type(b) in (int, bool, str):
                    if w:
                        a, b = w(a), w(b)
                    return int((a == b) == eq)
                return int(self.same(a, b) == eq)
            return f
        if op in ('<', '<=', '>', '>='):
            import operator
            cmp = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op]

            def f(a, b):
                if isinstance(a, Obj) and isinstance(b, Obj):
                    return int(cmp(a.n, b.n))
                if w:
                    a, b = w(a), w(b)
                if isinstance(a, It):
                    return int(cmp(a.i, b.i)) if not a.rev else int(cmp(b.i, a.i))
                return int(cmp(a, b))
            return f
        bits = max(WIDTH[t][0], 32) if t in WIDTH else 64

        def g(a, b):
            if isinstance(a, It) or isinstance(b, It):
                return self.it_arith(op, a, b)
            if type(a) not in (int, bool, float) or type(b) not in (int, bool, float):
                if a is None or b is None:
                    raise Failed('arithmetic on null')
                raise Unknown('arithmetic on %r, %r' % (a, b))
            if op == '+':
                v = a + b
            elif op == '-':
                v = a - b
            elif op == '*':
                v = a * b
            elif op in ('/', '%'):
                if b == 0:
                    raise Failed('division by zero')
                if type(a) is float or type(b) is float:
                    return a / b
                if w:
                    a, b = w(a), w(b)
                q = abs(a) // abs(b)
                q = -q if (a < 0) != (b < 0) else q
                v = q if op == '/' else a - q * b
            elif op in ('<<', '>>'):
                if not 0 <= b < bits:
                    raise Failed('shift by %d' % b)
                v = a << b if op == '<<' else a >> b
            elif op == '&':
                v = a & b
            elif op == '|':
                v = a | b
            elif op == '^':
                v = a ^ b
            else:
                raise Unknown('operator ' + op)
            return w(v) if w else v
        return g

    def same(self, a, b):
        """identity of pointers, equality of numbers"""
        if a is b:
            return True
        if isinstance(a, (At, It, MIt, LIt)) and type(a) is type(b):
            return a == b if isinstance(a, At) else self.same_it(a, b)
        if type(a) in (int, bool, str, float) and type(b) in (int, bool, str, float):
            return a == b
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.d.key == b.d.key
        return False

    def e_bin(self, e):
        op = e[1]
        if op == '&&':
            a, b = self.truth(e[2]), self.truth(e[3])
            return lambda fr: 1 if a(fr) and b(fr) else 0
        if op == '||':
            a, b = self.truth(e[2]), self.truth(e[3])
            return lambda fr: 1 if a(fr) or b(fr) else 0
        if op == ',':
            a, b = self.ev(e[2]), self.ev(e[3])

            def f(fr):
                a(fr)
                return b(fr)
            return f
        a, b = self.ev(e[2]), self.ev(e[3])
        fn = self.arith(op, e[5] if len(e) > 5 else '')

        def g(fr):
            x = a(fr)
            if type(x) is Cell:
                x = x.v
            y = b(fr)
            if type(y) is Cell:
                y = y.v
            return fn(x, y)
        return g

    def e_un(self, e):
        op = e[1]
        if op == '__extension__':
            return self.ev(e[2])
        if op == '*':
            if e[2] == ['this']:
                return lambda fr: Cell(fr.this)
            a = self.rv(e[2])
            return lambda fr: self.deref(a(fr))
        if op == '&':
            ty = e[4] if len(e) > 4 else ''
            a = self.ev(e[2])
            if e[2][0] == 'fn':
                return a
            k = kind(ty)
            vecelem = None
            if e[2][0] == 'idx' or e[2][0] == 'call' and e[2][1].name == 'operator[]' and e[2][2]:
                vecelem = (self.rv(e[2][1]), self.rv(e[2][2])) if e[2][0] == 'idx' else (self.rv(e[2][2]), self.rv(e[2][3][0]))
            obj = k in ('cls', 'vec', 'map', 'list', 'opt', 'tup', 'variant', 'stream') and clean(ty) not in self.P.enums

            def f(fr):
                if vecelem and not obj:
                    v, i = vecelem[0](fr), vecelem[1](fr)
                    if isinstance(v, It):
                        return It(v.vec, v.i + i)
                    if isinstance(v, Vec):
                        return It(v, i)
                v = a(fr)
                if obj:
                    return v.v if type(v) is Cell else v
                if type(v) is not Cell:
                    v = Cell(v)
                return At(v)
            return f
        if op in ('++', '--', 'p++', 'p--'):
            a = self.ev(e[2])
            post = op[0] == 'p'
            k = 1 if op[-1] == '+' else -1
            w = wrapper(e[4]) if len(e) > 4 else None

            def f(fr):
                c = a(fr)
                old = c.v
                c.v = (w(old + k) if w else old + k) if type(old) is int else self.step(old, k)
                return old if post else c
            return f
        a = self.rv(e[2])
        if op == '!':
            return lambda fr: 0 if a(fr) else 1
        w = wrapper(e[4]) if len(e) > 4 else (lambda v: v)
        if op == '-':
            return lambda fr: w(-a(fr))
        if op == '~':
            return lambda fr: w(~a(fr))
        if op == '+':
            return a
        raise Unknown('operator ' + op)

    def deref(self, p):
        t = type(p)
        if t is Obj:
            if p.dead:
                raise Failed('use of a deleted object')
            return Cell(p)
        if p is None:
            raise Failed('null pointer dereference')
        if t is At:
            return p.cell
        if t in (It, MIt, LIt):
            return self.deref_it(p)
        if t in (Vec, Map, Opt, Tup, Variant, IList, Stream):
            return Cell(p)
        if t is str:
            return Cell(ord(p[0]) if p else 0)
        raise Unknown('dereference of %r' % (p,))

    def e_cond(self, e):
        c, a, b = self.truth(e[1]), self.ev(e[2]), self.ev(e[3])
        return lambda fr: a(fr) if c(fr) else b(fr)

    def e_elvis(self, e):
        a, b = self.rv(e[1]), self.ev(e[2])
        return lambda fr: a(fr) or b(fr)

    def e_cast(self, e):
        how, ty = e[1], e[2]
        a = self.ev(e[3])
        t = clean(ty)
        if t == 'void':
            def f(fr):
                a(fr)
            return f
        w = wrapper(ty)
        if w and not ty.endswith('&'):
            return lambda fr: w(self.val(a(fr)))
        if how == 'dynamic':
            ref = ty.rstrip().endswith('&')
            u = clean(t[:-1]) if t.endswith('*') else t

            def f(fr):
                v = self.val(a(fr))
                if v is None:
                    return None
                if not isinstance(v, Obj):
                    raise Unknown('dynamic_cast of %r' % (v,))
                if v.dead:
                    raise Failed('use of a deleted object')
                if self.isa(v, u):
                    return v
                if ref:
                    raise Thrown('bad cast')
                return None
            return f
        if how == 'static' and t.endswith('*') or how == 'static' and ty.endswith('&') and kind(t) == 'cls':
            u = clean(t[:-1]) if t.endswith('*') else t

            def f(fr):
                c = a(fr)
                v = self.val(c)
                if isinstance(v, Obj) and u in self.P.classes and not self.isa(v, u) and v.cls not in self.quiet:
                    raise Failed('an object is cast to a class it is not of: %s' % u)
                return c
            return f
        return a

    def e_idx(self, e):
        a, b = self.rv(e[1]), self.rv(e[2])

        def f(fr):
            v, i = a(fr), b(fr)
            if isinstance(v, It):
                return self.deref_it(It(v.vec, v.i + i))
            if isinstance(v, Vec):
                return self.deref_it(It(v, i))
            if isinstance(v, str):
                return ord((v + '\0')[i])
            raise Unknown('index')
        return f

    def e_throw(self, e):
        cls = e[1][2] if e[1] and e[1][0] == 'ctor' else None
        msg = None
        if e[1]:
            from sa.facts import walk
            msg = next((x[1] for x in walk(e[1]) if x[0] == 'str'), None)

        def f(fr):
            raise Thrown('exception %s %s' % (cls, msg or ''), cls)
        return f

    def e_del(self, e):
        a = self.rv(e[1])

        def f(fr):
            v = a(fr)
            if isinstance(v, Obj):
                self.delete(v)
        return f

    def e_new(self, e):
        ty = clean(e[1])
        i = self.ev(e[2]) if e[2] else None

        def f(fr):
            v = self.val(i(fr)) if i else self.default(ty)
            return v if kind(ty) in ('cls', 'vec', 'map', 'list', 'opt', 'tup') else At(Cell(v))
        return f

    def e_ilist(self, e):
        vs = [self.ev(x) if x else None for x in e[2]]
        t = clean(e[1]) if type(e[1]) is str else ''
        k = kind(t)
        if k == 'cls' and t in self.P.classes:
            c = self.P.classes[t]

            def f(fr):
                o = Obj(t)
                xs = [x(fr) if x else None for x in vs]
                j = 0
                for b in c.bases:
                    if b in self.P.classes:
                        if j < len(xs) and isinstance(self.val(xs[j]), Obj) and self.val(xs[j]).cls == b:
                            o.f.update(self.val(xs[j]).f)
                            j += 1
                for x in c.fields:
                    if j < len(xs) and (xs[j] is not None or True):
                        v = xs[j]
                        j += 1
                        if x[1].endswith('&'):
                            o.f[t, x[0]] = v if type(v) is Cell else Cell(v)
                        else:
                            w = wrapper(x[1])
                            v = self.val(v)
                            o.f[t, x[0]] = Cell(w(v) if w else v)
                    else:
                        o.f[t, x[0]] = self.field(x, o)
                return o
            return f
        if k == 'vec':
            if t.endswith(']'):
                el = t[:t.rindex('[')].strip()
            else:
                a = tmpl(t)[1]
                el = a[0] if a else ''

            def f(fr):
                xs = [self.val(x(fr)) for x in vs]
                if len(xs) == 1 and isinstance(xs[0], Vec) and t.startswith('std::array'):
                    return xs[0]
                w = wrapper(el)
                v = Vec([Cell(w(x) if w else x) for x in xs], el, t)
                if t.endswith(']') and t[t.rindex('[') + 1:-1].isdigit():
                    while len(v.c) < int(t[t.rindex('[') + 1:-1]):
                        v.c.append(Cell(self.default(el)))
                return v
            return f
        w = wrapper(t)
        if not vs:
            return lambda fr: self.default(t)
        if len(vs) == 1:
            return lambda fr: w(self.val(vs[0](fr))) if w else self.val(vs[0](fr))
        return lambda fr: Vec([Cell(self.val(x(fr))) for x in vs], '', t)

    def e_lambda(self, e):
        caps = []
        for c in e[1]:
            if c[0] in ('ref', 'val'):
                caps.append((c[0] == 'val', c[1], self.ev(c[3]) if len(c) > 3 and c[3] else None))

        def f(fr):
            env = dict(fr.env)      # constants are used without being captured
            for val, vid, init in caps:
                if init:
                    v = init(fr)
                    env[vid] = Cell(self.val(v)) if val else v
                else:
                    c = fr.env.get(vid)
                    if c is None:
                        raise Unknown('captured variable')
                    env[vid] = Cell(c.v) if val else c
            return Closure(e, env, fr.this)
        return f

    def e_ctor(self, e):
        d, cls, args = e[1], clean(e[2]), [self.ev(a) for a in e[3]]
        k = kind(cls)
        if cls in self.quiet:
            return lambda fr: Obj(cls)
        if k in ('uptr', 'sptr'):
            if not args:
                return lambda fr: None
            ptr = 'unique_ptr<' in d.sig and k == 'uptr'
            a = args[0]
            if len(args) == 2 and k == 'sptr' and 'shared_ptr<' in d.sig and d.sig.count(',') == 1:
                a = args[1]
            if ptr:
                def f(fr):
                    v = a(fr)
                    if type(v) is Cell:
                        c, v = v, v.v
                        c.v = None
                    return v
                return f

            def f(fr):
                v = a(fr)
                if type(v) is Cell:
                    c, v = v, v.v
                    if 'unique_ptr<' in d.sig:
                        c.v = None
                return v
            return f
        if k == 'cls':
            def f(fr):
                xs = [a(fr) for a in args]
                if cls in self.P.classes:
                    o = Obj(cls)
                    self.construct(o, cls, d, xs)
                    return o
                if cls.startswith('lambda@'):
                    return self.val(xs[0])
                raise Unknown('class %s' % cls)
            return f
        if k == 'fn':
            if not args:
                return lambda fr: None
            return lambda fr: self.val(args[0](fr))
        if k == 'stream':
            return lambda fr: Stream()

        def g(fr):
            return self.make(cls, k, d, [a(fr) for a in args])
        return g

    def make(self, cls, k, d, xs):
        """an object of a library class"""
        v = [self.val(x) for x in xs]
        if k == 'vec':
            n, a = tmpl(cls)
            el = a[0] if a else ''
            if n in ('std::stack', 'std::queue') and v and isinstance(v[0], Vec):
                return self.copy(v[0], cls)
            v = [x for x in v if not (x is None and 'allocator' in d.sig)] if len(v) > 1 else v
            if not v or v == [None]:
                return self.default(cls)
            if isinstance(v[0], Vec):
                x = self.copy(v[0], cls)
                return Vec(x.c, el, cls)
            if isinstance(v[0], (It, MIt, LIt)):
                return Vec([Cell(self.copy(c, el)) for c in self.span(v[0], v[1])], el, cls)
            if type(v[0]) in (int, bool):
                if v[0] > 1000000:
                    raise Failed('bad allocation')
                w = wrapper(el)
                return Vec([Cell((w(v[1]) if w else self.copy(v[1], el)) if len(v) > 1 else self.default(el)) for _ in range(v[0])], el, cls)
            if isinstance(v[0], Obj) and len(v) == 2:
                return Vec([Cell(self.copy(c, el)) for c in self.span(v[0], v[1])], el, cls)
        elif k == 'map':
            m = Map(cls)
            if not v or not v[0]:
                return m
            if isinstance(v[0], Map):
                return self.copy(v[0], cls)
            if isinstance(v[0], Vec):
                for c in v[0].c:
                    self.insert(m, c)
                return m
            if isinstance(v[0], (It, MIt, LIt, Obj)) and len(v) > 1:
                for c in self.span(v[0], v[1]):
                    self.insert(m, c)
                return m
            if type(v[0]) is int:
                return m
        elif k == 'list':
            if not v:
                return self.default(cls)
            return self.copy(xs[0], cls)
        elif k == 'opt':
            t = tmpl(cls)[1][0]
            if not v or v[0] is None and 'nullopt' in d.sig:
                return Opt(None, cls)
            if isinstance(v[0], Opt) and kind(t) != 'opt':
                return Opt(None if v[0].c is None else Cell(self.copy(v[0].c, t)), cls)
            w = wrapper(t)
            return Opt(Cell(w(v[0]) if w else self.copy(xs[0], t)), cls)
        elif k == 'variant':
            if not v:
                return self.default(cls)
            if isinstance(v[0], Variant):
                return self.copy(v[0], cls)
            return self.variant(cls, d, xs[0])
        elif k == 'tup':
            ts = tmpl(cls)[1]
            if not v:
                return self.default(cls)
            if len(v) == 1 and isinstance(v[0], Tup):
                return Tup([c if t.endswith('&') else Cell(self.conv(c, t)) for c, t in zip(v[0].c, ts)], cls)
            return Tup([(x if type(x) is Cell else Cell(x)) if t.endswith('&') else Cell(self.conv(x, t)) for x, t in zip(xs, ts)], cls)
        elif k == 'str':
            if not v or v[0] is None:
                return ''
            if isinstance(v[0], str):
                if len(v) > 1 and type(v[1]) is int:
                    return v[0][:v[1]]
                return v[0]
            if type(v[0]) is int and len(v) > 1:
                return chr(v[1]) * v[0]
            if isinstance(v[0], It) and len(v) > 1 and type(v[1]) is int:
                v[1] = self.step(v[0], v[1])
            if isinstance(v[0], It):
                return ''.join(chr(c.v) for c in self.span(v[0], v[1]))
        elif k == 'std':
            n = tmpl(cls)[0]
            if 'iterator' in n.lower() or n.startswith('std::_'):
                x = v[0] if v else None
                if n == 'std::reverse_iterator' and isinstance(x, It) and not x.rev:
                    return It(x.vec, x.i, True)
                return x
            if n in ('std::allocator', 'std::hash', 'std::equal_to', 'std::nullopt_t', 'std::less', 'std::default_delete', 'std::type_index'):
                return v[0] if v and n == 'std::type_index' else None
            if n.endswith(('error', 'range', 'exception')):
                return None
        raise Unknown('construction of %s' % cls)

    def conv(self, x, t):
        w = wrapper(t)
        if w:
            return w(self.val(x))
        v = self.val(x)
        if kind(t) == 'opt' and not isinstance(v, Opt):
            return Opt(Cell(self.copy(x, tmpl(t)[1][0])), clean(t))
        return self.copy(x, t)

    def variant(self, cls, d, x):
        alts = tmpl(cls)[1]
        p = d.sig[1:d.sig.rindex(')')]
        t = clean(p)
        v = self.val(x)
        cand = [i for i, a in enumerate(alts) if clean(a) == t]
        if not cand:
            cand = [i for i, a in enumerate(alts) if clean(a).replace('const ', '') == t.replace('const ', '')]
        if not cand and isinstance(v, Obj):
            cand = [i for i, a in enumerate(alts) if self.isa(v, clean(clean(a).rstrip('*')))]
        if not cand:
            raise Unknown('variant %s of %s' % (cls, t))
        return Variant(Cell(self.copy(x, alts[cand[0]])), cand[0], cls)

    def span(self, a, b):
        """the cells between two iterators"""
        if isinstance(a, It):
            if a.vec is not b.vec:
                raise Failed('iterators of different ranges')
            if a.rev:
                return a.vec.c[b.i:a.i][::-1]
            if not 0 <= a.i <= b.i <= len(a.vec.c):
                raise Failed('bad range')
            return a.vec.c[a.i:b.i]
        out = []
        if isinstance(a, Obj):
            a = self.copy(a, a.cls)
            for _ in range(100000):
                r = self.call(self.lookup(a.cls, 'operator!=', 1), [b], a)
                if not self.val(r):
                    return out
                x = self.call(self.lookup(a.cls, 'operator*', 0), [], a)
                out.append(x if type(x) is Cell else Cell(x))
                self.call(self.lookup(a.cls, 'operator++', 0), [], a)
        while not self.same_it(a, b):
            x = self.deref_it(a)
            out.append(x)
            a = self.step(a, 1)
        return out

    # ---- iterators
    def deref_it(self, p):
        if isinstance(p, It):
            i = p.i - 1 if p.rev else p.i
            if not 0 <= i < len(p.vec.c):
                raise Failed('access out of range')
            return p.vec.c[i]
        if isinstance(p, MIt):
            x = p.m.d.get(p.k)
            if p.k is None and x is None or x is None:
                raise Failed('access to no element')
            return x if p.m.set else Cell(x)
        if isinstance(p, LIt):
            if p.x is None:
                raise Failed('access to no element')
            return p.x if type(p.x) is Cell else Cell(p.x)
        if p is None:
            raise Failed('null pointer dereference')
        raise Unknown('iterator %r' % (p,))

    def step(self, p, k):
        if isinstance(p, It):
            return It(p.vec, p.i - k if p.rev else p.i + k, p.rev)
        if isinstance(p, MIt):
            ks = p.m.keys()
            if p.k is not None and p.k not in p.m.d:
                raise Failed('an iterator without element')
            i = (ks.index(p.k) if p.k is not None else len(ks)) + k
            if not 0 <= i <= len(ks):
                raise Failed('iterator out of range')
            return MIt(p.m, ks[i] if i < len(ks) else None)
        if isinstance(p, LIt):
            i = self.pos(p.l, p.x) + k
            if not 0 <= i <= len(p.l.e):
                raise Failed('iterator out of range')
            return LIt(p.l, p.l.e[i] if i < len(p.l.e) else None)
        if type(p) is int:
            return p + k
        raise Unknown('step of %r' % (p,))

    def pos(self, l, x):
        if x is None:
            return len(l.e)
        for i, y in enumerate(l.e):
            if y is x:
                return i
        raise Failed('an element that is not in the list')

    def same_it(self, a, b):
        if isinstance(a, It) and isinstance(b, It):
            return a.vec is b.vec and a.i == b.i
        if isinstance(a, MIt) and isinstance(b, MIt):
            return a.m is b.m and a.k == b.k
        if isinstance(a, LIt) and isinstance(b, LIt):
            return a.l is b.l and a.x is b.x
        return a is b

    def it_arith(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It) and op == '-':
            return (a.i - b.i) * (-1 if a.rev else 1)
        if isinstance(b, It):
            a, b = b, a
        return self.step(a, b if op == '+' else -b)

    def key(self, v):
        """the identity of a key"""
        v = v.v if type(v) is Cell else v
        t = type(v)
        if t in (int, str, At) or v is None:
            return ('none',) if v is None else v
        if t is bool:
            return int(v)
        if t is Obj:
            return v
        if t is Tup or t is Vec:
            return (t.__name__,) + tuple(self.key(c) for c in v.c)
        if t is Variant:
            return ('variant', v.i, self.key(v.c))
        if t is Opt:
            return ('opt', None if v.c is None else self.key(v.c))
        if t is Map:
            return ('map', frozenset((k, None if v.set else self.key(x.c[1])) for k, x in v.d.items()))
        if t is float:
            return v
        raise Unknown('key %r' % (v,))

    def keyof(self, m, v):
        t = m.args[0]
        if kind(t) == 'cls' and clean(t) not in self.P.enums:
            return self.structure(self.val(v))
        return self.key(v)

    def structure(self, o):
        if not isinstance(o, Obj):
            return self.key(o)
        out = [o.cls]
        for c in self.order(o.cls):
            k = self.P.classes.get(c)
            for x in k.fields if k else ():
                w = o.f[c, x[0]].v
                out.append(self.structure(w) if isinstance(w, Obj) and kind(x[1]) == 'cls' else self.key(w))
        return tuple(out)

    def insert(self, m, x, over=False):
        """insert a set element or a pair; True if new"""
        v = self.val(x)
        if m.set:
            k = self.keyof(m, x)
            if k in m.d:
                return k, False
            m.d[k] = Cell(self.conv(x, m.args[0]))
            return k, True
        if not isinstance(v, Tup):
            raise Unknown('insertion of %r' % (v,))
        return self.put(m, v.c[0], v.c[1], over)

    def put(self, m, a, b, over=False):
        k = self.keyof(m, a)
        if k in m.d:
            if over:
                m.d[k].c[1].v = self.conv(b, m.args[1])
            return k, False
        m.d[k] = Tup([Cell(self.conv(a, m.args[0])), Cell(self.conv(b, m.args[1]))], 'std::pair<const %s, %s>' % (m.args[0], m.args[1]))
        return k, True

    def equal(self, a, b):
        """operator== of library values"""
        a, b = self.val(a), self.val(b)
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(a, Opt) and isinstance(b, Opt):
                if a.c is None or b.c is None:
                    return a.c is None and b.c is None
                return self.equal(a.c, b.c)
            o, x = (a, b) if isinstance(a, Opt) else (b, a)
            if o.c is None:
                return x is None and not kind(tmpl(o.ty)[1][0]) in ('ptr', 'sptr')
            return self.equal(o.c, x)
        if isinstance(a, (Vec, Tup)) and isinstance(b, (Vec, Tup)):
            if len(a.c) != len(b.c):
                return False
            el = a.elem if isinstance(a, Vec) else ''
            return all(self.equal_as(x, y, el) for x, y in zip(a.c, b.c))
        if isinstance(a, Map) and isinstance(b, Map):
            if len(a.d) != len(b.d):
                return False
            return all(k in b.d and (a.set or self.equal(a.d[k].c[1], b.d[k].c[1])) for k in a.d)
        if isinstance(a, Variant) and isinstance(b, Variant):
            return a.i == b.i and self.equal(a.c, b.c)
        return self.same(a, b)

    def equal_as(self, x, y, el):
        if el and kind(el) == 'cls':
            a, b = self.val(x), self.val(y)
            f = self.lookup(a.cls, 'operator==', 1)
            if f is not None:
                return bool(self.val(self.call(f, [b], a)))
        return self.equal(x, y)

    # ---- calls
    def e_ucall(self, e):
        f, args = self.rv(e[1]), [self.ev(a) for a in e[2]]
        return lambda fr: self.invoke(f(fr), [a(fr) for a in args])

    def e_call(self, e):
        d, args = e[1], [self.ev(a) for a in e[3]]
        o = self.ev(e[2]) if e[2] else None
        name, cls = d.name, d.cls or ''
        if d.q == '__assert_fail':
            cond = e[3][0][1] if e[3] and e[3][0][0] == 'str' else ''
            line = e[4]

            def f(fr):
                raise Failed('assertion %s fails in line %s' % (cond, line))
            return f
        n = self.natives.get(d.q)
        if n is not None:
            if o is None:
                return lambda fr: n(self, d, [a(fr) for a in args])
            return lambda fr: n(self, d, [o(fr)] + [a(fr) for a in args])
        if cls in self.quiet or any(cls.startswith(q + '::') for q in ('jlm::util::Statistics',)):
            ret = d.ret

            def f(fr):
                if name in ('Create',):
                    return Obj(cls)
                if ret.endswith('&') and kind(ret) == 'cls':
                    return Obj(clean(ret))
                return self.default(ret) if kind(ret) in ('num', 'str', 'vec') else None
            return f
        if d.q.startswith('jlm::rvsdg::MatchType'):
            return self.match_type(d, args)
        if o is None and d.q.startswith(('std::', '__gnu_cxx::')) or cls.startswith(('std::', '__gnu_cxx::')) or \
                cls.startswith(('jlm::util::IntrusiveList<', 'jlm::util::OwnerIntrusiveList<')):
            if o is None:
                m = STD.get(name)
                if m is None:
                    raise Unknown('call of %s' % d.q)
                return lambda fr: m(self, d, [a(fr) for a in args])

            def f(fr):
                c = o(fr)
                return self.member(d, name, c, c.v if type(c) is Cell else c, [a(fr) for a in args])
            return f
        if cls.startswith('lambda@'):
            return lambda fr: self.invoke(self.val(o(fr)), [a(fr) for a in args])
        if d.dflt and name == 'operator=':
            return lambda fr: self.assign_value(o(fr), args[0](fr), cls)
        if o is None or d.static:
            body = self.body(d)
            if body is None:
                raise Unknown('call of %s%s' % (d.q, d.ta))
            return lambda fr: self.call(body, [a(fr) for a in args])
        qual = len(e) > 5 and e[5]
        static = self.body(d)
        if not d.virt or qual:
            if static is None:
                mm = self.methods
                if not any(k[1] == name for k in mm):
                    raise Unknown('call of %s%s' % (d.q, d.ta))

            def f(fr):
                v = o(fr)
                if type(v) is Cell:
                    v = v.v
                xs = [a(fr) for a in args]
                if v is None:
                    raise Failed('call of %s on a null pointer' % name)
                if type(v) is Obj and v.dead:
                    raise Failed('call of %s on a deleted object' % name)
                if static is None:
                    return self.dispatch(v, d, xs)
                return self.call(static, xs, v)
            return f

        def f(fr):
            v = o(fr)
            if type(v) is Cell:
                v = v.v
            return self.dispatch(v, d, [a(fr) for a in args])
        return f

    def dispatch(self, v, d, xs):
        if type(v) is not Obj:
            if v is None:
                raise Failed('call of %s on a null pointer' % d.name)
            if isinstance(v, At):
                return self.dispatch(v.cell.v, d, xs)
            raise Unknown('call of %s on %r' % (d.q, v))
        if v.dead:
            raise Failed('call of %s on a deleted object' % d.name)
        k = (v.cls, d.name, d.sig)
        f = self.vt.get(k)
        if f is None:
            f = self.override(v.cls, d)
            if f is None:
                raise Unknown('method %s of %s' % (d.q, v.cls))
            self.vt[k] = f
        if hasattr(f, 'body'):
            return self.call(f, xs, v)
        return f(self, v, xs)

    def override(self, cls, d):
        for c in self.order(cls):
            if (c, d.name) in self.methods:
                return self.methods[c, d.name]
            k = self.P.classes.get(c)
            for m in k.methods if k else ():
                if m[1] == d.name and m[0].sig == d.sig:
                    f = self.body(m[0])
                    if f is not None:
                        return f
        return None

    def match_type(self, d, args):
        deft = 'WithDefault' in d.q
        fail = 'OrFail' in d.q

        def f(fr):
            o = self.val(args[0](fr))
            fs = [self.val(a(fr)) for a in args[1:]]
            for c in fs:
                ps = c.e[2]
                if not ps:
                    return self.invoke(c, [])
                if self.isa(o, clean(ps[0][2])):
                    return self.invoke(c, [o])
            if fail:
                raise Thrown('incomplete pattern matching on %s' % o.cls)
            return None
        return f

    def member(self, d, n, c, v, args):
        """a member function of a library class; c is the cell of the object, if it has one"""
        if isinstance(v, At):
            v = v.cell.v if not n.startswith('operator') else v
        t = type(v)
        k = kind(d.cls)
        cls = d.cls
        if k in ('uptr', 'sptr') or cls.startswith(('std::__shared_ptr', 'std::__uniq_ptr')):
            return self.m_smart(d, n, c, v, args)
        if k == 'fn':
            if n == 'operator()':
                return self.invoke(v, args)
            if n == 'operator bool':
                return int(v is not None)
            if n == 'operator=':
                c.v = self.val(args[0])
                return c
        if t is Vec:
            return self.m_vec(d, n, c, v, args)
        if t is Map:
            return self.m_map(d, n, c, v, args)
        if t is IList:
            return self.m_list(d, n, c, v, args)
        if t is Opt:
            return self.m_opt(d, n, c, v, args)
        if t is Variant:
            if n == 'operator=':
                x = self.val(args[0])
                if isinstance(x, Variant):
                    v.c, v.i = Cell(self.copy(x.c, tmpl(x.ty)[1][x.i])), x.i
                else:
                    y = self.variant(v.ty, d, args[0])
                    v.c, v.i = y.c, y.i
                return c
            if n == 'index':
                return v.i
        if t is Tup:
            if n == 'operator=':
                return self.assign_value(c, args[0])
        if t is str or k == 'str':
            return self.m_str(d, n, c, v, args)
        if t in (It, MIt, LIt) or 'iterator' in cls.lower():
            return self.m_iter(d, n, c, v, args)
        if t is Stream or 'stream' in cls:
            return self.m_stream(d, n, c, v, args)
        if cls.startswith('std::_Bit_reference'):
            if n == 'operator=':
                c.v = int(bool(self.val(args[0])))
                return c
            return v
        if cls.startswith('std::hash') and n == 'operator()':
            return self.hash(args[0])
        if cls.startswith('std::type_info') or cls.startswith('std::type_index'):
            if n == 'hash_code':
                return self.hash(v)
            if n == 'name':
                return v
            if n in ('operator==', 'operator!='):
                return int((v == self.val(args[0])) == (n == 'operator=='))
        if cls.startswith('std::numeric_limits'):
            return NUM(cls, n)
        if n == 'operator=' and c is not None and type(c) is Cell:
            c.v = self.val(args[0])
            return c
        if t is Closure:
            return self.invoke(v, args)
        raise Unknown('member %s of %s on %r' % (n, cls, v))

    def hash(self, x):
        v = self.val(x)
        if isinstance(v, Obj):
            return v.n * 0x9e3779b97f4a7c15 % (1 << 64)
        if isinstance(v, str):
            h = 7
            for ch in v:
                h = (h * 31 + ord(ch)) % (1 << 64)
            return h
        return v % (1 << 64) if type(v) is int else 0

    def m_smart(self, d, n, c, v, args):
        if n in ('get', 'operator->'):
            if n == 'operator->' and v is None:
                raise Failed('null pointer dereference')
            return v
        if n == 'operator*':
            return self.deref(v)
        if n == 'operator bool':
            return int(v is not None)
        if n == 'release':
            c.v = None
            return v
        if n in ('reset', 'operator='):
            x = args[0] if args else None
            w = self.val(x)
            if type(x) is Cell and 'unique_ptr<' in d.sig:
                if x is c:
                    return c
                x.v = None
            c.v = w
            if kind(d.cls) == 'uptr' and v is not None and v is not w:
                self.destroy(v, d.cls)
            return c
        if n == 'swap':
            c.v, args[0].v = args[0].v, c.v
            return None
        raise Unknown('member %s of %s' % (n, d.cls))

    def m_vec(self, d, n, c, v, args):
        cs = v.c
        a = [self.val(x) for x in args]
        if n in ('operator[]', 'at'):
            if not 0 <= a[0] < len(cs):
                raise Failed('access out of range') if n != 'at' else Thrown('out of range')
            return cs[a[0]]
        if n == 'size':
            return len(cs)
        if n == 'empty':
            return int(not cs)
        if n in ('front', 'back', 'top'):
            if not cs:
                raise Failed('access to an empty container')
            return cs[0 if n == 'front' else -1]
        if n in ('push_back', 'push', 'emplace_back', 'emplace'):
            if n.startswith('emplace') and len(args) != 1 or n == 'emplace_back' and kind(v.elem) == 'cls' and not (isinstance(a[0], Obj) and self.isa(a[0], clean(v.elem))):
                if n == 'emplace' and isinstance(a[0], It):
                    cs.insert(a[0].i, Cell(self.build(v.elem, args[1:], d)))
                    return It(v, a[0].i)
                x = self.build(v.elem, args, d)
            else:
                x = self.conv(args[0], v.elem)
            cs.append(Cell(x))
            return cs[-1] if n.startswith('emplace') else None
        if n in ('pop_back', 'pop', 'pop_front'):
            if not cs:
                raise Failed('access to an empty container')
            i = -1 if n == 'pop_back' or n == 'pop' and tmpl(d.cls)[0] == 'std::stack' else 0
            x = cs.pop(i)
            self.destroy_cells([x], v.elem)
            return None
        if n in ('push_front', 'emplace_front'):
            cs.insert(0, Cell(self.conv(args[0], v.elem)))
            return None
        if n in ('begin', 'cbegin', 'data'):
            return It(v, 0)
        if n in ('end', 'cend'):
            return It(v, len(cs))
        if n in ('rbegin', 'crbegin'):
            return It(v, len(cs), True)
        if n in ('rend', 'crend'):
            return It(v, 0, True)
        if n == 'clear':
            v.c = []
            self.destroy_cells(cs, v.elem)
            return None
        if n in ('reserve', 'shrink_to_fit'):
            return None
        if n == 'resize':
            k = a[0]
            if k < len(cs):
                v.c = cs[:k]
                self.destroy_cells(cs[k:], v.elem)
            else:
                if k > 1000000:
                    raise Failed('bad allocation')
                for _ in range(k - len(cs)):
                    cs.append(Cell(self.conv(a[1], v.elem) if len(a) > 1 else self.default(v.elem)))
            return None
        if n == 'insert':
            if not isinstance(a[0], It) or a[0].vec is not v:
                raise Failed('an iterator of another range')
            i = a[0].i
            if len(a) == 3 and type(a[1]) is int and not isinstance(a[2], (It, MIt, LIt)):
                new = [Cell(self.conv(a[2], v.elem)) for _ in range(a[1])]
            elif len(a) == 3:
                new = [Cell(self.copy(x, v.elem)) for x in self.span(a[1], a[2])]
            elif isinstance(a[1], Vec) and kind(v.elem) != 'vec':
                new = [Cell(self.copy(x, v.elem)) for x in a[1].c]
            else:
                new = [Cell(self.conv(args[1], v.elem))]
            cs[i:i] = new
            return It(v, i)
        if n == 'erase':
            i = a[0].i
            j = a[1].i if len(a) > 1 else i + 1
            if not 0 <= i <= j <= len(cs):
                raise Failed('access out of range')
            old = cs[i:j]
            del cs[i:j]
            self.destroy_cells(old, v.elem)
            return It(v, i)
        if n == 'operator=':
            if isinstance(a[0], Vec):
                x = [Cell(self.copy(y, v.elem)) for y in a[0].c]
                self.destroy_cells(cs, v.elem)
                v.c = x
                return c
        if n == 'assign' and len(a) == 2:
            v.c = [Cell(self.conv(a[1], v.elem)) for _ in range(a[0])] if type(a[0]) is int else [Cell(self.copy(x, v.elem)) for x in self.span(a[0], a[1])]
            return None
        if n == 'swap':
            v.c, a[0].c = a[0].c, v.c
            return None
        if n == 'fill':
            for x in cs:
                x.v = self.conv(args[0], v.elem)
            return None
        raise Unknown('vector member %s' % n)

    def argtypes(self, d):
        ps = d.sig[1:d.sig.rindex(')')]
        return tmpl('x<%s>' % ps)[1] if ps else []

    def build(self, ty, args, d=None, types=None):
        """an object of a type from constructor arguments"""
        k = kind(ty)
        t = clean(ty)
        if types is None and d is not None:
            types = self.argtypes(d)[-len(args):] if args else []
        if k == 'cls' and t not in self.P.enums:
            if t in self.quiet:
                return Obj(t)
            o = Obj(t)
            c = self.P.classes.get(t)
            if c is not None and not any(m[0].q.endswith('<ctor>') and not m[4] for m in c.methods) and args and \
                    not isinstance(self.val(args[0]), Obj):
                for x, a in zip(c.fields, args):
                    o.f[t, x[0]] = Cell(self.conv(a, x[1]))
                for x in c.fields[len(args):]:
                    o.f[t, x[0]] = self.field(x, o)
                return o
            self.construct(o, t, self.pick(t, args, types), args)
            return o
        if k in ('uptr', 'sptr'):
            return self.copy(args[0], ty) if args else None
        if k == 'tup':
            ts = tmpl(ty)[1]
            if len(args) == 1 and isinstance(self.val(args[0]), Tup):
                return self.copy(args[0], ty)
            return Tup([Cell(self.conv(a, x)) for a, x in zip(args, ts)], t)
        if k == 'vec':
            if not args:
                return self.default(ty)
            v = [self.val(a) for a in args]
            el = tmpl(ty)[1][0]
            if isinstance(v[0], Vec):
                return self.copy(args[0], ty)
            if type(v[0]) is int:
                return Vec([Cell(self.conv(v[1], el) if len(v) > 1 else self.default(el)) for _ in range(v[0])], el, t)
            return Vec([Cell(self.copy(x, el)) for x in self.span(v[0], v[1])], el, t)
        if not args:
            return self.default(ty)
        if len(args) == 1:
            return self.conv(args[0], ty)
        raise Unknown('construction of %s' % ty)

    def m_map(self, d, n, c, v, args):
        if n == 'operator[]':
            k = self.keyof(v, args[0])
            if k not in v.d:
                self.put(v, args[0], self.default(v.args[1]))
            return v.d[k].c[1]
        if n in ('find', 'count', 'at', 'contains'):
            k = self.keyof(v, args[0])
            if n == 'find':
                return MIt(v, k if k in v.d else None)
            if n == 'at':
                if k not in v.d:
                    raise Thrown('out of range')
                return v.d[k].c[1]
            return int(k in v.d)
        if n in ('size', 'max_size'):
            return len(v.d)
        if n == 'empty':
            return int(not v.d)
        if n in ('begin', 'cbegin'):
            ks = v.keys()
            return MIt(v, ks[0] if ks else None)
        if n in ('end', 'cend'):
            return MIt(v, None)
        if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            x = [self.val(a) for a in args]
            if n == 'insert' and len(x) == 1 and isinstance(x[0], Vec):
                for y in x[0].c:
                    self.insert(v, y)
                return None
            if n == 'insert' and len(x) == 2:
                if isinstance(x[0], MIt) and x[0].m is v:
                    k, new = self.insert(v, args[1])
                    return MIt(v, k)
                for y in self.span(x[0], x[1]):
                    self.insert(v, y)
                return None
            if v.set:
                k, new = self.insert(v, args[0] if len(args) == 1 else self.build(v.args[0], args, d))
            elif len(x) == 1:
                k, new = self.insert(v, args[0])
            elif n in ('insert_or_assign',):
                k, new = self.put(v, args[0], args[1], True)
            elif n == 'try_emplace':
                k = self.keyof(v, args[0])
                new = k not in v.d
                if new:
                    self.put(v, args[0], self.build(v.args[1], args[1:], d))
            elif isinstance(x[0], Tup) and kind(v.args[0]) != 'tup':
                raise Unknown('piecewise construction')
            else:
                k, new = self.put(v, args[0], args[1])
            return Tup([Cell(MIt(v, k)), Cell(int(new))], 'std::pair<iterator, bool>')
        if n == 'erase':
            x = self.val(args[0])
            if isinstance(x, MIt):
                if len(args) == 2:
                    raise Unknown('erase of a range')
                if x.k is None or x.k not in v.d:
                    raise Failed('erase of no element')
                nx = self.step(x, 1)
                old = v.d.pop(x.k)
                if not v.set:
                    self.destroy(old.c[1].v, v.args[1])
                return nx
            k = self.keyof(v, args[0])
            old = v.d.pop(k, None)
            if old is not None and not v.set:
                self.destroy(old.c[1].v, v.args[1])
            return int(old is not None)
        if n == 'clear':
            for x in v.d.values():
                if not v.set:
                    self.destroy(x.c[1].v, v.args[1])
            v.d = {}
            return None
        if n in ('reserve', 'rehash'):
            return None
        if n == 'operator=':
            x = self.val(args[0])
            if isinstance(x, Map):
                v.d = self.copy(x, x.ty).d
            else:
                v.d = {}
                for y in x.c:
                    self.insert(v, y)
            return c
        if n == 'swap':
            x = self.val(args[0])
            v.d, x.d = x.d, v.d
            return None
        raise Unknown('map member %s' % n)

    def m_list(self, d, n, c, v, args):
        std = v.ty.startswith('std::list')
        own = v.ty.startswith('jlm::util::Owner')
        a = [self.val(x) for x in args]
        el = tmpl(v.ty)[1][0] if std else ''

        def mk(x):
            return Cell(self.conv(x, el)) if std else self.val(x)
        if n in ('push_back', 'emplace_back', 'push_front'):
            x = args[0]
            y = self.build(el, args, d) if std and n == 'emplace_back' else None
            y = Cell(y) if std and n == 'emplace_back' else mk(x)
            if own and type(x) is Cell and kind(self.argtypes(d)[0]) == 'uptr':
                x.v = None
            if not std and any(z is y for z in v.e):
                raise Failed('an element is added to a list twice')
            v.e.insert(0 if n == 'push_front' else len(v.e), y)
            return y if n == 'emplace_back' else None
        if n == 'insert':
            i = self.pos(v, a[0].x)
            if len(a) == 3 and isinstance(a[1], (It, MIt, LIt)):
                ys = [Cell(self.conv(x, el)) for x in self.span(a[1], a[2])]
            else:
                ys = [mk(args[1])]
            v.e[i:i] = ys
            return LIt(v, v.e[i] if i < len(v.e) else None)
        if n in ('erase', 'unlink'):
            x = a[0].x if isinstance(a[0], LIt) else a[0]
            i = self.pos(v, x)
            v.e.pop(i)
            if own and n == 'erase':
                self.delete(x)
            if own and n == 'unlink':
                return x
            return LIt(v, v.e[i] if i < len(v.e) else None)
        if n in ('first', 'last'):
            return None if not v.e else v.e[0 if n == 'first' else -1]
        if n in ('front', 'back'):
            return v.e[0 if n == 'front' else -1]
        if n in ('begin', 'cbegin'):
            return LIt(v, v.e[0] if v.e else None)
        if n in ('end', 'cend'):
            return LIt(v, None)
        if std and n in ('rbegin', 'rend', 'crbegin', 'crend'):
            # one snapshot for both ends; the list is not changed while it is walked backwards
            snap = v.snap
            if snap is None or snap.c != v.e:
                snap = v.snap = Vec(list(v.e), el, 'std::vector<%s>' % el)
            return self.member(FakeDecl(snap), n, Cell(snap), snap, [])
        if n == 'size':
            return len(v.e)
        if n == 'empty':
            return int(not v.e)
        if n == 'clear':
            old, v.e = v.e, []
            if own:
                for x in old:
                    self.delete(x)
            return None
        if n in ('pop_front', 'pop_back'):
            v.e.pop(0 if n == 'pop_front' else -1)
            return None
        if n == 'splice':
            i = self.pos(v, a[0].x)
            v.e[i:i] = a[1].e
            a[1].e = []
            return None
        if n == 'operator=':
            return self.assign_value(c if c is not None else v, args[0])
        if n == 'swap':
            v.e, a[0].e = a[0].e, v.e
            return None
        raise Unknown('list member %s' % n)

    def m_opt(self, d, n, c, v, args):
        if n in ('operator bool', 'has_value'):
            return int(v.c is not None)
        if n in ('operator*', 'value', 'operator->'):
            if v.c is None:
                raise Failed('access to an empty optional')
            if n == 'operator->':
                x = v.c.v
                return At(v.c) if x is None or type(x) in (int, str) or kind(tmpl(v.ty)[1][0]) in ('uptr', 'sptr', 'ptr') else x
            return v.c
        if n == 'value_or':
            return self.val(v.c) if v.c is not None else self.val(args[0])
        if n == 'reset':
            v.c = None
            return None
        t = tmpl(v.ty)[1][0]
        if n == 'operator=':
            x = self.val(args[0])
            if isinstance(x, Opt):
                v.c = None if x.c is None else Cell(self.copy(x.c, t))
            elif x is None and 'nullopt' in d.sig:
                v.c = None
            else:
                v.c = Cell(self.conv(args[0], t))
            return c
        if n == 'emplace':
            v.c = Cell(self.build(t, args, d))
            return v.c
        raise Unknown('optional member %s' % n)

    def m_str(self, d, n, c, v, args):
        a = [self.val(x) for x in args]
        if v is None:
            v = ''
        if n in ('size', 'length'):
            return len(v)
        if n == 'empty':
            return int(not v)
        if n in ('c_str', 'data'):
            return v
        if n in ('operator+=', 'append', 'push_back'):
            c.v = v + (chr(a[0]) if type(a[0]) is int else a[0])
            return c
        if n == 'operator=':
            c.v = a[0] if isinstance(a[0], str) else chr(a[0])
            return c
        if n in ('operator[]', 'at'):
            if a[0] > len(v) or a[0] < 0:
                raise Failed('access out of range')
            return Cell(ord((v + '\0')[a[0]]))
        if n == 'substr':
            return v[a[0]:] if len(a) < 2 else v[a[0]:a[0] + a[1]]
        if n in ('find', 'rfind'):
            r = (v.find if n == 'find' else v.rfind)(a[0] if isinstance(a[0], str) else chr(a[0]))
            return r % (1 << 64)
        if n in ('begin', 'end'):
            raise Unknown('string iterator')
        if n.startswith('operator std::basic_string_view'):
            return v
        if n == 'compare':
            return (v > a[0]) - (v < a[0])
        if n in ('operator==', 'operator!='):
            return int((v == a[0]) == (n == 'operator=='))
        if n in ('starts_with', 'ends_with'):
            return int((v.startswith if n[0] == 's' else v.endswith)(a[0] if isinstance(a[0], str) else chr(a[0])))
        if n in ('front', 'back'):
            if not v:
                raise Failed('access out of range')
            return Cell(ord(v[0 if n == 'front' else -1]))
        if n == 'clear':
            c.v = ''
            return None
        if n == 'reserve':
            return None
        raise Unknown('string member %s' % n)

    def m_iter(self, d, n, c, v, args):
        a = [self.val(x) for x in args]
        if n == 'operator*':
            return self.deref_it(v)
        if n == 'operator->':
            x = self.deref_it(v)
            y = x.v
            return y if isinstance(y, (Tup, Vec, Map, Opt)) or isinstance(y, Obj) and not d.ret.endswith('**') and not d.ret.endswith('*const *') else At(x)
        if n in ('operator++', 'operator--'):
            c.v = self.step(v, 1 if n[-1] == '+' else -1)
            return v if a else c
        if n in ('operator+', 'operator-'):
            return self.it_arith(n[8], v, a[0])
        if n in ('operator+=', 'operator-='):
            c.v = self.it_arith(n[8], v, a[0])
            return c
        if n == 'operator[]':
            return self.deref_it(self.step(v, a[0]))
        if n == 'base':
            return It(v.vec, v.i)
        if n == 'operator=':
            c.v = a[0]
            return c
        if n in ('operator==', 'operator!='):
            return int(self.same_it(v, a[0]) == (n == 'operator=='))
        if n == 'GetIterator' or n.startswith('operator '):
            return v
        if n == 'ptr' or n == 'get':
            return v.x
        raise Unknown('iterator member %s' % n)

    def m_stream(self, d, n, c, v, args):
        if n == 'operator<<':
            return c
        if n == 'str':
            return ''
        if n in ('open', 'close', 'flush'):
            return None
        raise Unknown('stream member %s' % n)


def nothing(fr):
    return None


def later(x):
    """what has no model matters only when it is reached"""
    msg = str(x)

    def f(fr):
        raise Unknown(msg)
    return f


def NUM(cls, n):
    t = tmpl(cls)[1][0]
    w, s = WIDTH[t]
    if n == 'max':
        return (1 << (w - 1)) - 1 if s else (1 << w) - 1
    if n == 'min':
        return -(1 << (w - 1)) if s else 0
    raise Unknown('numeric_limits::' + n)


# ---- library functions: f(M, decl, args)
def _make_unique(M, d, args):
    t = d.ta[0]
    return M.build(t, args, None, [x for x in M.argtypes(d)])


def _same(M, d, args):
    return int(M.equal(args[0], args[1]))


def _first(M, d, args):
    if len(args) == 3:
        return _algo(M, d, args)
    return args[0]


class Into:
    """an insert iterator"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _into(M, d, args):
    v = args[0].v if type(args[0]) is Cell else args[0]
    if d.name == 'front_inserter' or not isinstance(v, (Vec, Map, IList)):
        raise Unknown(d.name)
    if d.name == 'inserter' and isinstance(v, (Vec, IList)) and not M.same_it(M.val(args[1]), M.member(FakeDecl(v), 'end', args[0], v, [])):
        raise Unknown('insertion before the end')
    return Into(v)


def _get_if(M, d, args):
    v = M.val(args[0])
    if v is None:
        return None
    t = d.ta[0]
    i = int(t) if t.isdigit() else [clean(x) for x in tmpl(v.ty)[1]].index(clean(t))
    if v.i != i:
        return None
    x = tmpl(v.ty)[1][i]
    return v.c.v if kind(x) in ('cls', 'vec', 'map', 'tup', 'opt', 'variant') else At(v.c)


def _get(M, d, args):
    v = M.val(args[0])
    t = d.ta[0]
    if isinstance(v, Tup) or isinstance(v, Vec):
        i = int(t.rstrip('UL')) if t.rstrip('UL').isdigit() else [clean(x) for x in tmpl(v.ty)[1]].index(clean(t))
        return v.c[i]
    if isinstance(v, Variant):
        i = int(t.rstrip('UL')) if t.rstrip('UL').isdigit() else [clean(x) for x in tmpl(v.ty)[1]].index(clean(t))
        if v.i != i:
            raise Thrown('bad variant access')
        return v.c
    raise Unknown('get of %r' % (v,))


def _holds(M, d, args):
    v = M.val(args[0])
    return int(clean(tmpl(v.ty)[1][v.i]) == clean(d.ta[0]))


def _dpc(M, d, args):
    v = M.val(args[0])
    if v is None:
        return None
    return v if M.isa(v, clean(d.ta[0])) else None


def _pair(M, d, args):
    ts = [clean(t) for t in d.ta]
    ts = [M.decay(t, a) if hasattr(M, 'decay') else t for t, a in zip(ts, args)]
    n = 'std::pair' if d.name == 'make_pair' else 'std::tuple'
    return Tup([Cell(M.conv(a, t)) for a, t in zip(args, ts)], '%s<%s>' % (n, ', '.join(ts)))


def _minmax(M, d, args):
    vs = [M.val(a) for a in args]
    if d.name == 'clamp':
        return max(vs[1], min(vs[0], vs[2]))
    if isinstance(vs[0], Vec):
        f = vs[1] if len(vs) > 1 else None
        vs = [c.v for c in vs[0].c]
    else:
        f = vs[2] if len(vs) > 2 else None
        vs = vs[:2]
    less = _less(M, f)
    b = vs[0]
    for x in vs[1:]:
        if less(Cell(x), Cell(b)) if d.name == 'min' else less(Cell(b), Cell(x)):
            b = x
    return b


def _exchange(M, d, args):
    old = args[0].v
    args[0].v = M.val(args[1])
    return old


def _swap(M, d, args):
    a, b = args
    x, y = M.val(a), M.val(b)
    if isinstance(x, Vec):
        x.c, y.c = y.c, x.c
    elif isinstance(x, Map):
        x.d, y.d = y.d, x.d
    elif isinstance(x, IList):
        x.e, y.e = y.e, x.e
    else:
        a.v, b.v = y, x


def _next(M, d, args):
    k = M.val(args[1]) if len(args) > 1 else 1
    return M.step(M.val(args[0]), k if d.name == 'next' else -k)


def _op(M, d, args):
    a, b = M.val(args[0]), M.val(args[1])
    n = d.name[8:]
    if n in ('==', '!='):
        if isinstance(a, (It, MIt, LIt)):
            return int(M.same_it(a, b) == (n == '=='))
        return int(M.equal(args[0], args[1]) == (n == '=='))
    if isinstance(a, It) or isinstance(b, It):
        if n in '+-':
            return M.it_arith(n, a, b)
        x, y = (b.i, a.i) if a.rev else (a.i, b.i)
        return int({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[n])
    if n == '+':
        return ''.join(x if isinstance(x, str) else chr(x) for x in (a, b))
    if n == '<<':
        return args[0]
    if n == '|':
        return a | b
    if n == '&':
        return a & b
    if n in ('<', '>', '<=', '>='):
        a, b = M.key(a), M.key(b)
        return int({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[n])
    raise Unknown('operator %s' % n)


def _visit(M, d, args):
    v = M.val(args[1])
    return M.invoke(M.val(args[0]), [v.c])


def _less(M, f):
    """The order of an algorithm: its comparator, or the operator of the elements."""
    if f is not None:
        return lambda a, b: bool(M.val(M.invoke(f, [a, b])))

    def natural(a, b):
        x, y = M.val(a), M.val(b)
        if isinstance(x, Obj):
            x, y = x.n, y.n
        if not isinstance(x, (int, str)):
            raise Unknown('the order of %s' % type(x).__name__)
        return x < y
    return natural


def _algo(M, d, args):
    n = d.name
    v = [M.val(a) for a in args]
    if n in ('begin', 'end', 'size', 'empty', 'rbegin', 'rend', 'data', 'cbegin', 'cend'):
        if isinstance(v[0], Obj):
            return M.do(v[0], n)
        return M.member(FakeDecl(v[0]), n, args[0], v[0], [])
    if n in ('copy_n', 'fill_n', 'for_each_n', 'generate_n'):
        if isinstance(v[0], Into):
            raise Unknown('algorithm %s' % n)
        end = M.step(v[0], v[1])
        if n == 'copy_n':
            n, v = 'copy', [v[0], end] + v[2:]
        else:
            x = type('D', (), {'name': n[:-2], 'ta': d.ta})
            _algo(M, x, [v[0], end] + v[2:])
            return end
    cells = M.span(v[0], v[1])
    rest = v[2:]
    if n in ('all_of', 'any_of', 'none_of'):
        for c in cells:
            r = bool(M.val(M.invoke(rest[0], [c])))
            if n == 'all_of' and not r:
                return 0
            if n != 'all_of' and r:
                return int(n == 'any_of')
        return int(n != 'any_of')
    if n in ('find', 'find_if', 'find_if_not', 'count', 'count_if'):
        k = 0
        it = v[0]
        for c in cells:
            r = M.equal(c, rest[0]) if n in ('find', 'count') else bool(M.val(M.invoke(rest[0], [c]))) != (n == 'find_if_not')
            if r and n.startswith('find'):
                return it
            k += r
            it = M.step(it, 1) if n.startswith('find') else it
        return v[1] if n.startswith('find') else k
    if n == 'reverse':
        xs = [c.v for c in cells][::-1]
        for c, x in zip(cells, xs):
            c.v = x
        return None
    if n in ('sort', 'stable_sort'):
        import functools
        xs = [c.v for c in cells]
        if rest:
            xs.sort(key=functools.cmp_to_key(lambda a, b: -1 if M.val(M.invoke(rest[0], [a, b])) else 1 if M.val(M.invoke(rest[0], [b, a])) else 0))
        else:
            xs.sort(key=lambda x: x.n if isinstance(x, Obj) else x)
        for c, x in zip(cells, xs):
            c.v = x
        return None
    if n == 'fill':
        for c in cells:
            c.v = rest[0]
        return None
    if n == 'for_each':
        for c in cells:
            M.invoke(rest[0], [c])
        return None
    if n in ('accumulate', 'reduce'):
        r = rest[0] if rest else 0
        for c in cells:
            r = M.val(M.invoke(rest[1], [r, c])) if len(rest) > 1 else r + c.v
        return r
    if n in ('copy', 'transform', 'move', 'copy_if') and isinstance(rest[0], Into):
        to = rest[0].v
        for c in list(cells):
            if n == 'copy_if' and not M.val(M.invoke(rest[1], [c])):
                continue
            x = M.val(M.invoke(rest[1], [c])) if n == 'transform' else c.v
            if isinstance(to, Map):
                M.insert(to, x)
                continue
            el = to.elem if isinstance(to, Vec) else tmpl(to.ty)[1][0]
            if n != 'transform' and not (n == 'move' and kind(el) in ('uptr', 'vec', 'map', 'cls')):
                x = M.copy(c, el)
            if n == 'move' and kind(el) == 'uptr':
                c.v = None
            (to.c if isinstance(to, Vec) else to.e).append(Cell(x))
        return rest[0]
    if n in ('copy', 'transform') and isinstance(rest[0], It):
        it = rest[0]
        for c in cells:
            M.deref_it(it).v = M.copy(c, it.vec.elem) if n == 'copy' else M.val(M.invoke(rest[1], [c]))
            it = M.step(it, 1)
        return it
    if n in ('max_element', 'min_element'):
        if not cells:
            return v[1]
        less = _less(M, rest[0] if rest else None)
        b = 0
        for i in range(1, len(cells)):
            if less(cells[b], cells[i]) if n[1] == 'a' else less(cells[i], cells[b]):
                b = i
        return M.step(v[0], b)
    if n in ('lower_bound', 'upper_bound', 'binary_search'):
        less = _less(M, rest[1] if len(rest) > 1 else None)
        at = Cell(rest[0])
        k = 0
        while k < len(cells) and (not less(at, cells[k]) if n == 'upper_bound' else less(cells[k], at)):
            k += 1
        return int(k < len(cells) and not less(at, cells[k])) if n[0] == 'b' else M.step(v[0], k)
    if n in ('is_sorted', 'adjacent_find'):
        same = (lambda a, b: bool(M.val(M.invoke(rest[0], [a, b])))) if rest and n[0] == 'a' else M.equal
        less = _less(M, rest[0] if rest else None)
        for i in range(len(cells) - 1):
            if n == 'is_sorted' and less(cells[i + 1], cells[i]):
                return 0
            if n != 'is_sorted' and same(cells[i], cells[i + 1]):
                return M.step(v[0], i)
        return 1 if n == 'is_sorted' else v[1]
    if n in ('remove', 'remove_if', 'unique', 'partition', 'stable_partition'):
        keep, drop = [], []
        for c in cells:
            if n == 'remove':
                out = M.equal(c, rest[0])
            elif n == 'unique':
                out = bool(keep) and (bool(M.val(M.invoke(rest[0], [Cell(keep[-1]), c]))) if rest else M.equal(keep[-1], c.v))
            else:
                out = bool(M.val(M.invoke(rest[0], [c]))) != (n[-1] == 'n')
            (drop if out else keep).append(c.v)
        for c, x in zip(cells, keep + drop):
            c.v = x
        return M.step(v[0], len(keep))
    if n == 'iota':
        for i, c in enumerate(cells):
            c.v = rest[0] + i
        return None
    if n == 'generate':
        for c in cells:
            c.v = M.val(M.invoke(rest[0], []))
        return None
    if n == 'rotate':
        last = M.span(v[1], v[2])
        xs = [c.v for c in last] + [c.v for c in cells]
        for c, x in zip(list(cells) + list(last), xs):
            c.v = x
        return M.step(v[0], len(last))
    if n in ('find_first_of', 'includes'):
        other = M.span(rest[0], rest[1])
        same = (lambda a, b: bool(M.val(M.invoke(rest[2], [a, b])))) if len(rest) > 2 and n[0] == 'f' else M.equal
        if n == 'includes':
            return int(all(any(same(a, b) for a in cells) for b in other))
        for i, c in enumerate(cells):
            if any(same(c, b) for b in other):
                return M.step(v[0], i)
        return v[1]
    if n == 'mismatch':
        n2 = len(cells) if len(rest) < 2 or isinstance(rest[1], (Closure, FnPtr)) else len(M.span(rest[0], rest[1]))
        i = 0
        b = M.span(rest[0], M.step(rest[0], n2)) if n2 else []
        while i < len(cells) and i < len(b) and M.equal(cells[i], b[i]):
            i += 1
        return Tup([Cell(M.step(v[0], i)), Cell(M.step(rest[0], i))], 'std::pair<%s>' % ', '.join(clean(t) for t in d.ta[:2]))
    if n == 'equal':
        b = M.span(rest[0], M.step(rest[0], len(cells)))
        return int(all(M.equal(x, y) for x, y in zip(cells, b)))
    if n == 'distance':
        return len(cells)
    raise Unknown('algorithm %s' % n)


class FakeDecl:
    def __init__(self, v):
        self.cls, self.sig, self.ret, self.ta = getattr(v, 'ty', '') or 'std::vector<x>', '()', '', []


def _num(M, d, args):
    a = [M.val(x) for x in args]
    n = d.name
    if n == 'abs':
        return abs(a[0])
    if n == 'lcm':
        import math
        return a[0] * a[1] // math.gcd(a[0], a[1]) if a[0] and a[1] else 0
    if n == 'gcd':
        import math
        return math.gcd(a[0], a[1])
    if n == 'to_string':
        return str(a[0])
    raise Unknown(n)


def _tie(M, d, args):
    return Tup(list(args), 'std::tuple<%s>' % ', '.join(t + ' &' for t in d.ta))


def _optional(M, d, args):
    return Opt(Cell(M.build(d.ta[0], args)), 'std::optional<%s>' % clean(d.ta[0]))


STD = {'move': _first, 'forward': _first, 'as_const': _first, 'addressof': _first, 'make_unique': _make_unique, 'make_shared': _make_unique,
       'get_if': _get_if, 'get': _get, 'holds_alternative': _holds, 'dynamic_pointer_cast': _dpc, 'static_pointer_cast': _first,
       'const_pointer_cast': _first, 'make_pair': _pair, 'make_tuple': _pair, 'min': _minmax, 'max': _minmax, 'clamp': _minmax, 'exchange': _exchange, 'swap': _swap,
       'next': _next, 'prev': _next, 'visit': _visit, 'tie': _tie, 'make_optional': _optional}
for _n in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '<<', '|', '&'):
    STD['operator' + _n] = _op
for _n in ('begin', 'end', 'size', 'empty', 'rbegin', 'rend', 'data', 'cbegin', 'cend', 'all_of', 'any_of', 'none_of', 'find', 'find_if', 'count', 'count_if',
           'find_if_not', 'copy_if', 'reverse', 'sort', 'stable_sort', 'fill', 'for_each', 'accumulate', 'copy', 'transform', 'max_element', 'min_element',
           'equal', 'distance', 'lower_bound', 'upper_bound', 'binary_search', 'is_sorted', 'adjacent_find', 'remove', 'remove_if', 'unique',
           'partition', 'stable_partition', 'iota', 'generate', 'rotate', 'find_first_of', 'includes', 'mismatch', 'reduce', 'copy_n', 'fill_n',
           'for_each_n', 'generate_n'):
    STD[_n] = _algo
for _n in ('back_inserter', 'inserter'):
    STD[_n] = _into
for _n in ('abs', 'lcm', 'gcd', 'to_string'):
    STD[_n] = _num

FREE = {
    'strlen': lambda M, d, a: len(M.val(a[0])),
    'jlm::util::strfmt': lambda M, d, a: '',
    'jlm::util::StatisticsCollector::IsDemanded': lambda M, d, a: 0,
    'abort': lambda M, d, a: (_ for _ in ()).throw(Failed('abort')),
}
