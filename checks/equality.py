"""operation-equality: operator== of every Operation answers true only for operations of the same
kind whose every constructor-supplied attribute is equal."""
from sa.engine import Interp, core, alts, mkphi, subterms, contains, is_accessor
from sa.facts import AnalysisBroken, count_params, walk

import re
INTEGRAL = re.compile(r'^(const )?(unsigned |long|int|short|bool|size_t|std::size_t)[a-z ]*&?$')
OP = 'jlm::rvsdg::Operation'
THIS = ('this',)


def subst(t, m):
    r = m.get(t) if type(t) is tuple else None
    if r is not None:
        return r
    if type(t) is tuple:
        return tuple(subst(x, m) for x in t)
    if type(t) is frozenset:
        return frozenset(subst(x, m) for x in t)
    return t


def norm_index(t):
    """re-normalise after substitution: index into a known vector, field of a known object"""
    if type(t) is frozenset:
        return frozenset(norm_index(x) for x in t)
    if type(t) is not tuple:
        return t
    t = tuple(norm_index(x) for x in t)
    if t and t[0] == 'index' and t[1] and t[1][0] == 'vec':
        items = t[1][1]
        if t[2][0] == 'const' and type(t[2][1]) is int and t[2][1] < len(items) \
                and all(x[0] != 'each' for x in items[:t[2][1] + 1]):
            return items[t[2][1]]
        if t[2][0] != 'const' or any(x[0] == 'each' for x in items):
            return ('anyof', tuple(x[1] if x[0] == 'each' else x for x in items))
    return t


LOSSY_CALLS = {'size', 'empty', 'length', 'operator bool', 'count'}


def deps(t, strong=True, out=None):
    """constructor parameters the value of t exposes: dict param -> 'strong' | 'weak'.
    weak: only through a size, a comparison, a negation or arithmetic, or an opaque function"""
    if out is None:
        out = {}
    if type(t) is frozenset:
        for x in t:
            deps(x, strong, out)
        return out
    if type(t) is not tuple or not t:
        return out
    if type(t[0]) is not str:
        for x in t:
            deps(x, strong, out)
        return out
    k = t[0]
    if k == 'param':
        if strong or t not in out:
            out[t] = 'strong' if strong or out.get(t) == 'strong' else 'weak'
        return out
    if k == 'call':
        nm = t[1].rsplit('::', 1)[-1]
        s = strong and nm not in LOSSY_CALLS
        if s and nm not in ('Create', 'create', 'operator*', 'operator->', 'get', 'begin', 'end', 'value',
                            'front', 'back', 'data'):
            s = False if t[1].startswith('std::') else strong
        deps(t[2], s, out)
        deps(t[3], s, out)
        return out
    if k in ('bin', 'un'):
        for x in t[2:]:
            deps(x, False, out)
        return out
    if k == 'iv':
        if t[2] is not None:
            deps(t[2], False, out)
        return out
    for x in t[1:]:
        deps(x, strong, out)
    return out


def ctor_terms(P, cls, rep=None):
    """[(ctor Func, {field -> term}, params)] for each value constructor"""
    C = P.classes[cls]
    res = []
    for m in C.methods:
        d = m[0]
        if d.name != '<ctor>' or d.copy or d.deleted or m[4]:
            continue
        f = P.body_of(d)
        if f is None or f.dependent:
            continue
        I = Interp(P, inline=lambda d, g, fr, o: True if g.file.startswith('jlm/') and fr.depth < 5
                   and (d.name == '<ctor>' or is_accessor(g) or (d.static and d.cls and P.is_a(cls, d.cls))
                        or '(anonymous' in d.q) else None)
        fields = {}
        for k, t, s in I.run(f):
            if k == 'throw':
                continue
            for key, v in s.env.items():
                if key[0] == 'F' and key[1] == THIS:
                    fields.setdefault(key[2], []).append(v)
        res.append((f, {k: mkphi(v) for k, v in fields.items()}))
    return res


def is_assert_cond(x):
    return any(y[0] == 'call' and y[1].nr for y in walk(x[3]))


def fields_read(P, decl, seen=None):
    """names of fields of the object read by a member function, transitively"""
    seen = seen if seen is not None else set()
    f = P.body_of(decl)
    if f is None or f.key in seen:
        return set()
    seen.add(f.key)
    out = set()
    for x in walk(f.body):
        if x[0] == 'mem' and x[1] and x[1][0] == 'this':
            out.add(x[2])
        elif x[0] == 'call' and x[2] and x[2][0] == 'this':
            out |= fields_read(P, x[1], seen)
    return out


def expand_methods(P, t, fields, cls):
    """an opaque member call on this exposes the fields its body reads"""
    extra = []
    for x in subterms(t):
        if x[0] == 'call' and x[2] == THIS:
            fs = [g for g in P.by_q.get(x[1], [])]
            for g in fs:
                for n in fields_read(P, g.decl):
                    if n in fields:
                        extra.append(fields[n])
    return extra


def true_exits(P, f, cls, base):
    """fact sets under which operator== (body f, dynamic type cls) answers true"""
    def pol(d, g, fr, o):
        if d.name in ('operator==', 'operator!=') and d.cls and P.is_a(d.cls, base) and P.is_a(cls, d.cls):
            return True
        if d.cls and P.is_a(cls, d.cls) and g.body and o is not None \
                and core(o) in (THIS, ('param', f.params[0][1] or '#0', 0)):
            # accessors are looked through; other member functions stay a term f(this) / f(other)
            return is_accessor(g) and not any(x[0] == 'cond' and not is_assert_cond(x) for x in walk(g.body))
        return None

    def dyn(decl, o):
        # virtual accessor on an object of the class under test
        return None
    I = Interp(P, inline=pol, min_one=True)
    other = ('param', f.params[0][1] or '#0', 0)
    out = []
    for k, t, s in I.run(f):
        if k == 'throw':
            continue
        if k == 'end' or t is None:
            continue
        for a in alts(t):
            ts, fs = I.split(a, s)
            for x in ts:
                out.append(set(x.facts))
    return out, other, I


def pairs_of(facts, other):
    """terms A (over this) such that A(this) == A(other) is a fact; plus type tests and identity"""
    A, isa, ident, typeid = set(), set(), False, False
    m = {THIS: other}
    back = {other: THIS}
    for t, b in facts:
        if not b:
            # std::memcmp-like negative tests are not used as equalities
            continue
        if t[0] == 'isa' and core(t[2]) == other:
            isa.add(t[1])
            continue
        x = None
        if t[0] == 'bin' and t[1] == '==':
            x = (t[2], t[3])
        elif t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator==', 'bitwiseIsEqual') and len(t[3]) == 1:
            x = (t[2], t[3][0])
        if x is None:
            continue
        a, b2 = x
        if {a, b2} == {THIS, other}:
            ident = True
        if a and a[0] == 'x' and a[1] == 'typeid':
            if {a[2], b2[2]} == {(THIS,), (other,)}:
                typeid = True
            continue
        for p, q in ((a, b2), (b2, a)):
            if contains(p, lambda z: z == THIS) and not contains(p, lambda z: z == other) \
                    and subst(p, m) == q:
                A.add(p)
    return A, isa, ident, typeid


def check_class_equality(P, rep, cls, base, rule, exempt, allow_identity=()):
    C = P.classes[cls]
    m = P.find_method(cls, 'operator==', 1)
    f = P.body_of(m[1]) if m else None
    if f is None:
        return
    exits, other, I = true_exits(P, f, cls, base)
    ctors = ctor_terms(P, cls)
    own = m[0].name
    if not exits:
        rep.site(rule + '/never-equal', cls)
        return
    for facts in exits:
        A, isa, ident, typeid = pairs_of(facts, other)
        if ident:
            rep.site(rule + '/identity', cls)
            continue
        # --- kind
        kinds = [k for k in isa if P.is_a(k, cls) or k == cls]
        if not kinds and not typeid:
            rep.violation(rule + '/kind', cls, f.file, f.line,
                          '%s::operator== can answer true without having established that the other '
                          'operation is a %s (it tests %s)' % (own, cls, sorted(isa) or 'nothing'))
        else:
            rep.site(rule + '/kind', cls)
        # --- attributes
        for cf, fields in ctors:
            got = {}
            for a in A:
                for x in subterms(a):
                    if x[0] == 'index' and x[1][0] == 'field' and x[1][1] == THIS and x[2][0] == 'const':
                        v = fields.get(x[1][2])
                        if v and v[0] == 'vec' and all(i[0] != 'each' for i in v[1]):
                            if x[2][1] >= len(v[1]):
                                rep.violation(rule + '/range', cls, f.file, f.line,
                                              '%s::operator== compares %s[%d], but the operation is built with '
                                              '%d' % (own, x[1][2], x[2][1], len(v[1])))
                            else:
                                rep.site(rule + '/range', '%s %s[%d]' % (cls, x[1][2], x[2][1]))
                v = norm_index(subst(a, {('field', THIS, k): t for k, t in fields.items()}))
                dd = deps(v)
                for x in expand_methods(P, a, fields, cls):
                    deps(x, True, dd)
                for p, st in dd.items():
                    if got.get(p) != 'strong':
                        got[p] = st
            need = {}
            for k, t in fields.items():
                for p, st in deps(t).items():
                    if need.get(p) != 'strong':
                        need[p] = st
            bynum = {}
            ptypes = {('param', p[1] or '#%d' % i, i): p[2] for i, p in enumerate(cf.params)}
            for p, st in sorted(need.items()):
                inst = '%s%s.%s' % (cls, cf.sig, p[1])
                if INTEGRAL.match(ptypes.get(p, '')) and got.get(p) == 'weak':
                    got[p] = 'strong'      # a number is exposed by a size or an arithmetic term
                g = got.get(p)
                ex = exempt.get(cls, {}).get(p[1])
                if ex:
                    rep.site(rule + '/exempt', inst)
                    continue
                if g is None or (g == 'weak' and st == 'strong'):
                    rep.violation(rule + '/attribute', inst, f.file, f.line,
                                  '%s::operator== can answer true for two operations that differ in '
                                  'constructor argument "%s" (%s)' % (own, p[1],
                                  'no compared attribute depends on it' if g is None else
                                  'it is only compared through a size or a derived value'))
                else:
                    rep.site(rule + '/attribute', inst)


CONTAINER = re.compile(r'\b(std::vector|std::span|llvm::ArrayRef|std::initializer_list|llvm::SmallVector)<')


ELEMENTS = ('two objects built by the same constructor from lists of 0 to 3 symbolic elements compare equal only if the lists '
            'have the same length and every pair of elements was compared')


def built(P, f, args, this):
    """field environments of an object the constructor f builds from these arguments"""
    def pol(d, g, fr, o):
        return True if g.file.startswith('jlm/') and fr.depth < 6 and not d.name.startswith('debug_') else None
    I = Interp(P, inline=pol, unroll=8)
    out = []
    for k, t, s in I.run(f, args, this=this):
        if k != 'throw':
            out.append({x: v for x, v in s.env.items() if x[0] == 'F'})
    if not out:
        return {}
    return {x: mkphi([e[x] for e in out if x in e]) for x in set().union(*out)}


def has_atom(t, a):
    return contains(t, lambda x: x == a)


def check_elements(P, rep, cls, base, rule, exempt):
    """two objects built from lists: answers true only for lists of equal length and pairwise equal elements.
    Lists of 0 to 3 symbolic elements are followed through the constructor and operator== concretely."""
    C = P.classes[cls]
    m = P.find_method(cls, 'operator==', 1)
    f = P.body_of(m[1]) if m else None
    if f is None:
        return
    other = ('param', f.params[0][1] or '#0', 0)
    for mm in C.methods:
        d = mm[0]
        if d.name != '<ctor>' or d.copy or d.deleted or mm[4]:
            continue
        g = P.body_of(d)
        if g is None or g.dependent:
            continue
        conts = [i for i, p in enumerate(g.params) if CONTAINER.search(p[2]) and not exempt.get(cls, {}).get(p[1])
                 and not re.search(r'MemoryNodeId', p[2])]
        for ci in conts:
            name = g.params[ci][1] or '#%d' % ci
            for n, m_ in ((0, 1), (1, 0), (1, 1), (2, 2), (3, 3), (2, 3), (3, 2)):
                def mk(tag, k):
                    a = []
                    for i, p in enumerate(g.params):
                        if i == ci:
                            a.append(('vec', tuple(('atom', tag, j) for j in range(k))))
                        elif i in conts:
                            a.append(('vec', (('atom', 'shared', i, 0),)))
                        elif INTEGRAL.match(p[2]):
                            a.append(('const', max(n, m_)))
                        else:
                            a.append(('atom', 'same', i))
                    return a
                env = built(P, g, mk('a', n), THIS)
                env.update(built(P, g, mk('b', m_), other))
                if n and not any(has_atom(v, ('atom', 'a', 0)) for x, v in env.items() if x[1] == THIS):
                    continue
                if not n and not any(has_atom(v, ('atom', 'b', 0)) for x, v in env.items() if x[1] == other):
                    continue
                inst = '%s.%s with %d and %d elements' % (cls, name, n, m_)

                def pol(d, h, fr, o):
                    return True if h.file.startswith('jlm/') and fr.depth < 6 and o is not None and \
                        core(o) in (THIS, other) and (d.name != 'operator==' or P.is_a(cls, d.cls)) else None
                I = Interp(P, inline=pol, unroll=8, truthy=('atom',))
                rep.site(rule + '/elements', inst)
                for k, t, s in I.run(f, [other], this=THIS, env=env):
                    if k != 'ret' or t is None:
                        continue
                    for a in alts(t):
                        for x in I.split(a, s)[0]:
                            why = unpaired(x.facts, n, m_)
                            if why:
                                rep.violation(rule + '/elements', '%s.%s' % (cls, name), f.file, f.line,
                                              '%s::operator== can answer true for lists "%s" of %d and %d elements although '
                                              '%s' % (m[0].name, name, n, m_, why))


def unpaired(facts, n, m_):
    """None if the facts establish that the lists are equal (or are contradictory)"""
    same = {('atom', 'a', j): ('atom', 'b', j) for j in range(n)}
    got = set()
    for t, b in facts:
        if not b or t[0] not in ('bin', 'call'):
            continue
        if t[0] == 'bin' and t[1] == '==':
            x, y = t[2], t[3]
        elif t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator==', 'bitwiseIsEqual', 'equal') and len(t[3]) == 1:
            x, y = t[2], t[3][0]
        else:
            continue
        for p, q in ((x, y), (y, x)):
            if p is None:
                continue
            if n != m_:
                if lists(p, 'a', n) and lists(q, 'b', m_):
                    return None
                for tag, k in (('a', n), ('b', m_)):
                    for j in range(min(n, m_), k):
                        if has_atom(p, ('atom', tag, j)):
                            got.add(j)
                continue
            if subst(p, same) == q:
                for j in range(n):
                    if has_atom(p, ('atom', 'a', j)):
                        got.add(j)
    if n != m_:
        return None if len(got) == abs(n - m_) else 'their lengths differ'
    miss = [j for j in range(n) if j not in got]
    return 'element %d is not compared' % miss[0] if miss else None


def lists(t, tag, n):
    """t contains the whole list"""
    return contains(t, lambda z: z[0] == 'vec' and len(z[1]) == n and all(w[0] == 'atom' and w[1] == tag for w in z[1]))


OPND = 'the parameter only determines operand types, which the operands of a node supply'
EXEMPT = {
    'jlm::hls::MuxOperation': {'nalternatives': OPND},
    'jlm::llvm::IsConstantOperation': {'type': OPND},
    'jlm::llvm::MemMoveNonVolatileOperation': {'lengthType': OPND},
    'jlm::llvm::MemSetNonVolatileOperation': {'lengthType': OPND},
    'jlm::llvm::VectorBinaryOperation': {'op1': OPND, 'op2': OPND,
        'result': 'fixed by the scalar operation (compared) and the operand width'},
    'jlm::llvm::VectorUnaryOperation': {'operand': OPND,
        'result': 'fixed by the scalar operation (compared) and the operand width'},
    'jlm::llvm::VectorSelectOperation': {'pt': OPND},
    'jlm::llvm::GetElementPtrOperation': {
        'resultType': 'pointer, or vector of pointers as wide as the (compared) operands'},
}
for _p in ('Eq', 'Ne', 'Sge', 'Sgt', 'Sle', 'Slt', 'Uge', 'Ugt', 'Ule', 'Ult'):
    EXEMPT['jlm::llvm::Integer%sOperation' % _p] = {'numBits': OPND}


def check(P, rep):
    rep.rule('eq/kind', 'on every path on which operator== returns true the dynamic kind of the argument '
             'has been established (dynamic_cast / is<> to this class or a typeid comparison)')
    rep.rule('eq/attribute', 'every constructor parameter that reaches a field of the operation flows '
             'into a term that is compared for equality on every true-returning path')
    rep.rule('eq/range', 'an operand or result type compared by a constant index exists in every instance')
    rep.rule('eq/never-equal', 'operator== never returns true')
    rep.rule('eq/identity', 'true-returning path guarded by object identity')
    rep.rule('eq/exempt', 'parameters exempted by name in the checker, with a reason')
    rep.rule('eq/elements', ELEMENTS)
    n = 0
    for cls in P.subclasses(OP):
        C = P.classes[cls]
        if C.dependent or C.abstract:
            continue
        n += 1
        check_class_equality(P, rep, cls, OP, 'eq', EXEMPT)
        check_elements(P, rep, cls, OP, 'eq', EXEMPT)
    rep.floor('eq/elements', 60)
    rep.floor('eq/kind', 100)
    rep.floor('eq/attribute', 150)


CHECKS = {'C01': check}
