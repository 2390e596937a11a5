"""type-equality: operator== of every rvsdg::Type answers true only for types of the same kind with
equal components, and ComputeHash is a function of compared components only."""
from sa.engine import Interp, core, subterms, is_accessor
from sa.facts import walk
from .equality import check_class_equality, check_elements, ELEMENTS, true_exits, pairs_of, THIS

TY = 'jlm::rvsdg::Type'


def hash_reads(P, cls, f):
    """(fields read, [(field, reason)] identity-dependent reads) of ComputeHash"""
    I = Interp(P, inline=lambda d, g, fr, o: (True if d.cls and P.is_a(cls, d.cls) and o is not None
               and core(o) == THIS else None), min_one=True)
    reads, bad = set(), set()
    exits = I.run(f)
    terms = [t for k, t, s in exits if t]
    for ev in I.events:
        terms += list(ev.args)
        if ev.obj is not None:
            terms.append(ev.obj)
    ftypes = {fl[0]: fl[1] for _, fl in P.all_fields(cls)}
    for t in terms:
        for x in subterms(t):
            if x[0] == 'field' and x[1] == THIS:
                reads.add(x[2])
    # a component type may only be hashed through its own ComputeHash (or counted)
    for ev in I.events:
        if ev.kind not in ('call', 'ucall', 'ctor'):
            continue
        if ev.q.startswith('std::hash<') or ev.name in ('CombineHashes', 'combineHashesWithSeed', 'hash_value'):
            for a in ev.args:
                for x in exposed(a):
                    f_ = root_field(x)
                    if f_ and 'rvsdg::' in ftypes.get(f_, '') and ('ptr' in ftypes[f_] or '*' in ftypes[f_]) \
                            and not scalar_leaf(x):
                        bad.add(f_)
    return reads, bad, I


def exposed(t):
    """subterms reached without passing through ComputeHash / size"""
    if type(t) is frozenset:
        for x in t:
            yield from exposed(x)
        return
    if type(t) is not tuple or not t:
        return
    if type(t[0]) is not str:
        for x in t:
            yield from exposed(x)
        return
    if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('ComputeHash', 'size', 'hash_code', 'debug_string'):
        return
    if t[0] in ('field', 'index'):
        yield t
        return
    for x in t[1:]:
        if type(x) in (tuple, frozenset):
            yield from exposed(x)


def root_field(t):
    while t[0] in ('field', 'index'):
        if t[0] == 'field' and t[1] == THIS:
            return t[2]
        t = t[1]
    return None


def scalar_leaf(t):
    # pair component `.first` of a (name, type) element
    return t[0] == 'field' and t[2] == 'first'


def check(P, rep):
    rep.rule('type/kind', 'operator== establishes the dynamic kind before answering true')
    rep.rule('type/attribute', 'every constructor parameter that reaches a field is compared before answering true')
    rep.rule('type/range', 'component compared by constant index exists')
    rep.rule('type/never-equal', 'operator== never answers true')
    rep.rule('type/identity', 'true path guarded by object identity')
    rep.rule('type/exempt', 'exempted parameter')
    rep.rule('type/hash', 'every field ComputeHash reads is compared by operator== on every true path, so '
             'equal types hash equally')
    rep.rule('type/hash-value', 'a component type enters the hash only through its own ComputeHash, never by address')
    for cls in P.subclasses(TY):
        C = P.classes[cls]
        if C.dependent or C.abstract:
            continue
        check_class_equality(P, rep, cls, TY, 'type', {})
        check_elements(P, rep, cls, TY, 'type', {})
        m = P.find_method(cls, 'operator==', 1)
        h = P.find_method(cls, 'ComputeHash', 0)
        f = P.body_of(m[1]) if m else None
        g = P.body_of(h[1]) if h else None
        if f is None or g is None:
            continue
        exits, other, I = true_exits(P, f, cls, TY)
        reads, bad, J = hash_reads(P, cls, g)
        for fld in sorted(bad):
            rep.violation('type/hash-value', '%s.%s' % (cls, fld), g.file, g.line,
                          '%s::ComputeHash hashes the address held by %s: two equal types hash differently'
                          % (cls, fld))
        for fld in sorted(reads):
            for facts in exits:
                A, isa, ident, _ = pairs_of(facts, other)
                if ident:
                    continue
                if not any(x[0] == 'field' and x[1] == THIS and x[2] == fld for a in A for x in subterms(a)):
                    rep.violation('type/hash', '%s.%s' % (cls, fld), g.file, g.line,
                                  '%s::ComputeHash depends on %s, which operator== does not compare: equal '
                                  'types may hash differently' % (cls, fld))
                else:
                    rep.site('type/hash', '%s.%s' % (cls, fld))
            if fld not in bad:
                rep.site('type/hash-value', '%s.%s' % (cls, fld))
        # the kind constant hashed by a base class shared by several kinds is fine (collisions only)
    rep.rule('type/elements', ELEMENTS)
    rep.floor('type/elements', 20)
    rep.floor('type/kind', 14)
    rep.floor('type/attribute', 14)
    rep.floor('type/hash', 12)


CHECKS = {'C02': check}
