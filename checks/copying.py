"""copying: a copy of an operation, node, import/export, graph or module carries every attribute of the
original, maps every output for later users, and leaves the original untouched."""
from sa.engine import Interp, core, subterms, contains, is_accessor, alts
from sa.effects import writers
from sa.facts import AnalysisBroken
from . import nodes
from .equality import ctor_terms, subst, norm_index, THIS, OP

SN = 'jlm::rvsdg::StructuralNode'
# nodes whose operation has attributes: the copy's operation must derive from the original's
ATTRIBUTED = ('jlm::rvsdg::GammaNode', 'jlm::rvsdg::LambdaNode', 'jlm::rvsdg::DeltaNode')


def rooted(t, root):
    """t is reached from root through fields, elements and member calls"""
    t = core(t)
    while type(t) is tuple and t:
        if t == root:
            return True
        if t[0] in ('field', 'index'):
            t = t[1]
        elif t[0] == 'call' and t[2] is not None:
            if t[1].rsplit('::', 1)[-1] in ('copy', 'Copy', 'Clone'):
                return False
            t = t[2]
        elif t[0] == 'call' and t[3] and t[1].rsplit('::', 1)[-1] in ('assertedCast', 'TryGetOwnerNode'):
            t = t[3][0]
        elif t[0] == 'phi':
            return any(rooted(x, root) for x in t[1])
        else:
            return False
        t = core(t)
    return False


def same_value(a, b, P, opq):
    """term a denotes the value b, modulo reference/copy"""
    a, b = core(a), core(b)
    if a == b:
        return True
    if a[0] == 'call' and a[1].rsplit('::', 1)[-1] in ('copy', 'Copy', 'Clone') and a[2] is not None:
        return same_value(a[2], b, P, opq)
    if a[0] == 'vec' and len(a[1]) == 1 and a[1][0][0] == 'each':
        x = a[1][0][1]
        while type(x) is tuple and x[0] in ('call', 'ctor') and x[0] == 'call' and x[2] is not None and \
                x[1].rsplit('::', 1)[-1] in ('copy', 'Copy', 'Clone'):
            x = x[2]
        if x[0] == 'index' and same_value(x[1], b, P, opq):
            return True
    return False


def clone_check(P, rep, rule, cls, f, skip, terms, fieldset=None):
    """terms: result terms of copying an object of class cls"""
    user_copy = [m for m in P.classes[cls].methods if m[0].name == '<ctor>' and m[0].copy and m[5]
                 and not m[0].deleted and not m[4] and '&&' not in m[0].sig]
    for t in terms:
        for t in alts(t):
            t = core(t)
            if t == THIS or (t[0] == 'ctor' and t[1] == cls and t[2] == (THIS,)):
                rep.site(rule + '/copy-ctor', cls)
                for m in user_copy:
                    g = P.body_of(m[0])
                    if g is None:
                        continue
                    src = ('param', g.params[0][1] or '#0', 0)
                    I = Interp(P)
                    for k, _, s in I.run(g):
                        for own, fl in [(c, x) for c, x in P.all_fields(cls) if c == cls]:
                            v = s.env.get(('F', THIS, fl[0]))
                            ok = v is not None and same_value(v, ('field', src, fl[0]), P, None)
                            inst = '%s.%s' % (cls, fl[0])
                            if not ok:
                                rep.violation(rule + '/attribute', inst, g.file, g.line,
                                              'the copy constructor of %s does not copy %s' % (cls, fl[0]))
                            else:
                                rep.site(rule + '/attribute', inst)
                continue
            if t[0] != 'ctor' or not (t[1] == cls):
                rep.violation(rule + '/kind', cls, f.file, f.line,
                              '%s does not return a new %s (it returns %s)' % (f.q, cls, short(t)))
                continue
            rep.site(rule + '/kind', cls)
            match = None
            for cf, fields in ctor_terms(P, cls):
                if len(cf.params) == len(t[2]):
                    m = {('param', p[1] or '#%d' % i, i): t[2][i] for i, p in enumerate(cf.params)}
                    vals = {k: norm_index(subst(v, m)) for k, v in fields.items()}
                    good = [k for k, v in vals.items() if same_value(v, ('field', THIS, k), P, None)]
                    if match is None or len(good) > match[1]:
                        match = (vals, len(good), fields)
            if match is None:
                raise AnalysisBroken('no constructor of %s matches the call in %s' % (cls, f.q))
            vals, _, fields = match
            # a field rebuilt by the constructor from attributes that are themselves copied is equal too:
            # replace this.field by what the constructor put there
            for k, v in sorted(vals.items()):
                if k in skip:
                    continue
                if fieldset is not None and k not in fieldset:
                    continue
                inst = '%s.%s' % (cls, k)
                ok = same_value(v, ('field', THIS, k), P, None)
                if not ok:
                    # express the copy's field in the original's constructor parameters
                    v2 = counted(norm_index(subst(uncopy(v), {('field', THIS, j): t for j, t in fields.items()})))
                    ok = v2 == fields[k]
                if ok:
                    rep.site(rule + '/attribute', inst)
                else:
                    rep.violation(rule + '/attribute', inst, f.file, f.line,
                                  '%s builds the copy with %s = %s instead of the attribute of the original'
                                  % (f.q, k, short(v)))


def uncopy(t):
    """x->copy() has the value of x"""
    if type(t) is frozenset:
        return frozenset(uncopy(x) for x in t)
    if type(t) is not tuple:
        return t
    if t and t[0] == 'call' and t[2] is not None and not t[3] and \
            t[1].rsplit('::', 1)[-1] in ('copy', 'Copy', 'Clone'):
        return uncopy(t[2])
    t = tuple(uncopy(x) for x in t)
    return t


def counted(t):
    """the size of a vector built with a count is that count"""
    if type(t) is frozenset:
        return frozenset(counted(x) for x in t)
    if type(t) is not tuple:
        return t
    t = tuple(counted(x) for x in t)
    if t and t[0] == 'call' and t[1].endswith('::size') and t[2] and t[2][0] == 'vec' \
            and len(t[2][1]) == 1 and t[2][1][0][0] == 'each' and t[2][1][0][2] is not None:
        return t[2][1][0][2]
    return t


def short(t, n=90):
    def r(t):
        if type(t) is not tuple or not t:
            return str(t)
        if t[0] == 'this':
            return 'this'
        if t[0] == 'field':
            return r(t[1]) + '.' + t[2]
        if t[0] == 'param':
            return t[1]
        if t[0] == 'const':
            return str(t[1])
        if t[0] == 'call':
            return '%s%s(%s)' % (r(t[2]) + '.' if t[2] else '', t[1].rsplit('::', 1)[-1],
                                 ', '.join(r(x) for x in t[3]))
        if t[0] == 'ctor':
            return '%s(%s)' % (t[1].rsplit('::', 1)[-1], ', '.join(r(x) for x in t[2]))
        if t[0] == 'index':
            return r(t[1]) + '[' + r(t[2]) + ']'
        if t[0] == 'vec':
            return '{' + ', '.join(r(x) for x in t[1]) + '}'
        if t[0] == 'each':
            return 'each ' + r(t[1])
        if t[0] == 'enum':
            return t[1].rsplit('::', 1)[-1]
        if t[0] == 'phi':
            return ' | '.join(sorted(r(x) for x in t[1]))
        return t[0]
    s = r(t)
    return s if len(s) <= n else s[:n] + '...'


def check_operations(P, rep):
    for cls in P.subclasses(OP):
        C = P.classes[cls]
        if C.abstract or C.dependent:
            continue
        m = P.find_method(cls, 'copy', 0)
        f = P.body_of(m[1]) if m else None
        if f is None:
            continue
        if m[0].name != cls and not C.name.startswith('jlm::rvsdg::MakeBit'):
            # inherited copy() would slice
            rep.violation('copy/kind', cls, C.file, C.line,
                          '%s inherits copy() from %s: the copy loses its kind' % (cls, m[0].name))
            continue
        I = Interp(P, inline=lambda d, g, fr, o: True if d.cls and P.is_a(cls, d.cls) and
                   (is_accessor(g) or d.static) else None)
        terms = [t for k, t, s in I.run(f) if k == 'ret' and t is not None]
        if not terms:
            rep.violation('copy/kind', cls, f.file, f.line, '%s never returns a copy' % f.q)
            continue
        clone_check(P, rep, 'copy', cls, f, {'pt_'} if False else set(), terms)


def ports(P, rep):
    """imports / exports and modules"""
    todo = [('jlm::llvm::LlvmGraphImport', 'Copy', 2), ('jlm::rvsdg::GraphImport', 'Copy', 2),
            ('jlm::rvsdg::GraphExport', 'Copy', 2), ('jlm::llvm::LlvmRvsdgModule', 'copy', 0),
            ('jlm::rvsdg::RvsdgModule', 'copy', 0)]
    for base in ('jlm::rvsdg::RegionArgument', 'jlm::rvsdg::RegionResult'):
        for c in P.subclasses(base):
            C = P.classes[c]
            if any(m[1] == 'Copy' for m in C.methods) and not any(c == x[0] for x in todo):
                todo.append((c, 'Copy', 2))
    stop = {'jlm::rvsdg::RegionArgument', 'jlm::rvsdg::RegionResult'}
    for cls, name, n in todo:
        m = P.find_method(cls, name, n)
        if not m:
            raise AnalysisBroken('%s::%s not found' % (cls, name))
        f = P.body_of(m[1])
        I = Interp(P, inline=lambda d, g, fr, o: True if (d.static or is_accessor(g)) and d.cls
                   and P.is_a(cls, d.cls) else None)
        terms = [t for k, t, s in I.run(f) if k == 'ret' and t is not None]
        shared = set(P.ancestors('jlm::rvsdg::RegionArgument') + P.ancestors('jlm::rvsdg::RegionResult'))
        own = {fl[0] for c, fl in P.all_fields(cls) if c not in shared and not fl[1].endswith('*')}
        # addArgument(unique_ptr) returns the very object
        terms = [unwrap(t) for t in terms]
        clone_check(P, rep, 'copy', cls, f, set(), terms, own)


def unwrap(t):
    t = core(t)
    while t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('addArgument', 'addResult', 'append') and t[3]:
        t = core(t[3][-1])
    return t


def structural(P, rep):
    W = writers(P)
    classes = [c for c in P.subclasses(SN) if not P.classes[c].abstract]
    for cls in classes:
        C = P.classes[cls]
        own = [m[0] for m in C.methods if m[1] == 'copy' and 'SubstitutionMap' in m[0].sig]
        if not own:
            continue
        f = P.body_of(own[0])
        if f is None:
            raise AnalysisBroken('no body for %s' % own[0])
        def pol(d, g, fr, o):
            # the node's own variable accessors stay symbolic; helpers are looked into
            if d.cls and (P.is_a(d.cls, 'jlm::rvsdg::Node') or P.is_a(d.cls, 'jlm::rvsdg::Region')
                          or d.cls in ('jlm::rvsdg::PhiBuilder', 'jlm::rvsdg::SubstitutionMap')):
                priv = g.file == f.file and g.decl.cls in (cls, None) and g.name not in PUBLIC.get(cls, ()) \
                    and not g.decl.static
                return priv and not known_accessor(g)
            return None
        I = Interp(P, inline=pol, min_one=True)
        exits = I.run(f)
        results = [core(t) for k, t, s in exits if k == 'ret' and t is not None]
        for i, ev in enumerate(I.events):
            if ev.kind not in ('call', 'set'):
                continue
            if ev.kind == 'set':
                if ev.obj is not None and rooted(ev.obj, THIS):
                    rep.violation('copy/original-untouched', '%s %s' % (cls, ev.name), ev.file, ev.line,
                                  '%s modifies %s of the node being copied' % (f.q, ev.name))
                continue
            if ev.decl is not None and ev.decl.cls and ev.obj is not None and rooted(ev.obj, THIS) \
                    and ev.decl.key in W and not ev.decl.sig.endswith(' const') \
                    and ev.decl.cls.startswith('jlm::'):
                rep.violation('copy/original-untouched', '%s %s' % (cls, ev.name), ev.file, ev.line,
                              '%s calls the mutating %s on a part of the node being copied' % (f.q, ev.q))
        rep.site('copy/original-untouched', cls)
        if cls in ATTRIBUTED:
            ok = False
            for ev in I.events:
                if ev.kind in ('ctor', 'call') and any(opsource(a, cls) for a in ev.args):
                    ok = True
            inst = '%s operation' % cls
            if ok:
                rep.site('copy/attribute', inst)
            else:
                rep.violation('copy/attribute', inst, f.file, f.line,
                              '%s does not build the copy from the operation of the original' % f.q)


def opsource(a, cls):
    """the argument is (a copy of) the operation of this"""
    for x in subterms(a):
        if x[0] == 'call' and x[1].endswith('::copy') and x[2] is not None and isop(x[2]):
            return True
        if x[0] == 'ctor' and x[1].endswith('Operation') and len(x[2]) == 1 and isop(x[2][0]):
            return True
    return isop(core(a)) if type(a) is tuple and a else False


def isop(t):
    t = core(t)
    return t == ('field', THIS, 'Operation_') or \
        (t[0] == 'call' and t[1].endswith('::GetOperation') and t[2] == THIS)


def known_accessor(g):
    return g.name.startswith(('Get', 'Map', 'Add', 'get', 'add', 'Create', 'create', 'finalize', 'set_',
                              'output', 'input', 'subregion', 'predicate', 'result', 'operator'))


PUBLIC = {}


def containers(P, rep):
    """the operation of a copied simple node"""
    g = [h for h in P.fn('jlm::rvsdg::SimpleNode::copy', 2) if 'SubstitutionMap' not in h.sig][0]
    I = Interp(P, opaque=('jlm::rvsdg::SimpleNode::Create',))
    I.run(g)
    if any(opsource(a, None) for e in I.events if e.q == 'jlm::rvsdg::SimpleNode::Create' for a in e.args):
        rep.site('copy/attribute', 'SimpleNode operation')
    else:
        rep.violation('copy/attribute', 'SimpleNode operation', g.file, g.line,
                      'SimpleNode::copy does not use a copy of its operation')


def check(P, rep):
    rep.rule('copy/copy-ctor', 'copy() returns a new object of the same class built by its copy constructor')
    rep.rule('copy/kind', 'copy() returns a new object of exactly the same class')
    rep.rule('copy/attribute', 'every field of the copy has the value of that field of the original')
    rep.rule('copy/original-untouched', 'the copy functions of structural nodes call no mutating function on '
             'any part of the original')
    rep.rule('copy/ports', 'the copy of a node has the ports of the original, in order, connected to the mapped origins, and '
             'the map takes every output (and, while a region is copied, every argument) to its counterpart')
    rep.rule('copy/known-node', 'every structural node is covered')
    check_operations(P, rep)
    ports(P, rep)
    structural(P, rep)
    containers(P, rep)
    rep.floor('copy/copy-ctor', 150)
    rep.floor('copy/original-untouched', 6)
    nodes.copies(P, rep)
    nodes.simple(P, rep)
    rep.floor('copy/ports', 32)


CHECKS = {'C03': check}
