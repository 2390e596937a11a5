"""Translation tables: the enumerations and types LLVM and jlm share are translated one to one, in both directions, and
every type factory returns the type it was asked for.  Each table function is interpreted for every enumerator, each type
converter for every kind of type with symbolic components."""
from sa.facts import AnalysisBroken
from sa.scenario import show
from checks.backend import BRun, Norm, CV, en, irc
from checks.frontend import NS, RV, vec, k, C

TC = NS + 'TypeConverter'
LLVM_LINKAGE = 'llvm::GlobalValue::'
FP = {'half': ('Half', 'HalfTyID'), 'flt': ('Float', 'FloatTyID'), 'dbl': ('Double', 'DoubleTyID'),
      'x86fp80': ('X86_FP80', 'X86_FP80TyID'), 'fp128': ('FP128', 'FP128TyID')}
PREDICATES = ('Eq', 'Ne', 'Ugt', 'Uge', 'Ult', 'Ule', 'Sgt', 'Sge', 'Slt', 'Sle')
CONVENTIONS = ('C', 'Fast', 'Cold', 'Tail')


def fold(name):
    return name.rsplit('::', 1)[-1].replace('_', '').lower()


def enumerators(P, prefix):
    xs = [x for x in P.enumvalue if x.startswith(prefix) and '::' not in x[len(prefix):]]
    if not xs:
        raise AnalysisBroken('enumeration %s not found' % prefix)
    return xs


def marker(x):
    n = x.rsplit('::', 1)[-1]
    return n in ('None', 'EmptyKey', 'TombstoneKey') or n.startswith(('First', 'Last', 'End'))


class Tables:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.nz = Norm(P)

    def result(self, f, args, sc=()):
        """([(result, effects)], whether some path rejects)"""
        ex = BRun(self.P, dict(sc)).run(f, args)
        if not ex:
            raise AnalysisBroken('%s has no exit' % f.q)
        return ([(self.nz(t), tuple(self.nz(x) for x in tr)) for kd, t, _, tr in ex if kd != 'throw' and t is not None],
                any(x[0] == 'throw' for x in ex))

    def same(self, a, b):
        if a == b:
            return True
        if a[0] == 'enum' and b[0] == 'enum' and a[1].rsplit('::', 1)[0] == b[1].rsplit('::', 1)[0]:
            va, vb = self.P.enumvalue.get(a[1]), self.P.enumvalue.get(b[1])
            return va is not None and va == vb
        return False

    def expect(self, rule, name, f, args, want, sc=(), trace=None):
        """the function returns exactly `want` on every path"""
        res, rejected = self.result(f, args, sc)
        if rejected or not res:
            self.rep.violation(rule, name, f.file, f.line, '%s rejects %s' % (f.q, name))
            return
        for t, tr in res:
            if not self.same(self.norm(t), self.norm(want)):
                self.rep.violation(rule, name, f.file, f.line, '%s: %s is translated to %s, expected %s'
                                   % (f.q, name, show(t), show(want)))
                return
            if trace is not None and trace not in tr:
                self.rep.violation(rule, name, f.file, f.line, '%s: %s does not record %s' % (f.q, name, show(trace)))
                return
        self.rep.site(rule, name)

    def rejects(self, rule, name, f, args, sc=()):
        res, rejected = self.result(f, args, sc)
        if res:
            self.rep.violation(rule, name, f.file, f.line, '%s accepts %s as %s' % (f.q, name, show(res[0][0])))
        else:
            self.rep.site(rule, name)

    def norm(self, t):
        if t[0] == 'irc':
            a = t[2:]
            if t[1] in ('FixedVectorType::get', 'ScalableVectorType::get') and len(a) == 2:
                return irc('VectorType::get', a[0], a[1], k(t[1][0] == 'S'))
            if t[1] == 'VectorType::get' and len(a) == 2 and a[1][0] == 'irc' and a[1][1].startswith('ElementCount::'):
                e = a[1]
                if e[1] in ('ElementCount::getFixed', 'ElementCount::getScalable') and len(e) == 3:
                    return irc('VectorType::get', a[0], e[2], k(e[1].endswith('Scalable')))
                if e[1] == 'ElementCount::get' and len(e) == 4:
                    return irc('VectorType::get', a[0], e[2], e[3])
            if t[1] == 'PointerType::getUnqual':
                return irc('PointerType::get', k(0))
            if t[1] == 'StructType::get' and len(a) == 1:
                return t + (k(False),)
        return t


def check_enums(P, rep, T):
    rule = 'table/linkage'
    rep.rule(rule, 'every linkage is translated to the linkage of the same name, from LLVM and back to LLVM')
    ff, fb = P.fn(NS + 'convert_linkage'), P.fn(CV + '::convert_linkage')
    jl = {fold(x).replace('linkage', ''): x for x in enumerators(P, NS + 'Linkage::')}
    for x in enumerators(P, LLVM_LINKAGE):
        if not x.endswith('Linkage'):
            continue
        n = fold(x).replace('linkage', '')
        if n not in jl:
            raise AnalysisBroken('no jlm linkage named like %s' % x)
        T.expect(rule, 'from ' + x, ff, [en(x)], en(jl[n]))
        T.expect(rule, 'to ' + x, fb, [en(jl[n])], en(x))
    rep.floor(rule, 22)

    rule = 'table/attribute'
    rep.rule(rule, 'every attribute kind is translated to the attribute kind of the same name, from LLVM and back; a range '
             'marker may stand for the kind it is translated back to')
    ff, fb = P.fn(NS + 'ConvertAttributeKind'), P.fn(CV + '::ConvertAttributeKind')
    ja = {fold(x): x for x in enumerators(P, NS + 'Attribute::kind::') if not marker(x)}
    la = {fold(x): x for x in enumerators(P, 'llvm::Attribute::') if not marker(x)}
    for n in sorted(set(ja) | set(la)):
        if n not in ja or n not in la:
            rep.note('attribute kind %s exists on one side only' % n)
            continue
        want = ja[n]
        res, _ = T.result(ff, [en(la[n])])
        if len(res) == 1 and res[0][0][0] == 'enum' and res[0][0][1].startswith(NS + 'Attribute::kind::') and marker(res[0][0][1]):
            want = res[0][0][1]
            T.expect(rule, 'back ' + la[n], fb, [en(want)], en(la[n]))
        T.expect(rule, 'from ' + la[n], ff, [en(la[n])], en(want))
        T.expect(rule, 'to ' + la[n], fb, [en(ja[n])], en(la[n]))
    rep.floor(rule, 160)

    rule = 'table/calling-convention'
    rep.rule(rule, 'every supported calling convention is translated to the one of the same name, from LLVM and back; '
             'the others are rejected')
    ff, fb = P.fn(NS + 'convertCallingConventionToJlm'), P.fn(NS + 'convertCallingConventionToLlvm')
    for n in CONVENTIONS:
        T.expect(rule, 'from ' + n, ff, [en('llvm::CallingConv::' + n)], en(NS + 'CallingConvention::' + n))
        T.expect(rule, 'to ' + n, fb, [en(NS + 'CallingConvention::' + n)], en('llvm::CallingConv::' + n))
    for x in enumerators(P, 'llvm::CallingConv::'):
        n = x.rsplit('::', 1)[-1]
        if n in CONVENTIONS or n in ('MaxID', 'FirstTargetCC'):
            continue
        j = NS + 'CallingConvention::' + n
        if j in P.enumvalue:
            T.expect(rule, 'from ' + n, ff, [en(x)], en(j))
        else:
            T.rejects(rule, 'no ' + n, ff, [en(x)])
    rep.floor(rule, 8)

    rule = 'table/predicate'
    rep.rule(rule, 'every integer comparison predicate is translated to the one of the same name, from LLVM and back')
    ff, fb = P.fn(NS + 'convertICmpPredicateToJlm'), P.fn(NS + 'convertICmpPredicateToLlvm')
    for n in PREDICATES:
        T.expect(rule, 'from ' + n, ff, [en('llvm::CmpInst::ICMP_' + n.upper())], en(NS + 'ICmpPredicate::' + n))
        T.expect(rule, 'to ' + n, fb, [en(NS + 'ICmpPredicate::' + n)], en('llvm::CmpInst::ICMP_' + n.upper()))
    rep.floor(rule, 20)


def check_types(P, rep, T):
    fb, ff = P.fn(TC + '::ConvertJlmType', sig='rvsdg'), P.fn(TC + '::ConvertLlvmType', sig='(')
    J, L = ('atom', 'jt'), ('atom', 'LT')
    e0, e1, n, ret = (('atom', x) for x in ('e0', 'e1', 'n', 'ret'))
    mapq = 'jlm::util::BijectiveMap<llvm::StructType *, std::shared_ptr<const jlm::llvm::StructType>>::'
    smap = ('field', ('this',), 'StructTypeMap_')
    ops = [mapq + x for x in ('Insert', 'LookupValue', 'LookupKey')]

    def lt(x):
        return ('call', TC + '::ConvertJlmType', ('this',), (x, ('llvmctx',)), ())

    def jt(x):
        return ('call', TC + '::ConvertLlvmType', ('this',), (x,), ())

    rule = 'table/type-to-llvm'
    rep.rule(rule, 'every jlm type is translated to the LLVM type with the same kind and the translated components')

    def back(name, cls, args, want, trace=None, hit=False, **kw):
        sc = dict(objs={J: cls}, build=[(J, cls, args)], enter=['TypeConverter'],
                  returns={mapq + 'HasValue': k(hit)}, opaque=ops, calltrace=ops[:1])
        sc.update(kw)
        T.expect(rule, name, fb, [J, ('llvmctx',)], want, sc, trace)

    back('bit', RV + 'BitType', [n], irc('IntegerType::get', n))
    back('pointer', NS + 'PointerType', [], irc('PointerType::get', k(0)))
    for x, (nm, _) in FP.items():
        back('float ' + x, NS + 'FloatingPointType', [en(NS + 'fpsize::' + x)], irc('Type::get%sTy' % nm))
    back('array', NS + 'ArrayType', [e0, n], irc('ArrayType::get', lt(e0), n))
    back('fixed vector', NS + 'FixedVectorType', [e0, n], irc('VectorType::get', lt(e0), n, k(False)))
    back('scalable vector', NS + 'ScalableVectorType', [e0, n], irc('VectorType::get', lt(e0), n, k(True)))
    for m in (1, 2, 3, 4, 5):
        back('control %d' % m, RV + 'ControlType', [k(m)], irc('IntegerType::get', k(1 if m == 2 else 32)))
    for elems in ((), (e0,), (e0, e1)):
        for packed in (False, True):
            a = vec(*elems)
            b = vec(*map(lt, elems))
            w = irc('StructType::get', b, k(packed))
            s = '%d%s' % (len(elems), ' packed' if packed else '')
            ins = ('called', mapq + 'Insert')
            back('literal struct ' + s, NS + 'StructType', [('str', ''), a, k(packed), k(True)], w,
                 trace=ins + ((w, J),))
            w = irc('StructType::create', b, ('atom', 'nm'), k(packed))
            back('identified struct ' + s, NS + 'StructType', [('atom', 'nm'), a, k(packed), k(False)], w,
                 trace=ins + ((w, J),))
    back('known struct', NS + 'StructType', [('atom', 'nm'), vec(e0), k(False), k(False)],
         ('call', mapq + 'LookupValue', smap, (J,), ()), hit=True)
    io, mem, va = C(NS + 'IOStateType'), C(NS + 'MemoryStateType'), C(NS + 'VariableArgumentType')
    kinds = dict(jkinds={e0: 'Value', e1: 'Value', ret: 'Value'})
    for params in ((), (e0,), (e0, e1)):
        for var in (False, True):
            for res in ((), (ret,)):
                back('function (%d%s) -> %d' % (len(params), ', ...' if var else '', len(res)), RV + 'FunctionType',
                     [vec(*params, *([va] if var else []), io, mem), vec(*res, io, mem)],
                     irc('FunctionType::get', lt(ret) if res else irc('Type::getVoidTy'), vec(*map(lt, params)), k(var)),
                     **kinds)
    rep.floor(rule, 38)

    rule = 'table/type-to-jlm'
    rep.rule(rule, 'every LLVM type is translated to the jlm type with the same kind and the translated components')

    def front(name, tid, want, get=(), trace=None, hit=False):
        sc = dict(enter=['TypeConverter'], get={('getTypeID', L): en('llvm::Type::' + tid), **dict(get)},
                  returns={mapq + 'HasKey': k(hit)}, opaque=ops, calltrace=ops[:1])
        T.expect(rule, name, ff, [L], want, sc, trace)

    def ll(nm):
        return ('ll', nm, L)
    front('integer', 'IntegerTyID', C(RV + 'BitType', ll('getBitWidth')))
    front('pointer', 'PointerTyID', C(NS + 'PointerType'))
    for x, (_, tid) in FP.items():
        front('float ' + x, tid, C(NS + 'FloatingPointType', en(NS + 'fpsize::' + x)))
        T.expect(rule, 'size of float ' + x, P.fn(TC + '::ExtractFloatingPointSize'), [L], en(NS + 'fpsize::' + x),
                 dict(enter=['TypeConverter'], get={('getTypeID', L): en('llvm::Type::' + tid)}))
    g = {('getArrayElementType', L): e0, ('getArrayNumElements', L): n, ('getElementType', L): e0, ('getScalarType', L): e0,
         ('getNumElements', L): n, ('getMinNumElements', L): n}
    front('array', 'ArrayTyID', C(NS + 'ArrayType', jt(e0), n), {x: v for x, v in g.items() if x[0] != 'getScalarType'})
    front('fixed vector', 'FixedVectorTyID', C(NS + 'FixedVectorType', jt(e0), n), g)
    front('scalable vector', 'ScalableVectorTyID', C(NS + 'ScalableVectorType', jt(e0), n), g)
    for elems in ((), (e0,), (e0, e1)):
        for packed in (False, True):
            for lit in (False, True):
                get = {('elements', L): vec(*elems), ('isLiteral', L): k(lit), ('isPacked', L): k(packed),
                       ('getNumElements', L): k(len(elems)), ('getName', L): ('atom', 'nm'),
                       **{('getElementType', L, k(i)): x for i, x in enumerate(elems)}}
                w = C(NS + 'StructType', ('str', '') if lit else ('atom', 'nm'), vec(*map(jt, elems)), k(packed), k(lit))
                front('%s struct %d%s' % ('literal' if lit else 'identified', len(elems), ' packed' if packed else ''),
                      'StructTyID', w, get, trace=('called', mapq + 'Insert', (L, w)))
    front('known struct', 'StructTyID', ('call', mapq + 'LookupKey', smap, (L,), ()), hit=True)
    for params in ((), (e0,), (e0, e1)):
        for var in (False, True):
            for res in ((), (ret,)):
                get = {('getNumParams', L): k(len(params)), ('isVarArg', L): k(var), ('getReturnType', L): ret,
                       ('params', L): vec(*params),
                       ('getTypeID', ret): en('llvm::Type::' + ('IntegerTyID' if res else 'VoidTyID')),
                       ('isVoidTy', ret): k(not res),
                       **{('getParamType', L, k(i)): x for i, x in enumerate(params)}}
                front('function (%d%s) -> %d' % (len(params), ', ...' if var else '', len(res)), 'FunctionTyID',
                      C(RV + 'FunctionType', vec(*map(jt, params), *([va] if var else []), io, mem),
                        vec(*map(jt, res), io, mem)), get)
    rep.floor(rule, 34)


def check_factories(P, rep, T):
    rule = 'table/type-factory'
    rep.rule(rule, 'Create returns a type whose components are the arguments, for every argument that has a preallocated '
             'instance and for larger ones')
    for cls in P.subclasses(RV + 'Type'):
        for f in P.by_q.get(cls + '::Create', []):
            if f.dependent or P.classes[cls].abstract:
                continue
            if cls == RV + 'BitType':
                args = [[k(i)] for i in list(range(1, 70)) + [128, 1000]]
                T.rejects(rule, cls + ' 0', f, [k(0)])
            elif cls == RV + 'ControlType':
                args = [[k(i)] for i in range(1, 10)]
                T.rejects(rule, cls + ' 0', f, [k(0)])
            elif cls == NS + 'FloatingPointType':
                args = [[en(NS + 'fpsize::' + x)] for x in FP]
            else:
                args = [[('atom', 'a%d' % i) for i in range(len(f.params))]]
            for a in args:
                T.expect(rule, '%s(%s)' % (cls, ', '.join(map(show, a))), f, a, C(cls, *a))
    rep.floor(rule, 80)


def check(P, rep):
    T = Tables(P, rep)
    check_enums(P, rep, T)
    check_types(P, rep, T)
    check_factories(P, rep, T)


CHECKS = {'C09': check}
