"""frontend, module level: constants, attributes, phi operands, function bodies, declarations and initialisers."""
from collections import Counter
from sa.engine import core, subterms, contains, alts
from sa.facts import AnalysisBroken
from sa.scenario import show
from checks.frontend import (Run, Spec, NS, RV, I, CTX, IO, MEM, op, V, ty, C, vec, tac, r, k, ll, bb, edge, args_for)

ORDERED = {'append_argument': 'arg', 'append_result': 'res', 'append_last': 'code', 'append_first': 'code',
           'insert_before_branch': 'code', 'add_outedge': 'edge', 'set_node': 'node', 'called': 'node',
           'set_initialization': 'init', 'add_cfg': 'init'}


def conflicts(a, b):
    fa, fb = ORDERED.get(a[0]), ORDERED.get(b[0])
    if fa is None or fa != fb:
        return False
    if fa == 'node':
        return 'set_node' in (a[0], b[0])
    return a[1] == b[1]


def match_trace(actual, expected):
    ca, ce = Counter(actual), Counter(expected)
    if ca != ce:
        miss, extra = list((ce - ca).elements()), list((ca - ce).elements())
        return '%s; required %s' % (', '.join(map(show, extra)) or 'nothing more', ', '.join(map(show, miss)) or
                                    'nothing else')
    for i in range(len(expected)):
        for j in range(i + 1, len(expected)):
            a, b = expected[i], expected[j]
            if a != b and conflicts(a, b) and actual.index(a) > actual.index(b):
                return '%s comes after %s' % (show(a), show(b))
    return None


class MSpec(Spec):
    def effects(self, name, sc, f, args, expected, ret='any', rule=None, only=None, unique=False):
        """every exit performs exactly the expected construction steps"""
        rule = rule or self.rule
        self.rep.site(rule, name)
        R, out = self.run(sc, f, args)
        if not out:
            self.rep.broken.append('%s: no exit' % name)
        expected = [R.nz(x) for x in expected]
        ret = R.nz(ret) if type(ret) is tuple else ret
        for kd, t, tacs, tr in out:
            if kd == 'throw':
                self.fail(name, 'is rejected', f, rule)
                continue
            tr = [x for x in tr if only is None or x[0] in only]
            if unique:
                tr = list(dict.fromkeys(tr))
            why = match_trace(tr, expected)
            if why:
                self.fail(name, why, f, rule)
            elif callable(ret):
                why = ret(t)
                if why:
                    self.fail(name, why, f, rule)
            elif ret != 'any' and t != ret:
                self.fail(name, 'answers %s, not %s' % (show(t) if t else None, show(ret)), f, rule)


def enumval(v):
    return ('enum', 'llvm::Value::' + v)


def check_constants(P, rep):
    cands = [f for f in P.by_q.get(NS + 'ConvertConstant', []) if len(f.params) == 3
             and f.params[0][2] in ('llvm::Constant *', 'const llvm::Constant *') and not f.decl.ta and not f.dependent]
    if len(cands) != 1:
        raise AnalysisBroken('ConvertConstant: %d candidates' % len(cands))
    S = MSpec(P, rep, cands[0], 'front/constant')
    TI, T0 = ty(I), ty(op(0))

    def cst(v, n=None, **kw):
        g = {('getValueID', I): enumval(v)}
        if n is not None:
            g.update({('getNumOperands', I): k(n), ('getNumElements', I): k(n),
                      ('operands', I): vec(*[op(i) for i in range(n)])})
        g.update(kw.pop('get', {}))
        return dict(get=g, **kw)
    simple = {'ConstantAggregateZeroVal': C('ConstantAggregateZeroOperation', ('jt', TI)),
              'UndefValueVal': C('UndefValueOperation', ('jt', TI)),
              'PoisonValueVal': C('PoisonValueOperation', ('jt', TI)),
              'ConstantFPVal': C('ConstantFP', ('jt', TI), ll('getValueAPF', I)),
              'ConstantPointerNullVal': C('ConstantPointerNullOperation')}
    for v, o in simple.items():
        t = tac(o)
        rt = r(t, 0)
        S.codes('constant ' + v[:-3], cst(v, types={TI: 'ptr'} if 'Null' in v else {}), [t], rt)
    for n in (1, 2, 3):
        args = [V(i) for i in range(n)]
        for v, o in (('ConstantArrayVal', C('ConstantArrayOperation', ('jt', T0), k(n))),
                     ('ConstantStructVal', C('ConstantStructOperation', ('jt', TI))),
                     ('ConstantVectorVal', C('ConstantVectorOperation', ('jt', TI))),
                     ('ConstantDataArrayVal', C('ConstantDataArrayOperation', ('jt', T0), k(n))),
                     ('ConstantDataVectorVal', C('ConstantDataVectorOperation', C('FixedVectorType', ('jt', T0), k(n))))):
            t = tac(o, *args)
            same = {ty(op(i)): T0 for i in range(1, n)}
            if v not in ('ConstantStructVal', 'ConstantVectorVal'):
                same[('scalar', TI)] = T0
            S.codes('constant %s with %d elements' % (v[:-3], n), cst(v, n, same=same), [t], r(t, 0))
    for v in ('FunctionVal', 'GlobalVariableVal'):
        S.codes('constant ' + v[:-3], cst(v), [], ('val', I))
    handled = set(simple) | {'ConstantArrayVal', 'ConstantStructVal', 'ConstantVectorVal', 'ConstantDataArrayVal',
                             'ConstantDataVectorVal', 'FunctionVal', 'GlobalVariableVal', 'ConstantIntVal', 'ConstantExprVal'}
    first, last = P.enumvalue.get('llvm::Value::ConstantFirstVal'), P.enumvalue.get('llvm::Value::ConstantLastVal')
    n = 0
    for q, _ in P.enums.get('llvm::Value::ValueTy', {}).get('v', ()):
        name = q.rsplit('::', 1)[-1]
        if name.endswith('Val') and not name.endswith(('FirstVal', 'LastVal')) and name not in handled \
                and first is not None and first <= P.enumvalue[q] <= last:
            n += 1
            S.rejected('unsupported constant ' + name[:-3], cst(name))
    if n < 3:
        rep.broken.append('constants: LLVM constant kinds not enumerated')
    # integers: the bit representation is the value's, extended according to its sign
    f = cands[0]
    for neg in (True, False):
        name = 'constant ConstantInt, %s' % ('negative' if neg else 'not negative')
        rep.site('front/constant', name)
        R, out = S.run(cst('ConstantIntVal', get={'isNegative': k(neg)}))
        for kd, t, tacs, tr in out:
            if kd == 'throw':
                S.fail(name, 'is rejected')
                continue
            codes = [x for x in (tacs[1] if tacs else ()) if x[0] == 'tac']
            o = codes[0][1] if len(codes) == 1 else None
            if o is None or o[0] != 'ctor' or 'IntegerConstantOperation' not in o[1] or len(o[2]) != 1 \
                    or t is None or t[:2] != ('result', codes[0]):
                S.fail(name, 'is not converted to one integer constant')
                continue
            x = o[2][0]
            if not contains(x, lambda y: y[0] == 'll' and y[1] in ('getValue',) and y[2] == I) and not contains(
                    x, lambda y: y == I):
                S.fail(name, 'the constant does not depend on the value')
            exts = [y for y in subterms(x) if y[0] == 'call' and y[1].endswith(('::sext', '::zext'))]
            want = '::sext' if neg else '::zext'
            if not exts or any(not y[1].endswith(want) for y in exts):
                S.fail(name, 'the bit string is extended by %s' % ', '.join(
                    sorted({y[1].rsplit('::', 1)[-1] for y in exts}) or ['nothing']))
    # expressions: the equivalent instruction is converted
    name = 'constant ConstantExpr'
    rep.site('front/constant', name)
    R, out = S.run(cst('ConstantExprVal', opaque=[NS + 'convertInstruction'], emits=[NS + 'convertInstruction']))
    for kd, t, tacs, tr in out:
        ok = kd != 'throw' and t is not None and t[0] == 'val' and t[1][:3] == ('ll', 'getAsInstruction', I) \
            and tacs and tacs[1] == (('code-of', t[1]),)
        if not ok:
            S.fail(name, 'is not converted through its equivalent instruction')
    return cands[0]


KINDQ = ('Enum', 'Int', 'Type', 'String')


def akind(x, kd):
    return {('is%sAttribute' % q, x): k(q == kd) for q in KINDQ}


def attribute_set(P, i, kd):
    """scenario facts and expected insertion for one attribute of the given kind"""
    a = ('atom', 'attr%d' % i)
    g = akind(a, kd)
    K = 'llvm::Attribute::'
    if kd == 'Enum':
        g[('getKindAsEnum', a)] = ('enum', K + 'NoInline')
        e = ('InsertEnumAttribute', C('EnumAttribute', ('enum', NS + 'Attribute::kind::NoInline')))
    elif kd == 'Int':
        g[('getKindAsEnum', a)] = ('enum', K + 'Dereferenceable')
        e = ('InsertIntAttribute', C('IntAttribute', ('enum', NS + 'Attribute::kind::Dereferenceable'), ll('getValueAsInt', a)))
    elif kd == 'Type':
        g[('getKindAsEnum', a)] = ('enum', K + 'ByVal')
        e = ('InsertTypeAttribute', C('TypeAttribute', ('enum', NS + 'Attribute::kind::ByVal'),
                                      ('jt', ll('getValueAsType', a))))
    else:
        e = ('InsertStringAttribute', C('StringAttribute', ll('getKindAsString', a), ll('getValueAsString', a)))
    return a, g, e


def check_attributes(P, rep):
    f = P.fn(NS + 'convertAttributeList')
    S = MSpec(P, rep, f, 'front/attributes')
    L = ('attrs',)
    args = []
    for p in f.params:
        args.append(L if 'AttributeList' in p[2] else ('tc',) if 'TypeConverter' in p[2] else k(2))

    def canon(t):
        if t[:1] == ('enum',):
            return ('enum', P.canon.get(t[1], t[1]))
        return tuple(canon(x) if type(x) is tuple else x for x in t)
    n = 0
    for where in ('fn', 'ret', 'p0', 'p1'):
        for kinds in (('Enum',), ('Int',), ('Type',), ('String',), ('Enum', 'String', 'Int', 'Type'), ()):
            g, atoms, exp = {}, [], []
            for i, kd in enumerate(kinds):
                a, ga, e = attribute_set(P, i, kd)
                g.update(ga)
                atoms.append(a)
                exp.append(e)
            slot = {'fn': vec(), 'ret': vec(), 'p0': vec(), 'p1': vec()}
            slot[where] = vec(*atoms)
            g.update({('getFnAttrs', L): slot['fn'], ('getRetAttrs', L): slot['ret'],
                      ('getParamAttrs', L, k(0)): slot['p0'], ('getParamAttrs', L, k(1)): slot['p1']})
            want = {w: C('AttributeSet') for w in slot}
            want[where] = canon(('ctor', NS + 'AttributeSet', tuple(sorted(exp, key=repr))))
            name = 'attribute list: %s on %s' % ('+'.join(kinds) or 'nothing', {
                'fn': 'the function', 'ret': 'the result', 'p0': 'parameter 0', 'p1': 'parameter 1'}[where])
            rep.site('front/attributes', name)
            R, out = S.run({'get': g}, f, args)
            n += 1
            for kd, t, tacs, tr in out:
                if kd == 'throw':
                    S.fail(name, 'is rejected')
                    continue
                if t is None or t[0] != 'ctor' or t[1] != NS + 'AttributeList' or len(t[2]) != 3 or t[2][2][0] != 'vec':
                    S.fail(name, 'does not build an attribute list: %s' % (show(t)[:200] if t else None))
                    continue
                got = {'fn': t[2][0], 'ret': t[2][1]}
                for i, x in enumerate(t[2][2][1]):
                    got['p%d' % i] = x
                for w in slot:
                    x = got.get(w)
                    if x is not None and x[0] == 'ctor':
                        x = canon(('ctor', x[1], tuple(sorted(map(canon, x[2]), key=repr))))
                    if x != want[w]:
                        S.fail(name, 'the attributes of %s are %s, required %s' % (w, show(x) if x else None, show(want[w])))
                if len(t[2][2][1]) != 2:
                    S.fail(name, '%d parameter attribute sets for 2 parameters' % len(t[2][2][1]))


def check_cfg(P, rep):
    fi = P.fn(NS + 'convert_instructions')
    S = MSpec(P, rep, fi, 'front/function')
    b1, b2 = ('atom', 'B1'), ('atom', 'B2')
    ins = [('atom', 'i%d' % n) for n in range(4)]
    CI = NS + 'convertInstruction'
    sc = {'opaque': [CI], 'emits': [CI], 'ranges': {I: vec(b1, b2), b1: vec(*ins[:3]), b2: vec(ins[3])}}
    exp = []
    for b, xs in ((b1, ins[:3]), (b2, ins[3:])):
        for x in xs:
            exp += [('insert_value', CTX, x, ('val', x)), ('append_last', bb(b), vec(('code-of', x)))]
    S.effects('code of every instruction is appended to its block, in order', sc, fi, args_for(fi), exp)
    # phi instructions are collected
    for n, (phi, want) in enumerate((((1,), 1), ((), 0), ((0, 1, 3), 3))):
        name = 'phi instructions are collected (%d)' % want
        sc2 = dict(sc, phi={ins[i] for i in phi})
        rep.site('front/function', name)
        R, out = MSpec(P, rep, fi, 'front/function', PhiRun).run(sc2, fi, args_for(fi))
        for kd, t, tacs, tr in out:
            if t != vec(*[ins[i] for i in phi]):
                S.fail(name, 'collects %s' % (show(t) if t else None), fi)

    fp = P.fn(NS + 'PatchPhiOperands')
    p, p2 = ('atom', 'phi'), ('atom', 'phi2')

    def phi(x, blocks, unreachable=()):
        g = {('getNumOperands', x): k(len(blocks)), ('getNumIncomingValues', x): k(len(blocks)),
             ('blocks', x): vec(*[('atom', b) for b in blocks]),
             ('incoming_values', x): vec(*[op(i, x) for i in range(len(blocks))])}
        for i, b in enumerate(blocks):
            g[('getIncomingBlock', x, k(i))] = ('atom', b)
        return g

    def patched(x, blocks, skip=()):
        exp, bs, vs = [], [], []
        for i, b in enumerate(blocks):
            if b in skip or bb(('atom', b)) in bs:
                continue
            exp.append(('insert_before_branch', bb(('atom', b)), vec(('code-of', op(i, x)))))
            bs.append(bb(('atom', b)))
            vs.append(('val', op(i, x)))
        T = ('field', ('var', x), 'tac_')
        return exp + [('replace', T, C('SsaPhiOperation', vec(*bs), ('vtype', ('result', T, k(0)))), vec(*vs))]
    for blocks, un in ((('x', 'y'), ()), (('x', 'x', 'y'), ()), (('x', 'y', 'x'), ()), (('u', 'x', 'y'), ('u',)),
                       (('x', 'u', 'y', 'u'), ('u',))):
        S.effects('operands of a phi from %s%s' % (','.join(blocks), ', %s unreachable' % un[0] if un else ''),
                  {'get': phi(p, blocks), 'unreachable': [('atom', u) for u in un]}, fp,
                  [vec(p) if 'vector' in q[2] else CTX for q in fp.params], patched(p, blocks, un))
    g = phi(p, ('x', 'y'))
    g.update(phi(p2, ('y', 'x')))
    S.effects('operands of two phis', {'get': g}, fp, [vec(p, p2) if 'vector' in q[2] else CTX for q in fp.params],
              patched(p, ('x', 'y')) + patched(p2, ('y', 'x')))

    fc = P.fn(NS + 'create_cfg')
    OPQ = [NS + x for x in ('convert_instructions', 'PatchPhiOperands', 'EnsureSingleInEdgeToExitNode', 'convert_argument',
                            'straighten', 'prune', 'convert_basic_blocks')]
    FN = ('field', ('field', ('field', ('var', I), 'node_'), 'FunctionType_'), 'ArgumentTypes_')
    CFG = C('ControlFlowGraph', ('ctxmodule',))
    ENTRY, EXIT = ('field', CFG, 'entry_'), ('field', CFG, 'exit_')
    for nargs in (0, 2):
        for va in (False, True):
            for void in (True, False):
                name = 'function body with %d arguments%s%s' % (nargs, ', variadic' if va else '', ', void' if void else '')
                rep.site('front/function', name)
                al = [('atom', 'a%d' % i) for i in range(nargs)]
                g = {'isVoidTy': k(void), ('isVarArg', I): k(va), ('args', I): vec(*al)}
                R, out = S.run({'opaque': OPQ, 'get': g, 'ranges': {ll('args', I): vec(*al)}, 'calltrace': OPQ}, fc,
                               args_for(fc))
                for kd, t, tacs, tr in out:
                    if kd == 'throw':
                        S.fail(name, 'is rejected', fc)
                        continue
                    why = cfg_shape(R, t, tr, al, va, void, FN)
                    if why:
                        S.fail(name, why, fc)


class PhiRun(Run):
    """the code of an instruction is one operation, an SsaPhiOperation for the phis of the scenario"""
    def hook(self, ip, d, o, ts, s, fr, e):
        if d.q in (NS + 'is', RV + 'is') and d.ta and d.ta[0].endswith('SsaPhiOperation') and ts:
            codes = [x[1] for x in subterms(core(ts[0])) if x[0] == 'code-of']
            if len(set(codes)) == 1:
                return [(('const', codes[0] in self.sc['phi']), s)]
        return super().hook(ip, d, o, ts, s, fr, e)

    def truth(self, t, s):
        if t[0] == 'dyn' and t[1].endswith('SsaPhiOperation'):
            codes = [x[1] for x in subterms(t) if x[0] == 'code-of']
            if len(set(codes)) == 1:
                return codes[0] in self.sc['phi']
        return super().truth(t, s)


def cfg_shape(R, t, tr, al, va, void, FN):
    def only(*names):
        return [x for x in tr if x[0] in names]
    args = only('append_argument')
    want = len(al) + (1 if va else 0) + 2
    if len(args) != want:
        return '%d arguments are appended, not %d' % (len(args), want)
    entry = args[0][1]
    if any(x[1] != entry for x in args) or entry[0] != 'field' or entry[2] != 'entry_' or entry[1] != t:
        return 'the arguments are not appended to the entry of the function body'
    for i, a in enumerate(al):
        x = args[i][2]
        if x[0] != 'call' or not x[1].endswith('convert_argument') or a not in x[3]:
            return 'argument %d is %s' % (i, show(x))
        ins = [y for y in only('insert_value') if y[2] == a]
        if len(ins) != 1 or ins[0][3] != x:
            return 'argument %d is bound to %s' % (i, show(ins[0][3]) if ins else 'nothing')
    if len(only('insert_value')) != len(al):
        return 'binds values other than the arguments'
    rest = [x[2] for x in args[len(al):]]
    for j, x in enumerate(rest):
        if x[0] != 'ctor' or not x[1].endswith('::Argument') or len(x[2]) < 2 or x[2][1] != ('index', FN, k(len(al) + j)):
            return 'the type of argument %d is not that of the function type' % (len(al) + j)
    for nm, i in (('set_iostate', -2), ('set_memory_state', -1)):
        xs = only(nm)
        if len(xs) != 1 or xs[0][2] != args[i][2]:
            return '%s: %s' % (nm, show(xs[-1][2]) if xs else 'missing')
    # blocks are created from this function, the entry edge leads to LLVM's entry block
    outs = only('add_outedge')
    if len(outs) != 1:
        return '%d edges from the new entry block' % len(outs)
    blk = outs[0][1]
    dst = outs[0][2]
    if not contains(dst, lambda y: y == ll('getEntryBlock', I)):
        return 'the entry edge leads to %s' % show(dst)
    dv = only('divert_inedges')
    if len(dv) != 1 or dv[0][2] != blk or dv[0][1][:1] + dv[0][1][2:] != ('field', 'exit_'):
        return 'the entry block is not put on the edge to the exit'
    res = [x[2] for x in only('append_result')]
    if len(res) != (2 if void else 3):
        return '%d results are appended' % len(res)
    if any(x[1] != ('field', t, 'exit_') for x in only('append_result')):
        return 'results are not appended to the exit'
    if res[-2:] != [IO, MEM]:
        return 'the last two results are %s' % ', '.join(map(show, res[-2:]))
    sr = only('set_result')
    if void:
        if any(x[2] != ('null',) for x in sr):
            return 'a void function has a result'
    else:
        if len(sr) != 1 or sr[0][2] != res[0]:
            return 'the result variable is not the first result of the function'
        und = [y for y in subterms(res[0]) if y[0] == 'ctor' and y[1].endswith('UndefValueOperation')]
        if not und and not contains(res[0], lambda y: y == blk):
            return 'the result variable is %s' % show(res[0])
        if und and ('jt', ll('getReturnType', I)) not in und[0][2]:
            return 'the result variable has the type %s' % show(und[0][2])
    # calls in order
    order = [x[1].rsplit('::', 1)[-1] for x in only('called')]
    must = ['convert_basic_blocks', 'convert_instructions', 'PatchPhiOperands', 'EnsureSingleInEdgeToExitNode']
    for m in must:
        if order.count(m) != 1:
            return '%s is called %d times' % (m, order.count(m))
    pos = [order.index(m) for m in must]
    if pos != sorted(pos):
        return 'called in the order ' + ', '.join(order)
    pp = [x for x in only('called') if x[1].endswith('PatchPhiOperands')][0]
    if not contains(pp, lambda y: y[0] == 'call' and y[1].endswith('convert_instructions')):
        return 'the phis patched are not those of the function'
    for nm in ('set_iostate', 'set_memory_state', 'set_basic_block_map', 'set_result'):
        xs = only(nm)
        if xs and tr.index(xs[-1]) > [i for i, x in enumerate(tr) if x[0] == 'called'
                                      and x[1].endswith('convert_instructions')][0]:
            return '%s comes after the instructions are converted' % nm
    if len(only('set_basic_block_map')) != 1 or not contains(
            only('set_basic_block_map')[0], lambda y: y[0] == 'call' and y[1].endswith('convert_basic_blocks')):
        return 'the block map is not set'
    return None


def check_module(P, rep):
    f = P.fn(NS + 'declare_globals')
    S = MSpec(P, rep, f, 'front/module')
    gv, fu, fi, fk = ('atom', 'global'), ('atom', 'function'), ('atom', 'ignored intrinsic'), ('atom', 'intrinsic')
    OPQ = [NS + 'convert_linkage', NS + 'convertCallingConventionToJlm', NS + 'convert_attributes']
    M = ('ctxmodule',)
    G = ('field', M, 'clg_')

    def opq(i, *a):
        return ('call', OPQ[i], None, tuple(a), ())
    dn = C('DataNode', G, ll('getName', gv), ('jt', ll('getValueType', gv)), opq(0, ll('getLinkage', gv)),
           ll('getSection', gv), ll('isConstant', gv), ll('getAlign', gv))

    def fnode(x):
        return C('FunctionNode', G, ll('getName', x), ('jft', ll('getFunctionType', x)), opq(0, ll('getLinkage', x)),
                 opq(1, ll('getCallingConv', x)), opq(2, ll('getFnAttrs', ll('getAttributes', x)), ('ctxGetTypeConverter',)))

    def declared(x, node, how):
        return [(how, M, node), ('insert_value', CTX, x, ('done', how, M, node))]
    for gs, fs in (((gv,), ()), ((), (fu,)), ((), (fi,)), ((), (fk,)), ((gv,), (fi, fu, fk))):
        exp = []
        for x in gs:
            exp += declared(x, dn, 'create_global_value')
        for x in fs:
            if x != fi:
                exp += declared(x, fnode(x), 'create_variable')
        get = {('isIntrinsic', fu): k(False), ('isIntrinsic', fi): k(True), ('isIntrinsic', fk): k(True),
               ('getIntrinsicID', fi): ('enum', 'llvm::Intrinsic::assume'),
               ('getIntrinsicID', fk): ('enum', 'llvm::Intrinsic::sqrt'),
               ('getIntrinsicID', fu): ('enum', 'llvm::Intrinsic::not_intrinsic'),
               ('globals', I): vec(*gs), ('getFunctionList', I): vec(*fs), ('functions', I): vec(*fs)}
        sc = {'opaque': OPQ, 'get': get, 'ranges': {I: vec(*fs)}}
        S.effects('declarations of %s' % ', '.join(x[1] for x in gs + fs), sc, f, args_for(f), exp)

    f = P.fn(NS + 'create_initialization')
    CCs = NS + 'ConvertConstant'
    init = ll('getInitializer', I)

    def null(t):
        return None if t in (('null',), None) else 'answers %s' % show(t)
    for has in (False, True):
        for empty in ((True, False) if has else (True,)):
            name = 'initialiser' + (' absent' if not has else ' that needs no code' if empty else ' with code')
            sc = {'opaque': [CCs], 'get': {'hasInitializer': k(has), 'empty': k(empty), 'isDeclaration': k(not has)},
                  'tacsempty': empty}
            rep.site('front/module', name)
            R, out = MSpec(P, rep, f, 'front/module', InitRun).run(sc, f, args_for(f))
            for kd, t, tacs, tr in out:
                if not has:
                    why = None if kd == 'ret' and t == ('null',) else 'is not null'
                else:
                    want = ('var', init) if empty else ('call', CCs, None, (init, CTX), ())
                    why = None if t == C('DataNodeInit', want) else 'is %s' % (show(t) if t else None)
                if why:
                    S.fail(name, why, f)
    f = P.fn(NS + 'convert_argument')
    AT = ll('getParamAttrs', ll('getAttributes', ll('getParent', I)), ll('getArgNo', I))
    S.effects('function argument', {'opaque': [OPQ[2]]}, f, args_for(f), [],
              C('Argument', ll('getName', I), ('jt', ty(I)), opq(2, AT, ('ctxGetTypeConverter',))))
    for q, kind in (('convert_global_value', 'init'), ('convert_function', 'cfg')):
        fs = [x for x in P.by_q.get(NS + q, []) if len(x.params) == 2 and 'Constant' not in x.params[0][2]]
        if len(fs) != 1:
            raise AnalysisBroken('%s: %d candidates' % (q, len(fs)))
        f = fs[0]
        N = ('field', ('var', I), 'node_')
        callee = NS + ('create_initialization' if kind == 'init' else 'create_cfg')
        term = ('call', callee, None, (I, CTX), ())
        full = [('set_node', CTX, N), ('called', callee, (I, CTX)),
                ('set_initialization' if kind == 'init' else 'add_cfg', N, term), ('set_node', CTX, ('null',))]
        sc = {'opaque': [callee], 'calltrace': [callee], 'get': {'isDeclaration': k(False)}}
        S.effects('definition of a %s' % ('global' if kind == 'init' else 'function'), sc, f, args_for(f), full)
        if kind == 'cfg':
            S.effects('declaration of a function', dict(sc, get={'isDeclaration': k(True)}), f, args_for(f), [])
    f = P.fn(NS + 'convert_globals')
    callees = [NS + 'convert_global_value', NS + 'convert_function']
    gv2, fu2 = ('atom', 'global2'), ('atom', 'function2')
    sc = {'opaque': callees, 'calltrace': callees, 'ranges': {I: vec(fu, fu2)},
          'get': {('globals', I): vec(gv, gv2), ('getFunctionList', I): vec(fu, fu2), ('functions', I): vec(fu, fu2)}}
    S.effects('every global and function is converted', sc, f, args_for(f),
              [('called', callees[0], (x, CTX)) for x in (gv, gv2)] + [('called', callees[1], (x, CTX)) for x in (fu, fu2)])
    f = P.fn(NS + 'ConvertLlvmModule')
    callees = [NS + 'declare_globals', NS + 'convert_globals']
    rep.site('front/module', 'module')
    R, out = S.run({'opaque': callees, 'calltrace': callees}, f, args_for(f))
    for kd, t, tacs, tr in out:
        exp = C('InterProceduralGraphModule', C('jlm::util::FilePath', ll('getSourceFileName', I)),
                ll('getTargetTriple', I), ll('getDataLayoutStr', I))
        if t != exp:
            S.fail('module', 'source file, target triple or data layout: %s' % (show(t) if t else None), f)
        if [x[1] for x in tr if x[0] == 'called'] != callees:
            S.fail('module', 'globals are not declared and then converted', f)
    # uses of values
    f = P.fn(NS + 'ConvertValue')
    t = tac(C('FunctionToPointerOperation', ('jt', ty(I))), ('valf', I))
    S.codes('use of a function as a value', {'enter': ['ConvertValue'], 'types': {ty(I): 'fn'}}, [t], r(t, 0), f=f)
    S.codes('use of a value', {'enter': ['ConvertValue'], 'types': {ty(I): 'int'}}, [], ('valf', I), f=f)
    f = P.fn(NS + 'ConvertValueOrFunction')
    VAR = ('var', I)
    NODE = ('ctxnode',)
    for cls in ('FunctionVariable', 'GlobalValue', None):
        isa = {(c, VAR): c == cls for c in ('FunctionVariable', 'GlobalValue')}
        exp = [('add_dependency', NODE, ('field', VAR, 'node_'))] if cls else []
        S.effects('use of %s already converted' % (cls or 'a local value'),
                  {'enter': ['ConvertValueOrFunction'], 'has_value': True, 'jisa': isa, 'truth': {NODE: True}}, f, args_for(f), exp, VAR)
    S.effects('use of a value outside of any definition', {
        'enter': ['ConvertValueOrFunction'], 'has_value': True, 'truth': {NODE: False}}, f, args_for(f), [], VAR)
    sc = {'enter': ['ConvertValueOrFunction'], 'has_value': False, 'opaque': [NS + 'ConvertConstant'],
          'emits': [NS + 'ConvertConstant']}
    S.codes('use of a constant', sc, [], ('val', I), f=f)


class InitRun(Run):
    def extra(self, ip, d, o, ts, s, fr, e):
        if d.name in ('empty', 'size') and o is not None and core(o)[0] == 'call' and core(o)[1].endswith('ConvertConstant'):
            em = self.sc['tacsempty']
            return [(('const', em if d.name == 'empty' else 0 if em else 1), s)]
        return None


RULES = {
    'front/constant': 'the conversion of a constant, interpreted for every LLVM constant kind, yields exactly the operation that '
                      'denotes it, with its type, its elements in order and its value; unsupported kinds are rejected',
    'front/attributes': 'the attribute list built from LLVM function, result and parameter attribute sets holds exactly the '
                        'converted attributes, each in its own slot',
    'front/function': 'a converted function body appends the code of every instruction to its block in order, binds arguments and '
                      'states, completes every phi from each reachable predecessor once, and declares value, I/O and memory results',
    'front/module': 'globals, functions, arguments and initialisers take every property from the same property of the LLVM object',
}


def check(P, rep):
    for r_, t in RULES.items():
        rep.rule(r_, t)
    check_constants(P, rep)
    check_attributes(P, rep)
    check_cfg(P, rep)
    check_module(P, rep)
    rep.floor('front/constant', 25)
    rep.floor('front/attributes', 24)
    rep.floor('front/function', 16)
    rep.floor('front/module', 18)


CHECKS = {'C05': check}
