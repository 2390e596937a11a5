"""backend, module level: declarations, initialisers, function bodies, terminators, phi operands, attributes."""
from sa.engine import core
from sa.facts import AnalysisBroken
from sa.scenario import show
from checks.frontend import NS, RV, vec, k
from checks.backend import BRun, CV, A, lv, lt, ir, irc, en, Norm

MOD, X, E, CFG, FUN = ('module',), ('atom', 'exit'), ('atom', 'entry'), ('atom', 'cfg'), ('atom', 'function')
CONV = CV + '::convert_operation'
BFS = NS + 'breadth_first'


def g(name, o, *a):
    return ('jget', name, o) + a


def at(x):
    return ('atom', x)


class Module:
    def __init__(self, P, rep):
        self.P, self.rep, self.nz = P, rep, Norm(P)

    def run(self, name, args, sc, sig=None):
        f = self.P.fn(CV + '::' + name, sig=sig)
        self.f = f
        out = []
        for kd, t, _, tr in BRun(self.P, sc).run(f, args):
            if kd == 'throw':
                continue
            if type(tr) is not tuple:
                raise AnalysisBroken('the order of effects in %s is not decided' % name)
            out.append((self.nz(core(t)) if t else None, tuple(self.nz(x) for x in tr)))
        return out

    def fail(self, rule, label, msg):
        self.rep.violation(rule, label, self.f.file, self.f.line, '%s: %s' % (label, msg))


def fconv(ts):
    """the result of converting an operation"""
    return ('converted', core(ts[0])) if core(ts[0])[1] != 'none' else ('null',)


def node_facts(n, outs, tacs, branch=None, i1=None, ins=1):
    """a basic block with its out edges and operations"""
    d = {g('NumOutEdges', n): k(len(outs)), g('cfg', n): CFG, g('NumInEdges', n): k(ins), g('tacs', n): vec(*tacs),
         g('ntacs', vec(*tacs)): k(len(tacs)), g('last', vec(*tacs)): tacs[-1] if tacs else ('null',),
         g('first', vec(*tacs)): tacs[0] if tacs else ('null',),
         g('out_edges', n): vec(*[('edge', n, i) for i in range(len(outs))]),
         g('OutEdges', n): vec(*[('edge', n, i) for i in range(len(outs))])}
    for i, s in enumerate(outs):
        d[g('OutEdge', n, k(i))] = ('edge', n, i)
        d[g('sink', ('edge', n, i))] = s
    return d


def tac(t, op, operands, result):
    d = {g('operation', t): op, g('noperands', t): k(len(operands)), g('nresults', t): k(1 if result else 0)}
    for i, o in enumerate(operands):
        d[g('operand', t, k(i))] = o
    if result:
        d[g('result', t, k(0))] = result
        d[g('tac', result)] = t
    return d


def merge(*ds):
    """union of scenario facts; dictionaries of the same name are joined"""
    r = {}
    for d in ds:
        for a, b in d.items():
            if type(b) is dict and a in r:
                r[a] = {**r[a], **b}
            elif type(b) is list and a in r:
                r[a] = r[a] + b
            else:
                r[a] = dict(b) if type(b) is dict else b
    return r


def results(kinds):
    d = {g('nresults', X): k(len(kinds)), 'jkinds': {}}
    for i, kd in enumerate(kinds):
        d[g('result', X, k(i))] = at('res%d' % i)
        d['jkinds'][('vtype', at('res%d' % i))] = kd
    return d


BASE = {g('entry', CFG): E, g('exit', CFG): X, g('cfg', E): CFG, g('cfg', X): CFG, 'truthy': ['converted', 'edge'],
        'objs': {}, 'get': {}, 'jkinds': {}}


def terminators(P, M):
    R = 'back/terminator'
    N, S0, S1, S2, pv, br, m = at('node'), at('s0'), at('s1'), at('s2'), at('pv'), at('br'), at('m')
    one, w32 = irc('IntegerType::get', k(1)), irc('IntegerType::get', k(32))

    def block(outs, mop=None, i1=False, res=('BitType', 'IOStateType', 'MemoryStateType')):
        d = merge(BASE, node_facts(N, outs, [m, br]), results(res), tac(br, ('brop',), [pv], None),
                  {'objs': {('brop',): NS + 'BranchOperation', N: NS + 'BasicBlock', pv: NS + 'ThreeAddressCodeVariable'},
                   'get': {('isIntegerTy', ('type', lv(pv)), k(1)): k(i1)}})
        d = merge(d, tac(m, ('mop',), [A(0)], pv))
        if mop:
            n, mp, df, na = mop
            d['objs'][('mop',)] = RV + 'MatchOperation'
            d['build'] = [(('mop',), RV + 'MatchOperation', [k(n), vec(*[('pair', k(a), k(b)) for a, b in mp]), k(df), k(na)])]
        else:
            d['objs'][('mop',)] = NS + 'SsaPhiOperation'
        return d

    def bt(n):
        return lt(('ctor', RV + 'BitType', (k(n),)))

    def term(*a):
        return ('terminator', ir(*a))
    lb = [('lbb', s) for s in (S0, S1, S2)]
    cases = [
        ('return of a value', block([X]), [term('Ret', lv(at('res0')))], ()),
        ('return of states only', block([X], res=('IOStateType', 'MemoryStateType')), [term('RetVoid')], ()),
        ('return without results', block([X], res=()), [term('RetVoid')], ()),
        ('unconditional branch', block([S0]), [term('Br', lb[0])], ()),
        ('conditional branch', block([S0, S1], (1, [(1, 1)], 0, 2), True), [term('CondBr', lv(pv), lb[1], lb[0])], ()),
        ('conditional branch on a phi', block([S0, S1], None, True), [term('CondBr', lv(pv), lb[1], lb[0])], ()),
        ('two-way branch on a wide value', block([S0, S1], (32, [(5, 0)], 1, 2)), [term('Switch', lv(pv), lb[1])],
         {(bt(32), 5): lb[0]}),
        ('three-way branch on a wide value', block([S0, S1, S2], (32, [(5, 2), (9, 0)], 1, 3)), [term('Switch', lv(pv), lb[1])],
         {(bt(32), 5): lb[2], (bt(32), 9): lb[0]}),
        ('several values with one alternative', block([S0, S1, S2], (8, [(5, 0), (9, 0), (1, 1)], 2, 3)),
         [term('Switch', lv(pv), lb[2])], {(bt(8), 5): lb[0], (bt(8), 9): lb[0], (bt(8), 1): lb[1]}),
        ('three-way branch on a one-bit value', block([S0, S1, S2], (1, [(0, 1), (1, 0)], 2, 3), True),
         [term('Switch', lv(pv), lb[2])], {(bt(1), 0): lb[1], (bt(1), 1): lb[0]}),
        ('three-way branch on a phi', block([S0, S1, S2]), [term('Switch', lv(pv), lb[2])], {(w32, 0): lb[0], (w32, 1): lb[1]}),
    ]
    for label, sc, want, alts in cases:
        M.rep.site(R, label)
        got = M.run('create_terminator_instruction', [N], sc)
        if not got:
            M.fail(R, label, 'no terminator is created')
        for _, tr in got:
            ts = [x for x in tr if x[0] == 'terminator']
            if [x[1] for x in ts] != [('lbb', N)] * len(ts) or len(ts) != 1:
                M.fail(R, label, 'the block does not end in exactly one terminator: %s' % show(tuple(ts)))
                continue
            t = ts[0][2]
            if t[:2] == ('ir', 'Switch'):
                t = t[:4]
            if t != want[0][1]:
                M.fail(R, label, 'the block ends in %s, expected %s' % (show(t), show(want[0][1])))
            cs = [x for x in tr if x[0] == 'addCase']
            have = {}
            for x in cs:
                c = x[2]
                if c[:2] != ('irc', 'ConstantInt::get') or c[3][0] != 'const' or len(x) != 4:
                    M.fail(R, label, 'case value %s' % show(c))
                else:
                    have[(c[2], c[3][1])] = x[3]
            if have != dict(alts) and t[:2] == want[0][1][:2]:
                # the default alternative may be listed again
                d = want[0][1][3] if len(want[0][1]) > 3 else None
                if {a: b for a, b in have.items() if b != d or a in dict(alts)} != dict(alts):
                    M.fail(R, label, 'the cases are %s, expected %s' % (
                        {show(a[0]) + ' ' + str(a[1]): show(b) for a, b in have.items()},
                        {show(a[0]) + ' ' + str(a[1]): show(b) for a, b in dict(alts).items()}))


def body(P, M):
    """a body of two blocks: a loop block with phis and a store, and a returning block"""
    R = 'back/body'
    for ph in ('BitType', 'PointerType', 'IOStateType', 'MemoryStateType'):
        label = 'body with a phi of ' + ph
        n1, n2 = at('n1'), at('n2')
        t = [at('t%d' % i) for i in range(6)]
        r = [at('r%d' % i) for i in range(6)]
        phi = ('phiop',)
        args = [at('a0'), at('a1')]
        sc = merge(BASE, node_facts(n1, [n2, n1], t[:4], ins=2), node_facts(n2, [X], t[4:], ins=1), node_facts(E, [n1], []),
                   results(('BitType', 'MemoryStateType')),
                   tac(t[0], phi, [A(0), A(1)], r[0]), tac(t[1], ('o1',), [r[0], args[0]], r[1]),
                   tac(t[2], ('none',), [r[1], args[1]], r[2]), tac(t[3], ('brop',), [r[1]], None),
                   tac(t[4], ('o4',), [r[1]], r[4]), tac(t[5], ('o5',), [r[4]], r[5]),
                   {g('GetIncomingNode', phi, k(0)): at('n2'), g('GetIncomingNode', phi, k(1)): at('n1'),
                    g('narguments', E): k(4),
                    'returns': {CONV: lambda ts: ('null',) if core(ts[0]) in (('none',), ('brop',)) else ('converted', core(ts[0])),
                                BFS: lambda ts: vec(E, n1, n2, X), NS + 'straighten': lambda ts: ('void',), NS + 'is_closed': lambda ts: k(True),
                                NS + 'is_valid': lambda ts: k(True)},
                    'get': {('args', FUN): vec(at('la0'), at('la1')), ('arg_size', FUN): k(2), ('getArg', FUN, k(0)): at('la0'),
                            ('getArg', FUN, k(1)): at('la1'), ('isIntegerTy', ('type', lv(r[1])), k(1)): k(True)},
                    'jkinds': {('vtype', r[0]): ph, ('vtype', args[0]): 'BitType', ('vtype', args[1]): 'PointerType'},
                    'objs': {phi: NS + 'SsaPhiOperation', ('o1',): NS + 'IntegerAddOperation', ('brop',): NS + 'BranchOperation',
                             ('none',): NS + 'StoreNonVolatileOperation', ('o4',): NS + 'IntegerSubOperation',
                             ('o5',): NS + 'IntegerMulOperation', n1: NS + 'BasicBlock', n2: NS + 'BasicBlock'}})
        for i, a in enumerate(args):
            sc[g('argument', E, k(i))] = a
        for i, a in ((2, 'io'), (3, 'mem')):
            sc[g('argument', E, k(i))] = at(a)
        M.rep.site(R, label)
        for _, tr in M.run('convert_cfg', [CFG, FUN], sc) or [(None, ())]:
            bad = None

            def pos(pred):
                return [i for i, x in enumerate(tr) if pred(x)]
            conv = {}
            for n, ts in ((n1, t[:4]), (n2, t[4:])):
                last = -1
                for x in ts:
                    op, want = sc[g('operation', x)], vec(*[sc[g('operand', x, k(i))] for i in range(sc[g('noperands', x)][1])])
                    p = pos(lambda y: y[:2] == ('called', CONV) and y[2] == op)
                    if len(p) != 1:
                        bad = 'operation %s is converted %d times' % (op[0], len(p))
                        break
                    y = tr[p[0]]
                    if y[3] != op or y[4] != want:
                        bad = 'operation %s is converted with %s' % (op[0], show(y[3:5]))
                    elif y[5][0] != 'ctor' or y[5][2][0] != ('lbb', n):
                        bad = 'operation %s is placed in %s' % (op[0], show(y[5]))
                    elif p[0] < last:
                        bad = 'operation %s is converted out of order' % op[0]
                    last = p[0]
                    conv[x] = p[0]
                    res = sc.get(g('result', x, k(0)))
                    q = pos(lambda z: z[0] == 'insert' and z[1] == res and res is not None)
                    if op in (('none',), ('brop',)):
                        if q:
                            bad = 'a value is recorded for operation %s that has none' % op[0]
                    elif len(q) != 1 or q[0] < p[0] or tr[q[0]][2] != ('converted', op):
                        bad = 'the value of operation %s is not recorded for its result' % op[0]
                    else:
                        for y in tr[:q[0]]:
                            if y[:2] == ('called', CONV) and res in y[4][1] and y[2] != phi:
                                bad = 'the result of operation %s is used before it is recorded' % op[0]
                if bad:
                    break
                p = pos(lambda y: y[0] == 'terminator' and y[1] == ('lbb', n))
                if len(p) != 1 or p[0] < last:
                    bad = 'block %s does not end in exactly one terminator' % n[1]
            if not bad:
                for i in (0, 1):
                    p = pos(lambda y: y[0] == 'insert' and y[1] == args[i])
                    if len(p) != 1 or tr[p[0]][2] != at('la%d' % i) or p[0] > min(conv.values()):
                        bad = 'argument %d of the function is not recorded before the body' % i
                for n in (n1, n2):
                    p = pos(lambda y: y[0] == 'insert' and y[1] == n)
                    if len(p) != 1 or tr[p[0]][2][:2] != ('irc', 'BasicBlock::Create') or FUN not in tr[p[0]][2]:
                        bad = 'no LLVM block of the function is created for block %s' % n[1]
                if pos(lambda y: y[0] == 'insert' and y[1] in (E, X)):
                    bad = 'an LLVM block is created for the entry or the exit'
                inc = [(x[1:], i) for i, x in enumerate(tr) if x[0] == 'addIncoming']
                want = [] if ph in ('IOStateType', 'MemoryStateType') else \
                    [(lv(r[0]), lv(A(0)), ('lbb', n2)), (lv(r[0]), lv(A(1)), ('lbb', n1))]
                if sorted(x for x, _ in inc) != sorted(want):
                    bad = 'incoming values of the phi: %s, expected %s' % (show(tuple(x for x, _ in inc)), show(tuple(want)))
                if inc and min(i for _, i in inc) < max(conv.values()):
                    bad = 'incoming values of the phi are looked up before they are converted'
            if bad:
                M.fail(R, label, bad)


def declarations(P, M):
    R = 'back/declaration'
    D1, D2, F1, F2 = at('dn1'), at('dn2'), at('fn1'), at('fn2')
    init, it = at('init'), [at('it0'), at('it1')]
    AS = CV + '::convert_attributes'
    sets = {at('fas1'), at('fas2'), at('ja0'), at('ja1'), at('ja2')}
    sc = merge(BASE, {g('ipgraph', MOD): vec(D1, F1, D2, F2),
                      'objs': {D1: NS + 'DataNode', D2: NS + 'DataNode', F1: NS + 'FunctionNode', F2: NS + 'FunctionNode'},
                      'returns': {CV + '::convert_cfg': lambda ts: ('void',), CONV: lambda ts: ('converted', core(ts[0])),
                                  AS: lambda ts: ('attrset', core(ts[0])) if core(ts[0]) in sets else None},
                      g('tacs', init): vec(*it), g('value', init): at('ival')},
               tac(it[0], ('io0',), [A(0)], at('ir0')), tac(it[1], ('io1',), [at('ir0')], at('ir1')))
    lk = {D1: 'external', D2: 'internal', F1: 'weakOdr', F2: 'private'}
    for x in (D1, D2):
        i = x[1]
        sc.update({g('GetValueType', x): at('T' + i), g('linkage', x): en(NS + 'Linkage::%sLinkage' % lk[x]),
                   g('constant', x): k(x == D1), g('name', x): at('name' + i), g('Section', x): at('sec' + i),
                   g('getAlignment', x): at('al' + i), g('initialization', x): init if x == D1 else ('null',),
                   g('variable', MOD, x): at('var' + i)})
    for x in (F1, F2):
        i = x[1]
        sc.update({g('fcttype', x): at('T' + i), g('linkage', x): en(NS + 'Linkage::%sLinkage' % lk[x]),
                   g('name', x): at('name' + i), g('attributes', x): at('fas' + i[-1]),
                   g('callingConvention', x): en(NS + 'CallingConvention::' + ('Fast' if x == F1 else 'C')),
                   g('cfg', x): CFG if x == F1 else ('null',), g('variable', MOD, x): at('var' + i)})
    sc[g('narguments', E)] = k(3)
    for i, kd in enumerate(('BitType', 'PointerType', 'MemoryStateType')):
        sc[g('argument', E, k(i))] = at('arg%d' % i)
        sc[g('attributes', at('arg%d' % i))] = at('ja%d' % i)
        sc['jkinds'][('vtype', at('arg%d' % i))] = kd
    LINK = {'external': 'ExternalLinkage', 'internal': 'InternalLinkage', 'weakOdr': 'WeakODRLinkage', 'private': 'PrivateLinkage'}
    got = M.run('convert_ipgraph', [], sc)

    def one(label, tr, pred, msg):
        M.rep.site(R, label)
        p = [i for i, x in enumerate(tr) if pred(x)]
        if len(p) != 1:
            M.fail(R, label, msg + (' (happens %d times)' % len(p) if p else ''))
            return None
        return p[0]

    def link(t, x):
        return M.nz.num(t) == M.nz.num(en('llvm::GlobalValue::' + LINK[lk[x]]))
    if not got:
        M.fail(R, 'module', 'the module is not converted')
    for _, tr in got:
        uses = [i for i, x in enumerate(tr) if x[0] == 'called' and x[1] in (CONV, CV + '::convert_cfg')]
        first = min(uses) if uses else len(tr)
        for x in (D1, D2, F1, F2):
            i = x[1]
            p = one('%s is declared' % i, tr, lambda y: y[0] == 'insert' and y[1] == at('var' + i), 'the node is not declared')
            if p is None:
                continue
            if p > first:
                M.fail(R, '%s is declared' % i, 'a body or initialiser is converted before the node is declared')
            v = tr[p][2]
            if x in (D1, D2):
                a = v[2] if v[0] == 'ctor' and v[1] == 'llvm::GlobalVariable' else ()
                names = [y[2][0] if y[0] == 'ctor' and y[1] == 'llvm::Twine' and y[2] else y for y in a]
                ok = len(a) >= 6 and a[0] == ('llvm_module',) and a[1] == lt(at('T' + i)) and a[2] == k(x == D1) and \
                    link(a[3], x) and a[4] == ('null',) and names[5] == at('name' + i)
                if not ok:
                    M.fail(R, '%s is declared' % i, 'declared as %s' % show(v))
                if len(a) > 7 and a[7][0] == 'enum' and not a[7][1].endswith('NotThreadLocal'):
                    M.fail(R, '%s is declared' % i, 'declared thread-local')
                for fn, want in (('setSection', at('sec' + i)), ('setAlignment', at('al' + i))):
                    one('%s %s' % (i, fn), tr, lambda y: y[:3] == (fn, v, want), '%s is not applied' % fn[3:].lower())
            else:
                ok = v[:2] == ('irc', 'Function::Create') and len(v) >= 5 and v[2] == lt(at('T' + i)) and link(v[3], x) and \
                    at('name' + i) in v[4:] and ('llvm_module',) in v[4:]
                if not ok:
                    M.fail(R, '%s is declared' % i, 'declared as %s' % show(v))
                cc = 'Fast' if x == F1 else 'C'
                one('%s setCallingConv' % i, tr, lambda y: y[:2] == ('setCallingConv', v) and M.nz.num(y[2]) == M.nz.num(
                    en('llvm::CallingConv::' + cc)), 'the calling convention is not set')
                p = one('%s setAttributes' % i, tr, lambda y: y[:2] == ('setAttributes', v), 'the attributes are not set')
                if p is not None:
                    al = tr[p][2]
                    fs = ('attrset', at('fas' + i[-1]))
                    ps = vec(('attrset', at('ja0')), ('attrset', at('ja1'))) if x == F1 else vec()
                    ok = al[:2] == ('irc', 'AttributeList::get') and len(al) >= 5 and al[2] == fs and \
                        (al[4] == ps or x == F2)
                    if not ok:
                        M.fail(R, '%s setAttributes' % i, 'the attributes are set to %s' % show(al))
        p = one('dn1 initialiser', tr, lambda y: y[0] == 'setInitializer', 'the initialiser is not set')
        if p is not None and tr[p][1:] != (lv(at('vardn1')), lv(at('ival'))):
            M.fail(R, 'dn1 initialiser', 'the initialiser is set by %s' % show(tr[p]))
        for i in (0, 1):
            q = one('dn1 initialiser operation %d' % i, tr, lambda y: y[:3] == ('called', CONV, ('io%d' % i,)) and y[3] == ('io%d' % i,),
                    'the operation is not converted')
            r_ = one('dn1 initialiser value %d' % i, tr, lambda y: y == ('insert', at('ir%d' % i), ('converted', ('io%d' % i,))),
                     'the value of the operation is not recorded')
            if q is not None and r_ is not None and p is not None and not q < r_ < p:
                M.fail(R, 'dn1 initialiser value %d' % i, 'the value is recorded out of order')
        p = one('fn1 body', tr, lambda y: y[:2] == ('called', CV + '::convert_cfg'), 'the body is not converted')
        if p is not None and tr[p][2:4] != (CFG, lv(at('varfn1'))):
            M.fail(R, 'fn1 body', 'the body is converted by %s' % show(tr[p]))


def module(P, M):
    R = 'back/module'
    jm = at('jm')
    sc = merge(BASE, {'opaque': [CV + '::convert_ipgraph'], 'calltrace': [CV + '::convert_ipgraph'],
                      g('source_filename', jm): at('file'), g('target_triple', jm): at('triple'), g('data_layout', jm): at('layout'),
                      g('to_str', at('file')): at('filestr')})
    got = M.run('ConvertModule', [jm, ('llvmctx',)], sc)
    for _, tr in got or [(None, ())]:
        for fn, want in (('setSourceFileName', at('filestr')), ('setTargetTriple', at('triple')), ('setDataLayout', at('layout'))):
            M.rep.site(R, fn)
            if len([x for x in tr if x[0] == fn and x[2] == want]) != 1:
                M.fail(R, fn, 'not applied to the module')
        M.rep.site(R, 'convert_ipgraph')
        if len([x for x in tr if x[0] == 'called']) != 1:
            M.fail(R, 'convert_ipgraph', 'the nodes of the module are not converted')


def attributes(P, M):
    R = 'back/attributes'
    AS = at('AS')
    K = NS + 'Attribute::kind::'
    base = {g('kind', at('e1')): en(K + 'Cold'), g('kind', at('i1')): en(K + 'StackAlignment'), g('kind', at('t1')): en(K + 'ByVal'),
            g('value', at('i1')): at('ival'), g('type', at('t1')): at('TT'), g('kind', at('s1')): at('sk'), g('value', at('s1')): at('sv')}

    def get(*a):
        return ('call', 'get', a)
    for kinds in ((), ('Enum',), ('Int',), ('Type',), ('String',), ('Enum', 'Int', 'Type', 'String')):
        label = 'attribute set: ' + ('+'.join(kinds) or 'empty')
        M.rep.site(R, label)
        sc = merge(BASE, base)
        for kd in ('Enum', 'Int', 'Type', 'String'):
            sc[g(kd + 'Attributes', AS)] = vec(at(kd[0].lower() + '1')) if kd in kinds else vec()
        exp = []
        for kd in kinds:
            exp.append({'Enum': (M.nz.num(en('llvm::Attribute::Cold')),),
                        'Int': (M.nz.num(en('llvm::Attribute::StackAlignment')), at('ival')),
                        'Type': (M.nz.num(en('llvm::Attribute::ByVal')), lt(at('TT'))),
                        'String': (at('sk'), at('sv'))}[kd])
        for t, tr in M.run('convert_attributes', [AS], sc, sig='AttributeSet') or [(('null',), ())]:
            if t[:2] != ('irc', 'AttributeSet::get') or len(t) != 3:
                M.fail(R, label, 'yields %s' % show(t))
                continue
            have = []
            for x in tr:
                if x[0] == 'addAttribute' and x[1] == t[2]:
                    y = x[2:]
                    if len(y) == 1 and y[0][0] in ('irc', 'call'):
                        y = y[0][3] if y[0][0] == 'call' else y[0][2:]
                    y = tuple(M.nz.num(z) for z in y if z != ('llvmctx',))
                    if len(y) == 2 and y[1] == k(0) and type(y[1][1]) is int and y[0] != at('sk'):
                        y = y[:1]
                    have.append(y)
            if sorted(have, key=repr) != sorted(exp, key=repr):
                M.fail(R, label, 'the attributes are %s, expected %s' % (show(tuple(have)), show(tuple(exp))))
    AL, fa, ra, p1, p2 = (at(x) for x in ('attrs', 'fa', 'ra', 'p1', 'p2'))
    label = 'attribute list'
    M.rep.site(R, label)
    sc = merge(BASE, {g('getFunctionAttributes', AL): fa, g('getReturnAttributes', AL): ra, g('getParameterAttributes', AL): vec(p1, p2),
                      'returns': {CV + '::convert_attributes': lambda ts: ('attrset', core(ts[0]))}})
    for t, tr in M.run('convertAttributeList', [AL], sc) or [(('null',), ())]:
        want = irc('AttributeList::get', *[('attrset', x) for x in (fa, ra)], vec(('attrset', p1), ('attrset', p2)))
        if t != want:
            M.fail(R, label, 'yields %s, expected %s' % (show(t), show(want)))


RULES = {'back/terminator': 'every block ends in exactly one terminator that transfers control to the block of the alternative taken',
         'back/body': 'every operation of every block is converted once, in order, into the block of its node; arguments, results and '
                      'phi operands are recorded where they are used',
         'back/declaration': 'every function and global is declared once with its type, linkage, name and properties, before any body '
                             'or initialiser is converted; initialisers and bodies go to their own node',
         'back/module': 'the properties of the module are carried over',
         'back/attributes': 'attribute sets and lists are emitted with exactly their attributes, each in its own slot'}


def check(P, rep):
    M = Module(P, rep)
    for a, b in RULES.items():
        rep.rule(a, b)
    terminators(P, M)
    body(P, M)
    declarations(P, M)
    module(P, M)
    attributes(P, M)
    for r, n in (('back/terminator', 11), ('back/body', 4), ('back/declaration', 18), ('back/module', 4), ('back/attributes', 7)):
        rep.floor(r, n)


CHECKS = {'C08': check}
