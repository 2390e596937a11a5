"""frontend: LLVM IR -> three-address code.  For every LLVM opcode, predicate, intrinsic and constant kind the
conversion is interpreted abstractly and the emitted operations, the origin of each of their operands and
attributes, and the reassignment of the I/O and memory state are compared with the LLVM language reference."""
from collections import Counter
from sa.engine import Interp, core, subterms, contains, alts
from sa.facts import AnalysisBroken
from sa import absllvm
from sa.scenario import show, rewrite, trace, add_trace, TRACE

F = 'jlm/llvm/frontend/LlvmModuleConversion.cpp'
NS = 'jlm::llvm::'
RV = 'jlm::rvsdg::'
TACS = 'std::vector<std::unique_ptr<jlm::llvm::ThreeAddressCode'
CTX = ('ctx',)
I = ('inst',)
IO, MEM, RES = ('iostate',), ('memory_state',), ('ctxresult',)

EFFECTS = {'add_outedge', 'append_last', 'append_first', 'insert_before_branch', 'replace', 'append_argument',
           'append_result', 'divert_inedges', 'divert', 'insert_value', 'set_iostate', 'set_memory_state',
           'set_result', 'set_node', 'set_basic_block_map', 'add_cfg', 'set_initialization', 'create_global_value',
           'create_variable', 'add_dependency', 'remove_outedge', 'add_inedge'}


class Run:
    """one abstract execution of the conversion in a scenario"""
    FILES = (F,)

    def __init__(self, P, sc):
        self.P, self.sc = P, sc
        self.opq = set(sc.get('opaque', ()))

    # ---- calls
    def hook(self, ip, d, o, ts, s, fr, e):
        q, name, cls = d.q, d.name, d.cls or ''
        sc = self.sc
        if q.startswith('llvm::'):
            return absllvm.hook(ip, sc, d, o, ts, s, fr, e)
        r = self.extra(ip, d, o, ts, s, fr, e)
        if r is not None:
            return r
        if q in (NS + 'ConvertValue', NS + 'ConvertValueOrFunction') or \
                (q == NS + 'ConvertConstant' and len(ts) == 3 and fr.depth >= sc.get('constdepth', 1)
                 and ts[0][0] in ('op', 'll')):
            if q.rsplit('::', 1)[-1] not in sc.get('enter', ()):
                return self.convert_value(ip, q, d, ts, s, fr, e)
        if cls == NS + 'ThreeAddressCode':
            if name == 'create' and len(ts) >= 2:
                ops = ts[1]
                return [(('tac', core(ts[0]), ops), s)]
            if name == 'result':
                return [(('result', core(o), ts[0]), s)]
            if name == 'nresults':
                return [(('nresults', core(o)), s)]
            if name == 'operation':
                return [(('operation', core(o)), s)]
        if cls == NS + 'TypeConverter' and 'TypeConverter' not in sc.get('enter', ()):
            if name in ('ConvertLlvmType', 'ConvertPointerType') and len(ts) == 1:
                return [(('jt', core(ts[0])), s)]
            if name == 'ConvertFunctionType' and len(ts) == 1:
                return [(('jft', core(ts[0])), s)]
            if name == 'ExtractFloatingPointSize':
                return [(('fpsize', core(ts[0])), s)]
        if name in ('Type', 'type') and cls and self.P.is_a(cls, NS + 'Variable') and not ts:
            return [(self.vtype(core(o)), s)]
        if d.static and name.startswith('Create') and cls and self.P.is_a(cls, RV + 'Type') \
                and not self.P.is_a(cls, NS + 'VectorType'):
            return [(('ty', cls, ts), s)]
        if cls == NS + 'Context' and o is not None:
            if name in ('iostate', 'memory_state') and not ts:
                return [((name,), s)]
            if name == 'result' and not ts:
                return [(RES, s)]
            if name == 'get' and len(ts) == 1:
                return [(self.bb(core(ts[0])), s)]
            if name == 'has' and len(ts) == 1:
                return [(('const', core(ts[0]) not in sc.get('unreachable', ())), s)]
            if name == 'has_value' and len(ts) == 1 and 'has_value' in sc:
                return [(('const', sc['has_value']), s)]
            if name == 'lookup_value' and len(ts) == 1:
                return [(('var', core(ts[0])), s)]
            if name in ('module', 'node', 'GetTypeConverter') and not ts:
                return [(('ctx' + name,), s)]
        if q == RV + 'is' and d.ta and ts:
            v = self.dynis(d.ta[0], core(ts[0]))
            if v is not None:
                return [(('const', v), s)]
        if q in (NS + 'is',) and d.ta and ts:
            v = self.dynis(d.ta[0], core(ts[0]))
            if v is not None:
                return [(('const', v), s)]
        if name == 'NumOutEdges' and o is not None and not ts:
            return [(('const', len([x for x in trace(s) if x[0] == 'add_outedge' and x[1] == core(o)])), s)]
        if name == 'index' and o is not None and core(o)[0] == 'edge':
            return [(('const', core(o)[3]), s)]
        if name in ('last', 'first') and o is not None and not ts and trace(s):
            xs = [x[2] for x in trace(s) if x[0] in ('append_last', 'append_first') and x[1] == core(o)]
            if xs and (len(xs) == 1 or name == 'last'):
                return [(xs[-1], s)]
        if name in EFFECTS and o is not None:
            s = ip.emit('call', d, o, ts, e[4], s, fr, node=e)
            if name == 'add_outedge':
                n = len([x for x in trace(s) if x[0] == 'add_outedge' and x[1] == core(o)])
                s = add_trace(s, (name, core(o)) + tuple(core(t) for t in ts))
                return [(('edge', core(o), core(ts[0]), n), s)]
            s = add_trace(s, (name, core(o)) + tuple(core(t) for t in ts))
            if name in ('append_last', 'append_first', 'append_argument') and ts:
                return [(core(ts[0]), s)]
            return [(('done', name, core(o)) + tuple(core(t) for t in ts), s)]
        if q.startswith('std::') and name == 'reverse' and e[3] and e[3][0] and e[3][0][0] in ('call', 'mcall'):
            v = e[3][0][2]
            if v and v[0] == 'var':
                key = ip.varkey(v, s, fr)
                if key in s.env:
                    s = s.fork()
                    s.env[key] = ('reversed', s.env[key])
                return [(('void',), s)]
        if q in self.opq:
            if q in sc.get('emits', ()):
                return self.convert_value(ip, q, d, ts, s, fr, e)
            s = ip.emit('call', d, o, ts, e[4], s, fr, node=e)
            if q in sc.get('calltrace', ()):
                s = add_trace(s, ('called', q, tuple(core(t) for t in ts)))
            return [(('call', q, core(o) if o else None, tuple(core(t) for t in ts), tuple(d.ta)), s)]
        # attribute containers are accumulated
        if cls == NS + 'AttributeSet' and name.startswith('Insert') and e[2] and e[2][0] == 'var' and len(ts) == 1:
            k = ip.varkey(e[2], s, fr)
            old = s.env.get(k)
            if old is not None and old[0] == 'ctor':
                s = s.fork()
                s.env[k] = ('ctor', old[1], old[2] + ((name, core(ts[0])),))
                return [(('void',), s)]
        return None

    def extra(self, ip, d, o, ts, s, fr, e):
        return None

    def bb(self, t):
        return t if t[0] == 'bb' else ('bb', t)

    def vtype(self, v):
        return ('vtype', v)

    def dynis(self, T, x):
        """truth of `x is a T`, from the scenario"""
        T = T.rsplit('::', 1)[-1].strip('>* ')
        isa = self.sc.get('jisa', {})
        if (T, x) in isa:
            return isa[(T, x)]
        if x[0] == 'operation' and x[1][0] == 'tac' and x[1][1][0] == 'ctor':
            return self.P.is_a(x[1][1][1], NS + T) or self.P.is_a(x[1][1][1], RV + T)
        lt = ('type', x[1][1]) if x[0] == 'vtype' and x[1][0] in ('val', 'valf') else x[1] if x[0] == 'jt' else None
        if lt is not None:
            k = absllvm.kind_of(lt, self.sc.get('types', {}))
            if k is not None and T in ('VectorType', 'FixedVectorType', 'ScalableVectorType', 'PointerType', 'BitType',
                                       'FloatingPointType', 'FunctionType', 'StructType', 'ArrayType'):
                if k[0] == 'v' and k != 'void':
                    return T in ('VectorType', 'FixedVectorType')
                return {'int': 'BitType', 'fp': 'FloatingPointType', 'ptr': 'PointerType', 'fn': 'FunctionType',
                        'struct': 'StructType', 'arr': 'ArrayType'}.get(k) == T
        return None

    def truth(self, t, s):
        if t[0] == 'dyn':
            return self.dynis(t[1], core(t[2]))
        if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator==', 'operator!=') and 'eqtypes' in self.sc and t[2] and t[3]:
            if {core(t[2])[0], core(t[3][0])[0]} == {'jft', 'vtype'}:
                return self.sc['eqtypes'] == t[1].endswith('==')
        if t in self.sc.get('truth', {}):
            return self.sc['truth'][t]
        if t[0] == 'bin' and t[1] in ('==', '!=') and 'eqtypes' in self.sc:
            hs = {core(t[2])[0], core(t[3])[0]}
            if hs == {'jft', 'vtype'}:
                return self.sc['eqtypes'] == (t[1] == '==')
        return None

    def range(self, t):
        """what a loop over t visits"""
        t = core(t)
        if t[0] == 'ctor' and 'ReversePostOrderTraversal' in t[1] and t[2]:
            t = core(t[2][0])
        elif t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('make_range', 'enumerate', 'reverse', 'nodes', 'blocks'):
            return None
        return self.sc.get('ranges', {}).get(t)

    def convert_value(self, ip, q, d, ts, s, fr, e):
        """converting a value may append code of its own to the vector it is given"""
        ip.emit('call', d, None, ts, e[4], s, fr, node=e)
        s = s.fork()
        a = e[3][1]
        if a and a[0] == 'var':
            k = ip.varkey(a, s, fr)
            old = s.env.get(k)
            if old is not None and old[0] == 'vec':
                it = ('code-of', absllvm.deref(self.sc, core(ts[0])))
                if it not in old[1]:
                    s.env[k] = ('vec', old[1] + ((('each', it, None) if ip.loopdepth else it),))
        if core(ts[0])[0] == 'it':
            ts = (absllvm.deref(self.sc, core(ts[0])),) + tuple(ts[1:])
        tag = 'valf' if q.endswith('OrFunction') else 'val'
        return [((tag, core(ts[0])), s)]

    def policy(self, d, g, fr, o):
        if d.q in self.opq:
            return False
        if g.file in self.FILES:
            return True
        if (d.cls or '').startswith((NS, RV)) or d.q.startswith(NS):
            if d.static or d.cls == NS + 'Context':
                return True
            if d.cls is None and g.file.startswith('jlm/llvm/ir/'):
                return True
        return None

    def run(self, f, args, env=None):
        ip = Interp(self.P, inline=self.policy, hook=self.hook, unroll=8, conc=True, truth_hook=self.truth, range_hook=self.range,
                    truthy=('tac', 'result', 'val', 'valf', 'bb', 'edge', 'iostate', 'memory_state', 'inst', 'ctx', 'op',
                            'ty', 'jt', 'jft', 'vtype', 'var', 'll'))
        ip.MAXDEPTH = 16
        exits = ip.run(f, args)
        tacpar = [p[0] for p in f.params if p[2].startswith(TACS) and p[2].endswith('&')]
        out = []
        seen = set()
        for k, t, s in exits:
            if t == ('noreturn',):
                k, t = 'throw', None
            tacs = s.env.get((1, tacpar[0])) if tacpar else None
            t, tacs, tr = (self.nz(x) if x is not None else None for x in (core(t) if t else None, tacs, trace(s)))
            key = (k, t, tacs, tr) if k != 'throw' else k
            if key in seen:
                continue
            seen.add(key)
            out.append((k, t, tacs, tr))
        self.ip = ip
        return out

    # ---- normal forms
    def nz(self, t):
        sc = self.sc
        same = sc.get('same', {})
        types = sc.get('types', {})

        def rule(x):
            k = x[0]
            if k == 'dyn':
                return x[2]
            if k == 'vtype':
                v = x[1]
                if v[0] in ('val', 'valf'):
                    return ('jt', same.get(('type', v[1]), ('type', v[1])))
                if v[0] == 'result' and v[1][0] == 'tac' and v[1][1][0] == 'ctor':
                    c = v[1][1][1].rsplit('::', 1)[-1]
                    if c == 'IOBarrierOperation' and v[2] == ('const', 0) and v[1][2][0] == 'vec' and v[1][2][1]:
                        return rule(('vtype', v[1][2][1][0]))
            if k in ('type', 'scalar', 'bits', 'fpsize', 'jt') and x in same:
                return same[x]
            if k == 'scalar':
                kd = absllvm.kind_of(x[1], types)
                if kd is not None and kd[0] != 'v':
                    return x[1]
            if k == 'll' and x[1] in ('getAggregateElement', 'getElementAsConstant') and len(x) == 4:
                return ('op', x[2], x[3])
            if k == 'll' and x[1] in ('getIntegerBitWidth', 'getBitWidth', 'getScalarSizeInBits') and len(x) == 3:
                if x[1] == 'getScalarSizeInBits':
                    return rule(('bits', rule(('scalar', x[2]))))
                return ('bits', x[2])
            if k == 'll' and x[1].startswith('operator '):
                return x[2]
            if k == 'it' and x[1][0] != 'vec':
                return ('op', x[1], ('const', x[2]))
            if k == 'ctor' and 'map<' in x[1] and x[1].startswith('std::'):
                items = x[2][0] if x[2] else ('vec', ())
                if items[0] == 'vec' and all(i[0] == 'ctor' and i[1].startswith('std::pair<') and len(i[2]) == 2
                                             for i in items[1]):
                    return ('map', tuple(sorted((i[2] for i in items[1]), key=repr)))
            if k == 'map':
                return ('map', tuple(sorted(x[1], key=repr)))
            if k == 'call' and x[2] is not None and x[2][0] == 'jt' and not x[3]:
                n = x[1].rsplit('::', 1)[-1]
                if n == 'nbits':
                    return ('bits', x[2][1])
                if n == 'size' and x[1].endswith('FloatingPointType::size'):
                    return ('fpsize', x[2][1])
            if k == 'field' and x[1][0] == 'jt':
                if x[2] == 'nbits_':
                    return ('bits', x[1][1])
            if k == 'jt' and x[1][0] == 'll' and x[1][1] == 'getContext':
                return x
            if k == 'tac' and x[1][0] == 'ctor' and x[1][1] == NS + 'AssignmentOperation' and x[2][0] == 'vec' \
                    and len(x[2][1]) == 2:
                return ('assign', x[2][1][0], x[2][1][1])
            if k == 'result' and x[1][0] == 'tac' and x[2][0] == 'bin' and x[2][1] == '-':
                return x
            return x
        return rewrite(t, rule)


# ------------------------------------------------------------------------------------------------ expected terms
def op(n, i=I):
    return ('op', i, ('const', n))


def V(n, i=I):
    return ('val', op(n, i))


def ty(x):
    return ('type', x)


def C(cls, *args):
    return ('ctor', cls if '::' in cls else NS + cls, tuple(args))


def vec(*xs):
    return ('vec', tuple(xs))


def tac(o, *operands):
    return ('tac', o, vec(*operands))


def r(t, n):
    return ('result', t, ('const', n))


def asg(dst, src):
    return ('assign', dst, src)


def k(v):
    return ('const', v)


def used_values(terms):
    out = set()
    for t in terms:
        for x in subterms(t):
            if x[0] in ('val', 'valf'):
                out.add(x[1])
    return out


def match_codes(actual, expected):
    """None if the code sequences agree, else a reason.  The order of independent codes is free; a state must be
    reassigned after every code that reads its old value exactly as in the expected sequence."""
    codes = [x for x in actual if x[0] not in ('code-of',)]
    ca, ce = Counter(codes), Counter(expected)
    if ca != ce:
        miss = list((ce - ca).elements())
        extra = list((ca - ce).elements())
        return 'emits %s; required %s' % (', '.join(map(show, extra)) or 'too little', ', '.join(map(show, miss)) or
                                          'nothing else')
    for seq, what in ((actual, 'emits'),):
        seen = set()
        done = set()
        for x in seq:
            if x[0] == 'code-of':
                seen.add(x[1])
                continue
            for y in subterms(x):
                if y[0] in ('val', 'valf') and y[1] not in seen:
                    return 'uses %s before the code that computes it is appended' % show(y)
                if y[0] == 'tac' and y is not x and y != x and y not in done:
                    return 'uses a result of %s before that code is appended' % show(y[1])
            done.add(x)
    # relative order of state reads and reassignment
    for i, x in enumerate(expected):
        if x[0] != 'assign':
            continue
        for y in expected:
            if y[0] == 'tac' and y[2][0] == 'vec' and x[1] in y[2][1]:
                a = codes.index(x) < codes.index(y)
                b = expected.index(x) < expected.index(y)
                if a != b:
                    return 'reassigns %s %s %s reads it' % (show(x[1]), 'before' if a else 'after', show(y[1]))
    return None


class Spec:
    def __init__(self, P, rep, f, rule, runner=Run):
        self.P, self.rep, self.f, self.rule, self.runner = P, rep, f, rule, runner

    def run(self, sc, f=None, args=None):
        f = f or self.f
        R = self.runner(self.P, sc)
        return R, R.run(f, args if args is not None else args_for(f))

    def fail(self, name, why, f=None, rule=None):
        f = f or self.f
        self.rep.violation(rule or self.rule, name, f.file, f.line, '%s: %s' % (name, why))

    def codes(self, name, sc, expected, ret, rule=None, f=None, args=None, trace_=None):
        """every exit emits exactly `expected` and answers `ret`"""
        f = f or self.f
        rule = rule or self.rule
        self.rep.site(rule, name)
        R, out = self.run(sc, f, args)
        if not out:
            self.rep.broken.append('%s: no exit' % name)
            return
        expected = [R.nz(x) for x in expected]
        ret = R.nz(ret) if type(ret) is tuple else ret
        for kd, t, tacs, tr in out:
            if kd == 'throw':
                self.fail(name, 'is rejected', f, rule)
                continue
            if tacs is None or tacs[0] != 'vec':
                self.rep.broken.append('%s: code vector not resolved: %s' % (name, show(tacs) if tacs else None))
                continue
            why = match_codes(tacs[1], expected)
            if why:
                self.fail(name, why, f, rule)
                continue
            if ret != 'any' and t != ret:
                self.fail(name, 'the converted value is %s, not %s' % (show(t) if t else None, show(ret)), f, rule)
            missing = [v for v in used_values([t] if t else []) if ('code-of', v) not in tacs[1]]
            if trace_ is not None and tuple(tr) != tuple(R.nz(x) for x in trace_):
                self.fail(name, 'control-flow edges %s, required %s' % (
                    ', '.join(map(show, tr)) or 'none', ', '.join(map(show, trace_)) or 'none'), f, rule)

    def rejected(self, name, sc, rule=None, f=None, args=None, notdropped=False):
        f = f or self.f
        rule = rule or self.rule
        self.rep.site(rule, name)
        R, out = self.run(sc, f, args)
        for kd, t, tacs, tr in out:
            if kd == 'throw':
                continue
            real = [x for x in (tacs[1] if tacs else ()) if x[0] not in ('code-of', 'assign')]
            if notdropped and real:
                continue
            self.fail(name, 'is neither converted nor rejected', f, rule)


def args_for(f, inst=I):
    out = []
    for p in f.params:
        if p[2].startswith(TACS) and p[2].endswith('&'):
            out.append(('vec', ()))
        elif p[2].startswith('jlm::llvm::Context'):
            out.append(CTX)
        else:
            out.append(inst)
    return out


INTOPS = ['Add', 'And', 'AShr', 'LShr', 'Mul', 'Or', 'SDiv', 'Shl', 'SRem', 'Sub', 'UDiv', 'URem', 'Xor']
FPOPS = {'FAdd': 'add', 'FSub': 'sub', 'FMul': 'mul', 'FDiv': 'div', 'FRem': 'mod'}
CASTOPS = ['Trunc', 'ZExt', 'UIToFP', 'SIToFP', 'SExt', 'PtrToInt', 'IntToPtr', 'FPTrunc', 'FPToSI', 'FPToUI', 'FPExt']
ICMP = {'ICMP_' + x.upper(): x.capitalize() for x in ('slt', 'ult', 'sle', 'ule', 'eq', 'ne', 'sge', 'uge', 'sgt', 'ugt')}
FCMP = {'FCMP_TRUE': 'TRUE', 'FCMP_FALSE': 'FALSE'}
FCMP.update({'FCMP_' + x.upper(): x for x in ('oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge',
                                              'ult', 'ule', 'une')})
UNSUPPORTED = ['Invoke', 'Resume', 'IndirectBr', 'CallBr', 'CleanupRet', 'CatchRet', 'CatchSwitch', 'Fence', 'AtomicCmpXchg',
               'AtomicRMW', 'AddrSpaceCast', 'CleanupPad', 'CatchPad', 'VAArg', 'LandingPad']


def opc(name, **kw):
    sc = dict(kw)
    g = dict(sc.get('get', {}))
    g[('getOpcode', I)] = ('enum', 'llvm::Instruction::' + name)
    sc['get'] = g
    return sc


def check_instructions(P, rep, f):
    S = Spec(P, rep, f, 'front/instruction')
    TI, T0, T1 = ty(I), ty(op(0)), ty(op(1))
    for o in INTOPS + list(FPOPS):
        for kd in (('int', 'vint') if o in INTOPS else ('fp', 'vfp')):
            sc = opc(o, types={TI: kd, T0: kd, T1: kd}, same={T0: TI, T1: TI})
            st = TI if kd[0] != 'v' else ('scalar', TI)
            o1 = C('Integer%sOperation' % o, ('bits', st)) if o in INTOPS else \
                C('FBinaryOperation', ('enum', NS + 'fpop::' + FPOPS[o]), ('fpsize', st))
            a0 = V(0)
            exp = []
            if o in ('SDiv', 'UDiv', 'SRem', 'URem'):
                b = tac(C('IOBarrierOperation', ('jt', TI)), V(0), IO)
                exp.append(b)
                a0 = r(b, 0)
            if kd[0] == 'v':
                o1 = C('VectorBinaryOperation', o1, ('jt', TI), ('jt', TI), ('jt', TI))
            t = tac(o1, a0, V(1))
            S.codes('%s on %s' % (o, kd), sc, exp + [t], r(t, 0))
    for kd in ('fp', 'vfp'):
        sc = opc('FNeg', types={TI: kd, T0: kd}, same={T0: TI})
        o1 = C('FNegOperation', ('jt', TI if kd == 'fp' else ('scalar', TI)))
        if kd == 'vfp':
            o1 = C('VectorUnaryOperation', o1, ('jt', TI), ('jt', TI))
        t = tac(o1, V(0))
        S.codes('FNeg on ' + kd, sc, [t], r(t, 0))
    for o in CASTOPS + ['BitCast']:
        for v in ('', 'v'):
            src = {'U': 'int', 'S': 'int', 'Z': 'int', 'T': 'int', 'I': 'int', 'P': 'ptr', 'F': 'fp', 'B': 'int'}[o[0]]
            dst = 'fp' if o.endswith('ToFP') or o in ('FPTrunc', 'FPExt') or o == 'BitCast' else 'ptr' if o == 'IntToPtr' else 'int'
            sc = opc(o, types={TI: v + dst, T0: v + src})
            if v and o != 'BitCast':
                o1 = C(o + 'Operation', ('jt', ('scalar', T0)), ('jt', ('scalar', TI)))
                o1 = C('VectorUnaryOperation', o1, ('jt', T0), ('jt', TI))
            else:
                o1 = C(o + 'Operation', ('jt', T0), ('jt', TI))
            t = tac(o1, V(0))
            S.codes('%s%s' % (o, ' on vectors' if v else ''), sc, [t], r(t, 0))
    for p, cls in ICMP.items():
        for kd in ('int', 'vint', 'ptr', 'vptr'):
            sc = opc('ICmp', types={TI: 'vint' if kd[0] == 'v' else 'int', T0: kd, T1: kd}, same={T1: T0})
            sc['get'][('getPredicate', I)] = ('enum', 'llvm::CmpInst::' + p)
            if kd.endswith('int'):
                o1 = C('Integer%sOperation' % cls, ('bits', T0 if kd == 'int' else ('scalar', T0)))
            else:
                o1 = C('PtrCmpOperation', ('ty', NS + 'PointerType', ()), ('enum', NS + 'ICmpPredicate::' + cls))
            if kd[0] == 'v':
                o1 = C('VectorBinaryOperation', o1, ('jt', T0), ('jt', T0), ('jt', TI))
            t = tac(o1, V(0), V(1))
            S.codes('icmp %s on %s' % (p, kd), sc, [t], r(t, 0))
    for p, e in FCMP.items():
        for kd in ('fp', 'vfp'):
            sc = opc('FCmp', types={TI: 'vint' if kd[0] == 'v' else 'int', T0: kd, T1: kd}, same={T1: T0})
            sc['get'][('getPredicate', I)] = ('enum', 'llvm::CmpInst::' + p)
            o1 = C('FCmpOperation', ('enum', NS + 'fpcmp::' + e), ('fpsize', T0 if kd == 'fp' else ('scalar', T0)))
            if kd[0] == 'v':
                o1 = C('VectorBinaryOperation', o1, ('jt', T0), ('jt', T0), ('jt', TI))
            t = tac(o1, V(0), V(1))
            S.codes('fcmp %s on %s' % (p, kd), sc, [t], r(t, 0))
    # memory
    for vol in (True, False):
        g = {('isVolatile', I): k(vol), ('isAtomic', I): k(False)}
        al = ('ll', 'getAlign', I)
        sc = opc('Load', get=g, types={T0: 'ptr'})
        if vol:
            t = tac(C('LoadVolatileOperation', ('jt', TI), k(1), al), V(0), IO, MEM)
            exp = [t, asg(IO, r(t, 1)), asg(MEM, r(t, 2))]
        else:
            b = tac(C('IOBarrierOperation', ('jt', T0)), V(0), IO)
            t = tac(C('LoadNonVolatileOperation', ('jt', TI), k(1), al), r(b, 0), MEM)
            exp = [b, t, asg(MEM, r(t, 1))]
        S.codes('load%s' % (' volatile' if vol else ''), sc, exp, r(t, 0))
        sc = opc('Store', get=g, types={T1: 'ptr'})
        if vol:
            t = tac(C('StoreVolatileOperation', ('jt', T0), k(1), al), V(1), V(0), IO, MEM)
            exp = [t, asg(IO, r(t, 0)), asg(MEM, r(t, 1))]
        else:
            b = tac(C('IOBarrierOperation', ('jt', T1)), V(1), IO)
            t = tac(C('StoreNonVolatileOperation', ('jt', T0), k(1), al), r(b, 0), V(0), MEM)
            exp = [b, t, asg(MEM, r(t, 0))]
        S.codes('store%s' % (' volatile' if vol else ''), sc, exp, ('null',))
    t = tac(C('AllocaOperation', ('jt', ('ll', 'getAllocatedType', I)), ('jt', T0), ('ll', 'getAlign', I)), V(0))
    m = tac(C('MemoryStateMergeOperation', k(2)), r(t, 1), MEM)
    S.codes('alloca', opc('Alloca', types={T0: 'int'}), [t, m, asg(MEM, r(m, 0))], r(t, 0))
    t = tac(C('SsaPhiOperation', vec(), ('jt', TI)))
    S.codes('phi', opc('PHI'), [t], r(t, 0))
    return S


BITCASES = {'ctlz': 'Ctlz', 'cttz': 'Cttz'}
INTRINSICS = {
    'abs': ('Abs', 2), 'bswap': ('BSwap', 1), 'ceil': ('Ceil', 1), 'copysign': ('Copysign', 2), 'ctlz': ('Ctlz', 2),
    'cttz': ('Cttz', 2), 'ctpop': ('Ctpop', 1), 'fabs': ('FAbs', 1), 'floor': ('Floor', 1),
    'fmuladd': ('FMulAddIntrinsic', 3), 'fshl': ('FShl', 3), 'is_constant': ('IsConstant', 1),
    'is_fpclass': ('IsFPClass', 2), 'ptrmask': ('PtrMask', 2), 'rint': ('RInt', 1), 'round': ('Round', 1),
    'sadd_with_overflow': ('SAddWithOverflow', 2), 'uadd_with_overflow': ('UAddWithOverflow', 2),
    'ssub_with_overflow': ('SSubWithOverflow', 2), 'smul_with_overflow': ('SMulWithOverflow', 2),
    'umul_with_overflow': ('UMulWithOverflow', 2), 'smax': ('SMax', 2), 'smin': ('SMin', 2), 'umax': ('UMax', 2),
    'umin': ('UMin', 2), 'trunc': ('TruncIntrinsic', 1)}


def ll(name, *args):
    return ('ll', name) + tuple(args)


def bb(t):
    return ('bb', t)


def edge(src, dst):
    return ('add_outedge', src, dst)


def pf(n, name='pf'):
    return n


def check_values(P, rep, f):
    S = Spec(P, rep, f, 'front/instruction')
    TI, T0, T1, T2 = ty(I), ty(op(0)), ty(op(1)), ty(op(2))
    PTR = ('ty', NS + 'PointerType', ())
    SRC = ('jt', ll('getSourceElementType', I))

    def gep(n):
        return {('idx_begin', I): ('it', I, 1), ('idx_end', I): ('it', I, n + 1), ('getNumIndices', I): k(n),
                ('indices', I): vec(*[op(i + 1) for i in range(n)]), ('getNumOperands', I): k(n + 1)}
    for n in (1, 2, 3):
        t = tac(C('GetElementPtrOperation', ('jt', T0), vec(*[('jt', ty(op(i + 1))) for i in range(n)]), SRC, PTR),
                V(0), *[V(i + 1) for i in range(n)])
        S.codes('getelementptr with %d indices' % n,
                opc('GetElementPtr', get=gep(n), types=dict([(T0, 'ptr'), (TI, 'ptr')] + [(ty(op(i + 1)), 'int')
                                                                                       for i in range(n)])), [t], r(t, 0))
    for o, types in ((0, {T0: 'vptr', T1: 'int', T2: 'int'}), (1, {T0: 'ptr', T1: 'vint', T2: 'int'}),
                     (2, {T0: 'ptr', T1: 'int', T2: 'vint'})):
        vt = C('FixedVectorType', PTR, ('field', ('jt', ty(op(o))), 'size_'))
        t = tac(C('GetElementPtrOperation', ('jt', T0), vec(('jt', T1), ('jt', T2)), SRC, vt), V(0), V(1), V(2))
        S.codes('getelementptr, operand %d is a vector' % o, opc('GetElementPtr', get=gep(2), types=dict(types)),
                [t], r(t, 0))
    t = tac(C('SelectOperation', ('jt', T1)), V(0), V(1), V(2))
    S.codes('select', opc('Select', types={TI: 'int', T0: 'int', T1: 'int', T2: 'int'}, same={T2: T1, TI: T1}), [t], r(t, 0))
    sz = ('field', ('jt', T1), 'size_')
    t = tac(C('VectorSelectOperation', C('FixedVectorType', ('ty', RV + 'BitType', (k(1),)), sz),
              C('FixedVectorType', ('field', ('jt', T1), 'type_'), sz)), V(0), V(1), V(2))
    S.codes('select on vectors', opc('Select', types={TI: 'vint', T0: 'vint', T1: 'vint', T2: 'vint'},
                                     same={T2: T1, TI: T1}), [t], r(t, 0))
    for n in (1, 2):
        ix = tuple(('atom', 'index%d' % i) for i in range(n))
        g = {('getIndices', I): vec(*ix), ('getNumIndices', I): k(n), ('idx_begin', I): ('it', vec(*ix), 0),
             ('idx_end', I): ('it', vec(*ix), n)}
        t = tac(C('ExtractValueOperation', ('jt', T0), vec(*ix)), V(0))
        S.codes('extractvalue with %d indices' % n, opc('ExtractValue', get=g, types={T0: 'struct'}), [t], r(t, 0))
        t = tac(C('InsertValueOperation', ('jt', T0), ('jt', T1), vec(*ix)), V(0), V(1))
        S.codes('insertvalue with %d indices' % n, opc('InsertValue', get=g, types={T0: 'struct'}), [t], r(t, 0))
    t = tac(C('ExtractElementOperation', ('jt', T0), ('jt', T1)), V(0), V(1))
    S.codes('extractelement', opc('ExtractElement', types={T0: 'vint', T1: 'int'}), [t], r(t, 0))
    t = tac(C('InsertElementOperation', ('jt', T0), ('jt', T1), ('jt', T2)), V(0), V(1), V(2))
    S.codes('insertelement', opc('InsertElement', types={T0: 'vint', T1: 'int', T2: 'int'}), [t], r(t, 0))
    mask = (('atom', 'lane0'), ('atom', 'lane1'), ('atom', 'lane2'))
    t = tac(C('ShuffleVectorOperation', ('jt', T0), vec(*mask)), V(0), V(1))
    S.codes('shufflevector', opc('ShuffleVector', get={('getShuffleMask', I): vec(*mask)},
                                 types={T0: 'vint', T1: 'vint'}), [t], r(t, 0))
    t = tac(C('FreezeOperation', ('jt', T0)), V(0))
    S.codes('freeze', opc('Freeze', types={T0: 'int', TI: 'int'}, same={TI: T0}), [t], r(t, 0))

    # control flow
    B = bb(ll('getParent', I))
    EXIT = ('field', ('field', B, 'cfg_'), 'exit_')
    S.codes('ret with a value', opc('Ret', get={('getReturnValue', I): op(0), ('getNumOperands', I): k(1)}),
            [asg(RES, V(0))], 'any', trace_=[edge(B, EXIT)])
    S.codes('ret void', opc('Ret', get={('getReturnValue', I): ('null',), ('getNumOperands', I): k(0)}), [], 'any',
            trace_=[edge(B, EXIT)])
    S.codes('unreachable', opc('Unreachable'), [], ('null',), trace_=[edge(B, EXIT)])
    succ = [bb(ll('getSuccessor', I, k(i))) for i in (0, 1)]
    S.codes('unconditional br', opc('Br', get={('isUnconditional', I): k(True), ('isConditional', I): k(False),
                                               ('getNumSuccessors', I): k(1)}), [], ('null',), trace_=[edge(B, succ[0])])
    c = ('cond',)
    TC = ty(op('cond'))

    def branch(cond, m, default, n, bits):
        t = tac(C(RV + 'MatchOperation', bits, ('map', tuple(sorted(m, key=repr))), k(default), k(n)), cond)
        return [t, tac(C('BranchOperation', ('ty', RV + 'ControlType', (k(n),))), r(t, 0))]
    S.codes('conditional br', opc('Br', get={('isUnconditional', I): k(False), ('isConditional', I): k(True),
                                             ('getNumSuccessors', I): k(2)}, types={TC: 'int'}),
            branch(V('cond'), [(k(1), k(1))], 0, 2, ('bits', TC)), ('null',), trace_=[edge(B, succ[1]), edge(B, succ[0])])
    # switch: cases 0..n-1 with the given successor block names; the default block
    for cases, default in ((('p', 'q'), 'd'), (('p', 'p', 'q'), 'd'), (('p', 'q', 'p'), 'd'), (('p', 'd'), 'd'), ((), 'd')):
        hs = tuple(('case', k(i)) for i in range(len(cases)))
        hd = ('case', ('atom', 'default'))
        get = {('case_begin', I): ('it', vec(*hs), 0), ('case_end', I): ('it', vec(*hs), len(hs)), ('cases', I): vec(*hs),
               ('case_default', I): hd, ('getDefaultDest', I): ('atom', default), ('getCaseSuccessor', hd): ('atom', default),
               ('getNumCases', I): k(len(hs))}
        m, edges, idx = [], [], {}
        for i, (h, b_) in enumerate(zip(hs, cases)):
            get[('getCaseSuccessor', h)] = ('atom', b_)
            get[('getCaseValue', h)] = ('casevalue', k(i))
            if b_ not in idx:
                idx[b_] = len(edges)
                edges.append(edge(B, bb(('atom', b_))))
            m.append((ll('getZExtValue', ('casevalue', k(i))), k(idx[b_])))
        edges.append(edge(B, bb(('atom', default))))
        n = len(edges)
        S.codes('switch over (%s), default %s' % (','.join(cases), default), opc('Switch', get=get, types={T0: 'int'}),
                branch(V(0), m, n - 1, n, ('bits', T0)), ('null',), trace_=edges)
    for o in UNSUPPORTED:
        S.rejected('unsupported ' + o, opc(o))

    # intrinsics
    def intr(name, **kw):
        g = dict(kw.pop('get', {}))
        g[('getIntrinsicID', I)] = ('enum', 'llvm::Intrinsic::' + name)
        return opc('Call', get=g, isa={('IntrinsicInst', I): True}, **kw)
    for n, (cls, a) in sorted(INTRINSICS.items()):
        R, out = S.run(intr(n))
        got = [x for kd, t, tacs, tr in out if kd != 'throw' and tacs for x in tacs[1] if x[0] == 'tac']
        attrs = got[0][1][2] if len(got) == 1 and got[0][1][0] == 'ctor' else None
        name = 'intrinsic ' + n
        if attrs is None or not attrs or attrs[0] != ('jt', T0):
            S.rep.site(S.rule, name)
            S.fail(name, 'is not converted to one operation on the type of its first operand')
            continue
        exp = {'is_fpclass': (('jt', T0),), 'is_constant': (('jt', T0),), 'ptrmask': (('jt', T0), ('jt', T1))}.get(n, (('jt', T0),))
        t = tac(C(cls + 'Operation', *(exp if len(attrs) == len(exp) else attrs)), *[V(i) for i in range(a)])
        S.codes(name, intr(n), [t], r(t, 0))
    for n in ('assume', 'prefetch', 'lifetime_start', 'lifetime_end', 'experimental_noalias_scope_decl'):
        S.codes('intrinsic ' + n, intr(n), [], ('null',))
    S.codes('intrinsic expect', intr('expect'), [], V(0))
    for n in ('memcpy_inline', 'memcpy_element_unordered_atomic', 'memmove_element_unordered_atomic', 'memset_inline',
              'memset_element_unordered_atomic'):
        S.rejected('intrinsic ' + n, intr(n))
    for vol in (True, False):
        g = {'isOne': k(vol), 'isZero': k(not vol), 'isVolatile': k(vol), 'isOneValue': k(vol), 'isZeroValue': k(not vol),
             'getZExtValue': k(int(vol))}
        va = 'volatile ' if vol else ''
        if vol:
            t = tac(C('MemCpyVolatileOperation', ('jt', T2), k(1)), V(0), V(1), V(2), IO, MEM)
            exp = [t, asg(IO, r(t, 0)), asg(MEM, r(t, 1))]
        else:
            t = tac(C('MemCpyNonVolatileOperation', ('jt', T2), k(1)), V(0), V(1), V(2), MEM)
            exp = [t, asg(MEM, r(t, 0))]
        S.codes(va + 'memcpy', intr('memcpy', get=g), exp, ('null',))
        for n, cls in (('memset', 'MemSet'), ('memmove', 'MemMove')):
            if vol:
                S.rejected('volatile ' + n, intr(n, get=g))
                continue
            t = tac(C(cls + 'NonVolatileOperation', ('jt', T2), k(1)), V(0), V(1), V(2), MEM)
            S.codes(n, intr(n, get=g), [t, asg(MEM, r(t, 0))], ('null',))

    # calls
    FT = ll('getFunctionType', I)
    CO = ll('getCalledOperand', I)
    CF = ll('getCalledFunction', I)
    OPQ = [NS + 'convertAttributeList', NS + 'convertCallingConventionToJlm']
    CC = ('call', OPQ[1], None, (ll('getCallingConv', I),), ())

    def call(name, nargs, nparams, vararg, **kw):
        nargs_ = k(nargs)
        g = {('getNumParams', FT): k(nparams), ('isVarArg', FT): k(vararg), ('arg_size', I): nargs_,
             ('getNumOperands', I): k(nargs + 2),       # one operand of an operand bundle and the callee
             ('arg_begin', I): ('it', I, 0), ('arg_end', I): ('it', I, nargs),
             ('args', I): vec(*[op(i) for i in range(nargs)]), ('arg_operands', I): vec(*[op(i) for i in range(nargs)])}
        if name is None:
            g[('getCalledFunction', I)] = ('null',)
        else:
            g[('getName', CF)] = ('str', name)
        return opc('Call', get=g, isa=kw.pop('isa', {('IntrinsicInst', I): False}), opaque=OPQ, **kw)
    t = tac(C('MallocOperation', ('jt', T0)), V(0), IO)
    m = tac(C('MemoryStateMergeOperation', k(2)), r(t, 2), MEM)
    S.codes('call of malloc', call('malloc', 1, 1, False), [t, asg(IO, r(t, 1)), m, asg(MEM, r(m, 0))], r(t, 0))
    t = tac(C('FreeOperation', k(1)), V(0), MEM, IO)
    S.codes('call of free', call('free', 1, 1, False), [t, asg(MEM, r(t, 0)), asg(IO, r(t, 1))], ('null',))
    for name in ('f', None, 'intrinsic'):
        for nargs, nparams, vararg in ((0, 0, False), (1, 1, False), (3, 3, False), (2, 2, True), (1, 0, True), (4, 2, True)):
            for kd, same in (('fn', True), ('fn', False), ('ptr', True)):
                kw = {}
                if name == 'intrinsic':
                    kw['isa'] = {('IntrinsicInst', I): True}
                sc = call(name, nargs, nparams, vararg, types={ty(CO): kd}, eqtypes=same, **kw)
                if name == 'intrinsic':
                    sc['get'][('getIntrinsicID', I)] = ('enum', 'llvm::Intrinsic::sqrt')
                exp = []
                callee = ('valf', CO)
                pre = []
                if kd == 'fn' and not same:
                    p = tac(C('FunctionToPointerOperation', ('jt', ty(CO))), callee)
                    q = tac(C('PointerToFunctionOperation', ('jft', FT)), r(p, 0))
                    pre, callee = [p, q], r(q, 0)
                if kd == 'ptr':
                    q = tac(C('PointerToFunctionOperation', ('jft', FT)), callee)
                    pre, callee = [q], r(q, 0)
                args = [V(i) for i in range(nparams)]
                if vararg:
                    va = [V(i) for i in range(nparams, nargs)]
                    vt = tac(C('VariadicArgumentListOperation', vec(*[('jt', ty(op(i))) for i in range(nparams, nargs)])), *va)
                    exp.append(vt)
                    args.append(r(vt, 0))
                at = ('call', OPQ[0], None, (ll('getAttributes', I), k(nargs), ('ctxGetTypeConverter',)), ())
                t = tac(C('CallOperation', ('jft', FT), CC, at), callee, *args, IO, MEM)
                exp += pre + [t] + [asg(x, ('result', t, ('bin', '-', ('nresults', t), k(n_)))) for x, n_ in ((IO, 2), (MEM, 1))]
                S.codes('call of %s, %d arguments for %d parameters%s, callee is %s' % (
                    {'f': 'a function', None: 'a pointer', 'intrinsic': 'an intrinsic'}[name], nargs, nparams,
                    ' and varargs' if vararg else '', 'a pointer' if kd == 'ptr' else 'a function' if same else
                    'a function of another type'), sc, exp, r(t, 0))
    return S


RULE = ('the conversion of an LLVM instruction, interpreted for every opcode, predicate, intrinsic and operand shape, emits exactly '
        'the operations that compute it, with operands, attributes and states taken from the matching parts of the instruction; '
        'every other opcode is rejected')


def check(P, rep):
    f = P.fn(NS + 'convertInstruction')
    rep.rule('front/instruction', RULE)
    check_instructions(P, rep, f)
    check_values(P, rep, f)
    rep.floor('front/instruction', 270)


CHECKS = {'C04': check}
