"""backend: three-address code -> LLVM IR.  Every operation class is instantiated through its constructor with symbolic
attributes; its conversion is interpreted abstractly and the LLVM instructions it builds are compared with the LLVM
language reference: opcode, operands, types, attributes."""
from collections import Counter
from sa.engine import Interp, core, subterms, contains, alts, mkphi
from sa.facts import AnalysisBroken
from sa import absllvm
from sa.scenario import show, rewrite, trace, add_trace, TRACE
from checks.frontend import Run, Spec, NS, RV, C, vec, k

F = 'jlm/llvm/backend/IpGraphToLlvmConverter.cpp'
CV = NS + 'IpGraphToLlvmConverter'
OP = ('oper',)
TERMINATORS = ('CreateRet', 'CreateRetVoid', 'CreateBr', 'CreateCondBr', 'CreateSwitch')
BLD = ('builder',)


def A(n):
    """the n-th operand variable"""
    return ('atom', 'v%d' % n)


def lv(x):
    return ('lv', x)


def core_var(x):
    """the variable a begin() or end() expression is about"""
    while x and x[0] in ('cast', 'paren', 'ctor') and len(x) > 2:
        a = x[-1] if x[0] != 'ctor' else (x[2][0] if x[2] else None)
        x = a
    if x and x[0] == 'call' and x[1].name in ('begin', 'end') and x[2] and x[2][0] == 'var':
        return tuple(x[2][:2])
    return None


class BRun(Run):
    FILES = (F,)

    def __init__(self, P, sc):
        super().__init__(P, sc)
        self.objs = {OP: sc['cls']} if 'cls' in sc else {}
        self.objs.update(sc.get('objs', {}))
        self.built = {}

    def clsof(self, x):
        x = core(x)
        if x in self.objs:
            return self.objs[x]
        if x[0] == 'ctor':
            return x[1]
        if x[0] == 'ty':
            return x[1]
        return None

    def dynis(self, T, x):
        x = core(x)
        T0 = T.strip('>* &')
        c = self.clsof(x)
        if c is not None and c in self.P.classes:
            for n in (T0, NS + T0, RV + T0):
                if n in self.P.classes:
                    return self.P.is_a(c, n)
        isa = self.sc.get('jisa', {})
        T = T0.rsplit('::', 1)[-1]
        if (T, x) in isa:
            return isa[(T, x)]
        kd = self.sc.get('jkinds', {}).get(x)
        if kd is not None:
            return T == kd or T == 'VectorType' and kd.endswith('VectorType')
        return None

    def dyn(self, decl, o):
        c = self.clsof(o)
        if c is not None:
            m = self.P.find_method(c, decl.name)
            if m:
                return m[1]
        return None

    def hook(self, ip, d, o, ts, s, fr, e):
        q, name, cls = d.q, d.name, d.cls or ''
        sc = self.sc
        co = core(o) if o is not None else None
        if q in sc.get('returns', {}):
            r = sc['returns'][q]
            r = r(ts) if callable(r) else r
            if r is not None:
                s = add_trace(s, ('called', q) + tuple(core(t) for t in ts))
                return [(r, s)]
        if q in self.opq:
            s = ip.emit('call', d, o, ts, e[4], s, fr, node=e)
            if q in sc.get('calltrace', ()):
                s = add_trace(s, ('called', q, tuple(core(t) for t in ts)))
            return [(('call', q, co if co != ('field', ('this',), 'Context_') else None,
                      tuple(core(t) for t in ts), tuple(d.ta)), s)]
        if q == 'std::reverse' and len(ts) == 2 and len(e) > 3:
            vs = {core_var(x) for x in e[3]}
            if len(vs) == 1 and None not in vs:
                key = ip.varkey(next(iter(vs)), s, fr)
                s = s.fork()
                s.env[key] = ('reversed', core(s.env[key]))
                return [(('void',), s)]
        if co is not None and ('jget', name, co) + tuple(core(t) for t in ts) in sc:
            return [(sc[('jget', name, co) + tuple(core(t) for t in ts)], s)]
        if co is not None and co[0] in ('vec', 'it') and (co[0] == 'it' or cls.startswith('jlm::')):
            r = ip.iter_member(d, co, ts, s, fr, e[4], e)
            if r is not None:
                return r
        if cls.endswith('IpGraphToLlvmConverter::Context') and o is not None:
            if name == 'value' and len(ts) == 1:
                return [(('lv', core(ts[0])), s)]
            if name == 'basic_block' and len(ts) == 1:
                return [(('lbb', core(ts[0])), s)]
            if name == 'insert':
                s = add_trace(s, ('insert',) + tuple(core(t) for t in ts))
                return [(('void',), s)]
            if name in ('module', 'llvm_module', 'GetTypeConverter'):
                return [((name,), s)]
        if cls == NS + 'TypeConverter' and name.startswith('Convert') and 'TypeConverter' not in sc.get('enter', ()) and ts:
            return [(('lt', core(ts[0])), s)]
        if q.startswith('llvm::') and not q.startswith('llvm::Attribute::'):
            r = self.llvm(ip, d, o, ts, s, fr, e)
            if r is not None:
                return r
            return absllvm.hook(ip, sc, d, o, ts, s, fr, e)
        if name == 'Create' and d.static and cls in self.P.classes and self.P.is_a(cls, RV + 'Type'):
            return [(('ctor', cls, tuple(core(t) for t in ts)), s)]
        if q == RV + 'is' or q == NS + 'is':
            if d.ta and ts:
                x = core(ts[0])
                v = self.dynis(d.ta[0], sc.get(('jget', 'operation', x), x))
                if v is not None:
                    return [(('const', v), s)]
        if name == 'Kind' and co is not None and not ts:
            kd = self.kind(co)
            if kd is not None:
                return [(('enum', RV + 'TypeKind::' + kd), s)]
        if co is not None and co[0] == 'atom' and co not in self.objs and name in ('Type', 'type') and not ts:
            return [(('vtype', co), s)]
        if co is not None and ('jget', name, co) in sc and not ts:
            return [(sc[('jget', name, co)], s)]
        if co is not None and ('jget', name, co) + tuple(core(t) for t in ts) in sc:
            return [(sc[('jget', name, co) + tuple(core(t) for t in ts)], s)]
        return self.extra(ip, d, o, ts, s, fr, e)

    def kind(self, t):
        kd = self.sc.get('jkinds', {}).get(t)
        if kd is None and t[0] in ('ctor', 'ty'):
            kd = t[1].rsplit('::', 1)[-1]
        if kd is None:
            return None
        return 'State' if kd in ('MemoryStateType', 'IOStateType', 'ControlType', 'State') and kd != 'ControlType' else 'Value'

    def llvm(self, ip, d, o, ts, s, fr, e):
        q, name, cls = d.q, d.name, d.cls or ''
        co = core(o) if o is not None else None
        ts = tuple(core(t) for t in ts)
        if cls.startswith('llvm::IRBuilder') and name in TERMINATORS:
            r = ('ir', name[6:]) + self.args(ts)
            return [(r, add_trace(s, ('terminator', self.block(co), r)))]
        if cls.startswith('llvm::IRBuilder') and name.startswith('Create'):
            return [(('ir', name[6:]) + self.args(ts), s)]
        if cls.startswith('llvm::IRBuilder'):
            a, w = self.args(ts), name[6:]
            if name.startswith('getInt') and name.endswith('Ty') or name in ('getVoidTy', 'getFloatTy', 'getDoubleTy', 'getHalfTy'):
                return [(('irc', 'Type::' + name) + a, s)]
            if name == 'getPtrTy':
                return [(('irc', 'PointerType::get') + (a or (k(0),)), s)]
            if name in ('getTrue', 'getFalse') and not a:
                return [(('irc', 'ConstantInt::' + name), s)]
            if name.startswith('getInt') and (w.isdigit() or w == 'N') and len(a) == (2 if w == 'N' else 1):
                return [(('irc', 'ConstantInt::get', ('irc', 'IntegerType::get', a[0] if w == 'N' else k(int(w))), a[-1]), s)]
            if name == 'GetInsertBlock' and not a:
                return [(self.block(co), s)]
        if co is None and cls.startswith('llvm::') and d.static:
            named = name == 'Create' and cls[6:] in ('Function', 'GlobalVariable')
            return [(('irc', cls[6:] + '::' + name) + self.ta(cls, d) + self.args(ts, named), s)]
        if co is not None and (name.startswith('set') or name in ('addIncoming', 'addCase', 'addAttribute')):
            s = add_trace(s, (name, co) + self.args(ts))
            return [(('void',), s)]
        if co is not None and name == 'getContext':
            return [(('llvmctx',), s)]
        return None

    def block(self, b):
        """the block a builder appends to"""
        return b[2][0] if b is not None and b[0] == 'ctor' and b[2] else b

    def ta(self, cls, d):
        """the element width of constant data is that of the C++ elements"""
        if cls.startswith('llvm::ConstantData'):
            m = [w for w, n in ((8, 'unsigned char'), (16, 'unsigned short'), (32, 'unsigned int'), (64, 'unsigned long'),
                                (8, 'uint8_t'), (16, 'uint16_t'), (32, 'uint32_t'), (64, 'uint64_t')) if 'ArrayRef<' + n in d.sig]
            if m:
                return (k(m[0]),)
        if cls.startswith('llvm::ConstantData') and d.ta:
            m = [w for w, n in ((8, 'unsigned char'), (16, 'unsigned short'), (32, 'unsigned int'), (64, 'unsigned long'))
                 if any('<' + n + ',' in x or '<' + n + '>' in x or x == n for x in d.ta)]
            return (k(m[0]),) if len(m) == 1 else (('unk', 'width'),)
        return ()

    def args(self, ts, named=False):
        """meaningful arguments: names, flags metadata and insertion points left at their defaults do not matter"""
        out = []
        for t in ts:
            t = core(t)
            if named and t[0] == 'ctor' and t[1] == 'llvm::Twine' and len(t[2]) == 1:
                t = core(t[2][0])
            if t[0] == 'ctor' and t[1] in ('llvm::Twine', 'llvm::FMFSource') or t[:1] == ('str',) and t[1] == '':
                continue
            if t[0] == 'ctor' and t[1].startswith('llvm::ArrayRef') and len(t[2]) == 1:
                t = core(t[2][0])
            if t[0] == 'ctor' and t[1].startswith('llvm::ArrayRef') and not t[2]:
                t = vec()
            if t[0] == 'ctor' and t[1].startswith(('llvm::StringRef', 'llvm::Align')) and len(t[2]) == 1:
                t = core(t[2][0])
            if t in (('llvmctx',),):
                continue
            out.append(t)
        while out and out[-1] in (('null',), k(None)):
            out.pop()
        return tuple(out)

    def policy(self, d, g, fr, o):
        if d.q in self.opq:
            return False
        if g.file in self.FILES:
            return True
        if (d.cls or '').startswith((NS, RV)) or d.q.startswith((NS, RV)):
            if d.name.startswith('debug_'):
                return False
            if g.file.startswith('jlm/'):
                return True
        return None

    def build(self, cls, args, obj=OP, sig=None):
        """field values of an object constructed with these arguments"""
        Cl = self.P.classes.get(cls)
        if Cl is None:
            raise AnalysisBroken('class %s not found' % cls)
        res = []
        for m in Cl.methods:
            d = m[0]
            if d.name != '<ctor>' or d.copy or d.deleted:
                continue
            f = self.P.body_of(d)
            if f is None or f.dependent or len(f.params) != len(args):
                continue
            if sig and sig not in f.sig:
                continue
            ip = self.interp()
            for kd, t, s in ip.run(f, list(args), this=obj):
                if kd == 'throw':
                    continue
                res.append({x: v for x, v in s.env.items() if x[0] == 'F'})
        if not res:
            raise AnalysisBroken('no constructor of %s takes %d arguments' % (cls, len(args)))
        env = {}
        for x in set().union(*res):
            env[x] = mkphi([r[x] for r in res if x in r])
        return env

    def interp(self):
        ip = Interp(self.P, inline=self.policy, hook=self.hook, conc=True, unroll=self.sc.get('unroll', 8), truth_hook=self.truth, range_hook=self.range,
                    dyn=self.dyn,
                    truthy=('lv', 'lt', 'ir', 'irc', 'lbb', 'oper', 'vtype', 'builder', 'module', 'llvm_module', 'ty') +
                    tuple(self.sc.get('truthy', ())))
        ip.MAXDEPTH = 16
        ip.ctorfields = self.ctorfields
        ip.range_of = self.range_of
        return ip

    def range_of(self, ip, t, s, fr):
        """a loop over an object visits what its begin() points into"""
        t = core(t)
        c = self.clsof(t)
        if c is None or c not in self.P.classes:
            return None
        m = self.P.find_method(c, 'begin')
        f = self.P.body_of(m[1]) if m else None
        if f is None:
            return None
        rs = {core(x[0]) for x in ip.inline(f, m[1], t, [], s, fr, ['call', None, None, [], 0])}
        if len(rs) == 1:
            r = next(iter(rs))
            if r[0] == 'call' and r[1].rsplit('::', 1)[-1] in ('begin', 'cbegin') and r[2] is not None:
                return core(r[2])
            if r[0] == 'it' and r[2] == 0:
                return r[1]
        return None

    def ctorfields(self, t):
        """the fields of an object just constructed"""
        if t not in self.built:
            self.built[t] = None
            cls = t[1]
            if cls in self.P.classes and cls.startswith('jlm::'):
                try:
                    self.built[t] = {x[2]: v for x, v in self.build(cls, t[2], t).items() if x[1] == t}
                except AnalysisBroken:
                    pass
        return self.built[t]

    def truth(self, t, s):
        if t[0] == 'dyn':
            return self.dynis(t[1], core(t[2]))
        if t in self.sc.get('truth', {}):
            return self.sc['truth'][t]
        return None

    def run(self, f, args, env=None):
        ip = self.interp()
        e = dict(env or {})
        e.update(self.sc.get('jenv', {}))
        for obj, cls, a, *sig in self.sc.get('build', ()):
            e.update(self.build(cls, a, obj, *sig))
        exits = ip.run(f, args, env=e)
        out, seen = [], set()
        for kd, t, s in exits:
            if t == ('noreturn',):
                kd, t = 'throw', None
            t, tr = (self.nz(core(t)) if t else None), self.nz(trace(s))
            key = (kd, t, tr) if kd != 'throw' else kd
            if key not in seen:
                seen.add(key)
                out.append((kd, t, None, tr))
        self.ip = ip
        return out

    def nz(self, t):
        def rule(x):
            if x[0] == 'dyn':
                return core(x)
            if x[0] == 'index' and x[1][0] == 'vec' and x[2][0] == 'const' and x[2][1] < len(x[1][1]):
                return x[1][1][x[2][1]]
            return x
        return rewrite(t, rule)


def conv(P):
    return P.fn(CV + '::convert_operation')


def oprun(P, cls, args, nops, sc=(), **kw):
    sc = {**dict(sc), 'cls': cls}
    sc.update(kw)
    sc['build'] = [(OP, cls, args) + ((sc['sig'],) if 'sig' in sc else ())] + list(sc.get('build', ()))
    R = BRun(P, sc)
    return R, R.run(conv(P), [OP, OP, vec(*[A(i) for i in range(nops)]), BLD])


def mrun(P, name, args, sc=(), sig=None, **kw):
    sc = dict(sc)
    sc.update(kw)
    R = BRun(P, sc)
    f = P.fn(CV + '::' + name, sig=sig)
    return f, R.run(f, args)


# ---- expected terms
def ir(n, *a):
    return ('ir', n) + a


def irc(n, *a):
    return ('irc', n) + a


def lt(t):
    return ('lt', t)


def en(q):
    return ('enum', q)


INS = 'llvm::Instruction::'
T, U, W, AL, N = ('atom', 'T'), ('atom', 'U'), ('atom', 'w'), ('atom', 'alignment'), ('atom', 'n')
L0, L1, L2, L3 = (lv(A(i)) for i in range(4))
BIN = {'Add': 'Add', 'And': 'And', 'AShr': 'AShr', 'Sub': 'Sub', 'UDiv': 'UDiv', 'SDiv': 'SDiv', 'URem': 'URem',
       'SRem': 'SRem', 'Shl': 'Shl', 'LShr': 'LShr', 'Or': 'Or', 'Xor': 'Xor', 'Mul': 'Mul'}
CMP = ('Eq', 'Ne', 'Ugt', 'Uge', 'Ult', 'Ule', 'Sgt', 'Sge', 'Slt', 'Sle')
FCMP = ('oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'TRUE', 'FALSE')
CAST = {'BitCast': 'BitCast', 'FPExt': 'FPExt', 'FPToSI': 'FPToSI', 'FPToUI': 'FPToUI', 'FPTrunc': 'FPTrunc',
        'IntToPtr': 'IntToPtr', 'PtrToInt': 'PtrToInt', 'SExt': 'SExt', 'SIToFP': 'SIToFP', 'Trunc': 'Trunc',
        'UIToFP': 'UIToFP', 'ZExt': 'ZExt'}
# operation -> (intrinsic, value operands); overloaded on the type of operand 0
INTRINSIC = {'SAddWithOverflow': ('sadd_with_overflow', 2), 'SSubWithOverflow': ('ssub_with_overflow', 2),
             'SMulWithOverflow': ('smul_with_overflow', 2), 'UAddWithOverflow': ('uadd_with_overflow', 2),
             'UMulWithOverflow': ('umul_with_overflow', 2),
             'SMax': ('smax', 2), 'SMin': ('smin', 2), 'UMax': ('umax', 2), 'UMin': ('umin', 2), 'Abs': ('abs', 2),
             'BSwap': ('bswap', 1), 'Ctpop': ('ctpop', 1), 'Ctlz': ('ctlz', 2), 'Cttz': ('cttz', 2),
             'FShl': ('fshl', 3), 'FAbs': ('fabs', 1), 'Ceil': ('ceil', 1), 'Floor': ('floor', 1), 'RInt': ('rint', 1),
             'Round': ('round', 1), 'TruncIntrinsic': ('trunc', 1), 'Copysign': ('copysign', 2),
             'IsConstant': ('is_constant', 1), 'IsFPClass': ('is_fpclass', 2),
             'FMulAddIntrinsic': ('fmuladd', 3)}


def intrinsic(name, types, args):
    return ir('Intrinsic', en('llvm::Intrinsic::' + name), vec(*types), vec(*args))


class Norm:
    """builder calls that create the same instruction get one name"""
    BINOPS = {'Add', 'Sub', 'Mul', 'UDiv', 'SDiv', 'URem', 'SRem', 'Shl', 'LShr', 'AShr', 'And', 'Or', 'Xor', 'FAdd',
              'FSub', 'FMul', 'FDiv', 'FRem'}
    CASTS = {'Trunc', 'ZExt', 'SExt', 'FPToUI', 'FPToSI', 'UIToFP', 'SIToFP', 'FPTrunc', 'FPExt', 'PtrToInt',
             'IntToPtr', 'BitCast', 'AddrSpaceCast'}

    def __init__(self, P):
        self.P = P

    def num(self, t):
        if t[0] == 'enum' and t[1].startswith('llvm::'):
            v = self.P.enumvalue.get(t[1])
            if v is not None:
                return k(int(v))
        return t

    def __call__(self, t):
        return rewrite(t, self.rule)

    def rule(self, x):
        if x[0] == 'dyn':
            return core(x)
        if x[0] == 'ir':
            n, a = x[1], x[2:]
            if n in self.BINOPS:
                n, a = 'BinOp', (self.num(en(INS + n)),) + a
            elif n in self.CASTS:
                n, a = 'Cast', (self.num(en(INS + n)),) + a
            elif n in ('ICmpEQ', 'ICmpNE', 'ICmpUGT', 'ICmpUGE', 'ICmpULT', 'ICmpULE', 'ICmpSGT', 'ICmpSGE', 'ICmpSLT',
                       'ICmpSLE') or n.startswith('FCmp') and n != 'FCmp':
                n, a = n[:4], (self.num(en('llvm::CmpInst::' + n[:4].upper() + '_' + n[4:])),) + a
            elif n == 'UnOp' and a and a[0] in (en(INS + 'FNeg'), self.num(en(INS + 'FNeg'))):
                n, a = 'FNeg', a[1:]
            elif n == 'BinaryIntrinsic' and len(a) >= 3:
                n, a = 'Intrinsic', (a[0], vec(('type', a[1])), vec(a[1], a[2]))
            elif n == 'UnaryIntrinsic' and len(a) >= 2:
                n, a = 'Intrinsic', (a[0], vec(('type', a[1])), vec(a[1]))
            elif n == 'InBoundsGEP':
                n, a = 'GEP', a + (k(True),)
            if n in ('BinOp', 'ICmp', 'FCmp', 'Cmp', 'Cast', 'Intrinsic'):
                a = (self.num(a[0]),) + a[1:]
            if n == 'Cmp':
                n = 'ICmp' if a[0][0] == 'const' and a[0][1] >= 32 else 'FCmp'
            if n in ('GEP', 'Load', 'Store', 'ConstantInt') and a and a[-1] == k(False):
                a = a[:-1]
            return ('ir', n) + a
        if x[:2] == ('ll', 'getZExtValue') and len(x) == 3 and x[2][:2] == ('ll', 'getValue'):
            return ('ll', 'getZExtValue', x[2][2])
        if x[0] == 'irc':
            if x[1] == 'ConstantInt::get' and len(x) == 5 and x[-1] == k(False):
                x = x[:-1]
            if x[1] in ('Type::getInt1Ty', 'Type::getInt8Ty', 'Type::getInt16Ty', 'Type::getInt32Ty', 'Type::getInt64Ty'):
                return irc('IntegerType::get', k(int(x[1][12:-2])))
            if x[1] == 'Type::getIntNTy':
                return irc('IntegerType::get', *x[2:])
            if x[1] in ('ConstantInt::getTrue', 'ConstantInt::getFalse'):
                one = irc('IntegerType::get', k(1))
                if x[2:] in ((), (one,)):
                    return irc('ConstantInt::get', one, k(1 if x[1].endswith('True') else 0))
            if x[1] == 'ConstantInt::get' and len(x) == 4 and x[3][0] == 'const' and type(x[3][1]) is bool:
                return x[:3] + (k(int(x[3][1])),)
            return x
        if x[0] == 'type' and x[1][0] == 'lv':
            return lt(('vtype', x[1][1]))
        if x[0] == 'ctor' and x[1] in ('llvm::StringRef', 'llvm::Align') and len(x[2]) == 1:
            return x[2][0]
        if x[0] == 'ctor' and x[1] == 'llvm::APInt' and len(x[2]) == 3:
            cs = chars(x[2][1])
            if cs is not None and x[2][2] == k(2) and set(cs) <= {48, 49}:
                return ('apint', x[2][0], int(''.join(map(chr, cs)), 2))
        if x[0] == 'call' and x[1].startswith(CV) and x[2] == ('this',):
            return x[:2] + (None,) + x[3:]
        if x[0] == 'call' and x[1].endswith('Operation::copy') and x[2] == ('atom', 'inner'):
            return x[2]
        return x


def chars(t):
    """the characters of a string built from a list of characters"""
    if t[0] == 'reversed':
        c = chars(t[1])
        return c[::-1] if c is not None else None
    if t[0] == 'vec' and all(x[0] == 'const' for x in t[1]):
        return [x[1] for x in t[1]]
    if t[0] == 'ctor' and t[1].startswith(('std::basic_string', 'llvm::StringRef', 'std::allocator')) and t[2]:
        a = t[2]
        if len(a) >= 2 and a[0][0] == 'it' and a[1][0] == 'it' and a[0][1] == a[1][1]:
            c = chars(a[0][1])
            return c[a[0][2]:a[1][2]] if c is not None else None
        if len(a) >= 2 and a[0][0] == 'call' and a[1][0] == 'call' and a[0][2] == a[1][2] and a[0][2] is not None:
            n = [y[1].rsplit('::', 1)[-1] for y in a[:2]]
            c = chars(a[0][2])
            if c is not None and n in (['begin', 'end'], ['cbegin', 'cend']):
                return c
            if c is not None and n in (['rbegin', 'rend'], ['crbegin', 'crend']):
                return c[::-1]
            return None
        return chars(a[0])
    return None


def bitvalue(t, v):
    """the value of a one-bit expression over operand 0"""
    if t == lv(A(0)):
        return v
    if t[:2] == ('irc', 'ConstantInt::get') and t[3][0] == 'const':
        return int(t[3][1]) & 1
    if t[:2] == ('ir', 'Select'):
        c, a, b = (bitvalue(x, v) for x in t[2:5])
        return None if c is None else a if c else b
    if t[:2] == ('ir', 'Not'):
        a = bitvalue(t[2], v)
        return None if a is None else 1 - a
    return None


def cases(P):
    """(label, class, constructor arguments, number of operands, returned term, trace, scenario)"""
    def case(cls, args, n, ret, tr=(), label=None, unroll=8, facts=None, **sc):
        sc['unroll'] = unroll
        sc.update(facts or {})
        q = cls if '::' in cls else NS + cls
        return (label or q.rsplit('::', 1)[-1].replace('Operation', ''), q, args, n, ret, tr, sc)
    for a, b in BIN.items():
        yield case('Integer%sOperation' % a, [W], 2, ir('BinOp', en(INS + b), L0, L1))
    for a in CMP:
        p = en('llvm::CmpInst::ICMP_' + a.upper())
        yield case('Integer%sOperation' % a, [W], 2, ir('ICmp', p, L0, L1))
        yield case('PtrCmpOperation', [T, en(NS + 'ICmpPredicate::' + a)], 2, ir('ICmp', p, L0, L1), label='PtrCmp ' + a)
    for a in FCMP:
        yield case('FCmpOperation', [en(NS + 'fpcmp::' + a), U], 2,
                   ir('FCmp', en('llvm::CmpInst::FCMP_' + a.upper()), L0, L1), label='FCmp ' + a)
    for a in ('add', 'sub', 'mul', 'div', 'mod'):
        yield case('FBinaryOperation', [en(NS + 'fpop::' + a), U], 2,
                   ir('BinOp', en(INS + {'mod': 'FRem'}.get(a, 'F' + a.capitalize())), L0, L1), label='FBinary ' + a)
    yield case('FNegOperation', [T], 1, ir('FNeg', L0))
    for a, b in CAST.items():
        to = ('ctor', NS + 'PointerType', ()) if a == 'IntToPtr' else U
        yield case(a + 'Operation', [T, U], 1, ir('Cast', en(INS + b), L0, lt(to)), sig='rvsdg::Type>')
    for a, (b, n) in INTRINSIC.items():
        yield case(a + 'Operation', [T], n, intrinsic(b, [lt(('vtype', A(0)))], [lv(A(i)) for i in range(n)]))
    yield case('PtrMaskOperation', [T, U], 2, intrinsic('ptrmask', [lt(('vtype', A(0))), lt(('vtype', A(1)))], [L0, L1]))
    for vol in (False, True):
        x = 'Volatile' if vol else 'NonVolatile'
        ld, st = ir('Load', lt(T), L0, k(vol)), ir('Store', L1, L0, k(vol))
        yield case('Load%sOperation' % x, [T, N, AL], 3, ld, (('setAlignment', ld, AL),))
        yield case('Store%sOperation' % x, [T, N, AL], 3, ('null',), (('setAlignment', st, AL),))
        mem = ('ctor', 'llvm::MaybeAlign', ())
        yield case('MemCpy%sOperation' % x, [T, k(1)], 4, ir('MemCpy', L0, mem, L1, mem, L2, k(vol)))
    yield case('MemMoveNonVolatileOperation', [T, k(1)], 4, ir('MemMove', L0, mem, L1, mem, L2, k(False)))
    yield case('MemSetNonVolatileOperation', [T, k(1)], 4, ir('MemSet', L0, L1, L2, mem, k(False)))
    al = ir('Alloca', lt(T), L0)
    yield case('AllocaOperation', [T, U, AL], 1, al, (('setAlignment', al, AL),))
    yield case('GetElementPtrOperation', [('atom', 'P'), vec(U, W), T, ('atom', 'R')], 3, ir('GEP', lt(T), L0, vec(L1, L2)))
    yield case('GetElementPtrOperation', [('atom', 'P'), vec(U), T, ('atom', 'R')], 2, ir('GEP', lt(T), L0, vec(L1)),
               label='GetElementPtr one index')
    yield case('ExtractValueOperation', [T, vec(k(3), k(1))], 1, ir('ExtractValue', L0, vec(k(3), k(1))))
    yield case('InsertValueOperation', [T, U, vec(k(3), k(1))], 2, ir('InsertValue', L0, L1, vec(k(3), k(1))))
    yield case('ShuffleVectorOperation', [T, vec(k(3), k(1))], 2, ir('ShuffleVector', L0, L1, vec(k(3), k(1))))
    yield case('ExtractElementOperation', [T, U], 2, ir('ExtractElement', L0, L1))
    yield case('InsertElementOperation', [T, U, W], 3, ir('InsertElement', L0, L1, L2))
    yield case('SelectOperation', [T], 3, ir('Select', L0, L1, L2), jkinds={T: 'BitType'})
    yield case('SelectOperation', [T], 3, ('null',), jkinds={T: 'MemoryStateType'}, label='Select of a state')
    yield case('VectorSelectOperation', [T, U], 3, ir('Select', L0, L1, L2))
    # the type of the result does not come from the called function
    yield case('MallocOperation', [T], 2, ir('Call', ('ll', 'getOrInsertFunction', ('llvm_module',), ('str', 'malloc'), lt(
        ('ctor', RV + 'FunctionType', (vec(T, ('ctor', NS + 'IOStateType', ())), vec(
            *[('ctor', NS + x, ()) for x in ('PointerType', 'IOStateType', 'MemoryStateType')]))))), vec(L0)))
    yield case('FreeOperation', [k(1)], 3, ir('Call', ('ll', 'getOrInsertFunction', ('llvm_module',), ('str', 'free'), lt(
        ('ctor', RV + 'FunctionType', (vec(('ctor', NS + 'PointerType', ())), vec())))), vec(L0)))
    # calls: states are not passed; the calling convention and the attributes are those of the operation
    opq = [CV + '::convertAttributeList', CV + '::convert_attributes']
    FT = ('atom', 'FT')
    for cc, lc in (('C', 'C'), ('Fast', 'Fast'), ('Cold', 'Cold'), ('Tail', 'Tail')):
        call = ir('Call', lt(FT), L0, vec(L1, L2))
        yield case('CallOperation', [FT, en(NS + 'CallingConvention::' + cc), AL], 5, call,
                   (('setCallingConv', call, en('llvm::CallingConv::' + lc)),
                    ('setAttributes', call, ('call', CV + '::convertAttributeList', None, (AL,), ()))),
                   label='Call ' + cc, opaque=opq,
                   jkinds={('vtype', A(1)): 'BitType', ('vtype', A(2)): 'PointerType', ('vtype', A(3)): 'IOStateType',
                           ('vtype', A(4)): 'MemoryStateType'})
    va = ('atom', 'valist')
    call = ir('Call', lt(FT), L0, vec(L1, lv(A(7)), lv(A(8))))
    yield case('CallOperation', [FT, en(NS + 'CallingConvention::C'), AL], 4, call,
               (('setCallingConv', call, en('llvm::CallingConv::C')),
                ('setAttributes', call, ('call', CV + '::convertAttributeList', None, (AL,), ()))),
               label='Call with variadic arguments', opaque=opq,
               jkinds={('vtype', A(1)): 'BitType', ('vtype', A(2)): 'VariableArgumentType', ('vtype', A(3)): 'IOStateType'},
               facts={('jget', 'tac', A(2)): va, ('jget', 'noperands', va): k(2), ('jget', 'operand', va, k(0)): A(7),
                      ('jget', 'operand', va, k(1)): A(8)})
    # phis of values and of states
    yield case('SsaPhiOperation', [vec(('atom', 'b0'), ('atom', 'b1')), T], 2, ir('PHI', lt(T), k(2)), jkinds={T: 'BitType'})
    for st in ('MemoryStateType', 'IOStateType'):
        yield case('SsaPhiOperation', [vec(('atom', 'b0'), ('atom', 'b1')), T], 2, ('null',), jkinds={T: st},
                   label='SsaPhi of a ' + st)
    # constants
    yield case('ConstantStructOperation', [T], 2, irc('ConstantStruct::get', lt(T), vec(L0, L1)))
    yield case('ConstantVectorOperation', [T], 2, irc('ConstantVector::get', vec(L0, L1)))
    yield case('ConstantArrayOperation', [T, k(2)], 2,
               irc('ConstantArray::get', lt(('ctor', NS + 'ArrayType', (T, k(2)))), vec(L0, L1)))
    yield case('ConstantAggregateZeroOperation', [T], 0, irc('ConstantAggregateZero::get', lt(T)))
    yield case('ConstantPointerNullOperation', [], 0, irc('ConstantPointerNull::get', lt(('ctor', NS + 'PointerType', ()))))
    yield case('ConstantFP', [T, W], 0, irc('ConstantFP::get', W), sig='shared_ptr')
    yield case('PoisonValueOperation', [T], 0, irc('PoisonValue::get', lt(T)))
    yield case('UndefValueOperation', [T], 0, irc('UndefValue::get', lt(T)), jkinds={T: 'BitType'})
    yield case('UndefValueOperation', [T], 0, ('null',), jkinds={T: 'MemoryStateType'}, label='UndefValue of a memory state')
    yield case('FreezeOperation', [T], 1, ir('Freeze', L0))
    BT, VT = ('atom', 'BT'), ('atom', 'VT')
    for c in ('Array', 'Vector'):
        for w in (8, 16, 32, 64):
            sc = dict(objs={BT: RV + 'BitType', VT: NS + 'FixedVectorType'},
                      build=[(BT, RV + 'BitType', [k(w)]), (VT, NS + 'FixedVectorType', [BT, k(2)])])
            yield case('ConstantData%sOperation' % c, [BT, k(2)] if c == 'Array' else [VT], 2,
                       irc('ConstantData%s::get' % c, k(w), vec(*[('ll', 'getZExtValue', x) for x in (L0, L1)])),
                       label='ConstantData%s i%d' % (c, w), **sc)
        for e, w, m in (('half', 16, 'Half'), ('flt', 32, 'Float'), ('dbl', 64, 'Double')):
            sc = dict(objs={BT: NS + 'FloatingPointType', VT: NS + 'FixedVectorType'},
                      build=[(BT, NS + 'FloatingPointType', [en(NS + 'fpsize::' + e)]),
                             (VT, NS + 'FixedVectorType', [BT, k(2)])])
            yield case('ConstantData%sOperation' % c, [BT, k(2)] if c == 'Array' else [VT], 2,
                       irc('ConstantData%s::getFP' % c, k(w), irc('Type::get%sTy' % m),
                           vec(*[('ll', 'getZExtValue', ('ll', 'bitcastToAPInt', ('ll', 'getValueAPF', x))) for x in (L0, L1)])),
                       label='ConstantData%s %s' % (c, m.lower()), **sc)
    # the elementwise operation of a vector operation decides; conversions take the result type from the vector operation
    OPQ = [CV + '::convert_operation']
    inner = ('atom', 'inner')
    yield case('VectorUnaryOperation', [inner, T, U], 1, ('call', OPQ[0], None, (inner, OP, vec(A(0)), BLD), ()), nested=1)
    yield case('VectorBinaryOperation', [inner, T, U, W], 2, ('call', OPQ[0], None, (inner, OP, vec(A(0), A(1)), BLD), ()), nested=1)
    for n in (2, 3, 7):
        for alt in range(min(n, 3)) if n > 1 else ():
            cv = ('atom', 'cv')
            yield case(RV + 'ControlConstantOperation', [cv], 0,
                       irc('ConstantInt::get', irc('IntegerType::get', k(1 if n < 3 else 32)), k(alt)),
                       label='ControlConstant %d of %d' % (alt, n), objs={cv: RV + 'ControlValueRepresentation'},
                       build=[(cv, RV + 'ControlValueRepresentation', [k(alt), k(n)])])
    for s in ('1', '0', '1011', '0001', '11111110', '0' * 63 + '1', '1' * 65 + '0'):
        bv, n = ('atom', 'bv'), len(s)
        yield case('IntegerConstantOperation', [bv], 0,
                   irc('ConstantInt::get', irc('IntegerType::get', k(n)), ('apint', k(n), int(s[::-1], 2))),
                   label='IntegerConstant of bits ' + s, objs={bv: RV + 'BitValueRepresentation'},
                   jenv={('F', bv, 'data_'): vec(*[k(ord(c)) for c in s])}, unroll=80)
    yield case('IntegerConstantOperation', [bv], 0, irc('UndefValue::get', irc('IntegerType::get', k(3))),
               label='IntegerConstant with undefined bits', objs={bv: RV + 'BitValueRepresentation'},
               jenv={('F', bv, 'data_'): vec(k(49), k(ord('X')), k(48))})
    # branches on wider values are emitted as a switch on the value itself
    yield case(RV + 'MatchOperation', [k(32), vec(('pair', k(5), k(0)), ('pair', k(9), k(1))), k(2), k(3)], 1, L0,
               label='Match of a wide value')
    # operations that stand for their operand
    for c, n, a in (('IOBarrierOperation', 2, [T]),
                    ('ControlToIntOperation', 1, [T, U]), ('PointerToFunctionOperation', 1, [T]),
                    ('FunctionToPointerOperation', 1, [T])):
        yield case(c, a, n, L0)
    # operations without a counterpart
    for c, n, a in (('BranchOperation', 1, [T]), ('VariadicArgumentListOperation', 2, [vec(T, U)]),
                    ('MemoryStateMergeOperation', 2, [k(2)]), ('MemoryStateSplitOperation', 1, [k(2)]),
                    ('MemoryStateJoinOperation', 2, [k(2)]), ('LambdaEntryMemoryStateSplitOperation', 1, [vec(k(4), k(5))]),
                    ('LambdaExitMemoryStateMergeOperation', 2, [vec(k(4), k(5))]),
                    ('CallEntryMemoryStateMergeOperation', 2, [vec(k(4), k(5))]),
                    ('CallExitMemoryStateSplitOperation', 1, [vec(k(4), k(5))])):
        yield case(c, a, n, ('null',))


def check_operations(P, rep):
    R1 = 'back/operation'
    rep.rule(R1, 'the conversion of an operation builds exactly the LLVM instruction or constant that denotes it: opcode, predicate, '
                 'intrinsic, operands in order, types, flags, alignment, indices')
    f = conv(P)
    nz = Norm(P)
    for label, cls, args, n, ret, tr, sc in cases(P):
        nested = sc.pop('nested', 0)
        if nested:
            sc['nested'] = True
        R, exits = oprun(P, cls, args, n, sc)
        want = (nz(ret), nz(tuple(tr)))
        got = [(nz(t), nz(x)) for kd, t, _, x in exits if kd == 'ret' and t is not None]
        rep.site(R1, label)
        if not got:
            rep.violation(R1, label, f.file, f.line, 'the operation %s is not converted' % label)
            continue
        for g in got:
            if g != want:
                rep.violation(R1, label, f.file, f.line, 'the operation %s is converted to %s%s, expected %s%s' % (
                    label, show(g[0]), ' with ' + show(g[1]) if g[1] else '', show(want[0]),
                    ' with ' + show(want[1]) if want[1] else ''))
                break
    for v, alt, dflt in ((0, 0, 1), (0, 1, 0), (1, 0, 1), (1, 1, 0)):
        label = 'Match {%d -> %d}, default %d' % (v, alt, dflt)
        _, exits = oprun(P, RV + 'MatchOperation', [k(1), vec(('pair', k(v), k(alt))), k(dflt), k(2)], 1)
        got = [nz(t) for kd, t, _, x in exits if kd == 'ret' and t is not None]
        rep.site(R1, label)
        for x in (0, 1):
            want = alt if x == v else dflt
            bad = [g for g in got if bitvalue(g, x) != want]
            if bad or not got:
                rep.violation(R1, label, f.file, f.line, 'the operation %s is converted to %s, which is not %d for a value of %d' % (
                    label, show(bad[0]) if bad else 'nothing', want, x))
                break
    rep.floor(R1, 180)


def check(P, rep):
    check_operations(P, rep)


CHECKS = {'C07': check}
