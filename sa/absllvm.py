"""An abstract model of the LLVM C++ API as the converters use it: accessors of an LLVM object are
normalised to operand / property terms, so a rule sees *which* part of the instruction a value comes from
and not which accessor spelled it.

A scenario fixes the discrete facts an accessor can report (opcode, predicate, intrinsic, volatile flag,
kind of type, lengths of lists); everything else stays symbolic."""
from .engine import core

# named operand accessors -> operand index (LLVM 18 class definitions)
OPERAND = {
    ('LoadInst', 'getPointerOperand'): 0,
    ('StoreInst', 'getValueOperand'): 0,
    ('StoreInst', 'getPointerOperand'): 1,
    ('GetElementPtrInst', 'getPointerOperand'): 0,
    ('SelectInst', 'getCondition'): 0,
    ('SelectInst', 'getTrueValue'): 1,
    ('SelectInst', 'getFalseValue'): 2,
    ('AllocaInst', 'getArraySize'): 0,
    ('SwitchInst', 'getCondition'): 0,
    ('ExtractValueInst', 'getAggregateOperand'): 0,
    ('InsertValueInst', 'getAggregateOperand'): 0,
    ('InsertValueInst', 'getInsertedValueOperand'): 1,
    ('ExtractElementInst', 'getVectorOperand'): 0,
    ('ExtractElementInst', 'getIndexOperand'): 1,
    ('MemIntrinsicBase', 'getRawDest'): 0,
    ('MemIntrinsicBase', 'getLength'): 2,
    ('MemTransferBase', 'getRawSource'): 1,
    ('MemSetBase', 'getValue'): 1,
    ('PHINode', 'getIncomingValue'): None,
}
IDENT = {'str', 'value', 'valueOrOne', 'get'}
IDENTCLS = ('Align', 'MaybeAlign', 'StringRef', 'Use')
KINDS = {'isVectorTy': lambda k: k[0] == 'v' and k != 'void', 'isIntegerTy': lambda k: k == 'int',
         'isFloatingPointTy': lambda k: k == 'fp', 'isPointerTy': lambda k: k == 'ptr',
         'isVoidTy': lambda k: k == 'void', 'isIntOrIntVectorTy': lambda k: k in ('int', 'vint'),
         'isFPOrFPVectorTy': lambda k: k in ('fp', 'vfp'), 'isPtrOrPtrVectorTy': lambda k: k in ('ptr', 'vptr'),
         'isArrayTy': lambda k: k == 'arr', 'isStructTy': lambda k: k == 'struct'}
TYPEID = {'int': 'IntegerTyID', 'ptr': 'PointerTyID', 'void': 'VoidTyID', 'vint': 'FixedVectorTyID',
          'vfp': 'FixedVectorTyID', 'vptr': 'FixedVectorTyID', 'arr': 'ArrayTyID', 'struct': 'StructTyID'}


def kind_of(t, types):
    """kind of an abstract LLVM type term"""
    if t[0] == 'scalar':
        k = kind_of(t[1], types)
        return k[1:] if k and k[0] == 'v' and k != 'void' else k
    return types.get(t)


def model(sc, cls, name, o, ts):
    """the term an LLVM accessor yields, or None"""
    c = (cls or '').replace('llvm::', '', 1).split('<')[0]
    types = sc.get('types', {})
    get = sc.get('get', {})
    if (name, o) in get and not ts:
        return get[(name, o)]
    if (name, o) + tuple(ts) in get:
        return get[(name, o) + tuple(ts)]
    if name in get and not ts:
        return get[name]
    if name in ('getOperand', 'getArgOperand') and len(ts) == 1:
        return ('op', o, ts[0])
    if c == 'PHINode' and name == 'getIncomingValue':
        return ('op', o, ts[0])
    if (c, name) in OPERAND:
        return ('op', o, ('const', OPERAND[(c, name)]))
    if name in ('getReturnValue',) and o is not None:
        return ('op', o, ('const', 0))
    if c in ('BranchInst',) and name == 'getCondition':
        return ('op', o, ('const', 'cond'))
    if name == 'getType' and not ts:
        return ('type', o)
    if name == 'getScalarType' and not ts:
        return ('scalar', o) if kind_of(o, types) in (None, 'vint', 'vfp', 'vptr') else o
    if name == 'getElementType' and c == 'VectorType':
        return ('scalar', o)
    if name == 'getTypeID' and kind_of(o, types) in TYPEID:
        return ('enum', 'llvm::Type::' + TYPEID[kind_of(o, types)])
    if name in KINDS and o is not None:
        k = kind_of(o, types)
        if k is not None:
            return ('const', KINDS[name](k))
    if name in IDENT and not ts and c in IDENTCLS:
        return o
    if name.startswith('operator ') and c in IDENTCLS:
        return o
    return None


CASTS = ('dyn_cast', 'cast', 'isa', 'dyn_cast_or_null', 'cast_or_null', 'dyn_cast_if_present', 'cast_if_present',
         'isa_and_nonnull')


def hook(ip, sc, d, o, ts, s, fr, e):
    """models a call of an LLVM function; result as for Interp's hook"""
    name, cls = d.name, d.cls or ''
    if name in CASTS and d.ta:
        T = d.ta[0].replace('llvm::', '').replace('const ', '').strip(' *&')
        x = core(ts[0])
        isa = sc.get('isa', {})
        v = isa.get((T, x), isa.get(T, True))
        if callable(v):
            v = v(x)
        if name.startswith('isa'):
            return [(('const', v), s)]
        return [(x if v else ('null',), s)]
    co = core(o) if o is not None else None
    r = model(sc, cls, name, co, ts)
    if r is not None:
        return [(r, s)]
    if name == 'operator[]' and len(ts) == 1 and co is not None:
        return [(ip.index(co, ts[0]), s)]
    if name in ('operator==', 'operator!='):
        ab = ([co] if co is not None else []) + [core(t) for t in ts]
        if len(ab) == 2:
            if ab[0][0] == 'it' and ab[1][0] == 'it' and ab[0][1] == ab[1][1]:
                return [(('const', (ab[0][2] == ab[1][2]) == (name == 'operator==')), s)]
            ab = [x[2][0] if x[0] == 'ctor' and x[1] == 'llvm::StringRef' and x[2] else x for x in ab]
            if all(x[0] in ('str', 'const') for x in ab):
                return [(('const', (ab[0][1] == ab[1][1]) == (name == 'operator==')), s)]
        return None
    if name in ('operator->', 'operator*', 'operator++', 'operator--'):
        if name in ('operator++', 'operator--') and co is not None and co[0] == 'it':
            n = ('it', co[1], co[2] + (1 if name == 'operator++' else -1))
            if e[2] and e[2][0] == 'var':
                s = s.fork()
                s.env[ip.varkey(e[2], s, fr)] = n
                return [(co if ts else n, s)]
        if name in ('operator->', 'operator*') and co is not None and not ts:
            return [(deref(sc, co), s)]
        return None
    if name in ('begin', 'end', 'size', 'empty') and co is not None and co[0] == 'vec':
        n = len(co[1])
        return [({'begin': ('it', co, 0), 'end': ('it', co, n), 'size': ('const', n),
                  'empty': ('const', n == 0)}[name], s)]
    if co is not None:
        s = ip.emit('call', d, o, ts, e[4], s, fr, node=e)
        return [(('ll', name, co) + tuple(core(t) for t in ts), s)]
    return None


def deref(sc, t):
    """element an iterator term points to"""
    if t[0] != 'it':
        return t
    b, k = t[1], t[2]
    if b[0] == 'vec':
        return b[1][k] if 0 <= k < len(b[1]) else ('unk', 'past-the-end')
    return ('op', b, ('const', k))
