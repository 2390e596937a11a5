"""The graph operations of jlm::rvsdg as primitives over symbolic graphs.

A node is ('gnode', OP, operands, tag) with OP = ('ctor', class, arguments); an output is ('out', node, i) or an atom for a
region argument; an input is ('in', node, i). Functions that inspect and rewrite graphs are interpreted on these terms."""
from sa.engine import core, ground, subterms
from sa.facts import AnalysisBroken
from sa.report import *
from checks.backend import BRun, NS, RV, k, vec
from checks.frontend import add_trace, show

TRACERS = {NS + 'traceOutput', RV + 'traceOutput', RV + 'traceOutputIntraProcedurally'}
REGION = ('atom', 'region')


def op(cls, *args):
    return ('ctor', cls if '::' in cls else NS + cls, args)


def node(o, *operands, tag='old'):
    return ('gnode', o, operands, tag)


def out(n, i=0):
    return ('out', n, i)


def undyn(t):
    """a signature in which checked casts are left out"""
    if type(t) is not tuple or not t:
        return t
    if t[0] == 'dyn' and len(t) == 3:
        return undyn(t[2])
    if t[0] == 'phi':
        ls = {undyn(x) for x in t[1]}
        return ls.pop() if len(ls) == 1 else t
    return tuple(undyn(x) for x in t)


class GRun(BRun):
    """sc: types {output: type term}, users {output: count}, kinds {node: class of a structural node}"""
    FILES = ()
    sigs = {}

    def interp(self):
        ip = super().interp()
        ip.RECURSION = 4
        return ip

    def clsof(self, x):
        x = core(x)
        if x[0] == 'gnode':
            return self.sc.get('kinds', {}).get(x, RV + 'SimpleNode')
        if x[0] == 'out':
            return RV + 'NodeOutput'
        if x[0] == 'in':
            return RV + 'NodeInput'
        return super().clsof(x) or (RV + 'RegionArgument' if x in self.sc.get('types', {}) else None)

    def ctorfields(self, t):
        m = super().ctorfields(t)
        if m and any(x[0] == 'dyn' for v in m.values() for x in subterms(v)):
            m = self.built[t] = {x: undyn(v) for x, v in m.items()}
        return m

    def sig(self, o):
        """operand and result types of an operation"""
        if o not in GRun.sigs:
            env = self.build(o[1], o[2], o) if o[1] in self.P.classes else None
            if env is None:
                raise AnalysisBroken('unknown operation ' + show(o))
            a, r = env.get(('F', o, 'operands_')), env.get(('F', o, 'results_'))
            a, r = undyn(a), undyn(r)
            if a is None or r is None or a[0] != 'vec' or r[0] != 'vec':
                raise AnalysisBroken('signature of %s is not known: %s %s' % (show(o), a, r))
            GRun.sigs[o] = (a[1], r[1])
        return GRun.sigs[o]

    def type_of(self, x):
        if x[0] == 'in':
            return self.type_of(x[1][2][x[2]])
        if x in self.sc.get('types', {}):
            return self.sc['types'][x]
        if x[0] == 'out':
            return self.sig(x[1][1])[1][x[2]]
        return ('vtype', x)

    def graph(self, ip, d, o, ts, s, fr, e):
        q, name, cls = d.q, d.name, d.cls or ''
        x = core(ts[0]) if ts else None
        if q == RV + 'TryGetOwnerNode' and d.ta:
            if x[0] in ('out', 'in'):
                n = x[1]
                c, T = self.clsof(n), d.ta[0].strip()
                if T in self.P.classes:
                    return n if self.P.is_a(c, T) else ('null',)
                return None
            if x[0] == 'atom':
                return ('null',)
        if q in (RV + 'TryGetOwnerRegion',):
            if x[0] in ('out', 'in'):
                return ('null',)
            if x[0] == 'atom':
                return REGION
        if q == RV + 'is' and d.ta and x[0] in ('gnode', 'null'):
            if x[0] == 'null':
                return k(False)
            T = d.ta[0].strip()
            v = self.dynis(T, x[1])
            return k(bool(v)) if v is not None else None
        if q == RV + 'is' and d.ta and x[0] in ('ctor',) and x[1] in self.P.classes:
            v = self.dynis(d.ta[0].strip(), x)
            return k(bool(v)) if v is not None else None
        if q == RV + 'TryGetSimpleNodeAndOptionalOp' and d.ta and x[0] in ('out', 'in', 'atom'):
            n = x[1] if x[0] != 'atom' and self.P.is_a(self.clsof(x[1]), RV + 'SimpleNode') else ('null',)
            v = n[0] == 'gnode' and self.dynis(d.ta[0].strip(), n[1])
            return ('ctor', 'std::pair<>', (n, n[1] if v else ('null',)))
        if q in ('std::operator==', 'std::operator!=') and len(ts) == 2:
            a, b = core(ts[0]), core(ts[1])
            if a[0] == b[0] == 'vec' and all(map(ground, a[1] + b[1])):
                return k((a == b) == q.endswith('=='))
        if q == RV + 'outputs' and x[0] == 'gnode':
            return vec(*[out(x, i) for i in range(len(self.sig(x[1])[1]))])
        if q == RV + 'operands' and x[0] == 'gnode':
            return vec(*x[2])
        if q == RV + 'CreateOpNode' and d.ta:
            a = x if x[0] == 'vec' else vec()
            args = tuple(core(y) for y in ts[1:])
            return ('gnode', ('ctor', d.ta[0].strip(), args), tuple(core(y) for y in a[1]), 'new')
        if q == RV + 'IsOwnerNodeOperation' and d.ta and x[0] in ('out', 'in', 'atom'):
            return k(x[0] != 'atom' and bool(self.dynis(d.ta[0].strip(), x[1][1])))
        if q == NS + 'TracePointerOriginPrecise' and x in self.sc.get('origin', {}):
            base, off = self.sc['origin'][x]
            return ('rec', NS + 'TracedPointerOrigin', (('BasePointer', base), ('offset', k(off))))
        if o is not None and core(o)[0] == 'rec' and name == 'getOffsetInBytes':
            return dict(core(o)[2])['offset']
        if q in TRACERS and x[0] in ('out', 'atom'):
            self.sc.get('asked', set()).add(('trace', x))
            return self.sc.get('trace', {}).get(x, x)
        if name in ('operator==', 'operator!=') and (cls == RV + 'Type' or cls in self.P.classes and self.P.is_a(cls, RV + 'Type')):
            a, b = (core(o), x) if o is not None else (x, core(ts[1]))
            if all(y[0] == 'atom' or y[0] == 'ctor' for y in (a, b)):
                return k((a == b) == (name == 'operator=='))
        if cls == RV + 'SimpleNode' and name == 'Create' and len(ts) == 3:
            a = core(ts[2])
            if a[0] == 'ctor' and a[1].startswith('std::vector') and not a[2]:
                a = vec()
            if a[0] != 'vec':
                raise AnalysisBroken('%s:%d: operands of a new node are not known: %s' % (fr.func.q, fr.func.line, show(a)))
            return ('gnode', core(ts[1]), tuple(core(y) for y in a[1]), 'new')
        if o is None:
            return None
        co = core(o)
        if cls.startswith('std::optional<') and name in ('has_value', 'operator bool') and co[0] in ('gvar', 'const', 'vec', 'out', 'gnode', 'rec'):
            return k(not (co[0] == 'gvar' and co[1].endswith('nullopt')))
        if name == 'getMemoryNodeIds' and co[0] == 'ctor' and co[2]:
            return co[2][0]
        if co[0] == 'gnode':
            if name in ('output', 'input') and len(ts) == 1 and x[0] == 'const':
                return (name[:-3] if name == 'output' else 'in', co, x[1])
            if name == 'noutputs':
                return k(len(self.sig(co[1])[1]))
            if name == 'ninputs':
                return k(len(co[2]))
            if name in ('GetOperation', 'operation'):
                return co[1]
            if name == 'region':
                return REGION
        if co[0] in ('out', 'in', 'atom') and not ts:
            if name in ('Type', 'type'):
                return self.type_of(co)
            if name == 'region':
                return REGION
            if name == 'index' and co[0] != 'atom':
                return k(co[2])
            if name == 'origin' and co[0] == 'in':
                return co[1][2][co[2]]
            if name in ('nusers', 'IsDead', 'isDead') and co[0] in ('out', 'atom'):
                self.sc.get('asked', set()).add(('users', co))
                n = self.sc.get('users', {}).get(co, 1)
                return k(n if name == 'nusers' else n == 0)
        return None

    def truth(self, t, s):
        if t[0] == 'bin' and t[1] == '==' and ('null',) in t[2:] and any(x[0] in ('gnode', 'out', 'in') for x in t[2:]):
            return False
        if t[0] in ('gnode', 'out', 'in'):
            return True
        return super().truth(t, s)

    def hook(self, ip, d, o, ts, s, fr, e):
        r = self.graph(ip, d, o, ts, s, fr, e)
        if r is not None:
            return [(r, s)]
        if d.name == 'divert_users' and o is not None:
            return [(('void',), add_trace(s, ('divert', core(o), core(ts[0]))))]
        if o is not None and core(o)[0] == 'ctor' and d.name in ('nresults', 'narguments') and core(o)[1] in self.P.classes:
            return [(k(len(self.sig(core(o))[d.name == 'nresults'])), s)]
        return super().hook(ip, d, o, ts, s, fr, e)
