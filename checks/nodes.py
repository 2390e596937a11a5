"""nodes: the variables of structural nodes.  The functions that create, look up, remove and copy the entry, exit, loop,
context and recursion variables are interpreted over a port model: a node with a given number of inputs, outputs and
regions is a set of distinguishable ports with unknown origins, types and contents."""
from sa.engine import Interp, core, subterms, contains, alts, ground
from sa.facts import AnalysisBroken
from sa.scenario import trace, add_trace, TRACE

RV = 'jlm::rvsdg::'
HLS = 'jlm::hls::'
SN = RV + 'StructuralNode'
THIS = ('this',)
PAR = ('param',)


def port(kind, owner, i):
    return ('port', kind, owner, i)


def reg(node, k):
    return ('reg', node, k)


def origin(p):
    return ('atom', 'origin', p)


def ptype(p):
    return ('atom', 'type', p)


def pshow(t):
    if type(t) is not tuple or not t:
        return str(t)
    if t[0] == 'port':
        n = {'in': 'input', 'out': 'output', 'arg': 'argument', 'res': 'result'}[t[1]]
        if t[1] in ('arg', 'res'):
            return '%s %s of region %s of %s' % (n, pshow(t[3]), t[2][2], pshow(t[2][1]))
        return '%s %s of %s' % (n, pshow(t[3]), pshow(t[2]))
    if t[0] == 'n':
        return '#%d' % t[1]
    if t == THIS:
        return 'the original'
    if t[0] == 'node':
        return 'the copy'
    if t[0] == 'reg':
        return 'region %s of %s' % (t[2], pshow(t[1]))
    if t[0] == 'atom':
        return t[1] + '(' + ', '.join(pshow(x) for x in t[2:]) + ')'
    if t[0] == 'const':
        return str(t[1])
    if t[0] == 'vec':
        return '{' + ', '.join(pshow(x) for x in t[1]) + '}'
    if t[0] == 'rec':
        return '{' + ', '.join('%s=%s' % (f, pshow(v)) for f, v in t[2]) + '}'
    if t[0] == 'call':
        return t[1].rsplit('::', 1)[-1] + '(...)'
    return str(t[0])


class NRun:
    """counts: {'in': n, 'out': m, 'arg': [per region], 'res': [per region]} of the node under analysis;
    links: {port: structural port}; kinds: {port: class}"""

    def __init__(self, P, cls, counts, kinds=None, links=None, opaque=(), fargs=0, extra=None):
        self.P, self.cls, self.counts = P, cls, counts
        self.kinds = kinds or {}
        self.links = links or {}
        self.n = 0
        self.opq = set(opaque)
        self.fargs = fargs
        self.extra = extra
        self.dead = None

    # ---- port lists
    def base(self, owner, kind):
        if owner == THIS and kind in ('in', 'out'):
            return tuple(port(kind, owner, i) for i in range(self.counts[kind]))
        if owner[0] == 'reg' and owner[1] == THIS:
            return tuple(port(kind, owner, i) for i in range(self.counts[kind][owner[2]]))
        return ()

    def plist(self, s, owner, kind):
        v = s.env.get(('L', owner, kind))
        return v[1] if v is not None else self.base(owner, kind)

    def setlist(self, s, owner, kind, ports):
        s = s.fork()
        s.env[('L', owner, kind)] = ('vec', tuple(ports))
        return s

    def fresh(self):
        self.n += 1
        return ('n', self.n)

    def get(self, s, p, what, default):
        return s.env.get(('F', p, '#' + what), default)

    def put(self, s, p, what, v):
        s = s.fork()
        s.env[('F', p, '#' + what)] = v
        return s

    def origin(self, s, p):
        return self.get(s, p, 'origin', origin(p))

    def ptype(self, s, p):
        return self.get(s, p, 'type', ptype(p))

    def link(self, s, p):
        return self.get(s, p, 'link', self.links.get(p, ('null',)))

    def index(self, s, p):
        l = self.plist(s, p[2], p[1])
        return l.index(p) if p in l else None

    def nregions(self, s, node):
        if node == THIS:
            return len(self.counts['arg'])
        v = s.env.get(('F', node, 'subregions_'))
        return len(v[1]) if v is not None and v[0] == 'vec' else 0

    # ---- construction
    def ctorhook(self, ip, cls, ts, s, fr, decl, e):
        P = self.P
        if cls == RV + 'SubstitutionMap':
            return (('atom', 'smap', self.fresh()), s)
        if cls not in P.classes:
            return None
        if cls == RV + 'Region':
            if len(ts) == 2:
                node = core(ts[0])
                return (reg(node, ts[1][1] if ts[1][0] == 'const' else ts[1]), s)
            return None
        kind = None
        if P.is_a(cls, RV + 'StructuralInput') or P.is_a(cls, RV + 'NodeInput'):
            a, b = core(ts[0]), core(ts[1])
            if b == THIS or b[0] == 'node':
                a, b = b, a
            kind, owner, org, ty = 'in', a, b, core(ts[2])
            lk = ('null',)
        elif P.is_a(cls, RV + 'StructuralOutput') or P.is_a(cls, RV + 'NodeOutput'):
            kind, owner, org, ty = 'out', core(ts[0]), None, core(ts[1])
            lk = ('null',)
        elif cls == RV + 'RegionArgument':
            kind, owner, org, ty, lk = 'arg', core(ts[0]), None, core(ts[2]), core(ts[1])
        elif cls == RV + 'RegionResult':
            kind, owner, org, ty, lk = 'res', core(ts[0]), core(ts[1]), core(ts[3]), core(ts[2])
        elif P.is_a(cls, RV + 'RegionArgument') or P.is_a(cls, RV + 'RegionResult'):
            kind = 'arg' if P.is_a(cls, RV + 'RegionArgument') else 'res'
            # follow the constructor down to the base
            p = ('port', kind, ('unk', 'owner'), self.fresh())
            if decl is None:
                return None
            f = P.body_of(decl)
            if f is None:
                return None
            base = None
            exits = ip.inline(f, decl, p, ts, s, fr, e)
            for t, s1 in exits:
                own = s1.env.get(('F', p, '#owner'))
                if own is None:
                    return None
                q = ('port', kind, own, p[3])
                s1 = s1.fork()
                for k in list(s1.env):
                    if k[0] == 'F' and k[1] == p:
                        s1.env[('F', q, k[2])] = s1.env.pop(k)
                s1.env[('F', q, '#cls')] = ('str', cls)
                return (q, s1)
            return None
        elif P.is_a(cls, RV + 'Node') and not P.classes[cls].abstract or cls.endswith('Builder'):
            node = ('node', self.fresh(), cls)
            s = s.fork()
            for c, fl in P.all_fields(cls):
                if fl[1].startswith('std::vector<'):
                    s.env[('F', node, fl[0])] = ('vec', ())
            f = P.body_of(decl) if decl is not None else None
            if f is None:
                return None
            for t, s1 in ip.inline(f, decl, node, ts, s, fr, e):
                return (node, s1)
            return None
        elif P.is_a(cls, RV + 'Operation') and len(ts) == 1 and core(ts[0])[0] == 'atom':
            return (core(ts[0]), s)
        if kind is None:
            return None
        p = ('port', kind, owner, self.fresh())
        s = s.fork()
        if org is not None:
            s.env[('F', p, '#origin')] = org
        s.env[('F', p, '#type')] = ty
        s.env[('F', p, '#link')] = lk
        s.env[('F', p, '#cls')] = ('str', cls)
        return (p, s)

    def baseport(self, ev, s):
        """a base constructor of a port class runs on a derived port"""
        if ev.kind == 'baseinit' and ev.obj is not None and ev.obj[0] == 'port':
            if ev.q == RV + 'RegionArgument':
                o = ev.obj
                s = s.fork()
                s.env[('F', o, '#owner')], s.env[('F', o, '#link')] = core(ev.args[0]), core(ev.args[1])
                s.env[('F', o, '#type')] = core(ev.args[2])
                return s
            if ev.q == RV + 'RegionResult':
                o = ev.obj
                s = s.fork()
                s.env[('F', o, '#owner')], s.env[('F', o, '#origin')] = core(ev.args[0]), core(ev.args[1])
                s.env[('F', o, '#link')], s.env[('F', o, '#type')] = core(ev.args[2]), core(ev.args[3])
                return s
        return None

    # ---- primitives
    def hook(self, ip, d, o, ts, s, fr, e):
        name, cls, q = d.name, d.cls or '', d.q
        co = core(o) if o is not None else None
        cts = tuple(core(t) for t in ts)
        if self.extra is not None:
            r = self.extra(self, ip, d, co, cts, s, fr, e)
            if r is not None:
                return r
        if q in self.opq:
            s = add_trace(s, ('call', q, co, cts))
            return [(('call', q, co, cts, tuple(d.ta)), s)]
        if co is not None and co[0] == 'node' and co[2].endswith('Builder'):
            return None
        if co is not None and (co == THIS and not cls.startswith('std::') or co[0] == 'node') and \
                cls.startswith(('jlm::', HLS)):
            # a node
            if name in ('input', 'output') and len(ts) == 1:
                l = self.plist(s, co, 'in' if name == 'input' else 'out')
                return [(self.pick(l, ts[0]), s)]
            if name == 'ninputs':
                return [(('const', len(self.plist(s, co, 'in'))), s)]
            if name == 'noutputs':
                return [(('const', len(self.plist(s, co, 'out'))), s)]
            if name == 'Inputs' and not ts:
                return [(('vec', self.plist(s, co, 'in')), s)]
            if name == 'Outputs' and not ts:
                return [(('vec', self.plist(s, co, 'out')), s)]
            if name == 'nsubregions':
                return [(('const', self.nregions(s, co)), s)]
            if name == 'subregion':
                n = self.nregions(s, co)
                if not ts:
                    return [(reg(co, 0), s)]
                if ts[0][0] == 'const' and n is not None and ts[0][1] < n:
                    return [(reg(co, ts[0][1]), s)]
                return [(('unk', 'region'), s)]
            if name == 'Subregions':
                return [(('vec', tuple(reg(co, k) for k in range(self.nregions(s, co)))), s)]
            if name == 'region' and not ts:
                return [(('atom', 'region', co), s)]
            if name == 'graph' and not ts:
                return [(('atom', 'graph'), s)]
            if name in ('addInput', 'addOutput'):
                k = 'in' if name == 'addInput' else 'out'
                s = self.setlist(s, co, k, self.plist(s, co, k) + (cts[0],))
                return [(cts[0], s)]
            if name in ('RemoveInputs', 'RemoveOutputs', 'removeInput', 'removeOutput'):
                return self.remove(ip, s, co, 'in' if 'nput' in name else 'out', cts[0], name)
            if name == 'GetOperation':
                return [(('atom', 'op'), s)]
        if co is not None and co[0] == 'reg':
            if name in ('argument', 'result') and len(ts) == 1:
                return [(self.pick(self.plist(s, co, name[:3]), ts[0]), s)]
            if name in ('narguments', 'nresults'):
                return [(('const', len(self.plist(s, co, name[1:4]))), s)]
            if name in ('Arguments', 'Results'):
                return [(('vec', self.plist(s, co, name[:3].lower())), s)]
            if name == 'node':
                return [(co[1], s)]
            if name == 'index':
                return [(('const', co[2]), s)]
            if name == 'graph':
                return [(('atom', 'graph'), s)]
            if name in ('addArgument', 'addResult'):
                k = name[3:6].lower()
                s = self.setlist(s, co, k, self.plist(s, co, k) + (cts[0],))
                if cts[0][0] == 'port' and cts[0][2] != co:
                    s = add_trace(s, ('wrong', co, cts[0]))
                return [(cts[0], s)]
            if name == 'insertArgument':
                l = self.plist(s, co, 'arg')
                if cts[0][0] != 'const':
                    raise AnalysisBroken('insertArgument at an unknown index')
                s = self.setlist(s, co, 'arg', l[:cts[0][1]] + (cts[1],) + l[cts[0][1]:])
                return [(cts[1], s)]
            if name in ('RemoveArguments', 'RemoveResults'):
                return self.remove(ip, s, co, name[6:9].lower(), cts[0], name)
            if name == 'copy' and len(ts) == 2:
                s = add_trace(s, ('copy', co, cts[0], cts[1], s.env.get(('M', cts[1]), ('vec', ()))))
                return [(('void',), s)]
            if name == 'IsRootRegion':
                return [(('const', False), s)]
        if co is not None and co[0] in ('port', 'atom') and cls.startswith(RV) or \
                co is not None and co[0] == 'port':
            if name in ('Type', 'type') and not ts and (co[0] == 'port' or co[1] in ('origin', 'lookup', 'param')):
                return [(self.ptype(s, co), s)]
            if name == 'origin' and not ts and co[0] == 'port':
                return [(self.origin(s, co), s)]
            if name == 'index' and not ts and co[0] == 'port':
                i = self.index(s, co)
                return [(('const', i) if i is not None else ('unk', 'index'), s)]
            if name == 'divert_to' and co[0] == 'port':
                return [(('void',), self.put(s, co, 'origin', cts[0]))]
            if name == 'region' and not ts and co[0] == 'port':
                return [(co[2] if co[2][0] == 'reg' else ('atom', 'region', co[2]), s)]
            if name == 'region' and not ts and co[0] == 'atom':
                if co[1] == 'lookup':
                    for t in trace(s):
                        if t[0] == 'copy' and t[3] == co[2]:
                            return [(t[2], s)]
                return [(('atom', 'region', co), s)]
            if name in ('input', 'output') and not ts and co[0] == 'port' and co[1] in ('arg', 'res'):
                return [(self.link(s, co), s)]
            if name == 'node' and not ts and co[0] == 'port' and co[1] in ('in', 'out'):
                return [(co[2], s)]
            if name == 'nalternatives' or name == 'nregions':
                return [(('const', len(self.counts['arg'])), s)]
            if name == 'IsDead' and co[0] == 'port':
                return [(('const', self.dead is None or co in self.dead), s)]
            if name == 'nusers' and co[0] == 'port':
                return [(('const', 0 if self.dead is None or co in self.dead else 1), s)]
            if name in ('copy',) and not ts and co[0] == 'atom':
                return [(co, s)]
        if co == ('atom', 'op'):
            if name in ('Type', 'type'):
                return [(('atom', 'optype'), s)]
            if name == 'nalternatives':
                return [(('const', len(self.counts['arg'])), s)]
            if name in ('narguments', 'nresults') and self.cls == RV + 'SimpleNode':
                return [(('const', self.counts['in' if name[1] == 'a' else 'out']), s)]
            if name in ('argument', 'result') and self.cls == RV + 'SimpleNode':
                return [(('atom', 'op' + name) + cts, s)]
            if name == 'copy':
                return [(co, s)]
            if name in ('GetMatchContentType', 'ReferenceType'):
                return [(('atom', name) + cts, s)]
        if co == ('atom', 'optype'):
            if name in ('Arguments', 'Results'):
                n = self.fargs if name == 'Arguments' else self.counts['res'][0]
                return [(('vec', tuple(('atom', 'f' + name, i) for i in range(n))), s)]
            if name in ('NumArguments', 'NumResults'):
                return [(('const', self.fargs if name == 'NumArguments' else self.counts['res'][0]), s)]
            if name in ('ArgumentType', 'ResultType') and cts[0][0] == 'const':
                return [(('atom', 'fArguments' if name[0] == 'A' else 'fResults', cts[0][1]), s)]
        if co is not None and co[0] == 'field' and co[1][0] == 'port' and co[2] in ('arguments', 'results'):
            k = 'arg' if co[2] == 'arguments' else 'res'
            node = co[1][2]
            l = tuple(p for r in range(self.nregions(s, node)) for p in self.plist(s, reg(node, r), k)
                      if self.link(s, p) == co[1])
            if name in ('begin', 'cbegin'):
                return [(('it', ('vec', l), 0), s)]
            if name in ('end', 'cend'):
                return [(('it', ('vec', l), len(l)), s)]
            if name == 'first':
                return [(l[0] if l else ('null',), s)]
            if name == 'last':
                return [(l[-1] if l else ('null',), s)]
            if name == 'empty':
                return [(('const', not l), s)]
            if name == 'size':
                return [(('const', len(l)), s)]
        if co is not None and co[0] == 'it' and name in ('ptr', 'operator*', 'operator->') and not ts:
            if 0 <= co[2] < len(co[1][1]):
                return [(co[1][1][co[2]], s)]
            return [(('unk', 'past-the-end'), s)]
        if co is not None and co[0] == 'it' and name == 'operator++':
            r = ip.assign(e[2], ('it', co[1], co[2] + 1), '=', s, fr, e[4])
            return [(co if ts else ('it', co[1], co[2] + 1), x) for _, x in r]
        if cls == RV + 'SubstitutionMap' and co is not None:
            key = ('M', co)
            m = s.env.get(key, ('vec', ()))[1]
            if name == 'insert' and len(ts) == 2:
                s = s.fork()
                s.env[key] = ('vec', tuple(x for x in m if x[0] != cts[0]) + ((cts[0], cts[1]),))
                return [(('void',), s)]
            if name in ('lookup', 'contains') and len(ts) == 1:
                for a, b in m:
                    if a == cts[0]:
                        return [(b if name == 'lookup' else ('const', True), s)]
                ver = sum(1 for t in trace(s) if t[0] == 'copy' and t[3] == co)
                return [(('atom', 'lookup', co, cts[0], ver), s)]
        if q.endswith('TryGetOwnerNode') or q.endswith('AssertGetOwnerNode') or q.endswith('TryGetRegionParentNode'):
            p = cts[0]
            if p[0] == 'port':
                n = p[2][1] if p[2][0] == 'reg' else p[2]
                own = p[1] in ('in', 'out')
                if own != q.endswith('OwnerNode'):
                    return [(('null',), s)]
                return [(n, s)]
        if q.endswith('TryGetOwnerRegion') and cts[0][0] == 'port':
            p = cts[0]
            return [(p[2] if p[2][0] == 'reg' else ('null',), s)]
        if q.endswith('ControlConstantOperation::createFalse') or q.endswith('ControlConstantOperation::create'):
            return [(('atom', 'constant', cts), s)]
        if name == 'notifyNodeCreate' or name == 'notifyNodeDestroy':
            return [(('void',), s)]
        return None

    def remove(self, ip, s, owner, kind, arg, name):
        l = self.plist(s, owner, kind)
        idx = None
        if arg[0] == 'const':
            idx = {arg[1]}
        elif arg[0] == 'ctor':
            items = arg[2]
            if items and items[0][0] == 'vec':
                items = items[0][1]
            if all(x[0] == 'const' for x in items):
                idx = {x[1] for x in items}
        elif arg[0] == 'vec' and all(x[0] == 'const' for x in arg[1]):
            idx = {x[1] for x in arg[1]}
        if idx is None:
            raise AnalysisBroken('%s with unknown indices %s' % (name, arg))
        s = self.setlist(s, owner, kind, [p for i, p in enumerate(l) if i not in idx])
        return [(('const', len([i for i in idx if i < len(l)])), s)]

    def pick(self, l, i):
        if i[0] == 'const' and type(i[1]) is int and 0 <= i[1] < len(l):
            return l[i[1]]
        return ('unk', 'no-such-port')

    def clsof(self, s, p):
        v = s.env.get(('F', p, '#cls'))
        if v is not None:
            return v[1]
        return self.kinds.get(p)

    def truth(self, t, s):
        if t[0] == 'dyn' and core(t)[0] == 'port':
            c = self.clsof(s, core(t))
            if c is not None and c in self.P.classes:
                for T in (t[1], RV + t[1], HLS + t[1]):
                    if T in self.P.classes:
                        return self.P.is_a(c, T)
        if t[0] in ('port', 'node', 'reg', 'it', 'rec', 'this'):
            return True
        if t[0] == 'gvar' and t[1] == 'std::nullopt':
            return False
        if t[0] == 'ctor' and t[1].startswith('std::optional<'):
            return bool(t[2]) and self.truth(t[2][0], s) is not False
        if t[0] == 'bin' and t[1] == '==':
            a, b = core(t[2]), core(t[3])
            if a == THIS and b[0] in ('node', 'null') or b == THIS and a[0] in ('node', 'null'):
                return False
            if a == b == THIS:
                return True
            if ground(a) and ground(b) and a[0] in ('port', 'reg') and b[0] in ('port', 'reg', 'null'):
                return a == b
            if a[0] == 'null' and ground(b) and b[0] in ('port', 'reg'):
                return False
        return None

    def run(self, f, args=None, this=THIS, env=None):
        ip = Interp(self.P, hook=self.hook, unroll=8, recs=True, ctorhook=self.ctorhook, truth_hook=self.truth,
                    on_event=self.baseport, dyn=self.dyn, truthy=('port', 'node', 'reg'),
                    inline=lambda d, g, fr, o: True if d.q.startswith('jlm::') else None)
        ip.MAXDEPTH = 14
        self.ip = ip
        return ip.run(f, args=args, this=this, env=env)

    def dyn(self, decl, o):
        c = self.cls if core(o) == THIS else core(o)[2] if core(o)[0] == 'node' else None
        if c:
            m = self.P.find_method(c, decl.name, count(decl))
            if m:
                return m[1]
        return None


def count(decl):
    from sa.facts import count_params
    return count_params(decl.sig)


# ---------------------------------------------------------------------------------------------- layouts
# The ports that belong to one variable, per node kind: the structure the class comments describe.
def layout(cls, z):
    """z: sizes; returns (counts, links, kinds, fields, fargs)"""
    T, r0 = THIS, reg(THIS, 0)
    links, kinds, fields, fargs = {}, {}, {}, 0
    if cls == RV + 'GammaNode':
        K, E, X = z
        c = {'in': 1 + E, 'out': X, 'arg': [1 + E] * K, 'res': [X] * K}
        for k in range(K):
            for i in range(E):
                links[port('arg', reg(T, k), i + 1)] = port('in', T, i + 1)
            for i in range(X):
                links[port('res', reg(T, k), i)] = port('out', T, i)
    elif cls == RV + 'ThetaNode':
        L, = z
        c = {'in': L, 'out': L, 'arg': [L], 'res': [L + 1]}
        for i in range(L):
            links[port('arg', r0, i)] = port('in', T, i)
            links[port('res', r0, i + 1)] = port('out', T, i)
    elif cls == RV + 'LambdaNode':
        fargs, X, R = z
        c = {'in': X, 'out': 1, 'arg': [fargs + X], 'res': [R]}
        for i in range(X):
            links[port('arg', r0, fargs + i)] = port('in', T, i)
    elif cls == RV + 'PhiNode':
        X, F = z
        c = {'in': X, 'out': F, 'arg': [F + X], 'res': [F]}
        for i in range(X):
            links[port('arg', r0, F + i)] = port('in', T, i)
        for i in range(F):
            links[port('res', r0, i)] = port('out', T, i)
    elif cls == RV + 'DeltaNode':
        X, = z
        c = {'in': X, 'out': 1, 'arg': [X], 'res': [1]}
        for i in range(X):
            links[port('arg', r0, i)] = port('in', T, i)
    elif cls == HLS + 'LoopNode':
        E, B, X = z       # entry arguments and backedges alternate
        a, order = 0, []
        for i in range(max(E, B)):
            if i < E:
                order.append(('e', i))
            if i < B:
                order.append(('b', i))
        c = {'in': E, 'out': X, 'arg': [E + B], 'res': [B + X]}
        for a, (t, i) in enumerate(order):
            p = port('arg', r0, a)
            kinds[p] = HLS + ('EntryArgument' if t == 'e' else 'BackEdgeArgument')
            if t == 'e':
                links[p] = port('in', T, i)
            else:
                q = port('res', r0, X + i)
                fields[(p, 'result_')] = q
                fields[(q, 'argument_')] = p
                kinds[q] = HLS + 'BackEdgeResult'
        for i in range(X):
            q = port('res', r0, i)
            kinds[q] = HLS + 'ExitResult'
            links[q] = port('out', T, i)
    else:
        return None
    return c, links, kinds, fields, fargs


SIZES = {
    RV + 'GammaNode': [(2, 0, 0), (2, 1, 1), (2, 2, 3), (3, 3, 2), (1, 1, 1)],
    RV + 'ThetaNode': [(0,), (1,), (2,), (3,)],
    RV + 'LambdaNode': [(0, 0, 0), (1, 1, 1), (2, 3, 2), (3, 2, 3)],
    RV + 'PhiNode': [(0, 1), (1, 1), (2, 3), (3, 2)],
    RV + 'DeltaNode': [(0,), (1,), (3,)],
    HLS + 'LoopNode': [(0, 1, 0), (1, 1, 1), (2, 3, 2), (3, 2, 3)],
}


def make(P, cls, z, **kw):
    c, links, kinds, fields, fargs = layout(cls, z)
    R = NRun(P, cls, c, kinds=kinds, links=links, fargs=fargs, **kw)
    env = {('F', p, f): v for (p, f), v in fields.items()}
    return R, env


def copies(P, rep):
    """every copy function of a structural node rebuilds all ports of the node"""
    for cls in P.subclasses(SN):
        if P.classes[cls].abstract:
            continue
        own = [m[0] for m in P.classes[cls].methods if m[1] == 'copy' and 'SubstitutionMap' in m[0].sig]
        if not own:
            continue
        if cls not in SIZES:
            rep.violation('copy/known-node', cls, P.classes[cls].file, P.classes[cls].line,
                          'structural node %s is not known to the checker' % cls)
            continue
        f = P.body_of(own[0])
        if f is None:
            raise AnalysisBroken('no body for %s' % own[0])
        for z in SIZES[cls]:
            R, env = make(P, cls, z)
            S = ('atom', 'smap', 'S')
            exits = R.run(f, args=[('atom', 'region', 'parent'), S], env=env)
            inst = '%s %s' % (cls.rsplit('::', 1)[-1], '/'.join(str(x) for x in z))
            bad = None
            n = 0
            for k, t, s in exits:
                if k == 'throw':
                    continue
                n += 1
                bad = bad or copied(P, R, cls, t, s, S)
            if not n:
                bad = 'it never returns a copy'
            if bad:
                rep.violation('copy/ports', inst, f.file, f.line, '%s (%s): %s' % (f.q, inst, bad))
            else:
                rep.site('copy/ports', inst)


def copied(P, R, cls, t, s, S):
    t = core(t) if t is not None else ('void',)
    if t[0] != 'node' or t[2] != cls:
        return 'returns %s instead of a new %s' % (pshow(t), cls)
    nk = R.nregions(s, t)
    if nk != len(R.counts['arg']):
        return 'the copy has %s regions instead of %d' % (nk, len(R.counts['arg']))
    tr = trace(s)
    for x in tr:
        if x[0] == 'wrong':
            return '%s is added to %s' % (pshow(x[2]), pshow(x[1]))
    N = {}       # old port -> new port
    for kind in ('in', 'out'):
        old, new = R.base(THIS, kind), R.plist(s, t, kind)
        if R.plist(s, THIS, kind) != old:
            return 'the original loses or gains %sputs' % kind
        if len(old) != len(new):
            return 'the copy has %d %sputs instead of %d' % (len(new), kind, len(old))
        N.update(zip(old, new))
    for i, p in enumerate(R.base(THIS, 'in')):
        o = R.origin(s, N[p])
        want = ('atom', 'lookup', S, origin(p), 0)
        if o != want:
            return 'input %d of the copy is connected to %s instead of the substitute of the origin of input %d ' \
                   'of the original' % (i, pshow(o), i)
        if R.origin(s, p) != origin(p):
            return 'input %d of the original is diverted' % i
    m = dict(s.env.get(('M', S), ('vec', ()))[1])
    for p in R.base(THIS, 'out'):
        if m.get(p) != N[p]:
            return '%s is mapped to %s' % (pshow(p), pshow(m[p]) if p in m else 'nothing')
    for k in range(nk):
        ro, rn = reg(THIS, k), reg(t, k)
        cs = [x for x in tr if x[0] == 'copy' and (x[1] == ro or x[2] == rn)]
        if len(cs) != 1 or cs[0][1] != ro or cs[0][2] != rn:
            return 'region %d is not copied exactly once into region %d of the copy' % (k, k)
        mp, snap = cs[0][3], dict(cs[0][4][1])
        oa, na = R.base(ro, 'arg'), R.plist(s, rn, 'arg')
        if R.plist(s, ro, 'arg') != oa:
            return 'the original loses or gains arguments'
        if len(oa) != len(na):
            return 'region %d of the copy has %d arguments instead of %d' % (k, len(na), len(oa))
        for i, p in enumerate(oa):
            q = snap.get(p)
            if q is None:
                return '%s is not mapped when region %d is copied' % (pshow(p), k)
            if q not in na:
                return '%s is mapped to %s' % (pshow(p), pshow(q))
            if cls != HLS + 'LoopNode' and na[i] != q:
                return '%s is mapped to %s' % (pshow(p), pshow(('port', 'arg', rn, na.index(q))))
            if p in R.kinds and R.clsof(s, q) != R.kinds[p]:
                return '%s is mapped to a %s' % (pshow(p), R.clsof(s, q))
            l0 = R.links.get(p, ('null',))
            if R.link(s, q) != N.get(l0, l0):
                return 'the copy of %s belongs to %s instead of the copy of %s' % (pshow(p), pshow(R.link(s, q)),
                                                                                  pshow(l0))
            N[p] = q
        if len({N[p] for p in oa}) != len(oa):
            return 'two arguments of region %d share one copy' % k
        orr, nr = R.base(ro, 'res'), R.plist(s, rn, 'res')
        if len(orr) != len(nr):
            return 'region %d of the copy has %d results instead of %d' % (k, len(nr), len(orr))
        for j, p in enumerate(orr):
            if cls == HLS + 'LoopNode':
                q = None
                for x in nr:
                    if R.kinds[p] == HLS + 'ExitResult' and R.link(s, x) == N.get(R.links.get(p)) or \
                            R.kinds[p] == HLS + 'BackEdgeResult' and \
                            s.env.get(('F', N[s.env[('F', p, 'argument_')]], 'result_')) == x:
                        q = x
                if q is None:
                    return '%s has no counterpart in the copy' % pshow(p)
            else:
                q = nr[j]
            o = R.origin(s, q)
            ok = o[0] == 'atom' and o[1] == 'lookup' and o[2] == mp and o[3] == origin(p) and o[4] >= 1
            if not ok:
                return 'the copy of %s is connected to %s instead of the substitute of its origin' % (
                    pshow(p), pshow(o))
            if R.origin(s, p) != origin(p):
                return '%s is diverted' % pshow(p)
            l0 = R.links.get(p, ('null',))
            if R.link(s, q) != N.get(l0, l0):
                return 'the copy of %s belongs to %s instead of the copy of %s' % (pshow(p), pshow(R.link(s, q)),
                                                                                  pshow(l0))
    if cls == HLS + 'LoopNode':
        v = s.env.get(('F', t, 'PredicateBuffer_'))
        ok = v is not None and v[0] == 'atom' and v[1] == 'lookup' and v[2] == S and \
            v[3] == ('field', THIS, 'PredicateBuffer_') and v[4] >= 1
        if not ok:
            return 'the predicate buffer of the copy is %s' % (pshow(v) if v else 'not set')
    return None


def simple(P, rep):
    """SimpleNode::copy, Graph::Copy and Region::copy"""
    cls = RV + 'SimpleNode'
    f = [g for g in P.fn(cls + '::copy', 2) if 'SubstitutionMap' in g.sig][0]
    for nin, nout in ((0, 1), (1, 1), (2, 3), (3, 2)):
        R = NRun(P, cls, {'in': nin, 'out': nout, 'arg': [], 'res': []})
        S = ('atom', 'smap', 'S')
        exits = [x for x in R.run(f, args=[('atom', 'region', 'parent'), S]) if x[0] != 'throw']
        bad = None if exits else 'it never returns a copy'
        for k, t, s in exits:
            bad = bad or copied(P, R, cls, t, s, S)
        inst = 'SimpleNode %d/%d' % (nin, nout)
        if bad:
            rep.violation('copy/ports', inst, f.file, f.line, '%s (%s): %s' % (f.q, inst, bad))
        else:
            rep.site('copy/ports', inst)
    # Graph
    f = P.fn(RV + 'Graph::Copy')
    for na, nr in ((0, 0), (1, 2), (3, 3)):
        made = {}

        def extra(R, ip, d, o, ts, s, fr, e):
            if d.name == 'GetRootRegion':
                return [(reg(THIS, 0) if o == THIS else reg(o, 0), s)]
            if d.name == 'Copy' and o is not None and o[0] == 'port':
                kind = o[1]
                owner = ts[0] if kind == 'arg' else reg(R.graph, 0)
                p = port(kind, owner, R.fresh())
                s = R.put(s, p, 'copyof', o)
                if kind == 'res':
                    s = R.put(s, p, 'origin', ts[0])
                s = R.setlist(s, owner, kind, R.plist(s, owner, kind) + (p,))
                return [(p, s)]
            return None
        R = NRun(P, RV + 'Graph', {'in': 0, 'out': 0, 'arg': [na], 'res': [nr]}, extra=extra)
        R.graph = ('node', ('n', 0), RV + 'Graph')
        old = R.ctorhook
        R.ctorhook = lambda ip, c, ts, s, fr, d, e: (R.graph, s) if c == RV + 'Graph' and not ts \
            else old(ip, c, ts, s, fr, d, e)
        exits = [x for x in R.run(f) if x[0] != 'throw']
        bad = None if exits else 'it never returns a copy'
        for k, t, s in exits:
            ro, rn = reg(THIS, 0), reg(R.graph, 0)
            cs = [x for x in trace(s) if x[0] == 'copy']
            oa, nw = R.base(ro, 'arg'), R.plist(s, rn, 'arg')
            orr, nres = R.base(ro, 'res'), R.plist(s, rn, 'res')
            if core(t) != R.graph:
                bad = bad or 'it does not return the new graph'
            elif len(cs) != 1 or cs[0][1:3] != (ro, rn):
                bad = bad or 'the root region is not copied exactly once into the new graph'
            elif [s.env.get(('F', p, '#copyof')) for p in nw] != list(oa):
                bad = bad or 'the imports of the copy are not the copies of the imports, in order'
            elif [dict(cs[0][4][1]).get(p) for p in oa] != list(nw):
                bad = bad or 'the imports are not mapped to their copies when the root region is copied'
            elif [s.env.get(('F', p, '#copyof')) for p in nres] != list(orr):
                bad = bad or 'the exports of the copy are not the copies of the exports, in order'
            else:
                for p, q in zip(orr, nres):
                    o = R.origin(s, q)
                    if not (o[0] == 'atom' and o[1] == 'lookup' and o[2] == cs[0][3] and o[3] == origin(p) and o[4]):
                        bad = bad or 'the copy of an export is connected to %s' % pshow(o)
        inst = 'Graph %d/%d' % (na, nr)
        if bad:
            rep.violation('copy/ports', inst, f.file, f.line, '%s (%s): %s' % (f.q, inst, bad))
        else:
            rep.site('copy/ports', inst)
    # Region
    f = P.fn(RV + 'Region::copy')
    I = Interp(P, min_one=True, inline=lambda d, g, fr, o: None if d.cls == RV + 'Region' else False)
    exits = I.run(f)
    target, smap = [('param', p[1] or '#%d' % i, i) for i, p in enumerate(f.params)]
    cp = [e for e in I.events if e.kind == 'call' and e.name == 'copy' and e.decl.cls and
          P.is_a(e.decl.cls, RV + 'Node')]
    ok = len(cp) == 1 and cp[0].loops == 1 and not cp[0].facts and tuple(core(a) for a in cp[0].args) == (target, smap)
    if ok:
        o = core(cp[0].obj)
        ok = o[0] == 'index' and contains(o[1], lambda x: x[0] == 'ctor' and 'TopDown' in x[1] and THIS in x[2])
    if ok:
        rep.site('copy/ports', 'Region')
    else:
        rep.violation('copy/ports', 'Region', f.file, f.line,
                      'Region::copy does not copy every node, in top-down order, into the target with the given map')


# ---------------------------------------------------------------------------------------------- variables
def variables(P, rep):
    """the variable accessors of the structural nodes agree with the port layout of the node"""
    T, r0 = THIS, reg(THIS, 0)

    def at(kind, i, k=0):
        return port(kind, T, i) if kind in ('in', 'out') else port(kind, reg(T, k), i)

    def expect(cls, z):
        """{(method, args): result as records {field: port(s)}}"""
        X = {}
        if cls == RV + 'GammaNode':
            K, E, O = z
            mv = {'input': at('in', 0), 'matchContent': tuple(at('arg', 0, k) for k in range(K))}
            evs = [{'input': at('in', i + 1), 'branchArgument': tuple(at('arg', i + 1, k) for k in range(K))}
                   for i in range(E)]
            xvs = [{'branchResult': tuple(at('res', i, k) for k in range(K)), 'output': at('out', i)}
                   for i in range(O)]
            X[('GetMatchVar',)] = mv
            X[('GetEntryVars',)] = evs
            X[('GetExitVars',)] = xvs
            X[('predicate',)] = at('in', 0)
            X[('MapInput', at('in', 0))] = mv
            for i in range(E):
                X[('GetEntryVar', ('const', i))] = evs[i]
                X[('MapInput', at('in', i + 1))] = evs[i]
                for k in range(K):
                    X[('MapBranchArgument', at('arg', i + 1, k))] = evs[i]
                    X[('mapBranchArgumentToInput', at('arg', i + 1, k))] = at('in', i + 1)
            for k in range(K):
                X[('MapBranchArgument', at('arg', 0, k))] = mv
            for i in range(O):
                X[('MapOutputExitVar', at('out', i))] = xvs[i]
                for k in range(K):
                    X[('MapBranchResultExitVar', at('res', i, k))] = xvs[i]
                    X[('mapBranchResultToOutput', at('res', i, k))] = at('out', i)
        elif cls == RV + 'ThetaNode':
            L, = z
            lvs = [{'input': at('in', i), 'pre': at('arg', i), 'post': at('res', i + 1), 'output': at('out', i)}
                   for i in range(L)]
            X[('GetLoopVars',)] = lvs
            X[('predicate',)] = at('res', 0)
            X[('MapPostLoopVar', at('res', 0))] = 'throws'
            for i in range(L):
                X[('MapInputLoopVar', at('in', i))] = lvs[i]
                X[('MapPreLoopVar', at('arg', i))] = lvs[i]
                X[('MapPostLoopVar', at('res', i + 1))] = lvs[i]
                X[('MapOutputLoopVar', at('out', i))] = lvs[i]
        elif cls == RV + 'LambdaNode':
            A, C, R = z
            cvs = [{'input': at('in', i), 'inner': at('arg', A + i)} for i in range(C)]
            X[('GetContextVars',)] = cvs
            X[('GetFunctionArguments',)] = tuple(at('arg', i) for i in range(A))
            X[('GetFunctionResults',)] = tuple(at('res', i) for i in range(R))
            X[('output',)] = at('out', 0)
            for i in range(C):
                X[('MapInputContextVar', at('in', i))] = cvs[i]
                X[('MapBinderContextVar', at('arg', A + i))] = cvs[i]
            for i in range(A):
                X[('MapBinderContextVar', at('arg', i))] = None
        elif cls == RV + 'PhiNode':
            C, F = z
            cvs = [{'input': at('in', i), 'inner': at('arg', F + i)} for i in range(C)]
            fvs = [{'recref': at('arg', i), 'result': at('res', i), 'output': at('out', i)} for i in range(F)]
            X[('GetContextVars',)] = cvs
            X[('GetFixVars',)] = fvs
            for i in range(C):
                X[('MapInputContextVar', at('in', i))] = cvs[i]
                X[('MapArgumentContextVar', at('arg', F + i))] = cvs[i]
                X[('MapArgumentFixVar', at('arg', F + i))] = None
                X[('MapArgument', at('arg', F + i))] = cvs[i]
            for i in range(F):
                X[('MapArgumentFixVar', at('arg', i))] = fvs[i]
                X[('MapArgumentContextVar', at('arg', i))] = None
                X[('MapArgument', at('arg', i))] = fvs[i]
                X[('MapResultFixVar', at('res', i))] = fvs[i]
                X[('MapOutputFixVar', at('out', i))] = fvs[i]
        elif cls == RV + 'DeltaNode':
            C, = z
            cvs = [{'input': at('in', i), 'inner': at('arg', i)} for i in range(C)]
            X[('GetContextVars',)] = cvs
            X[('output',)] = at('out', 0)
            X[('result',)] = at('res', 0)
            for i in range(C):
                X[('MapInputContextVar', at('in', i))] = cvs[i]
                X[('MapBinderContextVar', at('arg', i))] = cvs[i]
        return X

    for cls, sizes in SIZES.items():
        if cls == HLS + 'LoopNode':
            continue
        C = P.classes.get(cls)
        if C is None:
            raise AnalysisBroken('class %s not found' % cls)
        done = set()
        for z in sizes:
            for key, want in expect(cls, z).items():
                name, args = key[0], list(key[1:])
                ms = [m[0] for m in C.methods if m[1] == name]
                if not ms:
                    raise AnalysisBroken('%s::%s not found' % (cls, name))
                done.add(name)
                for m in ms:
                    f = P.body_of(m)
                    if f is None:
                        raise AnalysisBroken('no body of %s' % m)
                    R, env = make(P, cls, z)
                    got = [(k, t) for k, t, s in R.run(f, args=args, env=env)]
                    inst = '%s::%s(%s) %s' % (cls.rsplit('::', 1)[-1], name, ', '.join(pshow(a) for a in args),
                                             '/'.join(map(str, z)))
                    if want == 'throws':
                        ok = all(k == 'throw' for k, t in got)
                    else:
                        rets = [t for k, t in got if k != 'throw']
                        ok = bool(rets) and all(agrees(t, want) for t in rets)
                    if ok:
                        rep.site('node/lookup', inst)
                    else:
                        rep.violation('node/lookup', inst, f.file, f.line, '%s returns %s for a node whose ports form %s'
                                      % (inst, ' / '.join(pshow(unvar(t)) if t else 'nothing' for k, t in got),
                                         wshow(want)))
        # every accessor of this kind is covered
        for m in C.methods:
            if m[1].startswith(('Get', 'Map', 'map')) and m[1] not in done and m[1] not in ('GetOperation',) and \
                    m[1] != 'MapArgument':
                f = P.body_of(m[0])
                rep.violation('node/known', '%s::%s' % (cls, m[1]), C.file, C.line,
                              '%s::%s is not known to the checker' % (cls, m[1]))
    additions(P, rep)
    removals(P, rep)


def unvar(t):
    t = core(t)
    while t[0] == 'ctor' and t[1].startswith(('std::variant<', 'std::optional<', 'std::_Optional')) and len(t[2]) == 1:
        t = core(t[2][0])
    return t


def agrees(t, want):
    if want is None:
        t = unvar(t)
        return t[0] == 'null' or t == ('gvar', 'std::nullopt') or \
            t[0] == 'ctor' and t[1].startswith('std::optional<') and not t[2]
    t = unvar(t)
    if isinstance(want, dict):
        return t[0] == 'rec' and {f for f, _ in t[2]} == set(want) and all(agrees(v, want[f]) for f, v in t[2])
    if isinstance(want, list) or isinstance(want, tuple) and (not want or want[0] != 'port'):
        return t[0] == 'vec' and len(t[1]) == len(want) and all(agrees(a, b) for a, b in zip(t[1], want))
    return t == want


def wshow(w):
    if w is None:
        return 'no variable'
    if isinstance(w, dict):
        return '{' + ', '.join('%s=%s' % (k, wshow(v)) for k, v in w.items()) + '}'
    if isinstance(w, list) or isinstance(w, tuple) and (not w or w[0] != 'port'):
        return '{' + ', '.join(wshow(x) for x in w) + '}'
    return w if isinstance(w, str) else pshow(w)


def additions(P, rep):
    """adding a variable creates its ports, in the right regions, connected and typed, and returns them"""
    T = THIS

    def A(i):
        return ('atom', 'param', i)

    for cls, name, mk in ADDS:
        for z in SIZES[cls]:
            ocls = cls
            if '::' in name:
                ocls, name2 = name.rsplit('::', 1)
            else:
                name2 = name
            ms = [m[0] for m in P.classes[ocls].methods if m[1] == name2]
            if not ms:
                raise AnalysisBroken('%s::%s not found' % (ocls, name2))
            f = P.body_of(ms[0])
            R, env = make(P, cls, z)
            if cls == RV + 'LambdaNode' and name2 == 'finalize' or cls == RV + 'DeltaNode' and name2 == 'finalize':
                R.counts = dict(R.counts, out=0, res=[0])
            args, check = mk(R, z)
            this = THIS
            if ocls.endswith('Builder'):
                this = ('node', ('n', 0), ocls)
                env[('F', this, 'node_')] = THIS
            exits = [x for x in R.run(f, args=args, this=this, env=env)]
            inst = '%s::%s %s' % (ocls.rsplit('::', 1)[-1], name2, '/'.join(map(str, z)))
            live = [x for x in exits if x[0] != 'throw']
            bad = None if live else 'it never succeeds'
            for k, t, s in live:
                for x in trace(s):
                    if x[0] == 'wrong':
                        bad = bad or '%s is added to %s' % (pshow(x[2]), pshow(x[1]))
                bad = bad or check(R, s, t)
            if bad:
                rep.violation('node/add', inst, f.file, f.line, '%s: %s' % (inst, bad))
            else:
                rep.site('node/add', inst)


def grown(R, s, want):
    """want: {(kind, owner): [position of each new port]}; returns (error, {(kind, owner): new ports})"""
    out = {}
    owners = [('in', THIS), ('out', THIS)] + [(k, reg(THIS, i)) for i in range(len(R.counts['arg']))
                                              for k in ('arg', 'res')]
    for kind, owner in owners:
        old, new = list(R.base(owner, kind)), list(R.plist(s, owner, kind))
        pos = want.get((kind, owner), [])
        fresh = [p for p in new if p not in old]
        if [p for p in new if p in old] != old:
            return 'the existing %ss of %s are reordered or lost' % (kind, pshow(owner)), None
        if [new.index(p) for p in fresh] != pos:
            return '%s gains %ss at positions %s instead of %s' % (
                pshow(owner), kind, [new.index(p) for p in fresh], pos), None
        for p in fresh:
            if p[1] != kind or p[2] != owner:
                return '%s is registered as %s of %s' % (pshow(p), kind, pshow(owner)), None
        out[(kind, owner)] = fresh
    return None, out


def portis(R, s, p, what, org=None, ty=None, link=None):
    if org is not None and R.origin(s, p) != org:
        return '%s is connected to %s instead of %s' % (what, pshow(R.origin(s, p)), pshow(org))
    if ty is not None:
        t = R.ptype(s, p)
        for _ in range(4):      # the type of a port is the type of the value that feeds it
            if t[0] == 'atom' and t[1] == 'type' and t[2][0] == 'port':
                t = R.ptype(s, t[2])
        if t != ty:
            return '%s has type %s instead of %s' % (what, pshow(t), pshow(ty))
    if link is not None and R.link(s, p) != link:
        return '%s belongs to %s instead of %s' % (what, pshow(R.link(s, p)), pshow(link))
    return None


def PA(i):
    return ('atom', 'param', i)


def add_gamma_entry(R, z):
    K, E, X = z

    def check(R, s, t):
        w = {('in', THIS): [E + 1]}
        for k in range(K):
            w[('arg', reg(THIS, k))] = [E + 1]
        bad, n = grown(R, s, w)
        if bad:
            return bad
        i = n[('in', THIS)][0]
        a = [n[('arg', reg(THIS, k))][0] for k in range(K)]
        bad = portis(R, s, i, 'the new input', PA(0), ptype(PA(0)))
        for k in range(K):
            bad = bad or portis(R, s, a[k], 'the argument of region %d' % k, None, ptype(PA(0)), i)
        if not bad and not agrees(t, {'input': i, 'branchArgument': tuple(a)}):
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [PA(0)], check


def add_gamma_exit(R, z):
    K, E, X = z

    def check(R, s, t):
        w = {('out', THIS): [X]}
        for k in range(K):
            w[('res', reg(THIS, k))] = [X]
        bad, n = grown(R, s, w)
        if bad:
            return bad
        o = n[('out', THIS)][0]
        r = [n[('res', reg(THIS, k))][0] for k in range(K)]
        bad = portis(R, s, o, 'the new output', None, ptype(PA(0)))
        for k in range(K):
            bad = bad or portis(R, s, r[k], 'the result of region %d' % k, PA(k), None, o)
        if not bad and not agrees(t, {'output': o, 'branchResult': tuple(r)}):
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [('vec', tuple(PA(k) for k in range(K)))], check


def add_theta(R, z):
    L, = z
    r0 = reg(THIS, 0)

    def check(R, s, t):
        bad, n = grown(R, s, {('in', THIS): [L], ('out', THIS): [L], ('arg', r0): [L], ('res', r0): [L + 1]})
        if bad:
            return bad
        i, o, a, r = (n[x][0] for x in (('in', THIS), ('out', THIS), ('arg', r0), ('res', r0)))
        ty = ptype(PA(0))
        bad = portis(R, s, i, 'the new input', PA(0), ty) or portis(R, s, o, 'the new output', None, ty) or \
            portis(R, s, a, 'the new argument', None, ty, i) or portis(R, s, r, 'the new result', a, ty, o)
        if not bad and not agrees(t, {'input': i, 'pre': a, 'post': r, 'output': o}):
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [PA(0)], check


def add_context(R, z):
    r0 = reg(THIS, 0)

    def check(R, s, t):
        bad, n = grown(R, s, {('in', THIS): [R.counts['in']], ('arg', r0): [R.counts['arg'][0]]})
        if bad:
            return bad
        i, a = n[('in', THIS)][0], n[('arg', r0)][0]
        bad = portis(R, s, i, 'the new input', PA(0), ptype(PA(0))) or \
            portis(R, s, a, 'the new argument', None, ptype(PA(0)), i)
        if not bad and not agrees(t, {'input': i, 'inner': a}):
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [PA(0)], check


def add_fix(R, z):
    C, F = z
    r0 = reg(THIS, 0)

    def check(R, s, t):
        bad, n = grown(R, s, {('out', THIS): [F], ('arg', r0): [F], ('res', r0): [F]})
        if bad:
            return bad
        o, a, r = n[('out', THIS)][0], n[('arg', r0)][0], n[('res', r0)][0]
        bad = portis(R, s, o, 'the new output', None, PA(0)) or portis(R, s, a, 'the new argument', None, PA(0)) or \
            portis(R, s, r, 'the new result', None, PA(0), o)
        if not bad and not agrees(t, {'recref': a, 'result': r, 'output': o}):
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [PA(0)], check


def fin_lambda(R, z):
    F, C, N = z
    R.counts['res'] = [N]
    base = R.base

    def nobase(owner, kind):
        return () if kind == 'res' else base(owner, kind)
    R.base = nobase
    r0 = reg(THIS, 0)
    args = tuple(('atom', 'origin', port('res', ('fin',), i)) for i in range(N))

    def extra(R, ip, d, o, ts, s, fr, e):
        if d.name == 'region' and o in args and not ts:
            return [(r0, s)]
        return None
    R.extra = extra

    def check(R, s, t):
        bad, n = grown(R, s, {('out', THIS): [0], ('res', r0): list(range(N))})
        if bad:
            return bad
        for i in range(N):
            bad = bad or portis(R, s, n[('res', r0)][i], 'result %d' % i, args[i])
        o = n[('out', THIS)][0]
        bad = bad or portis(R, s, o, 'the output', None, ('atom', 'optype'))
        if not bad and core(t) != o:
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [('vec', args)], check


def fin_delta(R, z):
    r0 = reg(THIS, 0)
    a = ('atom', 'origin', port('res', ('fin',), 0))

    def extra(R, ip, d, o, ts, s, fr, e):
        if d.name == 'region' and o == a and not ts:
            return [(r0, s)]
        return None
    R.extra = extra

    def check(R, s, t):
        bad, n = grown(R, s, {('out', THIS): [0], ('res', r0): [0]})
        if bad:
            return bad
        o = n[('out', THIS)][0]
        bad = portis(R, s, n[('res', r0)][0], 'the result', a)
        ty = R.ptype(s, o)
        if not bad and not contains(ty, lambda x: x == ('atom', 'ReferenceType') or x[0] == 'call' and
                                    x[1].endswith('::ReferenceType') or x[0] == 'field' and x[2] == 'reftype_'):
            bad = 'the output has type %s instead of the reference type of the delta' % pshow(ty)
        if not bad and core(t) != o:
            bad = 'returns %s' % pshow(unvar(t))
        return bad
    return [a], check


ADDS = [
    (RV + 'GammaNode', 'AddEntryVar', add_gamma_entry),
    (RV + 'GammaNode', 'AddExitVar', add_gamma_exit),
    (RV + 'ThetaNode', 'AddLoopVar', add_theta),
    (RV + 'LambdaNode', 'AddContextVar', add_context),
    (RV + 'PhiNode', 'AddContextVar', add_context),
    (RV + 'DeltaNode', 'AddContextVar', add_context),
    (RV + 'PhiBuilder', None, None),
    (RV + 'LambdaNode', 'finalize', fin_lambda),
    (RV + 'DeltaNode', 'finalize', fin_delta),
]
ADDS = [(RV + 'PhiNode', RV + 'PhiBuilder::AddFixVar', add_fix) if a[2] is None else a for a in ADDS]


def removals(P, rep):
    """removing variables removes exactly the ports of those variables"""
    T, r0 = THIS, reg(THIS, 0)

    def p(kind, i, k=0):
        return port(kind, T, i) if kind in ('in', 'out') else port(kind, reg(T, k), i)

    def rec(cls, **kw):
        return ('rec', cls, tuple(kw.items()))
    G, TH, L, PH, D = (RV + x for x in ('GammaNode', 'ThetaNode', 'LambdaNode', 'PhiNode', 'DeltaNode'))
    cases = []
    for K, O, gone in ((2, 3, (0, 2)), (2, 1, (0,)), (3, 2, (1,)), (2, 3, (1,)), (1, 2, ()), (2, 3, (0, 1, 2))):
        cases.append((G, 'RemoveExitVars', (K, 1, O), [('vec', tuple(p('out', i) for i in gone))],
                      {('out', None): gone, ('res', 'all'): gone}, None))
        cases.append((G, 'PruneExitVars', (K, 1, O), [],
                      {('out', None): gone, ('res', 'all'): gone}, [p('out', i) for i in gone]))
        cases.append((G, 'RemoveEntryVars', (K, O, 1),
                      [('vec', tuple(rec(G + '::EntryVar', input=p('in', i + 1),
                                         branchArgument=('vec', tuple(p('arg', i + 1, k) for k in range(K))))
                                     for i in gone))],
                      {('in', None): [i + 1 for i in gone], ('arg', 'all'): [i + 1 for i in gone]}, None))
        cases.append((TH, 'RemoveLoopVars', (O,),
                      [('vec', tuple(rec(TH + '::LoopVar', input=p('in', i), pre=p('arg', i), post=p('res', i + 1),
                                         output=p('out', i)) for i in gone))],
                      {('in', None): gone, ('out', None): gone, ('arg', 'all'): gone,
                       ('res', 'all'): [i + 1 for i in gone]}, None))
        cases.append((PH, 'RemoveContextVars', (O, 2),
                      [('vec', tuple(rec(PH + '::ContextVar', input=p('in', i), inner=p('arg', i + 2))
                                     for i in gone))],
                      {('in', None): gone, ('arg', 'all'): [i + 2 for i in gone]}, None))
        cases.append((PH, 'RemoveFixVars', (2, O),
                      [('vec', tuple(rec(PH + '::FixVar', recref=p('arg', i), result=p('res', i), output=p('out', i))
                                     for i in gone))],
                      {('out', None): gone, ('arg', 'all'): gone, ('res', 'all'): gone}, None))
        cases.append((L, 'PruneLambdaInputs', (2, O, 1), [],
                      {('in', None): gone, ('arg', 'all'): [i + 2 for i in gone]}, [p('arg', i + 2) for i in gone]))
        cases.append((D, 'PruneDeltaInputs', (O,), [],
                      {('in', None): gone, ('arg', 'all'): gone}, [p('arg', i) for i in gone]))
    for i in (0, 1):
        cases.append((HLS + 'LoopNode', 'removeLoopOutput', (2, 1, 3), [p('out', i)],
                      {('out', None): [i], ('res', 'all'): [i]}, None))
        cases.append((HLS + 'LoopNode', 'removeLoopInput', (2, 3, 1), [p('in', i)],
                      {('in', None): [i], ('arg', 'all'): [2 * i]}, None))
    for cls, name, z, args, gone, dead in cases:
        ms = [m[0] for m in P.classes[cls].methods if m[1] == name]
        if not ms:
            raise AnalysisBroken('%s::%s not found' % (cls, name))
        f = P.body_of(ms[0])
        R, env = make(P, cls, z)
        R.dead = None if dead is None else set(dead)
        exits = [x for x in R.run(f, args=args, env=env) if x[0] != 'throw']
        inst = '%s::%s %s minus %s' % (cls.rsplit('::', 1)[-1], name, '/'.join(map(str, z)),
                                       '/'.join('%s%s' % (k[0], list(v)) for k, v in gone.items()))
        bad = None if exits else 'it never succeeds'
        for k, t, s in exits:
            owners = [('in', T, None), ('out', T, None)] + [(kk, reg(T, i), 'all') for i in range(len(R.counts['arg']))
                                                            for kk in ('arg', 'res')]
            for kind, owner, sel in owners:
                dropped = gone.get((kind, sel), ())
                want = [x for i, x in enumerate(R.base(owner, kind)) if i not in dropped]
                got = list(R.plist(s, owner, kind))
                if want != got:
                    bad = bad or 'of %s, %ss %s remain instead of %s' % (
                        pshow(owner), kind, [x[3] for x in got], [x[3] for x in want])
        if bad:
            rep.violation('node/remove', inst, f.file, f.line, '%s: %s' % (inst, bad))
        else:
            rep.site('node/remove', inst)


def check(P, rep):
    rep.rule('node/lookup', 'a variable accessor, given a port, returns the variable that port belongs to in the layout of the '
             'node, and the list accessors return every variable once, in order')
    rep.rule('node/known', 'every structural node and variable kind is covered')
    rep.rule('node/add', 'adding a variable adds exactly its ports, in the right regions and positions, typed and connected, and '
             'returns them')
    rep.rule('node/remove', 'removing variables removes exactly their ports')
    variables(P, rep)
    rep.floor('node/lookup', 250)
    rep.floor('node/add', 30)
    rep.floor('node/remove', 40)


CHECKS = {'C06': check}
